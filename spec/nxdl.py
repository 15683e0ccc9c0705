"""NXDL files and what is read from them (properties C14, C15 and C20)."""

CATEGORIES = ("base_classes", "applications", "contributed_definitions")


def nxdl_files(directory, join, listing):
    """the NXDL files of a file set: categories in this order, sorted in each"""
    for category in CATEGORIES:
        for name in sorted(listing(join(directory, category))):
            if name.endswith(".nxdl.xml"):
                yield join(join(directory, category), name)


def title_and_category(path, directory, last):
    """class of a file: its name before the first dot; category: its directory"""
    return last(path).split(".")[0], last(directory(path))


def definitions(files, title, read):
    """the definitions known, in this order"""
    for f in files:
        yield title(f), read(f)


def items_of(nodes, kind, item):
    """every node becomes one item"""
    for node in nodes:
        yield kind, item(node)


def values(nodes):
    """listed values"""
    for node in nodes:
        yield node.attrib.get("value")


def values_given(nodes):
    for node in nodes:
        if node.attrib.get("value") is not None:
            yield node.attrib.get("value")


def names_given(nodes, kind, is_comment):
    for node in nodes:
        if not is_comment(node) and kind(node) == "symbol" and node.attrib.get("name") is not None:
            yield node.attrib.get("name")


def copies(pairs, copy):
    """every default of the schema, each a copy of its own"""
    for k, v in pairs:
        yield k, copy(v)


def symbols(nodes, of):
    for node in nodes:
        for s in of(node):
            yield s


def further(pairs, known):
    """XML attributes of a group that are not declared as attributes"""
    for k, v in pairs:
        if k not in ("name", "type") and not known(k):
            yield k, v


def dims(nodes, item):
    """sizes by index"""
    for node in nodes:
        yield node.attrib.get("index"), item(node)


def attribute_values(enumerations, items):
    """values listed for an attribute"""
    for e in enumerations:
        for node in items(e):
            if node.attrib.get("value") is not None:
                yield node.attrib.get("value")
