"""Name patterns and types of a schema (property C20)."""


def patterns(nodes, kind, word, restriction, integer, new):
    """every valid... type as it is written"""
    db = {}
    for node in nodes:
        name = node.attrib["name"]
        if name.startswith("valid"):
            r = restriction(node)
            p = new()
            p.pattern_name = name
            p.base = word(r.attrib["base"])
            db[name] = p
            for item in r:
                if kind(item) == "pattern":
                    p.re_list.append(item.attrib["value"])
                elif kind(item) == "maxLength":
                    p.maxLength = integer(item.attrib["value"])
    return db


def types(nodes, kind, item):
    """named types of the types schema"""
    db = {}
    for node in nodes:
        if kind(node) not in ("comment", "annotation"):
            t = item(node)
            if t.name is not None:
                db[t.name] = t
    return db


def listed(nodes, kind):
    """values of an enumeration"""
    for node in nodes:
        if kind(node) == "enumeration":
            yield node.attrib["value"]


def each(names, f):
    for name in names:
        yield f(name)
