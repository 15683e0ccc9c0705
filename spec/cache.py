"""Caches of NXDL file sets and their installation (properties C16 and C17)."""


def short(sha):
    """the first seven characters"""
    return sha[:7]


def date_of(file_set):
    """no date counts as earliest"""
    if file_set.last_modified is None:
        return ""
    return file_set.last_modified


def sets_of_cache(path, names, join, is_directory, exists, read):
    """the file sets in a cache: directories with an information file"""
    for name in names:
        if is_directory(join(path, name)) and exists(join(path, name, "__github_info__.json")):
            yield name, read(join(path, name, "__github_info__.json"))


def where(file_name, source, directory, absolute, exists):
    """path and cache of the file set with this information file"""
    path = absolute(directory(file_name))
    if directory(path) == source:
        return path, "source"
    return path, "user"


CATEGORIES = ("base_classes", "applications", "contributed_definitions")


def extractable(parts, suffix, endings, allowed):
    """NXDL content: a file in an allowed directory at the top, or in one of
    them directly below another"""
    if suffix not in endings:
        return False
    if len(parts) == 2:
        return parts[0] in allowed
    if len(parts) == 3:
        return parts[0] in allowed and parts[1] in allowed and parts[0] != parts[1]
    return False


def latest(names, wanted, date, start):
    """latest date of the wanted names, at least the start"""
    last = start
    for name in names:
        if wanted(name):
            last = max(last, date(name))
    return last


def installed(names, wanted, work, top, target, replace, fresh):
    """what is done to install an archive, in this order"""
    for name in names:
        if wanted(name):
            yield "extract", name, work
    yield "write", top / "__github_info__.json"
    if replace:
        yield "move", target, fresh
    yield "move", top, target


def refused(names, wanted, top_name, work, top):
    """an archive that has no directory with NXDL files"""
    count = 0
    for name in names:
        if wanted(name):
            count += 1
    return count < 2 or top_name == ".." or not top.is_dir() or top == work


def downloaded(name, path, exists, replace):
    """what is done to download a file set"""
    if exists and not replace:
        return
    yield "download", name
    yield "unpack", path / name


def requested(names, directory, replace):
    """the file sets to install, one after the other"""
    for name in names:
        yield name, directory, replace


def cache_rows(sets, short):
    for name, v in sets.items():
        yield [name, str(v.cache), str(v.last_modified), short(v), str(v.path)]
