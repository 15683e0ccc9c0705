"""The command line (properties C18 and C19)."""


def subcommand(word, names):
    """the subcommand that a word stands for, None if it stands for none"""
    if word in names:
        return word
    if len(word) < 2:
        return None
    begun = [n for n in names if n.startswith(word)]
    if len(begun) == 1:
        return begun[0]
    return None


def words(report):
    return report.upper().split(",")


def chosen(report, names):
    """status names in a --report option"""
    return [w for w in words(report) if w in names]


def refused(report, names):
    """words in a --report option that are no names of a status"""
    return [w for w in words(report) if w not in names]


def validation(args, file_sets, names):
    """what the validate command does"""
    if args.file_set_name not in file_sets:
        yield "exit"
    elif args.infile.endswith(".nxdl.xml"):
        yield "NXDL file", args.infile, file_sets[args.file_set_name]
    elif any(w not in names for w in words(args.report)):
        yield "exit"
    else:
        yield "data file", args.infile, args.file_set_name


def tree(args, there, path):
    """what the tree command does"""
    if there:
        if args.infile.endswith(".nxdl.xml"):
            yield "NXDL file", path
            yield "report", args.show_attributes, None
        else:
            yield "HDF5 file", path
            yield "report", args.show_attributes, args.max_array_items
