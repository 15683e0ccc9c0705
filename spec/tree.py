"""What the tree view shows (properties C11 and C12)."""
import os

import h5py

from punx import utils


def shown(view, n):
    """how many items are shown from the front of n"""
    limit = view.array_items_shown
    return n if limit is None or n <= limit else limit - 2


def array_text(view, obj, indentation):
    """all items when there are no more than the limit, else the first
    limit-minus-two, an ellipsis and the last"""
    n = obj.shape[0]
    rank = len(obj.shape)
    inner = indentation + "  "
    if n <= view.array_items_shown:
        items = [part_text(view, obj, rank, i, inner) for i in range(n)]
    else:
        items = [part_text(view, obj, rank, i, inner) for i in range(view.array_items_shown - 2)]
        items = items + ["...", part_text(view, obj, rank, n - 1, inner)]
    if rank == 1:
        return str(items)
    return "[\n" + inner + ("\n" + inner).join(items) + "\n" + indentation + "]"


def part_text(view, obj, rank, i, indentation):
    if rank == 1:
        return obj[i]
    if rank < 4:
        return view._renderNdArray(obj[i, :], indentation + "  ")
    return "rank=" + str(rank - 1)


# ------------------------------------------------------------------------ C11
def attribute_line(indentation, name, value):
    """name and value of an attribute"""
    text = utils.decode_byte_string(value)
    if isinstance(text, str):
        shown = '"' + text + '"'
    elif isinstance(text, list) and len(text) > 0 and isinstance(text[0], str):
        shown = '["' + '", "'.join(text) + '"]'
    else:
        shown = str(text)
    return indentation + "  @" + name + " = " + shown


def attribute_lines(view, obj, indentation, extra):
    """one line for each attribute, unless switched off"""
    if view.show_attributes:
        for name, value in obj.attrs.items():
            yield view._renderSingleAttribute(indentation, name, value)
        for name, value in extra.items():
            yield view._renderSingleAttribute(indentation, name, value)


def linked(obj, name, indentation):
    return [indentation + name + " --> " + utils.attribute_text(obj.attrs["target"])]


def is_subgroup(obj, name, enclosing):
    """a group in this group, which is not a link to somewhere else"""
    if isinstance(obj.get(name, getlink=True), h5py.SoftLink) or not utils.isHdf5Child(obj, name):
        return False
    child = obj[name]
    return isinstance(child, h5py.Group) and not utils.isNeXusLink(child) and child not in enclosing


def item_lines(view, obj, name, indentation, enclosing):
    """what is shown of an item of a group which is not a subgroup"""
    link = obj.get(name, getlink=True)
    inner = indentation + "  "
    if isinstance(link, h5py.SoftLink):
        yield inner + name + ": --> " + link.path
    elif not utils.isHdf5Child(obj, name):
        yield inner + name + ": missing external file"
        if view.show_attributes and isinstance(link, h5py.ExternalLink):
            yield view._renderSingleAttribute(inner, "file", link.filename)
            yield view._renderSingleAttribute(inner, "path", link.path)
    else:
        child = obj[name]
        if utils.isNeXusLink(child):
            for x in view._renderLinkedObject(child, name, inner):
                yield x
        elif isinstance(child, h5py.Group):  # one of those around it
            yield inner + name + " --> " + child.name
        elif isinstance(child, h5py.Dataset):
            for x in view._renderDataset(child, name, inner):
                yield x
            if view.show_attributes and isinstance(link, h5py.ExternalLink):
                yield view._renderSingleAttribute(inner, "file", link.filename)
                yield view._renderSingleAttribute(inner, "path", link.path)
        else:
            yield inner + name + ":" + type(child).__name__
            for x in view._renderAttributes(child, inner, {}):
                yield x


def group_lines(view, obj, name, indentation, link, enclosing):
    """title, attributes, then every item once, subgroups last, one step further in"""
    enclosing = enclosing + (obj,)
    nxclass = utils.attribute_text(obj.attrs.get("NX_class", ""))
    yield indentation + name + (":" + nxclass if nxclass else "")
    extra = {"file": link.filename, "path": link.path} if isinstance(link, h5py.ExternalLink) else {}
    for x in view._renderAttributes(obj, indentation, extra):
        yield x
    for item in sorted(obj, key=str):
        if not is_subgroup(obj, item, enclosing):
            for x in item_lines(view, obj, item, indentation, enclosing):
                yield x
    for item in sorted(obj, key=str):
        if is_subgroup(obj, item, enclosing):
            for x in view._renderGroup(obj[item], item, indentation + "  ", obj.get(item, getlink=True), enclosing):
                yield x


def shape_text(shape):
    if shape is None:
        return "[]"
    if len(shape) == 1 and shape[0] == 1:
        return ""
    return "[" + ",".join([str(n) for n in shape]) + "]"


def type_text(view, dset):
    if dset.dtype.kind == "S" and dset.shape:
        t = "char[" + ",".join([str(row.dtype.itemsize) for row in dset]) + "]"
    elif dset.dtype.kind in ("S", "O"):
        t = "CHAR"
    else:
        t = str(dset.dtype)
    return "NX_" + t.upper() if view.isNeXus else t


def strings(dset):
    """text of strings of fixed length"""
    if dset.shape == ():
        return utils.decode_byte_string(dset[()])
    items = ['"' + str(utils.decode_byte_string(x)) + '"' for x in dset[()]]
    text = ", ".join(items)
    return "[" + text + "]" if len(items) > 1 else text


def dataset_lines(view, dset, name, indentation):
    """name, type and value of a field, then its attributes"""
    if view.isNeXus and utils.isNeXusLink(dset):
        return view._renderLinkedObject(dset, name, indentation)
    head = indentation + name + ":" + view._renderDsType(dset)
    full = head + view._renderDsShape(dset)
    more = []
    if dset.shape is None:
        line = head + " = (no value)"
    elif dset.dtype.kind == "S":
        line = head + " = " + strings(dset)
    elif dset.dtype.kind == "O":
        line = head + " = " + str(utils.decode_byte_string(dset[()]))
    elif dset.shape == (1,):
        line = full + " = " + str(dset[0])
    elif view.array_items_shown <= 2:
        line = full + " = [ ... ]"
    elif len(dset.shape) < 2:
        line = full + " = " + view._renderArray(dset, indentation + "  ")
    else:
        line = full + " = __array"
        more = [indentation + "  __array = " + view._renderArray(dset, indentation + "  ")]
    return [line] + more + view._renderAttributes(dset, indentation, {})


def field_array(view, dset, indentation):
    """the text of the array; nothing for a scalar"""
    if dset.shape == ():
        return ""
    return view._renderNdArray(dset, indentation + "  ")


def opened(fname):
    """file and whether it is NeXus; no file if there is none"""
    if os.path.exists(fname):
        return fname, utils.isNeXusFile(fname)
    return None, False


def tree(view, show_attributes):
    """the file and everything in it, from its root"""
    if view.filename is None:
        return None
    with h5py.File(view.filename, "r") as f:
        name = view.filename + (" : NeXus data file" if view.isNeXus else "")
        return view._renderGroup(f, name, "", None, ())
