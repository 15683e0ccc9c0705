"""Items of the catalogue (property C06): their addresses and class paths."""
import h5py

from punx import utils
from punx.validate import ValidationItem

NON_NEXUS = "non-NeXus content"


def is_attribute(parent, obj, attribute, name):
    return attribute is not None


def item_name(parent, obj, attribute, name):
    if attribute is not None:
        return attribute
    if parent is None:
        return "/"
    return name


def address(parent, obj, attribute, name):
    if attribute is not None:
        if parent.classpath == NON_NEXUS:
            return None
        return parent.h5_address + "@" + attribute
    if parent is None:
        return "/"
    if parent.parent is None:
        return "/" + name
    return parent.h5_address + "/" + name


def nexus_class(obj):
    """the class that the NX_class attribute of a group gives, None if it gives none"""
    c = utils.decode_byte_string(obj.attrs.get("NX_class"))
    if isinstance(c, str) and c.startswith("NX"):
        return c
    return None


def classpath(parent, obj, attribute, name):
    if parent is None:
        return ""
    if parent.classpath == NON_NEXUS:
        return NON_NEXUS
    if attribute is not None:
        return parent.classpath + "@" + attribute
    if isinstance(obj, h5py.Group):
        c = nexus_class(obj)
        if c is None:
            return NON_NEXUS
        return parent.classpath + "/" + c
    return parent.classpath + "/" + name


def same_or_above(item, obj):
    """Is the item, or a group above it, this object?"""
    if item is None:
        return False
    return item.h5_object == obj or same_or_above(item.parent, obj)


def entries(item):
    """an item is in both catalogues, by address and by class path"""
    return [("address", item.h5_address, item), ("classpath", item.classpath, item)]


def content(parent, obj, name):
    """what the catalogues get for a group and all that is in it"""
    group = ValidationItem(parent, obj, name=name)
    for x in entries(group):
        yield x
    for k, v in obj.attrs.items():
        for x in entries(ValidationItem(group, v, attribute_name=utils.decode_byte_string(k))):
            yield x
    for k in obj:
        if not utils.isHdf5Child(obj, k):
            continue
        child = obj[k]
        n = utils.decode_byte_string(k)
        if not isinstance(child, h5py.Group):
            dataset = ValidationItem(group, child, name=n)
            for x in entries(dataset):
                yield x
            for a, v in child.attrs.items():
                for x in entries(ValidationItem(dataset, v, attribute_name=utils.decode_byte_string(a))):
                    yield x
        elif not same_or_above(group, child):
            yield "group", group, child, n
