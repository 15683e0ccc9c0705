"""Attributes that name other items (property C03)."""
import numpy

from punx import finding, utils
from punx.validations import item_name

VALUE = "attribute value"


def ok_if(test):
    if test:
        return finding.OK
    return finding.ERROR


def name_status(validator, name):
    key = item_name.validItemName_match_key(validator, name)
    if key is None:
        return finding.ERROR
    if key.startswith("strict"):
        return finding.OK
    return finding.NOTE


def marks_plottable(value):
    """the number 1, as number or as text, with or without leading zeros"""
    return str(value).lstrip("0") == "1"


def signal(validator, item):
    parent = item.parent.h5_object
    if utils.isHdf5Dataset(parent):
        if marks_plottable(utils.decode_byte_string(item.h5_object)):
            yield item.h5_address, VALUE, finding.OK
        else:
            yield item.h5_address, VALUE, finding.NOTE
    elif utils.isHdf5Group(parent):
        text = utils.attribute_text(item.h5_object)
        shown = text
        if text is None:
            shown = str(utils.decode_byte_string(item.h5_object))
        yield item.h5_address, "valid name @signal=" + shown, name_status(validator, shown)
        yield item.h5_address, VALUE, ok_if(utils.isHdf5Child(parent, text))
    else:
        yield item.h5_address, VALUE, finding.TODO


def axes(validator, item):
    parent = item.parent.h5_object
    if not utils.isHdf5Dataset(parent):
        names = utils.decode_byte_string(item.h5_object)
        if names is None:
            names = []
        if not isinstance(names, list):
            if isinstance(names, numpy.ndarray):
                names = names.tolist()
            if not isinstance(names, list):
                names = [names]
        for name in names:
            yield item.h5_address, f"valid name @axes['{name}']", name_status(validator, name)
            yield item.h5_address, f"axes['{name}'] exists", ok_if(utils.isHdf5Child(parent, name))
    yield item.h5_address, VALUE, finding.TODO


def target(validator, item):
    text = utils.attribute_text(item.h5_object)
    status = finding.ERROR
    if text is not None and text.startswith("/"):
        if good_path(validator, text):
            status = ok_if(utils.isHdf5Child(validator.h5, text))
    yield item.h5_address, VALUE, status


def good_path(validator, text):
    """every part is a valid name of an item that is there"""
    address = ""
    for part in text[1:].split("/"):
        if item_name.validItemName_match_key(validator, part) is None:
            return False
        address += "/" + part
        if not utils.isHdf5Child(validator.h5, address):
            return False
    return True


def pointer(validator, test_name, value, item, attribute_item):
    """(contract of child_exists)"""
    yield attribute_item.h5_address, test_name, ok_if(
        utils.isHdf5Child(item.h5_object, utils.attribute_text(value)))


def todo(validator, item):
    yield item.h5_address, VALUE, finding.TODO


def attribute(validator, item):
    """which judgement an attribute gets"""
    from spec import classes

    if item.is_attribute and item.h5_address is not None:
        special = {"NX_class": classes.class_attribute, "target": target, "signal": signal, "axes": axes}
        if item.name in special:
            for x in special[item.name](validator, item):
                yield x
        else:
            for x in todo(validator, item):
                yield x
