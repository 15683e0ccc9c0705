"""What item names should get (property C01, C02), written from the property
text.  Plain Python, run by the same interpreter as the code."""
import re

from punx import finding, utils
from punx.validations import item_name

STRICT = r"[a-z_][a-z0-9_]*"
NAME = "validItemName"
NON_NEXUS = "non-NeXus content"


def rules(validator):
    """labels of the rules with their patterns, strict rule first"""
    nxdl = validator.manager.nxdl_file_set.schema_manager.nxdl
    found = {"strict pattern: " + STRICT: STRICT}
    if NAME in nxdl.patterns:
        for p in nxdl.patterns[NAME].re_list:
            found["relaxed pattern: " + p] = p
    return found


def match_key(validator, text):
    """label of the first rule which the whole text follows"""
    s = utils.decode_byte_string(text)
    if not isinstance(s, str):
        return None
    if re.fullmatch(STRICT, s):
        return "strict pattern: " + STRICT
    nxdl = validator.manager.nxdl_file_set.schema_manager.nxdl
    if NAME in nxdl.patterns:
        for p in nxdl.patterns[NAME].re_list:
            if re.fullmatch(p, s):
                return "relaxed pattern: " + p
    return None


def in_collection(group):
    """is it an NXcollection, or in one?  (the class path of a group has classes only)"""
    return "/NXcollection/" in group.classpath + "/"


def group_or_field(validator, item):
    key = item_name.validItemName_match_key(validator, item.name)
    if in_collection(item if utils.isHdf5Group(item.h5_object) else item.parent):
        yield item.h5_address, NAME, finding.WARN
    elif key is None:
        yield item.h5_address, NAME, finding.ERROR
    elif key == "strict pattern: " + STRICT:
        yield item.h5_address, NAME, finding.OK
    else:
        yield item.h5_address, NAME, finding.NOTE


def any_attribute(validator, item):
    if item_name.validItemName_match_key(validator, item.name) is None:
        yield item.h5_address, NAME, finding.ERROR
    else:
        yield item.h5_address, NAME, finding.OK


def nx_class_spelling(validator, item):
    nxdl = validator.manager.nxdl_file_set.schema_manager.nxdl
    text = utils.attribute_text(item.h5_object)
    status = finding.ERROR
    if text is not None:
        if any(re.fullmatch(p, text) for p in nxdl.patterns["validNXClassName"].re_list):
            status = finding.OK
    yield item.h5_address, NAME, status


def seen_through_link(item):
    """attributes of an item whose @target names another address"""
    if "target" not in item.h5_object.attrs:
        return False
    text = utils.attribute_text(item.h5_object.attrs["target"])
    return text is not None and text != item.h5_address


def verdict(validator, item):
    if item.parent is None or item.name in item.validations:
        return
    if item.is_attribute:
        if item.classpath == NON_NEXUS:
            return
        if item.name == "NX_class":
            for x in nx_class_spelling(validator, item):
                yield x
        elif not seen_through_link(item.parent):
            for x in any_attribute(validator, item):
                yield x
    else:
        for x in group_or_field(validator, item):
            yield x
