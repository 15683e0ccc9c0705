"""Judgement of NeXus classes (property C02)."""
from punx import finding, utils
from punx.validations import attribute


def is_base_class(nxdl):
    """may this definition be used as the class of a group?"""
    if nxdl.category == "base_classes":
        return True
    if nxdl.category != "contributed_definitions":
        return False
    if "entry" in nxdl.groups:
        return "definition" not in nxdl.groups["entry"].fields
    return True


def used_as_base_class(validator, nx_class):
    if nx_class in validator.manager.classes:
        return attribute.isBaseClassNXDL(validator.manager.classes[nx_class])
    return False


def group_class(validator, item, nx_class):
    if nx_class not in validator.manager.classes:
        yield item.h5_address, "known NXDL", finding.ERROR
    else:
        yield item.h5_address, "known NXDL", finding.OK
        if attribute.isBaseClassNXDL(validator.manager.classes[nx_class]):
            yield item.h5_address, "NeXus base class", finding.OK
        else:
            yield item.h5_address, "NeXus base class", finding.ERROR


def class_attribute(validator, item):
    text = utils.attribute_text(item.h5_object)
    if text is None or text not in validator.manager.classes:
        yield item.h5_address, "attribute value", finding.ERROR
    elif attribute.isBaseClassNXDL(validator.manager.classes[text]):
        yield item.h5_address, "attribute value", finding.OK
    else:
        yield item.h5_address, "attribute value", finding.ERROR
