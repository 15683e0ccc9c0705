"""Comparison of a group with its base class (property C04)."""
from punx import finding, utils
from punx.validations import attribute

NON_NEXUS = "non-NeXus content"


def ok_if(test):
    if test:
        return finding.OK
    return finding.ERROR


def class_against_group(validator, item, base_class):
    for name in base_class.fields:
        yield item.h5_address, "NXDL field in data file", (
            finding.OK if utils.isHdf5Child(item.h5_object, name) else finding.OPTIONAL)
    for name in base_class.groups:
        yield item.h5_address, "NXDL group in data file", (
            finding.OK if utils.isHdf5Child(item.h5_object, name) else finding.OPTIONAL)


def group_attributes(validator, item, base_class):
    for name, value in item.h5_object.attrs.items():
        value = utils.decode_byte_string(value)
        here = item.h5_address + "@" + name
        yield here, "known attribute", finding.OK
        if name in base_class.attributes:
            spec = base_class.attributes[name]
            if len(spec.enumerations) > 0:
                yield here, "attribute value enumeration", ok_if(utils.attribute_text(value) in spec.enumerations)
            if name == "default" and item.classpath in ("", "/NXentry", "/NXentry/NXsubentry"):
                yield here, "value of @default", ok_if(
                    utils.isHdf5Child(item.h5_object, utils.attribute_text(value)))
            elif name == "signal":
                yield here, "value of @signal", ok_if(
                    utils.isHdf5Child(item.h5_object, utils.attribute_text(value)))
            elif name == "target":
                text = utils.attribute_text(value)
                yield here, "value of @target", ok_if(text is not None and text in validator.addresses)
            elif name != "axes":
                yield here, "value of @" + name, finding.TODO


def group_items(validator, item, base_class):
    for name in item.h5_object:
        if utils.isHdf5Child(item.h5_object, name):
            here = validator.addresses.get(item.child_address(name))
            if here is not None:
                child = item.h5_object[name]
                if utils.isHdf5Dataset(child):
                    yield here.h5_address, "field in base class", finding.OK
                elif utils.isHdf5Group(child):
                    yield here.h5_address, "group in base class", finding.OK
                else:
                    yield here.h5_address, "unhandled: group_items_in_base_class", finding.TODO


def group_against_class(validator, item, base_class):
    for x in group_attributes(validator, item, base_class):
        yield x
    for x in group_items(validator, item, base_class):
        yield x


def group(validator, item):
    if item.classpath == NON_NEXUS:
        yield item.h5_address, "NeXus_group", finding.OK
        return
    nx_class = "NXroot" if item.classpath == "" else item.nx_class
    for x in class_of_group(validator, item, nx_class):
        yield x
    base_class = validator.manager.classes.get(nx_class)
    if base_class is None:
        yield item.h5_address, "NeXus base class", finding.ERROR
    else:
        for x in group_against_class(validator, item, base_class):
            yield x
        for x in class_against_group(validator, item, base_class):
            yield x
        yield item.h5_address, "NeXus base class", finding.TODO


def class_of_group(validator, item, nx_class):
    from spec import classes

    return classes.group_class(validator, item, nx_class)
