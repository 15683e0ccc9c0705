"""The default plot (property C07)."""
import h5py

from punx import finding, utils

SIGNAL = "/NXentry/NXdata@signal"


def default_plot(validator):
    from punx.validations import default_plot as dp

    here = validator.addresses["/"].h5_address
    address = dp.default_plot_v3(validator)
    if address is None:
        address = dp.default_plot_v2(validator)
    if address is not None:
        yield here, "NeXus default plot", finding.OK
    elif required(validator):
        yield here, "NeXus default plot", finding.ERROR
    else:
        yield here, "NeXus default plot", finding.NOTE


def required(validator):
    """the file set requires a data group in NXentry (no NXentry at all is an error, too)"""
    if not any(getattr(v, "nx_class", None) == "NXentry" for v in validator.addresses.values()):
        return True
    return validator.manager.classes["NXentry"].groups["data"].minOccurs > 0


def marked(item, classpath):
    """an attribute signal of a field, its value is 1"""
    if not (classpath.endswith("@signal") and item.name == "signal" and isinstance(item.parent.h5_object, h5py.Dataset)):
        return False
    return str(utils.decode_byte_string(item.h5_object)).lstrip("0") == "1"


V3 = "NeXus default plot v3"


def v3_signals(validator):
    """the signal attributes of the NXdata groups in NXentry groups"""
    return [a for a in validator.classpaths.get(SIGNAL, [])
            if a.is_attribute and isinstance(a.parent.h5_object, h5py.Group)]


def pointed(item, attribute):
    """the address of the item in this group which the attribute names, None if there is none"""
    if attribute not in item.h5_object.attrs:
        return None
    text = utils.attribute_text(item.h5_object.attrs[attribute])
    if not utils.isHdf5Child(item.h5_object, text):
        return None
    return item.h5_address + ("" if item.h5_address.endswith("/") else "/") + text


def points(item, to):
    """Does the default attribute of this group name that group?"""
    return pointed(item, "default") == to.h5_address


def v3(validator):
    """findings; with a last one (None, None, found)"""
    found = False
    path = []
    for a in v3_signals(validator):
        if pointed(a.parent, "signal") is None:
            yield a.h5_address, V3 + ", NXdata@signal", finding.ERROR
            yield "found", "", False
            return
        data = a.parent.h5_object
        if isinstance(data[utils.attribute_text(data.attrs["signal"])], h5py.Dataset):
            yield a.h5_address, V3 + ", NXdata@signal", finding.OK
            found = True
            if points(validator.addresses["/"], a.parent.parent) and points(a.parent.parent, a.parent):
                path.append(a)
    if len(path) == 1:
        yield path[0].h5_address, V3 + " NIAC2014", finding.OK
    yield "found", "", found
