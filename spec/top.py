"""What a whole validation does (properties C06, C07, C10 and C22)."""
import os

import h5py

from punx import FileNotFound, HDF5_Open_Error

DEFINITIONS = ("/NXentry/definition", "/NXentry/NXsubentry/definition")


def refusal(fname, opens):
    """the error for a file that cannot be validated"""
    if not os.path.exists(fname):
        raise FileNotFound(fname)
    if not opens:
        raise HDF5_Open_Error(fname)


def judged(validator):
    """every item is judged once, every group once, the entries that name an
    application definition, and the default plot once"""
    for items in validator.classpaths.values():
        for item in items:
            yield "item name", item
            yield "attribute", item
    for item in validator.addresses.values():
        if isinstance(item.h5_object, h5py.Group):
            yield "group", item
    for k in DEFINITIONS:
        if k in validator.classpaths:
            for item in validator.classpaths[k]:
                yield "application definition", item.parent
    yield ("default plot",)
