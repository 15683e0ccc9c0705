"""What counts as what in a file (property C21)."""
import os

import h5py

from punx import utils


def is_nexus_file(filename):
    """some group directly below the root says that it is an NXentry"""
    if not os.path.exists(filename):
        return None
    root = h5py.File(filename, "r")
    return any(utils.isHdf5Child(root, k) and nexus_group(root[k], "NXentry") for k in root)


def nexus_group(obj, nxclass):
    return isinstance(obj, h5py.Group) and not isinstance(obj, h5py.File) and utils.attribute_text(obj.attrs.get("NX_class")) == nxclass


def nexus_link(obj):
    """linked to another item: its target attribute is some other address"""
    target = utils.attribute_text(obj.attrs.get("target"))
    return target is not None and target != "" and target != obj.name


def child(group, address):
    """something can be read at this address"""
    return isinstance(address, str) and address != "" and readable(group, address)


def readable(group, address):
    try:
        group[address]
    except (KeyError, OSError, RuntimeError, ValueError):
        return False
    return True
