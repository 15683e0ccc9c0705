"""HDF5 files from JSON descriptions.

group {"t": "g", "attrs": {name: value}, "items": {name: node}}
field {"t": "d", "attrs": {..}, "data": value}
links {"t": "soft", "to": path} {"t": "hard", "to": path} {"t": "ext", "file": name, "to": path}
named type {"t": "type", "attrs": {..}}
value {"k": "s", "v": text} variable length text; {"k": "b", "v": hex} fixed length bytes;
 {"k": "S", "v": [hex], "shape": [..]} array of fixed length bytes; {"k": "O", "v": [text], "shape": [..]} array of text;
 {"k": "n", "dtype": .., "v": [..], "shape": [..]} numbers; {"k": "null", "dtype": ..} no value;
 {"k": "ref"} {"k": "bool"} {"k": "enum"} {"k": "complex"} {"k": "compound"} {"k": "vlen"}
names beginning with "hex:" are bytes that are not UTF-8
file {"root": group, "ext": {file name: group}}"""
import os

import h5py
import numpy


def name_of(n):
    if n.startswith("hex:"):
        return bytes.fromhex(n[4:])
    return n


def value(v):
    k = v["k"]
    if k == "s":
        return v["v"]
    if k == "b":
        return numpy.bytes_(bytes.fromhex(v["v"]))
    if k == "S":
        items = [bytes.fromhex(x) for x in v["v"]]
        n = max([1] + [len(x) for x in items])
        return numpy.array(items, dtype=f"S{n}").reshape(v["shape"])
    if k == "O":
        a = numpy.empty(len(v["v"]), dtype=object)
        for i, x in enumerate(v["v"]):
            a[i] = x if not x.startswith("hex:") else bytes.fromhex(x[4:])
        return a.reshape(v["shape"])
    if k == "n":
        return numpy.array(v["v"], dtype=v["dtype"]).reshape(v["shape"])
    if k == "bool":
        return numpy.bool_(True)
    if k == "complex":
        return numpy.complex128(1 + 2j)
    if k == "compound":
        return numpy.array([(1, 2.5)], dtype=[("a", "i4"), ("b", "f8")])
    if k == "null":
        return h5py.Empty(v.get("dtype", "f8"))
    raise KeyError(k)


def put_attr(obj, name, v):
    k = v["k"]
    name = name_of(name)
    if k == "O":
        obj.attrs.create(name, value(v), dtype=h5py.string_dtype("utf-8"))
    elif k == "ref":
        obj.attrs.create(name, obj.file["/"].ref, dtype=h5py.ref_dtype)
    elif k == "enum":
        obj.attrs.create(name, 1, dtype=h5py.enum_dtype({"RED": 0, "GREEN": 1}, basetype="i"))
    elif k == "vlen":
        a = numpy.empty(1, dtype=object)
        a[0] = numpy.array([1, 2], dtype="i4")
        obj.attrs.create(name, a, dtype=h5py.vlen_dtype("i4"))
    elif k == "null":
        obj.attrs.create(name, h5py.Empty(v.get("dtype", "f8")))
    elif isinstance(name, bytes):
        h5py.h5a.create(obj.id, name, h5py.h5t.NATIVE_INT32, h5py.h5s.create(h5py.h5s.SCALAR)).write(numpy.array(1, dtype='i4'))
    else:
        obj.attrs[name] = value(v)


def put_data(parent, name, v):
    k = v["k"]
    if k == "O":
        return parent.create_dataset(name, data=value(v), dtype=h5py.string_dtype("utf-8"))
    if k == "ref":
        d = parent.create_dataset(name, (1,), dtype=h5py.ref_dtype)
        d[0] = parent.file["/"].ref
        return d
    if k == "enum":
        return parent.create_dataset(name, data=[1, 0], dtype=h5py.enum_dtype({"RED": 0, "GREEN": 1}, basetype="i"))
    if k == "vlen":
        d = parent.create_dataset(name, (2,), dtype=h5py.vlen_dtype("i4"))
        d[0] = [1, 2, 3]
        d[1] = [4]
        return d
    return parent.create_dataset(name, data=value(v))


def fill(group, node, later, path):
    for a, v in node.get("attrs", {}).items():
        put_attr(group, a, v)
    for n, sub in node.get("items", {}).items():
        nm = name_of(n)
        t = sub["t"]
        if t == "g":
            fill(group.create_group(nm), sub, later, path)
        elif t == "d":
            d = put_data(group, nm, sub.get("data", {"k": "n", "dtype": "i4", "v": [1], "shape": []}))
            for a, v in sub.get("attrs", {}).items():
                put_attr(d, a, v)
        elif t == "soft":
            group[nm] = h5py.SoftLink(sub["to"])
        elif t == "ext":
            group[nm] = h5py.ExternalLink(sub["file"], sub["to"])
        elif t == "hard":
            later.append((group.name, nm, sub["to"]))
        elif t == "type":
            group[nm] = numpy.dtype("f8")
            for a, v in sub.get("attrs", {}).items():
                put_attr(group[nm], a, v)


def write(case, folder, fname="data.h5"):
    for name, node in case.get("ext", {}).items():
        write_one(node, os.path.join(folder, name))
    p = os.path.join(folder, fname)
    write_one(case["root"], p)
    return p


def write_one(node, path):
    with h5py.File(path, "w", track_order=None) as f:
        later = []
        fill(f, node, later, path)
        for g, n, to in later:
            try:
                f[g][n] = f[to]
            except (KeyError, OSError, RuntimeError, ValueError):
                pass
