"""Independent reference: the findings that a file should get."""
import re
from collections import Counter

import h5py
import numpy

STRICT = r"[a-z_][a-z0-9_]*"


def text1(b):
    return b.decode("utf8", errors="replace") if isinstance(b, bytes) else b


def deep(x):
    if isinstance(x, list):
        return [deep(i) for i in x]
    return str(text1(x))


def decode(v):
    if isinstance(v, numpy.ndarray) and v.dtype.kind in "OS":
        return deep(v.tolist()) if v.size else None
    return text1(v)


def single(v):
    """the text of a value that is one text, else None"""
    v = decode(v)
    while isinstance(v, list) and len(v) == 1:
        v = v[0]
    return v if isinstance(v, str) else None


def there(group, name):
    if not is_group(group) or not isinstance(name, (str, bytes)) or not len(name):
        return None
    try:
        return group.get(name)
    except (KeyError, OSError, RuntimeError, ValueError):
        return None


def is_group(o):
    return isinstance(o, h5py.Group)


class Item:
    pass


class Reference:
    """findings: Counter of (address, test, status)"""

    def __init__(self, h5, fs):
        self.h5, self.fs = h5, fs
        self.found = []
        self.items, self.by_address, self.by_class = [], {}, {}
        self.catalog(None, h5, None)
        self.judge()

    def add(self, where, test, status):
        self.found.append((where, test, status))

    # ------------------------------------------------------------ catalogue
    def catalog(self, parent, obj, name):
        it = Item()
        it.parent, it.obj, it.attr = parent, obj, False
        it.name = "/" if parent is None else name
        it.addr = "/" if parent is None else ("" if parent.addr == "/" else parent.addr) + "/" + name
        it.nx = None
        if parent is None:
            it.cp = ""
        elif parent.cp is None:
            it.cp = None
        elif is_group(obj):
            c = decode(obj.attrs.get("NX_class"))
            if isinstance(c, str) and c.startswith("NX"):
                it.nx = c
                it.cp = parent.cp + "/" + c
            else:
                it.cp = None
        else:
            it.cp = parent.cp + "/" + name
        self.put(it)
        for k, v in obj.attrs.items():
            a = Item()
            a.parent, a.obj, a.attr, a.name = it, v, True, text1(k)
            a.nx = None
            a.cp = None if it.cp is None else it.cp + "@" + a.name
            a.addr = None if it.cp is None else it.addr + "@" + a.name
            self.put(a)
        if not is_group(obj):
            return
        for k in obj:
            child = there(obj, k)
            if child is None:
                continue
            up = it
            while up is not None:
                if up.obj == child:
                    break
                up = up.parent
            if up is not None and is_group(child):
                continue
            self.catalog(it, child, text1(k))

    def put(self, it):
        self.items.append(it)
        if it.addr is not None:
            self.by_address[it.addr] = it
        self.by_class.setdefault(it.cp, []).append(it)

    # ----------------------------------------------------------------- names
    def name_rank(self, s):
        if not isinstance(s, str):
            return None
        if re.fullmatch(STRICT, s):
            return "OK"
        for p in self.fs.names:
            if re.fullmatch(p, s):
                return "NOTE"
        return None

    def seen_through_link(self, it):
        if "target" not in it.obj.attrs:
            return False
        t = single(it.obj.attrs["target"])
        return t is not None and t != it.addr

    def judge(self):
        for it in self.items:
            self.name_verdict(it)
            if it.attr and it.addr is not None:
                self.attribute(it)
        for it in self.items:
            if not it.attr and is_group(it.obj):
                self.group(it)
        for cp in ("/NXentry/definition", "/NXentry/NXsubentry/definition"):
            for it in self.by_class.get(cp, []):
                if not it.attr:
                    self.application(it.parent)
        self.plot()

    def in_collection(self, it):
        while it is not None:
            if is_group(it.obj) and it.parent is not None and it.nx == "NXcollection":
                return True
            it = it.parent
        return False

    def name_verdict(self, it):
        if it.parent is None or (it.attr and it.addr is None):
            return
        if it.attr:
            if it.name == "NX_class":
                t = single(it.obj)
                ok = t is not None and any(re.fullmatch(p, t) for p in self.fs.class_names)
                self.add(it.addr, "validItemName", "OK" if ok else "ERROR")
            elif not self.seen_through_link(it.parent):
                self.add(it.addr, "validItemName", "OK" if self.name_rank(it.name) else "ERROR")
        else:
            r = self.name_rank(it.name) or "ERROR"
            if it.cp is not None and self.in_collection(it):
                r = "WARN"
            self.add(it.addr, "validItemName", r)

    # ------------------------------------------------------------ attributes
    def attribute(self, it):
        V = "attribute value"
        n, parent, here = it.name, it.parent.obj, it.addr
        if n == "NX_class":
            t = single(it.obj)
            self.add(here, V, "OK" if t is not None and self.fs.is_base(t) else "ERROR")
        elif n == "signal" and isinstance(parent, h5py.Dataset):
            self.add(here, V, "OK" if str(decode(it.obj)).lstrip("0") == "1" else "NOTE")
        elif n == "signal" and is_group(parent) and not isinstance(parent, h5py.File):
            t = single(it.obj)
            shown = str(decode(it.obj)) if t is None else t
            self.add(here, "valid name @signal=" + shown, self.name_rank(shown) or "ERROR")
            self.add(here, V, "OK" if there(parent, t) is not None else "ERROR")
        elif n == "axes" and not isinstance(parent, h5py.Dataset):
            v = decode(it.obj)
            if isinstance(v, numpy.ndarray):
                v = v.tolist()
            v = [] if v is None else v if isinstance(v, list) else [v]
            for x in v:
                self.add(here, f"valid name @axes['{x}']", self.name_rank(x) or "ERROR")
                self.add(here, f"axes['{x}'] exists", "OK" if there(parent, x) is not None else "ERROR")
            self.add(here, V, "TODO")
        elif n == "target":
            t = single(it.obj)
            ok = t is not None and t.startswith("/")
            addr = ""
            if ok:
                for p in t[1:].split("/"):
                    addr += "/" + p
                    if self.name_rank(p) is None or there(self.h5, addr) is None:
                        ok = False
                        break
            self.add(here, V, "OK" if ok and there(self.h5, t) is not None else "ERROR")
        else:
            self.add(here, V, "TODO")

    # ---------------------------------------------------------------- groups
    def group(self, it):
        if it.cp is None:
            self.add(it.addr, "NeXus_group", "OK")
            return
        nx = "NXroot" if it.cp == "" else it.nx
        known = nx in self.fs.classes
        self.add(it.addr, "known NXDL", "OK" if known else "ERROR")
        if not known:
            self.add(it.addr, "NeXus base class", "ERROR")
            return
        self.add(it.addr, "NeXus base class", "OK" if self.fs.is_base(nx) else "ERROR")
        d = self.fs.classes[nx]
        for k, v in it.obj.attrs.items():
            k = text1(k)
            here = it.addr + "@" + k
            self.add(here, "known attribute", "OK")
            if k not in d["attributes"]:
                continue
            e = d["attributes"][k]["enum"]
            if e:
                self.add(here, "attribute value enumeration", "OK" if single(v) in e else "ERROR")
            t = single(v)
            if k == "signal" or k == "default" and it.cp in ("", "/NXentry", "/NXentry/NXsubentry"):
                self.add(here, "value of @" + k, "OK" if there(it.obj, t) is not None else "ERROR")
            elif k == "target":
                self.add(here, "value of @target", "OK" if t in self.by_address else "ERROR")
            elif k != "axes":
                self.add(here, "value of @" + k, "TODO")
        for k in it.obj:
            child = there(it.obj, k)
            addr = ("" if it.addr == "/" else it.addr) + "/" + text1(k)
            if child is None or addr not in self.by_address:
                continue
            if isinstance(child, h5py.Dataset):
                self.add(addr, "field in base class", "OK")
            elif is_group(child) and not isinstance(child, h5py.File):
                self.add(addr, "group in base class", "OK")
            else:
                self.add(addr, "unhandled: group_items_in_base_class", "TODO")
        for kind, test in (("fields", "NXDL field in data file"), ("groups", "NXDL group in data file")):
            for n in d[kind]:
                self.add(it.addr, test, "OK" if there(it.obj, n) is not None else "OPTIONAL")
        self.add(it.addr, "NeXus base class", "TODO")

    def first(self, o):
        if not isinstance(o, h5py.Dataset):
            return None
        v = o[()]
        if isinstance(v, numpy.ndarray):
            v = v.flat[0] if v.size else None
        return decode(v)

    def application(self, it):
        name = str(self.first(there(it.obj, "definition")))
        d = self.fs.classes.get(name)
        self.add(it.addr, "known NXDL", "OK" if d else "ERROR")
        if d is None:
            return
        good = d["category"] in ("applications", "contributed_definitions")
        self.add(it.addr, "NeXus application definition", "OK" if good else "ERROR")
        self.add(it.addr, "NeXus application definition", "TODO")
        if not good or not d["groups"]:
            return
        for n, f in list(d["groups"].values())[0]["fields"].items():
            addr = ("" if it.addr == "/" else it.addr) + "/" + n
            o = there(it.obj, n)
            self.add(addr, "NXDL field", "OK" if o is not None else "ERROR")
            if o is not None and f["enum"]:
                v = self.first(o)
                self.add(addr, "NXDL field enumerations", "OK" if isinstance(v, str) and v in f["enum"] else "ERROR")

    # ------------------------------------------------------------------ plot
    def plot(self):
        T = "NeXus default plot"
        signals = [a for a in self.by_class.get("/NXentry/NXdata@signal", []) if a.attr and is_group(a.parent.obj)]
        ok = False
        v3 = T + " v3"
        fields, niac = 0, 0
        for a in signals:
            data = a.parent
            o = there(data.obj, single(a.obj))
            if o is None:
                self.add(a.addr, v3 + ", NXdata@signal", "ERROR")
                fields = niac = 0
                break
            if isinstance(o, h5py.Dataset):
                self.add(a.addr, v3 + ", NXdata@signal", "OK")
                fields += 1
                if self.points(self.by_address["/"], data.parent) and self.points(data.parent, data):
                    niac += 1
                    last = a
        if niac == 1:
            self.add(last.addr, v3 + " NIAC2014", "OK")
        ok = fields > 0
        if not ok:
            ok = self.marked(T + " v2")
        if ok:
            r = "OK"
        else:
            r = "ERROR"
            if any(i.nx == "NXentry" for i in self.by_address.values()):
                if not self.fs.classes["NXentry"]["groups"]["data"]["minOccurs"] > 0:
                    r = "NOTE"
        self.add("/", T, r)

    def points(self, item, to):
        t = single(item.obj.attrs.get("default"))
        if there(item.obj, t) is None:
            return False
        return ("" if item.addr == "/" else item.addr) + "/" + t == to.addr

    def marked(self, test):
        groups = {}
        for it in self.items:
            if it.attr and it.cp is not None and it.name == "signal" and isinstance(it.parent.obj, h5py.Dataset):
                if str(decode(it.obj)).lstrip("0") == "1":
                    self.add(it.addr, test + ", @signal=1", "OK")
                    groups.setdefault(it.parent.parent.addr, []).append(it)
                else:
                    self.add(it.addr, test + ", @signal!=1", "WARN")
        good = False
        for g, l in groups.items():
            if len(l) == 1:
                good = True
                self.add(l[0].addr, test, "OK")
            else:
                self.add(g, test + ", multiple @signal=1", "ERROR")
        return good
