"""Independent reader of NXDL definitions and of nxdl.xsd name patterns."""
import collections
import os
import re

import lxml.etree

NS = {"nx": "http://definition.nexusformat.org/nxdl/3.1", "xs": "http://www.w3.org/2001/XMLSchema"}
CATEGORIES = ("base_classes", "applications", "contributed_definitions")


def kids(node, tag):
    return [k for k in node if isinstance(k.tag, str) and lxml.etree.QName(k).localname == tag]


def enums(node, skip_none=False):
    r = []
    for e in kids(node, "enumeration"):
        for i in kids(e, "item"):
            if not (skip_none and i.get("value") is None):
                r.append(i.get("value"))
    return r


def unique(name, taken):
    if name in taken:
        n = 1
        while name + str(n) in taken:
            n += 1
        name += str(n)
    return name


def read_attribute(node, cat):
    return {"enum": enums(node, True), "optional": False if cat == "applications" else None}


def read_field(node, cat):
    f = {"attributes": {}, "enum": enums(node), "rank": None, "dims": None,
         "minOccurs": 1 if cat == "applications" else None}
    for a in kids(node, "attribute"):
        f["attributes"][a.get("name")] = read_attribute(a, cat)
    d = kids(node, "dimensions")
    if len(d) == 1:
        f["rank"] = d[0].get("rank")
        f["dims"] = {x.get("index"): {k: x.get(k) for k in ("index", "value", "ref", "refindex", "incr")} for x in kids(d[0], "dim")}
    return f


def read_group(node, cat, top=False):
    g = {"attributes": {}, "groups": {}, "fields": {}, "links": {}}
    for a in kids(node, "attribute"):
        g["attributes"][a.get("name")] = read_attribute(a, cat)
    if not top:
        for k, v in node.attrib.items():
            if k not in ("name", "type") and k not in g["attributes"]:
                g["attributes"][k] = v
        g["minOccurs"] = int(node.get("minOccurs", 0))
        g["default_minOccurs"] = 1 if cat == "applications" else None
    taken = []
    for kind, tag, read in (("groups", "group", read_group), ("fields", "field", read_field)):
        for n in kids(node, tag):
            nm = unique(n.get("name", n.get("type", "NX")[2:]) if tag == "group" else n.get("name"), taken)
            taken.append(nm)
            g[kind][nm] = read(n, cat)
    for n in kids(node, "link"):
        nm = unique(n.get("name"), taken)
        taken.append(nm)
        g["links"][nm] = n.get("target")
    return g


def read_definition(path):
    root = lxml.etree.parse(path).getroot()
    cat = os.path.basename(os.path.dirname(path))
    d = read_group(root, cat, True)
    d["title"] = os.path.basename(path).split(".")[0]
    d["category"] = cat
    d["symbols"] = [s.get("name") for ss in kids(root, "symbols") for s in kids(ss, "symbol") if s.get("name") is not None]
    return d


def files(folder):
    r = []
    for c in CATEGORIES:
        for f in sorted(os.listdir(os.path.join(folder, c))):
            if f.endswith(".nxdl.xml"):
                r.append(os.path.join(folder, c, f))
    return r


def read_patterns(folder):
    root = lxml.etree.parse(os.path.join(folder, "nxdl.xsd")).getroot()
    own, base, length = {}, {}, {}
    for n in root:
        if isinstance(n.tag, str) and lxml.etree.QName(n).localname == "simpleType" and n.get("name").startswith("valid"):
            k = n.get("name")
            r = kids(n, "restriction")[0]
            base[k] = r.get("base").split(":")[-1]
            own[k] = [p.get("value") for p in kids(r, "pattern")]
            length[k] = [int(p.get("value")) for p in kids(r, "maxLength")]
    return own, base, length


class FileSet:
    def __init__(self, folder):
        self.folder = folder
        self.classes = {}
        for f in files(folder):
            d = read_definition(f)
            self.classes[d["title"]] = d
        own, base, _ = read_patterns(folder)
        self.names = own.get("validItemName", []) + (own.get(base.get("validItemName"), []))
        self.class_names = own["validNXClassName"] + own.get(base["validNXClassName"], [])

    def is_base(self, nx):
        d = self.classes.get(nx)
        if d is None:
            return False
        if d["category"] == "base_classes":
            return True
        if d["category"] != "contributed_definitions":
            return False
        e = d["groups"].get("entry")
        return e is None or "definition" not in e["fields"]


_SETS = {}


def fileset(folder):
    if folder not in _SETS:
        _SETS[folder] = FileSet(folder)
    return _SETS[folder]
