"""NXDL file sets for the oracles: those of the source cache and small made-up ones."""
import json
import os
import shutil

from . import base

XSD = ("nxdl.xsd", "nxdlTypes.xsd", "nxdlformat.xsl")
HEAD = """<?xml version="1.0" encoding="UTF-8"?>
<definition xmlns="http://definition.nexusformat.org/nxdl/3.1" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance"
 category="{cat}" extends="NXobject" name="{name}" type="group"
 {version}xsi:schemaLocation="http://definition.nexusformat.org/nxdl/3.1 ../nxdl.xsd">
<!-- made up -->
"""
KEEP = {"base_classes": "NXroot NXentry NXsubentry NXdata NXobject NXcollection NXdetector NXinstrument NXnote".split(),
        "applications": "NXsas NXmonopd NXspe NXarchive".split(),
        "contributed_definitions": "NXspecdata NXcanSAS NXelectrostatic_kicker".split()}


def source():
    p = os.path.join(base.REPO, "punx", "cache")
    return {d: os.path.join(p, d) for d in sorted(os.listdir(p)) if os.path.exists(os.path.join(p, d, "nxdl.xsd"))}


def xml(name, cat, body, version):
    return HEAD.format(name=name, version='version="1.0" ' if version else "", cat={"base_classes": "base", "applications": "application"}.get(cat, "contributed")) + body + "</definition>\n"


def render(d):
    """XML of a made-up definition, see gen_nxdl"""
    from xml.sax.saxutils import quoteattr as q

    def items(x):
        return "<enumeration>" + "".join(f"<item value={q(v)}/>" for v in x) + "</enumeration>" if x else ""

    out = []
    if d.get("symbols"):
        out.append("<symbols><doc>x</doc>" + "".join(f"<symbol name={q(s)}><doc>y</doc></symbol>" for s in d["symbols"]) + "</symbols>")
    out.append("<doc>made up</doc>")
    for a in d.get("attributes", []):
        out.append(f"<attribute name={q(a['name'])}>{items(a.get('enum'))}</attribute>")
    for k in d.get("items", []):
        out.append(render_item(k, q, items))
    return "\n".join(out)


def render_item(k, q, items):
    if k["t"] == "group":
        s = f"<group type={q(k['type'])}"
        if k.get("name"):
            s += f" name={q(k['name'])}"
        if k.get("minOccurs") is not None:
            s += f" minOccurs=\"{k['minOccurs']}\""
        return s + ">" + "".join(f"<attribute name={q(a['name'])}>{items(a.get('enum'))}</attribute>" for a in k.get("attributes", [])) + \
            "".join(render_item(x, q, items) for x in k.get("items", [])) + "</group>"
    if k["t"] == "link":
        return f"<link name={q(k['name'])} target={q(k['target'])}/>"
    s = f"<field name={q(k['name'])}>"
    if k.get("dims") is not None:
        s += f"<dimensions rank={q(str(len(k['dims'])))}>" + "".join(f"<dim index=\"{i}\" value={q(v)}/>" for i, v in k["dims"]) + "</dimensions>"
    s += "".join(f"<attribute name={q(a['name'])}>{items(a.get('enum'))}</attribute>" for a in k.get("attributes") or [])
    return s + items(k.get("enum")) + "</field>"


def build(folder, spec):
    """a small file set: {"from": source set, "keep": bool, "defs": [{name, category, ...}], "edit": [[old, new]], "date":..}"""
    src = source()[spec.get("from", sorted(source())[0])]
    os.makedirs(folder)
    for f in XSD:
        if os.path.exists(os.path.join(src, f)):
            shutil.copy(os.path.join(src, f), folder)
    for cat, names in KEEP.items():
        os.makedirs(os.path.join(folder, cat))
        for f in os.listdir(os.path.join(src, cat)):
            if not f.endswith(".nxdl.xml") or spec.get("keep", True) and f.split(".")[0] in names:
                shutil.copy(os.path.join(src, cat, f), os.path.join(folder, cat, f))
    x = os.path.join(folder, "nxdl.xsd")
    t = open(x, encoding="utf8").read()
    for old, new in spec.get("edit", []):
        t = t.replace(old, new)
    open(x, "w", encoding="utf8").write(t)
    for d in spec.get("defs", []):
        with open(os.path.join(folder, d["category"], d["name"] + ".nxdl.xml"), "w", encoding="utf8") as f:
            f.write(d["xml"] if "xml" in d else xml(d["name"], d["category"], render(d), spec.get("from") != "v2018.5"))
    json.dump({"ref": os.path.basename(folder), "sha": "0123456789abcdef", "zip_url": "u", "last_modified": "2001-01-01 00:00:00"},
              open(os.path.join(folder, "__github_info__.json"), "w"))
    return folder


ENTRY = {"t": "group", "type": "NXentry", "name": "entry"}

# an odd but valid file set: other name rules, other required items
ODD = {
    "from": "v2018.5",
    "edit": [['<xs:pattern value="[A-Za-z_][\\w_]*" />', '<xs:pattern value="[A-Za-z_][A-Za-z0-9_]*"/><xs:pattern value="\\d+x"/>'],
             ['<xs:pattern value="NX.+"/>', '<xs:pattern value="NX[A-Za-z_]+"/><xs:pattern value="NX7+"/>']],
    "defs": [
        {"name": "NXmine", "category": "base_classes", "attributes": [{"name": "mode", "enum": ["a", "b", "Single Word", "1"]}, {"name": "free"}, {"name": "target"}, {"name": "signal"}],
         "items": [{"t": "field", "name": "x"}, {"t": "field", "name": "x"}, {"t": "field", "name": "y", "enum": ["1", "2"]}, {"t": "group", "type": "NXdata", "name": "x"}, {"t": "group", "type": "NXmine"}]},
        {"name": "NXempty", "category": "base_classes"},
        {"name": "NXboth", "category": "base_classes", "attributes": [{"name": "x", "enum": ["only"]}, {"name": "data"}, {"name": "mode"}],
         "items": [{"t": "field", "name": "x"}, {"t": "field", "name": "free"}, {"t": "group", "type": "NXdata", "name": "data"}, {"t": "group", "type": "NXdata", "name": "mode"}]},
        {"name": "NXcontrib_late", "category": "contributed_definitions", "items": [{"t": "group", "type": "NXdata", "name": "before"}, dict(ENTRY, items=[{"t": "field", "name": "definition"}, {"t": "field", "name": "must"}])]},
        {"name": "NXcontrib_early", "category": "contributed_definitions", "items": [{"t": "group", "type": "NXdata", "name": "before", "items": [{"t": "field", "name": "definition"}]}, dict(ENTRY, items=[{"t": "field", "name": "must"}])]},
        {"name": "NXcontrib_none", "category": "contributed_definitions", "items": [{"t": "group", "type": "NXentry", "name": "other", "items": [{"t": "field", "name": "definition"}]}]},
        {"name": "NXcontrib_sub", "category": "contributed_definitions", "items": [dict(ENTRY, items=[{"t": "group", "type": "NXnote", "name": "definition"}])]},
        {"name": "NXone_value", "category": "applications", "items": [dict(ENTRY, items=[{"t": "field", "name": "definition", "enum": ["NXone_value"]}, {"t": "field", "name": "choice", "enum": ["red"]}, {"t": "field", "name": "title", "enum": ["1", "a"]}, {"t": "field", "name": "name"}])]},
        {"name": "NXempty_app", "category": "applications"},
        {"name": "NXcontrib_empty", "category": "contributed_definitions"},
        {"name": "NXcontrib_base", "category": "contributed_definitions", "items": [dict(ENTRY, items=[{"t": "field", "name": "title"}])]},
        {"name": "NXcontrib_app", "category": "contributed_definitions", "items": [dict(ENTRY, items=[{"t": "field", "name": "definition", "enum": ["NXcontrib_app"]}, {"t": "field", "name": "must"}, {"t": "field", "name": "choice", "enum": ["red", "green", "blue"]}])]},
        {"name": "NXapp", "category": "applications", "items": [dict(ENTRY, items=[{"t": "field", "name": "definition", "enum": ["NXapp"]}, {"t": "field", "name": "must"}, {"t": "field", "name": "choice", "enum": ["red", "green", "blue"]}, {"t": "field", "name": "title"}])]},
        {"name": "NXtwo", "category": "applications", "items": [{"t": "group", "type": "NXsubentry", "items": [{"t": "field", "name": "first"}]}, dict(ENTRY, items=[{"t": "field", "name": "second"}])]},
    ],
}
# a file set which requires the default plot
STRICT = {"from": "v2018.5", "defs": [
    {"name": "NXentry", "category": "base_classes", "items": [{"t": "group", "type": "NXdata", "minOccurs": 1}, {"t": "field", "name": "title"}]}]}

_BUILT = {}
RANDOM = {"base_classes": ["NXr0", "NXr1", "NXr2", "NXr3", "NXr4"], "applications": ["NXr5", "NXr6", "NXr7"], "contributed_definitions": ["NXr8", "NXr9", "NXr10", "NXr11"]}


def random_set(r, places=RANDOM):
    """made-up definitions with the names that the files of gen_h5 use"""
    from . import gen_h5

    def attributes(n):
        return [{"name": a, "enum": r.sample(gen_h5.ENUMS, r.randrange(1, 4)) if r.random() < 0.5 else None}
                for a in r.sample(["mode", "free", "target", "signal", "default", "x", "axes", "units", "title"], r.randrange(n))]

    def items(depth, n):
        out, taken = [], set()
        for _ in range(r.randrange(n)):
            nm = r.choice(["x", "y", "data", "a1", "title", "definition", "counts", "must", "choice", "name", "entry", "instrument"])
            if r.random() < 0.6 or depth == 0:
                out.append({"t": "field", "name": nm, "enum": r.sample(gen_h5.ENUMS, r.randrange(1, 4)) if r.random() < 0.4 else None, "attributes": attributes(2)})
            else:
                g = {"t": "group", "type": r.choice(["NXdata", "NXentry", "NXnote", "NXr0"]), "items": items(depth - 1, 4), "attributes": attributes(2)}
                if r.random() < 0.7:
                    g["name"] = r.choice([nm, "entry", "entry", "definition"])
                if r.random() < 0.4:
                    g["minOccurs"] = r.choice([0, 1, 2])
                out.append(g)
        return out

    defs = []
    for cat, names in places.items():
        for n in names:
            body = items(1, 5)
            if cat != "base_classes" and r.random() < 0.8:
                body.insert(r.randrange(len(body) + 1), dict(ENTRY, items=([{"t": "field", "name": "definition"}] if r.random() < 0.6 else []) + items(1, 5)))
            defs.append({"name": n, "category": cat, "attributes": attributes(5), "items": body})
    return {"from": r.choice(["v2018.5", "v3.3"]), "defs": defs}


def twin_set(r):
    """as random_set, but a class may be of any category, and the name rules differ"""
    names = [n for l in RANDOM.values() for n in l]
    r.shuffle(names)
    spec = random_set(r, {"base_classes": names[:5], "applications": names[5:8], "contributed_definitions": names[8:]})
    spec["from"] = "v2018.5"
    spec["edit"] = [ODD["edit"][0][:1] + [r.choice([ODD["edit"][0][1], ODD["edit"][0][0], '<xs:pattern value="[A-Za-z0-9_. -]+"/>'])],
                    ODD["edit"][1][:1] + [r.choice([ODD["edit"][1][1], ODD["edit"][1][0], '<xs:pattern value="NX[A-Za-z0-9_]+"/>', '<xs:pattern value="NX.*[a-z0-9]"/>'])]]
    return spec


def drop_invalid(p, spec):
    """definitions that the schema of the file set does not allow are left out"""
    import lxml.etree

    schema = lxml.etree.XMLSchema(lxml.etree.parse(os.path.join(p, "nxdl.xsd")))
    for d in spec["defs"]:
        f = os.path.join(p, d["category"], d["name"] + ".nxdl.xml")
        if not schema.validate(lxml.etree.parse(f)):
            os.remove(f)
    return p


def folder(name):
    """directory of a file set by name"""
    s = source()
    if name in s:
        return s[name]
    if name not in _BUILT:
        p = os.path.join(base.scratch(), "sets", name)
        if name.startswith("rand"):
            import random

            spec = random_set(random.Random(f"{os.environ.get('VERIF_SEED', '1')}-{name}"))
            _BUILT[name] = drop_invalid(build(p, spec), spec)
            return _BUILT[name]
        if name.startswith("twin"):  # file sets of one name
            import random

            spec = twin_set(random.Random(f"{os.environ.get('VERIF_SEED', '1')}-{name}"))
            _BUILT[name] = drop_invalid(build(os.path.join(p, "main"), spec), spec)
            return _BUILT[name]
        _BUILT[name] = build(p, {"odd": ODD, "strict": STRICT, "small": {"from": "v2018.5"}, "small33": {"from": "v3.3"}}[name])
    return _BUILT[name]


NAMES = ["odd", "strict", "small", "small33"]
