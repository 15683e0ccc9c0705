"""C14 definitions, C15 file lists, C20 schema."""
import json
import os
import random
import shutil

import lxml.etree

from . import base, refnxdl, sets
from .base import Bad, oracle, workdir, brief

N = ["x", "y", "data", "x1", "x2", "title", "entry", "definition", "a", "x11"]


def enum(r):
    return [r.choice(["red", "b", "1", "two words", "é", "NX", "red"]) for _ in range(r.choice([0, 0, 1, 2, 4]))] if r.random() < 0.5 else None


def dedupe(l):
    return None if l is None else list(dict.fromkeys(l))


def attributes(r, n=3):
    return [{"name": a, "enum": dedupe(enum(r))} for a in r.sample(["units", "signal", "mode", "free", "deprecated_thing", "name1", "axes"], r.randrange(n))]


def item(r, depth):
    x = r.random()
    if x < 0.45 or depth == 0:
        f = {"t": "field", "name": r.choice(N), "enum": dedupe(enum(r)), "attributes": attributes(r)}
        if r.random() < 0.3:
            f["dims"] = [[i + 1, r.choice(["n", "2", "i"])] for i in range(r.randrange(1, 4))]
        return f
    if x < 0.6:
        return {"t": "link", "name": r.choice(N), "target": r.choice(["/NXentry/NXdata/x", "/NXentry/data:NXdata/y"])}
    g = {"t": "group", "type": r.choice(["NXdata", "NXentry", "NXx", "NXmine"]), "attributes": attributes(r), "items": [item(r, depth - 1) for _ in range(r.randrange(4))]}
    if r.random() < 0.6:
        g["name"] = r.choice(N)
    if r.random() < 0.5:
        g["minOccurs"] = r.choice([0, 1, 2])
    order(g)
    return g


def order(d):
    pass


def definition(r, name, cat):
    return {"name": name, "category": cat, "symbols": r.sample(["n", "i", "j", "nP"], r.randrange(3)), "attributes": attributes(r),
            "items": [item(r, 3) for _ in range(r.randrange(6))]}


def c14_cases(r):
    for i in range(25):
        defs = []
        for k in range(2 + r.randrange(5)):
            defs.append(definition(r, "NX" + r.choice("abcdef") + "_" + str(k), r.choice(refnxdl.CATEGORIES)))
        yield {"set": {"from": r.choice(["v2018.5", "v3.3", "a4fd52d"]), "defs": defs, "keep": True}, "order": r.random()}


def file_set(folder):
    from punx import cache_manager

    fs = cache_manager.NXDL_File_Set()
    fs.read_info_file(os.path.join(folder, "__github_info__.json"))
    return fs


def load(folder):
    from punx import nxdl_manager

    try:
        return nxdl_manager.NXDL_Manager(file_set(folder))
    except Exception as exc:  # noqa
        if not valid(folder):
            raise ValueError("no case: invalid definition")
        raise Bad("NXDL_Manager fails: " + brief(exc))


def valid(folder):
    """are all definitions valid XML for the schema of the file set?"""
    schema = lxml.etree.XMLSchema(lxml.etree.parse(os.path.join(folder, "nxdl.xsd")))
    return all(schema.validate(lxml.etree.parse(f)) for f in refnxdl.files(folder))


def default(o, k):
    x = o.xml_attributes.get(k)
    return None if x is None else x.default_value


def compare_group(got, exp, where, df, cat, top=False):
    same(where + " attributes", list_of(got.attributes), list_of(exp["attributes"]))
    for k, a in exp["attributes"].items():
        if isinstance(a, str):
            same(f"{where}@{k}", got.attributes[k], a)
        else:
            same(f"{where}@{k} values", list(got.attributes[k].enumerations), a["enum"])
            same(f"{where}@{k} optional", default(got.attributes[k], "optional"), False if cat == "applications" else df.attribute.attributes["optional"].default_value)
    for kind in ("groups", "fields", "links"):
        same(f"{where} {kind}", list(getattr(got, kind)), list(exp[kind]))
    for k, t in exp["links"].items():
        same(f"{where}/{k} target", got.links[k].target, t)
    for k, f in exp["fields"].items():
        o, w = got.fields[k], f"{where}/{k}"
        same(w + " name", o.name, k)
        same(w + " values", list(o.enumerations), f["enum"])
        same(w + " minOccurs", default(o, "minOccurs"), 1 if cat == "applications" else df.field.attributes["minOccurs"].default_value)
        same(w + " attributes", list(o.attributes), list(f["attributes"]))
        for a, s in f["attributes"].items():
            same(f"{w}@{a} values", list(o.attributes[a].enumerations), s["enum"])
            same(f"{w}@{a} optional", default(o.attributes[a], "optional"), False if cat == "applications" else df.attribute.attributes["optional"].default_value)
        if f["dims"] is None:
            same(w + " dimensions", o.dimensions, None)
        else:
            same(w + " rank", o.dimensions.rank, f["rank"])
            same(w + " dims", {i: {q: getattr(d, q) for q in ("index", "value", "ref", "refindex", "incr")} for i, d in o.dimensions.dims.items()}, f["dims"])
    for k, g in exp["groups"].items():
        o, w = got.groups[k], f"{where}/{k}"
        same(w + " name", o.name, k)
        same(w + " minOccurs", o.minOccurs, g["minOccurs"])
        same(w + " default minOccurs", default(o, "minOccurs"), 1 if cat == "applications" else df.group.attributes["minOccurs"].default_value)
        compare_group(o, g, w, df, cat)


def list_of(d):
    return sorted(d)


def same(what, a, b):
    if a != b:
        raise Bad(f"definition: {what}: {str(a)[:200]} expected {str(b)[:200]}")


def compare_set(m, folder):
    from punx import nxdl_schema

    df = nxdl_schema.NXDL_Summary(os.path.join(folder, "nxdl.xsd"))
    for f in refnxdl.files(folder):
        e = refnxdl.read_definition(f)
        g = m.classes.get(e["title"])
        if g is None:
            raise Bad(f"definition: {e['title']} missing")
        if refnxdl.files(folder)[-1] != f and [x for x in refnxdl.files(folder) if os.path.basename(x) == os.path.basename(f)][-1] != f:
            continue  # same title in two categories
        same(e["title"] + " category", g.category, e["category"])
        same(e["title"] + " symbols", list(g.symbols), e["symbols"])
        compare_group(g, e, e["title"], df, e["category"], True)
    now = m.nxdl_defaults
    for kind in ("field", "group", "attribute"):
        for k, v in getattr(df, kind).attributes.items():
            same(f"defaults of {kind} {k}", getattr(now, kind).attributes[k].default_value, v.default_value)


@oracle("C14", c14_cases, "random made-up NXDL definitions (nested groups, fields, links, attributes, values, dimensions, repeated names) in random categories; every parsed item compared with an independent reader")
def judge_c14(case):
    with workdir() as d:
        p = sets.build(os.path.join(d, "set"), case["set"])
        compare_set(load(p), p)


def twice_cases(r):
    for i in range(12):
        d = definition(r, "NXa_0", r.choice(refnxdl.CATEGORIES))
        places = [d] + [x for x in every(d["items"]) if x["t"] != "link"]
        yield {"set": {"from": r.choice(["v2018.5", "v3.3"]), "defs": [d], "keep": True}, "place": r.randrange(len(places)), "enum": dedupe(enum(r))}


def every(items):
    return [y for x in items for y in [x] + every(x.get("items", []))]


@oracle("C14", twice_cases, "made-up definitions with two attributes of one name in an item: no definition, rather than one without the second")
def judge_twice(case):
    with workdir() as d:
        made = case["set"]["defs"][0]
        place = ([made] + [x for x in every(made["items"]) if x["t"] != "link"])[case["place"]]
        had = list(place["attributes"])
        place["attributes"] = had + [{"name": "twice", "enum": None}, {"name": "twice", "enum": case["enum"]}]
        p = sets.build(os.path.join(d, "set"), case["set"])
        from punx import nxdl_manager

        try:
            m = nxdl_manager.NXDL_Manager(file_set(p))
        except Exception:  # noqa
            return None

        def count(o):
            n = sum(a.startswith("twice") for a in getattr(o, "attributes", {}))
            for k in ("groups", "fields"):
                n += sum(count(x) for x in getattr(o, k, {}).values())
            return n

        n = count(m.classes["NXa_0"])
        return None if n == 2 else f"definition: two attributes of one name: {n} are kept"


def real_sets(r):
    for s in sets.source():
        yield {"source": s}


@oracle("C14", real_sets, "all definitions of the file sets of the package")
def judge_c14_real(case):
    p = sets.source()[case["source"]]
    compare_set(load(p), p)


def names(r):
    for i in range(400):
        yield {"taken": [[r.choice(N + ["x3", "x10", "y1"]) for _ in range(r.randrange(5))] for _ in range(3)], "name": r.choice(N)}


@oracle("C14", names, "ensure_unique_name for random names in use")
def judge_unique(case):
    import types
    from punx import nxdl_manager

    o = object.__new__(nxdl_manager.NXDL__group)
    o.groups, o.fields, o.links = [{k: None for k in l} for l in case["taken"]]
    x = types.SimpleNamespace(name=case["name"])
    o.ensure_unique_name(x)
    taken = [k for l in case["taken"] for k in l]
    exp = refnxdl.unique(case["name"], taken)
    if x.name != exp:
        return f"ensure_unique_name: {case['name']!r} becomes {x.name!r}, expected {exp!r}"


# ------------------------------------------------------------------------ C15
FN = ["NXa.nxdl.xml", "NXb.nxdl.xml", "NXB.nxdl.xml", "NX_c.nxdl.xml", "NXa.xml", "NXa.nxdl.xml~", "readme.txt", "nxdlformat.xsl", ".nxdl.xml", "nxdl.xml", "NXd.nxdl.xml.bak", "NXé.nxdl.xml", "NXa1.nxdl.xml", "NXa.b.nxdl.xml", "NXz.NXDL.XML"]


def c15_cases(r):
    for i in range(200):
        case = {"dirs": {}, "missing": []}
        for c in refnxdl.CATEGORIES:
            case["dirs"][c] = r.sample(FN, r.randrange(len(FN)))
        if r.random() < 0.15:
            case["missing"] = r.sample(refnxdl.CATEGORIES, r.randrange(1, 3))
        case["other"] = r.random() < 0.3
        case["gone"] = r.random() < 0.05
        yield case


@oracle("C15", c15_cases, "random directories of a file set (names that are no NXDL files, missing and other directories)")
def judge_c15(case):
    from punx import nxdl_manager, FileNotFound

    with workdir() as d:
        p = os.path.join(d, "set")
        os.makedirs(p)
        exp = []
        for c in refnxdl.CATEGORIES:
            if c in case["missing"] or c not in case["dirs"]:
                continue
            os.makedirs(os.path.join(p, c))
            for f in case["dirs"][c]:
                open(os.path.join(p, c, f), "w").write("x")
            exp += [os.path.join(p, c, f) for f in sorted(case["dirs"][c]) if f.endswith(".nxdl.xml")]
        if case["other"]:
            os.makedirs(os.path.join(p, "other"))
            open(os.path.join(p, "other", "NXo.nxdl.xml"), "w").write("x")
            open(os.path.join(p, "NXtop.nxdl.xml"), "w").write("x")
        if case["gone"]:
            shutil.rmtree(p)
        try:
            got = nxdl_manager.get_NXDL_file_list(p)
        except (OSError, FileNotFound):
            if case["gone"] or any(c in case["missing"] or c not in case["dirs"] for c in refnxdl.CATEGORIES):
                return None
            return "get_NXDL_file_list: fails"
        except Exception as exc:  # noqa
            return "get_NXDL_file_list fails: " + brief(exc)
        if case["gone"] or any(c in case["missing"] or c not in case["dirs"] for c in refnxdl.CATEGORIES):
            return "get_NXDL_file_list: no error for a missing directory"
        if list(got) != exp:
            return f"get_NXDL_file_list: {[os.path.relpath(x, p) for x in got]} expected {[os.path.relpath(x, p) for x in exp]}"


def c15_load(r):
    for i in range(14):
        defs = []
        for k in range(2 + r.randrange(6)):
            defs.append({"name": "NX" + r.choice("abcABC_") + r.choice("xyz"), "category": r.choice(refnxdl.CATEGORIES), "items": [{"t": "field", "name": "f%d" % k}]})
        yield {"set": {"from": r.choice(list(sets.source())), "defs": defs}}


@oracle("C15", c15_load, "made-up file sets: known classes, their files and categories; definitions of the same name in two categories")
def judge_c15_load(case):
    with workdir() as d:
        p = sets.build(os.path.join(d, "set"), case["set"])
        m = load(p)
        exp = {}
        for f in refnxdl.files(p):
            exp[os.path.basename(f).split(".")[0]] = f
        if set(m.classes) != set(exp):
            return f"classes: {sorted(set(m.classes) ^ set(exp))}"
        for k, f in exp.items():
            c = m.classes[k]
            if c.title != k or os.path.abspath(c.file_name) != f or c.category != os.path.basename(os.path.dirname(f)):
                return f"classes: {k} from {c.file_name} category {c.category}, expected {f}"
            e = refnxdl.read_definition(f)
            if list(c.fields) != list(e["fields"]):
                return f"classes: {k} has fields {list(c.fields)[:5]} expected {list(e['fields'])[:5]}"


@oracle("C15", real_sets, "file sets of the package")
def judge_c15_real(case):
    from punx import nxdl_manager

    p = sets.source()[case["source"]]
    if list(nxdl_manager.get_NXDL_file_list(p)) != refnxdl.files(p):
        return "get_NXDL_file_list: differs"


# ------------------------------------------------------------------------ C20
PAT = ["[a-z]+", "[A-Z].*", "x{1,3}", "\\d+", "q|r", "NX.+", "[A-Za-z_][\\w_]*"]


def c20_cases(r):
    for i in range(45):
        kinds = []
        for k in range(1 + r.randrange(4)):
            kinds.append({"name": "valid" + r.choice("ABCDE") + str(k), "base": r.choice(["xs:token", "nx:validItemName", "nx:validNXClassName" if r.random() < 0 else "nx:validTargetName"]),
                          "patterns": [r.choice(PAT) for _ in range(r.randrange(4))], "maxLength": r.choice([None, 5, 63]), "comment": r.random() < 0.3})
        types = [{"name": "NX_" + r.choice("PQRS") + str(k), "values": r.choice([[], ["a", "b"], ["one"], ["x y", "é", "z"]]), "comment": r.random() < 0.3} for k in range(r.randrange(3))]
        units = r.choice([None, None, ["nx:ISO8601"], ["NX_LENGTH"]])
        yield {"from": r.choice(list(sets.source())), "kinds": kinds, "types": types, "first": r.random() < 0.5, "order": [r.randrange(2) for _ in range(3)]}


def make_schema(folder, case, plain=False):
    src = sets.source()[case["from"]]
    os.makedirs(folder)
    for f in ("nxdl.xsd", "nxdlTypes.xsd"):
        shutil.copy(os.path.join(src, f), folder)
    if plain:
        return
    new = ""
    for k in case["kinds"]:
        new += f'<xs:simpleType name="{k["name"]}"><xs:restriction base="{k["base"]}">'
        if k["comment"]:
            new += "<!-- c --><xs:annotation><xs:documentation>d</xs:documentation></xs:annotation>" if False else "<!-- c -->"
        for q in k["patterns"]:
            new += f'<xs:pattern value="{q}"/>'
        if k["maxLength"] is not None and k["base"] == "xs:token":
            new += f'<xs:maxLength value="{k["maxLength"]}"/>'
        new += "</xs:restriction></xs:simpleType>\n"
    x = os.path.join(folder, "nxdl.xsd")
    t = open(x, encoding="utf8").read()
    mark = '<xs:simpleType name="validItemName">' if case["first"] else "</xs:schema>"
    t = t.replace(mark, new + mark, 1)
    open(x, "w", encoding="utf8").write(t)
    new = ""
    for k in case["types"]:
        new += f'<xs:simpleType name="{k["name"]}"><xs:restriction base="xs:string">' + ("<!-- c -->" if k["comment"] else "")
        new += "".join(f'<xs:enumeration value="{v}"/>' for v in k["values"]) + "</xs:restriction></xs:simpleType>\n"
    x = os.path.join(folder, "nxdlTypes.xsd")
    t = open(x, encoding="utf8").read()
    t = t.replace("</xs:schema>", new + "</xs:schema>", 1)
    open(x, "w", encoding="utf8").write(t)


def expected_patterns(folder):
    own, b, length = refnxdl.read_patterns(folder)
    out = {}
    for k in own:
        if b[k] != "token" and b[k] in own:
            q = b[k]
            out[k] = (b[q], own[k] + own[q], length[q][-1] if length[q] else -1)
        else:
            out[k] = (b[k], own[k], length[k][-1] if length[k] else -1)
    return out


def expected_types(folder):
    root = lxml.etree.parse(os.path.join(folder, "nxdlTypes.xsd")).getroot()
    out = {}
    units = []
    for n in root:
        if not isinstance(n.tag, str) or n.get("name") is None:
            continue
        vals = None
        for s in n:
            if not isinstance(s.tag, str):
                continue
            t = lxml.etree.QName(s).localname
            if t == "list":
                vals = [s.get("itemType").split(":")[-1]]
            elif t == "restriction":
                vals = [e.get("value") for e in refnxdl.kids(s, "enumeration")]
        if n.get("name") == "anyUnitsAttr":
            units = vals or []
        elif n.get("name") != "primitiveType":
            out[n.get("name")] = vals
    return out, units


def read_schema(folder):
    from punx import schema_manager

    try:
        n = schema_manager.SchemaManager(folder).nxdl
    except Exception as exc:  # noqa
        raise Bad("SchemaManager fails: " + brief(exc))
    return n


def check_schema(n, folder, what):
    got = {k: (p.base, list(p.re_list), p.maxLength) for k, p in n.patterns.items()}
    exp = expected_patterns(folder)
    if got != exp:
        d = [k for k in sorted(set(got) | set(exp)) if got.get(k) != exp.get(k)]
        raise Bad(f"patterns: {what}: {[(k, got.get(k), exp.get(k)) for k in d][:3]}")
    types, units = expected_types(folder)
    if set(n.types) != set(types):
        raise Bad(f"types: {what}: {sorted(set(n.types) ^ set(types))[:6]}")
    for k, v in types.items():
        g = n.types[k]
        if g.name != k:
            raise Bad(f"types: {what}: {k} has name {g.name}")
        if v is not None and (list(g.values) != v or list(g.values) != v):
            raise Bad(f"types: {what}: values of {k}: {g.values} expected {v}")
    if list(n.units) != units:
        raise Bad(f"units: {what}: {n.units} expected {units}")


@oracle("C20", c20_cases, "random valid... types, bases, comments and listed values added to the schema files, read in random order and again; compared with an independent reader")
def judge_c20(case):
    with workdir() as d:
        a, b = os.path.join(d, "a"), os.path.join(d, "b")
        make_schema(a, case)
        make_schema(b, case, True)
        kept = []
        for k in case["order"]:
            p = (a, b)[k]
            n = read_schema(p)
            check_schema(n, p, "plain" if k else "changed")
            kept.append((n, p))
            for m, q in kept:
                check_schema(m, q, "read before")


@oracle("C20", real_sets, "schema files of the package, read one after the other and again")
def judge_c20_real(case):
    kept = []
    for s in list(sets.source()) + [case["source"]]:
        p = sets.source()[s]
        n = read_schema(p)
        kept.append((n, p))
        for m, q in kept:
            check_schema(m, q, s)
            ch = sorted(m.children)
        if (s, ch) != (s, sorted(read_schema(p).children)):
            return "schema: children differ when read again"
