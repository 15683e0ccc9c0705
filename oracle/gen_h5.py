"""Random HDF5 file descriptions (see h5case)."""
STRICT = ["data", "x", "y", "a1", "_z", "counts", "title", "definition", "time", "signal", "entry", "instrument", "r0"]
RELAXED = ["NXdata", "NXentry", "NXsubentry", "Data", "twoTheta", "I", "Q_x", "Z9", "é", "名前", "aB_c"]
BAD = ["a.b", "9x", "a-b", "a b", "data ", " data", "x\n", "data\n", "a:b", "x%", "-", "1", "12x", "a\tb", ".a", "X\n", "hex:61ff", "hex:e9"]
ATTRS = ["units", "long_name", "default", "target", "signal", "axes", "NX_class", "mode", "free", "type", "name", "Units", "bad name", "axis", "primary", "x_indices", "9a", "description\n", "version", "file_name", "file", "path"]
CLASSES = ["NXentry", "NXdata", "NXsubentry", "NXcollection", "NXdetector", "NXinstrument", "NXnote", "NXsas", "NXspecdata", "NXcanSAS",
           "NXmine", "NXempty", "NXempty_app", "NXcontrib_empty", "NXcontrib_base", "NXcontrib_app", "NXapp", "NXunknown", "NX", "nxdata", "NXdata\n", " NXdata", "NXdata ", "data", "NX77", "NX7a", "", "NXroot", "NXobject", "NXelectrostatic_kicker", "NXboth", "NXcontrib_late", "NXcontrib_early", "NXcontrib_none", "NXcontrib_sub", "NXr0", "NXr1", "NXr2", "NXr3", "NXr4", "NXr6", "NXr8", "NXr9", "NXr10", "NXr11", "NXcollections", "NX/", "NXa/b", "NX@x", "NXentry/NXdata"]
DEFS = ["NXsas", "NXmonopd", "NXapp", "NXcontrib_app", "NXcontrib_base", "NXempty_app", "NXtwo", "NXspecdata", "NXentry", "NXmine", "NXnothing", "nxsas", "", "NXspe", "NXarchive", "NXapp\n", "NXcanSAS", "NXone_value", "NXcontrib_late", "NXr5", "NXr6", "NXr7", "NXr8", "NXr9", "NXr10", "NXr0"]
ENUMS = ["red", "green", "blue", "NXapp", "a", "b", "Single Word", "1", "Red", "red ", "yellow", "NXsas", "2.0", "1.0", "monitor"]


def text(r, s):
    """the text in one of the ways HDF5 can keep it"""
    k = r.randrange(8)
    if k < 4:
        return {"k": "s", "v": s}
    b = s.encode("utf8").hex()
    if k == 4 and s:
        return {"k": "b", "v": b}
    if k == 5 and s:
        return {"k": "S", "v": [b], "shape": r.choice([[1], [1, 1]])}
    if k == 6:
        return {"k": "O", "v": [s], "shape": [1]}
    return {"k": "s", "v": s}


def number(r):
    k = r.randrange(12)
    if k == 0:
        return {"k": "n", "dtype": "f8", "v": [1.0], "shape": []}
    if k == 1:
        return {"k": "n", "dtype": "i4", "v": [], "shape": [0]}
    if k == 2:
        return {"k": "n", "dtype": "i4", "v": [1, 2, 3], "shape": [3]}
    if k == 3:
        return {"k": "n", "dtype": "i8", "v": [1], "shape": [1]}
    if k == 4:
        return {"k": "n", "dtype": "f4", "v": [0.5, 1.5, 2.5, 3.5], "shape": [2, 2]}
    return {"k": "n", "dtype": r.choice(["i4", "u1", "i8", "f8"]), "v": [r.choice([0, 1, 1, 2, 10, 11])], "shape": []}


def odd_value(r, attr=True):
    k = r.randrange(11)
    if k == 0:
        return {"k": "b", "v": "61ff62"}
    if k == 1:
        return {"k": "O", "v": [r.choice(STRICT), r.choice(RELAXED + BAD[:5])], "shape": [2]}
    if k == 2:
        return {"k": "S", "v": ["78", "79"], "shape": [2]}
    if k == 3:
        return {"k": "null", "dtype": r.choice(["f8", "S3"])}
    if k == 4:
        return {"k": "O", "v": [], "shape": [0]}
    if k == 5:
        return {"k": "bool"}
    if k == 6:
        return {"k": "complex"}
    if k == 7:
        return {"k": "compound"}
    if k == 8:
        return {"k": "S", "v": ["61", "62", "63", "64"], "shape": [2, 2]}
    if k == 9:
        return {"k": r.choice(["enum", "ref"])}
    return {"k": "S", "v": ["ff", "78"], "shape": [2]}


def anything(r):
    k = r.randrange(4)
    return number(r) if k == 0 else odd_value(r) if k == 1 else text(r, r.choice(STRICT + ENUMS + RELAXED + BAD[:16]))


def name(r, weird=0.25):
    x = r.random()
    if x < weird / 2:
        return r.choice(BAD)
    if x < weird:
        return r.choice(RELAXED)
    return r.choice(STRICT)


def pick(r, node, deep=True):
    """name of something in the group, or of nothing"""
    names = [n for n in node["items"] if not n.startswith("hex:")]
    if names and r.random() < 0.65:
        return r.choice(names)
    return r.choice(STRICT + RELAXED + BAD[:16] + ["", "/", "/entry", "/entry/data", "data/x", "./x", "."])


def paths(node, at=""):
    for n, s in node["items"].items():
        if n.startswith("hex:"):
            continue
        yield at + "/" + n
        if s["t"] == "g":
            for p in paths(s, at + "/" + n):
                yield p


def group(r, cls=None, items=None, attrs=None):
    g = {"t": "g", "attrs": {}, "items": items or {}}
    if cls is not None:
        g["attrs"]["NX_class"] = text(r, cls)
    g["attrs"].update(attrs or {})
    return g


def field(r, v=None, attrs=None):
    if v is None:
        k = r.randrange(6)
        v = {"k": "n", "dtype": "i4", "v": [1, 2, 3], "shape": [3]} if k < 2 else number(r) if k == 2 else odd_value(r) if k == 3 else text(r, r.choice(ENUMS + STRICT))
    return {"t": "d", "attrs": attrs or {}, "data": v}


def random_attrs(r, node, n=2):
    for _ in range(r.randrange(n + 1)):
        a = r.choice(ATTRS)
        if a == "NX_class" and node["t"] == "g":
            continue
        node["attrs"][a] = anything(r)


def content(r, depth, budget):
    """items of a group"""
    items = {}
    for _ in range(r.randrange(budget + 1)):
        n = name(r)
        x = r.random()
        if x < 0.45 or depth <= 0:
            f = field(r)
            random_attrs(r, f)
            items[n] = f
        elif x < 0.85:
            g = group(r, r.choice(CLASSES[:9]) if r.random() < 0.6 else None)
            if "NX_class" not in g["attrs"] and r.random() < 0.6:
                g["attrs"]["NX_class"] = text(r, r.choice(CLASSES)) if r.random() < 0.7 else anything(r)
            g["items"] = content(r, depth - 1, budget)
            random_attrs(r, g)
            items[n] = g
        else:
            items[n] = {"t": r.choice(["soft", "hard", "ext", "type"])}
    return items


def outside(r):
    """a file that others link to"""
    f = group(r, None, {"entry": group(r, "NXentry", {"data": group(r, "NXdata", {"x": field(r)}), "x": field(r)}), "x": field(r), "X": group(r, "NXdata")})
    for o in (f, f["items"]["entry"], f["items"]["entry"]["items"]["data"], f["items"]["entry"]["items"]["x"], f["items"]["x"], f["items"]["X"]):
        for a in r.sample(["file", "path", "units", "x", "long_name"], r.randrange(4)):
            o["attrs"][a] = anything(r)
    return f


def resolve(r, case):
    """links and pointers, once the tree is there"""
    root = case["root"]
    all_paths = list(paths(root)) or ["/"]

    def go(node, at, up):
        for n, s in list(node["items"].items()):
            here = at + "/" + n
            if s["t"] in ("soft", "hard"):
                s["to"] = r.choice(all_paths + ["/", here, at or "/", "/nowhere"] + up)
                if s["t"] == "soft" and s["to"] == here and r.random() < 0.5:
                    s["to"] = "/nowhere/at/all"
            elif s["t"] == "ext":
                if r.random() < 0.5:
                    case.setdefault("ext", {})
                    f = r.choice(["other.h5", "more.h5"])
                    if f not in case["ext"]:
                        case["ext"][f] = outside(r)
                    s["file"], s["to"] = f, r.choice(["/entry", "/entry/data", "/x", "/entry/x", "/", "/gone", "/X"])
                else:
                    s["file"], s["to"] = "missing.h5", "/x"
            if s["t"] == "g":
                go(s, here, up + [at or "/"])
            if s["t"] in ("g", "d"):
                for a in s["attrs"]:
                    if a == "target" and r.random() < 0.8:
                        s["attrs"][a] = text(r, r.choice(all_paths + [here, here, "/nowhere", "entry", "", "/", here + "/", "//x", "/entry/", here + "/x", here[:-1], "/9bad/x"]))
                    elif s["t"] == "g" and a in ("signal", "default") and r.random() < 0.8:
                        s["attrs"][a] = text(r, pick(r, s))
                    elif s["t"] == "g" and a == "axes" and r.random() < 0.8:
                        k = r.randrange(4)
                        l = [pick(r, s) for _ in range(k)]
                        s["attrs"][a] = {"k": "O", "v": l, "shape": [k]} if r.random() < 0.7 else text(r, pick(r, s))
                    elif s["t"] == "d" and a == "signal" and r.random() < 0.8:
                        s["attrs"][a] = mark(r)
        for a in ("default", "signal"):
            if at == "" and a in node["attrs"]:
                node["attrs"][a] = text(r, pick(r, node))

    go(root, "", [])
    return case


def mark(r):
    return r.choice([{"k": "n", "dtype": "i4", "v": [1], "shape": []}, {"k": "s", "v": "1"}, {"k": "s", "v": "01"}, {"k": "s", "v": "10"}, {"k": "s", "v": " 1"}, {"k": "n", "dtype": "i4", "v": [2], "shape": []},
                     {"k": "n", "dtype": "f8", "v": [1.0], "shape": []}, {"k": "n", "dtype": "i4", "v": [1], "shape": [1]}, {"k": "n", "dtype": "i4", "v": [0], "shape": []}, {"k": "b", "v": "31"}, {"k": "b", "v": "3031"}, {"k": "s", "v": "1\n"}, {"k": "s", "v": ""}, {"k": "n", "dtype": "u1", "v": [11], "shape": []}, {"k": "O", "v": ["1"], "shape": [1]}, {"k": "bool"}])


def any_file(r):
    case = {"root": group(r, "NXroot" if r.random() < 0.2 else None, content(r, 3, 4))}
    random_attrs(r, case["root"])
    if r.random() < 0.7:
        e = group(r, "NXentry", content(r, 2, 4))
        if r.random() < 0.6:
            e["items"]["data"] = group(r, "NXdata", content(r, 1, 3), {"signal": {"k": "s", "v": "data"}})
        random_attrs(r, e)
        case["root"]["items"]["entry"] = e
    return resolve(r, case)


def plot_file(r):
    """arrangements of entries, data groups, signal and default attributes"""
    root = group(r)
    for e in range(r.randrange(3)):
        entry = group(r, r.choice(["NXentry", "NXentry", "NXentry", "NXsubentry", "NXdata"]))
        for d in range(r.randrange(3)):
            data = group(r, r.choice(["NXdata", "NXdata", "NXdata", "NXdetector"]))
            for i in range(r.randrange(4)):
                n = r.choice(["x", "y", "data", "sub"])
                data["items"][n] = field(r, number(r)) if n != "sub" else group(r, "NXnote" if r.random() < 0.5 else None)
                if n != "sub" and r.random() < 0.35:
                    data["items"][n]["attrs"]["signal"] = mark(r)
            if r.random() < 0.12:
                data["items"]["signal"] = field(r)
            x = r.random()
            if x < 0.5:
                data["attrs"]["signal"] = text(r, r.choice((list(data["items"]) * 4 or []) + ["x", "gone", ""]))
            elif x < 0.6:
                data["attrs"]["signal"] = r.choice([number(r), odd_value(r), text(r, "/entry0/data0/x"), text(r, ".")])
            entry["items"]["data%d" % d] = data
        if r.random() < 0.5:
            entry["attrs"]["default"] = text(r, r.choice(["data0", "data1", "gone", "/entry0/data0"]))
        if r.random() < 0.25:
            entry["items"]["f"] = field(r, number(r), {"signal": mark(r)} if r.random() < 0.7 else {})
        root["items"]["entry%d" % e] = entry
    if r.random() < 0.2:
        root["items"]["f"] = field(r, number(r), {"signal": mark(r)})
    if r.random() < 0.5:
        root["attrs"]["default"] = text(r, r.choice(["entry0", "entry1", "gone"]))
    case = {"root": root}
    if r.random() < 0.15:
        root["items"]["l"] = {"t": r.choice(["soft", "hard"])}
        resolve_links(r, case)
    return case


def old_plot_file(r):
    """the plot marked with an attribute of a field, groups of one name in several entries"""
    root = group(r)
    for e in range(1 + r.randrange(3)):
        entry = group(r, r.choice(["NXentry", "NXentry", "NXentry", "NXsubentry"]))
        for d in range(r.randrange(3)):
            data = group(r, r.choice(["NXdata", "NXdata", "NXdetector"]))
            for n in r.sample(["x", "y", "data"], 1 + r.randrange(3)):
                data["items"][n] = field(r, number(r))
                if r.random() < 0.6:
                    data["items"][n]["attrs"]["signal"] = {"k": "n", "dtype": "i4", "v": [1], "shape": []} if r.random() < 0.6 else mark(r)
            if r.random() < 0.3:
                data["items"]["sub"] = group(r, "NXdata", {"x": field(r, number(r), {"signal": mark(r)})})
            entry["items"]["data%d" % d] = data
        root["items"]["entry%d" % e] = entry
    return {"root": root}


def resolve_links(r, case):
    ps = list(paths(case["root"]))
    for s in case["root"]["items"].values():
        if s["t"] in ("soft", "hard"):
            s["to"] = r.choice(ps + ["/"])


def app_file(r):
    root = group(r)
    for e in range(1 + r.randrange(2)):
        entry = group(r, r.choice(["NXentry", "NXentry", "NXentry", "NXsubentry", "NXnote"]))
        target = entry
        if r.random() < 0.3:
            target = group(r, "NXsubentry")
            entry["items"]["sub"] = target
        nm = r.choice(DEFS)
        x = r.random()
        if x < 0.8:
            target["items"]["definition"] = field(r, text(r, nm), {"version": {"k": "s", "v": "1"}} if r.random() < 0.2 else {})
        elif x < 0.95:
            target["items"]["definition"] = r.choice([field(r, odd_value(r)), field(r, number(r)), group(r, "NXnote"), field(r, {"k": "O", "v": [nm, "NXsas"], "shape": [2]}), field(r, {"k": "S", "v": [nm.encode().hex(), "4e58"], "shape": [2]})])
        for n in ("title", "must", "choice", "start_time", "first", "second", "name", "program_name", "run"):
            if r.random() < 0.5:
                target["items"][n] = r.choice([field(r, text(r, r.choice(ENUMS))), field(r, text(r, r.choice(ENUMS))), field(r), group(r, None), field(r, {"k": "O", "v": [r.choice(ENUMS), r.choice(ENUMS)], "shape": [2]}),
                                               {"t": "soft", "to": "/nowhere"}])
        if r.random() < 0.1:
            entry["attrs"]["definition"] = {"k": "s", "v": nm}
        root["items"]["entry%d" % e] = entry
    return {"root": root}


def class_file(r):
    root = group(r)
    for e in range(1 + r.randrange(4)):
        c = r.choice(CLASSES)
        g = group(r)
        x = r.random()
        if x < 0.85:
            g["attrs"]["NX_class"] = text(r, c)
        elif x < 0.95:
            g["attrs"]["NX_class"] = r.choice([odd_value(r), number(r), {"k": "O", "v": [c, "NXdata"], "shape": [2]}])
        g["items"] = content(r, 1, 3)
        for a in r.sample(["mode", "free", "target", "signal", "default", "x"], r.randrange(4)):
            g["attrs"][a] = text(r, r.choice(ENUMS + list(g["items"]))) if r.random() < 0.8 else anything(r)
        root["items"][r.choice(STRICT) + str(e)] = g
    if r.random() < 0.5:
        root["attrs"]["NX_class"] = text(r, r.choice(CLASSES + ["NXroot"] * 8))
    if r.random() < 0.3:
        f = field(r)
        f["attrs"]["NX_class"] = text(r, r.choice(CLASSES))
        root["items"]["f"] = f
    case = {"root": root}
    for n in list(root["items"]):
        if n.startswith("hex:"):
            del root["items"][n]
    return resolve(r, case)


def twin_file(r):
    """groups of classes that differ between the file sets"""
    root = group(r)
    for n in r.sample(range(12), 8):
        g = group(r, f"NXr{n}")
        g["items"] = content(r, 1, 2)
        for a in r.sample(["mode", "free", "title", "signal", "x"], r.randrange(3)):
            g["attrs"][a] = text(r, r.choice(ENUMS))
        root["items"][r.choice(STRICT + ["Data", "a.b", "1", "a-b", "12x"]) + str(n)] = g
    e = group(r, "NXentry")
    e["items"]["definition"] = field(r, text(r, f"NXr{r.randrange(12)}"))
    root["items"]["entry"] = e
    for n in list(root["items"]):
        if n.startswith("hex:"):
            del root["items"][n]
    return resolve(r, {"root": root})


def names_file(r):
    """many names"""
    def some(depth):
        items = {}
        for _ in range(2 + r.randrange(5)):
            x = r.random()
            alpha = "ab_zZ09.: -é\n/@"[:13]
            n = name(r, 0.8) if x < 0.6 else "".join(r.choice(alpha) for _ in range(1 + r.randrange(5)))
            if x > 0.95:
                n = r.choice("aB9_") * 70
            elif x > 0.88:
                n = r.choice(["NXcollection", "NXcollection", "my_NXcollection", "NXcollection2", "NXentry", "NXdata"])
            if n in (".", "..") or n.startswith("./") or not n:
                continue
            s = field(r, number(r)) if depth == 0 or r.random() < 0.6 else group(r, r.choice(["NXdata", "NXcollection", "NXentry", "NXnote", None, "NXcollections", "NX/", "NXa/b", "NX@x"]), some(depth - 1))
            for _ in range(r.randrange(3)):
                a = name(r, 0.8) if r.random() < 0.6 else "".join(r.choice(alpha) for _ in range(1 + r.randrange(4)))
                if a != "NX_class":
                    s["attrs"][a] = number(r)
            items[n] = s
        return items
    case = {"root": group(r, None, {"entry": group(r, "NXentry", some(2))})}
    for k, v in some(1).items():
        case["root"]["items"][k] = v
    if r.random() < 0.5:
        root = case["root"]
        for p in ("entry",):
            for s in root["items"][p].get("items", {}).values():
                if s["t"] in "gd" and r.random() < 0.3:
                    s["attrs"]["target"] = text(r, r.choice(list(paths(root))))
    return case


def link_file(r):
    """sharing, cycles, broken links"""
    case = {"root": group(r, None, {"entry": group(r, "NXentry", content(r, 2, 3))})}
    def add(node, d):
        for _ in range(r.randrange(4)):
            node["items"][r.choice("abcdefgh")] = {"t": r.choice(["soft", "hard", "hard", "ext", "soft"])}
        for s in list(node["items"].values()):
            if s["t"] == "g":
                add(s, d + 1)
    add(case["root"], 0)
    return resolve(r, case)


def pointer_file(r):
    """many pointers"""
    root = group(r)
    for e in range(1 + r.randrange(2)):
        entry = group(r, "NXentry", content(r, 1, 2))
        for d in range(1 + r.randrange(2)):
            data = group(r, r.choice(["NXdata", "NXdata", "NXsubentry", "NXmine", None]))
            for n in r.sample(["x", "y", "data", "Q", "a.b", "x\n"], r.randrange(5)):
                data["items"][n] = field(r, number(r)) if r.random() < 0.8 else {"t": r.choice(["soft", "hard", "ext"])}
                for a in ("signal", "target", "axes"):
                    if r.random() < 0.3 and "attrs" in data["items"][n]:
                        data["items"][n]["attrs"][a] = anything(r)
            for a in ("signal", "axes", "default", "target"):
                if r.random() < 0.6:
                    data["attrs"][a] = anything(r)
            entry["items"]["d%d" % d] = data
        for a in ("default", "axes", "signal", "target"):
            if r.random() < 0.4:
                entry["attrs"][a] = anything(r)
        root["items"]["e%d" % e] = entry
    for a in ("default", "axes", "signal", "target"):
        if r.random() < 0.3:
            root["attrs"][a] = anything(r)
    return resolve(r, {"root": root})


def lookalike_file(r):
    """fields, groups and attributes named like the parts of class paths"""
    names = ["NXentry", "NXdata", "NXdata", "NXsubentry", "signal", "definition", "data", "x", "non-NeXus content"]

    def items(depth):
        out = {}
        for n in r.sample(names, 1 + r.randrange(4)):
            if depth and r.random() < 0.45:
                s = group(r, r.choice(["NXentry", "NXdata", "NXsubentry", "NXnote", None, "NXentry/NXdata"]), items(depth - 1))
            else:
                s = field(r, number(r) if r.random() < 0.7 else None)
            for a in ("signal", "default", "axes", "target", "NX_class", "x"):
                if r.random() < 0.3 and a not in s["attrs"]:
                    s["attrs"][a] = text(r, r.choice(names)) if r.random() < 0.6 else mark(r) if r.random() < 0.5 else anything(r)
            out[n] = s
        return out

    entry = group(r, "NXentry", items(2))
    if r.random() < 0.5 and "definition" not in entry["items"]:
        entry["items"]["definition"] = field(r, text(r, r.choice(DEFS)))
    root = group(r, None, items(1))
    root["items"]["e"] = entry
    return resolve(r, {"root": root})
