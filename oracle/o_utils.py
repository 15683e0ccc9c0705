"""C13 decoding, C21 NeXus files."""
import os

import h5py
import numpy

from . import base, gen_h5, h5case
from .base import Bad, oracle, workdir, brief
from .ref import decode, single, is_group, there


def values(r):
    pool = ["", "a", "abc", "é", "名前", "a\n", "NXdata", "\x00x", "1", "𝄞"]
    for i in range(500):
        k = r.randrange(12)
        if k == 0:
            yield {"kind": "bytes", "v": r.choice(pool).encode().hex()}
        elif k == 1:
            yield {"kind": "bytes", "v": bytes(r.randrange(256) for _ in range(r.randrange(6))).hex()}
        elif k == 2:
            yield {"kind": "npbytes", "v": r.choice(pool).encode().hex()}
        elif k == 3:
            yield {"kind": "str", "v": r.choice(pool)}
        elif k == 4:
            yield {"kind": "plain", "v": r.choice([0, 1, 1.5, None, True, [1, 2], ["a"], {}])}
        elif k == 5:
            yield {"kind": "number array", "v": [1, 2, 3][: r.randrange(4)]}
        else:
            shape = r.choice([[0], [1], [2], [3], [2, 2], [1, 1], [0, 3], [2, 0], [1, 0], [1, 2, 0], [1, 2, 2], []])
            n = 1
            for s in shape:
                n *= s
            if k < 9:
                yield {"kind": "S", "shape": shape, "v": [(r.choice(pool[1:7]).encode() if r.random() < 0.8 else bytes(r.randrange(1, 256) for _ in range(3))).hex() for _ in range(n)]}
            else:
                yield {"kind": "O", "shape": shape, "v": [r.choice([r.choice(pool), "hex:" + bytes(r.randrange(256) for _ in range(3)).hex(), "hex:" + r.choice(pool).encode().hex()]) for _ in range(n)]}


def value(c):
    k = c["kind"]
    if k == "bytes":
        return bytes.fromhex(c["v"])
    if k == "npbytes":
        return numpy.bytes_(bytes.fromhex(c["v"]))
    if k == "number array":
        return numpy.array(c["v"])
    if k == "S":
        return numpy.array([bytes.fromhex(x) for x in c["v"]], dtype="S16").reshape(c["shape"])
    if k == "O":
        a = numpy.empty(len(c["v"]), dtype=object)
        for i, x in enumerate(c["v"]):
            a[i] = bytes.fromhex(x[4:]) if x.startswith("hex:") else x
        return a.reshape(c["shape"])
    return c["v"]


def flat(x):
    return [z for y in x for z in flat(y)] if isinstance(x, list) else [x]


@oracle("C13", values, "random texts, bytes, arrays and other values: decode_byte_string and attribute_text against an independent decoder")
def judge_c13(case):
    from punx import utils

    x = value(case)
    try:
        got = utils.decode_byte_string(x)
        txt = utils.attribute_text(x)
    except Exception as exc:  # noqa
        return "decode_byte_string fails: " + brief(exc)
    exp = decode(x)
    if case["kind"] in ("plain", "str", "number array"):
        if got is not x:
            return f"decode_byte_string: {x!r} does not pass unchanged: {got!r}"
    elif case["kind"] in ("S", "O") and case["shape"] and x.size:
        if type(got) is not list or shape(got) != list(x.shape) or any(type(z) is not str for z in flat(got)) or got != exp:
            return f"decode_byte_string: {x!r} gives {got!r}"
    elif got != exp or type(got) is not type(exp):
        return f"decode_byte_string: {x!r} gives {got!r}, expected {exp!r}"
    if txt != single(x):
        return f"attribute_text: {x!r} gives {txt!r}"


def shape(l):
    return [len(l)] + shape(l[0]) if isinstance(l, list) else []


def c13_files(r):
    for i in range(60):
        t = r.choice(["é", "名前", "µm", "Å", "a\u2028b", "x\ny", "hex:ff61"])
        how = r.choice(["b", "s", "S", "O"])
        yield {"op": r.choice(["tree", "validate", "ascii"]), "text": t, "how": how, "where": r.choice(["attr", "field", "name"])}


@oracle("C13", c13_files, "files with text that is not ASCII or not UTF-8, in tree views and validations, also with a process of ASCII output")
def judge_c13_files(case):
    import subprocess
    import sys
    from .o_validate import validator

    t = case["text"]
    raw = bytes.fromhex(t[4:]) if t.startswith("hex:") else t.encode("utf8")
    shown = raw.decode("utf8", errors="replace")
    v = {"k": "b", "v": raw.hex()} if case["how"] != "S" else {"k": "S", "v": [raw.hex(), "61"], "shape": [2]}
    if case["how"] == "s" and not t.startswith("hex:"):
        v = {"k": "s", "v": t}
    if case["how"] == "O" and not t.startswith("hex:"):
        v = {"k": "O", "v": [t, "a"], "shape": [2]}
    entry = {"t": "g", "attrs": {"NX_class": {"k": "s", "v": "NXentry"}}, "items": {"x": {"t": "d", "attrs": {}, "data": {"k": "n", "dtype": "i4", "v": [1], "shape": []}}}}
    if case["where"] == "attr":
        entry["attrs"]["axes" if case["op"] == "validate" else "default"] = v
    elif case["where"] == "field":
        entry["items"]["f"] = {"t": "d", "attrs": {} if case["op"] == "tree" else {"signal": v}, "data": v}
    else:
        if "\x00" in t:
            return None
        entry["items"][t] = {"t": "d", "attrs": {}, "data": {"k": "n", "dtype": "i4", "v": [1], "shape": []}}
    with workdir() as d:
        p = h5case.write({"root": {"t": "g", "attrs": {}, "items": {"entry": entry}}}, d)
        if case["op"] == "ascii":
            env = dict(os.environ, PYTHONIOENCODING="ascii", PYTHONPATH=base.REPO, LC_ALL="C", PYTHONUTF8="0")
            for cmd in (["tree"], ["validate", "-f", "v3.3"]):
                q = subprocess.run([sys.executable, "-m", "punx.main", cmd[0], p] + cmd[1:], env=env, cwd=base.REPO, capture_output=True)
                if q.returncode or b"Traceback" in q.stderr:
                    return f"punx {cmd[0]} with ASCII output fails: {q.stderr[-300:]!r}"
            return None
        if case["op"] == "tree":
            from punx import h5tree

            try:
                text = "\n".join(h5tree.Hdf5TreeView(p).report(True))
            except Exception as exc:  # noqa
                return "tree fails: " + brief(exc)
            if shown not in (text.replace("\\n", "\n").replace("\\u2028", "\u2028") if "[" in text else text):
                return f"tree: text {shown!r} is not shown"
            return None
        val = validator("small")
        try:
            val.validate(p)
        except Exception as exc:  # noqa
            return "validate fails: " + brief(exc)
        finally:
            val.close()
        if case["where"] == "attr":
            tests = [f.test_name for f in val.validations]
            if f"axes['{shown}'] exists" not in tests:
                return f"validation: {shown!r} is not decoded in the findings"
        if case["where"] == "name" and not any(f.h5_address == "/entry/" + shown for f in val.validations):
            return f"validation: name {shown!r} not in the findings"


# ------------------------------------------------------------------------ C21
def c21_cases(r):
    for i in range(250):
        root = gen_h5.group(r)
        n = r.randrange(5)
        for k in range(n):
            x = r.random()
            cls = r.choice(["NXentry", "NXentry", "NXdata", "nxentry", "NXentry ", "NXsubentry", "NXentr", "NXentry\n"])
            nm = r.choice("abcdefxyz") + r.choice(["", "1"])
            if x < 0.5:
                root["items"][nm] = gen_h5.group(r, cls, {"e": gen_h5.group(r, "NXentry")} if r.random() < 0.3 else {})
            elif x < 0.6:
                root["items"][nm] = gen_h5.group(r, None, {}, {"NX_class": r.choice([gen_h5.odd_value(r), gen_h5.number(r), {"k": "O", "v": ["NXentry", "NXentry"], "shape": [2]}])})
            elif x < 0.75:
                root["items"][nm] = gen_h5.field(r, gen_h5.number(r), {"NX_class": {"k": "s", "v": "NXentry"}})
            else:
                root["items"][nm] = {"t": r.choice(["soft", "ext", "hard"])}
        if r.random() < 0.2:
            root["attrs"]["NX_class"] = gen_h5.text(r, "NXentry")
        yield {"file": gen_h5.resolve(r, {"root": root})}


@oracle("C21", c21_cases, "random root groups with classes, fields, odd values and links: isNeXusFile and the first line of the tree")
def judge_c21(case):
    from punx import h5tree, utils

    with workdir() as d:
        p = h5case.write(case["file"], d)
        with h5py.File(p, "r") as f:
            exp = any(is_group(o) and not isinstance(o, h5py.File) and single(o.attrs.get("NX_class")) == "NXentry" for o in (there(f, k) for k in f) if o is not None)
        try:
            got = utils.isNeXusFile(p)
            t = h5tree.Hdf5TreeView(p)
            line = t.report()[0]
        except Exception as exc:  # noqa
            return "fails: " + brief(exc)
        if got is not exp:
            return f"isNeXusFile: {got!r} expected {exp}"
        if (" : NeXus data file" in line) is not exp:
            return f"tree: first line {line!r}"
        if utils.isNeXusFile(os.path.join(d, "missing.h5")):
            return "isNeXusFile: a missing file"
