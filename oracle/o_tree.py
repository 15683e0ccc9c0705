"""C11 tree view, C12 array previews."""
import ast
import re
from collections import Counter

import h5py
import numpy

from . import base, gen_h5, h5case
from .base import Bad, oracle, workdir, brief
from .ref import decode, single, is_group, there, text1


def files(n, makers):
    def cases(r):
        for i in range(n):
            c = {"file": r.choice(makers)(r), "attrs": r.random() < 0.75, "limit": r.choice([5, 5, 3, 4, 10, 2, 1])}
            scrub(c["file"]["root"], r)
            yield c
    return cases


def scrub(node, r):
    """datasets that h5py cannot read are not in scope"""
    for s in node["items"].values():
        if s["t"] == "g":
            scrub(s, r)


def one_line(s):
    return "\n" not in s and "\r" not in s


class Expect:
    """lines of the tree: each node (depth, text or predicate)"""

    def __init__(self, f, nexus, show_attrs):
        self.nexus, self.show = nexus, show_attrs
        self.lines = []
        self.group(f, None, 0, [])

    def attr(self, depth, name, value):
        v = decode(value)
        if isinstance(v, list) and v and isinstance(v[0], str):
            v = '["' + '", "'.join(v) + '"]'
        elif isinstance(v, str):
            v = f'"{v}"'
        return (depth, f"@{text1(name)} = {v}")

    def attrs(self, o, depth, extra=()):
        if not self.show:
            return []
        return [self.attr(depth, k, v) for k, v in list(o.attrs.items()) + list(extra)]

    def linked(self, o):
        if "target" not in o.attrs:
            return None
        t = single(o.attrs["target"])
        return t if t and t != o.name else None


def check_group(x, f, lines, at, indent, name, head, enclosing, extra):
    """lines[at] begins the group; returns the position behind it"""
    pad = "  " * indent
    cls = single(f.attrs.get("NX_class")) or ""
    want = pad + head + (":" + cls if cls else "")
    at = expect(lines, at, want)
    at = expect_attrs(x, lines, at, indent + 1, f, extra)
    enclosing = enclosing + [f]
    groups = []
    seen = []
    for k in sorted(f, key=str):
        nm = text1(k)
        link = f.get(k, getlink=True) if isinstance(k, str) else None
        child = there(f, k)
        pad1 = pad + "  "
        if isinstance(link, h5py.SoftLink):
            at = expect(lines, at, f"{pad1}{nm}: --> {link.path}")
        elif child is None:
            at = expect(lines, at, f"{pad1}{nm}: missing external file")
            if x.show and isinstance(link, h5py.ExternalLink):
                at = expect(lines, at, f'{pad1}  @file = "{link.filename}"')
                at = expect(lines, at, f'{pad1}  @path = "{link.path}"')
        elif x.linked(child) is not None:
            at = expect(lines, at, f"{pad1}{nm} --> {x.linked(child)}")
        elif any(child == e for e in enclosing):
            at = expect(lines, at, f"{pad1}{nm} --> {text1(child.name)}", loose=True)
        elif is_group(child):
            groups.append((child, nm, link))
        elif isinstance(child, h5py.Dataset):
            if at >= len(lines) or not lines[at].startswith(f"{pad1}{nm.splitlines()[0] if nm.splitlines() else nm}"):
                raise Bad(f"field: {nm!r} expected at line {at}: {lines[at:at + 1]}")
            # value lines up to the attributes
            ex = []
            if isinstance(link, h5py.ExternalLink):
                ex = [("file", link.filename), ("path", link.path)]
            at = expect_field(x, lines, at, indent + 1, child, nm, ex)
        else:
            at = expect(lines, at, f"{pad1}{nm}:{type(child).__name__}")
            at = expect_attrs(x, lines, at, indent + 2, child, ())
    for child, nm, link in groups:
        ex = [("file", link.filename), ("path", link.path)] if isinstance(link, h5py.ExternalLink) else []
        at = check_group(x, child, lines, at, indent + 1, nm, nm, enclosing, ex)
    return at


def expect(lines, at, want, loose=False):
    if at >= len(lines):
        raise Bad(f"line: {want!r} missing at the end")
    if lines[at] != want and not (loose and lines[at].split(" --> ")[0] == want.split(" --> ")[0]):
        raise Bad(f"line: {lines[at]!r} expected {want!r}")
    return at + 1


def attr_line(depth, name, value):
    v = decode(value)
    if isinstance(v, list) and v and isinstance(v[0], str):
        v = '["' + '", "'.join(v) + '"]'
    elif isinstance(v, str):
        v = f'"{v}"'
    return "  " * depth + f"@{text1(name)} = {v}"


def expect_attrs(x, lines, at, depth, obj, extra):
    if not x.show:
        return at
    want = [attr_line(depth, k, v) for k, v in list(obj.attrs.items()) + list(extra)]
    got = lines[at: at + len(want)]
    if Counter(got) != Counter(want):
        raise Bad(f"attributes: {list((Counter(got) - Counter(want)).elements())[:3]} expected {list((Counter(want) - Counter(got)).elements())[:3]}")
    return at + len(want)


def expect_field(x, lines, at, depth, obj, nm, extra):
    pad = "  " * depth
    first = lines[at]
    if not first.startswith(f"{pad}{nm}:"):
        raise Bad(f"field: {first!r} expected {nm!r}")
    at += 1
    if first.endswith(" = __array"):
        if at >= len(lines) or not lines[at].startswith(f"{pad}  __array = "):
            raise Bad("field: array missing")
        at += 1
    return expect_attrs(x, lines, at, depth + 1, obj, extra)


@oracle("C11", files(300, [gen_h5.any_file, gen_h5.any_file, gen_h5.link_file, gen_h5.class_file, gen_h5.names_file, gen_h5.pointer_file]),
        "random HDF5 files: every line of the tree view compared with an independent walk (values of fields not compared)")
def judge_c11(case):
    from punx import h5tree

    with workdir() as d:
        p = h5case.write(case["file"], d)
        before = open(p, "rb").read()
        t = h5tree.Hdf5TreeView(p)
        t.array_items_shown = case["limit"]
        try:
            lines = t.report(case["attrs"])
        except Exception as exc:  # noqa
            return "tree fails: " + brief(exc)
        if open(p, "rb").read() != before:
            return "file: changed"
        with h5py.File(p, "r") as f:
            x = object.__new__(Expect)
            x.show = case["attrs"]
            head = p + (" : NeXus data file" if t.isNeXus else "")
            end = check_group(x, f, lines, 0, 0, p, head, [], [])
        if end != len(lines):
            return f"line: {lines[end]!r} is not expected"


# ------------------------------------------------------------------------ C12
def shapes(r):
    for n in range(0, 14):
        for limit in (3, 4, 5, 6, 10):
            yield {"shape": [n], "limit": limit}
    for i in range(160):
        rank = r.choice([1, 1, 2, 2, 3, 4, 5])
        yield {"shape": [r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 11]) if rank < 4 else r.choice([0, 1, 2, 3, 6]) for _ in range(rank)], "limit": r.choice([3, 4, 5, 7, 20])}


def preview(a, limit, rank):
    """what is to be shown: nested lists of numbers, "..." where items are left out"""
    n = a.shape[0]
    idx = list(range(n)) if n <= limit else list(range(limit - 2)) + ["..."] + [n - 1]
    out = []
    for i in idx:
        if i == "...":
            out.append("...")
        elif a.ndim == 1:
            out.append(int(a[i]))
        elif a.ndim < 4:
            out.append(preview(a[i], limit, rank))
        else:
            out.append("rank")
    return out


def parse(text):
    t = re.sub(r"rank=\d+", '"rank"', text)
    t = t.replace("'...'", "...")
    t = t.replace("...", '"..."')
    toks = re.findall(r'\[|\]|"[^"]*"|-?\d+(?:\.\d+)?', re.sub(r"(?:np|numpy)\.\w+\(([^)]*)\)", r"\1", t))
    stack = [[]]
    for k in toks:
        if k == "[":
            stack.append([])
        elif k == "]":
            x = stack.pop()
            stack[-1].append(x)
        elif k.startswith('"'):
            stack[-1].append(k.strip('"'))
        else:
            stack[-1].append(int(float(k)))
    return stack[0]


@oracle("C12", shapes, "arrays of many shapes (dimensions of length zero too) and limits, written to a file; the array text of the tree is read back and compared")
def judge_c12(case):
    from punx import h5tree

    shape = case["shape"]
    if not shape or case["limit"] < 3:
        return None
    n = 1
    for s in shape:
        n *= s
    a = numpy.arange(n, dtype="i8").reshape(shape) + 1000
    with workdir() as d:
        p = d + "/a.h5"
        with h5py.File(p, "w") as f:
            f.create_dataset("x", data=a)
        t = h5tree.Hdf5TreeView(p)
        t.array_items_shown = case["limit"]
        try:
            lines = t.report()
        except Exception as exc:  # noqa
            return "tree fails: " + brief(exc)
    text = "\n".join(lines[1:])
    if "__array" in text:
        text = text.split("__array = ", 1)[1] if text.count("__array") > 1 else text
    elif " = " in text:
        text = text.split(" = ", 1)[1]
    got = parse(text)
    exp = preview(a, case["limit"], a.ndim)
    if shape == [1]:
        exp_alt = [1000]
        if got == exp_alt or got == [[1000]]:
            return None
    if got != [exp]:
        return f"array: shape {shape} limit {case['limit']} shows {str(got)[:300]} expected {str([exp])[:300]}"
    for k in range(0, 30):
        want = k if k <= case["limit"] else case["limit"] - 2
        if t._decideNumShown(k) != want:
            return f"_decideNumShown({k}) with limit {case['limit']}: {t._decideNumShown(k)}"
