"""Findings of the real validator against the independent reference."""
import os
import shutil
from collections import Counter

import h5py

from . import base, gen_h5, h5case, ref, refnxdl, sets
from .base import Bad, oracle, workdir, brief

_V = {}


def validator(name, fresh=False):
    from punx import cache_manager, validate

    if fresh or name not in _V:
        fs = cache_manager.NXDL_File_Set()
        fs.read_info_file(os.path.join(sets.folder(name), "__github_info__.json"))
        v = validate.Data_File_Validator(fs)
        if fresh:
            return v
        _V[name] = v
    return _V[name]


def reference(path, setname):
    with h5py.File(path, "r") as f:
        return ref.Reference(f, refnxdl.fileset(sets.folder(setname)))


def findings(v, path):
    try:
        v.validate(path)
        return [(f.h5_address, f.test_name, str(f.status)) for f in v.validations]
    except Exception as exc:  # noqa
        raise Bad("validate fails: " + brief(exc))


def differences(got, exp, belongs):
    got = Counter(x for x in got if belongs(x))
    exp = Counter(x for x in exp if belongs(x))
    if got != exp:
        more, less = list((got - exp).elements()), list((exp - got).elements())
        return f"findings: not expected {sorted(map(str, more))[:6]}; missing {sorted(map(str, less))[:6]}"


def attr_of(addr):
    return addr.split("@")[-1] if addr and "@" in addr else None


def c01(x):
    return x[1] == "validItemName" and attr_of(x[0]) != "NX_class"


def c02(x):
    return x[1] in ("known NXDL", "NeXus base class") or x[1] in ("attribute value", "validItemName") and attr_of(x[0]) == "NX_class"


def c03(x):
    return (x[1] == "attribute value" and attr_of(x[0]) != "NX_class" or x[1].startswith(("valid name @", "axes["))
            or x[1] in ("value of @signal", "value of @default", "value of @target"))


def c04(x):
    return x[1] in ("NXDL field in data file", "NXDL group in data file", "field in base class", "group in base class", "known attribute",
                    "attribute value enumeration", "NeXus_group", "NeXus base class") or x[1].startswith(("value of @", "unhandled"))


def c05(x):
    return x[1] in ("known NXDL", "NeXus application definition", "NXDL field", "NXDL field enumerations")


def c07(x):
    return x[1].startswith("NeXus default plot")


def run_case(case, belongs):
    with workdir() as d:
        p = h5case.write(case["file"], d)
        v = validator(case["set"])
        try:
            got = findings(v, p)
        finally:
            try:
                v.close()
            except Exception:  # noqa
                pass
        return differences(got, reference(p, case["set"]).found, belongs)


def gen(makers, sets_, n):
    def cases(r):
        for i in range(n):
            yield {"set": r.choice(sets_), "file": r.choice(makers)(r)}
    return cases


def samples(prop, belongs):
    """the sample files of the package"""
    def cases(r):
        p = os.path.join(base.REPO, "punx", "data")
        names = sorted(f for f in os.listdir(p) if f.endswith((".h5", ".hdf5", ".nx5", ".nxs")))
        for f in names:
            yield {"set": r.choice(["v2018.5", "v3.3"]), "sample": f}

    @oracle(prop, cases, "every sample file of the package")
    def judge(case):
        p = os.path.join(base.REPO, "punx", "data", case["sample"])
        v = validator(case["set"])
        try:
            got = findings(v, p)
        finally:
            v.close()
        return differences(got, reference(p, case["set"]).found, belongs)


ALL = ["odd", "odd", "strict", "small", "small33", "rand0", "rand1", "rand2"]
SETS = ["odd", "strict", "small33", "rand0", "rand1", "twin0", "twin1", "twin2", "twin3"]
for prop, belongs, makers, n in (
        ("C01", c01, [gen_h5.names_file] * 4 + [gen_h5.lookalike_file, gen_h5.any_file, gen_h5.link_file], 260),
        ("C02", c02, [gen_h5.class_file] * 3 + [gen_h5.lookalike_file, gen_h5.any_file, gen_h5.app_file], 300),
        ("C03", c03, [gen_h5.pointer_file] * 3 + [gen_h5.lookalike_file, gen_h5.any_file, gen_h5.plot_file, gen_h5.link_file], 260),
        ("C04", c04, [gen_h5.class_file] * 3 + [gen_h5.lookalike_file, gen_h5.any_file, gen_h5.link_file], 300),
        ("C05", c05, [gen_h5.app_file] * 5 + [gen_h5.lookalike_file, gen_h5.any_file], 260),
        ("C07", c07, [gen_h5.plot_file] * 4 + [gen_h5.old_plot_file] * 3 + [gen_h5.lookalike_file, gen_h5.any_file], 340)):
    def _judge(case, belongs=belongs):
        return run_case(case, belongs)
    oracle(prop, gen(makers, ALL, n), "random HDF5 files (see oracle/gen_h5.py) with made-up and real file sets; the findings of the tests that belong to the property are compared, as multisets, with an independent reference")(_judge)
    samples(prop, belongs)


# ------------------------------------------------------------------------ C06
@oracle("C06", gen([gen_h5.link_file] * 3 + [gen_h5.any_file, gen_h5.lookalike_file, gen_h5.names_file], ["small"], 300),
        "random HDF5 files with sharing, cycles and broken links; catalogues compared with an independent walk")
def judge_c06(case):
    with workdir() as d:
        p = h5case.write(case["file"], d)
        v = validator(case["set"])
        findings(v, p)
        try:
            r = ref.Reference(v.h5, refnxdl.fileset(sets.folder(case["set"])))
            got = {k: i.classpath for k, i in v.addresses.items() if k is not None}
            exp = {k: "non-NeXus content" if i.cp is None else i.cp for k, i in r.by_address.items()}
            if got != exp:
                return f"catalogue: {sorted(set(got.items()) ^ set(exp.items()))[:6]}"
            g = Counter((k, str(i.h5_address)) for k, l in v.classpaths.items() for i in l)
            e = Counter(("non-NeXus content" if i.cp is None else i.cp, str(i.addr)) for i in r.items)
            if g != e:
                return f"class paths: not expected {list((g - e).elements())[:4]} missing {list((e - g).elements())[:4]}"
            for k, i in v.addresses.items():
                if k is None:
                    continue
                j = r.by_address[k]
                if (i.name, i.is_attribute) != (j.name, j.attr):
                    return f"item {k}: {i.name!r} {i.is_attribute}"
                if (i.parent.h5_address if i.parent else None) != (j.parent.addr if j.parent else None):
                    return f"parent of {k}: {i.parent.h5_address if i.parent else None}"
                if not i.is_attribute and i.h5_object != j.obj:
                    return f"object of {k}"
        finally:
            v.close()


# ------------------------------------------------------------------------ C10
def c10_cases(r):
    for i in range(30):
        n = 4 + r.randrange(5)
        steps = []
        files = [gen_h5.twin_file(r)] + [r.choice([gen_h5.any_file, gen_h5.plot_file, gen_h5.app_file, gen_h5.class_file, gen_h5.names_file])(r) for _ in range(2)]
        for _ in range(n):
            x = r.random()
            if x < 0.12:
                steps.append({"op": r.choice(["missing", "broken"]), "v": r.randrange(3)})
            elif x < 0.25:
                steps.append({"op": "new", "v": r.randrange(3), "set": r.choice(SETS)})
            elif x < 0.32:
                steps.append({"op": "close", "v": r.randrange(3)})
            else:
                steps.append({"op": "validate", "v": r.randrange(3), "file": r.choice(files)})
                if r.random() < 0.2:  # closed and used again
                    steps += [{"op": "close", "v": steps[-1]["v"]}, {"op": "validate", "v": steps[-1]["v"], "file": r.choice(files)}]
        yield {"sets": [r.choice(SETS) for _ in range(3)], "steps": steps}


@oracle("C10", c10_cases, "random sequences of validations with up to three validators and file sets in one process; every result compared with the reference, which has no history, and the definitions with what they were")
def judge_c10(case):
    from punx import FileNotFound, HDF5_Open_Error

    vs = [validator(s, True) for s in case["sets"]]
    names = list(case["sets"])
    snap = [snapshot(v) for v in vs]
    try:
        with workdir() as d:
            for n, s in enumerate(case["steps"]):
                i = s["v"]
                if s["op"] == "new":
                    vs[i].close()
                    vs[i], names[i] = validator(s["set"], True), s["set"]
                    snap[i] = snapshot(vs[i])
                elif s["op"] == "close":
                    vs[i].close()
                elif s["op"] == "missing":
                    expect(FileNotFound, vs[i].validate, os.path.join(d, "no such file"))
                elif s["op"] == "broken":
                    p = os.path.join(d, "broken.h5")
                    open(p, "w").write("not HDF5")
                    expect(HDF5_Open_Error, vs[i].validate, p)
                else:
                    f = os.path.join(d, str(n))
                    os.makedirs(f)
                    p = h5case.write(s["file"], f)
                    got = findings(vs[i], p)
                    r = differences(got, reference(p, names[i]).found, lambda x: True)
                    if r:
                        return f"step {n}: {r}"
            for j in range(3):
                if snapshot(vs[j]) != snap[j]:
                    return f"definitions: changed ({names[j]})"
    finally:
        for v in vs:
            try:
                v.close()
            except Exception:  # noqa
                pass


def expect(kind, f, *a):
    try:
        f(*a)
    except kind:
        return
    except Exception as exc:  # noqa
        raise Bad("open: raises " + brief(exc))
    raise Bad("open: no exception " + kind.__name__)


def snapshot(v):
    """definitions as the validator has them"""
    from punx import nxdl_manager as nm

    def dump(o):
        if isinstance(o, dict):
            return [(k, dump(x)) for k, x in o.items()]
        if isinstance(o, (list, tuple)):
            return [dump(x) for x in o]
        if isinstance(o, nm.NXDL__base):
            return [type(o).__name__] + [(k, dump(x)) for k, x in sorted(vars(o).items()) if k not in ("nxdl_definition", "nxdl_manager")]
        if isinstance(o, (str, int, float, type(None))):
            return o
        return [type(o).__name__] + [(k, dump(x)) for k, x in sorted(vars(o).items()) if k in ("default_value", "required", "name", "type", "enum", "minOccurs", "maxOccurs", "patterns")] if hasattr(o, "__dict__") else str(type(o))

    n = v.manager.nxdl_file_set.schema_manager.nxdl
    pats = [(k, p.base, list(p.re_list), p.maxLength) for k, p in sorted(n.patterns.items())]
    return repr((dump(v.manager.classes), pats))


# ------------------------------------------------------------------------ C22
@oracle("C22", gen([gen_h5.any_file, gen_h5.any_file, gen_h5.lookalike_file, gen_h5.link_file, gen_h5.class_file, gen_h5.app_file, gen_h5.names_file, gen_h5.pointer_file, gen_h5.plot_file], ["odd", "small"], 300),
        "random HDF5 files with odd values, names and links: validation and report end normally, the file is not changed")
def judge_c22(case):
    with workdir() as d:
        p = h5case.write(case["file"], d)
        os.utime(p, (1, 1))
        before = open(p, "rb").read()
        v = validator(case["set"])
        got = findings(v, p)
        if v.h5.mode != "r":
            return f"mode: the file is opened with mode {v.h5.mode}"
        if not got:
            return "findings: none"
        try:
            v.print_report()
        except Exception as exc:  # noqa
            return "print_report fails: " + brief(exc)
        v.close()
        if open(p, "rb").read() != before or os.stat(p).st_mtime != 1:
            return "file: changed"
