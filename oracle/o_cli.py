"""C18 abbreviated subcommands, C19 requests which can not be done."""
import io
import json
import logging
import os
import shutil
import sys

from . import base, gen_h5, h5case, sets
from .base import oracle, workdir, brief
from .o_report import rows_of, STATUS

COMMANDS = ["configuration", "demonstrate", "install", "tree", "validate"]
FUNC = {"configuration": "func_configuration", "demonstrate": "func_demo", "install": "func_install", "tree": "func_tree", "validate": "func_validate"}


class Run:
    """one run of punx in this process"""

    def __init__(self, argv, record=False):
        from punx import main

        self.code, self.exc, self.called = None, None, []
        out, err, log = io.StringIO(), io.StringIO(), io.StringIO()
        h = logging.StreamHandler(log)
        root = logging.getLogger()
        old = sys.argv, sys.stdout, sys.stderr, root.handlers[:], root.level
        saved = {f: getattr(main, f) for f in FUNC.values()}
        root.handlers[:] = [h]
        root.setLevel(logging.INFO)
        sys.argv, sys.stdout, sys.stderr = ["punx"] + list(argv), out, err
        try:
            if record:
                for f in saved:
                    setattr(main, f, self.recorder(f))
            main.main()
        except SystemExit as exc:
            self.code = exc.code
            self.exited = True
        except Exception as exc:  # noqa
            self.exc = brief(exc)
        finally:
            for f, v in saved.items():
                setattr(main, f, v)
            sys.argv, sys.stdout, sys.stderr, root.handlers[:] = old[:4]
            root.setLevel(old[4])
        self.out, self.err, self.log = out.getvalue(), err.getvalue(), log.getvalue()

    def recorder(self, name):
        def f(args):
            self.called.append((name, {k: repr(v) for k, v in sorted(vars(args).items()) if k != "func"}))
        return f

    @property
    def refused(self):
        return self.exc is None and self.code not in (None, 0)

    @property
    def text(self):
        return self.out + self.err + self.log


TAILS = {
    "configuration": [[]],
    "demonstrate": [[]],
    "install": [[], ["main"], ["a", "b"], ["-u"], ["--update", "v3.3"], ["va"], ["tree"]],
    "tree": [["some file.h5"], ["f", "-a"], ["f", "-m", "3"], ["--max_array_items", "7", "in"], ["x.nxdl.xml"], ["validate"], ["tr"]],
    "validate": [["f.h5"], ["f", "--report", "ok,ERROR"], ["-f", "v3.3", "in"], ["f", "--file_set_name", "none"], ["tr"], ["validate"], ["ok", "--report=note"]],
}
# "--m", "--file", "--rep": options may be abbreviated too, as argparse does it
TAILS["tree"].append(["f", "--max", "4"])


def c18_cases(r):
    words = set()
    for c in COMMANDS:
        for n in range(len(c) + 1):
            words.add(c[:n])
            words.add(c[:n] + r.choice("xyz eT"))
            if n:
                words.add(c[:n].upper())
                words.add(c[1:n + 1])
                words.add(c[:n - 1] + c[n:])
    words |= {"", " ", "c", "v", "help", "upd", "str", "é", "val idate", "tree ", "in st", "t", "tr", "configure", "demo", "de", "valid", "co nf"}
    words = sorted(w for w in words if not w.startswith("-"))
    for w in words:
        m = [c for c in COMMANDS if c.startswith(w)] or [r.choice(COMMANDS)]
        for t in r.sample(TAILS[m[0]], min(2, len(TAILS[m[0]]))):
            yield {"word": w, "tail": t}
        if len([c for c in COMMANDS if c.startswith(w)]) == 1:
            yield {"word": w, "tail": [w]}  # the same word once more
            yield {"word": w, "tail": [w, w]}


@oracle("C18", c18_cases, "all prefixes of all subcommand names, words near them, with several lists of further arguments")
def judge_c18(case):
    return judge_word(case["word"], case["tail"], COMMANDS, lambda w: Run([w] + case["tail"], record=True))


def judge_word(w, tail, commands, run):
    a = run(w)
    if w in commands:
        hit = w
    else:
        m = [c for c in commands if c.startswith(w)]
        hit = m[0] if len(m) == 1 and len(w) >= 2 else None
    if hit is None:
        if not a.refused or a.called:
            return f"subcommand {w!r}: not refused: {a.called or a.exc or a.code}"
        if not a.text.strip():
            return f"subcommand {w!r}: no message"
        return None
    b = run(hit)
    if a.exc:
        return f"subcommand {w!r}: " + a.exc
    if (a.called, a.code) != (b.called, b.code):
        return f"subcommand {w!r}: runs {a.called or a.code}, {hit} runs {b.called or b.code}"
    if a.called and a.called[0][0] != FUNC[hit] or not a.called and tail in TAILS[hit]:
        return f"subcommand {w!r}: runs {a.called or a.code} instead of {FUNC[hit]}"
    exp = expected_args(hit, tail)
    if exp is not None and a.called:
        for k, v in exp.items():
            if a.called[0][1].get(k) != repr(v):
                return f"subcommand {w!r}: {k}={a.called[0][1].get(k)} expected {v!r}"


def expected_args(command, tail):
    """what reaches the subcommand for the lists of arguments above"""
    if tail not in TAILS[command]:
        return None
    if command == "install":
        return {"update": tail[:1] in (["-u"], ["--update"]), "file_set_name": [x for x in tail if not x.startswith("-")] or ["main"]}
    if command == "tree":
        e = {"show_attributes": "-a" not in tail, "max_array_items": 5, "infile": tail[0]}
        if "-m" in tail:
            e["max_array_items"] = 3
        if tail[0] == "--max_array_items":
            e["max_array_items"], e["infile"] = 7, "in"
        if "--max" in tail:
            e["max_array_items"] = 4
        return e
    if command == "validate":
        e = {"infile": tail[2] if tail[0] == "-f" else tail[0]}
        if "-f" in tail:
            e["file_set_name"] = "v3.3"
        if "--file_set_name" in tail:
            e["file_set_name"] = "none"
        if "--report" in tail:
            e["report"] = "ok,ERROR"
        if "--report=note" in tail:
            e["report"] = "note"
        return e


def names_cases(r):
    """other sets of subcommands: the rule does not depend on the names of today"""
    for i in range(150):
        names = list({"".join(r.choice("abt") for _ in range(1 + r.randrange(5))) for _ in range(1 + r.randrange(5))})
        w = "".join(r.choice("abt") for _ in range(r.randrange(5))) if r.random() < 0.4 else r.choice(names)[: r.randrange(6)]
        yield {"names": sorted(names), "word": w, "tail": r.choice([[], ["x"], ["a", "b"], [w], ["a", w, w]])}


@oracle("C18", names_cases, "random sets of subcommand names for the argument parser of punx")
def judge_names(case):
    from punx import main

    names = case["names"]
    if not names:
        return None
    p = main.MyArgumentParser(prog="p")
    s = p.add_subparsers()
    for n in names:
        q = s.add_parser(n)
        q.set_defaults(func=n)
        q.add_argument("rest", nargs="*")
    w = case["word"]
    old, sys.argv = sys.argv, ["punx", w] + list(case["tail"])
    got, ns = None, None
    err, sys.stderr = sys.stderr, io.StringIO()
    try:
        ns = p.parse_args()
        got = ns.func
    except SystemExit as exc:
        if exc.code in (0, None):
            return f"abbreviation {w!r} of {names}: exit {exc.code}"
    except Exception as exc:  # noqa
        return f"abbreviation {w!r} of {names}: " + brief(exc)
    finally:
        sys.argv, sys.stderr = old, err
    m = [n for n in names if n.startswith(w)]
    exp = w if w in names else m[0] if len(m) == 1 and len(w) >= 2 else None
    if got != exp:
        return f"abbreviation {w!r} of {names}: {got} expected {exp}"
    if got is not None and list(ns.rest) != case["tail"]:
        return f"abbreviation {w!r} of {names}: arguments {ns.rest} expected {case['tail']}"


# ------------------------------------------------------------------------ C19
FILES = ["missing", "missing.nxdl.xml", "dir", "dir.nxdl.xml", "empty.h5", "text.h5", "truncated.h5", "good.h5", "plain.h5", "empty.nxdl.xml", "garbage.nxdl.xml", "wrong.nxdl.xml", "other.nxdl.xml", "good.nxdl.xml",
         "hdf5.nxdl.xml", "xml.h5", "cut.nxdl.xml", "no dir/f.h5", "no dir/f.nxdl.xml"]
BADFILE = {"missing", "missing.nxdl.xml", "dir", "dir.nxdl.xml", "empty.h5", "text.h5", "truncated.h5", "empty.nxdl.xml", "garbage.nxdl.xml", "wrong.nxdl.xml", "hdf5.nxdl.xml", "xml.h5", "cut.nxdl.xml", "no dir/f.h5", "no dir/f.nxdl.xml"}
# for these the structure of the XML can be shown
TREE_ANY = {"wrong.nxdl.xml", "other.nxdl.xml"}
WORDS = list(STATUS)


def c19_cases(r):
    for f in FILES:
        for c in ("tree", "validate"):
            for x in ([["-a"], []] if c == "tree" else [[], ["-f", "v3.3"], ["-f", "none"], ["--report", "bogus"]]):
                yield {"cmd": c, "file": f, "opts": x}
    for n in ("v3", "v3.", "V3.3", "v3.3 ", " v3.3", "3.3", "v3.3,main", "v3.3/", "./v3.3", "punx", "v", "A4FD52D", "a4fd52", "a4fd52d00", "source", "v2018.5-1"):
        yield {"cmd": "validate", "file": r.choice(["good.h5", "good.h5", "good.nxdl.xml"]), "opts": ["-f", n]}
    for i in range(40):
        k = r.sample(WORDS, 1 + r.randrange(4))
        if r.random() < 0.2:
            k.append(k[0])
        k = [r.choice([str.lower, str.upper, str.title, str])(x) for x in k]
        if r.random() < 0.4:
            k.insert(r.randrange(len(k) + 1), r.choice(["", " ok", "OKAY", "ER", "all", "ok ", "ERRORS", "é", "NOTE;WARN", "None"]))
        yield {"cmd": "validate", "file": "good.h5" if r.random() < 0.8 else r.choice(FILES), "opts": ["--report", ",".join(k)] if r.random() < 0.8 else ["--report=" + ",".join(k)]}


def prepare(d):
    import h5py

    os.mkdir(os.path.join(d, "dir"))
    os.mkdir(os.path.join(d, "dir.nxdl.xml"))
    w = lambda n, b: open(os.path.join(d, n), "wb").write(b)
    w("empty.h5", b"")
    w("text.h5", b"this is text, not HDF5\n" * 50)
    with h5py.File(os.path.join(d, "good.h5"), "w") as h:
        g = h.create_group("entry")
        g.attrs["NX_class"] = "NXentry"
        g["1bad name"] = [1, 2]
        g["title"] = "x"
        s = g.create_group("data")
        s.attrs["NX_class"] = "NXdata"
        s.attrs["signal"] = "y"
        s["y"] = [1, 2, 3]
        u = g.create_group("what")
        u.attrs["NX_class"] = "NXunknown"
    with h5py.File(os.path.join(d, "plain.h5"), "w") as h:
        h["x"] = 1
    b = open(os.path.join(d, "good.h5"), "rb").read()
    w("truncated.h5", b[: len(b) // 2])
    src = sets.source()["v2018.5"]
    good = open(os.path.join(src, "base_classes", "NXdata.nxdl.xml"), "rb").read()
    w("good.nxdl.xml", good)
    w("xml.h5", good)
    w("hdf5.nxdl.xml", b)
    w("empty.nxdl.xml", b"")
    w("garbage.nxdl.xml", b"<definition <<")
    w("cut.nxdl.xml", good[: len(good) // 2])
    w("wrong.nxdl.xml", good.replace(b"</definition>", b"<nonsense/></definition>"))
    # valid for the schema of v3.3, not for the one of v2018.5
    w("other.nxdl.xml", open(os.path.join(sets.source()["v3.3"], "base_classes", "NXdata.nxdl.xml"), "rb").read())


def valid_for(p, name):
    import lxml.etree

    schema = lxml.etree.XMLSchema(lxml.etree.parse(os.path.join(sets.source()[name], "nxdl.xsd")))
    return schema.validate(lxml.etree.parse(p))


@oracle("C19", c19_cases, "the tree and validate commands for missing, unreadable, damaged, invalid and good files, known and unknown file sets, random report options")
def judge_c19(case):
    with workdir() as d:
        from punx import cache_manager

        prepare(d)
        cache_manager.CacheManager().select_NXDL_file_set()  # as in a process of its own
        f = os.path.join(d, case["file"])
        a = Run([case["cmd"], f] + case["opts"])
        what = f"{case['cmd']} {case['file']} {' '.join(case['opts'])}: "
        if a.exc:
            return what + "traceback " + a.exc
        o = case["opts"]
        fs = o[1] if o[:1] == ["-f"] else "v2018.5"
        report = o[1] if o[:1] == ["--report"] and len(o) > 1 else o[0][9:] if o and o[0].startswith("--report=") else None
        words = None if report is None else report.split(",")
        bad = [x for x in words or [] if x.upper() not in STATUS]
        name = case["file"]
        nxdl = name.endswith(".nxdl.xml")
        if case["cmd"] == "tree":
            fail = name in BADFILE and name not in TREE_ANY
            if name in TREE_ANY:
                return None if not a.refused or a.text.strip() else what + "no message"
        else:
            fail = name in BADFILE or fs not in sets.source() or (bool(bad) and not nxdl)
            if nxdl and not fail:
                fail = not valid_for(f, fs)
        if fail:
            if not a.refused:
                return what + f"exit status {a.code}: {a.out[-200:]!r}"
            body = a.out.split("not ready for distribution.", 1)[-1].strip()
            if body and case["cmd"] == "tree" or "NeXus definitions version" in a.out or "summary statistics" in a.out or "validates" in a.out:
                return what + f"a report is printed: {body[:200]!r}"
            msg = a.err + a.log
            if not msg.strip():
                return what + "no message"
            if fs not in sets.source():
                if fs not in msg:
                    return what + f"the message does not name the file set: {msg[-200:]!r}"
            elif bad and not nxdl and name not in BADFILE:
                for x in bad:
                    if x.upper() not in msg.upper():
                        return what + f"the message does not name {x!r}: {msg[-300:]!r}"
            elif name not in msg and not (bad and not nxdl) and not (nxdl and case["cmd"] == "tree"):
                return what + f"the message does not name the file: {msg[-300:]!r}"
            return None
        if a.code not in (None, 0):
            return what + f"exit status {a.code}: {a.text[-300:]!r}"
        if case["cmd"] == "tree":
            if name == "good.h5" and ("entry:NXentry" not in a.out or "title" not in a.out or ("@signal" in a.out) != ("-a" not in o)):
                return what + f"tree: {a.out!r}"
            return None
        if nxdl:
            return None if f in a.out and "validates" in a.out else what + f"not reported as valid: {a.out!r}"
        if "NeXus definitions version: " + fs not in a.out:
            return what + f"file set not reported: {a.out[-200:]!r}"
        from punx import finding, validate

        v = validate.Data_File_Validator(fs)
        v.validate(f)
        sel = [x.upper() for x in words] if words else list(STATUS)
        exp = sorted((x.h5_address, str(x.status), x.test_name) for x in v.validations if str(x.status) in sel)
        v.close()
        head = a.out.split("\nsummary statistics\n")[0].split("findings\n", 1)[-1]
        got = sorted(x[:3] for x in rows_of(head, 4))
        if got != exp:
            return what + f"reported {[x for x in got if x not in exp][:4]} expected {[x for x in exp if x not in got][:4]} ({len(got)}/{len(exp)})"
