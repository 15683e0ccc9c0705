"""Goals about the command line (properties C18 and C19)."""
import argparse
import os
import sys

from .goals import goal, Ctx, same_term
from .vworld import *
from .values import *
from .interp import Model
from . import models as M
from spec import cli as S_cli
import punx.main

MAIN = "punx/main.py:"
PARSER = punx.main.MyArgumentParser
PARSE = Model  # for readability below


def leave(code):
    def f(it, a, kw):
        raise PyRaise(SystemExit(code))

    return f


def any_texts(run, name, least=0):
    n, at = z3.Int(name + "_n"), F(name, IntS, StrS)
    run.assume(n >= least)
    seq = SSeq((name,), n, lambda j: SStr(at(j)))
    j, k = z3.Ints("aj ak")
    return seq, at, n


@goal("C18", "main.parse_args", MAIN + "MyArgumentParser.parse_args")
def g_parse_args(run):
    c = Ctx(run, {})
    it = c.it
    # subcommands: any distinct names
    has, key, n = F("sub_has", StrS, BoolS), F("sub_key", IntS, StrS), z3.Int("sub_n")
    run.assume(n >= 1)
    M.distinct_keys(run, n, key, has=has)
    keys = SSeq(("subcommands",), n, lambda j: SStr(key(j)))
    table = SMap(("subcommands",), lambda s: has(s), lambda s: SObj(F("sub_get", StrS, Obj)(s), ObjClass("parser")), keys)
    SUB = ObjClass("SUBPARSERS", {"choices": lambda it, o: table})
    OTHER = ObjClass("ACTION")
    SUB.isinst = lambda it, o, cls: cls is argparse._SubParsersAction
    OTHER.isinst = lambda it, o, cls: False
    sub, other = SObj(z3.Const("sub", Obj), SUB), SObj(z3.Const("other", Obj), OTHER)
    actions = [[sub], [other, sub]][run.choose(2)]
    GROUP = ObjClass("GROUP", {"_group_actions": lambda it, o: acts})
    acts = it.new_list(actions)
    p = it.new_object(PARSER, _subparsers=SObj(z3.Const("group", Obj), GROUP))
    it.stubs[("argparse", "ArgumentParser.error")] = Model("error", leave(2))
    # command line
    word = c.text("word")
    rest, at, m = any_texts(run, "arg")
    kind = run.choose(4)
    prog = c.text("prog")
    if kind == 0:  # nothing but the program
        argv = [prog]
    else:
        argv = [prog, word, M.piece_of(rest)]
    argv = it.new_list(argv)
    dash = z3.PrefixOf(z3.StringVal("-"), word.t)
    if kind == 1:
        run.assume(dash)
    if kind == 2:
        run.assume(z3.Not(dash))
    given = it.new_list([c.text("x")]) if kind == 3 else None
    it.models[("attr", id(sys), "argv")] = lambda it: argv
    calls = []

    def parent(it, a, kw):
        v = dict(zip(("self", "args", "namespace"), a))
        v.update(kw)
        calls.append((v, list(argv.items)))
        return Tok("namespace", [])

    it.models[id(argparse.ArgumentParser.parse_args)] = Model("parse_args", parent)
    it.stubs[("argparse", "ArgumentParser.parse_args")] = Model("parse_args", parent)
    space = c.obj("namespace0", ObjClass("NS"))
    before = list(argv.items)
    out = c.real(PARSER.parse_args, p, given, space) if kind == 3 or run.choose(2) else c.real(PARSER.parse_args, p)
    means = "as it is"
    if kind == 2:
        means = c.no_exception("spec", c.call(S_cli.subcommand, word, keys))
        if means is None:
            c.prove("refused", out[0] == "exc" and type(out[1]) is SystemExit)
            c.prove("nothing is run", not calls)
            return
    out = c.no_exception("accepted", out)
    c.prove("result", isinstance(out, Tok) and out.name == "namespace" and len(calls) == 1)
    v, now = calls[0]
    c.prove("same parser", v["self"] is p)
    a = it.force(v.get("args"))
    c.prove("arguments", a is given or a is argv and given is None)
    ns = it.force(v.get("namespace"))
    c.prove("name space", ns is None or ns is space)
    c.prove("number of arguments", len(now) == len(before))
    for n, (x, y) in enumerate(zip(now, before)):
        if n == 1 and kind == 2:
            c.same_value("subcommand", x, means)
        else:
            c.prove("other arguments", x is y)


# ------------------------------------------------------------------------ C19
def fsets(it):
    key, n = F("fset_key", IntS, StrS), z3.Int("fset_n")
    get, at = F("fset_get", StrS, Obj), F("fset_at", StrS, IntS)
    known = F("fset_has", StrS, BoolS)
    M.distinct_keys(it.run, n, key, at, known)
    has = M.key_of(it.run, n, key, at, known)
    keys = SSeq(("fsets",), n, lambda j: SStr(key(j)))
    return SMap(("fsets",), lambda s: has(s), lambda s: SObj(get(s), FS), keys)


FS = ObjClass("FS")
FS.setattr = lambda it, o, name, v: it.frame_violation(f"writes {name} of a file set")


class CliCtx(Ctx):
    def __init__(self, run):
        Ctx.__init__(self, run, {})
        it = self.it
        it.models[id(exit)] = Model("exit", lambda it, a, kw: self.exit(a))
        it.models[id(sys.exit)] = Model("exit", lambda it, a, kw: self.exit(a))
        self.log = run.logs["print"] = it.reg(IList([]))
        self.effects = it.reg(IList([]))
        self.sets = fsets(it)
        cm = it.new_object(punx.cache_manager.CacheManager)
        C = ObjClass("CM", {"all_file_sets": lambda it, o: self.sets, "NXDL_file_sets": lambda it, o: self.sets})
        it.stubs[("punx.cache_manager", "CacheManager")] = Model("CacheManager", lambda it, a, kw: SObj(z3.Const("cm", Obj), C))

    def exit(self, a):
        code = self.it.force(a[0]) if a else None
        raise PyRaise(SystemExit(code))

    def is_error_exit(self, out):
        return out[0] == "exc" and type(out[1]) is SystemExit and out[1].args == (1,)


@goal("C19", "main.func_validate", MAIN + "func_validate")
def g_func_validate(run):
    from punx import validate as pv

    c = CliCtx(run)
    it = c.it
    A = ObjClass("ARGS", {k: (lambda it, o, k=k: SStr(z3.String("arg_" + k))) for k in ("file_set_name", "infile", "report")})
    args = SObj(z3.Const("args", Obj), A)
    VAL = ObjClass("VALIDATOR")
    val = SObj(z3.Const("validator", Obj), VAL)
    made, failed = [], []

    def new(it, a, kw):
        made.append((list(a) + list(kw.values()))[0])
        return val

    def run_it(it, o, a, kw):
        n = it.run.choose(4)
        if n:
            failed.append(n)
            raise PyRaise([punx.FileNotFound, punx.HDF5_Open_Error, punx.SchemaNotFound][n - 1]("text"))
        it.list_append(c.effects, [("data file", a[0], made[-1])])

    def nxdl(it, a, kw):
        if it.run.choose(2):
            failed.append("nxdl")
            raise PyRaise(SystemExit(1))
        it.list_append(c.effects, [("NXDL file", a[0], a[1])])

    reports = []

    def report(it, o, a, kw):
        v = (list(a) + list(kw.values()))
        reports.append(v)
        c.prove("report of a judged file", len(c.effects.items) == 1)

    it.stubs[("punx.validate", "Data_File_Validator")] = Model("Data_File_Validator", new)
    it.stubs[("punx.main", "validate_nxdl_file")] = Model("validate_nxdl_file", nxdl)
    VAL.methods["validate"], VAL.methods["print_report"] = run_it, report
    out = c.real(punx.main.func_validate, args)
    if out[0] == "exc":
        c.prove("an error exit", c.is_error_exit(out), repr(out[1]))
        c.prove("no report", not reports)
        if failed:
            return
        got = it.new_list(["exit"])
    else:
        c.prove("no failure is passed over", not failed)
        got = c.effects
    exp = c.no_exception("spec", c.call(S_cli.validation, args, c.sets, finding.VALID_STATUS_DICT))
    c.same_items("what is done", got, exp)
    if out[0] != "exc" and c.effects.items[0][0] == "data file":
        c.prove("one report", len(reports) == 1 and len(reports[0]) == 1)
        want = c.no_exception("spec", c.call(S_cli.chosen, SStr(z3.String("arg_report")), finding.VALID_STATUS_DICT))
        c.same_items("statuses", reports[0][0], want, ordered=True)
    elif out[0] != "exc":
        c.prove("no report", not reports)
        c.prove("told to be valid", any(any(isinstance(x, str) and "validates" in x for x in p) for p in c.log.items))


TREE = ObjClass("TREE")


@goal("C19", "main.func_tree", MAIN + "func_tree", also=("C11",))
def g_func_tree(run):
    from punx import h5tree, nxdltree

    c = CliCtx(run)
    it = c.it
    A = ObjClass("ARGS", {
        "infile": lambda it, o: SStr(z3.String("arg_infile")), "show_attributes": lambda it, o: SBool(z3.Bool("arg_attributes")),
        "max_array_items": lambda it, o: SInt(z3.Int("arg_items"))})
    args = SObj(z3.Const("args", Obj), A)
    it.models[id(os.path.exists)] = Model("exists", lambda it, a, kw: SBool(F("exists", StrS, BoolS)(zs(a[0]))))
    it.models[id(os.path.abspath)] = Model("abspath", lambda it, a, kw: SStr(F("abspath", StrS, StrS)(zs(a[0]))))
    failed = []
    lines = SSeq(("lines",), z3.Int("lines_n"), lambda j: SStr(F("line", IntS, StrS)(j)))
    run.assume(z3.Int("lines_n") >= 0)

    def may_fail(*kinds):
        n = run.choose(1 + len(kinds))
        if n:
            failed.append(kinds[n - 1])
            raise PyRaise(kinds[n - 1]("text"))

    def new(kind, *errors):
        def f(it, a, kw):
            it.list_append(c.effects, [(kind, list(a)[0])])
            may_fail(*errors)
            return view
        return Model(kind, f)

    fields = {}
    view = SObj(z3.Const("view", Obj), TREE)
    nx = bool(run.choose(2))
    sfx = z3.SuffixOf(z3.StringVal(".nxdl.xml"), z3.String("arg_infile"))
    run.assume(sfx if nx else z3.Not(sfx))
    any_error = (punx.FileNotFound, punx.InvalidNxdlFile, punx.SchemaNotFound, OSError, ValueError, KeyError, RuntimeError)

    def report(it, o, a, kw):
        it.list_append(c.effects, [("report", (list(a) + list(kw.values()) + [True])[0], fields.get("array_items_shown"))])
        may_fail(*(any_error if nx else (punx.HDF5_Open_Error,)))
        return lines if run.choose(2) else None

    def put(it, o, name, v):
        fields[name] = v

    TREE.methods["report"] = report
    TREE.setattr = put
    it.stubs[("punx.nxdltree", "NxdlTreeView")] = new("NXDL file", *any_error)
    it.stubs[("punx.h5tree", "Hdf5TreeView")] = new("HDF5 file", punx.FileNotFound, OSError)
    out = c.real(punx.main.func_tree, args)
    there = SBool(F("exists", StrS, BoolS)(z3.String("arg_infile")))
    if out[0] == "exc":
        c.prove("an error exit", c.is_error_exit(out), repr(out[1]))
        c.prove("nothing is shown", not c.log.items)
        c.prove("something was wrong", bool(failed) or z3.Not(there.t))
        return
    c.prove("no failure is passed over", not failed)
    exp = c.no_exception("spec", c.call(S_cli.tree, args, there, SStr(F("abspath", StrS, StrS)(z3.String("arg_infile")))))
    c.same_items("what is done", c.effects, exp, ordered=True)
    c.prove("one text is shown", len(c.log.items) == 1 and len(c.log.items[0]) == 1)


@goal("C19", "main.validate_nxdl_file", MAIN + "validate_nxdl_file")
def g_validate_nxdl(run):
    import lxml.etree
    from punx import nxdl_manager

    c = CliCtx(run)
    it = c.it
    it.models[id(os.path.exists)] = Model("exists", lambda it, a, kw: SBool(F("exists", StrS, BoolS)(zs(a[0]))))
    infile, fs = c.text("infile"), c.obj("file_set", FS)
    tree = c.obj("tree", ObjClass("XMLTREE"))
    wrong = []

    def parse(it, a, kw):
        c.prove("the file asked for", len(a) == 1 and not kw and it.force(a[0]) is infile)
        n = run.choose(3)
        if n:
            wrong.append("not XML")
            raise PyRaise([OSError, XSE][n - 1]("text"))
        return tree

    class XSE(lxml.etree.XMLSyntaxError):
        def __init__(self, *a):
            pass

    def judge(it, a, kw):
        c.prove("judged by the schema of the file set", len(a) == 2 and a[0] is tree and a[1] is fs)
        wrong.append("judged")
        if run.choose(2):
            wrong.append("not valid")
            raise PyRaise(punx.InvalidNxdlFile("text"))

    it.models[id(lxml.etree.parse)] = Model("parse", parse)
    it.stubs[("punx.nxdl_manager", "validate_xml_tree")] = Model("validate_xml_tree", judge)
    out = c.real(punx.main.validate_nxdl_file, infile, fs)
    there = F("exists", StrS, BoolS)(infile.t)
    if out[0] == "exc":
        c.prove("an error exit", c.is_error_exit(out), repr(out[1]))
        c.prove("something was wrong", wrong not in ([], ["judged"]) or z3.Not(there))
    else:
        c.prove("valid", wrong == ["judged"])
        c.prove("a file", there)


@goal("C19", "main.exit_message", MAIN + "exit_message")
def g_exit_message(run):
    c = CliCtx(run)
    code = SInt(z3.Int("code"))
    args = [c.text("message")] + ([code] if run.choose(2) else [])
    out = c.call(punx.main.exit_message, *args)
    c.prove("exits", out[0] == "exc" and type(out[1]) is SystemExit)
    got = out[1].args[0] if out[1].args else None
    c.prove("exit code", (got == 1) if len(args) == 1 else got is code)


@goal("C19", "nxdl.validate_xml_tree", "punx/nxdl_manager.py:validate_xml_tree")
def g_validate_tree(run):
    """judged by the schema of the file set that is given, else of the default one; an invalid document is an error"""
    import lxml.etree
    from punx import nxdl_manager

    c = CliCtx(run)
    it = c.it
    it.stubs.pop(("punx.nxdl_manager", "validate_xml_tree"), None)
    judged, wrong = [], []

    class Invalid(lxml.etree.DocumentInvalid):
        def __init__(self, *a):
            pass

    def judge(it, o, a, kw):
        judged.append((o, it.force(a[0])))
        if run.choose(2):
            wrong.append(1)
            raise PyRaise(Invalid("text"))

    XSD = ObjClass("XSD_", {}, {"assertValid": judge})
    SMGR_ = ObjClass("SMGR_", {"lxml_schema": lambda it, o: SObj(F("its_schema", Obj, Obj)(o.t), XSD)})
    FSET_ = ObjClass("FSET_", {"schema_manager": lambda it, o: SObj(F("its_manager", Obj, Obj)(o.t), SMGR_)})
    default = c.obj("default_manager", SMGR_)
    it.stubs[("punx.schema_manager", "get_default_schema_manager")] = Model("get_default_schema_manager", lambda it, a, kw: default)
    given = c.obj("file_set", FSET_) if run.choose(2) else None
    tree = c.obj("tree", ObjClass("XMLTREE"))
    out = c.real(nxdl_manager.validate_xml_tree, tree, *([] if given is None and run.choose(2) else [given]))
    c.prove("judged once", len(judged) == 1 and judged[0][1] is tree)
    m = default.t if given is None else F("its_manager", Obj, Obj)(given.t)
    c.prove("by the schema of the file set", judged[0][0].t == F("its_schema", Obj, Obj)(m))
    if out[0] == "exc":
        c.prove("invalid", bool(wrong) and type(out[1]) is punx.InvalidNxdlFile, repr(out[1])[:100])
    else:
        c.prove("valid", not wrong)


@goal("C19", "schema.get_default_schema_manager", "punx/schema_manager.py:get_default_schema_manager")
def g_default_schema(run):
    from punx import schema_manager

    c = Ctx(run, {})
    it = c.it
    mine = c.obj("schema", ObjClass("SMGR_"))
    FSET_ = ObjClass("FSET_", {"schema_manager": lambda it, o: mine})
    C = ObjClass("CM_", {"default_file_set": lambda it, o: c.obj("set", FSET_)})
    it.stubs[("punx.cache_manager", "CacheManager")] = Model("CacheManager", lambda it, a, kw: c.obj("cm", C))
    out = c.no_exception("no exception", c.real(schema_manager.get_default_schema_manager))
    c.prove("schema of the default file set", it.force(out) is mine)


@goal("C19", "main.main", MAIN + "main", also=("C18",))
def g_main(run):
    """the subcommand that was asked for is run, once, with the arguments; without one it ends with a message and an error exit"""
    c = CliCtx(run)
    it = c.it
    called = []
    some = bool(run.choose(2))

    def func(it, a, kw):
        called.append(list(a))
        c.prove("any text can be printed", not text or bool(safe) and safe[-1] in ("backslashreplace", "namereplace", "replace", "xmlcharrefreplace", "ignore"))

    attrs = {"func": lambda it, o: Model("func", func)} if some else {}
    attrs["hasattr"] = lambda it, o: (lambda name: name == "func" and some)
    args = c.obj("args", ObjClass("ARGS", attrs))
    it.stubs[("punx.main", "parse_command_line_arguments")] = Model("parse_command_line_arguments", lambda it, a, kw: args)
    it.models[("attr", id(sys), "argv")] = lambda it: it.new_list([c.text("prog")])
    text, safe = bool(run.choose(2)), []  # is standard output a stream of text that can be configured

    def reconfigure(it, o, a, kw):
        c.prove("only what can not be printed is changed", not a and set(kw) == {"errors"})
        safe.append(it.force(kw.get("errors")))

    OUT = ObjClass("STDOUT", {"hasattr": lambda it, o: (lambda name: text and name == "reconfigure")}, {"reconfigure": reconfigure} if text else {})
    it.models[("attr", id(sys), "stdout")] = lambda it: c.obj("stdout", OUT)
    out = c.real(punx.main.main)
    if some:
        c.no_exception("no exception", out)
        c.prove("run once, with the arguments", len(called) == 1 and len(called[0]) == 1 and called[0][0] is args)
    else:
        c.prove("an error exit", c.is_error_exit(out), repr(out[1]))
        c.prove("a message", len(c.log.items) >= 1)
