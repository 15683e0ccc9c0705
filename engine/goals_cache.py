"""Goals about the caches of NXDL file sets (properties C16 and C17)."""
import os
import pathlib
import shutil
import tempfile

from .goals import goal, Ctx, same_term
from .vworld import *
from .values import *
from .interp import Model
from . import models as M
from . import world as W
from .goals_cli import fsets, FS
from spec import cache as S_cache
import punx.cache_manager as CM

CACHE = "punx/cache_manager.py:"
fs_dated, fs_date = F("fs_dated", Obj, BoolS), F("fs_date", Obj, StrS)
FS.attrs["last_modified"] = lambda it, o: W.LOpt(fs_dated(o.t), fs_date(o.t))


def file_sets(it, name):
    key, n = F(name + "_key", IntS, StrS), z3.Int(name + "_n")
    get, at = F(name + "_get", StrS, Obj), F(name + "_at", StrS, IntS)
    has = F(name + "_has", StrS, BoolS)
    M.distinct_keys(it.run, n, key, at, has)
    return SMap((name,), M.key_of(it.run, n, key, at, has), lambda s: SObj(get(s), FS), SSeq((name,), n, lambda j: SStr(key(j))))


@goal("C16", "cache.get_short_sha", CACHE + "get_short_sha")
def g_short(run):
    c = Ctx(run, {})
    s = c.text("sha")
    c.same_outcome_value = None
    got = c.no_exception("result", c.real(CM.get_short_sha, s))
    want = c.no_exception("spec", c.call(S_cache.short, s))
    c.same_value("short commit", got, want)


@goal("C16", "cache.select_NXDL_file_set", CACHE + "CacheManager.select_NXDL_file_set")
def g_select(run):
    c = Ctx(run, {})
    it = c.it
    sets = file_sets(it, "known")
    run.assume(sets.keys.n >= 1)
    cm = it.new_object(CM.CacheManager, NXDL_file_sets=sets, default_file_set=None)
    ref = [None, c.text("ref")][run.choose(2)]
    args = [cm] if ref is None and run.choose(2) else [cm, ref]
    got = c.no_exception("result", c.real(CM.CacheManager.select_NXDL_file_set, *args))
    c.prove("a file set", isinstance(got, SObj) and got.cls is FS)
    s = z3.Const("other", StrS)
    date = lambda o: z3.If(fs_dated(o), fs_date(o), z3.StringVal(""))  # noqa
    if ref is not None and run.decide(sets.contains(ref.t)):
        c.prove("the one asked for", got.t == sets.get(ref.t).t)
    else:
        j = z3.Int("kj")
        c.prove("a known one", z3.Exists([j], z3.And(j >= 0, j < sets.keys.n, got.t == sets.get(zs(sets.keys.at(j))).t)))
        o = z3.Int("other")
        run.assume(z3.And(o >= 0, o < sets.keys.n))
        c.prove("none is later", date(sets.get(zs(sets.keys.at(o))).t) <= date(got.t))
    c.same_value("remembered", it.getattr(cm, "default_file_set"), got)


@goal("C16", "cache.CacheManager.all_file_sets", CACHE + "CacheManager.all_file_sets")
def g_all(run):
    c = Ctx(run, {})
    it = c.it
    source, user = file_sets(it, "source"), file_sets(it, "user")
    SC = ObjClass("CACHE", {"all_file_sets": lambda it, o: source if o.t.eq(z3.Const("source", Obj)) else user})
    cm = it.new_object(CM.CacheManager, source=c.obj("source", SC), user=c.obj("user", SC))
    f = CM.CacheManager.__dict__["all_file_sets"].fget
    got = c.no_exception("result", c.real(f, cm))
    c.prove("a mapping", isinstance(got, SMap))
    name = z3.String("name")
    c.prove("known names", got.contains(name) == z3.Or(source.contains(name), user.contains(name)))
    run.assume(got.contains(name))
    c.prove("user first", got.get(name).t == z3.If(user.contains(name), user.get(name).t, source.get(name).t))
    now = it.force(it.getattr(cm, "NXDL_file_sets"))
    c.prove("remembered", isinstance(now, SMap) and now.base == got.base)


def path_models(it):
    join = F("join", StrS, StrS, StrS)

    def join_all(it, a, kw):
        t = zs(a[0])
        for x in a[1:]:
            t = join(t, zs(x))
        return SStr(t)

    def one(name, sort):
        f = F("os_" + name, StrS, sort)
        return Model(name, lambda it, a, kw: (SStr if sort == StrS else SBool)(f(zs(a[0]))))

    ms = {"join": Model("join", join_all)}
    for n, s in (("isdir", BoolS), ("exists", BoolS), ("dirname", StrS), ("abspath", StrS), ("basename", StrS), ("isfile", BoolS)):
        ms[n] = one(n, s)
    split = Model("split", lambda it, a, kw: (ms["dirname"].f(it, a, {}), ms["basename"].f(it, a, {})))
    it.models[id(os.path.split)] = split
    for n, m in ms.items():
        it.models[id(getattr(os.path, n))] = m
    return ms


def names_in(it, a):
    f, n = F("listdir", StrS, IntS, StrS), F("listdir_n", StrS, IntS)(zs(a))
    M.distinct_keys(it.run, n, lambda j: f(zs(a), j))
    return SSeq(("listdir", zs(a)), n, lambda j: SStr(f(zs(a), j)))


@goal("C16", "cache.Base_Cache.all_file_sets", CACHE + "Base_Cache.all_file_sets")
def g_base_all(run):
    c = Ctx(run, {})
    it = c.it
    ms = path_models(it)
    it.models[id(os.listdir)] = Model("listdir", lambda it, a, kw: names_in(it, a[0]))

    class FileSet(Tok):
        def sym_getattr(self, it, name):
            if name != "read_info_file":
                raise Unsupported(f"attribute {name} of a file set")
            return Model(name, self.read)

        def read(self, it, a, kw):
            self.args.append(it.force(a[0]))

    it.stubs[("punx.cache_manager", "NXDL_File_Set")] = Model("NXDL_File_Set", lambda it, a, kw: FileSet("file set", []))
    path = c.text("path")
    ready = bool(run.choose(2))
    QS = ObjClass("QS", {}, {"fileName": lambda it, o, a, kw: SStr(z3.String("ini"))})
    QS.closed = True
    cache = it.new_object(CM.Base_Cache, **({"qsettings": c.obj("qs", QS)} if ready else {}))
    got = c.real(CM.Base_Cache.__dict__["all_file_sets"].fget, cache)
    if not ready:
        c.prove("no settings", got[0] == "exc" and type(got[1]) is RuntimeError)
        return
    got = c.no_exception("result", got)
    path = SStr(F("os_dirname", StrS, StrS)(z3.String("ini")))
    read = Model("read", lambda it, a, kw: Tok("file set", [a[0]]))
    want = c.no_exception("spec", c.call(S_cache.sets_of_cache, path, names_in(it, path), ms["join"], ms["isdir"], ms["exists"], read))
    c.same_items("file sets", got, want)


@goal("C16", "cache.read_info_file", CACHE + "NXDL_File_Set.read_info_file")
def g_read_info(run):
    c = Ctx(run, {})
    it = c.it
    ms = path_models(it)
    content = []

    def read(it, a, kw):
        content.append(it.force(a[0]))
        return SObj(z3.Const("content", Obj), JSON)

    JSON = ObjClass("JSON", {}, {"get": lambda it, o, a, kw: W.LOpt(F("json_has", StrS, BoolS)(zs(a[0])), F("json_text", StrS, StrS)(zs(a[0])))})
    it.stubs[("punx.cache_manager", "read_json_file")] = Model("read_json_file", read)
    old = {k: c.text("old_" + k) for k in ("path", "cache", "sha", "last_modified", "zip_url")}
    info = c.text("old_info")
    ref = [None, c.text("old_ref")][run.choose(2)]
    fs = it.new_object(CM.NXDL_File_Set, ref=ref, info=info, **old)
    given = [None, c.text("file_name")][run.choose(2)]
    if given is not None:
        run.assume(given.t != z3.StringVal(""))
    run.assume(info.t != z3.StringVal(""))
    got = c.real(CM.NXDL_File_Set.read_info_file, fs, *([given] if given is not None or run.choose(2) else []))
    if given is None and ref is None:
        c.prove("no file set", got[0] == "exc" and type(got[1]) is ValueError)
        return
    name = given if given is not None else info
    there = F("os_exists", StrS, BoolS)(name.t)
    if got[0] == "exc":
        c.prove("no information file", type(got[1]).__name__ == "FileNotFoundError" or type(got[1]).__name__ == "FileNotFound")
        c.prove("it does not exist", z3.Not(there))
        return
    c.prove("it exists", there)
    c.prove("its own information file", len(content) == 1 and same_term(it, content[0], name))
    source = ms["abspath"].f(it, [ms["join"].f(it, [ms["dirname"].f(it, [CM.__file__], {}), CM.SOURCE_CACHE_SUBDIR], {})], {})
    path, kind = c.no_exception("spec", c.call(S_cache.where, name, source, ms["dirname"], ms["abspath"], ms["exists"]))
    c.same_value("path", it.getattr(fs, "path"), path)
    c.same_value("cache", it.getattr(fs, "cache"), kind)
    c.same_value("information file", it.getattr(fs, "info"), name)
    for k in ("ref", "sha", "zip_url", "last_modified"):
        v = fs.__dict__[k]
        t = W.LOpt(F("json_has", StrS, BoolS)(z3.StringVal(k)), F("json_text", StrS, StrS)(z3.StringVal(k)))
        c.same_value(k, v, t)


# ------------------------------------------------------------------------ C17
p_join = F("p_join", Obj, StrS, Obj)
p_of = F("p_of", StrS, Obj)
p_name = F("p_name", Obj, StrS)
p_parent, p_suffix = F("p_parent", Obj, Obj), F("p_suffix", Obj, StrS)
p_n, p_part = F("p_n", Obj, IntS), F("p_part", Obj, IntS, StrS)
p_exists, p_isdir = F("p_exists", Obj, BoolS), F("p_isdir", Obj, BoolS)
PATH = ObjClass("PATH")
PATH.closed = True


def div(it, o, a, kw):
    k = it.force(a[0])
    if not M.is_text(k):
        raise Unsupported("path / no text")
    t = p_join(o.t, zs(k))
    # joining "" or "." changes nothing, a plain name is the name of the result
    it.run.assume(z3.Implies(z3.Or(zs(k) == "", zs(k) == "."), t == o.t))
    it.run.assume(z3.Implies(z3.And(zs(k) != "", zs(k) != ".", z3.Not(z3.Contains(zs(k), z3.StringVal("/")))), z3.And(p_name(t) == zs(k), t != o.t)))
    return SObj(t, PATH)


def parts_of(it, o):
    run, n, t = it.run, p_n(o.t), o.t
    run.assume(n >= 0)
    root = p_part(t, z3.IntVal(0)) == "/"
    up = p_name(p_parent(t))
    run.assume(up == z3.If(z3.Or(n < 2, z3.And(n == 2, root)), z3.StringVal(""), p_part(t, n - 2)))
    return SSeq(("parts", t), n, lambda j: SStr(p_part(t, j)), pytype=tuple)


def parent_of(it, o):
    parts_of(it, o)
    return SObj(p_parent(o.t), PATH)


PATH.attrs.update({"name": lambda it, o: SStr(p_name(o.t)), "suffix": lambda it, o: SStr(p_suffix(o.t)), "parent": parent_of, "parts": parts_of})
PATH.methods.update({"__truediv__": div, "exists": lambda it, o, a, kw: SBool(p_exists(o.t)), "is_dir": lambda it, o, a, kw: SBool(p_isdir(o.t))})
PATH.isinst = lambda it, o, cls: issubclass(pathlib.PosixPath, cls)


def path_class(it):
    def make(it, a, kw):
        v = it.force(a[0])
        if isinstance(v, SObj) and v.cls is PATH:
            return v
        return SObj(p_of(zs(v)), PATH)

    for k in (pathlib.Path, pathlib.PurePath):
        it.models[id(k)] = Model(k.__name__, make)


ENDINGS = (".xsd", ".xml", ".xsl")


def allowed_dirs(run, top):
    run.assume(z3.And(top.t != "", top.t != "/"))
    return list(S_cache.CATEGORIES) + [top]


@goal("C17", "cache.is_extractable", CACHE + "is_extractable")
def g_extractable(run):
    c = Ctx(run, {})
    it = c.it
    path_class(it)
    item, top = c.text("item"), c.text("top")
    allowed = it.new_list(allowed_dirs(run, top))
    got = c.no_exception("result", c.real(CM.is_extractable, item, it.new_list(ENDINGS), allowed))
    p = SObj(p_of(item.t), PATH)
    want = c.no_exception("spec", c.call(S_cache.extractable, parts_of(it, p), SStr(p_suffix(p.t)), it.new_list(ENDINGS), allowed))
    c.prove("extractable", M._b(got) == M._b(want))


@goal("C17", "cache.download_file_set", CACHE + "download_file_set")
def g_download(run):
    c = Ctx(run, {})
    it = c.it
    path_class(it)
    name, cache = c.text("name"), c.obj("cache", PATH)
    effects = it.reg(IList([]))
    state = {"dir": False}
    zipped = c.obj("zip", ObjClass("ZIP"))
    url_of, nothing = [], []

    def download(it, a, kw):
        u = it.force(a[0])
        url_of.append(u)
        it.list_append(effects, [("download", name)])
        n = run.choose(4)
        if n:
            nothing.append(n)
        if n == 3:
            raise PyRaise(OSError("no connection"))
        if n == 2:
            raise PyRaise(ValueError("no archive"))
        return [zipped, None][n]

    def tempdir(it, a, kw):
        kw = {k: it.force(v) for k, v in kw.items()}
        c.prove("unpacking directory in the cache", not a and isinstance(kw.get("dir"), SObj) and kw["dir"].t.eq(cache.t))
        return SObj(z3.Const("tempdir", Obj), TD)

    def leave(it, o, a, kw):
        c.prove("left once", state["dir"])
        state["dir"] = False

    def enter(it, o, a, kw):
        c.prove("entered once", not state["dir"])
        state["dir"] = True
        return SStr(z3.String("work"))

    TD = ObjClass("TEMPDIR", {}, {"__enter__": enter, "__exit__": leave})
    unpack_failed = []

    def unpack(it, a, kw):
        v = dict(zip(("zip_content", "file_set_name", "url", "work_path", "NXDL_refs_dir_name"), a))
        v.update(kw)
        c.prove("in the unpacking directory", state["dir"])
        c.prove("the archive", it.force(v["zip_content"]) is zipped)
        c.same_value("the name", v["file_set_name"], name)
        c.same_value("the address", v["url"], url_of[0])
        w = it.force(v["work_path"])
        c.prove("the unpacking directory", isinstance(w, SObj) and w.t.eq(p_of(z3.String("work"))))
        it.list_append(effects, [("unpack", v["NXDL_refs_dir_name"])])
        if run.choose(2):
            unpack_failed.append(1)
            raise PyRaise(ValueError("no NXDL content"))

    it.stubs[("punx.cache_manager", "download_NeXus_zip_archive")] = Model("download", download)
    it.stubs[("punx.cache_manager", "unpack_file_set")] = Model("unpack", unpack)
    it.models[id(tempfile.TemporaryDirectory)] = Model("TemporaryDirectory", tempdir)
    plain = z3.And(name.t == p_name(p_of(name.t)), name.t != "..")
    replace = SBool(z3.Bool("replace"))
    how = run.choose(3)
    out = c.real(CM.download_file_set, name, cache, *([replace] if how == 1 else []), **({"replace": replace} if how == 2 else {}))
    if how == 0:
        replace = False
    c.prove("the unpacking directory is left", not state["dir"])
    there = SBool(p_exists(p_join(cache.t, name.t)))
    done = list(effects.items)
    if out[0] == "exc" and not done:
        c.prove("refused", type(out[1]) is ValueError)
        c.prove("no name of a file set", z3.Not(plain))
        return
    c.prove("name of a file set", plain)
    if any(e[0] == "unpack" for e in done):
        c.prove("failure is not hidden", (out[0] == "exc") == bool(unpack_failed))
    elif nothing:
        done.append(("unpack", SObj(p_join(cache.t, name.t), PATH)))  # there is nothing to unpack
    want = c.no_exception("spec", c.call(S_cache.downloaded, name, cache, there, replace))
    c.same_items("what is done", it.new_list(done), want, ordered=True)
    for u in url_of:
        c.prove("address of the file set", z3.Contains(zs(u), name.t))


# A date and time is a number: the seconds in their order (assumed: comparison of
# such tuples is their order in time).
DATE = ObjClass("DATE")
date_part = F("date_part", IntS, IntS, IntS)
date_text = F("date_text", IntS, StrS)


def date_item(it, o, k):
    if isinstance(k, slice):
        return tuple(SInt(date_part(o.t, z3.IntVal(n))) for n in range(6)[k])
    return SInt(date_part(o.t, zi(k)))


DATE.getitem = date_item


def date_models(it):
    import datetime

    start = z3.Int("date_of_start")

    def lift(v):
        if v == (1980, 1, 1, 1, 1, 1) if isinstance(v, tuple) and not it.opaque(v) else False:
            return SObj(start, DATE)

    def greatest(it, a, kw):
        a = [it.force(x) for x in a]
        a = [x if lift(x) is None else lift(x) for x in a]
        if len(a) != 2 or kw or not all(isinstance(x, SObj) and x.cls is DATE for x in a):
            raise Unsupported("max")
        return SObj(z3.If(a[0].t >= a[1].t, a[0].t, a[1].t), DATE)

    def make(it, a, kw):
        """the date of which these are the parts"""
        names = ("year", "month", "day", "hour", "minute", "second")
        v = dict(zip(names, a))
        v.update(kw)
        if set(v) != set(names) or not all(isinstance(x, SInt) for x in v.values()):
            raise Unsupported("datetime")
        t = v["year"].t.arg(0) if v["year"].t.num_args() == 2 else None
        for n, k in enumerate(names):
            c0 = v[k].t
            if t is None or not c0.eq(z3.simplify(date_part(t, z3.IntVal(n)))) and not c0.eq(date_part(t, z3.IntVal(n))):
                return SObj(it.run.fresh("date", IntS), MOMENT)
        return SObj(t, MOMENT)

    MOMENT = ObjClass("MOMENT", {}, {"isoformat": lambda it, o, a, kw: SStr(date_text(o.t)) if [it.force(x) for x in list(a) + list(kw.values())] == [" "] else SStr(it.run.fresh("iso", StrS))})
    it.lift = lift
    it.models[id(max)] = Model("max", greatest)
    now = Model("now", lambda it, a, kw: SObj(z3.Int("now"), MOMENT))
    dt = datetime.datetime
    it.models[id(dt)] = Model("datetime", make)
    it.models[("attr", id(dt), "now")] = now
    MOMENT.methods["__str__"] = lambda it, o, a, kw: SStr(z3.String("now_text"))
    return SObj(start, DATE)


@goal("C17", "cache.unpack_file_set", CACHE + "unpack_file_set", budget=120)
def g_unpack(run):
    import zipfile

    c = Ctx(run, {})
    it = c.it
    path_class(it)
    start = date_models(it)
    run.logs["print"] = it.reg(IList([]))
    effects = it.reg(IList([]))
    work, target = c.obj("work", PATH), c.obj("target", PATH)
    name, url = c.text("name"), c.text("url")
    n, at = z3.Int("names_n"), F("names_at", IntS, StrS)
    run.assume(n >= 0)
    names = SSeq(("names",), n, lambda j: SStr(at(j)))
    INFO = ObjClass("INFO", {"filename": lambda it, o: SStr(F("info_name", Obj, StrS)(o.t)), "date_time": lambda it, o: SObj(F("info_date", Obj, IntS)(o.t), DATE)})
    info_at, info_of = F("info_at", IntS, Obj), F("info_of", StrS, Obj)
    comment_ok = bool(run.choose(2))

    def decode(it, o, a, kw):
        if not comment_ok:
            raise PyRaise(UnicodeDecodeError("utf8", b"x", 0, 1, "text"))
        return SStr(z3.String("comment"))

    COMMENT = ObjClass("COMMENT", {}, {"decode": decode})
    COMMENT.closed = True
    unpacked = F("unpack_fails", StrS, BoolS)

    def extract(it, o, a, kw):
        if kw or len(a) != 2:
            raise Unsupported("extract")
        it.list_append(effects, [("extract", a[0], a[1])])
        if run.decide(unpacked(zs(a[0]))):
            raise PyRaise(zipfile.BadZipFile("damaged"))

    ZIP = ObjClass("ZIP", {
        "filelist": lambda it, o: SSeq(("names",), n, lambda j: SObj(info_at(j), INFO)),
        "comment": lambda it, o: c.obj("comment", COMMENT)}, {
        "namelist": lambda it, o, a, kw: names,
        "getinfo": lambda it, o, a, kw: SObj(info_of(zs(a[0])), INFO),
        "extract": extract})
    run.assume(z3.Implies(n > 0, F("info_name", Obj, StrS)(info_at(z3.IntVal(0))) == at(z3.IntVal(0))))
    content = []
    wanted = F("wanted", StrS, BoolS)
    allowed = []

    def is_extractable(it, a, kw):
        ends, dirs = it.force(a[1]), it.force(a[2])
        allowed.append((list(ends.items) if isinstance(ends, IList) else list(ends), list(dirs.items) if isinstance(dirs, IList) else list(dirs)))
        return SBool(wanted(zs(a[0])))

    it.stubs[("punx.cache_manager", "is_extractable")] = Model("is_extractable", is_extractable)

    def write(it, a, kw):
        content.append(it.force(a[1]))
        it.list_append(effects, [("write", a[0])])
        if run.choose(2):
            raise PyRaise(OSError("disk full"))

    def move(it, a, kw):
        it.list_append(effects, [("move", it.force(a[0]), it.force(a[1]))])

    fresh = c.obj("fresh", PATH)

    def mkdtemp(it, a, kw):
        d = it.force(kw.get("dir"))
        c.prove("fresh directory in the unpacking directory", isinstance(d, SObj) and d.t.eq(work.t))
        return fresh

    it.stubs[("punx.cache_manager", "write_json_file")] = Model("write_json_file", write)
    it.models[id(shutil.move)] = Model("move", move)
    it.models[id(tempfile.mkdtemp)] = Model("mkdtemp", mkdtemp)
    out = c.real(CM.unpack_file_set, c.obj("zip", ZIP), name, url, work, target)
    first = SStr(at(z3.IntVal(0)))
    top_name = it.getitem(it.call(it.getattr(first, "split"), ["/"]), 0) if hasattr(it, "getitem") else M.getitem(it, it.call(it.getattr(first, "split"), ["/"]), 0)
    top = div(it, work, [top_name], {})

    def below(v):
        """everything is written in the unpacking directory"""
        for x in v:
            if isinstance(x, Piece):
                for p in x.paths:
                    below(p.values)
            elif x[0] == "extract":
                c.prove("extracted into the unpacking directory", isinstance(x[2], SObj) and x[2].t.eq(work.t))
            elif x[0] == "write":
                c.prove("information file in the unpacked content", same_term(it, x[1], div(it, top, ["__github_info__.json"], {})))
                c.prove("which is in the unpacking directory", zs(top_name) != "..")

    below(effects.items)
    for ends, dirs in allowed:
        c.prove("kinds of files", sorted(ends) == sorted(ENDINGS))
        c.prove("directories", len(dirs) == 4 and sorted(dirs[:3]) == sorted(S_cache.CATEGORIES))
        c.same_value("top directory", dirs[3], SStr(p_name(top.t)))
    if out[0] == "exc":
        c.prove("nothing is moved", not any(not isinstance(x, Piece) and x[0] == "move" for x in effects.items))
        if type(out[1]) is ValueError:
            no = c.no_exception("spec", c.call(S_cache.refused, names, Model("wanted", lambda it, a, kw: SBool(wanted(zs(a[0])))), top_name, work, top))
            c.prove("there is no NXDL content in the archive", it.truth_term(no))
        else:
            c.prove("damaged or not written", isinstance(out[1], (OSError, zipfile.BadZipFile, UnicodeDecodeError)), repr(out[1]))
        return
    replace = SBool(p_exists(target.t))
    want = c.no_exception("spec", c.call(S_cache.installed, names, Model("wanted", lambda it, a, kw: SBool(wanted(zs(a[0])))), work, top, target, replace, fresh))
    c.same_items("what is done", effects, want, ordered=True)
    c.prove("unpacked content is there", p_isdir(top.t))
    c.prove("it is not all of the unpacking directory", top.t != work.t)
    last = c.no_exception("spec", c.call(S_cache.latest, names, Model("wanted", lambda it, a, kw: SBool(wanted(zs(a[0])))),
                                         Model("date", lambda it, a, kw: SObj(F("info_date", Obj, IntS)(info_of(zs(a[0]))), DATE)), start))
    c.prove("information written once", len(content) == 1)
    got = {k: it.force(v) for k, v in content[0].entries}
    c.same_value("name", got.get("ref"), name)
    c.same_value("commit", got.get("sha"), SStr(z3.String("comment")))
    c.same_value("address", got.get("zip_url"), url)
    c.same_value("latest date", got.get("last_modified"), SStr(date_text(last.t)))


@goal("C17", "main.func_install", "punx/main.py:func_install", also=("C19",))
def g_install(run):
    import zipfile
    import punx.main
    from .goals_cli import CliCtx, any_texts

    c = CliCtx(run)
    it = c.it
    path_class(it)
    names, at, n = any_texts(run, "set")
    A = ObjClass("ARGS", {"file_set_name": lambda it, o: names, "update": lambda it, o: SBool(z3.Bool("arg_update"))})
    USER = ObjClass("USERCACHE", {"path": lambda it, o: SStr(z3.String("user_path"))})
    SET = ObjClass("SET", {"ref": lambda it, o: SStr(z3.String("default_ref"))})
    C = ObjClass("CM", {"user": lambda it, o: SObj(z3.Const("user", Obj), USER), "default_file_set": lambda it, o: SObj(z3.Const("default", Obj), SET)},
                 {"table_of_caches": lambda it, o, a, kw: SStr(z3.String("table"))})
    it.stubs[("punx.cache_manager", "CacheManager")] = Model("CacheManager", lambda it, a, kw: SObj(z3.Const("cm", Obj), C))
    fails = F("install_fails", StrS, IntS)

    def install(it, a, kw):
        v = dict(zip(("name", "path", "replace"), a), **kw)
        v.setdefault("replace", False)
        it.list_append(c.effects, [(v["name"], v["path"], v["replace"])])
        k = fails(zs(v["name"]))
        for code, e in enumerate((OSError, ValueError, zipfile.BadZipFile)):
            if run.decide(k == code + 1):
                raise PyRaise(e("text"))

    it.stubs[("punx.cache_manager", "download_file_set")] = Model("download_file_set", install)
    out = c.real(punx.main.func_install, SObj(z3.Const("args", Obj), A))
    bad = lambda t: z3.And(fails(t) >= 1, fails(t) <= 3)  # noqa
    if out[0] == "exc":
        c.prove("an error exit", c.is_error_exit(out), repr(out[1]))
        last = c.effects.items[-1]
        c.prove("the last one failed", not isinstance(last, Piece) and bad(zs(last[0])))
        return
    want = c.no_exception("spec", c.call(S_cache.requested, names, SObj(p_of(z3.String("user_path")), PATH), SBool(z3.Bool("arg_update"))))
    c.same_items("what is installed", c.effects, want, ordered=True)
    j = z3.Int("sj")
    run.assume(z3.And(j >= 0, j < n))
    c.prove("no failure is passed over", z3.Not(bad(at(j))))


@goal("C16", "cache.CacheManager", CACHE + "CacheManager.__init__")
def g_cache_manager(run):
    """both caches are read, the default file set is selected"""
    c = Ctx(run, {})
    it = c.it
    cm = it.new_object(CM.CacheManager)
    source, user = c.obj("source", ObjClass("CACHE_")), c.obj("user", ObjClass("CACHE_"))
    it.stubs[("punx.cache_manager", "SourceCache")] = Model("SourceCache", lambda it, a, kw: source)
    it.stubs[("punx.cache_manager", "UserCache")] = Model("UserCache", lambda it, a, kw: user)
    sets = file_sets(it, "known")
    looked = []

    def known(it, a, kw):
        looked.append((it.force(it.getattr(cm, "source")), it.force(it.getattr(cm, "user"))))
        it.setattr(cm, "NXDL_file_sets", sets)
        return sets

    def select(it, a, kw):
        c.prove("what is selected from is known", it.force(it.getattr(cm, "NXDL_file_sets")) is sets)
        c.prove("the latest", all(it.force(x) is None for x in list(a[1:]) + list(kw.values())))
        if run.choose(2):
            raise PyRaise(KeyError("none"))
        it.setattr(cm, "default_file_set", Tok("latest", []))
        return Tok("latest", [])

    it.stubs[("punx.cache_manager", "CacheManager.all_file_sets")] = Model("all_file_sets", known)
    it.stubs[("punx.cache_manager", "CacheManager.select_NXDL_file_set")] = Model("select_NXDL_file_set", select)
    c.no_exception("no exception", c.real(CM.CacheManager.__init__, cm))
    c.prove("caches", it.force(it.getattr(cm, "source")) is source and it.force(it.getattr(cm, "user")) is user)
    c.prove("read with both caches", bool(looked) and all(a is source and b is user for a, b in looked))
    c.prove("known file sets", it.force(it.getattr(cm, "NXDL_file_sets")) is sets)
    d = it.force(it.getattr(cm, "default_file_set"))
    c.prove("default file set", d is None or isinstance(d, Tok) and d.name == "latest")


@goal("C16", "cache.table_of_caches", CACHE + "CacheManager.table_of_caches")
def g_table_of_caches(run):
    """one row for each known file set: its name, cache, date, commit and path"""
    c = Ctx(run, {})
    it = c.it
    short = F("short_sha_of", StrS, StrS)
    text = {k: F("fs_" + k + "_text", Obj, StrS) for k in ("cache", "last_modified", "sha", "path")}
    some = F("fs_dated_", Obj, BoolS)
    sha = F("fs_has_sha", Obj, BoolS)

    def sha_of(o):
        return z3.If(sha(o.t), text["sha"](o.t), z3.StringVal(""))

    def put(it, o, name, v):
        if name != "short_sha":
            it.frame_violation("writes " + name + " of a file set")
        if not it.run.valid(zs(it.force(v)) == short(sha_of(o))):
            raise Unsupported("another short commit")

    R = ObjClass("KNOWN", {
        "cache": lambda it, o: SStr(text["cache"](o.t)), "path": lambda it, o: SStr(text["path"](o.t)),
        "last_modified": lambda it, o: W.LOpt(some(o.t), text["last_modified"](o.t)),
        "sha": lambda it, o: W.LOpt(sha(o.t), text["sha"](o.t)),
        "short_sha": lambda it, o: SStr(short(sha_of(o)))})
    R.setattr = put
    R.truth = lambda it, o: True
    it.stubs[("punx.cache_manager", "get_short_sha")] = Model("get_short_sha", lambda it, a, kw: SStr(short(zs(a[0]))))
    n, key, get = z3.Int("known_n"), F("known_key", IntS, StrS), F("known_get", StrS, Obj)
    has = F("known_has", StrS, BoolS)
    M.distinct_keys(run, n, key, has=has)
    sets = SMap(("known",), lambda s: has(s), lambda s: SObj(get(s), R), SSeq(("known",), n, lambda j: SStr(key(j))))
    it.stubs[("punx.cache_manager", "CacheManager.all_file_sets")] = Model("all_file_sets", lambda it, a, kw: sets)
    cm = it.new_object(CM.CacheManager, NXDL_file_sets=sets)
    table = it.new_object(type("Table", (), {}), labels=it.new_list([]), rows=it.reg(IList([])))
    import pyRestTable

    it.models[id(pyRestTable.Table)] = Model("Table", lambda it, a, kw: table)
    got = c.no_exception("no exception", c.real(CM.CacheManager.table_of_caches, cm))
    c.prove("the table", it.force(got) is table)
    c.same_items("labels", it.force(it.getattr(table, "labels")), ["NXDL file set", "cache", "date & time", "commit", "path"], ordered=True)
    short_of = Model("short", lambda it, a, kw: SStr(short(sha_of(it.force(a[0])))))
    want = c.no_exception("spec", c.call(S_cache.cache_rows, sets, short_of))
    c.same_items("rows", it.force(it.getattr(table, "rows")), want)
