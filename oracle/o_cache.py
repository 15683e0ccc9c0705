"""C16 known and selected file sets, C17 installation (all below a scratch directory)."""
import io
import json
import os
import random
import shutil
import types
import warnings
import zipfile

from . import base, sets
from .base import oracle, workdir, brief

DATES = ["2001-01-01 00:00:00", "2017-01-01 01:07:45", "2017-11-19 01:07:45", "2018-05-15 16:34:19", "2021-12-17 13:09:18", "2030-01-01 00:00:00", "1999-12-31 23:59:59",
         "2030-01-01 00:00:01", "2030-01-01 22:10:00", "2030-11-01 05:00:00", None]
NAMES = ["main", "v3.3", "v2018.5", "a4fd52d", "Schema-3.4", "v2022.07", "x", "é", "a b", "MAIN"]


def c16_cases(r):
    for i in range(120):
        user = {}
        for n in r.sample(NAMES, r.randrange(6)):
            user[n] = {"info": {"ref": r.choice([n, n, "other"]), "sha": "%040x" % r.getrandbits(160), "zip_url": "http://" + n, "last_modified": r.choice(DATES)},
                       "drop": r.choice([None, None, None, None, "info", "sha", "zip_url", "last_modified"])}
            if r.random() < 0.1:
                user[n]["info"]["sha"] = r.choice(["", "abc", None])
        yield {"user": user, "ask": [r.choice(NAMES + [None, "", "none"]) for _ in range(4)], "files": r.random() < 0.3}


def info_of(p):
    return json.load(open(os.path.join(p, "__github_info__.json")))


@oracle("C16", c16_cases, "random user caches next to the source cache of the package: known file sets, what is reported for them, and selections")
def judge_c16(case):
    from PyQt5 import QtCore
    from punx import cache_manager as C

    with workdir() as d:
        QtCore.QSettings.setPath(QtCore.QSettings.IniFormat, QtCore.QSettings.UserScope, d)
        cm = C.CacheManager.__new__(C.CacheManager)
        try:
            cm.__init__()
        except Exception as exc:  # noqa
            return "CacheManager fails: " + brief(exc)
        up = cm.user.path
        if not os.path.abspath(up).startswith(d):
            return f"user cache: {up} is not in {d}"
        exp = {n: p for n, p in sets.source().items() if os.path.exists(os.path.join(p, "__github_info__.json"))}
        where = {n: "source" for n in exp}
        for n, u in case["user"].items():
            p = os.path.join(up, n)
            os.makedirs(p)
            if u["drop"] == "info":
                continue
            json.dump({k: v for k, v in u["info"].items() if k != u["drop"]}, open(os.path.join(p, "__github_info__.json"), "w"))
            exp[n], where[n] = p, "user"
        if case["files"]:
            open(os.path.join(up, "zzz"), "w").write("{}")
            open(os.path.join(up, "__github_info__.json"), "w").write("{}")
        cm = C.CacheManager.__new__(C.CacheManager)
        try:
            cm.__init__()
            got = cm.all_file_sets
        except Exception as exc:  # noqa
            return "CacheManager fails: " + brief(exc)

        def describe(n, f, what):
            i = info_of(exp[n])
            a = (f.ref, f.sha, f.zip_url, f.last_modified, os.path.abspath(f.path), f.cache)
            b = (i.get("ref"), i.get("sha"), i.get("zip_url"), i.get("last_modified"), os.path.abspath(exp[n]), where[n])
            if a != b:
                return f"{what}: {n} reported as {a} expected {b}"

        if set(got) != set(exp):
            return f"known file sets: {sorted(got)} expected {sorted(exp)}"
        for n in exp:
            x = describe(n, got[n], "known file sets")
            if x:
                return x
        latest = max(info_of(p).get("last_modified") or "" for p in exp.values())
        newest = [n for n, p in exp.items() if (info_of(p).get("last_modified") or "") == latest]
        for ask in ["(new)"] + case["ask"]:
            try:
                f = cm.default_file_set if ask == "(new)" else cm.select_NXDL_file_set(ask)
            except Exception as exc:  # noqa
                return f"select: {ask!r} " + brief(exc)
            ok = [ask] if ask in exp else newest
            n = [k for k in ok if os.path.abspath(exp[k]) == os.path.abspath(f.path)]
            if not n:
                return f"select: {ask!r} gives {f.path}, expected {ok}"
            x = describe(n[0], f, "select")
            if x:
                return x
            if cm.default_file_set is not f:
                return "select: not the default"
        try:
            t = cm.table_of_caches()
            str(t)
        except Exception as exc:  # noqa
            return "table_of_caches: " + brief(exc)
        rows = sorted(tuple(str(c) for c in x) for x in t.rows)
        e = sorted((n, where[n], str(info_of(p).get("last_modified")), (info_of(p).get("sha") or "")[:7], p) for n, p in exp.items())
        if [tuple(x[:4]) for x in rows] != [tuple(x[:4]) for x in e] or [os.path.abspath(x[4]) for x in rows] != [os.path.abspath(x[4]) for x in e]:
            return f"table_of_caches: {rows} expected {e}"


# ------------------------------------------------------------------------ C17
CATS = ["base_classes", "applications", "contributed_definitions"]
TOPD = "definitions-abc"
ODDT = ["..", ".", "", "../..", "./" + TOPD, "../" + TOPD, "main", "/" + TOPD, " ", "~", "a/..", "../../../elsewhere/main"]
GOOD = ["nxdl.xsd", "nxdlTypes.xsd", "nxdlformat.xsl", "base_classes/NXa.nxdl.xml", "base_classes/NXb.nxdl.xml", "applications/NXa.nxdl.xml", "contributed_definitions/NXc.nxdl.xml", "base_classes/nxdlformat.xsl"]
BADE = ["README.md", "base_classes/sub/NXa.nxdl.xml", "docs/x.xml", "docs/base_classes/x.xml", "base_classes/readme.txt", "base_classes/base_classes/x.xml", "applications/base_classes/NXq.nxdl.xml",
        "__github_info__.json", "manual/source/a.xml", "base_classes/x.XML", "xml", "base_classes/.xml", "build.xml.py", "applications/../nxdl2.xsd"]
ODDE = ["../evil.xml", "../../evil.xml", "base_classes/evil.xml", "base_classes/../../evil.xml", "base_classes/applications/evil.xml", "evil.xsd", "other/evil.xml", "../main/nxdl.xsd", "../v3/base_classes/evil.xml", "./x.xml", "applications/x.xml",
        "v3/evil.xml", "v3/base_classes/evil.xml", "v3/nxdl.xsd"]
SETN = ["main", "v3", "new", "definitions-abc", "base_classes", "é", "a b", "x.y"]
ODDN = ["..", "../x", "../../x", "main/x", "main/..", "", ".", "main/", "/main", "v3/base_classes", "../cache/main", "ABS/elsewhere", "ABS/elsewhere/main"]


def c17_cases(r):
    for i in range(400):
        old = {}
        for n in r.sample(["main", "v3", "definitions-abc", "new"], r.randrange(4)):
            old[n] = r.sample(GOOD + ["own.txt", "base_classes/old.nxdl.xml"], 1 + r.randrange(6))
        k = r.random()
        how = "ok" if k < 0.7 else r.choice(["connection", "notzip", "empty", "corrupt", "corrupt", "truncated"])
        good = r.sample(GOOD, r.choice([0, 1, 2, 3, 5, 8]))
        TOP = r.choice(ODDT) if r.random() < 0.15 else TOPD
        ent = [TOP + "/" + x for x in good + r.sample(BADE, r.randrange(4))]
        if r.random() < 0.3:
            ent += r.sample(ODDE, 1 + r.randrange(3))
        if r.random() < 0.7:
            r.shuffle(ent)
        if r.random() < 0.6:
            ent = [TOP + "/"] + ent
        if r.random() < 0.3:
            ent += [TOP + "/" + c + "/" for c in CATS]
        entries = [[e, [r.choice([1981, 2001, 2018, 2021]), 1 + r.randrange(12), 1 + r.randrange(28), r.randrange(24), r.randrange(60), 2 * r.randrange(30)]] for e in ent]
        name = r.choice(SETN) if r.random() < 0.85 else r.choice(ODDN)
        yield {"old": old, "how": how, "entries": entries, "name": name, "update": r.random() < 0.6, "comment": r.choice(["", "0123456789abcdef", "é"]), "hard": r.random()}


def archive(case):
    b = io.BytesIO()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with zipfile.ZipFile(b, "w", zipfile.ZIP_STORED) as z:
            for k, (n, date) in enumerate(case["entries"]):
                i = zipfile.ZipInfo(n, tuple(date))
                z.writestr(i, b"" if n.endswith("/") else content(n, k))
            z.comment = case["comment"].encode("utf8")
    return b.getvalue()


def content(n, k):
    return f"<!-- {k} of the archive, {n} -->\n".encode()


def snapshot(d):
    out = {}
    for p, dirs, files in os.walk(d):
        for x in dirs:
            q = os.path.join(p, x)
            out[os.path.relpath(q, d)] = None if not os.path.islink(q) else "link"
        for x in files:
            q = os.path.join(p, x)
            out[os.path.relpath(q, d)] = open(q, "rb").read() if not os.path.islink(q) else "link"
    return out


def wanted(case):
    """files of the archive which belong to the file set: {name below the top directory: (content, date)}"""
    out = {}
    if not case["entries"]:
        return None, {}
    top = case["entries"][0][0].split("/")[0]
    for k, (n, date) in enumerate(case["entries"]):
        p = [x for x in n.split("/") if x not in ("", ".")]
        if n.endswith("/") or ".." in p or not p or p[0] != top:
            continue
        base_, dot, ext = p[-1].rpartition(".")
        if not base_ or ext not in ("xml", "xsd", "xsl"):
            continue
        if len(p) == 2 or len(p) == 3 and p[1] in CATS:
            out["/".join(p[1:])] = (content(n, k), tuple(date))
    return top, out


@oracle("C17", c17_cases, "random caches, archives (names that lead elsewhere, damaged archives, failing downloads) and file set names; the whole scratch directory is compared before and after")
def judge_c17(case):
    import pathlib
    import requests
    from punx import cache_manager as C

    with workdir() as d:
        cache = os.path.join(d, "1", "2", "3", "cache")
        os.makedirs(cache)
        os.makedirs(os.path.join(d, "elsewhere", "main"))
        for p in ("1/keep", "1/2/x", "1/2/3/keep", "elsewhere/main/keep", "1/2/3/cache/punx.ini"):
            open(os.path.join(d, p), "w").write(p)
        for n, files in case["old"].items():
            for f in files:
                p = os.path.join(cache, n, f)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, "w").write(f"old {n} {f}")
            json.dump({"ref": n, "sha": "old", "zip_url": "", "last_modified": "2001-01-01 00:00:00"}, open(os.path.join(cache, n, "__github_info__.json"), "w"))
        data = archive(case)
        how = case["how"]
        if how == "notzip":
            data = b"<html>404</html>"
        elif how == "empty":
            b = io.BytesIO()
            zipfile.ZipFile(b, "w").close()
            data = b.getvalue()
        elif how == "truncated":
            data = data[: len(data) // 2]
        elif how == "corrupt":
            n = int(case["hard"] * max(1, len(case["entries"])))
            e = case["entries"][n % max(1, len(case["entries"]))][0] if case["entries"] else "-"
            data = data.replace(content(e, n), content(e, n).replace(b"of", b"OF"), 1)
        calls = []

        def get(url, **kw):
            calls.append(url)
            if how == "connection":
                raise requests.exceptions.ConnectionError("no network")
            return types.SimpleNamespace(content=data, status_code=200, ok=True, raise_for_status=lambda: None)

        name = case["name"].replace("ABS", d)
        before = snapshot(d)
        plain = name not in ("", ".", "..") and "/" not in name
        there = plain and os.path.exists(os.path.join(cache, name))
        old = requests.get
        requests.get = get
        cwd = os.getcwd()
        os.chdir(d)
        fails = None
        try:
            C.download_file_set(name, pathlib.Path(cache), replace=case["update"])
        except Exception as exc:  # noqa
            fails = brief(exc)
        finally:
            requests.get = old
            os.chdir(cwd)
        after = snapshot(d)
        rel = os.path.relpath(cache, d)
        mine = rel + "/" + name if plain else None

        def inside(p):
            return mine is not None and (p == mine or p.startswith(mine + "/"))

        def left(p):
            """of an unpacking directory that was left, which is no file set"""
            q = p.split("/")
            return p.startswith(rel + "/") and len(q) >= 5 and "/".join(q[:5]) not in before and after["/".join(q[:5])] is None and "/".join(q[:5]) + "/__github_info__.json" not in after

        changed = sorted(p for p in set(before) | set(after) if before.get(p, 0) != after.get(p, 0))
        other = [p for p in changed if not inside(p) and not (p not in before and left(p))]
        if other:
            return f"install {case['name']!r}: changes {other[:5]}"
        own = [p for p in changed if inside(p)]
        top, want = wanted(case)
        if there and not case["update"]:
            if own or calls or fails:
                return f"install {case['name']!r}: exists, no update requested, but {own[:3] or calls or fails}"
            return None
        broken = how in ("connection", "notzip", "empty", "truncated") or (how == "corrupt" and fails is not None)
        if own and (fails or broken):
            return f"install {case['name']!r}: failed ({how}, {fails}), but changes {own[:5]}"
        if own == []:
            sane = plain and not broken and len(want) >= 2 and top == TOPD
            if sane and how == "ok":
                return f"install {case['name']!r}: nothing installed: {fails}"
            if not fails and plain:
                return f"install {case['name']!r}: no error, nothing installed"
            return None
        if not plain:
            return f"install {case['name']!r}: changes {own[:5]}"
        if not want:
            return f"install {case['name']!r}: no NXDL content, but changes {own[:5]}"
        got = {p[len(mine) + 1:]: v for p, v in after.items() if p.startswith(mine + "/") and v is not None}
        try:
            info = json.loads(got.pop("__github_info__.json"))
        except Exception as exc:  # noqa
            return "information file: " + brief(exc)
        exp = {k: v[0] for k, v in want.items()}
        if got != exp:
            return f"install {case['name']!r}: content {sorted(k for k in set(got) | set(exp) if got.get(k, 0) != exp.get(k, 0))[:5]} not as in the archive"
        dirs = {p for p, v in after.items() if p.startswith(mine + "/") and v is None}
        if [p for p in dirs if p[len(mine) + 1:] not in CATS]:
            return f"install: directories {sorted(dirs)}"
        last = "%04d-%02d-%02d %02d:%02d:%02d" % max(v[1] for v in want.values())
        outer = [tuple(x[1]) for x in case["entries"]]
        if info.get("ref") != name or info.get("sha") != case["comment"] or (info.get("last_modified") != last and len(want) == len(outer)) or name not in info.get("zip_url", ""):
            return f"information file: {info} expected {name} {case['comment']} {last}"
        if info.get("last_modified") != last and not any(e[0].split("/")[0] != top for e in case["entries"]):
            return f"information file: date {info.get('last_modified')} expected {last}"
