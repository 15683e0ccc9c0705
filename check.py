#!/opt/venv/bin/python
"""The check of one property: check.py Cxx [--thorough]

Runs the proof goals of the property (contracts of the real functions in
/repo, obligations decided by z3) and the concrete check on the real code,
side by side, and writes evidence/Cxx.json."""
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PUNX_REPO", "/repo")
PY = "/opt/venv/bin/python"
sys.path.insert(0, VERIF)


def environment(scratch):
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", QT_QPA_PLATFORM="offscreen", SETUPTOOLS_SCM_PRETEND_VERSION="1.0.0", PUNX_REPO=REPO, PYTHONHASHSEED="0", XDG_RUNTIME_DIR=scratch,
             XDG_CONFIG_HOME=os.path.join(scratch, "config"), TMPDIR=scratch, HOME=scratch, PYTHONWARNINGS="ignore")
    e.setdefault("VERIF_SEED", "1")
    os.makedirs(e["XDG_CONFIG_HOME"], exist_ok=True)
    return e


class Job:
    def __init__(self, cmd, env, out, limit):
        self.out, self.end, self.t0 = out, time.time() + limit, time.time()
        self.log = open(out + ".log", "w+")
        self.p = subprocess.Popen(cmd, env=env, stdout=self.log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True, cwd=env["TMPDIR"])
        self.timeout = False

    def done(self):
        if self.p.poll() is not None:
            return True
        if time.time() > self.end:
            self.timeout = True
            self.kill()
            return True
        return False

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def result(self):
        try:
            return json.load(open(self.out))
        except (OSError, ValueError):
            return None

    def text(self):
        self.log.seek(0)
        return self.log.read()[-3000:]


def belongs(o, pattern):
    """Does the obligation belong to the property? With | in front: it is about an exception, or matches the rest"""
    if pattern.startswith("|"):
        a, b = pattern[1:].split("|", 1)
        return o["detail"].startswith(a) or re.search(b, o["name"]) is not None
    return re.search(pattern, o["name"]) is not None


def findings_file():
    """(known, fixed) entries"""
    known, fixed = [], []
    for l in open(os.path.join(VERIF, "known-findings.txt"), encoding="utf8"):
        l = l.rstrip("\n")
        if l.startswith("finding: "):
            w = l.split(" ", 3)
            known.append((w[1].split("=")[1], w[2].split("=")[1], w[3]))
        elif l.startswith("fixed: "):
            fixed.append(l[7:])
    return known, fixed


def case_id(f):
    return hashlib.sha1(json.dumps(f["case"], sort_keys=True).encode()).hexdigest()[:12]


def main():
    prop = sys.argv[1]
    thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"check-{prop}-")
    try:
        return check(prop, thorough, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run_all(prop, thorough, scratch):
    env = environment(scratch)
    env["VERIF_TIER"] = "thorough" if thorough else "quick"
    limit = 3000 if thorough else 330
    env["ORACLE_SECONDS"] = "900" if thorough else "150"
    env["GOAL_SECONDS"] = str(limit - 30)
    p = subprocess.run([PY, os.path.join(VERIF, "engine", "cli.py"), "--list", prop], env=env, capture_output=True, text=True, timeout=300, cwd=scratch)
    lines = [l[5:].split("\t") for l in p.stdout.splitlines() if l[:5] in ("GOAL ", "PART ")]
    goals = [l[0] for l in lines]
    safe = {l[0]: l[1] for l in lines if len(l) > 1}
    listing = None if p.returncode == 0 else p.stderr[-2000:]
    queue = [(g, [PY, os.path.join(VERIF, "engine", "cli.py"), "--json", os.path.join(scratch, f"g{n}.json"), g], os.path.join(scratch, f"g{n}.json")) for n, g in enumerate(goals)]
    oo = os.path.join(scratch, "oracle.json")
    oracle = Job([PY, os.path.join(VERIF, "oracle", "run.py"), prop, oo], env, oo, 1800 if thorough else 300)
    running, done = {}, {}
    end = time.time() + (3400 if thorough else 480)
    while queue or running or not oracle.done():
        while queue and len(running) < max(2, (os.cpu_count() or 4) - 1):
            g, cmd, out = queue.pop(0)
            running[g] = Job(cmd, env, out, min(limit, max(1, end - time.time())))
        for g, j in list(running.items()):
            if j.done():
                done[g] = j
                del running[g]
        time.sleep(0.05)
    return env, goals, safe, listing, done, oracle


def check(prop, thorough, t0, scratch):
    env, goals, safe, listing, done, oracle = run_all(prop, thorough, scratch)
    known, fixed = findings_file()
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    violations, notes = [], []

    # the concrete check
    orc = oracle.result()
    if orc is None:
        now = None
        try:
            now = json.load(open(oracle.out + ".now"))
        except (OSError, ValueError):
            pass
        orc = {"cases": 0, "distinct": 0, "failures": [], "rules": [], "samples": [], "seconds": time.time() - oracle.t0}
        if oracle.timeout:
            notes.append("concrete check: no end in time, case " + json.dumps(now)[:300])
        else:
            orc["failures"].append({"oracle": (now or {}).get("oracle"), "case": (now or {}).get("case"), "detail": "the process ends: " + oracle.text()[-1500:]})
    reported = []
    for f in orc["failures"]:
        k = [x for x in known if x[0] == prop and x[1] == case_id(f)]
        if k:
            line = f"KNOWN-FINDING: property={prop} {k[0][2]}"
            if line not in reported:
                reported.append(line)
        else:
            violations.append(("case", f))
    # the contracts
    table, obligations, discharged, seconds = [], 0, 0, 0.0
    trusted, functions = set(), set()
    for g in goals:
        j = done[g]
        r = j.result()
        if r is None:
            r = {"goal": g, "status": "undecided", "obligations": [], "unsupported": ["time limit" if j.timeout else "engine: " + j.text()[-400:]], "seconds": time.time() - j.t0, "runs": 0, "paths": 0, "used": [], "target": ""}
        obligations += len(r["obligations"])
        discharged += sum(o["status"] == "discharged" for o in r["obligations"])
        seconds += r["seconds"]
        trusted |= set(r.get("trusted", []))
        functions |= set(r["used"])
        bad = [o for o in r["obligations"] if o["status"] == "refuted" and (g not in safe or belongs(o, safe[g]))]
        row = {"contract": g, "function": r["target"], "status": r["status"], "obligations": len(r["obligations"]), "paths": r["paths"], "seconds": round(r["seconds"], 2)}
        open_ = [o["name"] + " " + o["status"] + " " + o["detail"][:120] for o in r["obligations"] if o["status"] not in ("discharged", "refuted")]
        if open_ or r["unsupported"]:
            row["not decided because"] = (r["unsupported"] + sorted(set(open_)))[:5]
        if g in safe:
            row["counts here"] = "obligations that match " + safe[g]
        table.append(row)
        for o in bad[:1]:
            violations.append(("obligation", dict(o, goal=g, function=r["target"])))
    if listing:
        notes.append("the contracts could not be read: " + listing[-600:])
    if not any(k == "case" for k, _ in violations) and orc["cases"] == 0:
        notes.append("the concrete check judged nothing")
    proved = [r for r in table if r["status"] == "proved"]
    level, _, assumptions = levels()[prop]
    if level == "proof" and len(proved) < len(table):
        level = "other"  # this tree is not proved; the bounded stand-in decides
    cov = {"obligations": obligations, "discharged": discharged,
           "checker_cmd": f"{PY} {VERIF}/engine/cli.py {prop}",
           "trusted_base": sorted(trusted) + TRUSTED,
           "contracts_proved": len(proved), "contracts": table, "functions_read": sorted(functions),
           "solver_and_engine_seconds": round(seconds, 1), "back_end": "z3 " + z3_version(),
           "bounded_stand_in": {"label": "bounded: the real code run on generated cases, not counted as proved", "evaluations": orc["cases"], "distinct": orc["distinct"], "rules": orc["rules"], "samples": orc["samples"][:3], "seconds": round(orc["seconds"], 1)},
           "notes": notes}
    if level != "proof":
        cov.update(evaluations=orc["cases"], distinct_nontrivial=orc["distinct"], rule="; ".join(orc["rules"]) or "none", samples=orc["samples"][:3] or ["none"])
        cov["explanation"] = "contracts where listed as proved, the bounded stand-in elsewhere"
    # verdict
    rc = 0
    if violations:
        rc = 1
        kind, v = sorted(violations, key=lambda x: x[0] != "case")[0]
        path = os.path.join(ev, f"replay-{prop}.json")
        rec = {"property": prop, "kind": kind, "others": [x for _, x in violations[1:6]]}
        rec.update(v)
        # failed obligations are named in any case
        rec["failed_obligations"] = [{"goal": x["goal"], "obligation": x["name"], "detail": x["detail"], "path": x.get("path"), "function": x["function"]} for k, x in violations if k == "obligation"]
        if kind == "case":
            rec["rerun"] = f"VERIF_TIER=quick {PY} {VERIF}/oracle/run.py {prop} /dev/null --replay {path}"
        json.dump(rec, open(path, "w"), indent=1, default=str)
        print(("case: " + str(v.get("detail"))[:600]) if kind == "case" else f"obligation: {v['goal']}: {v['name']}: {v['detail'][:500]}")
        print(f"VIOLATION property={prop} replay={path}" + ("" if kind == "case" else " no-failing-input-found"))
    for line in reported:
        print(line)
    cov["verdict"] = "violation" if rc else "holds"
    json.dump({"property": prop, "tier": "thorough" if thorough else "quick", "seed": int(env["VERIF_SEED"]), "level": level, "coverage": cov, "assumptions": assumptions, "violations": len(violations), "wall_s": round(time.time() - t0, 1)},
              open(os.path.join(ev, prop + ".json"), "w"), indent=1)
    if not rc:
        print(f"{prop}: {len(proved)}/{len(table)} contracts proved, {discharged}/{obligations} obligations discharged; bounded: {orc['distinct']} cases; {time.time() - t0:.0f} s")
    return rc


TRUSTED = ["CPython semantics of the statements as read by engine/interp.py", "models of builtins, h5py, numpy, lxml, re in engine/models.py and engine/world.py", "z3", "machine integers and floats as mathematical ones"]


def levels():
    return json.load(open(os.path.join(VERIF, "tools", "levels.json")))


def z3_version():
    import glob

    for p in glob.glob("/opt/veriftools/pyvenv/lib/python3*/site-packages/z3_solver-*.dist-info"):
        return os.path.basename(p).split("-")[1]
    return "?"


if __name__ == "__main__":
    sys.exit(main())
