"""Concrete check of a property on the real code.

run.py PROP OUT.json [--replay FILE]    (environment: PUNX_REPO VERIF_SEED VERIF_TIER)"""
import hashlib
import importlib
import json
import os
import random
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("PUNX_REPO", "/repo"))
MODULES = "o_validate o_report o_utils o_tree o_nxdl o_cache o_cli".split()


def main():
    from oracle import base

    prop, out = sys.argv[1], sys.argv[2]
    os.environ["XDG_CONFIG_HOME"] = os.path.join(base.scratch(), "config")
    os.makedirs(os.environ["XDG_CONFIG_HOME"], exist_ok=True)
    for m in MODULES:
        if os.path.exists(os.path.join(HERE, "oracle", m + ".py")):
            importlib.import_module("oracle." + m)
    if "--replay" in sys.argv:
        rec = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        o = base.ORACLES[prop][rec["oracle"]]
        r = base.judge(o, rec["case"])
        print("holds" if r is None else "fails: " + r)
        base.cleanup()
        return 0 if r is None else 1
    seed = int(os.environ.get("VERIF_SEED", "1"))
    thorough = os.environ.get("VERIF_TIER") == "thorough"
    only = os.environ.get("ORACLE_CASES")
    res = {"cases": 0, "distinct": 0, "failures": [], "rules": [], "samples": [], "seconds": 0}
    t0 = time.time()
    seen = set()
    limit = float(os.environ.get("ORACLE_SECONDS", "600" if thorough else "100"))
    for n, o in enumerate(base.ORACLES.get(prop, [])):
        res["rules"].append(o.rule)
        fails = 0
        rounds = 12 if thorough else 1
        for k in range(rounds):
            r = random.Random(f"{seed}-{prop}-{n}-{k}")
            for case in o.cases(r):
                if time.time() - t0 > limit or fails >= 3:
                    break
                key = hashlib.md5(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()
                res["cases"] += 1
                if key in seen:
                    continue
                seen.add(key)
                with open(out + ".now", "w") as f:
                    json.dump({"oracle": n, "case": case}, f)
                d = base.judge(o, case)
                if d is not None:
                    fails += 1
                    if fails == 1:
                        case, d = base.shrink(o, case, d)
                    res["failures"].append({"oracle": n, "case": case, "detail": d})
                if len(res["samples"]) < 3 and base.size(case) < 1500:
                    res["samples"].append(case)
    if not res["samples"]:
        res["samples"].append("cases too long to print")
    res["distinct"] = len(seen)
    res["seconds"] = time.time() - t0
    json.dump(res, open(out, "w"), indent=1)
    base.cleanup()
    return 0


if __name__ == "__main__":
    sys.exit(main())
