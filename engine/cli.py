"""Run proof goals: cli.py [name-prefix | property ...] [-v]
cli.py --list PROPERTY        names of its goals
cli.py --json OUT NAME        one goal, result as JSON"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("PUNX_REPO", "/repo"))
sys.setrecursionlimit(20000)
NEVER_RAISE = ("C01", "C02", "C03", "C04", "C05", "C06", "C07")  # the functions that a validation runs


def main():
    from engine import goals, all_goals  # noqa
    names = [x for x in sys.argv[1:] if not x.startswith("-")]
    if "--list" in sys.argv:
        for n, g in sorted(goals.GOALS.items(), key=lambda x: -x[1].budget):
            part = [x.split(":", 1)[1] for x in g.also if x.startswith(names[0] + ":")]
            if g.prop == names[0] or names[0] in g.also:
                print("GOAL " + n)
            elif part:  # only some of its obligations belong to the property
                print("PART " + n + "\t" + part[0])
            elif names[0] == "C22" and (g.prop in NEVER_RAISE or n in ("validate.print_report", "validate.validate")):
                print("PART " + n + "\t|raises |^opened for reading only")
        return
    if "--json" in sys.argv:
        g = goals.GOALS[names[1]]
        limit = os.environ.get("GOAL_SECONDS")
        if limit:
            g.budget = float(limit)
        r = goals.run_goal(g)
        json.dump({"goal": g.name, "target": g.target, "status": r.status, "runs": r.runs, "paths": r.paths, "seconds": r.seconds, "used": r.used, "unsupported": [str(u)[:600] for u in r.unsupported[:8]],
                   "trusted": sorted(getattr(r, "trusted", [])),
                   "obligations": [{"name": o.name, "status": o.status, "detail": str(o.detail)[:1500], "path": [str(x)[:300] for x in o.path[:40]] if o.status != "discharged" else None} for o in r.obligations]},
                  open(names[0], "w"), indent=1)
        return
    for n, g in goals.GOALS.items():
        if names and not any(n.startswith(x) or g.prop == x for x in names):
            continue
        r = goals.run_goal(g)
        print(f"{r.status:10s} {n}  {r.seconds:.1f}s runs={r.runs} paths={r.paths} obligations={len(r.obligations)}")
        for u in r.unsupported[:6]:
            print("     unsupported:", u)
        for o in [o for o in r.obligations if o.status != "discharged"][:6]:
            print("    ", o.status, o.name, o.detail[:600])
            print("        path:", [x[:160] for x in o.path[:12]])
        if "-v" in sys.argv:
            print(r.used)


main()
