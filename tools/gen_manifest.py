"""MANIFEST.json and tools/levels.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROOF = "deductive verification: contracts of the real functions, obligations from their source by symbolic execution, discharged by z3"
BOUND = "; bounded stand-in on the real code where a contract is out of reach"
LEVEL = {}  # property: (level, note)
ASSUME = {}  # property: assumptions which nothing here checks
exec(open(os.path.join(HERE, "tools", "level_notes.py")).read())


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, lev = [], {}
    for p in props:
        i = p["id"]
        level, note = LEVEL[i]
        lev[i] = [level, note, ASSUME["all"] + ASSUME.get(i, [])]
        checks.append({"property": i, "quick_cmd": f"/opt/venv/bin/python check.py {i}", "thorough_cmd": f"/opt/venv/bin/python check.py {i} --thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": PROOF + BOUND, "level": level, "level_note": note})
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python tools/setup_check.py", "checks": checks, "not_applicable": []}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    json.dump(lev, open(os.path.join(HERE, "tools", "levels.json"), "w"), indent=1)


main()
