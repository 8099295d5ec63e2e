"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []
O = "ebsdtorch/s2_and_so3/orientations.py"


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, observe=None, state=None, tech_only=False):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}
    if observe:
        d["anchors"]["observe_at"] = observe
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": m, "where": w} for a, m, w in state]
    assert len(title) <= 80, title
    P.append((d, technique, note))


def na(id, title, statement, over, qtext, why, files, mech, reason):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}
    assert len(title) <= 80, title
    NA.append((d, reason))


exec(open(os.path.join(HERE, "tools", "props_data.py")).read())

if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for d in sorted([p[0] for p in P] + [n[0] for n in NA], key=lambda d: d["id"]):
            f.write(json.dumps(d) + "\n")
    m = {"version": 1, "setup_cmd": "python3 -m compileall -q sa check.py >/dev/null 2>&1; python3 check.py --selfcheck",
         "checks": [{"property": d["id"], "quick_cmd": "python3 check.py %s --tier quick" % d["id"],
                     "thorough_cmd": "python3 check.py %s --tier thorough" % d["id"],
                     "technique": t, "level": "other", "level_note": n} for d, t, n in sorted(P, key=lambda p: p[0]["id"])],
         "not_applicable": [{"property": d["id"], "reason": r} for d, r in sorted(NA, key=lambda p: p[0]["id"])],
         "notes": "Static analysis only: the checks read /repo's current source on every run and never execute it. "
                  "Analyser in sa/, one module per property in sa/checks/."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
