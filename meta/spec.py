#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json.  Run: python3 meta/spec.py"""
import json, os, importlib.util
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []          # claimed
NA = []         # not applicable


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a,
              "_t": technique, "_n": note})


def na(id, title, statement, over, qtext, why, files, mech, reason):
    prop(id, title, statement, over, qtext, why, files, mech, None, None)
    NA.append({"property": id, "reason": reason})


def main():
    sp = importlib.util.spec_from_file_location("table", os.path.join(ROOT, "meta", "table.py"))
    m = importlib.util.module_from_spec(sp)
    m.prop = prop; m.na = na
    sp.loader.exec_module(m)
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
    checks = []
    for p in P:
        if p["_t"] is None:
            continue
        assert os.path.exists(os.path.join(ROOT, "props", p["id"].lower() + ".py")), p["id"]
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"],
                       "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                       "technique": p["_t"], "level": "other", "level_note": p["_n"]})
    json.dump({"version": 1, "setup_cmd": "python3 warm.py", "checks": checks, "not_applicable": NA,
               "notes": "All checks are static: they lower /repo's current source to compiler IR and analyse it; nothing of sgrid is executed."},
              open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    print(len(P), "properties", len(checks), "checks")


main()
