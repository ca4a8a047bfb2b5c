#!/usr/bin/env python3
"""mkseed.py ID PROP FILE 'needs' 'breaks' < (old \n=====\n new)  makes seeded/ID/patch.diff+meta.json from an edit of /repo (undone again)"""
import sys, os, subprocess, json
ID, prop, file, needs, breaks = sys.argv[1:6]
d = "/verif/seeded/" + ID
os.makedirs(d, exist_ok=True)
edits = sys.stdin.read().split("\n#####\n")
fs = file.split(",")
try:
    for k, e in enumerate(edits):
        fn = "/repo/" + fs[min(k, len(fs) - 1)]
        old, new = e.split("\n=====\n")
        old = old.strip("\n"); new = new.strip("\n")
        t = open(fn, encoding="latin1").read()
        assert t.count(old) == 1, (fn, t.count(old), old)
        open(fn, "w", encoding="latin1").write(t.replace(old, new))
    p = subprocess.check_output(["git", "-C", "/repo", "diff"])
    open(d + "/patch.diff", "wb").write(p)
finally:
    subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
print(p.decode("latin1"))
