#!/usr/bin/env python3
"""mut.py PID FILE  (edits from stdin: old =====\n new, separated by ##### lines): runs the check on an edited copy; every edit on its own"""
import sys, os, subprocess, shutil
pid, file = sys.argv[1:3]
for k, e in enumerate(sys.stdin.read().split("\n#####\n")):
    if os.path.exists("/tmp/mut"): shutil.rmtree("/tmp/mut")
    os.makedirs("/tmp/mut")
    shutil.copytree("/repo/src", "/tmp/mut/src")
    ff = file
    if e.startswith("FILE "):
        l, e = e.split("\n", 1); ff = l[5:].strip()
    old, new = e.split("=====\n") if "\n=====\n" not in e else e.split("\n=====\n")
    old = old.strip("\n"); new = new.strip("\n")
    fn = "/tmp/mut/" + ff
    t = open(fn, encoding="latin1").read()
    if t.count(old) != 1:
        print(k, "count", t.count(old), repr(old)); continue
    open(fn, "w", encoding="latin1").write(t.replace(old, new))
    p = subprocess.run([sys.executable, "/verif/check.py", pid, "quick"], env=dict(os.environ, SGV_REPO="/tmp/mut"), capture_output=True, text=True)
    out = (p.stdout + p.stderr).strip().split("\n")
    print(k, "rc=%d" % p.returncode, repr(new[:60]), "|", [l[:170] for l in out[-3:]] if p.returncode else "quiet")
