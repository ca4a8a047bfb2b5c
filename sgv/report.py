"""Common reporting for all checks: obligations, violations, known findings,
evidence.  A check that cannot find what it analyses ends with status 2."""
import os, sys, json, time, re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "known_findings.txt")


class AnalysisError(Exception):
    pass


def known_findings(pid):
    """lines  'finding: property=<id> key=<key> :: <text>'"""
    res = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) key=(.*?) :: (.*)$", l.strip())
            if m and m.group(1) == pid:
                res[m.group(2)] = m.group(3)
    return res


class Check:
    def __init__(s, pid, tier, rule, technique=""):
        s.pid = pid; s.tier = tier; s.rule = rule; s.technique = technique
        s.t0 = time.time()
        s.counts = {}
        s.viol = []
        s.seen = set()
        s.samples = []
        s.notes = []
        s.assume = []
        s.floors = []

    def count(s, what, n=1):
        s.counts[what] = s.counts.get(what, 0) + n

    def sample(s, text, cap=12):
        if len(s.samples) < cap:
            s.samples.append(text)

    def require(s, cond, what):
        """the construct the rule is about must still be there"""
        if not cond:
            raise AnalysisError("cannot analyse: " + what)

    def floor(s, what, n):
        """fewer instances than this means the rule lost its subject"""
        s.floors.append((what, n))

    def violation(s, key, where, text):
        if (key, where) in s.seen:
            return
        s.seen.add((key, where))
        s.viol.append((key, where, text))

    def keys(s):
        return {k for k, _, _ in s.viol}

    def finish(s):
        for what, n in s.floors:
            if s.counts.get(what, 0) < n:
                raise AnalysisError("only %d %s analysed, expected at least %d" % (s.counts.get(what, 0), what, n))
        known = known_findings(s.pid)
        new = []; old = {}
        for key, where, text in s.viol:
            if key in known:
                old.setdefault(key, []).append((where, text))
            else:
                new.append((key, where, text))
        for k in sorted(old):
            print("KNOWN-FINDING: property=%s %s [%s]" % (s.pid, known[k], old[k][0][0]))
        ev = os.path.join(ROOT, "evidence")
        os.makedirs(ev, exist_ok=True)
        for n in os.listdir(ev):
            if n.startswith(s.pid + ".violation"):
                os.unlink(os.path.join(ev, n))
        rp = None
        if new:
            rp = os.path.join(ev, "%s.violation.txt" % s.pid)
            with open(rp, "w") as f:
                f.write("property %s\nrule: %s\n" % (s.pid, s.rule))
                for key, where, text in new:
                    f.write("\n%s: %s\n    key=%s\n" % (where, text, key))
                f.write("\nre-run: python3 /verif/check.py %s %s\n" % (s.pid, s.tier))
        cov = {"explanation": s.rule, "obligations": sum(s.counts.values()),
               "instances": dict(sorted(s.counts.items())),
               "discharged": sum(s.counts.values()) - len(s.viol),
               "known_findings": len(old), "samples": s.samples[:12]}
        if s.notes:
            cov["notes"] = s.notes
        data = {"property": s.pid, "tier": s.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
                "level": "other", "coverage": cov, "assumptions": s.assume,
                "wall_s": round(time.time() - s.t0, 3), "violations": len(new)}
        with open(os.path.join(ev, s.pid + ".json"), "w") as f:
            json.dump(data, f, indent=1)
        for key, where, text in new[:40]:
            print("%s: %s" % (where, text))
        if new:
            print("VIOLATION property=%s replay=%s" % (s.pid, rp))
            return 1
        print("OK property=%s obligations=%d known=%d %.1fs" % (s.pid, sum(s.counts.values()), len(old), time.time() - s.t0))
        return 0
