"""P02: temporaries are released exactly once on every path."""
from sgv import ir
from sgv.val import *
from sgv.cfg import *
from sgv.own import own
from sgv.report import Check

RULE = ("Every heap block or variable list a function obtains (from the C library or from a function whose result is "
        "fresh) is followed along every path, with branch correlation, through copies and calls (whose effect on the argument is summarised "
        "from their bodies). It must be released, handed over or returned before the function returns or obtains the next one, must not be "
        "released twice and must not be used after its release.")


def run(tier):
    c = Check("P02", tier, RULE)
    seen = set()
    for which in ("main", "alt"):
        one(c, ir.load(which, "seq"), seen, lambda k: k == "memory")
    c.floor("acquisitions followed", 250)
    c.assume += ["a loop that releases or hands over the object runs at least once", "an object stored in memory or passed to an unknown function is handed over"]
    return c


def one(c, P, seen, want):
    o = own(P)
    for f in P.funcs.values():
        if f.name == "main":
            continue
        cg = cfg_of(P, f)
        for I in f.instrs():
            if I.op != "call" or I.blk not in cg.live:
                continue
            k = o.acquires(f, I)
            if k is None or not want(k) or not I.name:
                continue
            idk = (f.src, f.name, I.name)
            if idk in seen:
                continue
            seen.add(idk)
            r = o.trace(f, I, I.name)
            if r is None:
                c.count("acquisitions with too many paths")
                continue
            c.count("acquisitions followed")
            via = I.callee[1:]
            vn = f.vars.get(I.name)
            what = "%s from %s" % (k, via)
            for st, J in r["exits"]:
                if st == "L":
                    c.violation("%s|leak|%s" % (f.name, via), where(I, f), "%s: the %s is not released on the path that returns at line %s" %
                                (f.name, what, J.loc[1] if J.loc else "?"))
            for J in r["lost"]:
                c.violation("%s|lost|%s" % (f.name, via), where(I, f), "%s: the %s is lost when the loop obtains the next one" % (f.name, what))
            for J in r["df"]:
                c.violation("%s|double|%s" % (f.name, via), where(J, f), "%s: the %s of line %s is released twice" % (f.name, what, I.loc[1] if I.loc else "?"))
            for J in r["uaf"]:
                c.violation("%s|use|%s" % (f.name, via), where(J, f), "%s: the %s of line %s is used after its release" % (f.name, what, I.loc[1] if I.loc else "?"))
