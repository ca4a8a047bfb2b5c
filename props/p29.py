"""P29: files and directories: tested before use, closed exactly once."""
from sgv import ir
from sgv.val import *
from sgv.cfg import *
from sgv.own import own
from sgv.nullchk import Null
from sgv.report import Check
from . import p02

RULE = ("Every stream or directory handle obtained (from the C library or from a function of the program that returns a fresh one) is followed "
        "along every path with branch correlation: before any use the handle is compared with null; on every path to the return it is closed "
        "exactly once, handed over or returned; it is not used after it is closed.  A failing open that stops the run counts as tested.")


def run(tier):
    c = Check("P29", tier, RULE)
    seen = set()
    for which in ("main", "alt"):
        P = ir.load(which, "seq")
        s0 = set(seen)
        p02.one(c, P, seen, lambda k: k != "memory")
        N = Null(P)
        for f in P.funcs.values():
            cg = cfg_of(P, f)
            for I in f.instrs():
                if I.op != "call" or I.blk not in cg.live or not I.name or (f.src, f.name, I.name) in s0:
                    continue
                k = N.maynull(f, I)
                if k and k != "memory":
                    c.count("opens whose test is required")
                    r = N.scan(f, I)
                    if r is not None:
                        c.violation("%s|untested|%s" % (f.name, I.callee[1:]), where(r, f),
                                    "%s uses the %s from %s (line %s) without testing that it could be opened" %
                                    (f.name, k, I.callee[1:], I.loc[1] if I.loc else "?"))
                    c.sample("%s: %s at %s" % (f.name, k, where(I, f)))
    c.floor("acquisitions followed", 25)
    return c
