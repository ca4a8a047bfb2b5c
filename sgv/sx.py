"""Canonical symbolic values inside one (inlined) function: loads are named by
their access path, loop counters by their range, calls by name and arguments."""
from .val import *
from .cfg import *
from .loopnest import Nest

PURECALLS = {"Ind", "IndLax", "VarName", "GetnameInd", "GetsInd", "GetnParameters", "atoi", "atof", "strlen", "Geti", "Getd", "Gets", "Getv"}


def base(n):
    return n[6:] if n.startswith("SGRID_") else n


class Sx:
    def __init__(s, P, f):
        s.P = P; s.f = f; s.cg = cfg_of(P, f); s.nest = Nest(P, f, s.cg)
        s.memo = {}
        s.ranges = {}
        for h, ivs in s.nest.iv.items():
            for nm, init, step, nx in ivs:
                s.ranges[nm] = (h, init, step)

    def __call__(s, v, d=0):
        if isinstance(v, (int, float)):
            return v
        if isinstance(v, tuple):
            b = ce_base(v)
            return ("c", b) if b is not None else ("c", str(v))
        if not is_local(v):
            t = s.P.string(s.f, v)
            return ("str", t) if t is not None else v
        if v in s.memo:
            return s.memo[v]
        s.memo[v] = ("v", v)
        r = s.go(v, d)
        s.memo[v] = r
        return r

    def go(s, v, d):
        I = s.f.defs.get(v)
        if I is None or d > 60:
            return ("v", v)
        if I.op in CASTS:
            return s(I.ops[0], d + 1)
        if I.op == "load":
            return ("ld", s(I.ops[0], d + 1))
        if I.op == "gep":
            st, _ = gep_path(s.P, I)
            r = s(I.ops[0], d + 1)
            for q in st:
                r = ("fld", r, q[2]) if q[0] == "f" else ("idx", r, s(q[1], d + 1))
            return r
        if I.op in ("add", "sub", "mul", "shl", "or", "and", "xor", "sdiv", "srem", "udiv", "urem", "fadd", "fsub", "fmul", "fdiv"):
            a, b = s(I.ops[0], d + 1), s(I.ops[1], d + 1)
            if I.op in ("add", "mul", "and", "or", "fadd", "fmul") and str(a) > str(b):
                a, b = b, a
            return (I.op, a, b)
        if I.op == "call" and is_glob(I.callee):
            n = base(I.callee[1:])
            if n in PURECALLS:
                return ("call", n) + tuple(s(o, d + 1) for o in I.ops)
            return ("res", n, v)
        if I.op == "phi":
            if v in s.ranges:
                return ("iv", v)
            al = {str(s(o, d + 1)) for o, p in zip(I.ops, I.x) if p in s.cg.live and o != v}
            if len(al) == 1:
                return s([o for o, p in zip(I.ops, I.x) if p in s.cg.live and o != v][0], d + 1)
        return ("v", v)

    # ---------------------------------------------------------------- ranges
    def lin(s, v):
        """integer polynomial over canonical atoms"""
        def go(v, d=0):
            if isinstance(v, int):
                return Lin({(): v}) if v else Lin()
            if is_local(v):
                I = s.f.defs.get(v)
                if I is not None and d < 40:
                    if I.op in CASTS:
                        return go(I.ops[0], d + 1)
                    if I.op == "add":
                        return go(I.ops[0], d + 1) + go(I.ops[1], d + 1)
                    if I.op == "sub":
                        return go(I.ops[0], d + 1) + go(I.ops[1], d + 1).scale(-1)
                    if I.op == "mul":
                        return go(I.ops[0], d + 1).mul(go(I.ops[1], d + 1))
                    if I.op == "shl" and isinstance(I.ops[1], int):
                        return go(I.ops[0], d + 1).scale(1 << I.ops[1])
                    if I.op in ("udiv", "sdiv") and I.ops[1] == 1:
                        return go(I.ops[0], d + 1)
            return Lin({(str(s(v)),): 1})
        return go(v)

    def span(s, iv):
        """(first, last+1) of a counter with step one as polynomials, or None"""
        h, init, step = s.ranges[iv]
        body = s.cg.loops[h]
        if step not in (1, -1):
            return None
        out = []
        for b in body:
            if b in s.cg.dead:
                continue
            if any(x not in body for x in s.cg.succ[b]):
                out.append(b)
        best = None
        for b in out:
            t = s.f.blocks[b].instrs[-1]
            if t.op != "br" or not t.ops:
                continue
            d = s.f.defs.get(t.ops[0]) if is_local(t.ops[0]) else None
            if d is None or d.op != "icmp":
                continue
            stay = t.x[0] in body
            pr = d.x
            a, c = d.ops
            na = s.iscounter(a, iv); nc = s.iscounter(c, iv)
            if na is None and nc is None:
                continue
            if na is None:
                a, c = c, a; na = nc
                pr = {"slt": "sgt", "sle": "sge", "sgt": "slt", "sge": "sle", "ult": "ugt", "ule": "uge", "ugt": "ult", "uge": "ule"}.get(pr, pr)
            if not stay:
                pr = {"slt": "sge", "sle": "sgt", "sgt": "sle", "sge": "slt", "ult": "uge", "ule": "ugt", "ugt": "ule", "uge": "ult", "eq": "ne", "ne": "eq"}.get(pr, pr)
            L = s.lin(c)
            if na == 1 and b == h and h not in t.x:
                L = L + Lin({(): -step})       # tested before the body
            # test on the counter itself or on its next value (bottom tested)
            off = na
            if step == 1:
                if pr in ("slt", "ult", "ne"):
                    hi = L
                elif pr in ("sle", "ule"):
                    hi = L + Lin({(): 1})
                else:
                    continue
                if off == 1:
                    hi = hi                    # body runs for iv < hi as well: iv+1 < hi keeps going, last iv = hi-1
                best = (s.lin(init), hi) if best is None else False
            else:
                if pr in ("sgt", "ugt"):
                    lo = L + Lin({(): 1})
                elif pr in ("sge", "uge"):
                    lo = L
                else:
                    continue
                best = (lo, s.lin(init) + Lin({(): 1})) if best is None else False
        return best or None

    def iscounter(s, v, iv):
        """0 if v is the counter, 1 if it is the next value"""
        while is_local(v):
            if v == iv:
                return 0
            d = s.f.defs.get(v)
            if d is None:
                return None
            if d.op in CASTS:
                v = d.ops[0]; continue
            if d.op in ("add", "sub") and d.ops[0] == iv and isinstance(d.ops[1], int) and abs(d.ops[1]) == 1:
                return 1
            return None
        return None


def mentions(e, pred):
    if pred(e):
        return True
    return isinstance(e, tuple) and any(mentions(x, pred) for x in e[1:])
