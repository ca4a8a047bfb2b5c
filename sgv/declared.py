"""Names looked up fatally must be declared, under conditions that cover the
lookup.  Shared by the parameter and the variable check."""
from .val import *
from .cfg import *
from .flow import *
from .fptr import fptr
from .strval import strings, unify, show, A, D
from .guards import guards, atom


class Context:
    """conditions (Getv-style tests) that hold whenever a function runs"""

    def __init__(s, P):
        s.P = P; s.S = strings(P); s.fp = fptr(P)
        s.gcache = {}
        # sites from which a function can start running: direct calls and the
        # places its address is taken (registration)
        s.sites = {}
        for f in P.funcs.values():
            for I in f.instrs():
                if I.op == "call":
                    if is_glob(I.callee):
                        s.sites.setdefault(I.callee[1:], []).append((f, I))
                    for o in I.ops:
                        o2 = ce_base(o) if isinstance(o, tuple) and o[0] == "ce" else o
                        if is_glob(o2) and o2[1:] in P.funcs:
                            s.sites.setdefault(o2[1:], []).append((f, I))
                elif I.op in ("store", "phi", "select"):
                    for o in I.ops:
                        o2 = ce_base(o) if isinstance(o, tuple) and o[0] == "ce" else o
                        if is_glob(o2) and o2[1:] in P.funcs:
                            s.sites.setdefault(o2[1:], []).append((f, I))
        s.ctx = {}
        names = list(P.funcs)
        TOP = None
        for n in names:
            s.ctx[n] = TOP if s.sites.get(n) else frozenset()
        ch = True; rounds = 0
        while ch and rounds < 30:
            ch = False; rounds += 1
            for n in names:
                ss = s.sites.get(n)
                if not ss:
                    continue
                acc = TOP
                for f, I in ss:
                    up = s.ctx.get(f.name)
                    if up is None:
                        continue
                    g = s.at(f, I) | up
                    acc = g if acc is None else acc & g
                if acc is not None and acc != s.ctx[n]:
                    s.ctx[n] = acc; ch = True
        for n in names:
            if s.ctx[n] is None:
                s.ctx[n] = frozenset()

    def at(s, f, I):
        """tests governing an instruction inside its function"""
        k = (id(f), I.blk)
        if k not in s.gcache:
            cg = cfg_of(s.P, f)
            out = set()
            if I.blk in cg.live:
                for t, pol in guards(cg, I.blk):
                    a = atom(s.P, f, s.S, t.ops[0], t, pol)
                    if isinstance(a[0], tuple) and a[0] and a[0][0] in ("Getv", "GetvLax", "GetvFlag", "Geti", "Getd", "Gets"):
                        out.add(a)
            s.gcache[k] = frozenset(out)
        return s.gcache[k]

    def full(s, f, I):
        """tests that hold whenever I runs: those inside its function and
        those at every call that can get there"""
        return s.at(f, I) | s.ctx_for(f, I)

    def ctx_for(s, f, I):
        base = s.ctx.get(f.name, frozenset())
        ss = s.sites.get(f.name)
        if not ss or not any(p in f.params for p in f.params):
            return base
        tests = []
        cg = cfg_of(s.P, f)
        if I.blk not in cg.live:
            return base
        for t, pol in guards(cg, I.blk):
            x, neg = t.ops[0], False
            d = f.defs.get(x) if is_local(x) else None
            if d is not None and d.op == "icmp" and d.ops[1] in ("null", 0) and d.x in ("eq", "ne"):
                neg = d.x == "eq"
                d = f.defs.get(d.ops[0]) if is_local(d.ops[0]) else None
            if d is not None and d.op == "call" and d.callee in ("@strstr", "@strcmp"):
                a = strip(f, d.ops[0]); lit = s.P.string(f, d.ops[1])
                if a in f.params and lit is not None:
                    tests.append((f.params.index(a), d.callee, lit, pol != neg))
        if not tests:
            return base
        acc = None
        for g, J in ss:
            if J.op == "call" and J.callee == "@" + f.name:
                bad = False
                for k, fn, lit, pol in tests:
                    t = s.P.string(g, J.ops[k])
                    if t is not None and ((lit in t) if fn == "@strstr" else (lit != t)) != pol:
                        bad = True
                if bad:
                    continue
            x = s.at(g, J) | s.ctx.get(g.name, frozenset())
            acc = x if acc is None else acc & x
        return base if acc is None else acc | base


def reach_funcs(P):
    """functions reachable from main through calls and taken addresses"""
    fp = fptr(P)
    roots = [n for n in P.funcs if n in ("main",)]
    seen = set(roots); st = list(roots)
    while st:
        f = P.funcs.get(st.pop())
        if f is None:
            continue
        for I in f.instrs():
            ns = []
            if I.op in ("call", "invoke"):
                ns += [I.callee[1:]] if is_glob(I.callee) else list(fp.targets(f, I))
            for o in I.ops:
                o2 = ce_base(o) if isinstance(o, tuple) and o[0] == "ce" else o
                if is_glob(o2):
                    ns.append(o2[1:])
            for n in ns:
                if n in P.funcs and n not in seen:
                    seen.add(n); st.append(n)
    return seen


def lookups(P, base, nfatal=1):
    """functions whose parameter k is looked up in the table; base: (function,
    name index, fatal index) -> dict fname -> {k: 'fatal'|'lax'|('flag',j)}"""
    S = strings(P)
    res = {base[0]: {base[1]: ("flag", base[2]) if base[2] is not None else "fatal"}}
    ch = True
    while ch:
        ch = False
        for f in P.funcs.values():
            for I in f.instrs():
                if I.op != "call" or not is_glob(I.callee):
                    continue
                r = res.get(I.callee[1:])
                if not r:
                    continue
                for k, mode in r.items():
                    if k >= len(I.ops):
                        continue
                    v = strip(f, I.ops[k])
                    if v not in f.params:
                        continue
                    j = f.params.index(v)
                    m = mode
                    if isinstance(mode, tuple):
                        fv = I.ops[mode[1]]
                        if isinstance(fv, int):
                            m = "fatal" if fv else "lax"
                        elif strip(f, fv) in f.params:
                            m = ("flag", f.params.index(strip(f, fv)))
                        else:
                            m = "lax"
                    # a tolerant lookup first makes the later one conditional
                    old = res.setdefault(f.name, {}).get(j)
                    if old is None:
                        if m == "fatal":
                            cg = cfg_of(P, f)
                            if guarded_by_lookup(P, f, cg, I, res, j):
                                m = "lax"
                        res[f.name][j] = m; ch = True
                    elif old == "lax" and m == "fatal":
                        cg = cfg_of(P, f)
                        if not guarded_by_lookup(P, f, cg, I, res, j):
                            res[f.name][j] = m; ch = True
    return res


def guarded_by_lookup(P, f, cg, I, res, j):
    """is I only reached when an earlier tolerant lookup of parameter j (or of
    the same text) was tested?"""
    for t, pol in guards(cg, I.blk):
        for d in slice_calls(f, t.ops[0]):
            r = res.get(d.callee[1:], {})
            for k in r:
                if k < len(d.ops) and strip(f, d.ops[k]) == f.params[j]:
                    return True
    return False


def slice_calls(f, v, depth=0, seen=None):
    seen = seen if seen is not None else set()
    if not is_local(v) or v in seen or depth > 8:
        return
    seen.add(v)
    d = f.defs.get(v)
    if d is None:
        return
    if d.op == "call":
        if is_glob(d.callee):
            yield d
        return
    for o in d.ops:
        yield from slice_calls(f, o, depth + 1, seen)
