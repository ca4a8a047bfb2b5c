"""Comparison of two lowered functions by algebraic value numbering."""
import re
from . import algv
from .val import *


def active(k, ty):
    """boxes that are switched off are skipped by every kernel"""
    if k[1] and k[1][-1] == ("f", "inactive"):
        return 0
    return None


def grid_key(k):
    r = k[0]
    return not (isinstance(r, tuple) and r and r[0] in ("loc", "stack", "bad"))


def moving(r):
    return isinstance(r, tuple) and r and (r[0] in ("lp", "bad") or r[0] == "ld" and moving(r[1]))


def walk(P, f, seed, args=None, atom=active, limit=400000):
    F = seed if isinstance(seed, algv.Field) else algv.Field(seed)
    w = algv.Walk(P, f, F, args=args, atom=atom, limit=limit)
    w.run()
    return w


def differences(a, b):
    """a: reference walk, b: walk of the program under analysis.
    yields (kind, key, instruction of b or None, instruction of a or None)"""
    ka = {k for k in a.mem if grid_key(k)}
    kb = {k for k in b.mem if grid_key(k)}
    if a.aborted != b.aborted:
        yield ("one stops the run and the other does not", None, None, None)
        return
    if a.aborted:
        return
    # stores through a pointer that moves: which element is not known
    odd = {k for k in b.mem if moving(k[0])}
    kb -= odd
    for k in ka - kb:
        if not odd:
            yield ("not written", k, None, a.by.get(k))
    for k in kb - ka:
        yield ("written without an equation", k, b.by.get(k), None)
    for k in ka & kb:
        if a.mem[k] != b.mem[k]:
            yield ("different value", k, b.by.get(k), a.by.get(k))
        elif a.dom.get(k) is not None and b.dom.get(k) is not None and a.dom[k] != b.dom[k]:
            yield ("computed for different points", k, b.by.get(k), a.by.get(k))
    ca = sorted((n, repr(x)) for n, x, _ in a.calls)
    cb = sorted((n, repr(x)) for n, x, _ in b.calls)
    if ca != cb:
        for n, x, I in b.calls:
            if (n, repr(x)) not in ca:
                yield ("call of %s with other arguments" % n, None, I, None)
                break
        else:
            miss = [x for x in ca if x not in cb]
            yield ("call of %s missing" % miss[0][0] if miss else "calls repeated", None, b.calls[0][2] if b.calls else None, None)
    else:
        da = {}; db = {}
        for w, d in ((a, da), (b, db)):
            for (n, x, I), m in zip(w.calls, w.before):
                d.setdefault((n, repr(x)), [frozenset(k for k in m if grid_key(k)), I])
        for k in da:
            if k in db and da[k][0] != db[k][0]:
                yield ("call of %s before or after other stores than in the equations" % k[0], None, db[k][1], None)


def outname(f, I):
    """the variable a store goes to, from the address computation"""
    if I is None:
        return "?"
    v = I.ops[1]
    for _ in range(6):
        d = f.defs.get(v) if is_local(v) else None
        if d is None:
            break
        if d.op in ("gep", "load", "bitcast"):
            v = d.ops[0]; continue
        break
    d = f.defs.get(v) if is_local(v) else None
    nm = f.__dict__.get("dbgnames", {}).get(v)
    return nm or (v if isinstance(v, str) else "?")
