"""Which branch conditions govern a program point?"""
from .val import *
from .cfg import *


def guards(cg, b):
    """[(branch instr, taken?)] that must have held to reach block b (acyclic
    reasoning; loop back edges ignored)"""
    out = []
    f = cg.f
    x = b
    while x != cg.entry:
        d = cg.idom.get(x)
        if d is None:
            break
        t = f.blocks[d].instrs[-1]
        ss = cg.succ[d]
        if t.op == "br" and t.ops and len(ss) == 2 and ss[0] != ss[1]:
            r0 = ss[0] == b or b in cg.reachable_from(ss[0], avoid=(d,)) or ss[0] == b
            r1 = ss[1] == b or b in cg.reachable_from(ss[1], avoid=(d,))
            if r0 != r1:
                out.append((t, r0))
        x = d
    return out


def atom(P, f, S, cond, at, pol, depth=0):
    """readable, comparable form of a condition"""
    d = f.defs.get(cond) if is_local(cond) else None
    if d is None or depth > 8:
        return (str(cond), pol)
    if d.op in CASTS:
        return atom(P, f, S, d.ops[0], at, pol, depth + 1)
    if d.op == "icmp" and d.x in ("eq", "ne") and (d.ops[1] == 0 or d.ops[1] == "null"):
        return atom(P, f, S, d.ops[0], at, pol if d.x == "ne" else not pol, depth + 1)
    if d.op == "xor" and d.ops[1] in (1, -1):
        return atom(P, f, S, d.ops[0], at, not pol, depth + 1)
    if d.op == "call" and is_glob(d.callee):
        args = []
        for a in d.ops:
            s = P.string(f, a)
            args.append(s if s is not None else a if isinstance(a, int) else
                        "|".join(sorted(S.pats(f, d, a))) if S is not None and is_local(a) and d.x["atys"][d.ops.index(a)] == "ptr" else "?")
        return ((d.callee[1:],) + tuple(args), pol)
    if d.op == "phi":
        return (("phi", d.name, f.name), pol)
    return ((d.op, d.x if d.op == "icmp" else "", str(expr(P, f, d.name))), pol)
