"""Path queries and whole-program effect summaries."""
from .val import *
from .cfg import *
from .fptr import fptr


def must_follow(cg, I, pred, stop=None):
    """does every path from just after instruction I to a return meet pred?
    returns None if so, else the block of a return reached without it"""
    f = cg.f
    seen = set()

    def scan(b, k):
        ins = f.blocks[b].instrs
        for j in range(k, len(ins)):
            if pred(ins[j]):
                return "ok"
            if stop is not None and stop(ins[j]):
                return "ok"
        return None
    st = []
    if scan(I.blk, I.idx + 1) is None:
        st = [I.blk]
    bad = None
    first = True
    work = list(st)
    while work:
        b = work.pop()
        if b in cg.dead:
            continue
        if not cg.succ[b]:
            t = f.blocks[b].instrs[-1]
            if t.op == "ret":
                return b
            continue
        for x in cg.succ[b]:
            if x in seen:
                continue
            seen.add(x)
            if scan(x, 0) is None:
                work.append(x)
    return None


def must_precede(cg, I, pred):
    """does every path from entry to I meet pred first?  (no path avoiding it)"""
    f = cg.f
    seen = set()
    # forward search from entry avoiding pred
    work = [cg.entry]; seen.add(cg.entry)
    while work:
        b = work.pop()
        blocked = False
        for J in f.blocks[b].instrs:
            if J is I:
                return False
            if pred(J):
                blocked = True
                break
        if blocked:
            continue
        for x in cg.succ.get(b, ()):
            if x not in seen:
                seen.add(x); work.append(x)
    return True


class Effects:
    """globals a function may write, parameters it may write through"""

    def __init__(s, P):
        s.P = P; s.fp = fptr(P)
        s.g = {}      # fname -> set of globals
        s.p = {}      # fname -> set of params written at depth 0 (the object itself)
        s.pd = {}     # fname -> set of params written at any depth
        fs = list(P.funcs.items())
        for n, f in fs:
            s.g[n] = set(); s.p[n] = set(); s.pd[n] = set()
        ch = True
        while ch:
            ch = False
            for n, f in fs:
                a = (len(s.g[n]), len(s.p[n]), len(s.pd[n]))
                for I in f.instrs():
                    if I.op == "store":
                        s.wr(f, n, I.ops[1])
                    elif I.op in ("call", "invoke"):
                        for t in s.fp.targets(f, I) if not is_glob(I.callee) else [I.callee[1:]]:
                            h = P.body(t, f)
                            if h is None:
                                for k in EXT_WRITES(t, len(I.ops)):
                                    s.wr(f, n, I.ops[k])
                                continue
                            hn = s.nm(h)
                            s.g[n] |= s.g.get(hn, set())
                            for k in s.p.get(hn, ()):
                                if k < len(I.ops):
                                    s.wr(f, n, I.ops[k])
                            for k in s.pd.get(hn, set()) - s.p.get(hn, set()):
                                if k < len(I.ops):
                                    s.wr(f, n, I.ops[k], deep=True)
                if a != (len(s.g[n]), len(s.p[n]), len(s.pd[n])):
                    ch = True

    def nm(s, h):
        if s.P.funcs.get(h.name) is h:
            return h.name
        for k, v in s.P.funcs.items():
            if v is h:
                return k
        return h.name

    def wr(s, f, n, addr, deep=False):
        r = addr_root(f, addr)
        if is_glob(r):
            s.g[n].add(r[1:])
            return
        if r in f.params:
            k = f.params.index(r)
            if not deep:
                s.p[n].add(k)
            s.pd[n].add(k)
            return
        # through loads
        seen = set()
        while is_local(r) and r not in seen:
            seen.add(r)
            d = f.defs.get(r)
            if d is None:
                break
            if d.op == "load":
                r = addr_root(f, d.ops[0])
                if is_glob(r):
                    s.g[n].add("*" + r[1:])
                    return
            elif d.op in ("phi", "select"):
                for o in d.ops:
                    if is_local(o) and o not in seen:
                        rr = addr_root(f, o)
                        if rr in f.params:
                            s.pd[n].add(f.params.index(rr))
                return
            else:
                return
        if r in f.params:
            s.pd[n].add(f.params.index(r))


def EXT_WRITES(t, n):
    if t.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
        return [0]
    if t in ("memcpy", "memmove", "memset", "strcpy", "strncpy", "strcat", "strncat", "sprintf", "snprintf", "fgets",
             "fread", "gets", "strtok"):
        return [0]
    if t in ("sscanf", "__isoc99_sscanf", "fscanf", "__isoc99_fscanf"):
        return list(range(2, n))
    return []


def effects(P):
    if getattr(P, "_eff", None) is None:
        P._eff = Effects(P)
    return P._eff


def reaching_store(P, f, cg, load, eff=None):
    """the unique store that defines the global read by this load, None if the
    value comes from function entry or several places"""
    g = load.ops[0]
    if not is_glob(g):
        return None
    eff = eff or effects(P)
    found = set()
    seen = set()
    work = [(load.blk, load.idx - 1)]
    while work:
        b, k = work.pop()
        ins = f.blocks[b].instrs
        hit = False
        for j in range(k, -1, -1):
            J = ins[j]
            if J.op == "store" and J.ops[1] == g:
                found.add(J); hit = True; break
            if J.op in ("call", "invoke"):
                ts = [J.callee[1:]] if is_glob(J.callee) else eff.fp.targets(f, J)
                if any(g[1:] in eff.g.get(t, ()) for t in ts):
                    return None
        if hit:
            continue
        if b == cg.entry:
            return None
        for p in cg.pred[b]:
            if p not in seen:
                seen.add(p)
                work.append((p, len(f.blocks[p].instrs) - 1))
    return found.pop() if len(found) == 1 else None
