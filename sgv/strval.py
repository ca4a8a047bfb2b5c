"""Possible contents of C strings, as patterns.

A pattern is a str in which D (\\x01) stands for a printed number and A (\\x02)
for any text.  patterns(...) returns a set of patterns, or {A} if unknown."""
import re
from .val import *
from .cfg import *

D = "\x01"; A = "\x02"
FMT = re.compile(r"%[-+ #0]*(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|L|z|j|t)?([diouxXeEfFgGaAcspn%])")


class Strings:
    def __init__(s, P):
        s.P = P
        s.memo = {}
        s.stack = set()

    def pats(s, f, at, v, depth=0):
        """patterns of the string v as seen just before instruction `at`"""
        P = s.P
        lit = P.string(f, v)
        if lit is not None:
            return {lit}
        if isinstance(v, tuple):
            v = ce_base(v)
        if not is_local(v) or depth > 8:
            return {A}
        k = (f.name, f.src, v, at.blk if at else None, at.idx if at else None)
        if k in s.memo:
            return s.memo[k]
        if k in s.stack:
            return set()
        s.stack.add(k)
        r = s._pats(f, at, v, depth)
        s.stack.discard(k)
        if len(r) > 60:
            r = {A}
        s.memo[k] = r
        return r

    def _pats(s, f, at, v, depth):
        P = s.P
        d = f.defs.get(v)
        if d is None:
            if v not in f.params:
                return {A}
            k = f.params.index(v)
            cs = P.callers.get(f.name)
            if not cs or depth > 5:
                return {A}
            r = set()
            for g, I in cs:
                if k < len(I.ops):
                    r |= s.pats(g, I, I.ops[k], depth + 1)
            return r or {A}
        if d.op in CASTS:
            return s.pats(f, at, d.ops[0], depth)
        if d.op in ("phi", "select"):
            r = set()
            for o in (d.ops if d.op == "phi" else d.ops[1:]):
                if o == "null":
                    continue
                r |= s.pats(f, at, o, depth + 1)
            return r or {A}
        if d.op == "load":
            # pointer variable in a table of literals
            rt = addr_root(f, d.ops[0])
            if is_glob(rt):
                g = P.glob(f, rt[1:])
                if g is not None and g.init is not None:
                    l = s.table(f, g.init)
                    if l:
                        return l
            return {A}
        if d.op == "call" and is_glob(d.callee):
            n = d.callee[1:]
            if n in ("strdup", "__strdup"):
                return s.pats(f, d, d.ops[0], depth + 1)
            if n in ("calloc", "malloc", "realloc", "strcpy", "strcat"):
                return s.buffer(f, at, v, depth)
            return {A}
        if d.op in ("gep", "alloca"):
            rt = addr_root(f, v)
            if d.op == "gep" and not zero_off(f, d):
                return {A}
            b = f.defs.get(rt) if is_local(rt) else None
            if b is not None and (b.op == "alloca" or b.op == "call"):
                return s.buffer(f, at, rt, depth)
            if rt in f.params:
                return s.pats(f, at, rt, depth)
        return {A}

    def table(s, f, init):
        r = set()
        if isinstance(init, tuple) and init[0] == "agg":
            for e in init[1]:
                l = s.P.string(f, e)
                if l is None:
                    if isinstance(e, tuple) and e[0] == "agg":
                        r |= s.table(f, e)
                    continue
                r.add(l)
        return r

    def buffer(s, f, at, rt, depth):
        """contents of a local buffer before `at`: backward over the CFG"""
        P = s.P
        cg = cfg_of(P, f)
        if at is None or at.blk not in cg.live:
            return {A}
        res = set()
        seen = set()
        work = [(at.blk, at.idx - 1, "")]
        n = 0
        while work:
            b, k, suf = work.pop()
            n += 1
            if n > 400:
                return {A}
            ins = f.blocks[b].instrs
            done = False
            for j in range(k, -1, -1):
                I = ins[j]
                w = s.writes(f, I, rt, depth)
                if w is None:
                    continue
                kind, ps = w
                if kind == "set":
                    for p in ps:
                        res.add(join_p(p, suf))
                    done = True
                    break
                if kind == "append":
                    if len(ps) == 1:
                        suf = join_p(next(iter(ps)), suf)
                    else:
                        # fork per alternative
                        for p in ps:
                            work.append((b, j - 1, join_p(p, suf)))
                        done = True
                        break
                if kind == "other":
                    res.add(A); done = True
                    break
            if done:
                continue
            if b == cg.entry:
                res.add(A); continue
            for p in cg.pred[b]:
                if (p, suf) not in seen and len(suf) < 200:
                    seen.add((p, suf))
                    work.append((p, len(f.blocks[p].instrs) - 1, suf))
        return res or {A}

    def writes(s, f, I, rt, depth):
        if I.op == "store":
            if addr_root(f, I.ops[1]) == rt:
                if I.ops[0] == 0:       # terminator at some place
                    d = f.defs.get(I.ops[1]) if is_local(I.ops[1]) else None
                    if I.ops[1] == rt or (d is not None and d.op == "gep" and zero_off(f, d)):
                        return ("set", {""})
                    return ("append", {""})
                return ("other", None)
            return None
        if I.op != "call" or not is_glob(I.callee):
            return None
        n = I.callee[1:]
        if not I.ops:
            return None
        dst = I.ops[0]
        if addr_root(f, dst) != rt:
            # passed to something that may fill it
            for k, o in enumerate(I.ops):
                if isinstance(o, str) and is_local(o) and addr_root(f, o) == rt:
                    if n in ("sscanf", "__isoc99_sscanf", "fscanf", "__isoc99_fscanf", "fread", "fgets"):
                        return ("other", None) if k > 0 or n == "fgets" else None
                    if n.startswith("llvm.dbg") or n.startswith("llvm.lifetime"):
                        return None
                    h = s.P.body(n, f)
                    if h is not None:
                        from .flow import effects
                        E = effects(s.P)
                        if k in E.p.get(E.nm(h), ()):
                            return ("other", None)
            return None
        d = f.defs.get(dst) if is_local(dst) else None
        off = d is not None and d.op == "gep" and not zero_off(f, d)
        if n in ("sprintf", "snprintf", "__sprintf_chk", "__snprintf_chk"):
            fi = {"sprintf": 1, "snprintf": 2}.get(n)
            ps = s.format(f, I, fi, depth)
            return ("append" if off else "set", ps)
        if n in ("strcpy", "strncpy", "stpcpy"):
            return ("append" if off else "set", s.pats(f, I, I.ops[1], depth + 1))
        if n in ("strcat", "strncat"):
            return ("append", s.pats(f, I, I.ops[1], depth + 1))
        if n.startswith("llvm.memcpy"):
            l = s.P.string(f, I.ops[1])
            if l is None:
                src = ce_base(I.ops[1]) if isinstance(I.ops[1], tuple) else I.ops[1]
                g = s.P.glob(f, src[1:]) if is_glob(src) else None
                if g is not None and isinstance(g.init, tuple) and g.init[0] == "agg" and g.init[1] and \
                        isinstance(g.init[1][0], tuple) and g.init[1][0][0] == "str":
                    l = g.init[1][0][1].split(b"\0")[0].decode("latin-1")
            return ("set", {l if l is not None else A})
        if n.startswith("llvm.memset"):
            return ("set", {""})
        if n in ("fgets", "fread"):
            return ("other", None)
        h = s.P.body(n, f)
        if h is not None:
            from .flow import effects
            E = effects(s.P)
            if 0 in E.p.get(E.nm(h), ()):
                return ("other", None)
        return None

    def format(s, f, I, fi, depth):
        fmt = s.P.string(f, I.ops[fi])
        if fmt is None:
            fp = s.pats(f, I, I.ops[fi], depth + 1)
            if len(fp) == 1 and A not in next(iter(fp)) and "%" not in next(iter(fp)):
                return fp
            return {A}
        return s.expand(f, I, fmt, I.ops[fi + 1:], depth)

    def expand(s, f, I, fmt, args, depth):
        out = {""}
        pos = 0; k = 0
        for m in FMT.finditer(fmt):
            out = {o + fmt[pos:m.start()] for o in out}
            pos = m.end()
            c = m.group(4)
            if c == "%":
                out = {o + "%" for o in out}; continue
            if m.group(1) == "*":
                k += 1
            if m.group(2) == "*":
                k += 1
            a = args[k] if k < len(args) else None
            k += 1
            if c == "s":
                ps = s.pats(f, I, a, depth + 1) if a is not None else {A}
                if len(ps) * len(out) > 60:
                    ps = {A}
                out = {join_p(o, p) for o in out for p in ps}
            elif c == "c":
                if isinstance(a, int):
                    out = {o + chr(a) for o in out}
                else:
                    out = {join_p(o, A) for o in out}
            elif c in "di" and isinstance(a, int):
                out = {o + str(a) for o in out}
            else:
                out = {o + D for o in out}
        return {o + fmt[pos:] for o in out}


def join_p(a, b):
    r = a + b
    while A + A in r:
        r = r.replace(A + A, A)
    return r


def zero_off(f, d):
    return all(isinstance(k, int) and k == 0 for k in d.ops[1:])


def unify(a, b):
    """can the two patterns denote the same string?"""
    memo = {}

    def go(i, j):
        k = (i, j)
        if k in memo:
            return memo[k]
        memo[k] = False
        r = False
        if i == len(a) and j == len(b):
            r = True
        elif i < len(a) and a[i] == A:
            r = go(i + 1, j) or (j < len(b) and go(i, j + 1))
        elif j < len(b) and b[j] == A:
            r = go(i, j + 1) or (i < len(a) and go(i + 1, j))
        elif i < len(a) and j < len(b):
            x, y = a[i], b[j]
            if x == D and y == D:
                r = go(i + 1, j + 1) 
            elif x == D:
                n = j
                while n < len(b) and (b[n].isdigit() or b[n] in "-+.eE"):
                    n += 1
                    if go(i + 1, n):
                        r = True; break
            elif y == D:
                n = i
                while n < len(a) and (a[n].isdigit() or a[n] in "-+.eE"):
                    n += 1
                    if go(n, j + 1):
                        r = True; break
            elif x == y:
                r = go(i + 1, j + 1)
        memo[k] = r
        return r
    return go(0, 0)


def show(p):
    return p.replace(D, "<n>").replace(A, "<...>")


def strings(P):
    if getattr(P, "_str", None) is None:
        P._str = Strings(P)
    return P._str
