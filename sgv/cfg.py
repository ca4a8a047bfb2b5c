"""Control-flow helpers: pruned CFGs, dominators, natural loops."""

NORETURN_EXT = {"exit", "abort", "_exit", "_Exit", "__assert_fail", "longjmp", "__cxa_throw",
                "__clang_call_terminate", "_ZSt9terminatev", "__cxa_rethrow",
                "__cxa_throw_bad_array_new_length"}


def noreturn_set(P):
    """functions that never return (fixpoint over the whole program)"""
    if getattr(P, "_noret", None) is not None:
        return P._noret
    nr = set(NORETURN_EXT)
    changed = True
    while changed:
        changed = False
        for name, f in P.funcs.items():
            key = name.split("#")[0]
            if key in nr:
                continue
            live = reach(f, f.order[0], nr)
            if not any(f.blocks[b].instrs and f.blocks[b].instrs[-1].op in ("ret", "resume")
                       and not cut(f.blocks[b], nr) for b in live):
                nr.add(key); changed = True
    P._noret = nr
    return nr


def cut(blk, nr):
    for i in blk.instrs:
        if i.op in ("call", "invoke") and isinstance(i.callee, str) and i.callee[1:] in nr:
            return True
    return False


def reach(f, start, nr):
    seen = {start}; st = [start]
    while st:
        b = f.blocks[st.pop()]
        if cut(b, nr):
            continue
        for s in b.succs:
            if s not in seen:
                seen.add(s); st.append(s)
    return seen


class CFG:
    """CFG of one function with edges out of non-returning blocks removed"""

    def __init__(s, f, nr=()):
        s.f = f
        s.entry = f.order[0]
        s.dead = {b for b in f.order if cut(f.blocks[b], nr)}
        s.succ = {}
        live = set(); st = [s.entry]; live.add(s.entry)
        order = []
        while st:
            b = st.pop()
            ss = [] if b in s.dead else list(f.blocks[b].succs)
            s.succ[b] = ss
            for x in ss:
                if x not in live:
                    live.add(x); st.append(x)
        s.live = live
        s.pred = {b: [] for b in live}
        for b in live:
            for x in s.succ[b]:
                s.pred[x].append(b)
        # reverse post order
        s.rpo = []
        seen = set()
        stack = [(s.entry, iter(s.succ[s.entry]))]
        seen.add(s.entry)
        while stack:
            b, it = stack[-1]
            for x in it:
                if x not in seen:
                    seen.add(x); stack.append((x, iter(s.succ[x]))); break
            else:
                s.rpo.append(b); stack.pop()
        s.rpo.reverse()
        s.num = {b: i for i, b in enumerate(s.rpo)}
        s.exits = [b for b in live if not s.succ[b] and b not in s.dead
                   and f.blocks[b].instrs and f.blocks[b].instrs[-1].op == "ret"]
        s._idom = None
        s._loops = None

    @property
    def idom(s):
        if s._idom is None:
            d = {s.entry: s.entry}
            ch = True
            while ch:
                ch = False
                for b in s.rpo[1:]:
                    ps = [p for p in s.pred[b] if p in d]
                    if not ps:
                        continue
                    n = ps[0]
                    for p in ps[1:]:
                        a, c = n, p
                        while a != c:
                            while s.num[a] > s.num[c]:
                                a = d[a]
                            while s.num[c] > s.num[a]:
                                c = d[c]
                        n = a
                    if d.get(b) != n:
                        d[b] = n; ch = True
            s._idom = d
        return s._idom

    def dom(s, a, b):
        """a dominates b"""
        d = s.idom
        if b not in d or a not in d:
            return False
        while True:
            if a == b:
                return True
            n = d[b]
            if n == b:
                return False
            b = n

    def idominates(s, i, j):
        """instruction i dominates instruction j"""
        if i.blk == j.blk:
            return i.idx < j.idx
        return s.dom(i.blk, j.blk)

    @property
    def loops(s):
        """header -> set of blocks"""
        if s._loops is None:
            L = {}
            for b in s.live:
                for h in s.succ[b]:
                    if s.dom(h, b):
                        body = L.setdefault(h, {h})
                        st = [b]
                        while st:
                            x = st.pop()
                            if x not in body:
                                body.add(x)
                                st.extend(s.pred[x])
            s._loops = L
        return s._loops

    def loop_of(s, b):
        """innermost loop header containing b"""
        best = None
        for h, body in s.loops.items():
            if b in body and (best is None or len(body) < len(s.loops[best])):
                best = h
        return best

    def reachable_from(s, b, avoid=()):
        seen = set(); st = [x for x in s.succ[b]]
        while st:
            x = st.pop()
            if x in seen or x in avoid:
                continue
            seen.add(x); st.extend(s.succ[x])
        return seen


_cache = {}


def cfg_of(P, f):
    k = id(f)
    c = _cache.get(k)
    if c is None or c.f is not f:
        c = CFG(f, noreturn_set(P)); _cache[k] = c
    return c


def where(I, f=None):
    if I is not None and I.loc and I.loc[0]:
        return "%s:%d" % (short(I.loc[0]), I.loc[1])
    if f is not None:
        return "%s:%d" % (short(f.lfile or f.src), f.line)
    return "?"


def short(p):
    if p and "/src/" in p:
        return "src/" + p.split("/src/", 1)[1]
    return p or "?"
