"""P32: a name finds its entry; an option is on if and only if it is a word of the text."""
from sgv import ir
from sgv.val import *
from sgv.cfg import *
from sgv.sx import base
from sgv.report import Check

RULE = ("Lookups by name (a loop over a table that compares the name field of entry i with an argument and returns i, or something stored in entry i) must compare the whole "
        "name, return what belongs to the entry that was compared, and have gone through index 0 up to the number of entries before reporting that there is none; wrappers must "
        "treat index 0 as found. The test whether a word is in a list is interpreted over an abstract text (each occurrence strstr finds is preceded by the start, a space or "
        "something else, and followed by a space, the end or something else): 1 is returned only after a whole word was found, 0 only after all occurrences were looked at. "
        "A declared default is stored only where no entry of that name exists.")

INEXACT = {"strncmp", "strcasecmp", "strncasecmp", "strstr", "strcasestr", "memcmp"}
EXACT = {"strcmp", "strcoll"}


class Und(Exception):
    pass


def canon(f, v, n=0):
    """linear form {atom: coefficient}; loads of scalar globals that the function never stores are atoms"""
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return {(): v} if v else {}
    d = f.defs.get(v) if is_local(v) else None
    if d is None or n > 10:
        return {str(v): 1}
    if d.op in ("sext", "zext", "trunc", "freeze"):
        return canon(f, d.ops[0], n + 1)
    if d.op in ("add", "sub"):
        a, b = canon(f, d.ops[0], n + 1), canon(f, d.ops[1], n + 1)
        r = dict(a)
        for k, c in b.items():
            r[k] = r.get(k, 0) + (c if d.op == "add" else -c)
        return {k: c for k, c in r.items() if c}
    if d.op == "load" and is_glob(d.ops[0]) and not any(I.op == "store" and I.ops[1] == d.ops[0] for I in f.instrs()):
        return {d.ops[0]: 1}
    return {v: 1}


def key(m):
    return tuple(sorted(m.items(), key=str))


def counted(f, cg, h):
    """(variable, start, bound) of a loop that counts up by one and leaves at its header"""
    B = f.blocks[h]
    t = B.instrs[-1]
    c = f.defs.get(t.ops[0]) if t.op == "br" and t.ops and is_local(t.ops[0]) else None
    if c is None or c.op != "icmp":
        return None
    body = cg.loops[h]
    for I in B.instrs:
        if I.op != "phi" or len(I.ops) != 2:
            continue
        ins = [(v, p) for v, p in zip(I.ops, I.x)]
        out = [v for v, p in ins if p not in body]; bk = [v for v, p in ins if p in body]
        if len(out) != 1 or len(bk) != 1:
            continue
        st = canon(f, bk[0]); st[I.name] = st.get(I.name, 0) - 1
        st = {k: v for k, v in st.items() if v}
        if st not in ({(): 1}, {(): -1}):
            continue
        a, b = canon(f, c.ops[0]), canon(f, c.ops[1])
        x = c.x; s = t.x if False else None
        inside = [q for q in B.succs if q in body]
        if len(inside) != 1:
            continue
        pol = B.succs[0] == inside[0]
        if I.name not in a and I.name in b:
            a, b = b, a
            x = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}.get(x, x)
        if a != {I.name: 1} or I.name in b:
            continue
        if not pol:
            x = {"slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "eq": "ne", "ne": "eq"}.get(x)
        lo = canon(f, out[0])
        one = lambda m, k: {q: z for q, z in list({**m, (): m.get((), 0) + k}.items()) if z}
        if st == {(): 1}:
            if x == "slt" or x == "ne":
                return I.name, lo, b
            if x == "sle":
                return I.name, lo, one(b, 1)
        else:
            # counts down: start down to bound
            if x == "sge":
                return I.name, b, one(lo, 1)
            if x == "sgt":
                return I.name, one(b, 1), one(lo, 1)
    return None


def entry(P, f, p):
    """(table, index, field) for the address p = &table[index].field"""
    d = f.defs.get(p) if is_local(p) else None
    fld = None; idx = {}
    for _ in range(6):
        if d is None or d.op != "gep":
            break
        st = d.x
        o = d.ops[1:]
        if len(o) > 1:
            fld = (st, o[-1])
        for k, c in canon(f, o[0]).items():
            idx[k] = idx.get(k, 0) + c
        nx = d.ops[0]
        d = f.defs.get(nx) if is_local(nx) else None
        if d is None or d.op != "gep":
            t = nx
            if d is not None and d.op == "load" and is_glob(d.ops[0]):
                t = d.ops[0]
            return t, {k: c for k, c in idx.items() if c}, fld
    return None


def edges(f, cg, b):
    """conditions (call or compare, value it has) that hold in block b"""
    r = []
    for a in cg.succ:
        t = f.blocks[a].instrs[-1]
        if t.op != "br" or not t.ops or not is_local(t.ops[0]) or len(f.blocks[a].succs) != 2:
            continue
        x, y = f.blocks[a].succs
        if x == y:
            continue
        for q, val in ((x, True), (y, False)):
            if cg.dom(q, b) and sum(1 for z in cg.succ if q in cg.succ[z]) == 1:
                r.append((t.ops[0], val))
    return r


def zerocmp(f, cond, val):
    """the call known to be zero / nonzero: (call, is zero)"""
    d = f.defs.get(cond)
    while d is not None and d.op in CASTS:
        d = f.defs.get(d.ops[0]) if is_local(d.ops[0]) else None
    if d is None:
        return None
    if d.op == "xor" and d.ops[1] in (1, True):
        return zerocmp(f, d.ops[0], not val)
    if d.op == "icmp" and d.x in ("eq", "ne") and d.ops[1] in (0, "null", False) and is_local(d.ops[0]):
        q = f.defs.get(d.ops[0])
        n = 0
        while q is not None and q.op in CASTS and n < 5:
            q = f.defs.get(q.ops[0]) if is_local(q.ops[0]) else None; n += 1
        z = (d.x == "eq") == val
        if q is not None and q.op == "call":
            return q, z
        if q is not None and q.op == "icmp":
            return zerocmp(f, q.name, not z)
    return None


def returns(f, cg):
    """(value, block it is decided in)"""
    for b in cg.succ:
        t = f.blocks[b].instrs[-1]
        if t.op == "ret" and t.ops:
            v = t.ops[0]
            st = [(v, b, 0)]
            while st:
                v, b2, n = st.pop()
                d = f.defs.get(v) if is_local(v) else None
                if d is not None and d.op == "phi" and n < 4 and not any(d.blk == h for h in cg.loops):
                    st += [(x, p, n + 1) for x, p in zip(d.ops, d.x) if p in cg.succ]
                else:
                    yield v, b2


def lookups(P):
    """functions that search a table for a name"""
    for f in P.funcs.values():
        if not any(I.op == "call" and is_glob(I.callee) and I.callee[1:] in EXACT | INEXACT for I in f.instrs()):
            continue
        cg = cfg_of(P, f)
        if not cg.loops or f.ret == "void":
            continue
        hits = []
        for v, b in returns(f, cg):
            if isinstance(v, (int, float)) or v in ("null",):
                continue
            for cond, val in edges(f, cg, b):
                z = zerocmp(f, cond, val)
                if z is None or not is_glob(z[0].callee) or z[0].callee[1:] not in EXACT | INEXACT:
                    continue
                I = z[0]
                if not any(I.blk in cg.loops[h] for h in cg.loops):
                    continue
                for k in (0, 1):
                    d = f.defs.get(I.ops[k]) if is_local(I.ops[k]) else None
                    if d is None or d.op != "load" or I.ops[1 - k] not in f.params:
                        continue
                    e = entry(P, f, d.ops[0])
                    if e is None or not is_glob(e[0]):
                        continue
                    hits.append((v, b, I, z[1], e))
        if hits:
            yield f, cg, hits


def table(c, P, f, cg, hits):
    n = base(f.name)
    c.count("lookups by name")
    for v, b, I, zero, (t, idx, fld) in hits:
        fn = I.callee[1:]
        exact = fn in EXACT
        if fn in ("strncmp", "memcmp"):
            L = canon(f, I.ops[2])
            if L.get((), 0) == 1:
                q = [f.defs.get(k) for k in L if k != ()]
                exact = len(q) == 1 and q[0] is not None and q[0].op == "call" and q[0].callee == "@strlen"
        c.count("matches")
        if not exact:
            c.violation("%s inexact" % n, where(I, f), "%s takes an entry whose name only partly matches (%s)" % (n, fn)); return
        if not zero:
            c.violation("%s inverted" % n, where(I, f), "%s returns an entry whose name differs from the one asked for" % n); return
        # what is returned belongs to that entry
        m = canon(f, v)
        if key(m) == key(idx):
            continue
        d = f.defs.get(v) if is_local(v) else None
        e = None
        if d is not None and d.op == "load":
            e = entry(P, f, d.ops[0])
        elif d is not None and d.op == "gep":
            e = entry(P, f, v)
        if e is not None and e[0] == t and key(e[1]) == key(idx):
            if d.op == "load" and not own(c, P, f, e):
                return
            continue
        if e is not None and e[0] == t or not [k for k in m if k != () and k not in idx] and m:
            c.violation("%s other" % n, where(I, f), "%s compares the name of one entry and returns another" % n); return
        raise Und("what is returned")
    # all entries are looked at before it is reported that there is none
    t = hits[0][4][0]
    iv = []
    for h in cg.loops:
        if not any(I.blk in cg.loops[h] for _, _, I, _, _ in hits):
            continue
        r = counted(f, cg, h)
        if r is None:
            raise Und("a loop")
        # the index compared is the loop variable
        for v, b, I, z, e in hits:
            if I.blk in cg.loops[h]:
                x = dict(e[1]); k = x.get(r[0])
                x[r[0]] = (k or 0) - 1
                sh = {q: w for q, w in x.items() if w}
                if k != 1:
                    raise Und("the index")
                add = lambda mm: {q: w for q, w in {**{a: mm.get(a, 0) + sh.get(a, 0) for a in set(mm) | set(sh)}}.items() if w}
                r = (r[0], add(r[1]), add(r[2])); break
        # leaves only at its header, or with a match
        for bb in cg.loops[h]:
            for q in cg.succ[bb]:
                if q not in cg.loops[h] and bb != h:
                    zs = [z for z in [zerocmp(f, f.blocks[bb].instrs[-1].ops[0], f.blocks[bb].succs[0] == q)] if z] if f.blocks[bb].instrs[-1].ops and is_local(f.blocks[bb].instrs[-1].ops[0]) else []
                    if not any(z[1] and z[0] in [x[2] for x in hits] for z in zs) and q not in cg.dead:
                        raise Und("a way out of the loop")
        iv.append((h, r))
    none = [(v, b) for v, b in returns(f, cg) if isinstance(v, int) and v < 0 or v == "null"]
    c.count("searches that find nothing", len(none))
    for v, b in none:
        seg = [(key(r[1]), key(r[2])) for h, r in iv if cg.dom(h, b)]
        cur = (); left = list(seg)
        while left:
            nx = [s for s in left if s[0] == cur and s[1] != cur]
            if not nx:
                break
            cur = nx[0][1]; left.remove(nx[0])
        if not (len(cur) == 1 and is_glob(cur[0][0]) and cur[0][1] == 1) or left:
            if not seg and any(True for _ in edges(f, cg, b)):
                continue       # a special argument
            c.violation("%s range" % n, where(f.blocks[iv[0][0]].instrs[0], f), "%s does not look at every entry before it reports that there is none" % n); return
        cnt = cur[0][0]
        if not counter(P, cnt, t):
            c.violation("%s count" % n, where(None, f), "%s looks at as many entries as %s says, which is not the number of entries" % (n, cnt)); return


def counter(P, g, t):
    """the number of entries of table t is kept in g: a new entry is made at t[g]"""
    seen = False
    for f in P.funcs.values():
        for I in f.instrs():
            if I.op == "gep" and len(I.ops) == 2:
                e = entry(P, f, I.name) if I.name else None
                if e and e[0] == t and key(e[1]) and len(e[1]) == 1:
                    k = next(iter(e[1]))
                    d = f.defs.get(k) if is_local(k) else None
                    if k == g or d is not None and d.op == "load" and d.ops[0] == g:
                        seen = True
    return seen


def own(c, P, f, e):
    """a field of an entry that is returned as its index holds its position in the table"""
    st, k = e[2] or (None, None)
    if st is None:
        raise Und("what is returned")
    ok = 0
    for h in P.funcs.values():
        for I in h.instrs():
            if I.op != "store" or not is_local(I.ops[1]):
                continue
            d = h.defs.get(I.ops[1])
            if d is None or d.op != "gep" or d.x != st or len(d.ops) < 3 or d.ops[-1] != k:
                continue
            w = entry(P, h, I.ops[1])
            if w is None or not is_glob(w[0]):
                continue
            a = gl(h, w[1]); b = gl(h, canon(h, I.ops[0]))
            c.count("positions stored in entries")
            if a == b:
                ok += 1
            elif len(a) == 1 and len([q for q in b if q[0] != ()]) == 1 and [q for q in b if q[0] != ()] == list(a):
                c.violation("%s position" % base(h.name), where(I, h), "%s stores a number that is not the position of the entry, which %s returns as its index" % (base(h.name), base(f.name)))
                return False
    if not ok:
        raise Und("where the index is stored")
    return True


def gl(f, m):
    """loads of globals named by the global"""
    r = {}
    for k, c in m.items():
        d = f.defs.get(k) if is_local(k) else None
        if d is not None and d.op == "load" and is_glob(d.ops[0]):
            k = d.ops[0]
        r[k] = r.get(k, 0) + c
    return tuple(sorted(r.items(), key=str))


def wrappers(c, P, found):
    """functions that use the index a lookup returns: every index from 0 on is an entry"""
    names = {f.name for f, _, _ in found}
    for f in P.funcs.values():
        if f.name in names:
            continue
        for I in list(f.instrs()):
            if I.op != "call" or not is_glob(I.callee):
                continue
            h = P.body(I.callee, f)
            if h is None or h.name not in names or not any(o in f.params for o in I.ops):
                continue
            cg = cfg_of(P, f)
            rs = list(returns(f, cg))
            rel = [(v, b) for v, b in rs if uses(f, v, I.name)]
            tabs = {e[0] for g, _, hs in found if g.name == h.name for *_, e in hs}
            oth = None
            for v, b in rs:
                d = f.defs.get(v) if is_local(v) else None
                e = entry(P, f, v if d.op == "gep" else d.ops[0]) if d is not None and d.op in ("gep", "load") and (d.op == "gep" or is_local(d.ops[0])) else None
                if e is not None and e[0] in tabs and key(e[1]) != key({I.name: 1}):
                    oth = d
            if oth is not None:
                c.violation("%s other entry" % base(f.name), where(oth, f), "%s looks a name up and returns another entry" % base(f.name)); continue
            if not rel:
                continue
            c.count("functions that pass a lookup on")
            for i in (0, 1, 5):
                r = outcome(P, f, cg, I, i)
                if r is None:
                    raise Und(base(f.name))
                if r - {"entry"}:
                    c.violation("%s index %d" % (base(f.name), i), where(I, f), "%s treats entry %d as missing" % (base(f.name), i)); break
            r = outcome(P, f, cg, I, -1)
            if r is None:
                raise Und(base(f.name))
            if "entry" in r and not all(not is_local(v) or key(canon(f, v)) == key({I.name: 1}) for v, b in rel):
                c.violation("%s missing" % base(f.name), where(I, f), "%s makes an entry out of the answer that there is none" % base(f.name))


def uses(f, v, x, n=0):
    if v == x:
        return True
    d = f.defs.get(v) if is_local(v) else None
    if d is None or n > 8 or d.op in ("call", "phi"):
        return False
    return any(uses(f, o, x, n + 1) for o in d.ops if is_local(o))


def outcome(P, f, cg, I, val):
    """what is returned when the lookup I gave val: 'entry' or 'none' """
    def ev(x, env, n=0):
        if isinstance(x, (bool, int)):
            return int(x)
        if x == I.name:
            return val
        if x in env:
            return env[x]
        d = f.defs.get(x) if is_local(x) else None
        if d is None or n > 12:
            return None
        if d.op in ("sext", "zext", "trunc", "freeze"):
            return ev(d.ops[0], env, n + 1)
        if d.op == "icmp":
            a, b = ev(d.ops[0], env, n + 1), ev(d.ops[1], env, n + 1)
            if a is None or b is None:
                return None
            return int({"eq": a == b, "ne": a != b, "slt": a < b, "sle": a <= b, "sgt": a > b, "sge": a >= b}.get(d.x, None)) if d.x in ("eq", "ne", "slt", "sle", "sgt", "sge") else None
        if d.op == "select":
            q = ev(d.ops[0], env, n + 1)
            return None if q is None else ev(d.ops[1] if q else d.ops[2], env, n + 1)
        return None
    res = set(); seen = set()
    st = [(I.blk, None, {})]
    while st:
        b, p, env = st.pop()
        if (b, p) in seen:
            continue
        seen.add((b, p))
        if b in cg.dead:
            res.add("stop") if b != I.blk else None
            continue
        env = dict(env)
        vals = {}
        for J in f.blocks[b].instrs:
            if J.op == "phi" and p is not None and p in J.x:
                v = J.ops[J.x.index(p)]
                vals[J.name] = v
        alias = dict(env.get("alias", {})); alias.update(vals); env["alias"] = alias
        t = f.blocks[b].instrs[-1]
        if t.op == "ret":
            v = t.ops[0] if t.ops else None
            for _ in range(6):
                if v in alias:
                    v = alias[v]
            q = f.defs.get(v) if is_local(v) else None
            if q is not None and q.op == "select":
                k = ev(q.ops[0], {})
                v = v if k is None else q.ops[1] if k else q.ops[2]
            res.add("entry" if is_local(v) and uses(f, v, I.name) else "none")
            continue
        if t.op == "br" and t.ops:
            k = ev(alias.get(t.ops[0], t.ops[0]), {})
            for q, w in zip(f.blocks[b].succs, (1, 0)):
                if k is None or k == w:
                    st.append((q, b, env))
        else:
            for q in cg.succ.get(b, []):
                st.append((q, b, env))
    return res


# ---------------------------------------------------------------- words of a list
class Words:
    """interprets a function over an abstract text"""

    STARTS = ("first", "space", "other"); ENDS = ("space", "nul", "other")

    def __init__(s, P, f, text, word):
        s.P = P; s.f = f; s.text = text; s.word = word
        s.cg = cfg_of(P, f)
        s.bad = None; s.steps = 0; s.done = 0

    def run(s):
        # state: block, previous block, environment, current occurrence (start, end) or None, whole word seen, all seen
        seen = set()
        st = [(s.f.order[0], None, (), None, False, None)]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            s.steps += 1
            if s.steps > 20000:
                raise Und("too many states")
            st += s.block(x)
        return s.bad

    def block(s, x):
        b, p, env, hit, whole, left = x
        f = s.f
        if b in s.cg.dead:
            return []
        e = dict(env)
        new = {}
        for I in f.blocks[b].instrs:
            if I.op == "phi":
                k = I.x.index(p)
                new[I.name] = s.val(I.ops[k], e)
        e.update(new)
        return s.go(b, [I for I in f.blocks[b].instrs if I.op != "phi"], e, hit, whole, left)

    def go(s, b, ins, e, hit, whole, left):
        f = s.f
        for k, I in enumerate(ins):
            if I.op == "call" and is_glob(I.callee):
                n = I.callee[1:]
                if n.startswith("llvm."):
                    continue
                if n == "strstr":
                    a, w = s.val(I.ops[0], e), s.val(I.ops[1], e)
                    if w != ("V", 0) or not isinstance(a, tuple) or a[0] not in ("P", "H") or a[0] == "P" and a[1] != 0:
                        raise Und("strstr")
                    res = []
                    if a[0] == "H":
                        # past the occurrence: by one character or by the word
                        if a[1] not in (1, "word"):
                            if a[1] == 0:
                                raise Und("finds the same again")
                            if a[1] == "word+1":
                                # a word that begins after the space is found all the same
                                if hit is not None and hit[1] == "nul":
                                    s.bad = s.bad or ("beyond", hit, I)
                            else:
                                raise Und("strstr")
                        if hit is None:
                            raise Und("strstr")
                        starts = ("space", "other")
                    elif hit is not None or left:
                        raise Und("starts again")
                    else:
                        starts = s.STARTS
                    # none (further)
                    q = dict(e); q = {n2: (("old",) if isinstance(v, tuple) and v[0] == "H" else v) for n2, v in q.items()}
                    q1 = dict(q); q1[I.name] = 0
                    res += s.go(b, ins[k + 1:], q1, None, whole, True)
                    if not (a[0] == "H" and hit[1] == "nul"):
                        for z in starts:
                            for y in s.ENDS:
                                q1 = dict(q); q1[I.name] = ("H", 0)
                                res += s.go(b, ins[k + 1:], q1, (z, y), whole or (z != "other" and y != "other"), y == "nul")
                    return res
                if n == "strlen":
                    a = s.val(I.ops[0], e)
                    if a == ("V", 0):
                        e[I.name] = "word"
                    elif a == ("H", 0):
                        e[I.name] = "rest"
                    elif a == ("P", 0):
                        e[I.name] = "all"
                    else:
                        raise Und("strlen")
                    continue
                h = s.P.body(I.callee, f)
                if h is not None and h.name in s.finders and any(o in f.params for o in I.ops):
                    res = []
                    q = dict(e); q[I.name] = ("R",)
                    return s.go(b, ins[k + 1:], q, hit, whole, left)
                raise Und("calls %s" % n)
            if I.op in ("br", "ret", "store", "switch", "unreachable"):
                if I.op == "store" or I.op == "switch":
                    raise Und(I.op)
                break
            e[I.name] = s.ev(I, e, hit)
        t = f.blocks[b].instrs[-1]
        if t.op == "ret":
            v = s.val(t.ops[0], e)
            if not isinstance(v, (int, bool)):
                raise Und("result")
            s.done += 1
            if v and not whole:
                s.bad = s.bad or ("part", hit, t)
            if not v and whole:
                s.bad = s.bad or ("missed", hit, t)
            if not v and not left:
                s.bad = s.bad or ("early", hit, t)
            return []
        succ = s.f.blocks[b].succs
        keep = s.keep(e)
        if t.op == "br" and t.ops:
            v = s.val(t.ops[0], e)
            if isinstance(v, (int, bool)):
                return [(succ[0] if v else succ[1], b, keep, hit, whole, left)]
            raise Und("a condition")
        return [(q, b, keep, hit, whole, left) for q in succ]

    def keep(s, e):
        return tuple(sorted(((k, v) for k, v in e.items()), key=str))

    def val(s, v, e):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if v == "null":
            return 0
        if v in e:
            return e[v]
        if v == s.word:
            return ("V", 0)
        if v == s.text:
            return ("P", 0)
        if v in s.f.params:
            return ("param", v)
        raise Und("a value")

    def ev(s, I, e, hit):
        o = lambda k: s.val(I.ops[k], e)
        if I.op in ("sext", "zext", "trunc", "freeze", "bitcast"):
            return o(0)
        if I.op == "gep":
            a = o(0)
            if a == ("R",):
                if I.ops[-1] == s.valfield:
                    return ("&text",)
                return ("&other",)
            d = o(len(I.ops) - 1)
            if isinstance(a, tuple) and a[0] in ("H", "P", "old"):
                if a[0] == "old":
                    return a
                return (a[0], s.add(a[1], d))
            raise Und("an address")
        if I.op == "load":
            a = o(0)
            if a == ("&text",):
                return ("P", 0)
            if isinstance(a, tuple) and a[0] == "H":
                if a[1] == -1:
                    if hit[0] == "first":
                        raise Und("reads in front of the text")
                    return 32 if hit[0] == "space" else 120
                if a[1] == "word":
                    return {"space": 32, "nul": 0, "other": 120}[hit[1]]
                if a[1] in ("rest", "all"):
                    return 0
            if a == ("P", "all"):
                return 0
            raise Und("a character")
        if I.op == "icmp":
            a, b = o(0), o(1)
            if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
                return int({"eq": a == b, "ne": a != b, "slt": a < b, "sle": a <= b, "sgt": a > b, "sge": a >= b, "ult": a < b, "ugt": a > b, "ule": a <= b, "uge": a >= b}[I.x])
            nn = [x for x in (a, b) if isinstance(x, int) and x == 0]
            if nn and any(isinstance(x, tuple) for x in (a, b)) and I.x in ("eq", "ne"):
                return int(I.x == "ne")
            if isinstance(a, tuple) and isinstance(b, tuple) and I.x in ("eq", "ne", "ugt", "ule", "uge", "ult"):
                c = s.order(a, b, hit)
                return int({"eq": c == 0, "ne": c != 0, "ugt": c > 0, "uge": c >= 0, "ult": c < 0, "ule": c <= 0}[I.x])
            raise Und("a comparison")
        if I.op in ("and", "or", "xor", "add", "sub"):
            a, b = o(0), o(1)
            if isinstance(a, int) and isinstance(b, int):
                return {"and": a & b, "or": a | b, "xor": a ^ b, "add": a + b, "sub": a - b}[I.op]
            if I.op == "add":
                return s.add(a, b)
            raise Und(I.op)
        if I.op == "select":
            return o(1) if o(0) else o(2)
        raise Und(I.op)

    def add(s, a, b):
        if a == 0 or a is False:
            return b
        if b == 0 or b is False:
            return a
        if isinstance(a, int) and isinstance(b, int):
            return a + b
        if {a, b} == {"word", 1}:
            return "word+1"
        raise Und("an offset")

    def order(s, a, b, hit):
        if "old" in (a[0], b[0]):
            raise Und("an occurrence seen before")
        ends = {("H", "rest"), ("P", "all")}
        if hit is not None and hit[1] == "nul":
            ends.add(("H", "word"))
        if a in ends and b in ends:
            return 0
        if (a in ends) != (b in ends):
            x = b if a in ends else a
            if x[0] == "H" and x[1] in ("word", 0) or x[0] == "P" and x[1] == 0:
                return 1 if a in ends else -1
        if {a[0], b[0]} == {"H", "P"} and a[1] == b[1] == 0:
            c = 0 if hit[0] == "first" else 1
            return c if a[0] == "H" else -c
        if a[0] == b[0] and a[1] == b[1]:
            return 0
        raise Und("a comparison")


def words(c, P, found):
    names = {f.name for f, _, _ in found}
    pf = set(names)
    # functions that return the entry itself
    for f in P.funcs.values():
        cs = [I for I in f.instrs() if I.op == "call" and is_glob(I.callee) and P.body(I.callee, f) is not None and P.body(I.callee, f).name in names]
        if cs and any(uses(f, v, I.name) for v, b in returns(f, cfg_of(P, f)) for I in cs):
            pf.add(f.name)
    for f in P.funcs.values():
        if len(f.params) < 2:
            continue
        fi = [I for I in f.instrs() if I.op == "call" and is_glob(I.callee) and P.body(I.callee, f) is not None and P.body(I.callee, f).name in pf]
        if len(fi) != 1:
            continue
        use = [I for I in f.instrs() if I.op == "call" and I.callee in ("@strstr", "@strtok", "@strcmp", "@strncmp", "@strchr", "@strsep", "@strlen")]
        if not use or not any(I.op == "ret" and I.ops for I in f.instrs()):
            continue
        if not any(o in f.params for I in use if I.callee in ("@strstr", "@strcmp", "@strncmp", "@strlen") for o in I.ops):
            continue
        n = base(f.name)
        S = [fl for fl in [P.fields.get(x.x) for x in f.instrs() if x.op == "gep" and x.ops[0] == fi[0].name] if fl and "value" in fl]
        word = [p for p in f.params if p not in fi[0].ops]
        if not S or not word:
            continue
        c.count("tests for a word in a list")
        try:
            w = Words(P, f, None, word[0])
            w.finders = pf; w.valfield = S[0].index("value")
            bad = w.run()
            if w.done == 0:
                raise Und("no result")
        except (Und, KeyError, ValueError, IndexError) as x:
            c.notes.append("%s: not decided (%s)" % (n, x)); continue
        c.sample("%s: %d states of text and occurrence" % (n, w.steps))
        if bad:
            kind, hit, t = bad
            c.violation("%s %s" % (n, kind), where(None, f), {
                "part": "%s says that a word is in the list when only a part of another word matches" % n,
                "missed": "%s says that a word is not in the list after it was found" % n,
                "beyond": "%s looks behind the end of the text after an occurrence at its end",
                "early": "%s says that a word is not in the list without looking beyond a longer word that ends with it" % n}[kind])


def defaults(c, P, found):
    """declaring something that exists leaves its text alone"""
    pf = {f.name for f, _, _ in found}
    for f in P.funcs.values():
        cs = [I for I in f.instrs() if I.op == "call" and is_glob(I.callee) and P.body(I.callee, f) is not None and (P.body(I.callee, f).name in pf or base(P.body(I.callee, f).name) == "findparameter")]
        st = [I for I in f.instrs() if I.op == "store" and is_glob(I.ops[1]) and any(x.op == "gep" for x in f.instrs())]
        if len(cs) != 1:
            continue
        # creates entries: writes a counter that a lookup uses as its bound
        cnt = {k[0] for g, cg, h in found for hh in cg.loops for r in [counted(g, cg, hh)] if r for k in r[2].items() if is_glob(k[0])}
        if not any(I.ops[1] in cnt for I in st):
            continue
        cg = cfg_of(P, f)
        c.count("functions that declare")
        for I in f.instrs():
            if I.op != "store" or not is_local(I.ops[1]):
                continue
            d = f.defs.get(I.ops[1])
            if d is None or d.op != "gep" or len(d.ops) < 3:
                continue
            fl = P.fields.get(d.x)
            if not fl or not isinstance(d.ops[-1], int) or fl[d.ops[-1]] != "value":
                continue
            ok = False
            for cond, val in edges(f, cg, I.blk):
                q = f.defs.get(cond)
                if q is not None and q.op == "icmp" and q.ops[0] == cs[0].name:
                    if q.ops[1] == "null" and (q.x == "eq") == val or isinstance(q.ops[1], int) and not isinstance(q.ops[1], bool) and (q.x, val, q.ops[1]) in (("slt", True, 0), ("sge", False, 0), ("eq", True, -1), ("ne", False, -1), ("sgt", False, -1)):
                        ok = True
            if not ok:
                c.violation("%s default" % base(f.name), where(I, f), "%s replaces the text of a parameter that is already set by the declared default" % base(f.name))


def run(tier):
    c = Check("P32", tier, RULE)
    for which in ("main", "alt") if tier == "thorough" else ("main",):
        P = ir.load(which, "seq")
        found = list(lookups(P))
        for f, cg, hits in found:
            try:
                table(c, P, f, cg, hits)
            except Und as x:
                c.notes.append("%s: not decided (%s)" % (base(f.name), x))
        try:
            wrappers(c, P, found)
        except Und as x:
            c.notes.append("functions that pass a lookup on: not decided (%s)" % x)
        words(c, P, found)
        defaults(c, P, found)
    c.floor("lookups by name", 1)
    c.floor("functions that pass a lookup on", 1)
    c.sample("lookups: " + ", ".join(sorted(base(f.name) for f, _, _ in found)))
    return c
