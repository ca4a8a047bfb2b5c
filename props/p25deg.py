"""Powers of the unknown and of the 'nonlinear' flag in what a boundary condition stores."""
from sgv import ir, irbuild
from sgv.val import *
from sgv.cfg import *
from sgv.sx import base

ONE = frozenset({(0, 0)})
ZERO = frozenset()
CAP = 2

# opaque functions that are linear in the arrays: (arguments read, arguments written); -1 is the result
LINEAR = {
    "spec_Deriv1": ((2,), (3,)), "spec_Deriv2": ((2,), (3,)),
    "cart_partials": ((1,), (2, 3, 4)), "cart_partial_all": ((1,), tuple(range(2, 11))),
    "spec_Coeffs": ((1,), (2,)), "spec_Eval": ((1,), (2,)), "spec_interpolate": ((1,), (-1,)),
    "get_memline": ((0,), (1,)), "put_memline": ((1,), (0,)),
    "spec_analysis1": ((2,), (3,)), "spec_synthesis1": ((3,), (2,)),
    "spec_Coeffs_inplaneN": ((3,), (4,)), "spec_Eval_inplaneN": ((4,), (3,)),
    "spec_analysis1_inplaneN": ((4,), (5,)), "spec_synthesis1_inplaneN": ((5,), (4,)),
    "spec_interpolate_inplaneN": ((3,), (-1,)), "spec_interpolate_in_dir_at_i1_i2": ((4,), (-1,)),
}
BILINEAR = {"matrix_times_vector": ((0, 1), (2,)), "vector_times_matrix": ((0, 1), (2,)), "scalarproduct_vectors": ((0, 1), (-1,))}
IGNORE = ("printf", "fprintf", "puts", "putchar", "fflush", "free", "snprintf", "sprintf", "errorexit", "errorexits", "errorexiti")
MATH = ("sin", "cos", "tan", "exp", "log", "sqrt", "fabs", "pow", "atan", "atan2", "acos", "asin", "sinh", "cosh", "tanh", "erf", "hypot", "fmod", "floor", "ceil")


class Und(Exception):
    pass


def mul(a, b):
    return frozenset((min(CAP, x[0] + y[0]), min(1, x[1] + y[1])) for x in a for y in b)


class V:
    """what is known of a value: powers (numbers), class of variable (indices), cells pointed to, functions"""
    __slots__ = ("m", "t", "r", "fn", "c")

    def __init__(s, m=ZERO, t=ZERO, r=ZERO, fn=ZERO, c=None):
        s.m = m; s.t = t; s.r = r; s.fn = fn; s.c = c

    def join(s, o):
        return V(s.m | o.m, s.t | o.t, s.r | o.r, s.fn | o.fn)

    def eq(s, o):
        return s.m == o.m and s.t == o.t and s.r == o.r and s.fn == o.fn


class Deg:
    def __init__(s, P, f, roles, flag, flagval, initF):
        s.P = P; s.f = f; s.flag = flag; s.flagval = flagval
        s.val = {}
        s.cell = {}
        s.stores = {}
        s.why = None
        s.cg = cfg_of(P, f)
        for k, p in enumerate(f.params):
            n = p if isinstance(p, str) else p[0]
            t = f.ptypes[k]
            if k == flag:
                m = frozenset({(0, 1)}) if flagval is None else (ONE if flagval else ZERO)
                s.val[n] = V(m)
            elif k in roles:
                if t.startswith("ptr"):
                    s.val[n] = V(r=frozenset({("vl", roles[k]) if roles[k] in ("F", "U") else roles[k]}))
                else:
                    s.val[n] = V(ONE, t=frozenset({roles[k]}))
            elif t.startswith("ptr"):
                s.val[n] = V(r=frozenset({("ext",)}))
            else:
                s.val[n] = V(ONE)
        s.cell[("F",)] = initF
        s.cell[("U",)] = frozenset({(1, 0)})

    # ------------------------------------------------ constants
    def const(s, o, d=0):
        """integer value if it is decided by the flag and constants"""
        if isinstance(o, bool):
            return int(o)
        if isinstance(o, int):
            return o
        if not is_local(o) or d > 12:
            return None
        f = s.f
        for k, p in enumerate(f.params):
            if (p if isinstance(p, str) else p[0]) == o:
                return s.flagval if k == s.flag else None
        I = f.defs.get(o)
        if I is None:
            return None
        if I.op in ("sext", "zext", "trunc", "freeze"):
            return s.const(I.ops[0], d + 1)
        if I.op in ("icmp", "and", "or", "xor", "add", "sub", "mul"):
            a = s.const(I.ops[0], d + 1); b = s.const(I.ops[1], d + 1)
            if a is None or b is None:
                if I.op == "and" and 0 in (a, b):
                    return 0
                return None
            if I.op == "icmp":
                return int({"eq": a == b, "ne": a != b, "slt": a < b, "sle": a <= b, "sgt": a > b, "sge": a >= b}.get(I.x, False)) if I.x in ("eq", "ne", "slt", "sle", "sgt", "sge") else None
            return {"and": a & b, "or": a | b, "xor": a ^ b, "add": a + b, "sub": a - b, "mul": a * b}[I.op]
        if I.op == "select":
            c = s.const(I.ops[0], d + 1)
            return None if c is None else s.const(I.ops[1] if c else I.ops[2], d + 1)
        return None

    def reach(s):
        f = s.f
        seen = {s.cg.entry}; w = [s.cg.entry]; edges = set()
        while w:
            b = w.pop()
            t = f.blocks[b].instrs[-1]
            succ = list(s.cg.succ[b])
            if t.op == "br" and t.ops:
                c = s.const(t.ops[0])
                if c is not None:
                    succ = [t.x[0] if c else t.x[1]]
            for x in succ:
                edges.add((b, x))
                if x not in seen:
                    seen.add(x); w.append(x)
        return seen, edges

    # ------------------------------------------------ values
    def v(s, o):
        if isinstance(o, bool):
            return V(ONE if o else ZERO)
        if isinstance(o, (int, float)):
            return V(ONE if o != 0 else ZERO)
        if isinstance(o, tuple):
            if o[0] == "ce":
                return V(r=frozenset({("g", repr(o))}))
            return V(ONE)
        if o in ("null", "zeroinit", "undef", "poison", "none"):
            return V()
        if is_glob(o):
            return V(r=frozenset({("g", o)}), fn=frozenset({o}))
        return s.val.get(o, V())

    def run(s):
        f = s.f
        ok, edges = s.reach()
        for it in range(60):
            s.changed = False
            for b in f.order:
                if b not in ok:
                    continue
                for I in f.blocks[b].instrs:
                    s.step(I, edges)
            if not s.changed:
                return s
        raise Und("no fixed point")

    def put(s, I, x):
        o = s.val.get(I.name)
        n = x if o is None else o.join(x)
        if o is None or not o.eq(n):
            s.val[I.name] = n; s.changed = True

    def add(s, r, m):
        o = s.cell.get(r, ZERO)
        if not m <= o:
            s.cell[r] = o | m; s.changed = True

    def content(s, r):
        """powers in a piece of memory"""
        if r[0] in ("loc", "heap", "var"):
            return s.cell.get(r, ONE if r[0] == "var" and r not in s.written else ZERO)
        if r in (("F",), ("U",)):
            return s.cell[r]
        return ONE
    written = frozenset()

    def load(s, p, ty):
        out = V()
        for r in p.r:
            if r[0] == "vl":
                out = out.join(V(ONE, r=frozenset({("ext",)})) if ty == "ptr" else V(ONE))
            elif r[0] == "vlindex":
                out = out.join(V(r=frozenset({("idx", r[1])})))
            elif r[0] == "idx":
                out = out.join(V(ONE, t=frozenset({r[1]})))
            elif r[0] == "boxv":
                out = out.join(V(r=frozenset({("vbase",)})))
            elif r[0] == "vslot":
                out = out.join(V(r=frozenset({r[1]})))
            elif ty == "ptr":
                c = s.cell.get((r, "p"))
                out = out.join(c if c is not None else V(r=frozenset({("ext",)})))
            else:
                c = s.cell.get((r, "t"), ZERO)
                out = out.join(V(s.content(r), t=c))
        if not p.r:
            out = V(ONE, r=frozenset({("ext",)}) if ty == "ptr" else ZERO)
        return out

    def step(s, I, edges):
        op = I.op
        if op == "phi":
            x = V()
            for o, b in zip(I.ops, I.x):
                if (b, I.blk) in edges:
                    x = x.join(s.v(o))
            s.put(I, x); return
        if op == "alloca":
            s.put(I, V(r=frozenset({("loc", I.name)}))); return
        if op == "gep":
            p = s.v(I.ops[0])
            rs = set()
            ty = I.x
            names = []
            t = ty
            for k, x in enumerate(I.ops[2:]):
                if t.startswith("%"):
                    names.append(s.P.field(t, x)); st = s.P.structs.get(t); t = st[x] if st else ""
                elif t.startswith("["):
                    t = t[1:-1].split(" x ", 1)[1]
            for r in p.r:
                if r[0] == "vl":
                    rs.add(("vlindex", r[1]) if names[-1:] == ["index"] else ("ext",) if names else r)
                elif ty.startswith("%struct.tBOX") and names == ["v"]:
                    rs.add(("boxv",))
                elif r[0] == "vbase":
                    i = s.v(I.ops[1])
                    tg = i.t
                    if tg:
                        for q in tg:
                            rs.add(("vslot", (q,) if q in ("F", "U") else ("var", q)))
                    else:
                        rs.add(("vslot", ("var", s.indexname(I.ops[1]))))
                else:
                    rs.add(r)
            s.put(I, V(r=frozenset(rs))); return
        if op == "load":
            s.put(I, s.load(s.v(I.ops[0]), I.ty)); return
        if op == "store":
            x = s.v(I.ops[0]); p = s.v(I.ops[1])
            for r in p.r:
                if r == ("F",):
                    o = s.stores.get(I, ZERO)
                    if not x.m <= o:
                        s.changed = True
                    s.stores[I] = o | x.m
                    s.add(r, x.m)
                elif r == ("U",):
                    raise Und("the unknowns are written")
                elif r[0] in ("loc", "heap", "var"):
                    if r[0] == "var":
                        s.wr(r)
                    s.add(r, x.m)
                    if x.r or x.fn:
                        o = s.cell.get((r, "p"), V()); n = o.join(V(r=x.r, fn=x.fn))
                        if not n.eq(o):
                            s.cell[(r, "p")] = n; s.changed = True
                    if x.t:
                        o = s.cell.get((r, "t"), ZERO)
                        if not x.t <= o:
                            s.cell[(r, "t")] = o | x.t; s.changed = True
                elif any(m[0] for m in x.m):
                    raise Und("the unknowns reach memory that is not followed")
            return
        if op == "call":
            s.call(I); return
        if op in ("br", "switch", "ret", "unreachable"):
            return
        a = s.v(I.ops[0])
        if op in ("sext", "zext", "trunc", "sitofp", "uitofp", "fpext", "fptrunc", "fneg", "freeze", "bitcast", "fptosi", "fptoui"):
            if op == "fptosi" and any(m[0] for m in a.m):
                a = V(frozenset({(CAP, 0)}))
            s.put(I, a); return
        if op in ("icmp", "fcmp"):
            x = s.v(I.ops[1])
            if any(m[0] for m in a.m | x.m):
                raise Und("a decision depends on the unknowns")
            s.put(I, V(ONE)); return
        if op == "select":
            c = s.const(I.ops[0])
            x = s.v(I.ops[1]); y = s.v(I.ops[2])
            s.put(I, x.join(y) if c is None else x if c else y); return
        b = s.v(I.ops[1])
        if op in ("fadd", "fsub", "add", "sub", "or"):
            s.put(I, V(a.m | b.m, t=a.t | b.t)); return
        if op in ("fmul", "mul"):
            s.put(I, V(mul(a.m, b.m))); return
        if op == "fdiv":
            if b.m - ONE and a.m:
                s.put(I, V(frozenset((CAP, n) for _, n in a.m))); return
            s.put(I, V(a.m)); return
        if any(m[0] for m in a.m | b.m):
            raise Und(op)
        s.put(I, V(ONE if a.m | b.m else ZERO))

    def wr(s, r):
        if r not in s.written:
            s.written = s.written | {r}; s.changed = True

    def indexname(s, o, d=0):
        I = s.f.defs.get(o) if is_local(o) else None
        if I is None or d > 6:
            return repr(o)
        if I.op in ("sext", "zext"):
            return s.indexname(I.ops[0], d + 1)
        if I.op == "call" and is_glob(I.callee):
            t = s.P.string(s.f, I.ops[0]) if I.ops else None
            return t if t is not None else repr(o)
        if I.op == "add" and isinstance(I.ops[1], int):
            return "%s+%d" % (s.indexname(I.ops[0], d + 1), I.ops[1])
        return repr(o)

    def call(s, I):
        a = [s.v(o) for o in I.ops]
        if not is_glob(I.callee):
            fns = s.v(I.callee).fn
            if not fns:
                if any(r in (("F",), ("U",)) or r[0] in ("vl", "idx") for x in a for r in x.r) or any(m[0] for x in a for m in x.m):
                    raise Und("an indirect call")
                if I.name:
                    s.put(I, V(ONE, r=frozenset({("ext",)}) if I.ty == "ptr" else ZERO))
                return
            out = V()
            for g in fns:
                out = out.join(s.result(g, a))
            if I.name:
                s.put(I, out)
            return
        n = base(I.callee[1:])
        if n.startswith(("llvm.dbg", "llvm.lifetime", "llvm.assume", "llvm.stack")) or n in IGNORE:
            if I.name:
                s.put(I, V(ONE, r=frozenset({("ext",)})))
            return
        if n.startswith(("llvm.fmuladd", "llvm.fma.")):
            s.put(I, V(mul(a[0].m, a[1].m) | a[2].m)); return
        if n in MATH or n.startswith("llvm.") and n.endswith((".f64", ".f64.i32")):
            if n in ("fabs", "llvm.fabs.f64") or True:
                m = frozenset().union(*[x.m for x in a]) if a else ZERO
                s.put(I, V(frozenset({(CAP, 0)}) if any(q[0] for q in m) else ONE | frozenset((0, q[1]) for q in m)))
            return
        if n in ("finit", "isfinite", "isnan", "llvm.is.fpclass.f64", "__isnan", "__finite"):
            s.put(I, V(ONE)); return
        if n in ("calloc", "malloc", "cmalloc", "dmalloc", "imalloc", "dvector", "alloc"):
            s.put(I, V(r=frozenset({("heap", I.name)}))); return
        if n.startswith("llvm.memset"):
            return
        if n.startswith(("llvm.memcpy", "llvm.memmove")):
            m = ZERO; t = ZERO
            for r in a[1].r:
                m |= s.content(r); t |= s.cell.get((r, "t"), ZERO)
            for r in a[0].r:
                if r == ("F",):
                    s.stores[I] = s.stores.get(I, ZERO) | m
                    s.add(r, m)
                elif r[0] in ("loc", "heap", "var"):
                    s.add(r, m)
                    if t:
                        s.cell[(r, "t")] = s.cell.get((r, "t"), ZERO) | t
            return
        if n in LINEAR or n in BILINEAR:
            src, dst = LINEAR.get(n) or BILINEAR[n]
            if max(src + dst) >= len(a):
                raise Und(n)
            m = None
            for k in src:
                q = frozenset().union(*[s.content(r) for r in a[k].r]) if a[k].r else ONE
                m = q if m is None else (mul(m, q) if n in BILINEAR else m | q)
            for k in dst:
                if k == -1:
                    s.put(I, V(m)); continue
                for r in a[k].r:
                    if r == ("F",):
                        s.stores[I] = s.stores.get(I, ZERO) | m
                    if r == ("U",):
                        raise Und("the unknowns are written")
                    if r[0] == "var":
                        s.wr(r)
                    s.add(r, m)
            return
        # anything else: must not see the unknowns
        for k, x in enumerate(a):
            for r in x.r:
                if r in (("F",), ("U",)) or r[0] in ("vl", "vslot", "idx", "vlindex"):
                    raise Und("%s is given the unknowns" % n)
                if r[0] in ("loc", "heap", "var") and any(m[0] for m in s.content(r)):
                    raise Und("%s is given values of the unknowns" % n)
                if r[0] in ("loc", "heap"):
                    s.add(r, ONE)
            if any(m[0] for m in x.m):
                raise Und("%s is given values of the unknowns" % n)
        if I.name:
            tags = frozenset().union(*[x.t for x in a]) if a and n not in ("VarNComponents", "VarComponent") else ZERO
            s.put(I, V(ONE, r=frozenset({("ext",)}) if I.ty == "ptr" else ZERO))

    def result(s, g, a):
        f = s.P.body(g[1:])
        if f is None:
            return V(ONE)
        key = (g, tuple((x.m) for x in a))
        memo = s.P.__dict__.setdefault("_degret", {})
        if key not in memo:
            memo[key] = V(ONE)
            d = Deg(s.P, f, {}, None, None, ZERO)
            for p, x in zip(f.params, a):
                d.val[p if isinstance(p, str) else p[0]] = x
            d.run()
            out = V()
            for I in f.instrs():
                if I.op == "ret" and I.ops:
                    out = out.join(d.v(I.ops[0]))
            memo[key] = V(out.m)
        return memo[key]


def judge(c, P0, d, bc, roles, flag, jname):
    """one boundary function"""
    bd = irbuild.os.path.dirname
    names = {base(x.name) for x in P0.funcs.values()}
    keep = set(LINEAR) | set(BILINEAR)
    g0 = P0.body(bc) or P0.body("SGRID_" + bc)
    od = lambda p: bd(p) == d or bd(p).endswith("/boundary") and p.endswith("BCs_from_bfaces.c")
    T = ir.load_linked("main", od, [bc], lambda n: n in keep or n in names and not od(home(P0, n)) or ptrtarget(P0, n), "mem2reg,sroa,simplifycfg")
    f = T.body(bc) or T.body("SGRID_" + bc)
    if f is None:
        c.notes.append("%s: not found" % bc); return
    fk = flag[0] if flag else None
    res = {}
    for mode, val, init in (("linear", flag[2] if flag else 0, frozenset({(1, 0)})), ("both", None, frozenset({(1, 0), (0, 1)}))):
        if flag is None and mode == "both":
            continue
        try:
            res[mode] = Deg(T, f, roles, fk, val, init).run()
        except Und as e:
            c.notes.append("%s: the powers of the unknowns are not known (%s)" % (bc, e)); return
    c.count("boundary functions analysed")
    L = res["linear"]
    n = 0
    for I, m in sorted(L.stores.items(), key=lambda x: x[0].loc or (0, 0)):
        n += 1
        c.count("boundary values analysed")
        if any(x[0] == 0 for x in m):
            c.violation("%s inhomogeneous %s" % (bc, line(I)), where(I, f), "%s, linearised: the condition stored here contains a term without the correction" % bc)
        elif any(x[0] >= 2 for x in m):
            c.violation("%s nonlinear %s" % (bc, line(I)), where(I, f), "%s, linearised: the condition stored here is not linear in the correction" % bc)
        elif not m:
            c.notes.append("%s: a value stored for the linearised equations is always zero (%s)" % (bc, where(I, f)))
    if flag:
        for I, m in sorted(res["both"].stores.items(), key=lambda x: x[0].loc or (0, 0)):
            if any(x[0] and x[1] for x in m):
                c.violation("%s coefficient %s" % (bc, line(I)), where(I, f), "%s: the coefficient of the unknown differs between the nonlinear and the linearised condition" % bc)
    c.sample("%s: %d stored values homogeneous in the correction" % (bc, n))


def line(I):
    return ""


def home(P, n):
    f = P.body(n) or P.body("SGRID_" + n)
    return f.src if f is not None else ""


def ptrtarget(P, n):
    """functions that are called through pointers stay"""
    r = P.__dict__.get("_taken")
    if r is None:
        r = set()
        for f in P.funcs.values():
            for I in f.instrs():
                for o in (I.ops if I.op != "call" else I.ops):
                    if is_glob(o):
                        r.add(base(o[1:]))
        P._taken = r
    return n in r
