"""P17: Cartesian derivatives obey the chain rule."""
import ast, os, re
from sgv import ir, irbuild, algv, tensor
from sgv.val import *
from sgv.cfg import *
from sgv.sx import base
from sgv.report import Check

RULE = ("Every function that turns derivatives with respect to the box coordinates into Cartesian ones, stores or looks up derivatives of the coordinate "
        "transformation, or converts such derivatives into each other is value-numbered with the spectral derivatives as named arrays and the "
        "transformation functions dX_dx[i][m], ddX_dxdx[i][m][n] of the box as named numbers.  What it stores has to be the number the chain rule gives, "
        "component by component, for all points of the box, for each combination of stored and computed transformations.  Derivatives of tensors are followed "
        "down to these functions: each component has to hold the derivative its place in the declared component order says.")

COORD = "/Coordinates/"
A, B3 = (1, 2, 3), ((1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 3))
XYZ = "xyz"
UNROLL = "mem2reg,simplifycfg"
D8 = ("o", "P")
PM = algv.PM


def body(P, n):
    return P.body(n) or P.body("SGRID_" + n)


class Und(Exception):
    pass


class W(algv.Walk):
    def __init__(s, P, f, F, M, args=None):
        algv.Walk.__init__(s, P, f, F, args=args, hook=M.hook, atom=M.atom)
        s.icall = M.icall; s.M = M; M.w = s

    def compare(s, I, a, b):
        if isinstance(a, algv.Ptr) and isinstance(b, algv.Ptr) and I.x in ("eq", "ne"):
            null = [x for x in (a, b) if x.root == "null"]
            if len(null) == 1:
                p = a if b.root == "null" else b
                r = s.M.isnull(p)
                if r is not None:
                    return r == (I.x == "eq")
        return algv.Walk.compare(s, I, a, b)


def layout(P):
    """variable name -> (first name of its AddVar run, position): how the components of variables declared one after the other follow each other"""
    f = body(P, "sgrid_Coordinates")
    if f is None:
        return None
    r = {}
    n = 0
    for I in sorted((i for i in f.instrs() if i.op == "call" and is_glob(i.callee) and base(i.callee[1:]) == "AddVar" and i.loc), key=lambda i: (i.loc[1],)):
        nm, ti = P.string(f, I.ops[0]), P.string(f, I.ops[1])
        if nm is None or ti is None:
            return None
        cs = tensor.components(ti) if ti else [("", ())]
        for c, _ in cs or []:
            r[nm + c] = n; n += 1
    return r


def meaning(nm):
    """what a stored transformation variable holds"""
    m = re.match(r"^d([XYZ])d([xyz])$", nm)
    if m:
        return ("J", "XYZ".index(m.group(1)) + 1, XYZ.index(m.group(2)) + 1)
    m = re.match(r"^dd([XYZ])dd([xyz])([xyz])$", nm)
    if m:
        a, b = sorted((XYZ.index(m.group(2)) + 1, XYZ.index(m.group(3)) + 1))
        return ("JJ", "XYZ".index(m.group(1)) + 1, a, b)
    if nm in ("x", "y", "z"):
        return ("x", XYZ.index(nm) + 1)
    if nm in ("X", "Y", "Z"):
        return ("X", "XYZ".index(nm) + 1)
    return None


class Model:
    def __init__(s, P, F, lay, null, stored=True):
        s.P = P; s.F = F; s.lay = lay; s.null = null; s.stored = stored
        s.base = F.H("Ind of the first"); s.idx = {}; s.label = {}
        s.sing = []
        s.unk = []

    def index(s, nm):
        v = (s.base + s.lay[nm]) % PM if nm in s.lay else s.F.H("Ind", nm)
        s.idx[v] = nm
        return v

    def name(s, k):
        """component name of box->v[k]"""
        if k in s.idx:
            return s.idx[k]
        d = (k - s.base) % PM
        for nm, o in s.lay.items():
            if o == d:
                return nm
        return None

    def vname(s, p):
        """p: address of, or pointer loaded from, box->v[..] -> name"""
        r = p.root
        if isinstance(r, tuple) and r[0] == "ld" and isinstance(r[1], tuple) and r[1] == ("ld", "BOX", (("f", "v"),)):
            o = r[2][0][1] if r[2] else 0
            return s.name(o * pow(8, -1, PM) % PM)
        return None

    def slot(s, p):
        """box->dX_dx[i][m] etc. -> (field, i, m, ...)"""
        r = p.root
        if isinstance(r, tuple) and r[0] == "ld" and r[1] == "BOX" and r[2] and r[2][0][0] == "f":
            fld = r[2][0][1]
            o = s.F.small(r[2][1][1]) if len(r[2]) > 1 else 0
            if o is None:
                return None
            o = int(o) // 8
            dim = {"x_of_X": 1, "dX_dx": 2, "dx_dX": 2, "ddX_dxdx": 3, "Sing_d_dx": 1}.get(fld)
            if dim is None:
                return None
            q = []
            for _ in range(dim):
                q.append(o % 4); o //= 4
            return (fld,) + tuple(reversed(q))
        return None

    def isnull(s, p):
        q = s.slot(p)
        if q is not None:
            return s.null.get(q[0], False)
        n = s.vname(p)
        if n is not None:
            m = meaning(n)
            if m:
                return s.null.get(m[0] + "stored", False)
            return False
        return None

    def num(s, m):
        if m[0] == "JJ":
            return s.F.H("JJ", m[1], *sorted(m[2:]))
        return s.F.H(*m)

    def arr(s, p):
        k = (p.root, p.path + (D8,))
        return k

    def lab(s, p):
        k = self_key(p)
        if k in s.label:
            return s.label[k]
        n = s.vname(p)
        return ("v", n, ()) if n else ("a", repr(k), ())

    def D(s, p, *dirs):
        l = s.lab(p)
        return (l[0], l[1], tuple(sorted(l[2] + dirs)))

    def setarr(s, p, l):
        k = self_key(p)
        s.label[k] = l
        s.w.mem[s.arr(p)] = s.lnum(l)

    def lnum(s, l):
        if not l[2] and l[0] == "v":
            m = meaning(l[1])
            if m:
                return s.num(m)
        return s.F.H("L", l)

    def hook(s, w, I, n, a):
        if n in ("Ind", "IndLax"):
            if isinstance(a[0], tuple):
                return s.index(a[0][1])
            return None
        ptr = lambda x: isinstance(x, algv.Ptr)
        if n.startswith("spec_Deriv1") and len(a) == 4 and ptr(a[2]) and ptr(a[3]):
            q = s.F.small(a[1])
            if q is None:
                raise Und("direction")
            s.setarr(a[3], s.D(a[2], int(q)))
            return 0
        if n.startswith("spec_Deriv2") and len(a) == 4 and ptr(a[2]) and ptr(a[3]):
            q = s.F.small(a[1])
            if q is None:
                raise Und("direction")
            s.setarr(a[3], s.D(a[2], int(q), int(q)))
            return 0
        if n.startswith("spec_allDerivs") and len(a) == 11:
            ls = [s.D(a[1], k) for k in A] + [s.D(a[1], *k) for k in B3]
            for p, l in zip(a[2:], ls):
                s.setarr(p, l)
            return 0
        if n in ("cart_partials", "cart_partial_all") and n in s.opaque:
            ls = [s.D(a[1], k) for k in A] + [s.D(a[1], *k) for k in B3]
            for p, l in zip(a[2:], ls):
                s.setarr(p, l)
            return 0
        return None
    opaque = ()

    def icall(s, w, I, p, a):
        if not isinstance(p, algv.Ptr):
            raise Und("indirect call")
        q = s.slot(p)
        if q is None:
            raise Und("indirect call")
        if q[0] == "Sing_d_dx":
            s.sing.append((q[1], [repr(x) for x in a]))
            return 0
        X = [s.num(("X", k)) for k in A]
        if len(a) != 5 or a[2:] != X:
            return s.F.H("elsewhere", q, repr(a))
        k = w.canon(algv.Ptr("point", (("o", 8 * a[1] % PM),))) if isinstance(a[1], int) else None
        if k is None or k[1] != (D8,):
            if k is not None and s.F.small(a[1]) is None:
                raise Und("a function of the transformation is called for another point")
            return s.F.H("elsewhere", q, repr(a[1]))
        if q[0] == "x_of_X":
            return s.num(("x", q[1]))
        if q[0] == "dX_dx":
            return s.num(("J",) + q[1:])
        if q[0] == "dx_dX":
            return s.num(("K",) + q[1:])
        if q[0] == "ddX_dxdx":
            if q[2] > q[3]:
                return s.F.H("not set", q)
            return s.num(("JJ",) + q[1:])
        raise Und("indirect call")

    def atom(s, k, ty):
        if k[1] and k[1][-1] == ("f", "inactive"):
            return 0
        if ty == "double" and k[1] == (D8,) or ty == "double" and len(k[1]) == 1 and k[1][0][0] == "o":
            p = algv.Ptr(k[0])
            n = s.vname(p)
            if n is not None:
                if k[1] != (D8,) and s.at is not None and k[1][0][1] != s.at:
                    return None
                m = meaning(n)
                if m and s.null.get(m[0] + "stored"):
                    return s.F.H("not stored", n)
                if m:
                    return s.num(m)
        return None
    at = None


def self_key(p):
    return (p.root, p.path)


class Judge:
    def __init__(s, c, f):
        s.c = c; s.f = f; s.bad = set(); s.boxes = []

    def at(s, w, k):
        I = w.by.get(k)
        return where(I, s.f) if I is not None and I.loc else where(None, s.f)

    def eq(s, w, k, want, what, sample=None):
        s.c.count("components compared")
        have = w.mem.get(k)
        fn = base(s.f.name)
        if have != want:
            for q in w.by:
                if q[1] and q[1][-1][0] == "o" and q[1][-1] != D8 and isinstance(q[0], tuple) and q[0][0] in ("arg", "ld") and w.F.small(q[1][-1][1]) is None:
                    raise Und("a store to an unknown point")
            if (what) not in s.bad:
                s.bad.add(what)
                s.c.violation("%s %s" % (fn, what), s.at(w, k), "%s: %s is %s" % (fn, what, "not set" if have is None else "not what the chain rule gives"))
            return
        d = w.dom.get(k)
        if d is not None and w.by.get(k) is not None and sorted(d) not in s.full(w) and s.near(w, d):
            s.c.violation("%s points" % fn, s.at(w, k), "%s: %s is not computed for all points" % (fn, what))

    def near(s, w, d):
        """the loops are those over all points but for a first or last point, or one is missing"""
        full = s.full(w)
        if len(d) < len(full[0]):
            return True
        for q in full:
            a = [x for x in d if x not in q]; b = [x for x in q if x not in d]
            if len(a) == len(b) == 1:
                a = ast.literal_eval(a[0]); b = ast.literal_eval(b[0])
                e = [w.F.small(w.F.sub(x, y)) for x, y in zip(a, b)]
                if None not in e:
                    return True
        return False

    def full(s, w):
        F = w.F
        m = lambda n: F.H("mem", ("BOX", (("f", n),)))
        r = []
        for e in (m("nnodes"), F.mul(F.mul(m("n1"), m("n2")), m("n3"))):
            r.append(sorted(s.boxes + [repr((0, e))]))
        return r


def mat(F, m, i, j):
    return m[i - 1][j - 1]


def inv3(F, m):
    g = lambda i, j: m[i % 3][j % 3]
    c = [[F.sub(F.mul(g(j + 1, i + 1), g(j + 2, i + 2)), F.mul(g(j + 1, i + 2), g(j + 2, i + 1))) for j in range(3)] for i in range(3)]
    det = 0
    for k in range(3):
        det = F.add(det, F.mul(m[0][k], c[k][0]))
    if det == 0:
        raise algv.Retry("singular")
    d = F.inv(det)
    return [[F.mul(c[i][j], d) for j in range(3)] for i in range(3)], det


def ssum(F, xs):
    r = 0
    for x in xs:
        r = F.add(r, x)
    return r


def prod(F, *xs):
    r = 1
    for x in xs:
        r = F.mul(r, x)
    return r


def seeds(tier):
    return range(6 if tier == "thorough" else 2)


def attempt(c, f, fn):
    """run fn(seed field) for some seeds; note what cannot be decided"""
    try:
        fn()
        c.count("functions analysed")
        return True
    except (Und, algv.Giveup, algv.Retry) as e:
        c.notes.append("%s: not decided (%s)" % (base(f.name), e))
        return False


# ---------------------------------------------------------------- A: Cartesian derivatives
def cartesian(c, P, lay, tier):
    for n in sorted(P.funcs):
        f = P.funcs[n]
        if not re.match(r"^cart_partial", base(n)):
            continue
        np = len(f.ptypes)
        if np not in (5, 11):
            continue
        for trafo in (False, True):
            for st in ((True, True), (True, False), (False, True), (False, False)) if trafo else ((True, True),):
                for sd in seeds(tier):
                    F = algv.Field(sd); F.generic = True
                    M = Model(P, F, lay, {"x_of_X": not trafo, "ddX_dxdx": False, "Jstored": not st[0], "JJstored": not st[1], "Sing_d_dx": sd % 2 == 0})
                    w = W(P, f, F, M)
                    J = Judge(c, f)
                    def go():
                        w.run()
                        if w.aborted:
                            c.violation("%s stops" % base(n), base(n), "%s stops the run" % base(n)); return
                        u = algv.Ptr(("arg", 1))
                        l0 = ("a", repr(self_key(u)), ())
                        d = {k: M.lnum(("a", l0[1], (k,))) for k in A}
                        dd = {k: M.lnum(("a", l0[1], k)) for k in B3}
                        dd.update({(b, a): v for (a, b), v in list(dd.items())})
                        Jm = lambda i, m: M.num(("J", i, m))
                        JJ = lambda i, m, k: M.num(("JJ", i, m, k))
                        for m in A:
                            want = ssum(F, [prod(F, Jm(i, m), d[i]) for i in A]) if trafo else d[m]
                            J.eq(w, (("arg", 1 + m), (D8,)), want, "du/d%s" % XYZ[m - 1])
                        if np == 11:
                            for k, (m, q) in enumerate(B3):
                                want = F.add(ssum(F, [prod(F, JJ(i, m, q), d[i]) for i in A]),
                                             ssum(F, [prod(F, Jm(i, m), Jm(j, q), dd[i, j]) for i in A for j in A])) if trafo else dd[m, q]
                                J.eq(w, (("arg", 5 + k), (D8,)), want, "d^2u/d%sd%s" % (XYZ[m - 1], XYZ[q - 1]))
                        if np == 5 and trafo and sd % 2 and M.sing:
                            for k, a in M.sing:
                                ok = a == [repr(M.boxarg), repr(u)] + [repr(algv.Ptr(("arg", x))) for x in (2, 3, 4)] if False else a[1:] == [repr(algv.Ptr(("arg", x))) for x in (1, 2, 3, 4)]
                                if not ok:
                                    c.violation("%s singular points" % base(n), base(n), "%s: derivatives at singular points are computed from other arrays" % base(n))
                            c.count("singular point calls", len(M.sing))
                    attempt(c, f, go)
        c.sample("%s: chain rule for u_m%s" % (base(n), " and u_mn" if np == 11 else ""))


# ---------------------------------------------------------------- B, C, D: storing and looking up
def stores(c, P, lay, tier):
    for n in sorted(P.funcs):
        f = P.funcs[n]; b = base(n)
        if b == "compute_xyz_dXYZdxyz_ddXYZddxyz":
            for trafo in (True, False):
                for st in ((True, True), (True, False), (False, False)) if trafo else ((True, True),):
                    for sd in seeds(tier):
                        F = algv.Field(sd); F.generic = True
                        M = Model(P, F, lay, {"x_of_X": not trafo, "Jstored": not st[0], "JJstored": not st[1]})
                        w = W(P, f, F, M)
                        J = Judge(c, f)
                        J.boxes = [repr((0, F.H("mem", (("arg", 0), (("f", "nboxes"),)))))]
                        def go():
                            w.run()
                            seen = {}
                            for k in w.mem:
                                if k[1] == (D8,):
                                    nm = M.vname(algv.Ptr(k[0]))
                                    if nm:
                                        seen[nm] = k
                            for nm in lay:
                                m = meaning(nm)
                                if m is None or m[0] == "X":
                                    continue
                                if m[0] == "x":
                                    want = M.num(m) if trafo else M.num(("X", m[1]))
                                elif trafo and (st[0] if m[0] == "J" else st[1]):
                                    want = M.num(m)
                                else:
                                    continue
                                J.eq(w, seen.get(nm, (nm, ())), want, "the stored " + nm)
                        attempt(c, f, go)
            c.sample("%s: each stored component holds the function of its name" % b)
        m = re.match(r"^(d{1,2})([XYZ])_((?:d[xyz])+)_generic$", b)
        if m and len(f.ptypes) == 5 and len(m.group(1)) == len(m.group(3)) // 2:
            for sd in seeds(tier):
                F = algv.Field(sd); F.generic = True
                M = Model(P, F, lay, {})
                w = W(P, f, F, M)
                M.at = F.mul(8, F.H("arg", 1))
                def go():
                    w.run()
                    want = M.num(("J" if len(m.group(1)) == 1 else "JJ", "XYZ".index(m.group(2)) + 1) + tuple(XYZ.index(x) + 1 for x in m.group(3).replace("d", "")))
                    c.count("components compared")
                    if w.ret != want:
                        c.violation("%s looks up" % b, where(None, f), "%s does not return the stored component of its name" % b)
                attempt(c, f, go)
        if b in ("init_dXdx_generic", "init_ddXdxdx_generic"):
            second = b.startswith("init_dd")
            for sd in seeds(tier):
                F = algv.Field(sd); F.generic = True
                M = Model(P, F, lay, {})
                w = W(P, f, F, M)
                J = Judge(c, f)
                def go():
                    w.run()
                    L = lambda i, *d: M.lnum(("v", XYZ[i - 1], tuple(sorted(d))))
                    if second:
                        j = [[M.num(("J", i, k)) for k in A] for i in A]
                    else:
                        j, _ = inv3(F, [[L(i, k) for k in A] for i in A])
                    seen = {}
                    for k in w.mem:
                        if k[1] == (D8,):
                            nm = M.vname(algv.Ptr(k[0]))
                            if nm:
                                seen[nm] = k
                    for nm in lay:
                        m = meaning(nm)
                        if m is None or m[0] != ("JJ" if second else "J"):
                            continue
                        if second:
                            i, x, y = m[1:]
                            want = F.neg(ssum(F, [prod(F, mat(F, j, i, n_), mat(F, j, m_, x), mat(F, j, l, y), L(n_, m_, l)) for n_ in A for m_ in A for l in A]))
                        else:
                            want = mat(F, j, m[1], m[2])
                        J.eq(w, seen.get(nm, (nm, ())), want, "the stored " + nm)
                attempt(c, f, go)
            c.sample("%s: %s derivatives of the inverse transformation" % (b, "second" if second else "first"))


def wiring(c, P):
    """the generic functions are installed where their names say"""
    for f in P.funcs.values():
        if COORD not in f.src:
            continue
        for I in f.instrs():
            if I.op != "store" or not is_glob(I.ops[0]):
                continue
            g = base(I.ops[0][1:])
            m = re.match(r"^(d{1,2})([XYZ])_((?:d[xyz])+)_generic$", g)
            if not m or len(m.group(1)) != len(m.group(3)) // 2:
                continue
            want = (("dX_dx",) if len(m.group(1)) == 1 else ("ddX_dxdx",)) + ("XYZ".index(m.group(2)) + 1,) + tuple(XYZ.index(x) + 1 for x in m.group(3).replace("d", ""))
            a = I.ops[1]; ix = []; fld = None
            while is_local(a) and f.defs.get(a) is not None and f.defs[a].op == "gep" and fld is None:
                d = f.defs[a]
                for x in reversed(gep_path(P, d)[0]):
                    if x[0] == "f":
                        fld = x[2]; break
                    ix.append(x[1])
                a = d.ops[0]
            have = (fld,) + tuple(reversed(ix))
            if fld is None or not all(isinstance(x, int) for x in ix):
                continue
            c.count("generic functions installed")
            if have != want:
                c.violation("%s installed" % g, where(I, f), "%s: %s is installed as %s%s" % (base(f.name), g, fld, "".join("[%d]" % x for x in have[1:])))


# ---------------------------------------------------------------- F: matrices
def mats(c, P, tier):
    """conversions between the derivatives, by their names"""
    def arg(F, k, *ix):
        o = 0
        for x in ix:
            o = 4 * o + x
        return F.H("mem", (("arg", k), (("o", 8 * o % PM),)))
    out = lambda k, *ix: (("arg", k), (("o", 8 * (ix[0] * 4 + ix[1] if len(ix) == 2 else ix[0] * 16 + ix[1] * 4 + ix[2]) % PM),))

    def sym(F, k, i, a, b):
        a, b = min(a, b), max(a, b)
        return arg(F, k, i, a, b)

    def inverse(F):
        m = [[arg(F, 1, i, j) for j in A] for i in A]
        r, _ = inv3(F, m)
        return {out(0, i, j): r[i - 1][j - 1] for i in A for j in A}, None

    def transpose(F):
        return {out(0, i, j): arg(F, 1, j, i) for i in A for j in A}, None

    def det(F):
        _, d = inv3(F, [[arg(F, 0, i, j) for j in A] for i in A])
        return {}, d

    def product(F):
        return {out(0, i, j): ssum(F, [F.mul(arg(F, 1, i, k), arg(F, 2, k, j)) for k in A]) for i in A for j in A}, None

    def ddinverse(F):
        return {out(0, i, j, k): F.neg(ssum(F, [prod(F, arg(F, 1, i, n), arg(F, 1, m, j), arg(F, 1, l, k), sym(F, 2, n, m, l)) for n in A for m in A for l in A]))
                for i in A for j in A for k in A if k >= j}, None

    def ddchain(F):
        return {out(0, i, m, n): F.add(ssum(F, [F.mul(arg(F, 1, i, j), arg(F, 4, j, m, n)) for j in A]),
                                       ssum(F, [prod(F, arg(F, 2, j, m), arg(F, 2, k, n), sym(F, 3, i, j, k)) for j in A for k in A]))
                for i in A for m in A for n in A if n >= m}, None
    T = {"dXdx_from_dxdX": inverse, "dxdX_from_dXdx": inverse, "inverse3Dmatrix_from_3Dmatrix": inverse, "transpose3Dmatrix_from_3Dmatrix": transpose,
         "DetOf3Dmatrix": det, "product_of_3Dmatrices": product, "ddXdxdx_from_dXdx_ddxdXdX": ddinverse,
         "dxdX_from_dxdU_dUdX": product, "ddxdXdX_from_dxdU_dUdX_ddxdUdU_ddUdXdX": ddchain}
    for n in T:
        f = body(P, n)
        if f is None:
            continue
        for sd in seeds(tier):
            F = algv.Field(sd); F.generic = True
            w = algv.Walk(P, f, F)
            w.concrete = lambda h: True
            def go():
                w.run()
                want, ret = T[n](F)
                for k, v in want.items():
                    c.count("components compared")
                    if w.mem.get(k) != v:
                        o = int(F.small(k[1][0][1])) // 8
                        c.violation("%s" % n, where(None, f), "%s: component [%s] of the result is wrong" %
                                    (n, "][".join(str(o // 4 ** q % 4) for q in ((2, 1, 0) if "dd" in n[:3] else (1, 0)))))
                        break
                if ret is not None:
                    c.count("components compared")
                    if w.ret != ret:
                        c.violation(n, where(None, f), "%s: the result is wrong" % n)
            attempt(c, f, go)
        c.sample("%s: checked by its definition" % n)


# ---------------------------------------------------------------- G: tensors
RANK = {"S": [""], "Sa": ["x", "y", "z"], "Sab": ["xx", "xy", "xz", "yy", "yz", "zz"]}
DERIV = r"^(First|FirstAndSecond|all|D_and_DD_)(?:DerivsOf|of)_(S|Sa|Sab)$"


def tensors(c, P, lay, tier):
    for n in sorted(P.funcs):
        f = P.funcs[n]
        m = re.match(DERIV, base(n))
        if not m:
            continue
        comps = RANK[m.group(2)]
        second = m.group(1) != "First"
        if len(f.ptypes) != (4 if second else 3):
            continue
        for sd in seeds(tier):
            F = algv.Field(sd); F.generic = True
            M = Model(P, F, lay, {})
            M.opaque = ("cart_partials", "cart_partial_all")
            w = W(P, f, F, M)
            ar = lambda k, o: (("ld", ("ld", "BOX", (("f", "v"),)), (("o", 8 * (F.H("arg", k) + o) % PM),)), ())
            names = {}
            for o, x in enumerate(comps):
                names[repr(ar(1, o))] = x
            def go():
                w.run()
                outs = [(2, 3 * o + k - 1, x, (k,)) for o, x in enumerate(comps) for k in A]
                if second:
                    outs += [(3, 6 * o + q, x, k) for o, x in enumerate(comps) for q, k in enumerate(B3)]
                for a, o, x, k in outs:
                    c.count("components compared")
                    l = M.label.get(ar(a, o))
                    # arrays are labelled by what they were computed from
                    src = names.get(l[1]) if l is not None and l[0] == "a" else None
                    if src != x or l[2] != tuple(sorted(k)):
                        d = "".join(XYZ[y - 1] for y in k)
                        c.violation("%s S%s_%s" % (base(n), x, d), where(None, f),
                                    "%s: S_%s,%s %s" % (base(n), x, d, "is not set" if l is None else "holds the derivative %s of component %s" %
                                                        ("".join(XYZ[y - 1] for y in l[2]), src if src is not None else "of something else")))
            attempt(c, f, go)
        c.sample("%s: component order" % base(n))


def users(c, which, seen, decl):
    """the variables that hold derivatives of tensors have the components in that order"""
    P = ir.load(which, "seq")
    for f in P.funcs.values():
        for I in f.instrs():
            if I.op != "call" or not is_glob(I.callee):
                continue
            m = re.match(DERIV, base(I.callee[1:]))
            if not m or COORD in f.src or (f.src, I.loc) in seen:
                continue
            seen.add((f.src, I.loc))
            comps = RANK[m.group(2)]
            for k, o in enumerate(I.ops[2:], 1):
                d = f.defs.get(o) if is_local(o) else None
                if d is None or d.op != "call" or base(str(d.callee)[1:]) not in ("Ind", "IndLax"):
                    continue
                nm = P.string(f, d.ops[0])
                if nm is None:
                    continue
                want = [x + y for x in comps for y in ("x", "y", "z")] if k == 1 else [x + XYZ[a - 1] + XYZ[b - 1] for x in comps for a, b in B3]
                if not nm.endswith(want[0]):
                    c.violation("%s %s" % (base(f.name), nm), where(I, f), "%s: %s is not the first component of a tensor of derivatives" % (base(f.name), nm)); continue
                root = nm[:-len(want[0])]
                ti = decl.get(root)
                if ti is None:
                    continue
                c.count("uses of tensors of derivatives")
                have = [x for s in ti for x in [[y for y, _ in (tensor.components(s) or [])]]]
                if not any(h == want for h in have):
                    c.violation("%s %s order" % (base(f.name), root), where(I, f), "%s: the components of %s, declared with indices %s, are not in the order in which the derivatives are stored" %
                                (base(f.name), root, ", ".join(sorted(ti))))


def declarations(which):
    P = ir.load(which, "seq")
    r = {}
    for f in P.funcs.values():
        for I in f.instrs():
            if I.op == "call" and is_glob(I.callee) and base(I.callee[1:]).startswith("AddVar") and len(I.ops) >= 2:
                a, b = P.string(f, I.ops[0]), P.string(f, I.ops[1])
                if a is not None and b is not None:
                    r.setdefault(a, set()).add(b)
    return r


def run(tier):
    c = Check("P17", tier, RULE)
    P0 = ir.load("main", "seq")
    lay = layout(P0)
    c.require(lay and "dXdx" in lay and "ddXddxx" in lay, "the declarations of the stored coordinate derivatives")
    names = [base(f.name) for f in P0.funcs.values() if COORD in f.src]
    want = [n for n in names if re.match(r"^cart_partial", n) or n == "compute_xyz_dXYZdxyz_ddXYZddxyz" or re.match(r"^d.*_generic$", n) or re.match(r"^init_d.*_generic$", n)]
    D = [n for n in names if re.match(DERIV, n)]
    c.require("cart_partials" in names and "cart_partial_all" in names, "cart_partials and cart_partial_all")
    spec = {base(f.name) for f in P0.funcs.values() if COORD not in f.src}
    P = ir.load_linked("main", lambda p: COORD in p, want, lambda n: n in spec, UNROLL)
    cartesian(c, P, lay, tier)
    stores(c, P, lay, tier)
    wiring(c, P0)
    MT = [n for n in names if re.search(r"3Dmatri", n) or re.search(r"_from_d", n)]
    mats(c, ir.load_linked("main", lambda p: COORD in p, MT, lambda n: False, UNROLL), tier)
    T = ir.load_linked("main", lambda p: COORD in p, D, lambda n: n in ("cart_partials", "cart_partial_all"), UNROLL)
    tensors(c, T, lay, tier)
    decl = {}; seen = set()
    for which in ("main", "alt"):
        for k, v in declarations(which).items():
            decl.setdefault(k, set()).update(v)
    for which in ("main", "alt"):
        users(c, which, seen, decl)
    c.floor("functions analysed", 10)
    c.floor("components compared", 200)
    c.assume += ["the functions of the box return dX_i/dx_m and d^2X_i/dx_m dx_n at the point they are given (this is another property)",
                 "the spectral derivatives along the box coordinates are what their names say",
                 "points where the determinant of the transformation vanishes are outside"]
    return c
