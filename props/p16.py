"""P16: derivatives of a coordinate transformation belong to the transformation."""
import os, re
from concurrent.futures import ProcessPoolExecutor
from sgv import ir, irbuild, algv
from sgv.algv import Field, Walk, Jet, Ptr, Retry, Giveup, PM
from sgv.val import *
from sgv.cfg import *
from sgv.sx import base
from sgv.report import Check, AnalysisError

COORD = "/src/utility/Coordinates/"
INIT = "init_CoordTransform_And_Derivs"
OPAQUE = ("CubedSphere_sigma", "CubedSphere_dsigma_dA", "CubedSphere_dsigma_dB")


def body(P, n):
    return P.body(n) or P.body("SGRID_" + n)


# ---------------------------------------------------------------- the tables
def tables(P):
    """{(name, version flags): {slot: function}}: the functions installed for each choice of coordinates"""
    f = body(P, INIT)
    names = []

    def hook(sel):
        def h(w, I, n, a):
            if n in algv.FLAGS and len(a) == 2:
                if isinstance(a[0], Ptr) and isinstance(a[1], tuple):
                    if a[1][1] not in names:
                        names.append(a[1][1])
                    return 1 if a[1][1] == sel else 0
            return None
        return h

    def go(sel, seed):
        w = Walk(P, f, Field(seed), hook=hook(sel))
        w.run()
        return w
    go(None, 0)
    out = {}
    for nm in list(names):
        for seed in range(12):
            w = go(nm, seed)
            t = {}
            for k, v in w.mem.items():
                if k[0] != "BOX" or not k[1]:
                    continue
                fld = k[1][0][1]
                off = k[1][1][1] if len(k[1]) > 1 and k[1][1][0] == "o" else 0
                if isinstance(v, Ptr) and isinstance(v.root, tuple) and v.root[0] == "g":
                    t[slot(P, fld, off)] = base(v.root[1])
                elif isinstance(v, Ptr) and v.root == "null":
                    t[slot(P, fld, off)] = None
            t = {k: v for k, v in t.items() if k and v}
            if t and t not in [x for (n2, _), x in out.items() if n2 == nm]:
                out[(nm, seed)] = t
    return out


def slot(P, fld, off):
    n = {"x_of_X": 1, "dX_dx": 2, "dx_dX": 2, "ddX_dxdx": 3, "XYZ_Of_xyz": 0}.get(fld)
    if n is None:
        return None
    ix = []
    o = off // 8
    for _ in range(n):
        ix.append(o % 4); o //= 4
    return (fld,) + tuple(reversed(ix))


# ---------------------------------------------------------------- evaluation
class World:
    """one choice of all the numbers a transformation depends on"""

    def __init__(s, P, table, seed, atoms, sigma):
        s.P = P; s.table = table
        s.f0 = next(iter(f for f in (body(P, n) for n in table.values()) if f))
        s.F = F = Field(seed, 2)
        F.generic = True
        s.atoms = atoms; s.sigma = sigma
        X0 = F.H("X1"); X0 = X0 * X0 % PM
        s.X = [Jet({(): v, (i,): 1}) for i, v in enumerate((X0, F.H("X2"), F.H("X3")))]
        s.read = 0

    def xc(s, i):
        return s.F.H("xc", i)

    def atom(s, k, ty):
        p = tuple(x[1] for x in k[1] if x[0] == "f")
        if p and p[-1] == "xc" and k[1][-1][0] == "o" and isinstance(k[1][-1][1], int):
            return s.xc(k[1][-1][1] // 8)
        if k[0] == "BOX" or (isinstance(k[0], tuple) and k[0][0] == "ld"):
            for n, v in s.atoms.items():
                if p and p[-1] == n:
                    return v
        if isinstance(k[0], tuple) and k[0][0] == "g" and ty != "ptr" and "." in k[0][1]:
            g = s.P.glob(s.f0, k[0][1]) or s.P.glob(s.f0, "SGRID_" + k[0][1])
            if g is not None and not g.const and isinstance(g.init, (int, float)):
                return s.F.const(g.init)         # function-static: first call
        return None

    def hook(s, w, I, n, a):
        F = s.F
        if n in OPAQUE and s.sigma:
            si = a[1]
            A, B = a[-2], a[-1]
            if n == "CubedSphere_sigma":
                return s.jetcall("sigma%d" % si, [A, B], ["dA", "dB"])
            return s.jetcall("sigma%d" % si, [A, B], ["dA", "dB"], n[-2:])
        if n == "Getv" and len(a) == 2 and a[0] == ("s", "Coordinates_AnsorgNS_Bshift"):
            return 0
        if n in OPAQUE:
            if n == "CubedSphere_sigma":
                return F.H("s", a[1])
            return 0
        return None

    def jetcall(s, nm, args, parts, which=None):
        F = s.F
        v0 = tuple(a.t.get((), 0) if isinstance(a, Jet) else a for a in args)
        q = F.H(nm, v0); q = q * q % PM
        if which is not None:
            parts, nm = None, nm + which
            q = F.H(nm, v0)
            if any(isinstance(a, Jet) and any(v for k, v in a.t.items() if k) for a in args):
                return Jet({(): q, ("?",): 1})       # its derivatives are not known
            return q
        r = q
        for a, p in zip(args, parts):
            if isinstance(a, Jet):
                h = Jet({k: v for k, v in a.t.items() if k})
                r = F.add(r, F.mul(F.H(nm + p, v0), h))
        return r

    def icall(s, w, I, p, a):
        if not isinstance(p, Ptr) or not (isinstance(p.root, tuple) and p.root[0] in ("ld", "g")):
            return None
        path = p.root[2] if p.root[0] == "ld" else p.path
        if p.root[1] == "BOX" and path:
            sl = slot(s.P, path[0][1], path[1][1] if len(path) > 1 and path[1][0] == "o" else 0)
            fn = s.table.get(sl)
            if fn is not None:
                return s.call(fn, a)
        if p.root[0] == "ld" and isinstance(p.root[1], tuple) and p.root[1][0] == "g":
            nm = p.root[1][1]
            return s.sigmafn(nm, a)
        return None

    SIG = re.compile(r"^(.*?)(d*)(sigma[pm])((?:_d\w+)?)$")

    def sigmafn(s, nm, a):
        """sigma_+-(B, phi) and its derivatives are functions given by the user"""
        m = s.SIG.match(nm)
        if not m:
            return None
        d = re.findall(r"d(B|phi)", m.group(4))
        if len(d) != len(m.group(2)):
            return None
        F = s.F
        args = a[-2:]
        v0 = tuple(x.t.get((), 0) if isinstance(x, Jet) else x for x in args)
        # B=1 lies on the axis, where a surface has one sigma for all phi
        val = lambda dd: F.H(m.group(3), tuple(sorted(dd)), v0) if v0[0] != 1 else 0 if "phi" in dd else F.H(m.group(3), tuple(sorted(dd)), 1)
        r = val(d)
        hs = [(n, Jet({k: v for k, v in x.t.items() if k})) for x, n in zip(args, ("B", "phi")) if isinstance(x, Jet)]
        i2 = pow(2, -1, PM)
        for n, h in hs:
            r = F.add(r, F.mul(val(d + [n]), h))
            for o, g in hs:
                r = F.add(r, F.mul(val(d + [n, o]) * i2 % PM, F.mul(h, g)))
        return r

    def call(s, fn, args, mem=None):
        f = body(s.P, fn)
        if f is None:
            raise Giveup("no body of " + fn)
        w = Walk(s.P, f, s.F, args=dict(enumerate(args)), hook=s.hook, atom=s.atom)
        w.icall = s.icall
        if mem is not None:
            w.mem = dict(mem)
        w.run()
        if w.aborted:
            raise Retry("stops the run")
        s.last = w
        return w.ret

    def fun(s, sl, plain=False):
        fn = s.table.get(sl)
        if fn is None:
            return None
        X = [x.t[()] if plain else x for x in s.X]
        return s.call(fn, [Ptr("BOX"), s.F.H("ind")] + X)


def positive(nm, W):
    """numbers that are positive in the domain of a transformation"""
    F = W.F
    X = [x.t[()] for x in W.X]
    if nm == "tan_stretch":
        t = F.H("call", "Getd", repr([repr(("s", "tan_stretch_s"))]))
        return [(1 - F.fn("fabs", x * t % PM)) % PM for x in X]
    if nm == "Spherical3":
        c = F.H("call", "Getd", repr([repr(("s", "Coordinates_Spherical3_c"))]))
        th = F.pi() * F.fn("sinh", c * X[1] % PM) * F.inv(2 * F.fn("sinh", c)) % PM
        return [F.fn("cos", th)]
    if nm == "compactSphericalDF":
        r0 = F.H("call", "Getd", repr([repr(("s", "compactSphericalDF_r0"))]))
        return [r0, (r0 + F.fn("tan", X[0] * F.pi() % PM * F.inv(2) % PM)) % PM]
    if nm.startswith("AnsorgNS"):
        return [X[0], (1 - X[0]) % PM, X[1], (1 - X[1]) % PM]
    return []


def variants(nm):
    """(description, atoms, sigma given by variables) covering the choices a transformation depends on"""
    if "CubedSphere" in nm:
        for typ in range(0, 6):
            for dom in range(6):
                for sig in (0, 1):
                    yield ("type %d domain %d%s" % (typ, dom, " variable surface" if sig else ""),
                           {"dom": dom, "type": typ, "iSurf": sig, "idSurfdX": sig}, bool(sig))
    else:
        yield "", {}, False


def jacobian(F, x):
    """J[n][M] = dx^n/dX^M, its inverse, and H[n][j][k] = d2x^n/dX^M dX^L  dX^M/dx^j dX^L/dx^k"""
    D = F.deriv
    J = [[D(xi, (j,)) for j in range(3)] for xi in x]
    c = lambda i, j: (J[(i + 1) % 3][(j + 1) % 3] * J[(i + 2) % 3][(j + 2) % 3] - J[(i + 1) % 3][(j + 2) % 3] * J[(i + 2) % 3][(j + 1) % 3]) % PM
    det = sum(J[0][j] * c(0, j) for j in range(3)) % PM
    if det == 0:
        raise Singular("the map is singular")
    d = pow(det, -1, PM)
    M = [[c(j, i) * d % PM for j in range(3)] for i in range(3)]
    H = []
    for xi in x:
        h = [[D(xi, (a, b)) for b in range(3)] for a in range(3)]
        H.append([[sum(h[a][b] * M[a][j] % PM * M[b][k] for a in range(3) for b in range(3)) % PM for k in range(3)] for j in range(3)])
    return J, M, H


class Singular(Retry):
    pass


class Tally:
    """what the paths say about one statement"""

    def __init__(s):
        s.r = {}; s.n = {}; s.gave = set(); s.paths = 0

    def slot(s, W, key, thunk, want, kind, desc):
        """compare thunk() with want(): decided, differing, undecided"""
        F = W.F
        snap = F.snapshot()
        try:
            a = thunk(); n0 = F.fresh
            b = want()
            a = a.t.get((), 0) if isinstance(a, Jet) else a
            b = b.t.get((), 0) if isinstance(b, Jet) else b
            rel = F.fresh == snap[-1][1]
            e = s.r.setdefault((kind, key), [0, 0, 0, desc, 0])
            e[0] += 1; e[4] += rel
            if a != b:
                e[1] += 1; e[2] += rel; e[3] = desc
        except Retry:
            pass
        except Giveup as x:
            s.gave.add(str(x))
        finally:
            F.restore(snap)

    def bad(s):
        # a difference counts if all numbers in it are related, or if it is there on every path
        return {k: e[3] for k, e in s.r.items() if e[2] or (e[1] and e[1] == e[0] >= 4)}

    def thin(s):
        return not s.r or any(not e[2] and not e[4] and e[0] < 4 for e in s.r.values())


def check(P, nm, t, seeds):
    """the functions installed for one choice of coordinates"""
    T = Tally()
    for desc, atoms, sig in variants(nm):
        done = 0
        for seed in range(seeds * 400):
            if done >= (4 * seeds if not desc and T.thin() else seeds):
                break
            W = World(P, t, seed, atoms, sig)
            F = W.F
            try:
                if any(F.legendre(q) < 0 for q in positive(nm, W)):
                    continue
                x = [W.fun(("x_of_X", i)) for i in (1, 2, 3)]
                if None in x:
                    T.gave.add("no map"); break
                J, M, H = jacobian(F, x)
            except Retry:
                continue
            except Giveup as e:
                T.gave.add(str(e)); break
            done += 1
            T.paths += 1
            v = lambda q: q.t.get((), 0) if isinstance(q, Jet) else q
            for i in (1, 2, 3):
                for j in (1, 2, 3):
                    for sl, what, b in ((("dX_dx", i, j), "is not the inverse derivative of the map", M[i - 1][j - 1]),
                                        (("dx_dX", i, j), "is not the derivative of the map", J[i - 1][j - 1])):
                        if sl in t:
                            T.slot(W, sl, lambda: W.fun(sl, True), lambda: b, what, desc)
                    for k in range(j, 4):
                        sl = ("ddX_dxdx", i, j, k)
                        if sl in t:
                            b = -sum(M[i - 1][m] * H[m][j - 1][k - 1] for m in range(3)) % PM
                            T.slot(W, sl, lambda: W.fun(sl, True), lambda: b, "is not the second inverse derivative of the map", desc)
            if ("XYZ_Of_xyz",) in t:
                inverse(T, W, t, [v(q) for q in x], desc)
    return T


def inverse(T, W, t, x, desc):
    """XYZ_Of_xyz at x(X) gives X back, for the side of the center the box lies on"""
    F = W.F
    dom = W.atoms.get("dom", 0)
    pm = 1 if dom % 2 else -1
    d = dom // 2
    rx = (x[d] - W.xc(d + 1)) % PM
    if F.legendre(pm * rx % PM) < 0:
        return
    fn = t[("XYZ_Of_xyz",)]
    for i in range(3):
        def back(i=i):
            W.call(fn, [Ptr("BOX"), F.H("ind")] + x + [Ptr(("out", k)) for k in range(3)])
            return W.last.mem[(("out", i), ())]
        T.slot(W, ("XYZ_Of_xyz", i + 1), back, lambda: W.X[i].t[()], "is not the inverse of the map", desc)


def bynames(P, fn, seeds):
    """a function writing a map and its first and second derivatives"""
    T = Tally()
    f = body(P, fn)
    ints = [k for k, t in enumerate(f.ptypes) if t == "i32"]
    for dom in range(4) if len(ints) > 1 else (None,):
        done = 0
        for seed in range(seeds * 400):
            if done >= seeds:
                break
            W = World(P, {("x_of_X", 1): fn}, seed, {}, False)
            F = W.F
            if any(F.legendre(q) < 0 for q in positive("AnsorgNS", W)):
                continue
            xs = iter(W.X)
            out = iter((Ptr("X"), Ptr("D"), Ptr("DD")))
            args = []
            for k, ty in enumerate(f.ptypes):
                if ty == "double":
                    args.append(next(xs))
                elif ty == "i32":
                    args.append(F.H("ind") if k == ints[0] else dom)
                else:
                    args.append(Ptr("BOX") if k == 0 else next(out))
            snap = F.snapshot()
            try:
                W.call(fn, args)
                mem = W.last.mem
                g = lambda r, o: mem.get((r, (("o", o),) if o else ()))
                x = [g("X", 8 * i) for i in (1, 2, 3)]
                if None in x:
                    T.gave.add("map not stored"); break
            except Retry:
                F.restore(snap)
                continue
            except Giveup as e:
                T.gave.add(str(e)); break
            done += 1
            T.paths += 1
            desc = "" if dom is None else "domain %d" % dom
            for i in (1, 2, 3):
                for j in (1, 2, 3):
                    q = g("D", 32 * i + 8 * j)
                    if q is not None:
                        T.slot(W, ("d", i, j), lambda: q, lambda: F.deriv(x[i - 1], (j - 1,)), "is not the derivative of the map", desc)
                    for k in range(j, 4):
                        q = g("DD", 128 * i + 32 * j + 8 * k)
                        if q is not None:
                            T.slot(W, ("dd", i, j, k), lambda: q, lambda: F.deriv(x[i - 1], (j - 1, k - 1)), "is not the second derivative of the map", desc)
    return T


def complexfn(P, fn, bs, dirs, seeds):
    """a derivative named after its function"""
    T = Tally()
    done = 0
    for seed in range(seeds * 60):
        if done >= seeds:
            break
        W = World(P, {("x_of_X", 1): fn}, seed, {}, False)
        F = W.F
        X = [Jet({(): F.H("x"), (0,): 1}), Jet({(): F.H("y"), (1,): 1})]
        try:
            r = W.call(bs, X)
        except Retry:
            continue
        except Giveup as e:
            T.gave.add(str(e)); break
        done += 1
        T.paths += 1
        T.slot(W, (fn,), lambda: W.call(fn, [F.H("x"), F.H("y")]), lambda: F.deriv(r, tuple("xy".index(q) for q in dirs)), "is not the derivative of " + bs, "")
    return T


def angles(P, seeds):
    """the angles of a cubed sphere: derivatives, and r(sin th cos ph, sin th sin ph, cos th) = x - center"""
    T = Tally()
    A2, A6, R, X = "ThetaPhi_of_AB_CubSph", "ThetaPhi_dThetaPhidAB_of_AB_CubSph", "r_dr_dlam_of_lamAB_CubSph", "xyz_of_lamAB_CubSph"
    if any(body(P, f) is None for f in (A2, A6, R, X)):
        T.gave.add("no angles of a cubed sphere")
        return T
    for dom in range(6):
        for typ in range(4):
            done = 0
            for seed in range(seeds * 60):
                if done >= seeds:
                    break
                W = World(P, {("x_of_X", 1): A2}, seed, {"dom": dom, "type": typ, "iSurf": 1, "idSurfdX": 1}, True)
                F = W.F
                lam, A, B = W.X
                v = lambda q: q.t.get((), 0) if isinstance(q, Jet) else q
                o = [Ptr(("out", k)) for k in range(6)]
                g = lambda k: W.last.mem.get((("out", k), ()))
                try:
                    W.call(A2, [Ptr("BOX"), A, B] + o[:2])
                    th, ph = g(0), g(1)
                    W.call(R, [Ptr("BOX"), F.H("ind"), lam, A, B] + o[:2])
                    r, dr = g(0), g(1)
                    W.call(X, [Ptr("BOX"), F.H("ind"), lam, A, B] + o[:3])
                    x = [g(k) for k in range(3)]
                except Retry:
                    continue
                except Giveup as e:
                    T.gave.add(str(e)); break
                if None in x + [th, ph, r, dr]:
                    T.gave.add("results not stored"); break
                done += 1
                T.paths += 1
                desc = "domain %d type %d" % (dom, typ)
                for k, w in enumerate((th, ph, F.deriv(th, (1,)), F.deriv(th, (2,)), F.deriv(ph, (1,)), F.deriv(ph, (2,)))):
                    def six(k=k):
                        W.call(A6, [Ptr("BOX"), v(A), v(B)] + o)
                        return g(k)
                    T.slot(W, (A6, k), six, lambda: v(w), "is not %s of %s" % ("the value" if k < 2 else "the derivative", A2), desc)
                T.slot(W, (R, "dr"), lambda: dr, lambda: F.deriv(r, (0,)), "is not the derivative of r by lambda", desc)
                d = dom // 2
                pm = 1 if dom % 2 else -1
                rx = (v(x[d]) - W.xc(d + 1)) % PM
                if F.legendre(pm * rx % PM) < 0 or F.legendre(v(r)) < 0:
                    continue
                for k in range(3):
                    def car(k=k):
                        st, ct = F.fn("sin", v(th)), F.fn("cos", v(th))
                        n = (st * F.fn("cos", v(ph)) % PM, st * F.fn("sin", v(ph)) % PM, ct)[k]
                        return (v(r) * n + W.xc(k + 1)) % PM
                    T.slot(W, (A2, k), car, lambda: v(x[k]), "does not give the direction of the point", desc)
    return T


INTERP = "interpolate_isig_in_plane1_at_p"
SURF = [("CubedSphere_sigma", None), ("CubedSphere_dsigma_dA", 2), ("CubedSphere_dsigma_dB", 3),
        ("CubedSphere_sigma_AB", None), ("CubedSphere_dsigma_dA_AB", 2), ("CubedSphere_dsigma_dB_AB", 3)]


def surface(P, seeds):
    """a surface and its derivatives are looked up the same way, each in its own variable or function"""
    T = Tally()
    if body(P, SURF[0][0]) is None:
        T.gave.add("no surface functions")
        return T

    def value(fn, q, F, si, isset, usef, on):
        N = F.H("variable with the surface")

        def atom(k, ty):
            if k[0] != "BOX" or not k[1]:
                return None
            p = [x[1] for x in k[1] if x[0] == "f"]
            o = k[1][-1][1] if k[1][-1][0] == "o" else 0
            if p[-1] == "iSurf":
                r = (o // 4, None)
            elif p[-1] == "idSurfdX":
                r = divmod(o // 4, 4)
            elif p[-1] == "FSurf":
                r = (o // 8, None)
            elif p[-1] == "dFSurfdX":
                r = divmod(o // 8, 4)
            elif p[-1] == "useF":
                return usef
            elif p[-1] == "s":
                return F.H("s", o // 8)
            else:
                return None
            if ty == "ptr":
                return Ptr(("FS",)) if r == (si, q) else Ptr(("other",) + r)
            if not isset:
                return 0
            return N if r == (si, q) else F.H("other variable", r)

        def hook(w, I, n, a):
            if n == INTERP:
                return F.H("interpolated", repr(a[1:5]))
            return None
        ind = F.H("ind") if on else -1
        f = body(P, fn)
        w = Walk(P, f, F, args=dict(enumerate([Ptr("BOX"), si] + ([ind] if len(f.ptypes) == 5 else []) + [F.H("A"), F.H("B")])), hook=hook, atom=atom)
        w.icall = lambda w, I, p, a: F.H("function", repr(p), repr(a[1:]))
        w.run()
        if w.aborted:
            raise Retry("stops the run")
        return w.ret

    for base_, more in (SURF[0], SURF[1:3]), (SURF[3], SURF[4:]):
        if body(P, base_[0]) is None:
            continue
        for fn, q in more:
            if body(P, fn) is None:
                continue
            for si in (0, 1):
                for usef in (0, 1):
                    for on in (0, 1):
                        done = 0
                        for seed in range(40):
                            if done >= 2:
                                break
                            F = Field(seed, 2)
                            F.generic = True
                            # the number of a variable and of a point are positive
                            if F.legendre(F.H("variable with the surface")) < 0 or F.legendre(F.H("ind")) < 0 or F.legendre(F.H("variable with the surface") - 1) < 0:
                                continue
                            try:
                                a = value(base_[0], base_[1], F, si, True, usef, on)
                                z = value(fn, q, F, si, False, usef, on) if base_ is SURF[0] else 0
                                value(fn, q, F, si, True, usef, on)
                            except Retry:
                                continue
                            except Giveup as e:
                                T.gave.add(str(e)); break
                            done += 1
                            T.paths += 1
                            W = type("W", (), {"F": F})
                            T.slot(W, (fn, si), lambda: value(fn, q, F, si, True, usef, on), lambda: a, "is not looked up like " + base_[0], "surface %d" % si)
                            T.slot(W, (fn, si), lambda: z, lambda: 0, "is not zero for a surface without a variable", "surface %d" % si)
    return T


# ---------------------------------------------------------------- running
RULE = ("type-checked IR of the coordinate code, helpers inlined; one symbolic evaluation per path: the value numbers of the truncated Taylor "
        "series of each map are compared with the value numbers of the functions installed as its derivatives")
G = {}


def job(k):
    P = G["P"]; seeds = G["seeds"]
    if k[0] == "table":
        return check(P, k[1][0], G["T"][k[1]], seeds)
    if k[0] == "names":
        return bynames(P, k[1], seeds)
    if k[0] == "complex":
        return complexfn(P, k[1], k[2], k[3], seeds)
    if k[0] == "surface":
        return surface(G["S"], seeds)
    return angles(P, seeds)


UNROLL = "mem2reg,simplifycfg,function(loop-simplify,lcssa,loop(loop-rotate,indvars,loop-unroll-full),simplifycfg)"


def run(tier):
    c = Check("P16", tier, RULE)
    P = ir.load("main", "seq")
    c.require(body(P, INIT) is not None, "function " + INIT)
    wire = {base(f.name) for f in P.funcs.values() if any(i.op == "store" and isinstance(i.ops[0], str) and P.body(i.ops[0]) for i in f.instrs())}
    I = ir.load_linked("main", lambda p: COORD in p, [INIT], lambda n: n not in wire)
    c.require(body(I, INIT) is not None, "function " + INIT)
    T = tables(I)
    c.require(len(T) >= 8, "coordinate choices in " + INIT)
    mine = {n: f for n, f in ((base(f.name), f) for f in P.funcs.values()) if COORD in f.src}
    gen = sorted(n for n in mine if re.match(r"^(\w+?)_d\1_dd\1_of_", n))
    cx = []
    for n in sorted(mine):
        m = re.match(r"^(d+)([A-Za-z]\w*?)((?:d[xy])+)$", n)
        if m and m.group(2) in mine and len(m.group(1)) == len(m.group(3)) // 2 and mine[m.group(2)].ptypes == ["double", "double"] == mine[n].ptypes:
            cx.append((n, m.group(2), m.group(3).replace("d", "")))
    ang = [n for n in ("ThetaPhi_of_AB_CubSph", "ThetaPhi_dThetaPhidAB_of_AB_CubSph", "r_dr_dlam_of_lamAB_CubSph", "xyz_of_lamAB_CubSph") if n in mine]
    fns = sorted({f for t in T.values() for f in t.values()} | set(gen) | {x[0] for x in cx} | {x[1] for x in cx} | set(ang) | {"CubedSphere_sigma"})
    G["P"] = ir.load_linked("main", lambda p: COORD in p, fns, lambda n: n in OPAQUE, UNROLL)
    G["S"] = ir.load_linked("main", lambda p: COORD in p, [f for f, _ in SURF if f in mine], lambda n: n == INTERP, UNROLL)
    G["T"] = T
    G["seeds"] = 12 if tier == "thorough" else 3
    jobs = [("table", k) for k in T] + [("names", n) for n in gen] + [("complex",) + x for x in cx] + [("angles",), ("surface",)]
    jobs.sort(key=lambda k: -("Ansorg" in str(k)))
    with ProcessPoolExecutor(8, mp_context=__import__("multiprocessing").get_context("fork")) as ex:
        res = list(ex.map(job, jobs))
    for k, t in sorted(zip(jobs, res), key=lambda x: str(x[0])):
        nm = k[1][0] if k[0] == "table" else k[1] if len(k) > 1 else "cubed sphere " + k[0]
        c.count("paths evaluated", t.paths)
        if not t.paths:
            c.notes.append("%s: not decided (%s)" % (nm, ", ".join(sorted(t.gave)) or "no path without a pole"))
            continue
        for g in t.gave:
            c.notes.append("%s: not decided in part (%s)" % (nm, g))
        c.count("coordinate choices" if k[0] == "table" else "derivative functions by name" if len(k) > 1 else "sets of relations")
        c.count("derivative functions compared", len(t.r))
        c.count("comparisons", sum(e[0] for e in t.r.values()))
        c.sample("%s: %d functions on %d paths" % (nm, len(t.r), t.paths))
        for (kind, sl), desc in sorted(t.bad().items(), key=str):
            fn = G["T"][k[1]].get(sl if sl[0] != "XYZ_Of_xyz" else ("XYZ_Of_xyz",)) if k[0] == "table" else sl[0] if k[0] != "names" else k[1]
            f = mine.get(fn)
            at = "%s %s" % (os.path.relpath(f.src, irbuild.REPO) if f is not None else COORD, fn)
            s = sl[0] + "".join("[%s]" % x for x in sl[1:])
            c.violation("%s %s %s" % (nm, s, kind), at, "%s: %s = %s %s%s" % (nm, s, fn, kind, " (%s)" % desc if desc else ""))
    c.floor("coordinate choices", 8)
    c.floor("derivative functions compared", 200)
    c.assume += ["two expressions with the same value number in a random prime field point are the same function (error probability below 1e-20 per comparison)",
                 "points are regular and inside the domain: no two compared numbers within the tolerance of each other",
                 "the surface functions sigma of a box and their stored derivatives belong together; on the axis (B=1) sigma does not depend on phi"]
    return c
