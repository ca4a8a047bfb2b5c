"""P27: interface and boundary conditions connect the same field at the same point."""
import re
from sgv import ir, irbuild, algv, tensor
from sgv.val import *
from sgv.cfg import *
from sgv.sx import base
from sgv.report import Check
from props import p17, p25

RULE = ("The functions that impose conditions on box faces are value-numbered with two boxes kept apart: the one the face belongs to and the one across the face. "
        "For each combination of flags a face can have, the residual stored at a face point must be the number u[point] - u'[same point in the other box], or the "
        "component of the difference of the gradients along the outward normal, where the point in the other box is the one its coordinates (three, two and the "
        "plane of the face, or the index) stand for, for all points of the face and nothing else.  Outer, radiative and excision conditions are compared with the "
        "formulas they are named after, and the point lists with the faces they stand for.")

PM = algv.PM
Ptr = algv.Ptr
BITS = dict(touch=1, sameX=2, sameY=4, sameZ=8, same_fpts=16, fpts_off_face=32, setnormalderiv=64, innerbound=128, outerbound=256)
A = (1, 2, 3)
UNIT = "/boundary/"


GRIDFIRST = ("FACE", "OFACE", "GRID", "BOX", "OBOX", "PL", "VL0", "VL1", "VL2", "VL3", "VLinit")


class Und(Exception):
    pass


def body(P, n):
    return P.body(n) or P.body("SGRID_" + n)


def unit(f):
    return irbuild.os.path.dirname(f.src)


class BW(algv.Walk):
    """two boxes, one face of each"""
    boxroots = ("BOX", "OBOX")

    def __init__(s, P, f, F, args=None, flags=0, f0=0, of=0, ob=True, null=(), lay=None, single=False, getv=None, sizes=None, ptval=None, hooks=None, lists=None):
        s.lay = lay or {}
        s.M = p17.Model(P, F, s.lay, dict.fromkeys(null, True))
        algv.Walk.__init__(s, P, f, F, args=args, hook=s.hooked, atom=s.atoms)
        s.icall = s.icalled; s.M.w = s
        s.flags = flags; s.f0 = f0; s.of = of; s.single = single; s.getv = getv; s.bsizes = sizes; s.ptval = ptval
        s.more = hooks; s.lists = lists or {}
        s.alias = {}
        s.coef = {}; s.darr = {}
        s.nnew = 0
        s.meaning = {}
        s.text = {}
        s.range = []
        s.b = F.H("b"); s.obn = F.H("ob") if ob else PM - 1
        s.ofi = F.H("ofi") if ob else PM - 1
        s.ox = {k: F.H("oX", k) for k in A}
        if ob == "first":
            # the first face of the first box
            s.obn = s.ofi = 0
        s.pos = {s.b, s.obn, s.ofi} - {0} | set(s.ox.values()) if ob else {s.b} | set(s.ox.values())
        s.listend = {}
        s.edge = None
        s.wrongcmp = None
        s.fn = []

    # ------------------------------------------------------------ memory
    def boxof(s, o):
        i = o * pow(8, -1, PM) % PM if isinstance(o, int) else None
        if s.single:
            if i is not None:
                s.b = i
                if s.F.small(i) is None:
                    s.pos.add(i)
            return Ptr("BOX")
        if i == s.b:
            return Ptr("BOX")
        if i == s.obn:
            return Ptr("OBOX")
        if i in s.ivs:
            s.b = i; s.pos.add(i)
            return Ptr("BOX")
        raise Und("a third box")

    def canon(s, p):
        return (p.root, p.path)

    def load(s, p, ty, I=None):
        if not isinstance(p, Ptr):
            return algv.Walk.load(s, p, ty, I)
        if not p.path and ty == "ptr" and (p.root in GRIDFIRST or p.root in s.alias):
            p = Ptr(p.root, (("f", "box" if p.root == "GRID" else "grid"),))
        if p.root in s.alias:
            k = (p.root, p.path)
            if k in s.mem:
                return s.mem[k]
            return s.load(Ptr(s.alias[p.root], p.path), ty, I)
        r = p.root
        if ty == "ptr":
            if isinstance(r, tuple) and r[0] == "g" and r[1] in s.glists and not p.path and (r, ()) not in s.mem:
                return Ptr("VLinit")
            if p.path and p.path[-1] == ("f", "grid") and (p.root, p.path) not in s.mem:
                return Ptr("GRID")
            if isinstance(r, tuple) and r[0] == "ld" and r[2] == (("f", "bface"),) and r[1] in s.boxroots:
                if s.single:
                    return Ptr("FACE")
                o = p.path[-1][1] if p.path else 0
                if r[1] == "OBOX" and o == 8 * s.ofi % PM:
                    return Ptr("OFACE")
                if r[1] == "BOX":
                    return Ptr("FACE")
                raise Und("a third face")
        if ty == "i32" and isinstance(r, tuple) and r[0] == "ld" and isinstance(r[1], tuple) and r[1][0] == "ld" and r[1][2] and r[1][2][-1] == ("f", "point"):
            o = p.path[-1][1] if p.path else 0
            x = s.elem(r, o)
            if x is not None:
                return x
        if ty == "i8" and r in s.text:
            # the name of a copy an integrator made: ends in _r
            return 95 if (s.F.small(p.path[0][1]) if p.path else 0) == 10 else 114
        if ty == "double" and p.path and len(p.path) == 1 and p.path[0][0] == "o" and r in s.darr:
            return s.dval(r, p.path[0][1])
        if ty == "double" and not p.path and r in s.darr:
            return s.dval(r, 0)
        v = algv.Walk.load(s, p, ty, I)
        if isinstance(v, int):
            s.meaning.setdefault(v, s.canon(p))
        return v

    def dval(s, r, o):
        op, d, src = s.darr[r]
        return s.F.H("D", op, d, src, o)

    def elem(s, r, o):
        """an element of a list of points"""
        if not isinstance(o, int):
            return None
        i = o * pow(4, -1, PM) % PM
        for iv in s.ivs:
            h = s.ivh.get(iv)
            if i == iv:
                return s.pt(r, h)
            if i == (iv + 1) % PM:
                return s.F.H("next point", repr(r), h)
        if i == 0:
            v = s.F.H("first point", repr(r))
            s.fn.append((v, r))
            return v
        return s.F.H("point", repr(r), i)

    def pt(s, r, h):
        if s.ptval is not None and r[1][1] == ("ld", "FACE", (("f", "fpts"),)):
            return s.ptval
        return s.F.H("pointof", repr(r), h)

    def firstphi(s, I, h, inc):
        for v, r in s.fn:
            if v == inc:
                s.listend[(h, I.name)] = r
                return s.pt(r, h)
        return None

    def atoms(s, k, ty):
        root, path = k
        F = s.F
        if s.more is not None:
            x = s.more(s, k, ty)
            if x is not None:
                return x
        last = path[-1] if path else None
        if last == ("f", "inactive"):
            return 0
        if root in ("FACE", "OFACE") and len(path) == 1 and last[0] == "f":
            n = last[1]
            if n == "touch" and ty in ("i16", "i8"):
                return s.flags if root == "FACE" else F.H("flags")
            if n == "f":
                return s.f0 if root == "FACE" else s.of
            if root == "FACE":
                if n == "b":
                    return s.b
                if n == "ob":
                    return s.obn
                if n == "ofi":
                    return s.ofi
                if n in ("oXi", "oYi", "oZi"):
                    return s.ox["XYZ".index(n[1]) + 1]
            else:
                if n == "b":
                    return s.obn
        if root in ("BOX", "OBOX") and len(path) == 1:
            if last == ("f", "b"):
                return s.b if root == "BOX" else s.obn
            if last[0] == "f" and last[1] in ("n1", "n2", "n3") and s.bsizes is not None:
                return s.bsizes[root == "OBOX"][int(last[1][1]) - 1]
        # number of points in a list
        if ty == "i32" and isinstance(root, tuple) and root[0] == "ld" and root[2] and root[2][-1] == ("f", "npoints"):
            if root[1] == ("ld", "OFACE", (("f", "fpts"),)) and s.flags & BITS["same_fpts"]:
                o = path[0][1] if path else 0
                if o == 4 * s.obn % PM:
                    return s.npts("FACE", s.b)
        return None

    def npts(s, face, b):
        return s.F.H("mem", (("ld", ("ld", face, (("f", "fpts"),)), (("f", "npoints"),)), (("o", 4 * b % PM),)))

    # a variable at a point
    def var(s, box, ix, p):
        F = s.F
        return s.load(Ptr(("ld", ("ld", box, (("f", "v"),)), (("o", 8 * ix % PM),)), (("o", 8 * p % PM),) if p else ()), "double")

    def vroot(s, box, ix):
        return ("ld", ("ld", box, (("f", "v"),)), (("o", 8 * ix % PM),))

    # ------------------------------------------------------------ arithmetic
    def ev(s, I):
        if I.op in ("and", "or", "shl", "lshr"):
            a, b = s.v(I.ops[0]), s.v(I.ops[1])
            if not isinstance(a, (bool, Ptr, tuple)) and not isinstance(b, (bool, Ptr, tuple)):
                x, y = s.F.small(a), s.F.small(b)
                if x is not None and y is not None and x.denominator == y.denominator == 1:
                    x, y = int(x), int(y)
                    if I.op == "and":
                        return (x & y) % PM
                    if I.op == "or":
                        return (x | y) % PM
                    if I.op == "shl" and 0 <= y < 64:
                        return (x << y) % PM
                    if I.op == "lshr" and x >= 0 and 0 <= y < 64:
                        return x >> y
        return algv.Walk.ev(s, I)

    def compare(s, I, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and I.x in ("eq", "ne"):
            null = [x for x in (a, b) if x.root == "null"]
            if len(null) == 1:
                p = a if b.root == "null" else b
                r = s.isnull(p)
                if r is not None:
                    return r == (I.x == "eq")
        return algv.Walk.compare(s, I, a, b)

    def isnull(s, p):
        r = s.M.isnull(p)
        if r is not None:
            return r
        if isinstance(p.root, tuple) and p.root[0] in ("ld", "res", "new") and p.root not in s.lists:
            return False
        if p.root in s.lists:
            return s.lists[p.root]
        return None

    def rel(s, x, a, b):
        if isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool) and not isinstance(b, bool):
            F = s.F
            inf = F.const(float("inf"))
            if b == inf:
                return x in ("lt", "le", "ne")
            if a == inf:
                return x in ("gt", "ge", "ne")
            d = (a - b) % PM
            g = None
            q = F.small(b); p = F.small(a)
            if a in s.pos and q is not None and q <= 0:
                g = 1
            if b in s.pos and p is not None and p <= 0:
                g = -1
            if g is None:
                for h, sp in s.hspan.items():
                    if sp is None:
                        continue
                    for iv in s.ivs:
                        if s.ivh.get(iv) == h:
                            if d == (iv - sp[1]) % PM or d == (iv + 1 - sp[1]) % PM and x in ("eq", "ne"):
                                g = -1
                            elif d == (sp[1] - iv) % PM:
                                g = 1
            if g is None:
                g = s.inside(a, b)
            if g is None:
                h = s.inside(b, a)
                g = -h if h is not None else None
            if g is not None:
                return {"eq": g == 0, "ne": g != 0, "lt": g < 0, "le": g <= 0, "gt": g > 0, "ge": g >= 0}[x]
        return algv.Walk.rel(s, x, a, b)

    def inside(s, a, b):
        """a coordinate of the point in the other box against the range of that box"""
        k = s.meaning.get(b)
        m = s.meaning.get(a)
        if k is None or m is None or k[0] not in s.boxroots or not k[1] or k[1][0] != ("f", "bbox"):
            return None
        o = s.F.small(k[1][1][1]) if len(k[1]) > 1 else 0
        for c, ix in s.ox.items():
            if m[0] == s.vroot("BOX", ix) and o is not None:
                o = int(o) // 8
                if k[0] != "OBOX" or o // 2 != c - 1:
                    s.wrongcmp = (c, k[0], o)
                if s.edge is not None and o % 2 == s.edge:
                    return 0
                return 1 if o % 2 == 0 else -1
        return None

    # ------------------------------------------------------------ calls
    def hooked(s, w, I, n, a):
        F = s.F
        ptr = lambda x: isinstance(x, Ptr)
        if n.startswith("llvm.memcpy") and ptr(a[0]) and ptr(a[1]) and not a[0].path and not a[1].path and a[1].root in ("FACE", "OFACE") :
            for k in [k for k in s.mem if k[0] == a[0].root]:
                del s.mem[k]
            s.alias[a[0].root] = a[1].root
            return 0
        if n in ("Ind", "IndLax") and isinstance(a[0], tuple):
            x = s.M.index(a[0][1])
            s.pos.add(x)
            return x
        if n in ("dmalloc", "malloc", "calloc"):
            s.nnew += 1
            return Ptr(("new", s.nnew))
        if n.startswith("llvm.is.fpclass"):
            m = int(F.small(a[1]) or 0)
            return m & 0x1f8 == 0x1f8 or m & 0x108 == 0x108 and m & 0x207 == 0
        if n in ("finit", "isfinite", "__finite", "finite"):
            return True if I.ty == "i1" else 1
        if n in ("isnan", "isinf", "__isnan", "__isinf"):
            return 0
        lab = lambda p: s.coef.get((p.root, p.path))
        if n == "spec_Coeffs" and len(a) == 3:
            s.coef[(a[2].root, a[2].path)] = ("3", a[0].root, a[1].root); return 0
        if n == "spec_Coeffs_inplaneN" and len(a) == 5:
            s.coef[(a[4].root, a[4].path)] = ("2", a[0].root, a[3].root, a[1], a[2]); return 0
        if n == "spec_analysis1_inplaneN" and len(a) == 6:
            s.coef[(a[5].root, a[5].path)] = ("1", a[0].root, a[4].root, a[1], a[2], a[3]); return 0
        if n == "spec_interpolate" and len(a) == 5:
            c = lab(a[1])
            if c is None:
                raise Und("coefficients of unknown origin")
            if c[0] != "3" or a[0].root != c[1]:
                return F.H("interpolation with coefficients for something else")
            return F.H("at", c[1], c[2], tuple(a[2:]))
        if n == "spec_interpolate_inplaneN" and len(a) == 6:
            c = lab(a[3])
            if c is None:
                raise Und("coefficients of unknown origin")
            if c[0] != "2" or a[0].root != c[1] or (a[1], a[2]) != c[3:]:
                return F.H("interpolation with coefficients for something else")
            N = F.small(a[1])
            x = list(a[4:]); x.insert(int(N) - 1, ("plane", a[2]))
            return F.H("at", c[1], c[2], tuple(x))
        if n in ("spec_Interpolate",):
            raise Und(n)
        if n == "cart_partials" and len(a) == 5 and ptr(a[1]):
            for k in A:
                s.darr[a[1 + k].root] = ("cart", k, s.srckey(a[0], a[1]))
            return 0
        if n == "spec_Deriv1" and len(a) == 4 and ptr(a[2]):
            s.darr[a[3].root] = ("dX", a[1], s.srckey(a[0], a[2])); return 0
        if n in ("Getv", "GetvLax"):
            t = [s.text.get(x.root) if ptr(x) else x for x in a[:2]]
            if s.getv is not None:
                r = s.getv(s, t[0], t[1])
                if r is not None:
                    return r
            return F.H("flag", repr(t)) & 1
        if n in ("snprintf", "sprintf") and ptr(a[0]):
            s.text[a[0].root] = repr([x if not ptr(x) else s.text.get(x.root, x) for x in (a[2:] if n == "snprintf" else a[1:])])
            return F.H("length")
        if n == "strlen":
            return 12
        if n in ("VarPropSpeed", "VarFarLimit", "VarName", "VarFallOff") and len(a) == 1:
            x = F.H(n, a[0])
            return x if I.ty != "ptr" else Ptr(("res", x))
        if n == "AllocatePointList":
            s.nnew += 1
            return Ptr(("list", s.nnew))
        if n in ("AddDuplicateEnable", "AddDuplicate") and ptr(a[0]):
            s.dup = (a[0].root, n)
            return Ptr("VLinit")
        if n in s.rec:
            s.recs.append((n, [x if not ptr(x) else x for x in a], I, s.domain(I.blk), dict(s.locals3(a))))
            return 0
        if body(s.P, n) is not None and not n.startswith(("spec_", "cart_partial")):
            raise Und("%s is not followed" % n)
        return None
    rec = ()
    glists = ()

    def locals3(s, a):
        """what local arrays passed to a call hold"""
        for k, x in enumerate(a):
            if isinstance(x, Ptr) and isinstance(x.root, tuple) and x.root[0] in ("loc", "arg") and not x.path:
                yield k, [s.load(Ptr(x.root, (("o", 4 * d),)), "i32") for d in A]

    def srckey(s, box, p):
        return (box.root, p.root)

    def store(s, I):
        p = s.v(I.ops[1])
        if isinstance(p, Ptr) and isinstance(p.root, tuple) and p.root[0] == "loc" and s.text.get(p.root):
            t = s.text[p.root]
            o = s.F.small(p.path[0][1]) if p.path else 0
            v = s.v(I.ops[0])
            if v != 0 or o is None:
                raise Und("a text is changed")
            if not t.startswith("cut") or o < int(t.split()[1]):
                s.text[p.root] = "cut %d " % int(o) + t
        algv.Walk.store(s, I)

    def icalled(s, w, I, p, a):
        if isinstance(p, Ptr) and isinstance(p.root, tuple) and p.root[0] == "g":
            return s.F.H("outer", p.root[1], tuple(a))
        if not isinstance(p, Ptr):
            raise Und("indirect call")
        q = s.M.slot(p)
        if q is None:
            if isinstance(p.root, tuple) and p.root[0] == "arg":
                return s.F.H("outer", p.root[1], tuple(a))
            raise Und("indirect call")
        if len(a) != 5 or not isinstance(a[0], Ptr):
            raise Und("indirect call")
        return s.F.H(q, a[0].root, tuple(a[2:]))


def link(entries, where_=UNIT, keep=()):
    return ir.load_linked("main", lambda p: where_ in p, entries, lambda n: n in keep or n.startswith("spec_") or n.startswith("cart_partial"), "function(mem2reg),always-inline,function(mem2reg,simplifycfg)")


def layout(P):
    """positions of variables declared one after the other"""
    lay = p17.layout(P)
    if lay is None:
        return None
    lay = dict(lay)
    at = {}
    for f in P.funcs.values():
        for I in f.instrs():
            if I.op == "call" and is_glob(I.callee) and base(I.callee[1:]) in ("AddVar", "AddConstantVar") and I.loc:
                nm = P.string(f, I.ops[0])
                if nm in ("X", "Y", "Z"):
                    at[nm] = (f.name, I.loc[1], I)
    if len(at) == 3 and len({a[0] for a in at.values()}) == 1:
        for k, (nm, a) in enumerate(sorted(at.items(), key=lambda x: x[1][1])):
            lay[nm] = 1000 + k
    return lay


def walk(c, P, n, seen, **kw):
    """first sequence of decisions that leads to the end"""
    f = body(P, n)
    c.require(f is not None, n)
    before = kw.pop("before", None)
    order = kw.pop("seed", 0)
    for sd in range(order, order + 60):
        F = algv.Field(sd); F.generic = True
        k = dict(kw)
        if callable(k.get("args")):
            k["args"] = k["args"](F)
        w = BW(P, f, F, **k)
        w.recs = []
        if before:
            before(w)
        try:
            w.run()
        except algv.Retry:
            continue
        w.f = f
        return w
    raise Und("no path")


def fail(c, seen, key, w, I, text):
    if key in seen:
        return
    seen.add(key)
    c.violation(key, where(I, w.f) if I is not None and I.loc else where(None, w.f), text)


# ---------------------------------------------------------------- normals
def unitvec(w, f0, J):
    """outward unit vector along J[1..3]"""
    F = w.F
    sig = 1 if f0 % 2 else PM - 1
    q = sum(x * x for x in J) % PM
    try:
        r = F.root(q, 2)
    except algv.Retry:
        r = F.H("root", q)          # the code did not take this root
    i = pow(r, -1, PM)
    return [x * i * sig % PM for x in J]


def coords(w, box, p, names="XYZ"):
    return [w.var(box, w.M.index(x), p) for x in names]


def normal(w, null, p, out=False):
    """outward normal of the face at a point (a number, or the coordinates)"""
    d = 1 + w.f0 // 2
    if "x_of_X" in null:
        J = [1 if k == d else 0 for k in A]
    elif not out and "Jstored" not in null and isinstance(p, int):
        J = [w.var("BOX", w.M.index("d%sd%s" % ("XYZ"[d - 1], "xyz"[k - 1])), p) for k in A]
    else:
        X = tuple(p) if not isinstance(p, int) else tuple(coords(w, "BOX", p))
        J = [w.F.H(("dX_dx", d, k) if not out else ("dx_dX", k, d), "BOX", X) for k in A]
    return unitvec(w, w.f0, J)


TRAFO = ((), ("Jstored",), ("x_of_X",))


def normals(c, P, lay, seen):
    for n, byp, out in (("boxface_normal_at_ijk", True, False), ("boxface_outwarddir_at_ijk", True, True), ("boxface_normal_at_XYZ", False, False), ("boxface_outwarddir_at_XYZ", False, True)):
        und = None
        for f0 in range(6):
            for null in TRAFO + ((("dx_dX",), ("dx_dX", "Jstored")) if out else ()):
                for args in (lambda F: {0: Ptr("BOX"), 1: f0},):
                    try:
                        w = walk(c, P, n, seen, args=args, null=null, lay=lay, f0=f0)
                        if w.aborted:
                            fail(c, seen, n + " stops", w, None, "%s: stops for face %d" % (n, f0)); continue
                        p = w.F.H("arg", 2) if byp else [w.F.H("arg", k) for k in (2, 3, 4)]
                        o = w.v(w.f.params[3 if byp else 5] if isinstance(w.f.params[0], str) else w.f.params[3 if byp else 5][0])
                        want = normal(w, null, p, out and "dx_dX" not in null)
                        c.count("face normals")
                        for k in A:
                            key = (o.root, (("o", 8 * k),))
                            if w.mem.get(key) != want[k - 1]:
                                fail(c, seen, n, w, w.by.get(key), "%s: component %d is not that of the outward unit vector (face %d)" % (n, k, f0)); break
                    except (Und, algv.Giveup) as e:
                        und = e
        if und is not None:
            c.notes.append("%s: not decided (%s)" % (n, und))


# ---------------------------------------------------------------- interfaces
def configs():
    """(name, flags, faces of the other box, sizes)"""
    B = BITS
    yield "point by point", B["touch"] | B["same_fpts"], (0, 3), "list"
    for k in "XYZ":
        yield "point by point", B["touch"] | B["same_fpts"] | B["same" + k], (1,), "list"
    for a, b in ("XY", "XZ", "YZ"):
        yield "point by point", B["touch"] | B["same_fpts"] | B["same" + a] | B["same" + b], (4,), "list"
    yield "point by point", B["touch"] | B["same_fpts"] | B["sameX"] | B["sameY"] | B["sameZ"], (2, 5), "list"
    yield "index by index", B["touch"] | B["sameX"] | B["sameY"] | B["sameZ"], range(6), "index"
    for k, nm in enumerate("XYZ"):
        yield "in the plane %s" % nm, B["touch"] | B["same" + nm], (2 * k, 2 * k + 1), k + 1
    for a, b in ("XY", "XZ", "YZ"):
        yield "along a line", B["touch"] | B["same" + a] | B["same" + b], (1, 2, 4), "line"
    yield "in the volume", 0, (0,), "volume"


def other(w, kind, p, ix):
    """the field in the other box at the point that corresponds to p"""
    F = w.F
    ox = [w.var("BOX", w.ox[k], p) for k in A]
    r = w.vroot("OBOX", ix)
    if kind == "volume":
        return F.H("at", "OBOX", r, tuple(ox))
    if kind == "list":
        L = ("ld", ("ld", ("ld", "OFACE", (("f", "fpts"),)), (("f", "point"),)), (("o", 8 * w.obn % PM),) if w.obn else ())
        return w.var("OBOX", ix, w.pt(L, w.ptloop))
    if kind == "index":
        n, on = w.bsizes
        q = w.ptval
        i = [q % n[0], q // n[0] % n[1], q // (n[0] * n[1])]
        d = w.of // 2
        i[d] = (on[d] - 1) * (w.of % 2)
        return w.var("OBOX", ix, i[0] + on[0] * (i[1] + on[1] * i[2]))
    n = F.H("mem", ("OBOX", (("f", "n%d" % kind),)))
    ox[kind - 1] = ("plane", (n - 1) * (w.of % 2) % PM)
    return F.H("at", "OBOX", r, tuple(ox))


def facestores(w):
    return [k for k in w.mem if isinstance(k[0], tuple) and k[0][0] == "ld" and isinstance(k[0][1], tuple) and k[0][1][0] == "ld" and k[0][1][1] in w.boxroots and k[0][1][2] == (("f", "v"),)]


def listof(w, face="FACE"):
    return ("ld", ("ld", ("ld", face, (("f", "fpts"),)), (("f", "point"),)), (("o", 8 * w.b % PM),))


def judge(c, w, n, seen, kind, name, snd, null, iF, iu, idu, extra):
    F = w.F
    what = "%s of %s" % ("normal derivative" if snd else "value", name)
    if w.wrongcmp:
        cc, bx, o = w.wrongcmp
        fail(c, seen, "%s range" % name, w, None, "%s: coordinate %s of the point in the other box is compared with bbox[%d] of the %s box: face points without a condition" % (n, "XYZ"[cc - 1], o, "other" if bx == "OBOX" else "wrong"))
        return
    root = w.vroot("BOX", iF)
    st = facestores(w)
    bad = [k for k in st if k[0] != root]
    if bad:
        fail(c, seen, "%s elsewhere" % name, w, w.by.get(bad[0]), "%s, %s: stores into something other than the residual" % (n, name)); return
    if not st:
        fail(c, seen, "%s missing" % name, w, None, "%s: no condition for faces matched %s (%s)" % (n, name, "normal derivative" if snd else "value")); return
    if len(st) > 1:
        raise Und("several points")
    k = st[0]
    L = listof(w)
    w.ptloop = next((h for h in w.cg.loops if k[1] == ((("o", 8 * w.pt(L, h) % PM),) if w.pt(L, h) else ())), None)
    if w.ptloop is None:
        fail(c, seen, "%s points" % name, w, w.by.get(k), "%s, %s: the residual is not set at the points of the face" % (n, name)); return
    p = w.pt(L, w.ptloop)
    for (h, nm), r in w.listend.items():
        back = w.red.get((h, nm), {}).get("back")
        if r == L and back is not None and back not in (F.H("next point", repr(L), h), w.pt(L, h)):
            raise Und("the next point")
    d = w.dom.get(k)
    np = w.npts("FACE", w.b)
    if d is not None:
        want = sorted([repr((0, np))] + extra)
        if sorted(d) != want:
            fail(c, seen, "%s domain" % name, w, w.by.get(k), "%s, %s: the residual is not set at all points of the face" % (n, name)); return
    if not snd:
        x = F.sub(w.var("BOX", iu, p), other(w, kind, p, iu))
    else:
        nv = normal(w, null, p)
        x = 0
        for q in A:
            x = (x + nv[q - 1] * (w.var("BOX", idu[q - 1], p) - other(w, kind, p, idu[q - 1]))) % PM
    have = w.mem[k]
    c.count("interface conditions")
    if have != x:
        fail(c, seen, what, w, w.by.get(k), "%s: with faces matched %s the condition is not %s of the two boxes at the same point" % (n, name, "the difference of the normal derivatives" if snd else "the difference of the values"))


def interfaces(c, P, lay, seen):
    n = "set_interbox_BCs_for_bface"
    und = {}
    pts = (4, 5, 6)
    sample = ((1, 2, 3), (3, 0, 5), (0, 4, 2))
    decided = 0
    for name, fl, ofs, kind in configs():
        for snd in (0, 1):
            if kind == "volume" and snd:
                continue
            for of in ofs:
                for f0 in range(6) if snd else (1,):
                    for null in TRAFO if snd and f0 in (1, 4) else ((),):
                      for ob in (True, "first") if f0 == 1 and not null else (True,):
                        for q in sample[:1 if snd and f0 not in (1, 4) else 3] if kind == "index" else (None, 0, 1) if isinstance(kind, int) and not snd else (None,):
                            kw = {}
                            if isinstance(kind, int) and q is not None:
                                # points on the edge of the range of the other box
                                kw["before"] = lambda w, q=q: setattr(w, "edge", q); q = None
                            if q is not None:
                                on = list(pts); on[of // 2] += 3
                                kw = dict(sizes=(pts, on), ptval=q[0] + pts[0] * (q[1] + pts[1] * q[2]))
                            try:
                                w = walk(c, P, n, seen, args=lambda F: {1: Ptr("FACE")}, ob=ob, flags=fl | (BITS["setnormalderiv"] if snd else 0), f0=f0, of=of, null=null, lay=lay, **kw)
                                if w.aborted:
                                    if kind == "line":
                                        c.notes.append("%s: faces matched %s are refused" % (n, name)) if name not in und else None
                                        und.setdefault(name, "refused"); continue
                                    fail(c, seen, "%s stops" % name, w, None, "%s: stops for faces matched %s" % (n, name)); continue
                                if kind == "line":
                                    raise Und("a line")
                                F = w.F
                                judge(c, w, n, seen, kind, name, snd, null, F.H("arg", 0), F.H("arg", 2), [F.H("mem", (("arg", 3), (("o", 4 * k),))) for k in A], [])
                                decided += 1
                            except (Und, algv.Giveup) as e:
                                if und.setdefault(name, str(e)) == str(e):
                                    und[name] = str(e)
    for k, v in sorted(und.items()):
        if v != "refused":
            c.notes.append("%s, faces matched %s: not decided (%s)" % (n, k, v))
    # a face without another box is left alone
    try:
        w = walk(c, P, n, seen, args=lambda F: {1: Ptr("FACE")}, ob=False, flags=BITS["touch"], lay=lay)
        c.count("interface conditions")
        if facestores(w) or w.aborted:
            fail(c, seen, "no box", w, None, "%s: does something on a face without another box" % n)
    except (Und, algv.Giveup) as e:
        c.notes.append("%s without another box: not decided (%s)" % (n, e))
    # every face of a box; one face with a chosen condition
    for n, args, ix, sets in (("set_interbox_BCs_for_boxbfaces", {0: Ptr("BOX")}, (1, 2, 3), (0, 1)), ("set_interbox_BC_onface", {0: Ptr("BOX")}, (1, 3, 4), (-1, 0, 1))):
        if body(P, n) is None:
            c.notes.append("%s not found" % n); continue
        for sn in sets:
            for own in (0, 1):
                for face in ((2,) if len(sets) == 3 else (None,)):
                    for f0 in (2, 3) if face is not None else (2,):
                        a = dict(args)
                        if face is not None:
                            a[2] = face; a[5] = sn % PM
                        snd = own if sn < 0 or face is None else sn
                        if face is None and own != sn:
                            continue
                        try:
                            w = walk(c, P, n, seen, args=lambda F: dict(a), flags=BITS["touch"] | BITS["same_fpts"] | (BITS["setnormalderiv"] if own else 0), f0=f0, of=1, lay=lay)
                            F = w.F
                            if face is not None and f0 != face:
                                c.count("interface conditions")
                                if facestores(w):
                                    fail(c, seen, n + " face", w, None, "%s: sets conditions on another face" % n)
                                continue
                            judge(c, w, n, seen, "list", "%s through %s" % ("point by point", n), snd, (), F.H("arg", ix[0]), F.H("arg", ix[1]), [F.H("mem", (("arg", ix[2]), (("o", 4 * k),))) for k in A],
                                  [repr((0, F.H("mem", ("BOX", (("f", "nbfaces"),)))))])
                        except (Und, algv.Giveup) as e:
                            c.notes.append("%s: not decided (%s)" % (n, e))
    c.floor("interface conditions", 40)


# ---------------------------------------------------------------- conditions on lists of points
def ptlist(w, X):
    return ("ld", ("ld", X, (("f", "point"),)), (("o", 8 * w.b % PM),))


def vix(w, vl, j):
    """vl->index[j]"""
    return w.F.H("mem", (("ld", vl, (("f", "index"),)), (("o", 4 * j % PM),)))


def vln(w, vl):
    return w.F.H("mem", (vl, (("f", "n"),)))


def onlist(c, w, n, seen, X, iu, want, what, more=()):
    """the only thing stored is variable iu at the points of list X, and it is want(p)"""
    F = w.F
    if w.aborted:
        fail(c, seen, "%s stops" % n, w, None, "%s: stops" % n); return
    c.count("conditions on lists of points")
    st = facestores(w)
    root = w.vroot("BOX", iu)
    bad = [k for k in st if k[0] != root and k[0] not in w.darr and k[0] not in more]
    if bad:
        fail(c, seen, "%s elsewhere" % n, w, w.by.get(bad[0]), "%s: stores into another variable" % n); return
    st = [k for k in st if k[0] == root]
    if not st:
        fail(c, seen, "%s missing" % n, w, None, "%s: %s is not set" % (n, what)); return
    if len(st) > 1:
        raise Und("several points")
    k = st[0]
    L = ptlist(w, X)
    h = next((h for h in w.cg.loops if k[1] == (("o", 8 * w.pt(L, h) % PM),)), None)
    if h is None:
        fail(c, seen, "%s points" % n, w, w.by.get(k), "%s: %s is not set at the points of the list" % (n, what)); return
    p = w.pt(L, h)
    for (hh, nm), r in w.listend.items():
        back = w.red.get((hh, nm), {}).get("back")
        if r == L and back is not None and back not in (F.H("next point", repr(L), hh), w.pt(L, hh)):
            raise Und("the next point")
    d = w.dom.get(k)
    if d is not None:
        np = F.H("mem", (("ld", X, (("f", "npoints"),)), (("o", 4 * w.b % PM),)))
        nb = F.H("mem", ("GRID", (("f", "nboxes"),)))
        have = sorted(d)
        wd = sorted([repr((0, np)), repr((0, nb))] + [repr((0, x)) for x in w.extra])
        if have != wd:
            fail(c, seen, "%s domain" % n, w, w.by.get(k), "%s: %s is not set at all points of the list" % (n, what)); return
    have = w.mem.pop(k)
    x = want(p)
    x = x if isinstance(x, (list, tuple)) else [x]
    if have not in x:
        fail(c, seen, n, w, w.by.get(k), "%s: what is stored is not %s" % (n, what))


def attempt(c, n, fn):
    try:
        fn()
    except (Und, algv.Giveup) as e:
        t = "%s: not decided (%s)" % (n, e)
        if t not in c.notes:
            c.notes.append(t)


def glob(n):
    return ("ld", ("g", n), ())


def radrhs(w, p, ixs, v, u, du):
    """-v (u/r + x^i d_i u / r)"""
    F = w.F
    x = coords(w, "BOX", p, "xyz")
    q = sum(a * a for a in x) % PM
    try:
        r = F.root(q, 2)
    except algv.Retry:
        r = F.H("root", q)
    i = pow(r, -1, PM)
    return -v * i % PM * (u + sum(a * b for a, b in zip(x, du))) % PM


def lists(c, P, lay, seen):
    RAD = glob("radiativeBoundaryPointList"); EXC = glob("ExcisionBoundaryPointList")
    arg = lambda w, k: w.F.H("arg", k)
    D = lambda w, src, k, p: w.F.H("D", "cart", k, ("BOX", src), 8 * p % PM)
    have = lambda n: body(P, n) is not None
    # radiative
    n = "set_boundary_radiative"
    for zero in (False, True):
        def go():
            w = walk(c, P, n, seen, args=lambda F: dict([(0, Ptr("GRID"))] + ([(3, 0)] if zero else [])), lay=lay, single=True)
            w.extra = ()
            def want(p):
                src = w.vroot("BOX", arg(w, 4))
                rhs = radrhs(w, p, None, arg(w, 6), w.var("BOX", arg(w, 4), p) - arg(w, 5), [D(w, src, k, p) for k in A])
                return rhs if zero else (w.var("BOX", arg(w, 2), p) + arg(w, 3) * rhs) % PM
            onlist(c, w, n, seen, RAD, arg(w, 1), want, "the outgoing wave condition" + (" (time derivative)" if zero else ""))
        attempt(c, n, go)
    # constant, value, excision
    n = "set_boundary_constant"
    def go():
        w = walk(c, P, n, seen, args=lambda F: {0: Ptr("PL")}, lay=lay, single=True); w.extra = ()
        onlist(c, w, n, seen, "PL", arg(w, 1), lambda p: w.var("BOX", arg(w, 2), p), "the previous value")
    attempt(c, n, go)
    n = "set_boundary_value"
    def go():
        w = walk(c, P, n, seen, args=lambda F: {0: Ptr("PL")}, lay=lay, single=True); w.extra = ()
        onlist(c, w, n, seen, "PL", arg(w, 1), lambda p: arg(w, 2), "the value asked for")
    attempt(c, n, go)
    n = "set_boundary_simpleExcision"
    def go():
        w = walk(c, P, n, seen, args=lambda F: {0: Ptr("GRID")}, lay=lay, single=True); w.extra = ()
        v = lambda k, p: w.var("BOX", arg(w, k), p)
        onlist(c, w, n, seen, EXC, arg(w, 1), lambda p: (v(2, p) + v(1, p + 1) - v(2, p + 1)) % PM, "the previous value plus the change at the neighbour")
    attempt(c, n, go)
    for n, right in (("set_boundary_normalderiv_leftBound", 0), ("set_boundary_normalderiv_rightBound", 1)):
        for d in A:
            def go():
                w = walk(c, P, n, seen, args=lambda F: {0: Ptr("PL"), 1: d}, lay=lay, single=True); w.extra = ()
                F = w.F
                def want(p):
                    m = F.H("mem", ("BOX", (("f", "n%d" % d),)))
                    r = ("ld", "BOX", (("f", "D%d" % d),))
                    D0 = w.load(Ptr(r, (("o", 8 * (m * m - 1) % PM),) if right else ()), "double")
                    u = w.var("BOX", arg(w, 2), p)
                    du = F.H("D", "dX", d, ("BOX", w.vroot("BOX", arg(w, 2))), 8 * p % PM)
                    return (arg(w, 3) - du + D0 * u) % PM * pow(D0, -1, PM) % PM
                onlist(c, w, n, seen, "PL", arg(w, 2), want, "the value that gives the derivative asked for (direction %d)" % d)
            attempt(c, n, go)
    n = "set_boundary_VonNeumannExcision"
    def go():
        w = walk(c, P, n, seen, args=lambda F: {0: Ptr("PL")}, lay=lay, single=True); w.extra = ()
        F = w.F
        def want(p):
            D0 = w.load(Ptr(("ld", "BOX", (("f", "D1"),))), "double")
            du = F.H("D", "dX", 1, ("BOX", w.vroot("BOX", arg(w, 1))), 8 * p % PM)
            return (D0 * w.var("BOX", arg(w, 1), p) - du) % PM * pow(D0, -1, PM) % PM
        onlist(c, w, n, seen, "PL", arg(w, 1), want, "the value that makes the derivative along the first direction vanish")
    attempt(c, n, go)
    # radiative for the difference from the initial data
    n = "set_boundary_radiative_analytic"
    VL = {0: Ptr("VL0"), 1: Ptr("VL1"), 3: Ptr("VL3")}
    if have(n):
        gl = set()
        def first():
            w = walk(c, P, n, seen, args=lambda F: dict(VL), lay=lay, single=True, hooks=lambda w, k, ty: 0 if k == ("VL3", (("f", "time"),)) else None, getv=lambda *a: 0)
            for k, x in w.mem.items():
                if isinstance(k[0], tuple) and k[0][0] == "g" and isinstance(x, Ptr) and x.root == "VLinit":
                    gl.add(k[0][1])
            c.count("conditions on lists of points")
            if not gl:
                raise Und("the initial data")
            if getattr(w, "dup", ("VL1",))[0] != "VL1":
                fail(c, seen, n + " initial", w, None, "%s: the initial data are not a copy of the previous variables" % n); return
            ok = False
            for k in facestores(w):
                for j in w.ivs:
                    if k[0] == w.vroot("BOX", vix(w, "VLinit", j)) and len(k[1]) == 1:
                        p = k[1][0][1] * pow(8, -1, PM) % PM
                        if p in w.ivs:
                            ok = w.mem[k] == w.load(Ptr(w.vroot("BOX", vix(w, "VL1", j)), k[1]), "double")
                            if not ok:
                                fail(c, seen, n + " initial", w, w.by.get(k), "%s: what is saved is not the previous value of the same variable at the same point" % n); return
                            d = w.dom.get(k)
                            F = w.F
                            m = lambda q: F.H("mem", ("BOX", (("f", q),)))
                            full = [sorted([repr((0, vln(w, v))), repr((0, F.H("mem", ("GRID", (("f", "nboxes"),))))), repr((0, e))])
                                    for v in ("VL1", "VL0", "VL3", "VLinit") for e in (m("nnodes"), m("n1") * m("n2") * m("n3") % PM)]
                            if d is not None and sorted(d) not in full and len(d) == 3:
                                fail(c, seen, n + " initial", w, w.by.get(k), "%s: the initial data are not saved at all points" % n); return
            if not ok:
                raise Und("the initial data")
        attempt(c, n, first)
        for zero in (False, True):
            for flag in (0, 1, 2):
                def go():
                    def getv(w, t, x):
                        if t == ("s", "boundary_radconstant"):
                            return named(x) == flag
                        return None
                    def bef(w):
                        w.glists = gl
                    w = walk(c, P, n, seen, args=lambda F: dict(list(VL.items()) + ([(2, 0)] if zero else [])), lay=lay, single=True, getv=getv, before=bef)
                    F = w.F
                    js = [j for j in w.ivs if w.hspan.get(w.ivh.get(j)) in [(0, vln(w, "VL%d" % q)) for q in (0, 1, 3)]]
                    if len(js) != 1:
                        raise Und("the loop over variables")
                    j = js[0]
                    w.extra = (w.hspan[w.ivh[j]][1],)
                    i0, i1, i3, ii = (vix(w, x, j) for x in ("VL0", "VL1", "VL3", "VLinit"))
                    v = 0 if flag else F.H("VarPropSpeed", i0)
                    def want(p):
                        su, si = w.vroot("BOX", i3), w.vroot("BOX", ii)
                        rhs = radrhs(w, p, None, v, w.var("BOX", i3, p) - w.var("BOX", ii, p), [D(w, su, k, p) - D(w, si, k, p) for k in A])
                        return rhs if zero else (w.var("BOX", i1, p) + arg(w, 2) * rhs) % PM
                    onlist(c, w, n, seen, RAD, i0, want, "the outgoing wave condition for the difference from the initial data%s%s" % (" (time derivative)" if zero else "", " (variable kept constant)" if flag else ""))
                attempt(c, n, go)


def named(x):
    """1: the name of the variable, 2: the name of the variable it is a copy of"""
    x = x if isinstance(x, str) else repr(x)
    if "VarName" not in x and "res" not in x and "Ptr" not in x:
        raise Und("the name of a variable")
    return 2 if x.startswith("cut 10 ") else 0 if x.startswith("cut") else 1


SETTERS = ("set_boundary_radiative", "set_boundary_radiative_analytic", "set_boundary_constant", "set_boundary_simpleExcision", "set_boundary_VonNeumannExcision")


def dispatch(c, lay, seen):
    """set_boundary does what the parameter 'boundary' says"""
    n = "set_boundary"
    P = link([n] + list(SETTERS), keep=SETTERS)
    CON, SEL, EXC = (glob(x) for x in ("constantBoundaryPointList", "selectedBoundaryPointList", "ExcisionBoundaryPointList"))
    VL = {0: Ptr("VL0"), 1: Ptr("VL1"), 3: Ptr("VL3")}
    opts = (("radiative", 0), ("radiative", 1), ("radiative", 2), ("radiative_analytic", 0), ("constant", 0), ("constantExcision", 0), ("simpleExcision", 0), ("selectedconstantExcision", 0), ("selectedconstantExcision", 1), ("VonNeumannExcision", 0), ("selectedVonNeumannExcision", 0), ("selectedVonNeumannExcision", 1), ("none", 0))
    for opt, sel in opts:
        def go():
            def getv(w, t, x):
                if t == ("s", "boundary"):
                    return int(x == ("s", opt))
                if t == ("s", "boundary_radconstant"):
                    return named(x) == sel
                if t == ("s", "boundary_selectedExcisionVars"):
                    return sel
                return None
            def bef(w):
                w.rec = SETTERS
            w = walk(c, P, n, seen, args=lambda F: dict(VL), lay=lay, single=True, getv=getv, before=bef)
            F = w.F
            c.count("boundary options")
            ivs = [j for j in w.ivs if (w.hspan.get(w.ivh.get(j)) or (1,))[0] == 0 and (w.hspan.get(w.ivh.get(j)) or (1, 1))[1] in [vln(w, "VL%d" % k) for k in (0, 1, 3)]]
            def show(x):
                return x.root if isinstance(x, Ptr) and not x.path else repr(x) if isinstance(x, Ptr) else x
            got = [(m, [show(x) for x in a], I, d) for m, a, I, d, _ in w.recs]
            dom = lambda: [[repr((0, vln(w, "VL%d" % k)))] for k in (0, 1, 3)]
            def per(name, mk):
                if [g for g in got if g[0] != name]:
                    g = [g for g in got if g[0] != name][0]
                    fail(c, seen, "%s %s" % (n, opt), w, g[2], "%s: boundary = %s calls %s" % (n, opt, g[0])); return
                if not got:
                    if facestores(w):
                        raise Und("done in place")
                    fail(c, seen, "%s %s" % (n, opt), w, None, "%s: boundary = %s does nothing" % (n, opt)); return
                for g in got:
                    if not any(g[1] == mk(j) for j in ivs):
                        fail(c, seen, "%s %s" % (n, opt), w, g[2], "%s: boundary = %s calls %s for something else" % (n, opt, name)); return
                    if g[3] is not None and g[3] not in dom():
                        fail(c, seen, "%s %s all" % (n, opt), w, g[2], "%s: boundary = %s does not set all variables" % (n, opt)); return
                if len(got) > 1:
                    raise Und("several calls")
            i = lambda k, j: vix(w, "VL%d" % k, j)
            if opt == "radiative":
                per("set_boundary_radiative", lambda j: ["GRID", i(0, j), i(1, j), F.H("arg", 2), i(3, j), F.H("VarFarLimit", i(0, j)), 0 if sel else F.H("VarPropSpeed", i(0, j))])
            elif opt == "radiative_analytic":
                if [g[:2] for g in got] != [("set_boundary_radiative_analytic", ["VL0", "VL1", F.H("arg", 2), "VL3"])]:
                    if not got and facestores(w):
                        raise Und("done in place")
                    fail(c, seen, "%s %s" % (n, opt), w, got[0][2] if got else None, "%s: boundary = %s does not call set_boundary_radiative_analytic for its lists" % (n, opt))
            elif opt in ("constant", "constantExcision"):
                per("set_boundary_constant", lambda j: [CON, i(0, j), i(1, j)])
            elif opt == "simpleExcision":
                per("set_boundary_simpleExcision", lambda j: ["GRID", i(0, j), i(1, j)])
            elif opt == "VonNeumannExcision":
                per("set_boundary_VonNeumannExcision", lambda j: [EXC, i(0, j)])
            elif opt == "selectedconstantExcision" and sel:
                per("set_boundary_constant", lambda j: [SEL, i(0, j), i(1, j)])
            elif opt == "selectedVonNeumannExcision" and sel:
                per("set_boundary_VonNeumannExcision", lambda j: [SEL, i(0, j)])
            elif got or facestores(w):
                fail(c, seen, "%s %s" % (n, opt), w, got[0][2] if got else None, "%s: boundary = %s%s sets boundary values" % (n, opt, " for a variable that is not selected" if "selected" in opt else ""))
        attempt(c, "%s with boundary = %s" % (n, opt), go)


def pointlists(c, lay, seen):
    n = "initialize_BoundaryPointLists"
    P = link([n])
    ALL = {(d, s) for d in A for s in (0, 1)}
    SPH = ("SphericalDF", "compactSphericalDF", "Spherical", "Spherical2", "Spherical3")
    cases = []
    for d in A:
        for wd in ("Fourier", "fd2_periodic"):
            cases.append((None, None, {(d, wd)}))
    for wd in (None,) + SPH:
        for o in ("radiative", "radiative_analytic", "constant", "constantExcision", "simpleExcision", "VonNeumannExcision", "selectedconstantExcision", "selectedVonNeumannExcision"):
            cases.append((o, wd, set()))
    for opt, sph, per in cases:
        def go():
            def getv(w, t, x):
                if t == ("s", "boundary"):
                    return int(x == ("s", opt))
                m = re.search(r"_basis([123])", repr(t))
                if m and isinstance(x, tuple):
                    return int((int(m.group(1)), x[1]) in per)
                if "_Coordinates" in repr(t) and isinstance(x, tuple):
                    return int(x[1] == sph)
                return None
            def bef(w):
                w.rec = ("AddToPointList",)
            w = walk(c, P, n, seen, args=lambda F: {0: Ptr("GRID")}, lay=lay, single=True, getv=getv, before=bef)
            F = w.F
            if w.aborted:
                raise Und("stops")
            c.count("point lists")
            nb = F.H("mem", ("GRID", (("f", "nboxes"),)))
            N = [F.H("mem", ("BOX", (("f", "n%d" % d),))) for d in A]
            stride = [1, N[0], N[0] * N[1] % PM]
            name = {}
            for k, x in w.mem.items():
                if isinstance(k[0], tuple) and k[0][0] == "g" and isinstance(x, Ptr) and isinstance(x.root, tuple) and x.root[0] == "list":
                    name[x.root] = k[0][1]
            got = {}
            for m, a, I, dom, _ in w.recs:
                if not isinstance(a[0], Ptr) or a[0].root not in name:
                    raise Und("a list of unknown origin")
                pl = None
                for d in A:
                    o = [e for e in A if e != d]
                    for sd in (0, 1):
                        for i in w.ivs:
                            for j in w.ivs:
                                if i == j or w.hspan.get(w.ivh.get(i)) != (0, N[o[0] - 1]) or w.hspan.get(w.ivh.get(j)) != (0, N[o[1] - 1]):
                                    continue
                                if a[2] == (sd * (N[d - 1] - 1) * stride[d - 1] + i * stride[o[0] - 1] + j * stride[o[1] - 1]) % PM:
                                    pl = (d, sd)
                if pl is None:
                    fail(c, seen, "%s plane" % name[a[0].root], w, I, "%s: the points added to %s are not those of a face of the box" % (n, name[a[0].root])); return
                got.setdefault(name[a[0].root], []).append((pl, a[1], I))
            want = {"boxBoundaryPointList": ALL - {(d, s) for d, _ in per for s in (0, 1)}}
            last = (nb - 1) % PM
            if opt in ("radiative", "radiative_analytic"):
                want["radiativeBoundaryPointList"] = {(1, 1)} if sph else ALL
            elif opt == "constant":
                want["constantBoundaryPointList"] = {(1, 1)} if sph else ALL
            elif opt == "constantExcision":
                want["constantBoundaryPointList"] = {(1, 0)} if sph else set()
            elif opt in ("simpleExcision", "VonNeumannExcision"):
                want["ExcisionBoundaryPointList"] = {(1, 0)} if sph else set()
            elif opt in ("selectedconstantExcision", "selectedVonNeumannExcision"):
                want["selectedBoundaryPointList"] = {(1, 0)} if sph else set()
            for nm in sorted(set(name.values()) | set(want)):
                g = {x[0] for x in got.get(nm, [])}
                q = want.get(nm, set())
                tag = "%s%s%s" % ("" if opt is None else " with boundary = %s" % opt, "" if sph is None else " and %s coordinates" % sph, "" if not per else " with a %s basis in direction %d" % tuple(reversed(sorted(per)[0])))
                I = got[nm][0][2] if got.get(nm) else None
                if g != q:
                    miss, more = sorted(q - g), sorted(g - q)
                    fail(c, seen, "%s faces" % nm, w, I, "%s%s: %s %s" % (n, tag, nm, "misses faces %s" % miss if miss else "has faces %s that do not belong to it" % more)); return
                for pl, b, I in got.get(nm, []):
                    if nm == "boxBoundaryPointList":
                        ok = b in w.ivs and w.hspan.get(w.ivh.get(b)) == (0, nb)
                    else:
                        ok = b == (0 if "Excision" in str(opt) else last)
                    if not ok:
                        fail(c, seen, "%s box" % nm, w, I, "%s%s: points of the wrong box are added to %s" % (n, tag, nm)); return
        attempt(c, "%s (%s, %s, %s)" % (n, opt, sph, sorted(per)), go)


# ---------------------------------------------------------------- who asks for interface conditions
class UW(BW):
    """a function that imposes conditions for the variables of some lists"""

    def setup(s, roles, decl, V):
        s.roles = roles; s.decl = decl; s.V = V
        s.var_ix = {}
        for a in roles.values():
            for v in a:
                s.var_ix[s.V.ix(v)] = v

    def concrete(s, h):
        if BW.concrete(s, h):
            return True
        # a bound read in the loop condition that is known
        for b in s.cg.loops[h]:
            t = s.f.blocks[b].instrs[-1]
            c = s.f.defs.get(t.ops[0]) if t.op == "br" and t.ops and is_local(t.ops[0]) else None
            if c is None or c.op != "icmp" or not any(x not in s.cg.loops[h] for x in s.cg.succ[b]):
                continue
            for o in c.ops:
                d = s.f.defs.get(o) if is_local(o) else None
                if d is None or d.op != "load":
                    continue
                g = s.f.defs.get(d.ops[0]) if is_local(d.ops[0]) else None
                if g is not None and g.op == "gep" and (g.ops[0] in s.val):
                    p = s.v(g.ops[0])
                    p = s.walkgep(p, g.x, g.ops[1:]) if isinstance(p, Ptr) else None
                    if p is not None and p.root in s.roles and p.path == (("f", "n"),):
                        return True
        return False

    def store(s, I):
        BW.store(s, I)
        p = s.v(I.ops[1])
        if isinstance(p, Ptr):
            s.stb[s.canon(p)] = s.b

    def rel(s, x, a, b):
        # the block is one of the box that is followed
        if s.blk is not None and s.blkbox in (a, b):
            o = b if a == s.blkbox else a
            if o == s.b or o in s.ivs:
                return x in ("eq", "le", "ge")
        return BW.rel(s, x, a, b)

    def list_atoms(s, k, ty):
        root, path = k
        if root in s.roles and path == (("f", "n"),):
            return len(s.roles[root])
        if isinstance(root, tuple) and root[0] == "ld" and root[1] in s.roles and root[2] == (("f", "index"),) and ty == "i32":
            q = s.F.small(path[0][1]) if path else 0
            a = s.roles[root[1]]
            if q is None or int(q) % 4 or int(q) // 4 >= len(a) or q < 0:
                raise Und("an element that is not in the list")
            return s.V.ix(a[int(q) // 4])
        if isinstance(root, tuple) and root[0] == "ld" and root[2] == (("f", "vlPars"),):
            if path == (("f", "vari"),):
                return s.V.ix(s.blk) if s.blk else None
            if path == (("f", "bi"),):
                return s.blkbox
        return None

    def isnull(s, p):
        r = p.root
        if isinstance(r, tuple) and r[0] == "ld" and r[1] in s.roles and r[2] == (("f", "vlPars"),):
            return s.blk is None
        m = s.M.vname(p)
        if m in ("x", "y", "z"):
            return s.nox
        return BW.isnull(s, p)

    def hooked(s, w, I, n, a):
        if n in ("VarNComponents", "VarComponent") and len(a) == 1 and a[0] in s.var_ix:
            g, comps, k = p25.group(s.decl, s.var_ix[a[0]][0])
            if g is not None:
                return len(comps) if n == "VarNComponents" else s.var_ix[a[0]][1]
            raise Und("components")
        return BW.hooked(s, w, I, n, a)


class V:
    def __init__(s, F):
        s.F = F

    def ix(s, v):
        return s.F.add(s.F.H("Ind", v[0]), v[1])


SETB = ("set_interbox_BCs_for_bface", "set_interbox_BCs_for_boxbfaces", "set_interbox_BC_onface")


def content(P0, T, nm, args, decl, bcn):
    """what the lists hold when the conditions are imposed: variable -> (direction, unknown) where it is a first derivative"""
    F = algv.Field(1); F.generic = True
    for sd in range(1, 60):
        F = algv.Field(sd); F.generic = True
        M = p25.Model(T, F, args, False, {}, set(args[1]), len(args[1]))
        M.decl = decl; M.bcnames = bcn
        w = p25.W(T, body(T, nm), F, M)
        try:
            w.run()
        except algv.Retry:
            continue
        if w.aborted:
            continue
        r = {}
        for l in args:
            for v in l or []:
                x = M.content(v)
                for u in args[1]:
                    for d in A:
                        if x is not None and p25.val(x) == F.H("D", (d,), F.H("u", u)):
                            r[v] = (d, u)
        return M.bcs, r
    raise Und("%s: no path" % nm)


def users(c, P0, lay, seen):
    decl = p17.declarations("main")
    done = 0
    calls = {base(f.name): f for f in P0.funcs.values() if UNIT not in f.src and any(I.op == "call" and is_glob(I.callee) and base(I.callee[1:]) in SETB for I in f.instrs())}
    for f, I in list(p25.newtons(P0)):
        names = [base(o[1:]) if is_glob(o) else None for o in I.ops[:2]]
        fl = p25.lists(P0, f, decl)
        if fl is None or None in names:
            continue
        g = next((x for x in P0.funcs.values() if base(x.name) == names[0]), None)
        if g is None:
            continue
        d = unit(g)
        if not any(unit(x) == d for x in calls.values()):
            continue
        L = lambda k: fl.get(I.ops[k])
        args = [L(3), L(2), L(4), L(5)]
        if args[0] is None or args[1] is None:
            continue
        bcn = set()
        for q in g.instrs():
            if q.op == "call" and is_glob(q.callee) and g.params and any(o == p25.pname(g, 0) for o in q.ops) and body(P0, base(q.callee[1:])) is not None:
                bcn.add(base(q.callee[1:]))
        def go():
            allsrc = {base(x.name) for x in P0.funcs.values()}
            T = ir.load_linked("main", lambda p: irbuild.os.path.dirname(p) == d, [names[0]], lambda n: n in p25.DERIVS or n in bcn or n in allsrc and body(P0, n) is not None and unit(body(P0, n)) != d, "mem2reg,simplifycfg")
            bcs, cont = content(P0, T, names[0], args, decl, bcn)
            for n, a, J in bcs:
                one(c, P0, lay, seen, d, n, a, args, cont, decl)
        attempt(c, "the conditions %s imposes" % names[0], go)
        done += 1
    if not done:
        c.notes.append("no user of the interface conditions is followed")


def one(c, P0, lay, seen, d, n, a, args, cont, decl):
    U = link([n], d + "/")
    f = body(U, n)
    roles = {}
    amap = {}
    F0 = algv.Field(0)
    flags = []
    for k, x in enumerate(a):
        if isinstance(x, Ptr) and isinstance(x.root, tuple) and x.root[0] == "arg" and x.root[1] < 4 and args[x.root[1]] is not None and not x.path:
            r = "VL%d" % x.root[1]
            roles[r] = args[x.root[1]]; amap[k] = Ptr(r)
        elif isinstance(x, int) and F0.small(x) is not None:
            amap[k] = x; flags.append(k)
    if "VL0" not in roles or "VL1" not in roles:
        raise Und("%s gets other lists" % n)
    nu = len(args[1])
    for case in [("interface", None)] + [("interface first", None)] + [("interface", j) for j in range(nu)] + [("outer", None), ("outer without x", None), ("inner", None)]:
        kind, blk = case
        for fl in ((0, 1) if kind.startswith("outer") and flags else (None,)):
            w = None
            for sd in range(60):
                F = algv.Field(sd); F.generic = True
                m = dict(amap)
                if fl is not None:
                    for k in flags:
                        m[k] = fl
                w = UW(U, f, F, args=m, lay=lay, ob={"interface": True, "interface first": "first"}.get(kind, False), flags=BITS["touch"] | (BITS["outerbound"] if kind.startswith("outer") else 0), hooks=lambda w, k, ty: w.list_atoms(k, ty))
                w.setup(roles, decl, V(F)); w.stb = {}; w.rec = SETB; w.recs = []
                w.blk = args[1][blk] if blk is not None else None; w.nox = kind == "outer without x"
                w.single = True; w.blkbox = None; w.f = f
                # in single mode the box is the one of the loop
                w.blkbox = F.H("the block box"); w.pin = True
                try:
                    w.run()
                    break
                except algv.Retry:
                    w = None
            if w is None:
                raise Und("no path")
            if w.aborted:
                raise Und("stops")
            conditions(c, w, n, kind, blk, args, cont, seen, fl)


def conditions(c, w, n, kind, blk, args, cont, seen, fl):
    F = w.F
    V = w.V
    st = facestores(w)
    res = {w.vroot("BOX", V.ix(v)): j for j, v in enumerate(args[0][:len(args[1])])}
    c.count("conditions asked for")
    for k in st:
        if k[0] not in res:
            fail(c, seen, "%s elsewhere" % n, w, w.by.get(k), "%s: stores into something other than the residuals" % n); return
    if kind.startswith("interface"):
        got = set()
        for m, a, I, dom, loc in w.recs:
            if m != "set_interbox_BCs_for_bface" or len(a) != 4:
                raise Und(m)
            j = next((j for j, v in enumerate(args[0][:len(args[1])]) if V.ix(v) == a[0]), None)
            if j is None:
                fail(c, seen, "%s residual" % n, w, I, "%s: an interface condition is stored in something that is not a residual" % n); return
            u = args[1][j]
            if V.ix(u) != a[2]:
                fail(c, seen, "%s unknown" % n, w, I, "%s: the condition for %s is imposed on another variable" % (n, u[0])); return
            if not isinstance(a[1], Ptr) or a[1].root != "FACE":
                fail(c, seen, "%s face" % n, w, I, "%s: the condition is for another face" % n); return
            ds = loc.get(3)
            if ds is None:
                raise Und("the derivatives")
            back = {V.ix(v): v for l in args for v in l or []}
            for q, x in enumerate(ds):
                v = back.get(x)
                if v is None or cont.get(v) != (q + 1, u):
                    if v is None and not cont:
                        raise Und("the derivatives")
                    fail(c, seen, "%s derivatives" % n, w, I, "%s: the condition for %s gets %s as derivative %d" % (n, u[0], "%s+%d" % v if v else "another variable", q + 1)); return
            if j in got:
                raise Und("twice")
            got.add(j)
        if blk is None:
            miss = set(range(len(args[1]))) - got
            if miss and not st:
                fail(c, seen, "%s missing" % n, w, None, "%s: no interface condition for %s" % (n, args[1][min(miss)][0])); return
        elif got - {blk}:
            fail(c, seen, "%s block" % n, w, None, "%s: sets conditions for variables outside the block that is solved for" % n); return
        return
    if w.recs:
        fail(c, seen, "%s without box" % n, w, w.recs[0][2], "%s: asks for an interface condition where there is no other box" % n); return
    if kind == "inner":
        for k in st:
            j = res[k[0]]
            for h in w.cg.loops:
                p = k[1][0][1] * pow(8, -1, PM) % PM if len(k[1]) == 1 else 0
                d = (w.var("BOX", V.ix(args[1][j]), p) - w.mem[k]) % PM
                if any(x.startswith("('outer'") and F.memo[x] == d for x in F.memo):
                    fail(c, seen, "%s inner" % n, w, w.by.get(k), "%s: the outer condition is imposed on a face that is not an outer boundary" % n); return
        return
    X = ("ld", "FACE", (("f", "fpts"),))
    got = set()
    for k in st:
        b = w.stb.get(k)
        if b is None:
            raise Und("the box")
        L = ("ld", ("ld", X, (("f", "point"),)), (("o", 8 * b % PM),))
        h = next((h for h in w.cg.loops if k[1] == (("o", 8 * w.pt(L, h) % PM),)), None)
        j = res[k[0]]
        if h is None:
            fail(c, seen, "%s points" % n, w, w.by.get(k), "%s: the outer condition is not set at the points of the face" % n); return
        p = w.pt(L, h)
        u = w.var("BOX", V.ix(args[1][j]), p)
        x = tuple(coords(w, "BOX", p, "xyz" if kind == "outer" else "XYZ"))
        d = (u - w.mem[k]) % PM
        o = {F.memo[q]: q for q in F.memo if q.startswith("('outer'")}
        hit = o.get(d)
        if hit is None:
            raise Und("the outer condition")
        if not hit.endswith(", %r)" % (x,)):
            fail(c, seen, "%s outer coordinates" % n, w, w.by.get(k), "%s: the outer boundary function is not called for (%s) of the point" % (n, "x,y,z" if kind == "outer" else "X,Y,Z")); return
        dm = w.dom.get(k)
        # (the passes of an unrolled loop over the variables number the boxes afresh)
        if dm is not None and not any(repr((0, w.npts("FACE", q))) in dm for q in w.stb.values()):
            fail(c, seen, "%s outer points" % n, w, w.by.get(k), "%s: the outer condition is not set at all points of the face" % n); return
        got.add(j)
    if len(got) < len(args[1]):
        fail(c, seen, "%s outer missing" % n, w, None, "%s: no outer condition for %s" % (n, args[1][min(set(range(len(args[1]))) - got)][0]))


def run(tier):
    c = Check("P27", tier, RULE)
    P0 = ir.load("main", "seq")
    lay = layout(P0)
    c.require(lay is not None, "sgrid_Coordinates")
    seen = set()
    names = {base(f.name) for f in P0.funcs.values() if UNIT in f.src}
    ent = [x for x in ("boxface_normal_at_ijk", "boxface_outwarddir_at_ijk", "boxface_normal_at_XYZ", "boxface_outwarddir_at_XYZ", "set_interbox_BCs_for_bface", "set_interbox_BCs_for_boxbfaces",
                       "set_interbox_BC_onface", "set_boundary_radiative", "set_boundary_radiative_analytic", "set_boundary_constant", "set_boundary_value", "set_boundary_simpleExcision",
                       "set_boundary_VonNeumannExcision", "set_boundary_normalderiv_leftBound", "set_boundary_normalderiv_rightBound") if x in names]
    P = link(ent)
    normals(c, P, lay, seen)
    interfaces(c, P, lay, seen)
    lists(c, P, lay, seen)
    dispatch(c, lay, seen)
    pointlists(c, lay, seen)
    users(c, P0, lay, seen)
    c.floor("face normals", 20); c.floor("conditions on lists of points", 6); c.floor("boundary options", 6); c.floor("point lists", 10); c.floor("conditions asked for", 4)
    c.assume.append("spectral interpolation gives the value of the field at the point asked for, and the derivative operators the derivatives; forallboxes meets no inactive box")
    c.sample("residual at a face point of box b: u[p] - interpolation(u', X', Y', plane) with X', Y' the stored coordinates of p in the other box")
    return c
