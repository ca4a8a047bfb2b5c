"""P22: spectral operations act along the direction they are asked for, with the grid, interval and functions of that direction."""
import itertools, re
from sgv import ir, algv
from sgv.val import *
from sgv.cfg import *
from sgv.sx import base
from sgv.report import Check

RULE = ("Abstract interpretation of the functions that take lines out of 3-d arrays: an array is described by what it was computed from and by the operations applied to it "
        "per direction (coefficients, derivative, evaluation, filter, integral), a line by array, direction and the two indices it was taken at, a matrix or a "
        "function pointer of the box by operation and direction. Every operation has to meet a line of its own direction, with the number of points and the interval "
        "of that direction; a line has to go back to where it was taken from, for all lines of the box; at the end each output has to hold exactly the operation that "
        "the function stands for. Sums and pointwise factors are compared as numbers in a prime field.")

SPECTRAL = "/Spectral/"
PM = algv.PM
Ptr = algv.Ptr
NN = ("n1", "n2", "n3")


class Und(Exception):
    pass


class Bad(Exception):
    def __init__(s, text, I=None):
        Exception.__init__(s, text); s.I = I


class L:
    """what a 3-d array holds"""
    def __init__(s, src, words=((), (), ()), rep=(0, 0, 0), dom=None):
        s.src = src; s.words = words; s.rep = rep; s.dom = dom

    def key(s):
        return (s.src, tuple(tuple(sorted(w)) for w in s.words), s.rep, s.dom)

    def __eq__(s, o):
        return isinstance(o, L) and s.key() == o.key()

    def __repr__(s):
        t = []
        for d in range(3):
            for w in s.words[d]:
                t.append({"D": "d/dX%d", "F": "filter%d", "S": "integral%d", "I": "antiderivative%d", "M": "matrix%d"}.get(w, w + "%d") % (d + 1))
        t = " ".join(t) + (" of " if t else "") + str(s.src)
        c = [str(d + 1) for d in range(3) if s.rep[d]]
        if c:
            t = "coefficients in direction %s of %s" % (",".join(c), t)
        return t + (" in plane %s" % (s.dom,) if s.dom else "")

    def apply(s, d, op):
        w = list(s.words); r = list(s.rep)
        need, new, add = {"C": (0, 1, ()), "E": (1, 0, ()), "d": (1, 1, ("D",)), "d2": (1, 1, ("D", "D")), "D": (0, 0, ("D",)), "DD": (0, 0, ("D", "D")),
                          "F": (0, 0, ("F",)), "f": (1, 1, ("F",)), "i": (1, 1, ("I",)), "Int": (0, 0, ("I",)), "S": (0, 0, ("S",)), "M": (None, None, ("M",))}[op]
        if need is not None and r[d - 1] != need:
            raise Bad("%s is applied to %s of direction %d" % (NAME[op], "coefficients" if r[d - 1] else "values, not to coefficients,", d))
        if new is not None:
            r[d - 1] = new
        w[d - 1] = w[d - 1] + add
        return L(s.src, tuple(w), tuple(r), s.dom)


NAME = {"C": "the transformation to coefficients", "E": "the evaluation of coefficients", "d": "the derivative of coefficients", "d2": "the second derivative of coefficients",
        "D": "the derivative matrix", "DD": "the second derivative matrix", "F": "the filter matrix", "f": "the filter of coefficients", "i": "the integral of coefficients",
        "Int": "the integration matrix", "S": "the integral", "M": "the matrix"}
SLOT = {"get_coeffs": "C", "coeffs_of_deriv": "d", "coeffs_of_2ndderiv": "d2", "coeffs_of_int": "i", "eval_onPoints": "E", "filter_coeffs": "f", "basis": "b"}
MAT = {"D": "D", "DD": "DD", "F": "F", "Mcoeffs": "C", "Meval": "E", "Int": "Int"}
KERNEL = {"cheb_coeffs_fromExtrema": "C", "cheb_coeffs_fromZeros": "C", "four_coeffs": "C", "fd2_coeffs": "C", "cheb_deriv": "d", "four_deriv": "d", "cheb_eval_onExtrema": "E", "cheb_eval_onZeros": "E",
          "four_eval": "E", "fd2_eval": "E"}
#                function -> (operation, direction argument, in, out)
ARRAYOPS = {"spec_analysis1": (("C",), 1, 2, 3), "spec_synthesis1": (("E",), 1, 3, 2), "spec_Deriv1": (("D",), 1, 2, 3), "spec_Deriv2": (("DD",), 1, 2, 3),
            "spec_filter1": (("F",), 1, 2, 2), "spec_Integral1": (("S",), 1, 2, 3), "spec_Int1": (("Int",), 1, 2, 3)}
PLANEOPS = {"spec_analysis1_inplaneN": (("C",), 1, 2, 3, 4, 5), "spec_synthesis1_inplaneN": (("E",), 1, 2, 3, 5, 4)}
KEEP = set(ARRAYOPS) | set(PLANEOPS) | {"get_memline", "put_memline", "matrix_times_vector", "vector_times_matrix", "scalarproduct_vectors", "cheb_d1", "cheb_d2", "spec_3dIntegral", "spec_2dIntegral",
                                        "get_spec_functionpointers", "spec_Basis_times_CoeffMatrix_direc", "initMatrix_ForCoeffs", "initMatrix_ToEvaluate", "initdiffmatrix", "initdiffmatrix2",
                                        "initfiltermatrix", "initIntegrationMatrix", "BoxVolumeIntegral", "get_spec_functionpointers_from_pars", "fdcentered_deriv_onesidedBC"} | set(KERNEL)


def ofdir(n):
    """direction of a function that works along one direction only"""
    m = re.match(r"^(?:SGRID_)?(fdcentered_deriv([123])_onesidedBC|fd_basis([123]))$", n)
    return int(m.group(2) or m.group(3)) if m else None


class LW(algv.Walk):
    zeroth = False
    def __init__(s, P, f, F, args=None, arrays=None, roles=None, flags=None, ab=None, vline=None):
        algv.Walk.__init__(s, P, f, F, args=args, hook=type(s).hooked, atom=s.atoms)
        s.icall = LW.icalled
        s.arr = {}
        for k, v in (arrays or {}).items():
            s.arr[(("arg", k), ())] = v
        s.roles = roles or {}       # argument -> operation of the function or matrix it is
        s.flags = flags or {}       # box field -> value
        s.ab = ab                   # interval the derivative functions have to be given
        s.line = {}
        s.pend = {}
        s.pre = {}
        s.reads = {}
        s.bound = {}
        s.plane = {}
        s.elem = {}
        s.matrix = {}
        s.hash = set()
        s.puts = []
        s.fnp = {}
        s.nops = 0
        s.vline = vline or {}
        s.initial = None
        s.less = []
        s.kcalls = []
        s.peeled = False

    # ------------------------------------------------------------- names
    def atoms(s, k, ty):
        if k[0] == "BOX" and (len(k[1]) == 1 or k[1] and k[1][0] == ("f", "x_of_X")) and k[1][0][1] in s.flags:
            return s.flags[k[1][0][1]]
        return None

    def canon(s, p):
        return (p.root, p.path)

    def n(s, d):
        return s.F.H("mem", ("BOX", (("f", NN[d - 1]),)))

    def bbox(s, k):
        p = (("f", "bbox"),) + ((("o", 8 * k),) if k else ())
        return s.F.H("mem", ("BOX", p))

    def split(s, p):
        if not isinstance(p, Ptr):
            raise Und("address")
        if p.path and p.path[-1][0] == "o":
            return (p.root, p.path[:-1]), p.path[-1][1]
        return (p.root, p.path), 0

    def isline(s, k):
        if k in s.arr or k in s.pend:
            return False
        r = k[0]
        if k in s.line or k in s.vline:
            return True
        return isinstance(r, tuple) and (r[0] in ("res", "loc", "memo") or r[0] == "ld" and isinstance(r[1], tuple) and r[1][0] in ("g", "loc"))

    def isarr(s, k):
        return not s.isline(k)

    # ------------------------------------------------------------- loops
    def firstphi(s, I, h, inc):
        if s.f.blocks[h].instrs[0] is I:
            for k in [k for k in s.pre if k[0] == h]:
                del s.pre[k]
        if isinstance(inc, int) and inc in s.plane:
            return inc                      # a loop over the one plane
        if I.name in s.S.ranges and isinstance(s.S.ranges[I.name][1], int) and I.ty != "ptr":
            return s.counter(h, I.name)
        if isinstance(inc, int) and not isinstance(inc, bool) and I.ty in ("i32", "i64"):
            st = s.stride(I, h)
            iv = s.main(h, I.name) if st is not None else None
            if iv is not None:
                i0 = s.v(s.S.ranges[iv[1]][1])
                return s.F.add(inc, s.F.mul(st, s.F.mul(iv[2] % PM, s.F.sub(iv[0], i0))))
        if isinstance(inc, Ptr) and I.ty == "ptr":
            # a pointer that moves by the same amount in each iteration
            back = next((o for o, p in zip(I.ops, I.x) if p in s.cg.loops[h]), None)
            d = s.f.defs.get(back) if is_local(back) else None
            if d is not None and d.op == "gep" and d.ops[0] == I.name and len(d.ops) == 2:
                x = d.ops[1]
                while is_local(x) and s.f.defs.get(x) is not None and s.f.defs[x].op in ("sext", "zext") and s.f.defs[x].blk in s.cg.loops[h]:
                    x = s.f.defs[x].ops[0]
                if not is_local(x) or x in s.val and (s.f.defs.get(x) is None or s.f.defs[x].blk not in s.cg.loops[h]):
                    for nm, (hh, init, st) in s.S.ranges.items():
                        if hh == h and st in (1, -1):
                            iv = s.counter(h, nm)
                            i0 = s.v(init)
                            k = s.F.mul(st % PM, s.F.sub(iv, i0))
                            return inc.step(s.F, ("o", s.F.mul(algv.sizeof(s.P, d.x), s.F.mul(s.v(x), k))))
        return None

    def counter(s, h, nm):
        iv = s.pre.get((h, nm))
        if iv is None:
            iv = s.F.H("iv", len(s.ivs))
            s.ivs.append(iv); s.ivh[iv] = h; s.pre[(h, nm)] = iv
        return iv

    def main(s, h, but):
        """(value, name, step) of the counter of a loop that starts from a constant or has no other"""
        for nm, (hh, init, st) in s.S.ranges.items():
            if hh == h and st in (1, -1) and nm != but and isinstance(init, int):
                iv = s.counter(h, nm)
                return iv, nm, st
        return None

    def stride(s, I, h, d=0):
        """by how much a number grows in an iteration of the loop; None if it is not known"""
        if d > 5:
            return None
        if d == 0 and (I.name not in s.S.ranges or isinstance(s.S.ranges[I.name][1], int)):
            if I.name in s.S.ranges:
                return None
        back = [o for o, p in zip(I.ops, I.x) if p in s.cg.loops[h]]
        if len(set(map(repr, back))) != 1 or not is_local(back[0]):
            return None
        D = s.f.defs.get(back[0])
        for _ in range(4):
            if D is not None and D.op == "phi" and D.blk not in s.cg.loops and len(D.ops) == 1 and is_local(D.ops[0]):
                D = s.f.defs.get(D.ops[0])
        if D is None:
            return None
        if D.op == "add" and I.name in D.ops:
            x = D.ops[1] if D.ops[0] == I.name else D.ops[0]
            if isinstance(x, int):
                return x % PM
            if is_local(x) and x in s.val and (s.f.defs.get(x) is None or s.f.defs[x].blk not in s.cg.loops[h]):
                v = s.val[x]
                return v if isinstance(v, int) else None
            return None
        if D.op == "phi" and D.blk in s.cg.loops and D.blk != h and D.blk in s.cg.loops[h]:
            init = [o for o, p in zip(D.ops, D.x) if p not in s.cg.loops[D.blk]]
            if init != [I.name]:
                return None
            q = s.stride(D, D.blk, d + 1)
            t = s.trips(D.blk, h)
            return None if q is None or t is None else s.F.mul(q, t)
        return None

    def trips(s, g, h):
        """number of iterations of an inner loop, if its bounds are known outside of h"""
        for nm, (hh, init, st) in s.S.ranges.items():
            if hh != g or st != 1 or not isinstance(init, int):
                continue
            t = s.f.blocks[g].instrs[-1]
            D = s.f.defs.get(t.ops[0]) if t.op == "br" and t.ops and is_local(t.ops[0]) else None
            if D is None or D.op != "icmp" or D.x not in ("slt", "ne") or D.ops[0] != nm or t.x[0] not in s.cg.loops[g] or t.x[1] in s.cg.loops[g]:
                continue
            if any(x not in s.cg.loops[g] for b in s.cg.loops[g] if b != g for x in s.cg.succ[b] if s.f.blocks[x].instrs[-1].op != "unreachable"):
                continue
            x = D.ops[1]
            if isinstance(x, int):
                return (x - init) % PM
            if is_local(x) and x in s.val and (s.f.defs.get(x) is None or s.f.defs[x].blk not in s.cg.loops[h]):
                return s.F.sub(s.val[x], init) if isinstance(s.val[x], int) else None
        return None

    def rel(s, x, a, b):
        for p, q in s.less:
            if (a, b) == (p, q) and x in ("lt", "le", "gt", "ge", "eq", "ne"):
                return x in ("lt", "le", "ne")
            if (a, b) == (q, p) and x in ("lt", "le", "gt", "ge", "eq", "ne"):
                return x in ("gt", "ge", "ne")
        F = s.F
        if isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool) and not isinstance(b, bool):
            flip = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}
            for p, q, y in ((a, b, x), (b, a, flip.get(x, x))):
                if p in s.ivs and not s.isexit(p):
                    s.peeled = True
                    continue
                if p in s.ivs or p in s.plane:
                    if y == "lt":
                        s.bound.setdefault(p, {})["hi"] = q; return True
                    if y == "le":
                        s.bound.setdefault(p, {})["hi"] = F.add(q, 1); return True
                    if y == "ge":
                        s.bound.setdefault(p, {})["lo"] = q; return True
                    if y == "gt":
                        s.bound.setdefault(p, {})["lo"] = F.add(q, 1); return True
        if isinstance(a, int) and isinstance(b, int) and F.small(F.sub(a, b)) is None and x in ("lt", "le", "gt", "ge"):
            s.hash.add(s.cur)
        return algv.Walk.rel(s, x, a, b)

    def isexit(s, iv):
        """the comparison at hand can end the loop of the counter"""
        t = s.f.blocks[s.cur.blk].instrs[-1]
        h = s.ivh.get(iv)
        return t.op == "br" and t.ops and any(x not in s.cg.loops.get(h, ()) for x in t.x)

    def ev(s, I):
        if I.op == "fcmp":
            s.cur = I
        return algv.Walk.ev(s, I)

    def compare(s, I, a, b):
        s.cur = I
        if isinstance(a, Ptr) and isinstance(b, Ptr) and I.x in ("eq", "ne"):
            if a == b:
                return I.x == "eq"
            return I.x == "ne"              # pointers of different origin differ, none is NULL
        return algv.Walk.compare(s, I, a, b)

    def domain(s, b):
        return None

    def loops(s, blk):
        return frozenset(h for h in s.cg.loops if blk in s.cg.loops[h] and s.state.get(h) == "first")

    def closed(s, hs):
        return any(s.state.get(h) != "first" for h in hs)

    def span(s, v):
        """(first, end) of the values of a loop counter"""
        h = s.ivh.get(v)
        nm = next((n for (hh, n), r in s.red.items() if hh == h and r.get("first") == v), None)
        if nm is None or nm not in s.S.ranges:
            return None
        st = s.S.ranges[nm][2]
        init = s.red[(h, nm)]["init"]
        b = s.bound.get(v, {})
        if isinstance(st, int) and st > 1 and "hi" in b:
            return init, b["hi"], st
        if st == 1 and "hi" in b:
            return init, b["hi"]
        if st == -1 and "lo" in b and isinstance(init, int):
            return b["lo"], s.F.add(init, 1)
        return None

    def covers(s, v, e, what):
        """v has to run over all points of direction e"""
        F = s.F
        if v in s.plane:
            if s.plane[v] != e:
                raise Bad("%s: the index of the plane is used in direction %d" % (what, e))
            return ("plane", v)
        if v not in s.ivs:
            return ("fixed", v)
        sp = s.span(v)
        if sp is None:
            raise Und("loop")
        for x, w, t in ((sp[0], 0, "starts at"), (sp[1], s.n(e), "ends at")):
            if x == w:
                continue
            for y, nm in [(s.n(q), "n%d" % q) for q in (1, 2, 3)] + [(0, "0")]:
                if isinstance(x, int):
                    q = F.small(F.sub(x, y))
                    if q is not None and abs(q) <= 8:
                        raise Bad("%s: the loop over direction %d %s %s%s" % (what, e, t, nm, "%+d" % q if q else ""))
            raise Und("loop bounds")
        return ("all",)

    # ------------------------------------------------------------- arrays and lines
    def commit(s, k=None):
        for x in [x for x in s.pend if k is None or x == k]:
            l, d, ix, I, hs = s.pend[x]
            if s.closed(hs):
                s.arr[x] = l
                del s.pend[x]

    def array(s, k):
        s.commit(k)
        if k not in s.arr:
            s.arr[k] = s.initial(k) if s.initial else L(k if not (isinstance(k[0], tuple) and k[0][0] == "arg") else "argument %d" % k[0][1])
        return s.arr[k]

    def getl(s, k, d, ix, I):
        s.commit(k)
        if k in s.pend:
            l, d0, ix0, I0, hs = s.pend[k]
            if (d0, ix0) != (d, ix):
                raise Bad("lines of an array are read along direction %d at other indices than those along direction %d which the same loop stores" % (d, d0), I)
            return l
        l = s.array(k)
        if l.dom is not None:
            e = l.dom[0]
            o = [q for q in (1, 2, 3) if q != d]
            if e == d:
                raise Bad("a line normal to the plane the coefficients are in", I)
            if ix[o.index(e)] != l.dom[1]:
                raise Bad("a line that is not in the plane the coefficients are in", I)
        s.reads.setdefault(k, []).append((d, ix, s.loops(I.blk)))
        return l

    def putl(s, k, content, d, ix, I):
        if content is None:
            raise Und("content of a line")
        if content[0] != "line":
            raise Und("content of a line")
        _, l, d0, ix0 = content
        if d0 != d:
            raise Bad("a line of direction %d is stored as a line of direction %d" % (d0, d), I)
        if ix0 != ix:
            raise Bad("a line is stored at other indices than those it was taken from", I)
        o = [q for q in (1, 2, 3) if q != d]
        dom = None
        for v, e in zip(ix, o):
            x = s.covers(v, e, "lines of direction %d" % d)
            if x[0] in ("plane", "fixed"):
                if x[0] == "fixed" and dom:
                    raise Und("single line")
                dom = (e, v)
        hs = s.loops(I.blk)
        for d1, ix1, h1 in s.reads.get(k, []):
            if (d1, ix1) != (d, ix) and h1 & hs and not s.closed(h1 & hs):
                raise Bad("an array is changed along direction %d while lines along direction %d are taken from it" % (d, d1), I)
        if dom is not None:
            l = L(l.src, l.words, l.rep, dom)
        elif l.dom is not None:
            raise Und("whole array from a plane")
        s.conditional(I)
        s.pend[k] = (l, d, ix, I, hs)
        s.nops += 1

    def conditional(s, I):
        """every iteration gets to I, or to another store"""
        cg = s.cg
        hs = [h for h in cg.loops if I.blk in cg.loops[h]]
        if not hs:
            return
        h = min(hs, key=lambda x: len(cg.loops[x]))
        def stores(b):
            return any(i.op == "store" and i.ops[0] not in s.S.ranges or i.op == "call" and is_glob(i.callee) and base(i.callee[1:]) in ("put_memline", "matrix_times_vector") for i in s.f.blocks[b].instrs)
        for b in cg.loops[h]:
            t = s.f.blocks[b].instrs[-1]
            if t.op != "br" or not t.ops or any(x not in cg.loops[h] for x in t.x):
                continue
            d = s.f.defs.get(t.ops[0]) if is_local(t.ops[0]) else None
            if d is None or d not in s.hash:
                continue
            for x in t.x:
                seen = set(); todo = [x]; hit = False
                reach = False
                while todo:
                    y = todo.pop()
                    if y in seen:
                        continue
                    seen.add(y)
                    if y == I.blk or stores(y):
                        hit = True; continue
                    for z in cg.succ[y]:
                        if z == h:
                            reach = True
                        elif z in cg.loops[h]:
                            todo.append(z)
                if reach:
                    raise Bad("not every line is stored: %s" % "a condition skips some", t)

    def direct(s, p):
        """a pointer into an array as a line of direction 1: ((array), (j,k))"""
        k, o = s.split(p)
        n1, n2 = s.n(1), s.n(2)
        cand = [v for v in s.ivs if s.state.get(s.ivh.get(v)) == "first"] + list(s.plane) + [0]
        F = s.F
        for j in cand:
            for kk in cand:
                if o == 8 * n1 * (j + n2 * kk) % PM:
                    return k, (j, kk)
        raise Und("line of an array")

    def source(s, p, I):
        """content of the line a pointer points to"""
        k, o = s.split(p)
        if s.isline(k):
            if k in s.vline:
                return s.vline[k]
            if o != 0:
                raise Und("part of a line")
            c = s.line.get(k)
            if c is None:
                raise Und("content of a line buffer")
            return c
        k, ix = s.direct(p)
        return ("line", s.getl(k, 1, ix, I), 1, ix)

    def sink(s, p, content, I):
        k, o = s.split(p)
        if s.isline(k):
            if o != 0:
                raise Und("part of a line")
            s.line[k] = content
            return
        k, ix = s.direct(p)
        s.putl(k, content, 1, ix, I)

    def size(s, v, d, I, what, off=0):
        w = s.F.add(s.n(d), off)
        if v == w:
            return
        for q in (1, 2, 3):
            if isinstance(v, int):
                x = s.F.small(s.F.sub(v, s.n(q)))
                if x is not None and abs(x) <= 4:
                    raise Bad("%s of direction %d is told that there are n%d%s points" % (what, d, q, "%+d" % (x - off) if x != off else ""), I)
        raise Und("number of points")

    def same(s, p, q):
        return isinstance(p, Ptr) and isinstance(q, Ptr) and p == q

    def op(s, o, d, content, I):
        """apply operation o of direction d (None: of no particular direction) to the content of a line"""
        if content[0] == "unit":
            return ("unit", content[1], content[2] + (o,))
        if content[0] != "line":
            raise Und("content of a line")
        _, l, dl, ix = content
        if d is not None and d != dl:
            raise Bad("%s of direction %d is applied to a line of direction %d" % (NAME[o], d, dl), I)
        try:
            return ("line", l.apply(dl, o), dl, ix)
        except Bad as e:
            e.I = e.I or I
            raise

    def role(s, p):
        """(operation, direction) of a function pointer or matrix"""
        if not isinstance(p, Ptr):
            raise Und("function pointer")
        r = p.root
        if isinstance(r, tuple) and r[0] == "ld" and r[1] == "BOX" and len(r[2]) == 1 and not p.path:
            m = re.match(r"^([A-Za-z_0-9]*?)([123])$", r[2][0][1])
            if m and m.group(1) in SLOT:
                return SLOT[m.group(1)], int(m.group(2))
            if m and m.group(1) in MAT:
                return MAT[m.group(1)], int(m.group(2))
        if isinstance(r, tuple) and r[0] == "arg" and not p.path and r[1] in s.roles:
            x = s.roles[r[1]]
            return x if isinstance(x, tuple) else (x, None)
        if isinstance(r, tuple) and r[0] == "g" and r[1] in KERNEL:
            return KERNEL[r[1]], None
        k = (p.root, p.path)
        if k in s.matrix:
            return s.matrix[k], None
        raise Und("function pointer")

    def kernel(s, o, d, a, I):
        """call of a one-dimensional function"""
        if o == "C":
            out, inp, nn, ab = a[0], a[1], a[2], None
        elif o == "E":
            inp, out, nn, ab = a[0], a[1], a[2], None
        elif o in ("d", "d2"):
            inp, out, nn, ab = a[3], a[4], a[5], (a[1], a[2])
        elif o == "i":
            inp, out, nn, ab = a[2], a[3], a[4], (a[0], a[1])
        elif o == "f":
            c = s.source(a[0], I)
            s.sink(a[0], s.op("f", d, c, I), I)
            return 0
        else:
            raise Und("function")
        c = s.source(inp, I)
        if s.same(inp, out) and o in ("C", "E", "d", "d2"):
            raise Bad("%s works on its own input" % NAME[o], I)
        dl = c[2] if c[0] == "line" else None
        if c[0] == "unit":
            if nn != s.F.sub(s.unitn, 1):
                q = s.F.small(s.F.sub(nn, s.unitn)) if isinstance(nn, int) else None
                if q is not None:
                    raise Bad("%s is told the last index is n%+d" % (NAME[o], q), I)
                raise Und("number of points")
        else:
            s.size(nn, dl, I, NAME[o], -1)
        if ab is not None:
            want = s.ab if c[0] == "unit" else (s.bbox(2 * dl - 2), s.bbox(2 * dl - 1))
            if want is None:
                raise Und("interval")
            if ab != want:
                raise Bad("%s is not given the interval of %s" % (NAME[o], "direction %d" % dl if dl else "the direction of the matrix"), I)
        s.sink(out, s.op(o, d, c, I), I)
        return 0

    # ------------------------------------------------------------- calls
    def icalled(s, I, p, a):
        try:
            o, d = s.role(p)
        except Und:
            return None
        if o == "b":
            return s.basis(d, a, I)
        r = s.kernel(o, d, a, I)
        return r

    def basis(s, d, a, I):
        F = s.F
        if d is not None:
            if a[1] != s.bbox(2 * d - 2) or a[2] != s.bbox(2 * d - 1):
                raise Bad("the basis function of direction %d is not given the interval of direction %d" % (d, d), I)
            s.size(a[4], d, I, "the basis function")
            if not (isinstance(a[0], Ptr) and a[0].root == "BOX"):
                raise Und("box of a basis function")
        v = F.H("basis", d, a[3], a[5])
        s.elem[v] = (("basis", d, a[5]), a[3])
        return v

    def hooked(s, I, n, a):
        F = s.F
        if n in ("malloc", "calloc", "dmalloc", "realloc"):
            p = Ptr(("res", (n, I.blk, I.name)))
            s.line[(p.root, ())] = ("zero",) if n == "calloc" else None
            return p
        if n in ("Ind", "IndLax") and isinstance(a[0], tuple):
            return F.H("Ind", a[0][1])
        if n == "BoxVolumeIntegral":
            return F.H("BVI", repr(a))
        if n in MAT3:
            return MAT3[n](s, a)
        if n == "fdcentered_deriv_onesidedBC":
            s.kcalls.append((n, a, I))
            return 0
        if n in ("min2", "max2") and isinstance(a[0], int):
            return a[0] if s.rel("lt", a[0], a[1]) == (n == "min2") else a[1]
        if n == "cblas_dgemv":
            # the product of a matrix and a vector
            if [x for x in a if isinstance(x, int)] == [101, 111, a[2], a[2], 1, a[2], 1, 0, 1]:
                s.product = (a[5], a[7], a[10], a[2])
            else:
                raise Bad("not the product of the matrix and the vector", I)
            return 0
        if n == "Geti":
            if a[0] == ("s", "Spectral_second_deriv_order") and "order" in s.flags:
                return s.flags["order"]
            return None
        if n == "get_memline" or n == "put_memline":
            d = F.small(a[2]) if isinstance(a[2], int) else None
            if d is None or d not in (1, 2, 3):
                raise Und("direction")
            d = int(d)
            for q in (1, 2, 3):
                if a[4 + q] != s.n(q):
                    if a[4 + q] in (s.n(1), s.n(2), s.n(3)):
                        raise Bad("%s is given the sizes of the box in the wrong order" % n, I)
                    raise Und("sizes")
            ka, oa = s.split(a[0]); kl, ol = s.split(a[1])
            if oa or ol:
                raise Und("offset")
            if n == "get_memline":
                s.line[kl] = ("line", s.getl(ka, d, (a[3], a[4]), I), d, (a[3], a[4]))
            else:
                s.putl(ka, s.line.get(kl), d, (a[3], a[4]), I)
            return 0
        if n == "matrix_times_vector":
            o, d = s.role(a[0])
            c = s.source(a[1], I)
            if s.same(a[1], a[2]):
                raise Bad("the product of a matrix and a line overwrites the line while it is needed", I)
            if c[0] == "line":
                s.size(a[3], c[2], I, NAME[o])
            s.sink(a[2], s.op(o, d, c, I), I)
            return 0
        if n == "vector_times_matrix":
            o, d = s.role(a[1])
            c = s.source(a[0], I)
            if o != "C":
                raise Bad("basis functions are combined with something else than the matrix for coefficients", I)
            if c[0] != "basis":
                raise Und("basis functions")
            if d is not None and c[1] is not None and c[1] != d:
                raise Bad("basis functions of direction %s meet the matrix for coefficients of direction %s" % (c[1], d), I)
            if d is not None:
                s.size(a[3], d, I, "the matrix for coefficients")
            s.sink(a[2], ("BM", c[1] if c[1] is not None else d, c[2]), I)
            return 0
        if n in ("cheb_d1", "cheb_d2"):
            c = s.source(a[2], I)
            if c[0] != "line":
                raise Und("line")
            dl = c[2]
            if (a[0], a[1]) != (s.bbox(2 * dl - 2), s.bbox(2 * dl - 1)):
                raise Bad("%s is not given the interval of direction %d" % (n, dl), I)
            s.size(a[-1], dl, I, n)
            s.sink(a[3], s.op("D", None, c, I), I)
            if n == "cheb_d2":
                s.sink(a[4], s.op("DD", None, c, I), I)
            return 0
        if n in KERNEL:
            return s.kernel(KERNEL[n], None, a, I)
        if n in ARRAYOPS or n in PLANEOPS:
            x = ARRAYOPS.get(n) or PLANEOPS[n]
            ops, di = x[0], x[1]
            i, o = x[-2], x[-1]
            d = F.small(a[di])
            if d is None or d not in (1, 2, 3):
                raise Und("direction")
            d = int(d)
            if not (isinstance(a[0], Ptr) and a[0].root == "BOX" and not a[0].path):
                raise Und("box")
            ki, oi = s.split(a[i]); ko, oo = s.split(a[o])
            if oi or oo:
                raise Und("offset")
            l = s.array(ki)
            if n in PLANEOPS:
                N = F.small(a[x[2]])
                if N is None:
                    raise Und("plane")
                if int(N) == d:
                    raise Bad("%s along the normal of its plane" % n, I)
                if l.dom is not None and l.dom != (int(N), a[x[3]]):
                    raise Bad("%s in another plane than the one its input is known in" % n, I)
                l = L(l.src, l.words, l.rep, (int(N), a[x[3]]))
            elif l.dom is not None:
                raise Und("plane")
            try:
                for q in ops:
                    l = l.apply(d, q)
            except Bad as e:
                e.I = I
                raise
            s.arr[ko] = l
            s.nops += 1
            return 0
        if n == "spec_3dIntegral":
            ki, oi = s.split(a[1])
            s.integrand = s.pointwise(ki)
            return F.H("integral", 3)
        if n == "spec_2dIntegral":
            ki, oi = s.split(a[2]); ko, oo = s.split(a[3])
            s.integrand = s.pointwise(ki); s.norm = a[1]
            return 0
        if n == "get_spec_functionpointers_from_pars" and base(s.f.name) != n:
            d = F.small(a[1])
            if d is None:
                raise Und("direction")
            for p, nm in zip(a[2:], ("get_coeffs", "coeffs_of_deriv", "coeffs_of_2ndderiv", "coeffs_of_int", "eval_onPoints", "filter_coeffs", "basis")):
                if isinstance(p, Ptr):
                    s.mem[(p.root, p.path)] = Ptr(("slot", nm, int(d)))
            return 0
        if n == "get_spec_functionpointers" and base(s.f.name) != n:
            d = F.small(a[1])
            if d is None:
                raise Und("direction")
            for p, nm in zip(a[2:], ("get_coeffs", "coeffs_of_deriv", "coeffs_of_2ndderiv", "coeffs_of_int", "eval_onPoints", "filter_coeffs", "basis")):
                if nm == "coeffs_of_2ndderiv":
                    continue
                slot = "%s%d" % (nm, int(d))
                v = s.flags.get(("fn", slot)) or Ptr(("ld", "BOX", (("f", slot),)))
                if isinstance(p, Ptr):
                    s.mem[(p.root, p.path)] = v
            return 0
        if n in ("initMatrix_ForCoeffs", "initMatrix_ToEvaluate", "initdiffmatrix", "initdiffmatrix2", "initfiltermatrix", "initIntegrationMatrix") and base(s.f.name) != n:
            return s.build(I, n, a)
        return None

    def build(s, I, n, a):
        F = s.F
        if n.startswith("initMatrix"):
            mats, nn, fn = [(a[0], "C" if "Coeffs" in n else "E")], a[1], [(a[2], "C" if "Coeffs" in n else "E")]
        elif n == "initdiffmatrix":
            mats, nn, fn = [(a[2], "D"), (a[3], "DD")], a[4], [(a[5], "C"), (a[6], "d"), (a[7], "E")]
        elif n == "initdiffmatrix2":
            mats, nn, fn = [(a[2], "DD")], a[3], [(a[4], "C"), (a[5], "d2"), (a[6], "E")]
        elif n == "initfiltermatrix":
            mats, nn, fn = [(a[0], "F")], a[2], [(a[3], "C"), (a[4], "f"), (a[5], "E")]
        else:
            mats, nn, fn = [(a[2], "Int")], a[3], [(a[4], "C"), (a[5], "i"), (a[6], "E")]
        dirs = set()
        for p, o in mats:
            r = s.role(p)
            if r[0] != o:
                raise Bad("%s fills %s, not %s" % (n, NAME[r[0]], NAME[o]), I)
            dirs.add(r[1])
        d = dirs.pop()
        if dirs:
            raise Bad("%s fills matrices of different directions" % n, I)
        if d is None:
            return 0
        s.size(nn, d, I, n)
        for p, o in fn:
            if isinstance(p, Ptr) and isinstance(p.root, tuple) and p.root[0] == "g":
                q = ofdir(p.root[1])
                if q is not None and q != d:
                    raise Bad("%s fills a matrix of direction %d with %s" % (n, d, p.root[1]), I)
                continue
            r = s.role(p)
            if r[0] != o:
                raise Bad("%s is given %s for %s" % (n, NAME.get(r[0], r[0]), NAME[o]), I)
            if r[1] is not None and r[1] != d:
                raise Bad("%s fills a matrix of direction %d with functions of direction %d" % (n, d, r[1]), I)
        if n in ("initdiffmatrix", "initdiffmatrix2"):
            q = F.small(a[1])
            if q is None:
                raise Und("direction")
            if q != d:
                raise Bad("%s fills a matrix of direction %d for the interval of direction %d" % (n, d, q), I)
        if n == "initIntegrationMatrix" and (a[0], a[1]) != (s.bbox(2 * d - 2), s.bbox(2 * d - 1)):
            raise Bad("%s of direction %d is not given the interval of direction %d" % (n, d, d), I)
        s.built = getattr(s, "built", [])
        s.built.append((mats, d))
        s.nops += 1
        return 0

    # ------------------------------------------------------------- memory
    def pointwise(s, k):
        return s.mem.get((k[0], k[1] + (("o", "pt"),)), ("array", s.arr[k].key()) if k in s.arr else ("array", k))

    def load(s, p, ty, I=None):
        if isinstance(p, Ptr) and ty == "double":
            k, o = s.split(p)
            if k not in s.arr and s.isline(k) and (k in s.line or k in s.vline) and (p.root, p.path) not in s.mem:
                c = s.vline.get(k, s.line.get(k))
                if c is not None and isinstance(o, int):
                    i = s.F.mul(o, s.F.inv(8))
                    v = s.F.H("basis", c[1], i, c[2]) if c[0] == "basis" else s.F.H("elem", repr(c), i)
                    s.elem[v] = (c, i)
                    return v
        return algv.Walk.load(s, p, ty, I)

    def store(s, I):
        p = s.v(I.ops[1]); v = s.v(I.ops[0])
        if not isinstance(p, Ptr):
            return
        if s.zeroth and isinstance(v, int) and not isinstance(v, bool) and not p.path and isinstance(p.root, tuple) and p.root[0] == "arg" and s.element(p, v, I):
            return
        if isinstance(v, (int, algv.Jet)) and p.path and p.path[-1][0] == "o" or isinstance(p.root, tuple) and p.root[0] == "res":
            if s.element(p, v, I):
                return
        algv.Walk.store(s, I)

    def element(s, p, v, I):
        F = s.F
        k, o = s.split(p)
        if not isinstance(o, int):
            return False
        if isinstance(v, int) and v in s.elem and s.elem[v][0][0] == "basis" and s.isline(k):
            c, i = s.elem[v]
            if o == 8 * i % PM:
                if c[1] is not None and i in s.ivs:
                    s.covers(i, c[1], "basis functions")
                s.line[k] = c
                s.by[(p.root, p.path)] = I
                return True
            raise Bad("a basis function is stored in the place of another", I)
        if isinstance(k[0], tuple) and k[0][0] == "arg" and s.roles.get(k[0][1]) == "out":
            # element i,j of a matrix
            if isinstance(v, int) and v in s.elem and s.elem[v][0][0] == "unit":
                c, i = s.elem[v]
                j = c[1]
                if o == 8 * (s.unitn * i + j) % PM:
                    for x in (i, j):
                        sp = s.span(x) if x in s.ivs else None
                        if sp is None:
                            raise Und("loop")
                        if sp != (0, s.unitn):
                            q = F.small(F.sub(sp[1], s.unitn))
                            if q is not None or F.small(sp[0]) is not None and sp[1] == s.unitn:
                                raise Bad("not all elements of the matrix are set", I)
                            raise Und("loop")
                    s.matrix[k] = c[2]
                    return True
                if o == 8 * (s.unitn * j + i) % PM:
                    raise Bad("the matrix is filled with its transpose", I)
                raise Und("matrix element")
            if s.F.small(v) is not None and v == 1 and k not in s.matrix:
                s.matrix[k] = "identity"
                return True
            raise Und("matrix element")
        if s.isline(k) and k in s.line and s.line[k] and s.line[k][0] in ("zero", "unit") and v in (0, 1):
            i = F.mul(o, F.inv(8))
            c = s.line[k]
            if v == 1:
                if c[0] == "unit" and c[1] != i:
                    raise Bad("two elements of the unit vector are set", I)
                s.line[k] = ("unit", i, ())
                return True
            if c[0] == "unit" and c[1] == i and not c[2]:
                s.line[k] = ("zero",)
                s.reset = True
                return True
            return False
        # a value per point
        i = F.mul(o, F.inv(8))
        if i in s.ivs:
            sp = s.span(i)
            if sp is not None and sp == (0, F.H("mem", ("BOX", (("f", "nnodes"),)))):
                s.mem[(k[0], k[1] + (("o", "pt"),))] = v
                s.mem[(p.root, p.path)] = v
                s.by[(p.root, p.path)] = I
                s.pti = i
                return True
        return False


# ------------------------------------------------------------------ specs
def deriv(src, *dirs):
    l = L(src)
    for d in dirs:
        l = l.apply(d, "D")
    return l


def ops(l, *dos):
    for d, o in dos:
        l = l.apply(d, o)
    return l


SEED = "p22"


class Runner:
    def __init__(s, c, P):
        s.c = c; s.P = P

    def body(s, n):
        return s.P.body(n) or s.P.body("SGRID_" + n)

    def walk(s, n, what, args=None, arrays=None, check=None, expect=None, mayabort=False, cls=None, seed=None, **kw):
        f = s.body(n)
        if f is None:
            return None
        c = s.c
        F = algv.Field(seed or SEED); F.generic = True
        w = (cls or LW)(s.P, f, F, args=args, arrays=arrays, **kw)
        try:
            if check and check[0] is not None:
                check[0](w)
            w.run()
            if w.aborted:
                if not mayabort:
                    c.notes.append("%s %s: ends in an error" % (n, what))
                return None
            w.commitall()
            for k, want in (expect or {}).items():
                c.count("outputs compared")
                have = w.arr.get((("arg", k), ()))
                if have is None or have != want:
                    raise Bad("%s holds %s; it has to be %s" % (argname(f, k), "nothing" if have is None else have, want), w.lastput(k))
            if check and check[1] is not None:
                check[1](w)
            c.count("cases decided")
            c.sample("%s %s: %s" % (n, what, ", ".join("%s = %s" % (argname(f, k), v) for k, v in list((expect or {}).items())[:3])), 30)
            return w
        except Bad as e:
            if isinstance(w, EW) and (w.peeled or w.free):
                c.notes.append("%s %s: not decided (some indices are treated differently)" % (n, what))
                return None
            c.violation("%s %s" % (n, str(e)), where(e.I, f), "%s (%s): %s" % (n, what, e))
        except (Und, algv.Retry, algv.Giveup) as e:
            c.notes.append("%s %s: not decided (%s)" % (n, what, e))
        return None


def argname(f, k):
    p = f.params[k]
    return str(p if isinstance(p, str) else p[0]).lstrip("%")


def commitall(w):
    for x in list(w.pend):
        w.arr[x] = w.pend[x][0]
        del w.pend[x]


def lastput(w, k):
    return None


LW.commitall = commitall
LW.lastput = lastput
BOXARG = Ptr("BOX")


def derivatives(R, tier):
    tt = lambda a, b, e: {"TransformType1": a, "TransformType2": b, "TransformType3": e}
    for n, o in (("cheb_Deriv1", "D"), ("spec_Deriv1_diffmatrix", "D"), ("spec_Deriv1", "D"), ("spec_Deriv2", "DD"), ("spec_Deriv2_diffmatrix", "DD")):
        for d in (1, 2, 3):
            for t in (0, 1):
                R.walk(n, "direction %d%s" % (d, ", fast transforms" if t else ""), args={0: BOXARG, 1: d}, arrays={2: L("u")}, flags=tt(t, t, t), expect={2: L("u"), 3: L("u").apply(d, o)})
    exp = {1: L("u"), 2: deriv("u", 1), 3: deriv("u", 2), 4: deriv("u", 3), 5: deriv("u", 1, 1), 6: deriv("u", 1, 2), 7: deriv("u", 1, 3), 8: deriv("u", 2, 2),
           9: deriv("u", 2, 3), 10: deriv("u", 3, 3)}
    for n in ("cheb_allDerivs", "spec_allDerivs_diffmatrix", "spec_allDerivs"):
        for order in (123, 132, 213, 231, 312, 321):
            for t in range(8):
                fl = tt(t & 1, t >> 1 & 1, t >> 2 & 1)
                fl["order"] = order
                R.walk(n, "order %d, transforms %d%d%d" % (order, t & 1, t >> 1 & 1, t >> 2 & 1), args={0: BOXARG}, arrays={1: L("u")}, flags=fl, expect=exp, mayabort=True)
                if n == "cheb_allDerivs":
                    break
            if n == "cheb_allDerivs":
                break


def transforms(R, tier):
    tt = lambda t: {"TransformType1": t, "TransformType2": t, "TransformType3": t}
    co = lambda *d: L("u", rep=tuple(int(q in d) for q in (1, 2, 3)))
    for d in (1, 2, 3):
        for t in (0, 1):
            for alias in (0, 1):
                tx = ", fast transforms" if t else ""
                tx += ", in place" if alias else ""
                if alias:
                    R.walk("spec_analysis1", "direction %d%s" % (d, tx), args={0: BOXARG, 1: d, 2: Ptr(("arg", 3))}, arrays={3: L("u")}, flags=tt(t), expect={3: co(d)})
                    R.walk("spec_synthesis1", "direction %d%s" % (d, tx), args={0: BOXARG, 1: d, 3: Ptr(("arg", 2))}, arrays={2: co(d)}, flags=tt(t), expect={2: L("u")})
                else:
                    R.walk("spec_analysis1", "direction %d%s" % (d, tx), args={0: BOXARG, 1: d}, arrays={2: L("u")}, flags=tt(t), expect={2: L("u"), 3: co(d)})
                    R.walk("spec_synthesis1", "direction %d%s" % (d, tx), args={0: BOXARG, 1: d}, arrays={3: co(d)}, flags=tt(t), expect={3: co(d), 2: L("u")})
                for N in (1, 2, 3):
                    if N == d:
                        continue
                    pl = lambda l, w: L(l.src, l.words, l.rep, (N, w.F.H("arg", 3)))
                    def before(w, N=N):
                        p = w.F.H("arg", 3)
                        w.plane[p] = N
                    R.walk("spec_analysis1_inplaneN", "direction %d plane %d%s" % (d, N, tx), args={0: BOXARG, 1: d, 2: N, 4: Ptr(("arg", 5 if alias else 4))}, arrays={5 if alias else 4: L("u")},
                           flags=tt(t), check=(before, lambda w, d=d, N=N: want(w, 5, pl(co(d), w))))
                    R.walk("spec_synthesis1_inplaneN", "direction %d plane %d%s" % (d, N, tx), args={0: BOXARG, 1: d, 2: N, 5: Ptr(("arg", 4 if alias else 5))}, arrays={4 if alias else 5: co(d)},
                           flags=tt(t), check=(before, lambda w, d=d, N=N: want(w, 4, pl(L("u"), w))))
        R.walk("spec_analysis1_diffmatrix", "direction %d" % d, args={0: BOXARG, 1: d}, arrays={3: L("u")}, roles={2: "M"}, expect={4: L("u").apply(d, "M")})
        R.walk("spec_synthesis1_diffmatrix", "direction %d" % d, args={0: BOXARG, 1: d}, arrays={4: L("u")}, roles={2: "M"}, expect={3: L("u").apply(d, "M")})
        R.walk("spec_filter1", "direction %d" % d, args={0: BOXARG, 1: d}, arrays={2: L("u")}, expect={2: L("u").apply(d, "F")})
        R.walk("spec_Int1", "direction %d" % d, args={0: BOXARG, 1: d}, arrays={2: L("u")}, expect={2: L("u"), 3: L("u").apply(d, "Int")})
    R.walk("spec_Coeffs", "all directions", args={0: BOXARG}, arrays={1: L("u")}, expect={1: L("u"), 2: co(1, 2, 3)})
    R.walk("spec_Eval", "all directions", args={0: BOXARG}, arrays={2: co(1, 2, 3)}, expect={1: L("u"), 2: co(1, 2, 3)})
    for N in (1, 2, 3):
        o = [q for q in (1, 2, 3) if q != N]
        def before(w, N=N):
            w.plane[w.F.H("arg", 2)] = N
        R.walk("spec_Coeffs_inplaneN", "plane %d" % N, args={0: BOXARG, 1: N}, arrays={3: L("u")}, check=(before, lambda w, N=N, o=o: want(w, 4, L("u", rep=co(*o).rep, dom=(N, w.F.H("arg", 2))))))
        R.walk("spec_Eval_inplaneN", "plane %d" % N, args={0: BOXARG, 1: N}, arrays={4: co(*o)}, check=(before, lambda w, N=N: want(w, 3, L("u", dom=(N, w.F.H("arg", 2))))))


def want(w, k, l):
    have = w.arr.get((("arg", k), ()))
    if have is None or have != l:
        raise Bad("%s holds %s; it has to be %s" % (argname(w.f, k), "nothing" if have is None else have, l))


def builders(R, tier):
    def spec(n, na, roles, mats, ab=None, identity=False):
        f = R.body(n)
        if f is None:
            return
        def before(w):
            w.unitn = w.F.H("arg", na)
            if ab == "dir":
                q = w.F.mul(16, w.F.sub(w.F.H("arg", 1), 1))
                w.ab = tuple(w.F.H("mem", ("BOX", (("f", "bbox"), ("o", w.F.add(q, 8 * k))))) for k in (0, 1))
            elif ab == "args":
                w.ab = (w.F.H("arg", 0), w.F.H("arg", 1))
            w.flag = None
        def after(w):
            for k, ws in mats.items():
                have = w.matrix.get((("arg", k), ()))
                if have is None:
                    raise Und("matrix")
                if have == "identity":
                    continue
                if have != ws:
                    raise Bad("column j of %s is %s of the j-th unit vector, not %s" % (argname(w.f, k), " of ".join(NAME[o] for o in reversed(have)), " of ".join(NAME[o] for o in reversed(ws))))
                R.c.count("outputs compared")
            if not getattr(w, "reset", False) and any(h in w.cg.loops for h in w.cg.loops) and not inloop(w):
                raise Bad("the unit vector of one column is not taken back before the next")
        R.walk(n, "columns of the matrix", args={0: BOXARG} if n.startswith("initdiff") else None, roles={**roles, **{k: "out" for k in mats}}, check=(before, after))
    spec("initMatrix_ForCoeffs", 1, {2: "C"}, {0: ("C",)})
    spec("initMatrix_ToEvaluate", 1, {2: "E"}, {0: ("E",)})
    spec("initdiffmatrix", 4, {5: "C", 6: "d", 7: "E"}, {2: ("C", "d", "E"), 3: ("C", "d", "d", "E")}, "dir")
    spec("initdiffmatrix2", 3, {4: "C", 5: "d2", 6: "E"}, {2: ("C", "d2", "E")}, "dir")
    spec("initfiltermatrix", 2, {3: "C", 4: "f", 5: "E"}, {0: ("C", "f", "E")})
    spec("initIntegrationMatrix", 3, {4: "C", 5: "i", 6: "E"}, {2: ("C", "i", "E")}, "args")


def inloop(w):
    return any(i.op == "call" and is_glob(i.callee) and base(i.callee[1:]) in ("calloc", "memset", "llvm.memset.p0.i64") and any(b in w.cg.loops[h] for h in w.cg.loops) for b in w.f.blocks for i in w.f.blocks[b].instrs)


# ------------------------------------------------------------------ numbers
class EW(LW):
    """values stored element by element, and sums"""
    zeroth = True

    def __init__(s, *a, **k):
        LW.__init__(s, *a, **k)
        s.est = []
        s.free = []          # branches only one side of which is looked at
        s.text = {}
        s.opaque = False
        s.pars = {}

    def element(s, p, v, I):
        F = s.F
        k, o = s.split(p)
        if isinstance(v, algv.Jet) or not isinstance(o, int):
            s.opaque = True
            return False
        if k[0][0] == "res" and k[0][1][0] == "dmalloc" and s.line.get(k) is None:
            pass
        elif s.isline(k) and not (k[0][0] == "loc"):
            c = s.elem.get(v) if isinstance(v, int) else None
            if c is not None and c[0][0] == "basis":
                return LW.element(s, p, v, I)
            s.opaque = True
        if k[0][0] == "loc":
            return False
        if k in s.arr and v == 0 and all(s.arr[k].rep) and not any(s.arr[k].words):
            if s.arr[k].src[0] != "filtered":
                s.arr[k] = L(("filtered", s.arr[k].src), rep=(1, 1, 1))
        s.est.append((k, o, v, I, [iv for iv in s.ivs if s.state.get(s.ivh.get(iv)) == "first" and I.blk in s.cg.loops[s.ivh[iv]]]))
        s.mem[(p.root, p.path)] = v
        s.by[(p.root, p.path)] = I
        return True

    def hooked(s, I, n, a):
        F = s.F
        if n in ("snprintf", "sprintf") and isinstance(a[0], Ptr):
            f = a[2] if n == "snprintf" else a[1]
            if isinstance(f, tuple):
                s.text[(a[0].root, a[0].path)] = (f[1], tuple(a[3 if n == "snprintf" else 2:]))
            return 0
        if n in ("Getv", "Gets", "Geti", "Getd") and isinstance(a[0], Ptr):
            t = s.text.get((a[0].root, a[0].path))
            if t is None:
                raise Und("name of a parameter")
            if n == "Getv" and isinstance(a[1], tuple):
                return s.getv(t, a[1][1])
            return Ptr(("par", repr(t))) if n == "Gets" else F.H("par", repr(t))
        return LW.hooked(s, I, n, a)

    def branch(s, I, b, state):
        if is_local(I.ops[0]) and s.f.defs.get(I.ops[0]) in s.hash and not any(b in s.cg.loops[h] and any(x not in s.cg.loops[h] for x in I.x) for h in s.cg.loops):
            s.free.append(I)
        return LW.branch(s, I, b, state)

    def getv(s, t, word):
        return None

    def sumof(s, v):
        """(value before, counters with their ranges outermost first, summand)"""
        F = s.F
        chain = []
        init = None; first = None
        for _ in range(6):
            hit = [(k, r) for k, r in s.red.items() if r.get("again") == v and "back" in r and isinstance(r.get("first"), int)]
            if len(hit) != 1:
                raise Und("sum")
            (h, nm), r = hit[0]
            if first is None:
                init = r["init"]
            elif r["init"] != first:
                raise Und("sum")
            first = r["first"]
            chain.append((h, nm))
            if any(q.get("again") == r["back"] for q in s.red.values()):
                v = r["back"]
                continue
            term = F.sub(r["back"], first)
            others = [k for k, q in s.red.items() if k not in chain and isinstance(q.get("again"), int) and s.f.defs[k[1]].ty == "double"]
            return init, [h for h, _ in chain], term, others
        raise Und("sum")

    def counters(s, hs):
        return [[iv for iv in s.ivs if s.ivh.get(iv) == h] for h in hs]


def loc3(s, p, i, j, v=None):
    q = p.step(s.F, ("o", (32 * i + 8 * j)))
    if v is None:
        return s.load(q, "double")
    s.mem[s.canon(q)] = v


def m3(s, p):
    return {(i, j): loc3(s, p, i, j) for i in (1, 2, 3) for j in (1, 2, 3)}


def det3(F, m):
    t = 0
    for (a, b, c), g in (((1, 2, 3), 1), ((2, 3, 1), 1), ((3, 1, 2), 1), ((3, 2, 1), -1), ((1, 3, 2), -1), ((2, 1, 3), -1)):
        t += g * m[1, a] * m[2, b] % PM * m[3, c]
    return t % PM


def inverse3(F, m):
    d = F.inv(det3(F, m))
    o = lambda i: [q for q in (1, 2, 3) if q != i]
    return {(j, i): (-1) ** (i + j) * (m[o(i)[0], o(j)[0]] * m[o(i)[1], o(j)[1]] - m[o(i)[0], o(j)[1]] * m[o(i)[1], o(j)[0]]) * d % PM for i in (1, 2, 3) for j in (1, 2, 3)}


def put3(s, p, m):
    for (i, j), v in m.items():
        loc3(s, p, i, j, v % PM)
    return 0


def mul3(a, b):
    return {(i, j): sum(a[i, k] * b[k, j] for k in (1, 2, 3)) % PM for i in (1, 2, 3) for j in (1, 2, 3)}


MAT3 = {"inverse3Dmatrix_from_3Dmatrix": lambda s, a: put3(s, a[0], inverse3(s.F, m3(s, a[1]))),
        "transpose3Dmatrix_from_3Dmatrix": lambda s, a: put3(s, a[0], {(j, i): v for (i, j), v in m3(s, a[1]).items()}),
        "product_of_3Dmatrices": lambda s, a: put3(s, a[0], mul3(m3(s, a[1]), m3(s, a[2])))}


def spanof(w, iv):
    r = w.span(iv)
    if r is None:
        raise Und("loop")
    return r


def differs(w, x, y, what):
    """x has to be y"""
    if x == y:
        return
    q = w.F.small(w.F.sub(x, y)) if isinstance(x, int) and isinstance(y, int) else None
    raise Bad("%s%s" % (what, " (off by %s)" % q if q is not None and abs(q) < 100 else ""))


def over(w, ivs, spans, what):
    """each counter runs over exactly the range it has to"""
    for v, sp, d in zip(ivs, spans, "ijklmn"):
        have = spanof(w, v)
        if have == sp:
            continue
        if len(have) != len(sp):
            raise Bad("%s: steps of %s" % (what, have[2] if len(have) > 2 else 1))
        for k, t in ((0, "first"), (1, "last")):
            if have[k] != sp[k]:
                raise Bad("%s: the %s index is not the %s one" % (what, t, t))


def isum(w, v, init, spans, term, what, same=None):
    """v has to be init + the sum of term over counters that run over spans"""
    i0, hs, have, others = w.sumof(v)
    c = w.counters(hs)
    best = None
    for ch in itertools.product(*c):
        for pm in itertools.permutations(ch):
            if len(pm) != len(spans):
                continue
            if term(*pm) == have:
                best = pm
                break
    if best is None:
        if len(hs) != len(spans):
            raise Und("sum")
        if others or w.opaque:
            raise Und("summand")
        raise Bad("%s: the summand is another one" % what, w.f.defs[[k for k in w.red if k[0] == hs[-1]][0][1]])
    if w.peeled:
        raise Und("a loop that treats some indices differently")
    if len(spans) == 1:
        have = spanof(w, best[0])
        k = w.F.small(w.F.sub(have[0], spans[0][0]))
        st = spans[0][2] if len(spans[0]) > 2 else 1
        if k is not None and 0 < k <= 4 * st and k % st == 0 and callable(init) is False:
            x = (init + sum(term(w.F.add(spans[0][0], q)) for q in range(0, int(k), st))) % PM
            if x == i0:
                init = x            # the first terms are added before the loop
                spans = [(have[0],) + tuple(spans[0][1:])]
    over(w, best, spans, what)
    differs(w, i0, init(*best) if callable(init) else init, "%s: the sum does not start from the right value" % what)


def filled(w, k, spans, off, val, what, sums=False):
    """array k has to get val at off, for all counters"""
    st = [x for x in w.est if x[0] == (("arg", k), ())]
    if not st:
        raise Und("no store into %s" % argname(w.f, k))
    if w.peeled or len({len(x[4]) for x in st}) > 1:
        raise Und("loops that treat some indices differently")
    for _, o, v, I, ivs in st:
        hit = None
        for pm in itertools.permutations(ivs, len(spans)):
            if off(*pm) == o:
                hit = pm
                break
        if hit is None:
            if w.opaque or len(ivs) < len(spans):
                raise Und("element")
            raise Bad("%s: not the right element is set" % what, I)
        over(w, hit, spans, what)
        if len(ivs) > len(spans):
            raise Und("more loops")
        if sums:
            val(v, *hit)
        else:
            differs(w, v, val(*hit), "%s: not the right value" % what)


def mem(w, k, off=0):
    root = k if isinstance(k, tuple) else (("arg", k), ())
    return w.F.H("mem", (root[0], root[1] + ((("o", off % PM),) if off % PM else ())))


def elements(R, tier):
    c = R.c
    def ew(n, what, after, before=None, **kw):
        def aft(w):
            w.F_ = w.F
            after(w)
            c.count("outputs compared")
        return R.walk(n, what, check=(before, aft), cls=EW, **kw)
    # lines
    for d in (1, 2, 3):
        def lin(w, put, d=d):
            n = [w.F.H("arg", 4 + q) for q in (1, 2, 3)]
            i1, i2 = w.F.H("arg", 3), w.F.H("arg", 4)
            def idx(i):
                x = {1: (i, i1, i2), 2: (i1, i, i2), 3: (i1, i2, i)}[d]
                return 8 * (x[0] + n[0] * (x[1] + n[1] * x[2])) % PM
            if put:
                filled(w, 0, [(0, n[d - 1])], idx, lambda i: mem(w, 1, 8 * i), "put_memline")
            else:
                filled(w, 1, [(0, n[d - 1])], lambda i: 8 * i % PM, lambda i: mem(w, 0, idx(i)), "get_memline")
        ew("get_memline", "direction %d" % d, lambda w: lin(w, False), args={2: d})
        ew("put_memline", "direction %d" % d, lambda w: lin(w, True), args={2: d})
    # products
    def mtv(w, M, u, o, k, trans=False):
        n = w.F.H("arg", k)
        if hasattr(w, "product"):
            if w.product != (Ptr(("arg", M)), Ptr(("arg", u)), Ptr(("arg", o)), n) or trans:
                raise Bad("the product of others")
            return
        filled(w, o, [(0, n)], lambda i: 8 * i % PM, lambda v, i: isum(w, v, 0, [(0, n)], lambda j: mem(w, M, 8 * (n * j + i if trans else n * i + j)) * mem(w, u, 8 * j) % PM, "sum over a row"),
               "matrix times vector", sums=True)
    ew("matrix_times_vector", "all rows", lambda w: mtv(w, 0, 1, 2, 3))
    ew("diffmat_deriv", "all rows", lambda w: mtv(w, 0, 1, 2, 3))
    ew("filtermatrix", "all rows", lambda w: mtv(w, 0, 1, 2, 3))
    ew("vector_times_matrix", "all columns", lambda w: mtv(w, 1, 0, 2, 3, True))
    def mtm(w):
        n = w.F.H("arg", 3)
        filled(w, 2, [(0, n), (0, n)], lambda i, k: 8 * (n * i + k) % PM, lambda v, i, k: isum(w, v, 0, [(0, n)], lambda j: mem(w, 0, 8 * (n * i + j)) * mem(w, 1, 8 * (n * j + k)) % PM, "sum over a row"),
               "product of matrices", sums=True)
    ew("matrix_times_matrix", "all elements", mtm)
    def sp(w):
        n = w.F.H("arg", 2)
        isum(w, w.ret, 0, [(0, n)], lambda i: mem(w, 0, 8 * i) * mem(w, 1, 8 * i) % PM, "scalar product")
    ew("scalarproduct_vectors", "all elements", sp)
    # interpolation
    def idx(w, i, j, k):
        return 8 * (i + w.n(1) * (j + w.n(2) * k)) % PM
    B = lambda w, d, i, X: w.F.H("basis", d, i, w.F.H("arg", X))
    def interp(w):
        isum(w, w.ret, 0, [(0, w.n(d)) for d in (1, 2, 3)], lambda i, j, k: mem(w, 1, idx(w, i, j, k)) * B(w, 1, i, 2) % PM * B(w, 2, j, 3) % PM * B(w, 3, k, 4) % PM, "interpolation")
    ew("spec_interpolate", "all coefficients", interp, args={0: BOXARG})
    for N in (1, 2, 3):
        o = [q for q in (1, 2, 3) if q != N]
        def plane(w, N=N, o=o):
            p = w.F.H("arg", 2)
            def term(a, b):
                x = {o[0]: a, o[1]: b, N: p}
                return mem(w, 3, idx(w, x[1], x[2], x[3])) * B(w, o[0], a, 4) % PM * B(w, o[1], b, 5) % PM
            isum(w, w.ret, 0, [(0, w.n(o[0])), (0, w.n(o[1]))], term, "interpolation in a plane")
        ew("spec_interpolate_inplaneN", "plane %d" % N, plane, args={0: BOXARG, 1: N})
        def line(w, d=N, o=o):
            def term(a):
                x = {d: a, o[0]: w.F.H("arg", 2), o[1]: w.F.H("arg", 3)}
                return mem(w, 4, idx(w, x[1], x[2], x[3])) * B(w, d, a, 5) % PM
            isum(w, w.ret, 0, [(0, w.n(d))], term, "interpolation along a line")
        ew("spec_interpolate_in_dir_at_i1_i2", "direction %d" % N, line, args={0: BOXARG, 1: N})
        def bm(w, d=N):
            want = ("BM", d, w.F.H("arg", 3))
            have = w.line.get((("arg", 2), ()), w.arr.get((("arg", 2), ())))
            if have is None:
                raise Und("product of basis functions and matrix")
            if have != want:
                raise Bad("basis functions times matrix of direction %s; it has to be %d" % (have[1], d))
        R.walk("spec_Basis_times_CoeffMatrix_direc", "direction %d" % N, args={0: BOXARG, 1: N}, check=(lambda w: w.line.__setitem__((("arg", 2), ()), None), bm))
    # integrals
    fam = {"cheb": ("cheb_coeffs_fromExtrema", "cheb_coeffs_fromZeros", "cheb_coeffs_fromExtrema_numrecFFT", "cheb_coeffs_fromZeros_numrecFFT", "cheb_coeffs_fromExtrema_FFTW3", "cheb_coeffs_fromZeros_FFTW3"),
           "four": ("four_coeffs", "four_coeffs_numrecFFT", "four_coeffs_FFTW3")}
    for d in (1, 2, 3):
        o = [q for q in (1, 2, 3) if q != d]
        for fm, fns in fam.items():
            for fn in fns:
                if R.P.body(fn) is None and fn not in R.outside and not R.body(fn):
                    continue
                def after(w, d=d, o=o, fm=fm):
                    F = w.F
                    st = w.arr.get((("arg", 3), ()))
                    if st is None or st != L("u").apply(d, "C"):
                        raise Bad("the integral is computed from %s" % (st,))
                    Len = F.sub(w.bbox(2 * d - 1), w.bbox(2 * d - 2))
                    def at(x, a, b):
                        p = {d: x, o[0]: a, o[1]: b}
                        return idx(w, p[1], p[2], p[3])
                    def val(v, x, a, b):
                        u0 = mem(w, 3, at(0, a, b))
                        if fm == "four":
                            differs(w, v, u0 * Len % PM * F.inv(w.n(d)) % PM, "Fourier integral: not the right value")
                        else:
                            isum(w, v, F.mul(F.mul(u0, Len), F.inv(2)), [(2, w.n(d), 2)], lambda i: mem(w, 3, at(i, a, b)) * Len % PM * F.inv((1 - i * i) % PM) % PM, "Chebyshev integral")
                    filled(w, 3, [(0, w.n(d)), (0, w.n(o[0])), (0, w.n(o[1]))], at, val, "integral", sums=True)
                ew("spec_Integral1", "direction %d, %s" % (d, fn), after, args={0: BOXARG, 1: d}, arrays={2: L("u")}, flags={("fn", "get_coeffs%d" % d): Ptr(("g", fn))})
    for N in (1, 2, 3):
        o = [q for q in (1, 2, 3) if q != N]
        for alias in (0, 1):
            R.walk("spec_2dIntegral", "surface %d%s" % (N, ", in place" if alias else ""), args={0: BOXARG, 1: N, 2: Ptr(("arg", 3 if alias else 2))}, arrays={3 if alias else 2: L("u")},
                   expect={3: ops(L("u"), *((q, "S") for q in o))})
    for alias in (0, 1):
        R.walk("spec_3dIntegral", "volume%s" % (", in place" if alias else ""), args={0: BOXARG, 1: Ptr(("arg", 2 if alias else 1))}, arrays={2 if alias else 1: L("u")},
               expect={2: ops(L("u"), *((q, "S") for q in (1, 2, 3)))}, check=(None, lambda w: differs(w, w.ret, mem(w, 2), "spec_3dIntegral returns something else than its result")))
    # elements of volume and of surface
    def boxvar(w, name, comp=0):
        i = w.F.H("Ind", name) if isinstance(name, str) else name
        o = w.F.mul(8, w.F.add(i, comp))
        return Ptr(("ld", ("ld", "BOX", (("f", "v"),)), (("o", o),) if o else ()))
    def pt(w, p):
        return w.F.H("mem", (p.root, (("o", 8 * w.pti % PM),)))
    def jac(w):
        return {(i, j): pt(w, boxvar(w, "d%sdx" % "XYZ"[i - 1], j - 1)) for i in (1, 2, 3) for j in (1, 2, 3)}
    for seed in range(4):
        def vol(w, cart):
            F = w.F
            if not hasattr(w, "integrand"):
                raise Bad("BoxVolumeIntegral does not integrate")
            v = boxvar(w, F.H("arg", 1))
            if cart:
                if w.integrand != ("array", (v.root, v.path)):
                    raise Bad("the integrand is not the variable")
            else:
                if not isinstance(w.integrand, int):
                    raise Und("integrand")
                differs(w, w.integrand, pt(w, v) * F.inv(F.fn("fabs", det3(F, jac(w)))) % PM, "the integrand is not the variable over |det dX/dx|")
            differs(w, w.ret, F.H("integral", 3), "the integral is not returned")
        R.walk("BoxVolumeIntegral", "curved coordinates" + " again" * seed, args={0: BOXARG}, check=(None, lambda w: vol(w, False)), seed="%s%d" % (SEED, seed))
        if not seed:
            R.walk("BoxVolumeIntegral", "Cartesian coordinates", args={0: BOXARG}, check=(None, lambda w: vol(w, True)), flags={"x_of_X": Ptr("null")})
        for N in (1, 2, 3):
            for cart in (0, 1):
                for met in (0, 1):
                    def surf(w, N=N, cart=cart, met=met):
                        F = w.F
                        if not hasattr(w, "integrand"):
                            raise Bad("spec_SurfaceIntegral does not integrate")
                        if w.norm != N:
                            raise Bad("the surface integral has another normal")
                        if not isinstance(w.integrand, int):
                            raise Und("integrand")
                        one = {(i, j): int(i == j) for i in (1, 2, 3) for j in (1, 2, 3)}
                        J = one if cart else inverse3(F, jac(w))
                        g = one
                        if met:
                            gi = {}
                            for k, (a, b) in enumerate(((1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 3))):
                                gi[a, b] = gi[b, a] = pt(w, boxvar(w, w.flags["ig"], k))
                            g = gi
                        m = mul3({(j, i): v for (i, j), v in J.items()}, mul3(g, J))
                        a, b = [q for q in (1, 2, 3) if q != N]
                        dd = (m[a, a] * m[b, b] - m[a, b] * m[b, a]) % PM
                        u = F.H("mem", (("arg", 3), (("o", 8 * w.pti % PM),)))
                        differs(w, w.integrand, u * F.fn("sqrt", F.fn("fabs", dd)) % PM, "the integrand is not the function times the element of the surface")
                    ig = algv.Field("%s%d" % (SEED, seed)).H("ig") if met else -1 % PM
                    R.walk("spec_SurfaceIntegral", "normal %d%s%s%s" % (N, ", Cartesian" if cart else "", ", with a metric" if met else "", " again" * seed), args={0: BOXARG, 1: ig, 2: N}, check=(lambda w, met=met, ig=ig: w.less.append((0, ig)) if met else None, surf),
                           flags={"ig": ig, **({"x_of_X": Ptr("null")} if cart else {})}, seed="%s%d" % (SEED, seed))
    def grid(w):
        F = w.F
        def term(b):
            q = Ptr(("arg", 0)).step(F, ("f", "box"))
            return None
        i0, hs, t, others = w.sumof(w.ret)
        if i0 != 0:
            raise Bad("the sum over the boxes does not start from zero")
        want = F.H("BVI", repr([Ptr("BOX"), F.H("arg", 1)]))
        if t != want:
            raise Bad("the sum over the boxes is not the sum of their integrals")
        n = F.H("mem", (("arg", 0), (("f", "nboxes"),)))
        for h in hs:
            iv = [v for v in w.ivs if w.ivh[v] == h]
            if iv:
                over(w, iv[:1], [(0, n)], "sum over the boxes")
    R.walk("GridVolumeIntegral", "all boxes", check=(None, grid), cls=EW, flags={"inactive": 0})
    # lists of variables
    for n, fw in (("spec_Coeffs_varlist", True), ("spec_Eval_varlist", False)):
        def vl(w, fw=fw):
            F = w.F
            ivs = [v for v in w.ivs]
            for iv in ivs:
                key = lambda k: (boxvar(w, F.H("mem", (("ld", ("arg", k), (("f", "index"),)), (("o", 4 * iv % PM),)))).root, ())
                u, cc = key(1), key(2)
                src, dst = (u, cc) if fw else (cc, u)
                if dst not in w.arr:
                    continue
                wnt = L(src)
                for d in (1, 2, 3):
                    wnt = wnt.apply(d, "C") if fw else L(wnt.src, wnt.words, tuple(1 if q >= d else 0 for q in (1, 2, 3)))
                if not fw:
                    wnt = L(("coeffs", src))
                if w.arr[dst] != wnt:
                    raise Bad("%s is not %s of the same entry of the other list" % (w.arr[dst], "the coefficients" if fw else "the values"))
                over(w, [iv], [(0, F.H("mem", (("arg", 1 if fw else 2), (("f", "n"),))))], "loop over the list")
                return
            raise Und("entries of the lists")
        def before(w, fw=fw):
            if not fw:
                w.initial = lambda k: L(("coeffs", k), rep=(1, 1, 1))
        R.walk(n, "each variable", args={0: BOXARG}, check=(before, vl), cls=EW)
    # filter in 3 dimensions
    def cut(w):
        F = w.F
        v, vc = boxvar(w, F.H("arg", 1)), boxvar(w, F.H("arg", 2))
        k = (vc.root, ())
        nf = {d: F.H("arg", 2 + d) for d in (1, 2, 3)}
        have = set()
        for kk, o, x, I, ivs in w.est:
            if kk != k:
                raise Und("array")
            if x != 0:
                raise Bad("a coefficient is set to something else than zero", I)
            hit = next((p for p in itertools.permutations(ivs, 3) if idx(w, *p) == o), None)
            if hit is None:
                raise Bad("not the element of the coefficients", I) if len(ivs) >= 3 else Und("element")
            rg = []
            for iv, d in zip(hit, (1, 2, 3)):
                lo, hi = spanof(w, iv)
                if lo not in (0, nf[d]) or hi not in (w.n(d), nf[d]):
                    for q in (1, 2, 3):
                        if q != d and (lo == nf[q] or hi in (w.n(q), nf[q])):
                            raise Bad("the indices of direction %d are bounded by those of direction %d" % (d, q), I)
                    for x, y in ((lo, 0), (lo, nf[d]), (hi, w.n(d)), (hi, nf[d])):
                        q = F.small(F.sub(x, y))
                        if q is not None and 0 < abs(q) < 8:
                            raise Bad("the range of indices of direction %d is off by %s" % (d, q), I)
                    raise Und("range")
                rg.append((("low",) if lo == 0 and hi != lo else ()) + (("high",) if hi == w.n(d) else ()))
            have |= set(itertools.product(*rg))
        if not have:
            raise Und("no coefficients are set to zero")
        for p in itertools.product(("low", "high"), repeat=3):
            keep = p == ("low",) * 3
            if keep and p in have:
                raise Bad("coefficients below all the limits are removed")
            if not keep and p not in have:
                raise Bad("coefficients %s are not removed" % ", ".join("%s limit %d" % ("above" if x == "high" else "below", q + 1) for q, x in enumerate(p)))
        hv = w.arr.get((v.root, ()))
        if hv != L(("filtered", "u")):
            raise Bad("the variable holds %s" % hv)
    def bcut(w):
        w.arr[(boxvar(w, w.F.H("arg", 1)).root, ())] = L("u")
        w.less = [(w.F.H("arg", 2 + d), w.n(e)) for d in (1, 2, 3) for e in (1, 2, 3)]
    ew("spec_filter3d_inbox", "all coefficients", cut, bcut, args={0: BOXARG})


def hidden(w):
    """the box is also written at addresses that are not fields of it by name"""
    return any(k[0] == "BOX" and not (len(k[1]) == 1 and k[1][0][0] == "f") for k in w.mem) or any(x[0] not in ("printf",) and "BOX" in repr(x[1]) for x in w.calls)


def tables(R, tier):
    """which functions and matrices belong to a direction"""
    c = R.c
    fam = {"ChebExtrema": "cheb_coeffs_fromExtrema cheb_deriv cheb_int cheb_eval_onExtrema cheb_filter cheb_basisfunc",
           "ChebZeros": "cheb_coeffs_fromZeros cheb_deriv cheb_int cheb_eval_onZeros cheb_filter cheb_basisfunc",
           "Fourier": "four_coeffs four_deriv four_int four_eval four_filter four_basisfunc",
           "fd2_onesided": "fd2_coeffs fd2_deriv_onesidedBC - fd2_eval fd2_filter -",
           "fd2_periodic": "fd2_coeffs fd2_deriv_periodic - fd2_eval fd2_filter -"}
    slots = ("get_coeffs", "coeffs_of_deriv", "coeffs_of_int", "eval_onPoints", "filter_coeffs", "basis")
    argi = {"get_coeffs": 2, "coeffs_of_deriv": 3, "coeffs_of_int": 5, "eval_onPoints": 6, "filter_coeffs": 7, "basis": 8}
    known = {x: i for s in fam.values() for i, x in enumerate(s.split()) if x != "-"}
    FFT = ("", "_numrecFFT", "_FFTW3")
    strip = lambda n: re.sub(r"_(numrecFFT|FFTW3)$", "", n)
    f = R.body("get_spec_functionpointers_from_pars")
    types = []
    for bas, fs in fam.items():
        for d in (1, 2, 3):
            for t in (0, 1, 2):
                def before(w, bas=bas, d=d):
                    for a in argi.values():
                        pass
                    def getv(tt, word):
                        if tt != ("box%%d_basis%d" % d, (w.F.H("mem", ("BOX", (("f", "b"),))),)) and tt != ("box%d_basis%d", (w.F.H("mem", ("BOX", (("f", "b"),))), d)):
                            raise Und("name of the parameter")
                        return int(word == bas)
                    w.getv = getv
                def after(w, bas=bas, fs=fs, d=d, t=t):
                    kinds = set()
                    for (sl, x) in zip(slots, fs.split()):
                        v = w.mem.get((("arg", argi[sl]), ()))
                        if x == "-":
                            if isinstance(v, Ptr) and isinstance(v.root, tuple) and v.root[0] == "g":
                                c.notes.append("%s: %s has %s" % (bas, sl, v.root[1]))
                            continue
                        if not (isinstance(v, Ptr) and isinstance(v.root, tuple) and v.root[0] == "g"):
                            raise Bad("%s: no function for %s" % (bas, sl)) if isinstance(v, Ptr) and v.root == "null" else Und("function")
                        n = base(v.root[1])
                        b = strip(n)
                        if b not in known:
                            raise Und("function " + n)
                        c.count("function pointers")
                        if b != x:
                            raise Bad("the basis %s gets %s for %s; it has to be %s" % (bas, n, sl, x))
                        if n != b:
                            kinds.add(n[len(b):])
                    if len(kinds) > 1:
                        raise Bad("the basis %s gets functions of different transforms" % bas)
                R.walk("get_spec_functionpointers_from_pars", "%s direction %d transform %d" % (bas, d, t), args={0: BOXARG, 1: d}, cls=EW, flags={"TransformType%d" % d: t}, check=(before, after))
    for d in (1, 2, 3):
        def after(w, d=d):
            for sl, a in argi.items():
                v = w.mem.get((("arg", a), ()))
                if v != Ptr(("ld", "BOX", (("f", "%s%d" % (sl, d)),))):
                    if isinstance(v, Ptr) and isinstance(v.root, tuple) and v.root[0] == "ld":
                        raise Bad("%s of direction %d is %s of the box" % (sl, d, v.root[2][0][1]))
                    raise Und("function pointer")
                c.count("function pointers")
        R.walk("get_spec_functionpointers", "direction %d" % d, args={0: BOXARG, 1: d}, cls=EW, check=(None, after))
    def after(w):
        for d in (1, 2, 3):
            for sl in slots:
                v = w.mem.get(("BOX", (("f", "%s%d" % (sl, d)),)))
                if v is None and not hidden(w):
                    raise Bad("%s%d of the box is never set" % (sl, d))
                if v is None or not isinstance(v, Ptr) or v.root[0] != "slot":
                    raise Und("function pointer")
                if v.root != ("slot", sl, d):
                    raise Bad("%s%d of the box is set to %s of direction %s" % ((sl, d) + v.root[1:]))
                c.count("function pointers")
    R.walk("init_spec_functionpointers", "all directions", args={0: BOXARG}, cls=EW, check=(None, after))


def differences(R, tier):
    """finite differences in place of the spectral functions"""
    c = R.c
    for d in (1, 2, 3):
        def after(w, d=d):
            F = w.F
            root = Ptr(("ld", ("ld", "BOX", (("f", "v"),)), (("o", 8 * F.H("Ind", "XYZ"[d - 1]) % PM),))).root
            st = [x for x in w.est if x[0][0][0] == "res"]
            if not st or len(st) != len(w.est):
                raise Und("coordinates")
            for k, o, v, I, ivs in st:
                i = next((i for i in ivs if o == 8 * i % PM), None)
                if i is None:
                    raise Und("coordinates")
                over(w, [i], [(0, w.n(d))], "points of direction %d" % d)
                x = {q: i if q == d else 0 for q in (1, 2, 3)}
                off = 8 * (x[1] + w.n(1) * (x[2] + w.n(2) * x[3])) % PM
                if v != F.H("mem", (root, (("o", off),))):
                    raise Bad("not the coordinate of direction %d along this direction" % d, I)
            cl = [x for x in w.kcalls if x[0] == "fdcentered_deriv_onesidedBC"]
            if not cl:
                raise Und("derivative")
            for n, a, I in cl:
                if a[1:] != [Ptr(("arg", 3)), Ptr(("arg", 4)), F.H("arg", 5)] or not isinstance(a[0], Ptr) or (a[0].root, a[0].path) != st[0][0]:
                    raise Bad("the derivative is not taken of the coefficients given, at the points of the direction", I)
            c.count("outputs compared")
        R.walk("fdcentered_deriv%d_onesidedBC" % d, "points", args={0: BOXARG}, cls=EW, check=(None, after))
    for per in (False, True):
        def before(w, per=per):
            w.alltext = []
            w.basis = "Fourier" if per else "ChebExtrema"
        def after(w, per=per):
            for d in (1, 2, 3):
                for sl, okn in (("get_coeffs", "fd2_coeffs"), ("coeffs_of_deriv", "fd2_deriv_periodic" if per else "fdcentered_deriv%d_onesidedBC" % d), ("eval_onPoints", "fd2_eval"), ("basis", "fd_basis%d" % d)):
                    v = w.mem.get(("BOX", (("f", "%s%d" % (sl, d)),)))
                    if not (isinstance(v, Ptr) and isinstance(v.root, tuple) and v.root[0] == "g"):
                        raise Und("function")
                    n = base(v.root[1])
                    if n != okn:
                        if n in R.named:
                            raise Bad("%s%d of the box is %s; it has to be %s" % (sl, d, n, okn))
                        raise Und("function " + n)
                    c.count("function pointers")
            have = {(o2, d) for ms, d in getattr(w, "built", []) for _, o2 in ms}
            for d in (1, 2, 3):
                for o2 in ("D", "DD", "C", "E"):
                    if (o2, d) not in have:
                        raise Bad("%s of direction %d keeps the values of the spectral basis" % (NAME[o2], d))
                    c.count("matrices set")
            for t in w.alltext:
                if w.number(t, "basis") is None:
                    raise Und("parameter")
        R.walk("convert_grid_to_fd", "periodic" if per else "not periodic", cls=SW, check=(before, after), flags={"inactive": 0})


# ------------------------------------------------------------------ the set-up of the grid
class SW(EW):
    """one pass over all boxes"""
    def __init__(s, *a, **k):
        EW.__init__(s, *a, **k)
        s.basis = None
        s.force = None
        s.order = []
        s.words = set()

    def bbox(s, k):
        p = (("f", "bbox"),) + ((("o", 8 * k),) if k else ())
        return s.mem.get(("BOX", p), s.F.H("mem", ("BOX", p)))

    def element(s, p, v, I):
        if p.root == "BOX":
            return False
        return EW.element(s, p, v, I)

    def getv(s, t, word):
        s.words.add(word)
        return int(word == s.basis) if t[0].endswith(("basis%d", "basis1", "basis2", "basis3")) else None

    def rel(s, x, a, b):
        if x in ("eq", "ne") and s.force is not None and isinstance(a, int) and isinstance(b, int):
            for v in s.ivs:
                for p, q in ((a, b), (b, a)):
                    if p == v:
                        e = s.force(q)
                        if e:
                            return x == "eq"
        return EW.rel(s, x, a, b)

    def hooked(s, I, n, a):
        if n in ("set_TransformType_flags_inbox", "init_spec_functionpointers", "get_spec_functionpointers"):
            s.order.append((n, a, I))
        if n in ("set_TransformType_flags_inbox", "init_spec_functionpointers"):
            return 0
        if n == "initfiltermatrix":
            r = s.role(a[0])
            want = lambda t: s.F.sub(s.F.add(s.n(r[1]), 1), s.F.H("par", repr(t)))
            for t in s.text_seen:
                if a[1] == want(t):
                    if s.number(t, "filter") != r[1]:
                        raise Bad("the filter matrix of direction %s removes as many coefficients as set for direction %s" % (r[1], s.number(t, "filter")), I)
                    break
            else:
                s.opaque = True
        return EW.hooked(s, I, n, a)

    def number(s, t, stem):
        """direction in the name of a parameter of the box"""
        m = re.match(r"^box%%d_%s(%%d|\d)$" % stem, t[0])
        if not m or not t[1] or t[1][0] not in s.ivs + [s.F.H("mem", ("BOX", (("f", "b"),)))]:
            return None
        if m.group(1) != "%d":
            return int(m.group(1))
        q = s.F.small(t[1][1])
        return None if q is None else int(q)

    @property
    def text_seen(s):
        return s.alltext

    def call(s, I):
        r = EW.call(s, I)
        for t in s.text.values():
            if t not in s.alltext:
                s.alltext.append(t)
        return r

    alltext = None


def setup(R, tier):
    c = R.c
    P0 = ir.load("main", "seq")
    f0 = P0.body("set_BoxStructures_fromPars")
    if f0 is None:
        return
    src = f0.src
    names = [base(f.name) for f in P0.funcs.values() if f.src == src]
    P = ir.load_linked("main", lambda p: p == src, ["set_BoxStructures_fromPars"], lambda n: n not in names)
    R2 = Runner(c, P)
    n = "set_BoxStructures_fromPars"
    pi = lambda F: F.pi()
    for bas in ("ChebExtrema", "ChebZeros", "Fourier", "fd2_periodic", "fd2_onesided"):
        for force in (None, 0, 1):
            if force is not None and bas != "ChebExtrema":
                continue
            def before(w, bas=bas, force=force):
                w.alltext = []
                w.basis = bas
                if force is not None:
                    w.force = lambda q: q == 0 if force == 0 else any(q == w.F.sub(w.n(d), 1) for d in (1, 2, 3))
            def after(w, bas=bas, force=force):
                F = w.F
                # intervals
                for d in (1, 2, 3):
                    for k, nm in ((0, "min"), (1, "max")):
                        v = w.bbox(2 * d - 2 + k)
                        t = next((t for t in w.alltext if F.H("par", repr(t)) == v), None)
                        if t is None:
                            raise Und("interval")
                        if w.number(t, nm) != d:
                            raise Bad("the interval of direction %d is taken from %s" % (d, t[0]))
                        c.count("parameters of the box")
                for d in (1, 2, 3):
                    v = w.mem.get(("BOX", (("f", "periodic"), ("o", 4 * d))))
                    if v is None:
                        raise Und("periodic")
                    if v != int(bas in ("Fourier", "fd2_periodic")):
                        raise Bad("direction %d of the basis %s is%s periodic" % (d, bas, "" if v else " not"))
                # points
                seen = {}
                for k, o, v, I, ivs in w.est:
                    dd = next((d for d in (1, 2, 3) if k == (Ptr(("ld", ("ld", "BOX", (("f", "v"),)), (("o", 8 * F.H("Ind", "XYZ"[d - 1]) % PM),))).root, ())), None)
                    if dd is None:
                        raise Und("array")
                    sp = {}
                    for iv in ivs:
                        for q in (1, 2, 3):
                            if spanof(w, iv) == (0, w.n(q)) and q not in sp:
                                sp.setdefault(q, iv)
                    if len(sp) < 3:
                        raise Und("points")
                    i, j, kk = sp[1], sp[2], sp[3]
                    if o != 8 * (i + w.n(1) * (j + w.n(2) * kk)) % PM:
                        raise Bad("the coordinates are not stored at the point they belong to", I)
                    seen[dd] = (v, sp[dd], I)
                for d in (1, 2, 3):
                    if d not in seen:
                        raise Bad("no coordinates in direction %d" % d)
                    v, m, I = seen[d]
                    a, b, nn = w.bbox(2 * d - 2), w.bbox(2 * d - 1), w.n(d)
                    half = F.inv(2)
                    mid = lambda cs: half * ((a - b) * cs + a + b) % PM
                    if bas == "ChebExtrema":
                        ok = [mid(F.fn("cos", m * F.pi() % PM * F.inv(F.sub(nn, 1)) % PM))]
                        if force is not None:
                            ok.append(b if force else a)
                    elif bas == "ChebZeros":
                        ok = [mid(F.fn("cos", (m + half) * F.pi() % PM * F.inv(nn) % PM))]
                    else:
                        ok = [(a + (b - a) * m % PM * F.inv(F.sub(nn, 1) if bas == "fd2_onesided" else nn)) % PM]
                    c.count("coordinates")
                    if v not in ok:
                        raise Bad("the points of the basis %s in direction %d are others" % (bas, d), I)
                # functions before matrices
                o = [x[0] for x in w.order]
                for x, y in (("set_TransformType_flags_inbox", "init_spec_functionpointers"), ("init_spec_functionpointers", "get_spec_functionpointers")):
                    if x in o and y in o and o.index(x) > o.index(y):
                        raise Bad("%s runs after %s" % (x, y), w.order[o.index(x)][2])
                have = {(o2, d) for ms, d in getattr(w, "built", []) for _, o2 in ms}
                for d in (1, 2, 3):
                    for o2 in ("D", "DD", "F", "C", "E", "Int"):
                        if (o2, d) not in have:
                            raise Bad("%s of direction %d is never set" % (NAME[o2], d))
                        c.count("matrices set")
            R2.walk(n, "%s%s" % (bas, "" if force is None else ", %s point" % ("last" if force else "first")), cls=SW, check=(before, after))


def run(tier):
    c = Check("P22", tier, RULE)
    P0 = ir.load("main", "seq")
    names = [base(f.name) for f in P0.funcs.values() if SPECTRAL in f.src]
    outside = {base(f.name) for f in P0.funcs.values() if SPECTRAL not in f.src}
    c.require("get_memline" in names and "put_memline" in names, "get_memline and put_memline")
    entries = sorted(names)
    P = ir.load_linked("main", lambda p: SPECTRAL in p, entries, lambda n: n in outside or n in KEEP)
    R = Runner(c, P)
    R.outside = outside
    R.named = set(names)
    derivatives(R, tier)
    transforms(R, tier)
    builders(R, tier)
    elements(R, tier)
    tables(R, tier)
    differences(R, tier)
    setup(R, tier)
    c.require(R.body("spec_allDerivs") and R.body("spec_Deriv1"), "spec_Deriv1 and spec_allDerivs")
    c.floor("cases decided", 120)
    c.floor("outputs compared", 150)
    c.assume += ["the one-dimensional functions (transformation, derivative, evaluation, basis) do what they stand for: this is decided for each of them, and for their matrices, elsewhere or not at all",
                 "the arrays a caller hands over do not overlap, except where the function itself calls others in place (the transformations, the integrals)",
                 "matrix products made by BLAS are what BLAS documents"]
    return c
