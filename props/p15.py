"""P15: the time integrators have the order they are chosen for."""
import os, re
from fractions import Fraction
from sgv import ir, irbuild, algv, transval
from sgv.val import *
from sgv.cfg import *
from sgv.report import Check

RULE = ("The step function is value-numbered with every operation on a variable list as a linear map and every evaluation of the right-hand side "
        "as a new basis vector: this yields the stages and the result of a step as u + sum of coefficients times dt times k_i.  The coefficients have "
        "to satisfy the order conditions of the method's order (rooted trees, exact in a prime field), the times of the stages have to be t + c_i dt, "
        "the result has to be at t + dt.  On the way the lists are followed as typestate: allocated, enabled, never evaluated in place.  The list "
        "operations themselves are compared with their definition by value numbers, for every kind of coefficient and every aliasing of the lists.")

EVO = "/evolve/"
ORDER = {"euler": 1, "midpoint": 2, "icn": 2}
IO = {"printf", "puts", "putchar", "fprintf", "fflush", "snprintf", "sprintf", "free", "prdivider", "printVarList"}

# the trees with up to 5 vertices: (order, 1/gamma, weights): phi = sum b_i w_i
def trees(A, b, F):
    s = len(b)
    one = [1] * s
    def ap(v):
        r = []
        for i in range(s):
            x = 0
            for j in range(s):
                x = F.add(x, F.mul(A[i][j], v[j]))
            r.append(x)
        return r
    def m(*vs):
        r = list(one)
        for v in vs:
            r = [F.mul(x, y) for x, y in zip(r, v)]
        return r
    c = ap(one)
    L = [(1, 1, one, "sum b"), (2, 2, c, "b c"), (3, 3, m(c, c), "b c^2"), (3, 6, ap(c), "b A c"),
         (4, 4, m(c, c, c), "b c^3"), (4, 8, m(c, ap(c)), "b c A c"), (4, 12, ap(m(c, c)), "b A c^2"), (4, 24, ap(ap(c)), "b A A c"),
         (5, 5, m(c, c, c, c), "b c^4"), (5, 10, m(c, c, ap(c)), "b c^2 A c"), (5, 15, m(c, ap(m(c, c))), "b c A c^2"),
         (5, 30, m(c, ap(ap(c))), "b c A A c"), (5, 20, m(ap(c), ap(c)), "b (A c)^2"), (5, 20, ap(m(c, c, c)), "b A c^3"),
         (5, 40, ap(m(c, ap(c))), "b A (c A c)"), (5, 60, ap(ap(m(c, c))), "b A A c^2"), (5, 120, ap(ap(ap(c))), "b A A A c")]
    for p, g, v, n in L:
        x = 0
        for i in range(s):
            x = F.add(x, F.mul(b[i], v[i]))
        yield p, g, x, n


class Bad(Exception):
    def __init__(s, what, I=None):
        s.what = what; s.I = I


class Lost(Exception):
    pass


def fraction(v):
    """the fraction of small numerator and denominator a number stands for"""
    a, b = algv.PM, v
    x, y = 0, 1
    while b > 1 << 40:
        q = a // b
        a, b = b, a - q * b
        x, y = y, x - q * y
    return Fraction(b, y) if 0 < abs(y) < 1 << 40 else None


def freeze(p):
    return p.key() if isinstance(p, algv.Ptr) else p


class Step(algv.Walk):
    """one step of the integrator; the contents of globals carry over"""

    def concrete(s, h):
        return True

    def compare(s, I, a, b):
        if isinstance(a, algv.Ptr) and isinstance(b, algv.Ptr) and I.x in ("eq", "ne"):
            return (a == b) == (I.x == "eq")
        return algv.Walk.compare(s, I, a, b)

    def rel(s, x, a, b):
        if isinstance(a, int) and isinstance(b, int):
            q = fraction((a - b) % algv.PM)
            if q is not None:
                return {"eq": q == 0, "ne": q != 0, "lt": q < 0, "le": q <= 0, "gt": q > 0, "ge": q >= 0}[x]
        return algv.Walk.rel(s, x, a, b)

    def load(s, p, ty, I=None):
        if isinstance(p, algv.Ptr) and p.root == "null":
            raise Bad("reads through a variable list that does not exist", I)
        return algv.Walk.load(s, p, ty, I)


def initial(P, f, k, ty, F):
    """what a global holds when the program starts"""
    g = P.glob(f, k[0][1]) or P.glob(f, "SGRID_" + k[0][1])
    if g is None:
        return None
    x = g.init; t = g.ty
    for st in k[1]:
        if st[0] == "f":
            names = [P.field(t, i) for i in range(len(P.structs.get(t) or []))]
            if st[1] not in names:
                return None
            i = names.index(st[1]); nt = P.structs[t][i]
            sub = [(i, nt)]
        else:
            q = F.small(st[1])
            if q is None or q.denominator != 1:
                return None
            o = int(q); sub = []
            while o or t.startswith("["):
                if not t.startswith("["):
                    return None
                nt = t[1:-1].split(" x ", 1)[1]; z = algv.sizeof(P, nt)
                sub.append((o // z, nt)); o %= z; t = nt
                if not o and not t.startswith("["):
                    break
        for i, nt in sub:
            if isinstance(x, tuple) and x[0] == "agg":
                if i >= len(x[1]):
                    return None
                x = x[1][i]
            t = nt
    while t.startswith("[") or t in P.structs:
        nt = t[1:-1].split(" x ", 1)[1] if t.startswith("[") else P.structs[t][0]
        if isinstance(x, tuple) and x[0] == "agg":
            x = x[1][0]
        t = nt
    if x in ("zeroinit", "null"):
        return algv.Ptr("null") if ty == "ptr" else 0
    if isinstance(x, (int, float)) and not isinstance(x, bool):
        return F.const(x)
    return None


class Run:
    """steps of one method in one process"""

    def __init__(s, P, F, roles, sel, persist, it0):
        s.P = P; s.F = F; s.roles = roles; s.sel = sel; s.persist = persist
        s.state = {}; s.enabled = set(); s.made = {}; s.seq = 0
        s.glob = {}
        s.it0 = it0
        s.asked = {}
        s.null = algv.Ptr("null")

    # -- states: {basis: coefficient}
    def get(s, p, I, use="used"):
        if not isinstance(p, algv.Ptr):
            raise Lost("list")
        if p.root == "null":
            raise Bad("a variable list that does not exist is %s" % use, I)
        k = freeze(p)
        if k != s.uc and k not in s.enabled:
            raise Bad("a variable list without memory is %s" % use, I)
        return s.state.setdefault(k, {("content", k): 1})

    def put(s, p, st, I):
        s.get(p, I, "written")
        s.state[freeze(p)] = {b: c for b, c in st.items() if c != 0}

    def comb(s, ca, A, cb, B):
        F = s.F; r = {}
        for b in set(A) | set(B):
            r[b] = F.add(F.mul(ca, A.get(b, 0)), F.mul(cb, B.get(b, 0)))
        return r

    def time(s, w, p):
        return w.load(p.step(s.F, ("f", "time")), "double")

    def settime(s, w, p, v):
        q = p.step(s.F, ("f", "time"))
        w.mem[w.canon(q)] = v

    def hook(s, w, I, n, a):
        F = s.F
        half = F.const(0.5); neg = F.neg(1)
        if n == "Getv" and isinstance(a[0], tuple) and isinstance(a[1], tuple):
            par, val = a[0][1], a[1][1]
            s.asked.setdefault(par, [])
            if val not in s.asked[par]:
                s.asked[par].append(val)
            if par in s.sel:
                return int(val == s.sel[par])
            if par == "evolve_persist":
                return int((val == "no") != s.persist)
            if par == "evolve_euler_debug":
                return int(val == "no")
            return int(F.H("getv", par, val) & 1)
        if n in ("vladd", "vladdto", "vlcopy", "vlaverage", "vlsubtract", "vlswap", "vlsetconstant"):
            if n == "vladd":
                r, ca, A, cb, B = a
            elif n == "vladdto":
                r, ca, A = a[0], 1, a[0]; cb, B = a[1], a[2]
            elif n == "vlcopy":
                r, ca, A, cb, B = a[0], 1, a[1], 0, a[1]
            elif n == "vlaverage":
                r, ca, A, cb, B = a[0], half, a[1], half, a[2]
            elif n == "vlsubtract":
                r, ca, A, cb, B = a[0], 1, a[1], neg, a[2]
            elif n == "vlsetconstant":
                s.put(a[0], {("const",): a[1]}, I); return 0
            else:
                x, y = s.get(a[0], I), s.get(a[1], I)
                t, u = s.time(w, a[0]), s.time(w, a[1])
                s.put(a[0], y, I); s.put(a[1], x, I)
                s.settime(w, a[0], u); s.settime(w, a[1], t)
                return 0
            zero = {}
            x = s.get(A, I) if ca != 0 else zero
            y = s.get(B, I) if cb != 0 else zero
            t = F.add(F.mul(ca, s.time(w, A)) if ca != 0 else 0, F.mul(cb, s.time(w, B)) if cb != 0 else 0)
            s.put(r, s.comb(ca, x, cb, y), I)
            if n != "vladdto" or cb != 0:
                s.settime(w, r, t)
            return 0
        if n in ("AddDuplicate", "AddDuplicateEnable"):
            s.seq += 1
            p = algv.Ptr(("list", s.seq))
            if n.endswith("Enable"):
                s.enabled.add(freeze(p))
            # a list that shares the variables of an earlier one of the same suffix is the same memory
            s.made[freeze(p)] = a[1]
            s.settime(w, p, s.time(w, a[0]))
            return p
        if n in ("enablevarlist", "vlenable"):
            if isinstance(a[0], algv.Ptr) and a[0].root != "null":
                s.enabled.add(freeze(a[0]))
            return 0
        if n in ("disablevarlist", "vldisable"):
            if isinstance(a[0], algv.Ptr) and a[0].root != "null":
                k = freeze(a[0])
                s.enabled.discard(k)
                if k in s.state:
                    s.seq += 1
                    s.state[k] = {("freed", s.seq): 1}
            return 0
        if n in IO or n in w.PURE:
            return None
        if any(isinstance(x, algv.Ptr) and freeze(x) in s.state for x in a):
            raise Lost("call of " + n)
        return None

    def icall(s, w, I, p, a):
        F = s.F
        if p == s.frhs:
            unew, upre, c, ucur = a
            if freeze(unew) == freeze(ucur):
                raise Bad("the right-hand side is evaluated into the list it is computed from", I)
            cur = dict(s.get(ucur, I, "used in the right-hand side"))
            k = ("k", len(s.evals))
            s.evals.append((cur, s.time(w, ucur), s.cond.get(freeze(ucur)) == cur, I))
            r = {k: 1} if c == 0 else s.comb(1, s.get(upre, I), c, {k: 1})
            s.put(unew, r, I)
            return 0
        if p == s.fcond:
            st = s.get(a[0], I)
            s.cond[freeze(a[0])] = dict(st)
            s.condpre.append((s.get(a[1], I), I))
            return 0
        raise Lost("indirect call")

    def atom(s, k, ty):
        F = s.F
        r = k[0]
        path = k[1]
        if path and path[-1] == ("f", "dt"):
            return s.dt
        if path and path[-1] == ("f", "iteration"):
            return s.it
        if r == s.grid.root and path and path[-1] == ("f", "time"):
            return s.t
        if k[0] == s.ucp.root and path == (("f", "n"),):
            return 0
        if isinstance(r, tuple) and r[0] == "g":
            if r[1] in s.roles:
                return {"list": s.ucp, "rhs": s.frhs, "cond": s.fcond}[s.roles[r[1]]]
            v = initial(s.P, s.f, k, ty, F)
            if v is not None:
                return v
        return None

    def step(s, n):
        """the n-th step of the process"""
        F = s.F
        s.f = s.P.body("evolve")
        s.dt = F.H("dt"); s.t = F.H("t", n); s.it = F.add(s.it0, n)
        s.grid = algv.Ptr(("arg", 0)); s.ucp = algv.Ptr(("registered",)); s.uc = freeze(s.ucp)
        s.frhs = algv.Ptr(("fp", "rhs")); s.fcond = algv.Ptr(("fp", "cond"))
        s.evals = []; s.cond = {}; s.condpre = []
        s.state[s.uc] = {("u",): 1}
        w = Step(s.P, s.f, F, args={0: s.grid}, hook=s.hook, atom=s.atom, limit=60000)
        w.icall = s.icall
        w.PURE = ("Getd", "Geti", "Gets")
        w.mem.update(s.glob)
        w.run()
        s.glob = {k: v for k, v in w.mem.items() if isinstance(k[0], tuple) and k[0][0] in ("g", "list", "registered")}
        s.w = w
        return w

    def butcher(s):
        F = s.F
        n = len(s.evals)
        i = F.inv(s.dt)
        rows = []
        for st in [e[0] for e in s.evals] + [s.state[s.uc]]:
            for b in st:
                if b != ("u",) and b[0] != "k":
                    return None, b
            if st.get(("u",), 0) != 1:
                return None, "u"
            rows.append([F.mul(st.get(("k", j), 0), i) for j in range(n)])
        return rows[:-1], rows[-1]


def roles(P):
    """the globals the registration functions store their argument in"""
    r = {}
    for fn, role in (("evolve_vlregister", "list"), ("evolve_rhsregister", "rhs"), ("evolve_algebraicConditionsregister", "cond")):
        f = P.body(fn)
        if f is None:
            return None
        for I in f.instrs():
            if I.op == "store" and is_glob(I.ops[1]) and I.ops[0] in [p if isinstance(p, str) else p[0] for p in f.params]:
                r[I.ops[1][1:]] = role
    return r if len(r) == 3 else None


def linkedprog():
    return ir.load_linked("main", lambda p: EVO in p and "test" not in p.split("/")[-1],
                          ["evolve", "evolve_vlregister", "evolve_rhsregister", "evolve_algebraicConditionsregister"], lambda n: False)


# ------------------------------------------------------------------ list operations
REF = r'''
#include "sgrid.h"
%s
'''
LOOP = '''  int b, n, i;
  forallboxes(%(g)s, b) { tBox *box = %(g)s->box[b];
    for (n = 0; n < %(v)s->n; n++) {
      for (i = 0; i < box->nnodes; i++) { %(body)s } } }
'''
P_ = lambda v: "box->v[%s->index[n]][i]" % v
OPS = {
    "vlcopy": ("tVarList *v, tVarList *u", "v", "{ double t = %s; %s = t; }" % (P_("u"), P_("v")), "v->time = u->time;"),
    "vlswap": ("tVarList *v, tVarList *u", "v", "{ double x = %s, y = %s; %s = y; %s = x; }" % (P_("v"), P_("u"), P_("v"), P_("u")),
               "{ double x = v->time, y = u->time; v->time = y; u->time = x; }"),
    "vlsetconstant": ("tVarList *u, const double c", "u", "%s = c;" % P_("u"), ""),
    "vlaverage": ("tVarList *r, tVarList *a, tVarList *b_", "r", "{ double x = %s, y = %s; %s = (x+y)/2; }" % (P_("a"), P_("b_"), P_("r")),
                  "r->time = (a->time + b_->time)/2;"),
    "vlsubtract": ("tVarList *r, tVarList *a, tVarList *b_", "r", "{ double x = %s, y = %s; %s = x-y; }" % (P_("a"), P_("b_"), P_("r")),
                   "r->time = a->time - b_->time;"),
    "vladd": ("tVarList *r, double ca, tVarList *a, double cb, tVarList *b_", "r", "{ double x = %s, y = %s; %s = ca*x+cb*y; }" % (P_("a"), P_("b_"), P_("r")),
              "r->time = ca * a->time + cb * b_->time;"),
    "vladdto": ("tVarList *r, const double ca, tVarList *a", "r", "{ double x = %s, y = %s; %s = x+ca*y; }" % (P_("r"), P_("a"), P_("r")),
                "r->time = r->time + ca * a->time;"),
}


def reference():
    out = []
    for n, (sig, v, body, tail) in OPS.items():
        out.append("void ref_%s(%s)\n{\n%s%s\n}\n" % (n, sig, LOOP % dict(g=v + "->grid", v=v, body=body), tail))
    return REF % "\n".join(out)


def listops(c, tier):
    P = ir.load("main", "seq")
    have = [n for n in OPS if P.body(n) is not None or P.body("SGRID_" + n) is not None]
    c.require("vladd" in have and "vlcopy" in have, "the operations on variable lists")
    src = {n: (P.body(n) or P.body("SGRID_" + n)).src for n in have}
    files = set(src.values())
    C = ir.load_linked("main", lambda p: p in files, have, lambda n: False)
    R = ir.load_text(reference(), [])
    for n in have:
        f = C.body(n) or C.body("SGRID_" + n); r = R.body("ref_" + n)
        lists = [k for k, t in enumerate(r.ptypes) if t.startswith("ptr")]
        nums = [k for k, t in enumerate(r.ptypes) if not t.startswith("ptr")]
        for al in aliases(len(lists)):
            for cs in coeffs(len(nums)):
                bad = None
                for seed in range(24 if tier == "thorough" else 8):
                    F = algv.Field(seed)
                    F.generic = True
                    args = {k: algv.Ptr(("arg", lists[al[j]])) for j, k in enumerate(lists)}
                    for k, x in zip(nums, cs):
                        args[k] = F.H("coefficient", k) if x is None else F.const(x)
                    at = lambda k, ty: ONE(k, ty, F)
                    try:
                        a = transval.walk(R, r, F, args=args, atom=at)
                        b = transval.walk(C, f, F, args=args, atom=at)
                    except (algv.Retry, algv.Giveup) as e:
                        c.notes.append("%s: not decided (%s)" % (n, e)); bad = None
                        continue
                    if not any(k[1] and k[1][-1] == ("o", "P") for k in a.mem):
                        c.count("cases not decided"); continue
                    c.count("cases of list operations compared")
                    for kind, k, I, J in transval.differences(a, b):
                        if kind == "not written" and a.mem[k] == F.H("mem", k):
                            continue            # x = x
                        if kind == "written without an equation" and b.mem[k] == F.H("mem", k):
                            continue
                        bad = (kind, k, I); break
                    if bad:
                        break
                if bad:
                    kind, k, I = bad
                    what = "time" if k and k[1] and k[1][-1] == ("f", "time") else "data"
                    c.violation("%s %s %s" % (n, what, kind), where(I, f) if I is not None and I.loc else "%s %s" % (os.path.relpath(src[n], irbuild.REPO), n),
                                "%s: %s of the result %s (lists %s, coefficients %s)" % (n, what, kind, "".join("rab"[x] for x in al), ", ".join("any" if x is None else str(x) for x in cs)))
        c.count("list operations")
        c.sample("%s compared with its definition" % n)


def ONE(k, ty, F):
    """all lists have the same grid"""
    if ty == "ptr" and k[1] and k[1][-1] == ("f", "grid"):
        return algv.Ptr(("grid",))
    return transval.active(k, ty)


def aliases(n):
    if n == 1:
        return [(0,)]
    if n == 2:
        return [(0, 1), (0, 0)]
    return [(0, 1, 2), (0, 0, 2), (0, 1, 0), (0, 1, 1), (0, 0, 0)]


def coeffs(n):
    v = [None, 0, 1, -1]
    if n == 0:
        return [()]
    if n == 1:
        return [(x,) for x in v]
    return [(x, y) for x in v for y in v]


# ------------------------------------------------------------------ integrators
def order(name):
    if name in ORDER:
        return ORDER[name]
    m = re.match(r"[a-z_]+(\d)[a-z]?$", name)
    return int(m.group(1)) if m else None


def run(tier):
    c = Check("P15", tier, RULE)
    listops(c, tier)
    P = linkedprog()
    c.require(P.body("evolve") is not None, "function evolve")
    R = roles(P)
    c.require(R is not None, "the functions that register an evolution system")
    ev = P.body("evolve")
    # the methods there are
    asked = {}
    for sel in ({"evolution_method": "?"}, {"evolution_method": "rk", "evolution_method_rk": "?"}):
        r = Run(P, algv.Field(0), R, sel, True, 0)
        try:
            r.step(0)
        except (Bad, Lost, algv.Giveup, algv.Retry):
            pass
        asked.update({k: v for k, v in r.asked.items() if k in sel})
    methods = [("evolution_method", m) for m in asked.get("evolution_method", []) if m != "rk"]
    methods += [("evolution_method_rk", m) for m in asked.get("evolution_method_rk", [])]
    c.require(methods, "the choice of evolution_method")
    for par, m in methods:
        p = order(m)
        if p is None:
            c.notes.append("method %s: no order known from its name" % m); continue
        sel = {"evolution_method": m} if par == "evolution_method" else {"evolution_method": "rk", par: m}
        for persist in (True, False):
            for it0 in ("start", "restart"):
                for seed in range(4 if tier == "thorough" else 1):
                    F = algv.Field(seed); F.generic = True
                    r = Run(P, F, R, sel, persist, 0 if it0 == "start" else F.H("it0"))
                    case = "%s%s, %s" % (m, "" if persist else " without persistent memory", "first iteration" if it0 == "start" else "first step after a restart")
                    try:
                        for n in range(2):
                            judge(c, r, n, m, p, case if not n else m + ", a later step", ev)
                    except Bad as e:
                        c.violation("%s %s" % (m, e.what), where(e.I, ev) if e.I is not None and e.I.loc else "evolve", "%s: %s" % (case, e.what))
                    except (Lost, algv.Giveup, algv.Retry) as e:
                        c.notes.append("%s: not decided (%s)" % (case, e))
                        continue
                    c.count("steps analysed", 2)
        c.count("methods")
    c.floor("methods", 1)
    c.floor("cases of list operations compared", 20)
    c.assume += ["the registered right-hand side returns f(ucur) for c = 0 and upre + c f(ucur) otherwise and leaves the times of its lists alone",
                 "dt, evolution_method and the registered list do not change between the steps of a run",
                 "floating point constants stand for the rational number they round"]
    return c


def judge(c, r, n, m, p, case, ev):
    F = r.F
    w = r.step(n)
    if w.aborted:
        raise Bad("stops the run", None)
    if not r.evals:
        raise Lost("no right-hand side")
    A, b = r.butcher()
    I = r.evals[0][3]
    src = "src/utility/evolve (method %s)" % m
    if A is None:
        raise Bad("a stage or the result depends on %s" % ("a multiple of the old state other than 1" if b == "u" else "memory that is not part of the step"), I)
    for o, g, x, name in trees(A, b, F):
        if o <= p:
            c.count("order conditions")
            if F.mul(x, g) != 1:
                c.violation("%s order %d" % (m, o), src, "%s: the condition %s = 1/%d of order %d fails" % (case, name, g, o))
                break
    ns = len(A)
    for i in range(ns):
        ci = 0
        for j in range(ns):
            ci = F.add(ci, A[i][j])
        c.count("stage times")
        if r.evals[i][1] != F.add(r.t, F.mul(ci, r.dt)):
            c.violation("%s stage time" % m, src, "%s: stage %d is evaluated at another time than t + c dt" % (case, i + 1))
        if any(A[i][j] != 0 for j in range(i, ns)):
            c.violation("%s implicit" % m, src, "%s: stage %d uses a later stage" % (case, i + 1))
    if r.time(w, r.ucp) != F.add(r.t, r.dt):
        c.violation("%s final time" % m, src, "%s: the result of the step is not at t + dt" % case)
    if r.cond.get(r.uc) != r.state[r.uc]:
        c.violation("%s conditions" % m, src, "%s: the algebraic conditions are not applied to the final state" % case)
    for st, J in r.condpre:
        if st != {("u",): 1}:
            c.violation("%s previous state" % m, src, "%s: the algebraic conditions are given something else than the old state" % case)
    c.sample("%s: %d stages, order %d" % (case, ns, p))
