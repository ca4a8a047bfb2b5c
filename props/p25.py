"""P25: the linearised equations Newton's method solves are the derivative of the nonlinear ones."""
import ast
from sgv import ir, irbuild, algv, tensor
from sgv.val import *
from sgv.cfg import *
from sgv.sx import base
from sgv.report import Check
from props.p17 import declarations, W as W17
from props import p25deg

RULE = ("For every call of Newton the functions F and J passed in are followed with the variable lists laid out as the caller built them.  F is evaluated over "
        "dual numbers: a field is (u,du), derivative operators act on both parts, right hand sides and coefficients have no second part.  What J stores at a "
        "point must be the second part of what F stored there, for the same component and the same points.  Boundary conditions that both share are "
        "analysed for the powers of the unknown and of the flag that distinguishes the two in every value they store: in the linearised case every value "
        "must be homogeneous of degree one in the unknown, and the terms of degree one must not depend on the flag.  Newton's loop must hand F(u), J and "
        "du to each other in the places meant for them and subtract lambda*du from u at every point of every variable.")

PM = algv.PM
D8 = ("o", "P")
DERIVS = {"D_and_DD_of_S": 2, "allDerivsOf_S": 2, "FirstAndSecondDerivsOf_S": 2, "FirstDerivsOf_S": 1}
B6 = ((1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 3))


class Und(Exception):
    pass


def val(x):
    return x.t.get((), 0) if isinstance(x, algv.Jet) else x


def body(P, n):
    return P.body(n) or P.body("SGRID_" + n)


def newtons(P):
    for f in sorted(P.funcs.values(), key=lambda f: (f.src, f.name)):
        for I in f.instrs():
            if I.op == "call" and is_glob(I.callee) and base(I.callee[1:]) == "Newton" and len(I.ops) >= 19:
                yield f, I


def lists(P, f, decl):
    """SSA value of a variable list -> [component name]"""
    r = {}
    ev = []
    cg = cfg_of(P, f)
    for I in f.instrs():
        if I.op != "call" or not is_glob(I.callee):
            continue
        n = base(I.callee[1:])
        if n in ("vlalloc", "AddDuplicateEnable", "AddDuplicate", "vlpush", "vlpushone", "vlpushvl", "vlduplicate", "vldropn", "vldrop"):
            ev.append(I)
    inloop = {b for h in cg.loops for b in cg.loops[h]}
    for I in ev:
        n = base(I.callee[1:])
        if I.blk in inloop:
            return None
        if n == "vlalloc":
            r[I.name] = []
        elif n in ("AddDuplicateEnable", "AddDuplicate"):
            s = P.string(f, I.ops[1])
            if I.ops[0] not in r or s is None:
                continue
            r[I.name] = [(g + s, k) for g, k in r[I.ops[0]]]
        elif n == "vlduplicate":
            if I.ops[0] in r:
                r[I.name] = list(r[I.ops[0]])
        elif n in ("vlpush", "vlpushone"):
            d = f.defs.get(I.ops[1]) if is_local(I.ops[1]) else None
            if I.ops[0] not in r:
                continue
            nm = P.string(f, d.ops[0]) if d is not None and d.op == "call" and base(str(d.callee)[1:]) in ("Ind", "IndLax") else None
            if nm is None:
                r[I.ops[0]] = None; return None
            g, comps, k = group(decl, nm)
            if g is None:
                return None
            r[I.ops[0]] += [(g, j) for j in range(len(comps))] if n == "vlpush" else [(g, k)]
        elif n == "vlpushvl":
            if I.ops[0] in r and I.ops[1] in r:
                r[I.ops[0]] += r[I.ops[1]]
        else:
            return None
    return r


def group(decl, nm):
    """the declared variable a component belongs to: (name, components, position)"""
    for root, tis in sorted(decl.items()):
        if not nm.startswith(root):
            continue
        for ti in sorted(tis):
            cs = tensor.components(ti) if ti else [("", ())]
            names = [root + x for x, _ in cs or []]
            if nm in names:
                return names[0], names, names.index(nm)
    return None, None, None


class Model:
    def __init__(s, P, F, args, lin, start, uset, n):
        s.P = P; s.F = F; s.args = args; s.lin = lin; s.start = start; s.uset = uset
        s.nm = {}; s.bcs = []
        for a in args:
            for g, k in a or []:
                s.nm[s.ix((g, k))] = (g, k)
        s.label = {}
        s.touched = set()

    def ix(s, v):
        return s.F.add(s.F.H("Ind", v[0]), v[1])

    def var(s, k):
        """variable of an index value"""
        if k in s.nm:
            return s.nm[k]
        return None

    def ofptr(s, p):
        """variable of box->v[..]"""
        r = p.root
        if isinstance(r, tuple) and r[0] == "ld" and r[1] == ("ld", "BOX", (("f", "v"),)) and not p.path:
            o = r[2][0][1] if r[2] else 0
            if isinstance(o, int):
                return s.var(o * pow(8, -1, PM) % PM)
        return None

    def key(s, v):
        q = 8 * s.ix(v) % PM
        return (("ld", ("ld", "BOX", (("f", "v"),)), (("o", q),)), (D8,))

    def value(s, v):
        """content of a variable where the function starts"""
        F = s.F
        if v in s.start:
            return s.start[v]
        if not s.lin and v in s.uset:
            return algv.Jet({(): F.H("u", v), (0,): F.H("du", v)})
        return F.H("u", v)

    def content(s, v):
        k = s.key(v)
        return s.w.mem[k] if k in s.w.mem else s.value(v)

    def atom(s, k, ty):
        if k[1] and k[1][-1] == ("f", "inactive"):
            return 0
        root, path = k
        if isinstance(root, tuple) and root[0] == "arg" and len(path) == 1 and path[0] == ("f", "n") and root[1] < 4 and s.args[root[1]] is not None:
            return len(s.args[root[1]])
        if isinstance(root, tuple) and root[0] == "ld" and isinstance(root[1], tuple) and root[1][0] == "arg" and root[2] == (("f", "index"),) and ty == "i32":
            a = s.args[root[1][1]]
            q = s.F.small(path[0][1]) if path else 0
            if a is None or q is None or int(q) // 4 >= len(a):
                raise Und("an element that is not in the list")
            return s.ix(a[int(q) // 4])
        if ty == "double" and path == (D8,):
            v = s.ofptr(algv.Ptr(root))
            if v is not None:
                return s.value(v)
        return None

    def lin_op(s, x, *d):
        F = s.F
        if isinstance(x, algv.Jet):
            return algv.Jet({k: F.H("D", d, g) for k, g in x.t.items() if g})
        return F.H("D", d, x) if x else 0

    def hook(s, w, I, n, a):
        if n in ("Ind", "IndLax") and isinstance(a[0], tuple):
            q = group(s.decl, a[0][1])
            v = (q[0], q[2]) if q[0] else (a[0][1], 0)
            x = s.ix(v); s.nm.setdefault(x, v)
            return x
        if n in DERIVS:
            iu = a[1]
            v = s.var(iu)
            if v is None:
                raise Und("derivatives of an unknown variable")
            x = s.content(v)
            for k in (1, 2, 3):
                s.put(a[2] + k - 1, s.lin_op(x, k), I)
            if DERIVS[n] == 2 and len(a) > 3:
                for k, d in enumerate(B6):
                    s.put(a[3] + k, s.lin_op(x, *d), I)
            return 0
        if n in s.bcnames:
            s.bcs.append((n, a, I))
            return 0
        return None

    def put(s, ix, x, I):
        v = s.var(ix % PM)
        if v is None:
            # a component next to one that is known
            for g, k in list(s.nm.values()):
                d = s.F.small((ix - s.F.H("Ind", g)) % PM)
                if d is not None and 0 <= d < 40:
                    v = (g, int(d)); s.nm[ix % PM] = v
                    break
            else:
                raise Und("a derivative is stored in an unknown variable")
        k = s.key(v)
        s.w.mem[k] = x; s.w.by[k] = I; s.w.dom[k] = None
        s.touched.add(v)


class W(algv.Walk):
    def __init__(s, P, f, F, M):
        algv.Walk.__init__(s, P, f, F, hook=M.hook, atom=M.atom)
        M.w = s


def unit(f):
    return irbuild.os.path.dirname(f.src)


def one(c, P, f, I, decl, tier):
    fl = lists(P, f, decl)
    names = [base(o[1:]) if is_glob(o) else None for o in I.ops[:2]]
    if fl is None or None in names:
        c.notes.append("%s: the arguments of Newton are not followed" % base(f.name)); return
    L = lambda k: fl.get(I.ops[k])
    A = {"F": [L(3), L(2), L(4), L(5)], "J": [L(13), L(12), L(14), L(15)]}
    if A["F"][0] is None or A["F"][1] is None or A["J"][1] is None or A["J"][0] is None:
        c.notes.append("%s: the lists given to Newton are not followed" % base(f.name)); return
    nu = len(A["F"][1])
    for what, l in (("the residual", A["F"][0]), ("the correction", A["J"][1]), ("the linear residual", A["J"][0])):
        c.count("variable lists laid out")
        if len(l) != nu:
            c.violation("%s lists" % base(f.name), where(I, f), "%s: the list for %s has %d variables, the list of unknowns %d" % (base(f.name), what, len(l), nu)); return
    if set(A["F"][1]) & (set(A["F"][0]) | set(A["J"][0]) | set(A["J"][1])) or set(A["J"][1]) & set(A["F"][0]) or set(A["J"][1]) & set(A["J"][0]):
        c.violation("%s lists overlap" % base(f.name), where(I, f), "%s: the lists of unknowns, corrections and residuals given to Newton share variables" % base(f.name)); return
    FJ = [next((g for g in P.funcs.values() if base(g.name) == n), None) for n in names]
    if None in FJ:
        c.notes.append("%s: %s not found" % (base(f.name), names)); return
    # conditions imposed by functions that get the residual as a list
    bcn = set()
    for g in FJ:
        for q in g.instrs():
            if q.op == "call" and is_glob(q.callee) and g.params and any(o == pname(g, 0) for o in q.ops) and body(P, base(q.callee[1:])) is not None:
                bcn.add(base(q.callee[1:]))
    d = unit(FJ[0])
    allsrc = {base(x.name) for x in P.funcs.values()}
    T = ir.load_linked("main", lambda p: irbuild.os.path.dirname(p) == d, names, lambda n: n in DERIVS or n in bcn or n in allsrc and body(P, n) is not None and unit(body(P, n)) != d, "mem2reg,simplifycfg")
    seen = {}
    done = 0
    for sd in range(24 if tier == "thorough" else 8):
        try:
            walks(c, P, T, f, names, A, decl, bcn, sd, seen, nu)
            done += 1
        except (Und, algv.Giveup, algv.Retry) as e:
            seen.setdefault("und", set()).add(str(e))
    if not done:
        c.notes.append("%s: %s and %s not decided (%s)" % (base(f.name), names[0], names[1], ", ".join(sorted(seen.get("und", [])))))
    else:
        c.count("pairs of F and J")
        c.sample("%s: %s is the derivative of %s (%d unknowns, %d sequences of branch decisions)" % (base(f.name), names[1], names[0], nu, done))
    # the shared boundary conditions
    for bc in sorted(seen.get("bc", {})):
        for flags in sorted(seen["bc"][bc]):
            p25deg.judge(c, P, d, bc, dict(flags[0]), flags[1], flags[2])


def pname(g, k):
    p = g.params[k]
    return p if isinstance(p, str) else p[0]


def walks(c, P, T, f, names, A, decl, bcn, sd, seen, nu):
    F = algv.Field(sd); F.generic = True
    aF, aJ = A["F"], A["J"]
    uset = set(aF[1])
    ms = []
    fin = {}
    for lin, nm, args in ((False, names[0], aF), (True, names[1], aJ)):
        g = body(T, nm)
        if g is None:
            raise Und("%s not found" % nm)
        M = Model(P, F, args, lin, fin, uset, nu)
        M.decl = decl; M.bcnames = bcn
        w = W(T, g, F, M)
        w.run()
        if w.aborted:
            raise algv.Retry("stops")
        ms.append((M, w, g))
        if not lin:
            for k in w.mem:
                v = M.ofptr(algv.Ptr(k[0]))
                if v is not None and k[1] == (D8,):
                    x = w.mem[k]
                    fin[v] = val(x)
                    if v in uset:
                        bad(c, seen, "%s changes the unknowns" % nm, w, k, g, "%s: evaluating the equations changes the unknown %s" % (nm, v[0]))
            # the second function sees plain numbers
            for v in uset:
                fin[v] = F.H("u", v)
            for v in aJ[1]:
                fin[v] = F.H("du", A["F"][1][aJ[1].index(v)])
    (MF, wF, gF), (MJ, wJ, gJ) = ms
    for k in list(wJ.mem):
        v = MJ.ofptr(algv.Ptr(k[0]))
        if v is not None and (v in uset or v in aJ[1]):
            bad(c, seen, "%s changes the unknowns" % names[1], wJ, k, gJ, "%s: evaluating the linearised equations changes %s" % (names[1], v[0]))
    for j in range(nu):
        kF, kJ = MF.key(aF[0][j]), MJ.key(aJ[0][j])
        c.count("equations compared")
        have, src = wJ.mem.get(kJ), wF.mem.get(kF)
        if src is None and have is None:
            continue
        if src is None or have is None:
            m, x, g, k = (names[0], wJ, gJ, kJ) if src is None else (names[1], wF, gF, kF)
            bad(c, seen, "%s %d not set" % (m, j), x, k, g, "%s: the equation for %s is set in %s but not here" % (m, aF[1][j][0], names[1] if src is None else names[0]))
            continue
        want = src.t.get((0,), 0) if isinstance(src, algv.Jet) else 0
        have = val(have)
        if have != want:
            why = "" if not isinstance(src, algv.Jet) or have != val(src) else ": it is the nonlinear equation"
            bad(c, seen, "%s %d" % (names[1], j), wJ, kJ, gJ, "%s: the equation for the correction of %s is not the derivative of the one %s stores%s" % (names[1], aF[1][j][0], names[0], why))
        dF, dJ = wF.dom.get(kF), wJ.dom.get(kJ)
        if dF is not None and dJ is not None and sorted(dF) != sorted(dJ):
            bad(c, seen, "%s %d points" % (names[1], j), wJ, kJ, gJ, "%s and %s set the equation for %s at different points" % (names[0], names[1], aF[1][j][0]))
    # boundary conditions
    bF, bJ = MF.bcs, MJ.bcs
    if [x[0] for x in bF] != [x[0] for x in bJ]:
        if {x[0] for x in bF} - {x[0] for x in bJ} or {x[0] for x in bJ} - {x[0] for x in bF}:
            m = names[1] if len(bF) > len(bJ) else names[0]
            g = gJ if len(bF) > len(bJ) else gF
            seen.setdefault("und", set()).add("different boundary functions")
            if not bJ or not bF:
                key = "%s no conditions" % m
                if key not in seen:
                    seen[key] = 1
                    c.violation(key, where(None, g), "%s does not impose the conditions %s that %s imposes" % (m, ", ".join(sorted({x[0] for x in bF + bJ})), names[0] if m == names[1] else names[1]))
        return
    for (n, a, I), (_, b, I2) in zip(bF, bJ):
        if len(a) != len(b):
            continue
        roles = {}
        flag = None
        for k, (x, y) in enumerate(zip(a, b)):
            if isinstance(x, algv.Ptr) and isinstance(y, algv.Ptr):
                rx, ry = role(x, aF), role(y, aJ)
                if rx is None or ry is None:
                    continue
                ok = rolepair(rx, ry, aF, aJ, MF, MJ)
                if not ok:
                    key = "%s list %d of %s" % (names[1], k, n)
                    if key not in seen:
                        seen[key] = 1
                        c.violation(key, where(I2, gJ), "%s: %s gets a list that does not hold the derivatives of what %s passes" % (names[1], n, names[0]))
                roles[k] = "F" if rx is aF[0] else "U"
            elif isinstance(x, int) and isinstance(y, int) and x != y:
                p, q = F.small(x), F.small(y)
                if p is not None and q is not None:
                    flag = (k, int(p), int(q)) if flag is None else "two"
        if flag == "two":
            continue
        seen.setdefault("bc", {}).setdefault(n, set()).add((tuple(sorted(roles.items())), flag, names[1]))
    for n in {x[0] for x in bF}:
        c.count("shared boundary functions")


def role(p, args):
    r = p.root
    if isinstance(r, tuple) and r[0] == "arg" and not p.path and r[1] < 4:
        return args[r[1]]
    return None


def rolepair(x, y, aF, aJ, MF, MJ):
    """is y what x becomes when u is replaced by du?"""
    if x is aF[0]:
        return y is aJ[0] or y == aJ[0]
    if y == aJ[0]:
        return False
    for a, b in zip(x, y):
        p = MF.content(a)
        if isinstance(p, algv.Jet) and p.t.get((0,)) and val(MJ.content(b)) != p.t[(0,)]:
            return False
        if b in MJ.touched and val(MJ.content(b)) and not (isinstance(p, algv.Jet) and p.t.get((0,))):
            return False
    return len(x) == len(y) or not any(isinstance(MF.content(a), algv.Jet) for a in x[len(y):])


def bad(c, seen, key, w, k, g, text):
    if key in seen:
        return
    seen[key] = 1
    I = w.by.get(k)
    c.violation(key, where(I, g) if I is not None and I.loc else where(None, g), text)


# ---------------------------------------------------------------- Newton itself
def newton(c, P):
    f = body(P, "Newton")
    c.require(f is not None, "Newton")
    p = [pname(f, k) for k in range(len(f.params))]
    par = dict(Fu=p[0], Jdu=p[1], vlu=p[2], vlFu=p[3], vlc1=p[4], vlc2=p[5], vldu=p[12], vlres=p[13], vld1=p[14], vld2=p[15])
    want = {"Fu": ["vlFu", "vlu", "vlc1", "vlc2"], "Jdu": ["vlres", "vldu", "vld1", "vld2"]}
    back = {v: k for k, v in par.items()}
    def pas(f, par, what):
        back = {v: k for k, v in par.items()}
        for I in f.instrs():
            if I.op != "call":
                continue
            role = back.get(I.callee)
            got = [back.get(o) for o in I.ops]
            if role in want and len(I.ops) == 4:
                c.count("calls in Newton's method")
                if None not in got and got != want[role]:
                    c.violation("%s %s" % (base(f.name), role), where(I, f), "%s: %s is called for (%s) instead of (%s)" % (base(f.name), "the nonlinear function" if role == "Fu" else "the linearised function", ", ".join(got), ", ".join(want[role])))
            elif is_local(I.callee) and len(I.ops) == 10:
                # a linear solver
                c.count("calls in Newton's method")
                w = ["vldu", "vlFu", "vlres", "vld1", "vld2"]
                if None not in got[:5] and got[:5] != w:
                    c.violation("%s solver" % base(f.name), where(I, f), "%s: the linear solver is called for (%s) instead of (%s)" % (base(f.name), ", ".join(got[:5]), ", ".join(w)))
                if got[8] is not None and got[8] != "Jdu":
                    c.violation("%s solver J" % base(f.name), where(I, f), "%s: the linear solver gets %s in place of the linearised function" % (base(f.name), got[8]))
            elif is_glob(I.callee) and base(I.callee[1:]) == "do_partial_Newton_step" and len(I.ops) == 3:
                c.count("calls in Newton's method")
                if got[0] is not None and got[2] is not None and (got[0], got[2]) != ("vlu", "vldu"):
                    c.violation("%s step" % base(f.name), where(I, f), "%s: the step is taken in %s along %s" % (base(f.name), got[0], got[2]))
            elif is_glob(I.callee) and base(I.callee[1:]) == "do_Newton_step" and len(I.ops) == 12:
                c.count("calls in Newton's method")
                w = ["vlu", "vldu", None, "Fu", "Jdu", "vlFu", "vlc1", "vlc2", "vlres", "vld1", "vld2", None]
                for k, (x, y) in enumerate(zip(got, w)):
                    if x is not None and y is not None and x != y:
                        c.violation("%s do_Newton_step %d" % (base(f.name), k), where(I, f), "%s: do_Newton_step gets %s in place of %s" % (base(f.name), x, y))
    pas(f, par, "Newton")
    g = body(P, "do_Newton_step")
    if g is not None and len(g.params) == 12:
        q = [pname(g, k) for k in range(12)]
        pas(g, dict(Fu=q[3], Jdu=q[4], vlu=q[0], vldu=q[1], vlFu=q[5], vlc1=q[6], vlc2=q[7], vlres=q[8], vld1=q[9], vld2=q[10]), "step")
    # u -= lambda*du
    h = body(P, "do_partial_Newton_step")
    if h is None or len(h.params) != 3:
        c.notes.append("do_partial_Newton_step not found"); return
    d = unit(h)
    T = ir.load_linked("main", lambda p: irbuild.os.path.dirname(p) == d, [base(h.name)], lambda n: False, "mem2reg,simplifycfg")
    g = body(T, base(h.name))
    F = algv.Field(3); F.generic = True
    w = algv.Walk(T, g, F, atom=lambda k, ty: 0 if k[1] and k[1][-1] == ("f", "inactive") else None)
    try:
        w.run()
    except (algv.Giveup, algv.Retry) as e:
        c.notes.append("do_partial_Newton_step: not decided (%s)" % e); return
    iv = [v for v in w.ivs]
    lam = F.H("arg", 1)
    ok = False
    for k, x in w.mem.items():
        r = k[0]
        if not (isinstance(r, tuple) and r[0] == "ld" and k[1] == (D8,) and r[1] == ("ld", "BOX", (("f", "v"),)) and r[2]):
            continue
        ix = r[2][-1][1]
        hit = False
        for v in iv:
            e = lambda a: F.H("mem", (("ld", ("arg", a), (("f", "index"),)), (("o", 4 * v % PM),)))
            if ix != 8 * e(0) % PM:
                continue
            hit = True
            key = lambda a: (("ld", ("ld", "BOX", (("f", "v"),)), (("o", 8 * e(a) % PM),)), (D8,))
            u = F.H("mem", key(0)); du = F.H("mem", key(2))
            c.count("Newton steps")
            if x != F.sub(u, F.mul(lam, du)):
                c.violation("step", where(w.by[k], g), "do_partial_Newton_step: the new value is not u - lambda*du")
            dm = w.dom.get(k)
            m = lambda n: F.H("mem", n)
            pts = repr((0, m(("BOX", (("f", "nnodes"),)))))
            var = repr((0, m((("arg", 0), (("f", "n"),)))))
            if dm is not None:
                if pts not in dm and len(dm) == 3:
                    c.violation("step points", where(w.by[k], g), "do_partial_Newton_step: not every point is updated")
                elif var not in dm and len(dm) == 3 and repr((0, m((("arg", 2), (("f", "n"),))))) not in dm:
                    c.violation("step variables", where(w.by[k], g), "do_partial_Newton_step: not every variable is updated")
            ok = True
        if not hit:
            c.notes.append("do_partial_Newton_step: a store to a variable that is not followed")
    if not ok:
        c.notes.append("do_partial_Newton_step: no update found")


def linesearch(c, P, tier):
    """the step finally taken is the one whose residual the line search has found to be smallest"""
    h = body(P, "do_Newton_step")
    if h is None:
        c.notes.append("do_Newton_step not found"); return
    d = unit(h)
    own = {base(f.name) for f in P.funcs.values() if unit(f) == d and f.src == h.src}
    T = ir.load_linked("main", lambda p: p == h.src, ["do_Newton_step"] + sorted(n for n in own if "residual" in n), lambda n: n in own, "mem2reg,simplifycfg")
    g = body(T, "do_Newton_step")

    class St:
        def __init__(s, F):
            s.F = F; s.l = {}; s.min = None; s.at = None; s.fn = None; s.bad = None

        def get(s, p):
            return s.l.setdefault(repr(p.key()), s.F.H("list", p.key()))

        def hook(s, w, I, n, a):
            F = s.F
            if n == "vlcopy":
                s.l[repr(a[0].key())] = s.get(a[1]); return 0
            if n == "vlsetconstant":
                s.l[repr(a[0].key())] = F.H("constant", a[1]) if a[1] else 0; return 0
            if n == "do_partial_Newton_step":
                s.l[repr(a[0].key())] = F.sub(s.get(a[0]), F.mul(a[1], s.get(a[2]))); return 0
            if n.startswith("AddDuplicate"):
                return algv.Ptr(("new", n, repr(a[1]), len(s.l)))
            if n.startswith("brent") or n.startswith("mnbrak"):
                fn = [x for x in a if isinstance(x, algv.Ptr) and isinstance(x.root, tuple) and x.root[0] == "g"]
                ps = a[-1]
                if len(fn) != 1 or not isinstance(ps, algv.Ptr):
                    raise Und("line search")
                pars = {k: v for k, v in w.mem.items() if k[0] == ps.root}
                saved = dict(s.l)
                # the function is called for arguments that are not known
                r = body(T, fn[0].root[1])
                if r is None:
                    raise Und("the function minimised is not known")
                t = St(F); t.l = dict(s.l)
                w2 = algv.Walk(T, r, F, args={0: F.H("some lambda"), 1: ps}, hook=t.hook)
                w2.mem.update(pars)
                w2.run()
                for k, v in t.l.items():
                    if v != s.l.get(k, v) or k not in s.l:
                        s.l[k] = F.H("left by", k)
                if n.startswith("brent"):
                    out = a[5]
                    x = F.H("lmin")
                    w.mem[out.key()] = x
                    s.min = x; s.fn = fn[0].root[1]
                    s.pars = pars; s.saved = saved; s.p = ps
                    return F.H("fmin")
                for k in range(6):
                    w.mem[a[k].key()] = F.H("mnbrak", k)
                return 0
            return None

    judged = 0
    for sd in range(40 if tier == "thorough" else 16):
        F = algv.Field(sd); F.generic = True
        s = St(F)
        w = algv.Walk(T, g, F, hook=s.hook)
        try:
            w.run()
            if w.aborted:
                continue
            u = s.get(algv.Ptr(("arg", 0)))
            u0 = F.H("list", algv.Ptr(("arg", 0)).key()); du = F.H("list", algv.Ptr(("arg", 1)).key())
            judged += 1
            if s.min is None:
                c.count("Newton steps")
                if u != F.sub(u0, du):
                    c.violation("full step", where(None, g), "do_Newton_step: without a line search the step taken is not u - du"); return
                continue
            r = body(T, s.fn)
            if r is None:
                raise Und("the function minimised is not known")
            t = St(F); t.l = dict(s.l)
            t.l.update({k: v for k, v in s.saved.items() if k != repr(algv.Ptr(("arg", 0)).key())})
            seen = []
            def icall(w2, I, p, a):
                seen.append([t.get(x) if isinstance(x, algv.Ptr) else None for x in a] + [a]); return F.H("Fu")
            w2 = algv.Walk(T, r, F, args={0: s.min, 1: s.p}, hook=t.hook)
            w2.icall = icall
            w2.mem.update(s.pars)
            w2.run()
            q = [x for x in seen if len(x) == 5]
            if not q:
                raise Und("the residual is not computed")
            c.count("line searches")
            if q[-1][1] != u:
                c.violation("line search", where(None, g), "do_Newton_step: the step taken is not the one whose residual %s computes for the same lambda" % s.fn); return
        except (Und, algv.Giveup, algv.Retry) as e:
            c.notes.append("do_Newton_step: a path is not decided (%s)" % e); return
    c.sample("do_Newton_step: %d paths end with u - lambda*du for the lambda found" % judged)


def run(tier):
    c = Check("P25", tier, RULE)
    P = ir.load("main", "seq")
    decl = declarations("main")
    ns = list(newtons(P))
    c.require(ns, "calls of Newton")
    for f, I in ns:
        one(c, P, f, I, decl, tier)
    newton(c, P)
    linesearch(c, P, tier)
    c.floor("equations compared", 4)
    c.floor("calls in Newton's method", 3)
    c.assume += ["the functions that compute derivatives of a variable are linear in it (P17 and P22 follow them)",
                 "the branches of F and J that depend on parameters go the same way in both"]
    return c
