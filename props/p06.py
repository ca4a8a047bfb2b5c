"""P06: every parameter that must exist is declared."""
from sgv import ir
from sgv.declared import *
from sgv.report import Check

RULE = ("The possible texts of every parameter name are derived from the literals and the formatted-print calls that build it (through "
        "local buffers and callers). Each lookup that aborts on a missing name must match the name of a declaration call that is executed "
        "at start-up; a declaration made only under a parameter test covers only lookups that run under the same test.")


def run(tier):
    c = Check("P06", tier, RULE)
    for which in ("main", "alt"):
        one(c, ir.load(which, "seq"), which)
    c.floor("fatal parameter lookups", 500)
    c.floor("declarations", 150)
    c.assume += ["declarations inside a counted loop are executed for every box the run uses",
                 "names taken from the parameter file or a checkpoint file itself are outside the rule (counted as undetermined)"]
    return c


def find(P, n):
    for k in (n, "SGRID_" + n):
        if k in P.funcs:
            return k
    return None


def one(c, P, which):
    base = find(P, "findparameterindex")
    mk = find(P, "makeparameter")
    c.require(base and mk, "the parameter table's lookup and creation functions")
    look = lookups(P, (base, 0, 1))
    C = Context(P)
    live = reach_funcs(P)
    # declaring functions: parameter 0 flows into makeparameter's name
    decl = {mk: 0}
    ch = True
    while ch:
        ch = False
        for f in P.funcs.values():
            if f.name in decl:
                continue
            for I in f.instrs():
                if I.op == "call" and is_glob(I.callee) and I.callee[1:] in decl:
                    v = strip(f, I.ops[decl[I.callee[1:]]])
                    if v in f.params:
                        decl[f.name] = f.params.index(v); ch = True
                        break
    run_rule(c, P, which, C, live, look, decl, C.S, "parameter")


def run_rule(c, P, which, C, live, look, decl, S, noun, names=None, more=None):
    D_ = []
    for f in P.funcs.values():
        if f.name not in live or f.name in decl:
            continue
        for I in f.instrs():
            if I.op == "call" and is_glob(I.callee) and I.callee[1:] in decl and I.blk in cfg_of(P, f).live:
                for p in names(f, I) if names else S.pats(f, I, I.ops[decl[I.callee[1:]]]):
                    if p == A:
                        continue
                    g = frozenset(a for a in C.full(f, I) if not activation(a))
                    D_.append((p, g, f, I)); c.count("declarations")
    seen = set()
    for f in P.funcs.values():
        if f.name not in live or f.name in look:
            continue
        cg = cfg_of(P, f)
        for I in f.instrs():
            if I.op != "call" or not is_glob(I.callee) or I.blk not in cg.live:
                continue
            r = look.get(I.callee[1:])
            if not r:
                continue
            for k, m in r.items():
                if isinstance(m, tuple):
                    fv = I.ops[m[1]]
                    m = "fatal" if not (isinstance(fv, int) and fv == 0) else "lax"
                if m != "fatal" or k >= len(I.ops):
                    continue
                ps = S.pats(f, I, I.ops[k])
                for p in ps:
                    if p == A or p.strip(A + D) == "":
                        c.count("lookups of undetermined names"); continue
                    c.count("fatal %s lookups" % noun)
                    ds = [d for d in D_ if unify(p, d[0])]
                    if not ds and more:
                        ds = [d for d in more(D_) if unify(p, d[0])]
                    fn = f.name
                    if not ds:
                        if tolerant(P, f, cg, I, look, S, p):
                            continue
                        key = "%s|%s" % (fn, show(p))
                        if key not in seen:
                            seen.add(key)
                            c.violation(key, where(I, f), "%s aborts unless %s '%s' exists, but nothing declares it (configuration %s)"
                                        % (fn, noun, show(p), which))
                        continue
                    if any(not d[1] for d in ds):
                        continue
                    have = C.full(f, I)
                    if any(d[1] <= have for d in ds):
                        continue
                    # declared and looked up in the same start-up function
                    if any(d[2] is f and cg.idominates(d[3], I) for d in ds):
                        continue
                    if tolerant(P, f, cg, I, look, S, p):
                        continue
                    key = "%s|%s|conditional" % (fn, show(p))
                    if key not in seen:
                        seen.add(key)
                        c.violation(key, where(I, f), "%s needs %s '%s', which is declared only if %s"
                                    % (fn, noun, show(p), " or ".join(cond(d[1]) for d in ds)))
    c.sample("%s: %d declarations, e.g. '%s'" % (which, len(D_), show(D_[len(D_) // 2][0]) if D_ else ""))


def cond(g):
    return " and ".join("%s%s" % ("" if p else "not ", "(".join(str(x) for x in a[:1]) + "(" + ",".join(str(x) for x in a[1:]) + ")") for a, p in sorted(g, key=str))


def activation(a):
    """the test that switches a whole module on"""
    return a[0][0] == "Getv" and len(a[0]) > 1 and a[0][1] == "physics"


def tolerant(P, f, cg, I, look, S, p):
    """a tolerant lookup of the same name was tested first"""
    for t, pol in guards(cg, I.blk):
        for d in slice_calls(f, t.ops[0]):
            for k in look.get(d.callee[1:], ()):
                if k < len(d.ops) and any(unify(p, q) for q in S.pats(f, d, d.ops[k])):
                    return True
    return False
