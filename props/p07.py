"""P07: every grid variable that must exist is declared, and released lists
keep the order of their components."""
from sgv import ir, tensor
from sgv.declared import *
from sgv.report import Check
from .p06 import run_rule, find

RULE = ("The possible texts of every grid-variable name are derived from the literals and formatted prints that build it. Each lookup that "
        "aborts on a missing name must match a declared variable: base name followed by one of the component suffixes its tensor index "
        "string implies, or a declared variable followed by the postfix of a duplicated list. A declaration made only under a parameter "
        "test covers only lookups that run under the same test.")


def run(tier):
    c = Check("P07", tier, RULE)
    for which in ("main", "alt"):
        one(c, ir.load(which, "seq"), which)
    c.floor("fatal variable lookups", 300)
    c.floor("declarations", 120)
    c.assume += ["a duplicated list may hold any declared variable",
                 "variable names taken from a parameter's text are outside the rule (counted as undetermined)"]
    return c


def one(c, P, which):
    ind, lax = find(P, "Ind"), find(P, "IndLax")
    add = find(P, "AddVar")
    c.require(ind and lax and add, "the variable table's lookup and declaration functions")
    C = Context(P); S = C.S
    live = reach_funcs(P)
    look = lookups(P, (ind, 0, None))
    for n, r in lookups(P, (lax, 0, None)).items():
        for k in r:
            look.setdefault(n, {}).setdefault(k, "lax")
    decl = {add: (0, 1)}
    ch = True
    while ch:
        ch = False
        for f in P.funcs.values():
            if f.name in decl:
                continue
            for I in f.instrs():
                if I.op == "call" and is_glob(I.callee) and I.callee[1:] in decl:
                    a, b = decl[I.callee[1:]]
                    v, w = strip(f, I.ops[a]), strip(f, I.ops[b])
                    if v in f.params and w in f.params:
                        decl[f.name] = (f.params.index(v), f.params.index(w)); ch = True
                        break
    # list duplication: a function that declares text(parameter) as suffix
    dup = {}
    for f in P.funcs.values():
        if f.name in decl:
            continue
        for I in f.instrs():
            if I.op == "call" and is_glob(I.callee) and I.callee[1:] in decl:
                for p in f.params:
                    if suffix_param(P, f, I.ops[decl[I.callee[1:]][0]], p):
                        dup[f.name] = f.params.index(p)
    ch = True
    while ch:
        ch = False
        for f in P.funcs.values():
            if f.name in dup or f.name in decl:
                continue
            for I in f.instrs():
                if I.op == "call" and is_glob(I.callee) and I.callee[1:] in dup:
                    v = strip(f, I.ops[dup[I.callee[1:]]])
                    if v in f.params:
                        dup[f.name] = f.params.index(v); ch = True
                        break
    c.require(dup, "the function that duplicates a variable list under a postfix")
    post = set()
    for f in P.funcs.values():
        if f.name in dup:
            continue
        for I in f.instrs():
            if I.op == "call" and is_glob(I.callee) and I.callee[1:] in dup:
                post |= {p for p in S.pats(f, I, I.ops[dup[I.callee[1:]]])}
    c.count("duplicate postfixes", len(post))
    cache = {}

    def names(f, I):
        a, b = decl[I.callee[1:]]
        out = []
        for n in S.pats(f, I, I.ops[a]):
            for ix in S.pats(f, I, I.ops[b]):
                if A in ix or D in ix:
                    out.append(n + A if not n.endswith(A) else n); continue
                cs = tensor.components(ix)
                if cs is None:
                    out.append(n + A); continue
                out += [n + x for x, _ in cs]
        return [x for x in out if x != A]
    mc = {}

    def more(D_):
        if "m" not in mc:
            mc["m"] = [(d[0] + p,) + d[1:] for d in D_ for p in post if p and p != A]
        return mc["m"]
    skip = set(dup)
    for n in skip:
        live.discard(n)
    run_rule(c, P, which, C, live, look, {k: v[0] for k, v in decl.items()}, S, "variable", names, more)


def suffix_param(P, f, v, p):
    """the text in v was printed with %s of parameter p"""
    r = addr_root(f, v)
    for I in f.instrs():
        if I.op == "call" and I.callee in ("@snprintf", "@sprintf", "@strcat") and addr_root(f, I.ops[0]) == r:
            if any(strip(f, o) == p for o in I.ops[1:] if is_local(o)):
                return True
    return False
