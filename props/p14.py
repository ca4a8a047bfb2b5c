"""P14: a tensor index string yields exactly its independent components."""
from sgv import ir, tensor
from sgv.val import *
from sgv.cfg import *
from sgv.loopnest import *
from sgv.report import Check
from .p06 import find

RULE = ("For every index string the decoder accepts, the nest of constant-bound loops it selects is expanded symbolically (iteration domain, "
        "component-name table, sign updates) and compared with the component list, order and reflection signs that the index string itself "
        "defines: letters a-h run over t,x,y,z, i-p over x,y,z, q-z over 1,2; parentheses and + sums are symmetric, brackets and - "
        "antisymmetric.  Signs of the 2d letters are not compared.")


def run(tier):
    c = Check("P14", tier, RULE)
    P = ir.load("main", "seq")
    n = find(P, "tensorindexlist")
    c.require(n, "the index string decoder")
    f = P.funcs[n]
    lits = decoder(c, P, f)
    for which in ("main", "alt"):
        used(c, ir.load(which, "seq"), n, lits)
    c.floor("declarations whose index string is checked", 100)
    c.floor("index strings compared", 12)
    c.assume.append("branches the expansion cannot follow are counted as not compared")
    return c


def decoder(c, P, f):
    cg = cfg_of(P, f)
    N = Nest(P, f, cg)
    tests = []
    for b in cg.live:
        t = f.blocks[b].instrs[-1]
        if t.op != "br" or not t.ops:
            continue
        d = f.defs.get(t.ops[0]) if is_local(t.ops[0]) else None
        pol = True
        if d is not None and d.op == "icmp" and d.ops[1] == 0 and d.x in ("eq", "ne"):
            pol = d.x == "ne"
            d = f.defs.get(d.ops[0]) if is_local(d.ops[0]) else None
        if d is None or d.op != "call" or d.callee != "@strcmp":
            continue
        lit = P.string(f, d.ops[1])
        if lit is None:
            lit = P.string(f, d.ops[0])
        if lit is None:
            continue
        eq = t.x[1] if pol else t.x[0]      # edge taken when strings are equal
        ne = t.x[0] if pol else t.x[1]
        tests.append((lit, eq, ne, b, t))
    if not tests:
        raise_(c, "comparisons of the index string with literals")
    testblocks = {x[3] for x in tests}
    for lit, eq, ne, tb, t in sorted(tests, key=lambda x: x[4].loc[1] if x[4].loc else 0):
        want = tensor.components(lit)
        at = where(t, f)
        key = "decode %s" % lit
        stop = (testblocks | {b for b in cg.live if not cg.succ[b]})
        comps = []; bad = []

        def mk(env):
            pass
        ev = {"n": None}
        syms = {}
        names = {}

        def visit(I, env):
            if I.op == "store":
                # sign update: *(sym + 3n + e) *= -1
                d = f.defs.get(I.ops[1]) if is_local(I.ops[1]) else None
                v = f.defs.get(I.ops[0]) if is_local(I.ops[0]) else None
                if d is not None and d.op == "gep" and I.x == "i32":
                    k = N.ev(d.ops[1], env)
                    neg = v is not None and ((v.op == "mul" and -1 in v.ops) or (v.op == "sub" and v.ops[0] == 0))
                    if not neg:
                        raise Unknown("sign store")
                    syms[k] = -syms.get(k, 1)
            elif I.op == "call" and I.callee in ("@sprintf", "@snprintf"):
                fm = 1 if I.callee == "@sprintf" else 2
                fmt = P.string(f, I.ops[fm])
                if fmt is None:
                    raise Unknown("format")
                args = []
                for o in I.ops[fm + 1:]:
                    s = P.string(f, o)
                    if s is None:
                        s = table_text(P, f, N, o, env)
                    args.append(s)
                if fmt.replace("%s", "").find("%") >= 0 or fmt.count("%s") != len(args):
                    raise Unknown("format")
                txt = fmt
                for a in args:
                    txt = txt.replace("%s", a, 1)
                # which slot is written
                dst = f.defs.get(I.ops[0]) if is_local(I.ops[0]) else None
                k = None
                if dst is not None and dst.op == "load":
                    g = f.defs.get(dst.ops[0])
                    if g is not None and g.op == "gep":
                        k = N.ev(g.ops[1], env)
                if k is None:
                    k = len(names)
                names[k] = txt
            elif I.op == "call" and I.callee in ("@strcpy", "@strcat", "@memcpy"):
                raise Unknown("copy")
        env = {}
        # the running component count starts at 0 on the only path that
        # reaches this literal's body
        for b in cg.live:
            for I in f.blocks[b].instrs:
                if I.op == "phi" and I.ty == "i32":
                    pass
        try:
            start_env(P, f, cg, N, eq, tb, env, tests)
            N.walk(eq, stop, env, visit)
        except Unknown:
            c.count("index strings not compared")
            continue
        if not names:
            c.count("index strings not compared")
            continue
        got = [(names.get(k), tuple(syms.get(3 * k + d, 1) for d in range(3))) for k in range(max(names) + 1)]
        c.count("index strings compared")
        if want is None:
            c.violation(key, at, "the decoder accepts '%s', which is not a well formed index string" % lit)
            continue
        two = any(tensor.kind(ch) == tensor.C2 for ch in lit.lower() if ch.isalpha())
        if [g[0] for g in got] != [w[0] for w in want]:
            miss = [w[0] for w in want if w[0] not in [g[0] for g in got]]
            more = [g[0] for g in got if g[0] not in [w[0] for w in want]]
            c.violation(key, at, "index string '%s' gives %d components instead of %d (missing %s, extra %s)" %
                        (lit, len(got), len(want), miss[:4], more[:4]) if miss or more or len(got) != len(want) else
                        "index string '%s' gives its components in another order than its indices run" % lit)
        elif not two:
            for g, w in zip(got, want):
                if g[1] != w[1]:
                    c.violation(key, at, "component '%s' of index string '%s' has reflection signs %s instead of %s" % (w[0], lit, g[1], w[1]))
                    break
            out = [k for k in syms if not 0 <= k < 3 * len(got) and syms[k] != 1]
        else:
            c.count("index strings with 2d letters (signs not compared)")
        if lit == "(ij)":
            c.sample("(ij): %s" % got)
    return {x[0] for x in tests}


def used(c, P, dec, lits):
    """index strings the modules declare variables with must be supported"""
    from sgv.strval import strings, A, D
    S = strings(P)
    fwd = {dec: 0}
    ch = True
    while ch:
        ch = False
        for f in P.funcs.values():
            if f.name in fwd:
                continue
            for I in f.instrs():
                if I.op == "call" and is_glob(I.callee) and I.callee[1:] in fwd:
                    v = strip(f, I.ops[fwd[I.callee[1:]]])
                    if v in f.params:
                        fwd[f.name] = f.params.index(v); ch = True
                        break
    for f in P.funcs.values():
        if f.name in fwd:
            continue
        cg = cfg_of(P, f)
        for I in f.instrs():
            if I.op == "call" and is_glob(I.callee) and I.callee[1:] in fwd and I.blk in cg.live:
                for t in S.pats(f, I, I.ops[fwd[I.callee[1:]]]):
                    if A in t or D in t:
                        continue
                    c.count("declarations whose index string is checked")
                    if t.lower() not in lits:
                        c.violation("%s|uses %s" % (f.name, t), where(I, f), "%s declares a variable with index string '%s', which the decoder does not support" % (f.name, t))


def start_env(P, f, cg, N, eq, tb, env, tests):
    """values at the start of a literal's body: counters are still at their
    initial value because no other literal matched"""
    # walk backwards through the 'not equal' edges: evaluate phis along the
    # unique path on which every earlier comparison failed
    ne_of = {x[3]: x[2] for x in tests}
    path = [cg.entry]
    b = cg.entry; prev = None; n = 0
    e = {}
    while b != tb:
        n += 1
        if n > 20000:
            raise Unknown("path")
        step(f, N, b, prev, e)
        ss = cg.succ[b]
        prev = b
        if b in ne_of:
            b = ne_of[b]
        elif len(ss) == 1:
            b = ss[0]
        elif not ss:
            raise Unknown("end")
        else:
            # a loop before the comparisons: leave it
            h = [x for x in ss if not (cg.loop_of(b) and x in cg.loops[cg.loop_of(b)])]
            t = f.blocks[b].instrs[-1]
            if len(h) == 1:
                b = h[0]
            else:
                raise Unknown("branch")
    step(f, N, b, prev, e)
    env.update(e)
    # phis of the body block
    for I in f.blocks[eq].instrs:
        if I.op != "phi":
            break
        for v, p in zip(I.ops, I.x):
            if p == tb:
                try:
                    env[I.name] = N.ev(v, e)
                except Unknown:
                    env.pop(I.name, None)


def step(f, N, b, prev, e):
    ph = {}
    for I in f.blocks[b].instrs:
        if I.op != "phi":
            break
        for v, p in zip(I.ops, I.x):
            if p == prev:
                try:
                    ph[I.name] = N.ev(v, e)
                except Unknown:
                    ph[I.name] = None
    for k, v in ph.items():
        if v is None:
            e.pop(k, None)
        else:
            e[k] = v


def table_text(P, f, N, o, env):
    d = f.defs.get(o) if is_local(o) else None
    if d is None or d.op != "load":
        raise Unknown("text")
    g = f.defs.get(d.ops[0]) if is_local(d.ops[0]) else None
    base = d.ops[0]; k = 0
    if g is not None and g.op == "gep":
        base = addr_root(f, g.name); k = N.ev(g.ops[-1], env)
    elif is_local(d.ops[0]):
        base = addr_root(f, d.ops[0])
    t = const_table(P, f, base)
    if t is None:
        raise Unknown("table")
    if not 0 <= k < len(t) or t[k] is None:
        return "\1outside the name table"
    return t[k]


def raise_(c, what):
    c.require(False, what)
