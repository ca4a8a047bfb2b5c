"""P24: the physics kernels compute the tensor equations they come with."""
import os, re, glob
from concurrent.futures import ProcessPoolExecutor
from sgv import ir, irbuild, mma, algv, transval
from sgv.val import *
from sgv.cfg import *
from sgv.report import Check, AnalysisError

RULE = ("Translation validation: every tensor equation file of the tree is expanded to component equations and lowered to IR next to the C kernel "
        "of the same name (helpers inlined).  Both are value-numbered in a prime field (sums, products, quotients and powers by field arithmetic, "
        "elementary functions, inputs and calls by canonical names) along the same sequence of branch decisions; every array element the kernel "
        "stores, the points it is stored for, and every call in between must have the same number as in the equations.")


def systems():
    built = {}
    for which in ("main", "alt"):
        for m, s, ll in irbuild.build(which, "seq"):
            built.setdefault(s, which)
    out = []
    for p in sorted(glob.glob(os.path.join(irbuild.REPO, "src", "**", "*.m"), recursive=True)):
        t = open(p, errors="replace").read()
        m = re.search(r'CFunctionFile\s*=\s*"([^"]+)"', t)
        if not m or not re.search(r"(?m)^\s*tocompute\s*=", t):
            continue
        c = os.path.join(os.path.dirname(p), m.group(1))
        if c in built:
            out.append((p, c, built[c]))
    return out


def variants(S, which, fn, d):
    """the equations, and the other readings of equations that assign one
    component of a tensor more than one value"""
    yield S.ctext(), 0
    amb = ambiguous(S, which, fn, d)
    n = len(amb)
    for m in range(1, 1 << min(n, 5)):
        yield S.ctext({amb[i] for i in range(n) if i < 5 and m >> i & 1}), n


def ambiguous(S, which, fn, d):
    cand = S.multi()
    if not cand:
        return []
    fields = {}
    W = [w for w in walks(ir.load_text(S.ctext(), [d], which), fn, 4, fields)]
    out = []
    for k in cand:
        V = walks(ir.load_text(S.ctext({k}), [d], which), fn, 4, fields)
        if any(w.mem.get(x) != v.mem.get(x) for w, v in zip(W, V) for x in w.mem if transval.grid_key(x)):
            out.append(k)
    return out


def walks(P, fn, n, fields):
    r = []
    f = P.body(fn)
    for seed in range(40 * n):
        try:
            r.append(transval.walk(P, f, fields.setdefault(seed, algv.Field(seed))))
        except algv.Retry:
            continue
        if len(r) == n:
            break
    return r


def one(job):
    path, cfile, which, want = job
    try:
        S = mma.System(path)
        txt = S.ctext()
    except (mma.MmaError, RecursionError, KeyError, AttributeError) as e:
        return path, "unreadable: %s" % e, None, None
    m = re.search(r"(?m)^\s*(?:static\s+)?(?:void|int|double)\s+(\w+)\s*\(", txt)
    if not m:
        return path, "unreadable: no function", None, None
    fn = m.group(1)
    d = os.path.dirname(path)
    PC = ir.load_linked(which, lambda p: p == cfile, [fn], lambda n: False)
    fc = PC.body(fn)
    if fc is None:
        return path, "no function %s in %s" % (fn, cfile), None, None
    best = None
    for txt, namb in variants(S, which, fn, d):
        r = compare(PC, fc, ir.load_text(txt, [d], which), fn, want)
        if best is None or len(r[0]) < len(best[0]):
            best = r
        if not best[0]:
            break
    diffs, done, gave, taken, stores, calls = best
    return path, None, fn, dict(diffs=diffs, paths=done, gave=gave, conds=taken, stores=stores, calls=calls, eqs=S.neqs, cfile=cfile)


def compare(PC, fc, PR, fn, want):
    fr = PR.body(fn)
    diffs = {}
    done = 0; gave = None; edges = set(); stores = 0; calls = 0; new = 0
    cg = cfg_of(PC, fc)
    all_e = {(b, x) for b in fc.blocks for x in cg.succ[b] if len(set(cg.succ[b])) > 1 and not any(b in l and x not in l for l in cg.loops.values())}
    for seed in range(200 * want):
        try:
            F = algv.Field(seed)
            a = transval.walk(PR, fr, F)
        except algv.Retry:
            continue
        try:
            b = transval.walk(PC, fc, F)
        except algv.Retry:
            continue
        except algv.Giveup as e:
            gave = str(e)
            break
        done += 1
        n = 0
        for kind, k, I, J in transval.differences(a, b):
            n += 1
            key = (kind, I.loc if I is not None else None, J.loc[1] if I is None and J is not None and J.loc else None)
            if len(diffs) < 400:
                diffs.setdefault(key, (where(I, fc) if I is not None else where_fn(fc), srcname(I) if I is not None else ""))
        stores = max(stores, sum(1 for k in a.mem if transval.grid_key(k)))
        calls = max(calls, len(a.calls))
        if b.edges - edges:
            edges |= b.edges; new = done
        if done >= want and (all_e <= edges or done - new >= want or done >= 10 * want):
            break
    return diffs, done, gave, (len(all_e & edges), len(all_e)), stores, calls


def srcname(I):
    """left-hand side text of the assignment a store comes from"""
    if not I.loc:
        return ""
    try:
        L = open(I.loc[0], errors="replace").read().split("\n")
    except OSError:
        return ""
    for i in range(I.loc[1] - 1, max(0, I.loc[1] - 4), -1):
        m = re.match(r"\s*([A-Za-z_]\w*)\s*\[", L[i]) if i < len(L) else None
        if m:
            return m.group(1)
    return ""


def where_fn(f):
    return "%s" % f.name


def run(tier):
    c = Check("P24", tier, RULE)
    jobs = [(p, cf, w, 60 if tier == "thorough" else 20) for p, cf, w in systems()]
    c.require(len(jobs) >= 3, "tensor equation files next to kernels")
    for w in sorted({j[2] for j in jobs}):
        ir.load(w, "seq")
    with ProcessPoolExecutor(8) as ex:
        res = list(ex.map(one, jobs))
    for path, err, fn, r in sorted(res):
        rel = os.path.relpath(path, irbuild.REPO)
        if err:
            c.notes.append("%s: %s" % (rel, err))
            continue
        if r["gave"] or not r["paths"]:
            c.notes.append("%s: not decided (%s)" % (rel, r["gave"] or "no path without a pole"))
            continue
        c.count("kernels compared with their equations")
        c.count("component equations", r["eqs"])
        c.count("stored components compared", r["stores"] * r["paths"])
        c.count("paths compared", r["paths"])
        c.count("calls compared", r["calls"] * r["paths"])
        c.count("branch outcomes followed", r["conds"][0])
        c.count("branch outcomes not on any path", r["conds"][1] - r["conds"][0])
        c.sample("%s: %d component equations, %d stores on a path, %d paths" % (rel, r["eqs"], r["stores"], r["paths"]))
        for (kind, loc, j), (at, nm) in sorted(r["diffs"].items(), key=str):
            c.violation("%s %s %s" % (fn, kind, nm), at, "%s: %s differs from %s: %s" % (fn, nm or "result", rel, kind))
    c.floor("kernels compared with their equations", 3)
    c.floor("stored components compared", 100)
    c.assume += ["two expressions with the same value number in a random prime field point are the same rational function (error probability below 1e-20 per comparison)",
                 "differently named list and grid arguments do not overlap"]
    return c
