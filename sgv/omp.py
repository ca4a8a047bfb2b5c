"""Data-race analysis of OpenMP regions.

Every value inside a parallel region gets an iteration class:
  N  same for all iterations / threads (shared)
  L  injective function of the iteration number
  O  pointer owned by the iteration (loaded through an L/O address)
  D  depends on the iteration through data or a non-injective function
  P  thread-private memory (locals of the region, fresh allocations)
A store whose address is class N or D, outside a critical section, can be made
by two threads to one location: a race.
"""
from .val import *
from .cfg import *
from .fptr import fptr

ALLOC = {"malloc", "calloc", "realloc", "strdup", "fftw_malloc", "gsl_vector_alloc", "fopen"}
SAFE = {"free", "printf", "fprintf", "puts", "putchar", "fflush", "fputs", "fputc", "strlen", "strcmp", "strncmp",
        "strstr", "strchr", "strrchr", "atoi", "atof", "strtod", "strtol", "fabs", "sqrt", "pow", "exp",
        "log", "sin", "cos", "tan", "atan", "atan2", "asin", "acos", "floor", "ceil", "time", "getpid",
        "fclose", "fwrite", "strcasecmp", "abs", "toupper", "tolower", "isspace", "gettimeofday",
        "sinh", "cosh", "tanh", "hypot", "fmod", "log10", "exit", "abort", "cbrt", "lgamma", "tgamma",
        "erf", "erfc", "fmax", "fmin", "round", "lround", "rint", "trunc", "isnan", "isinf", "finite", "omp_get_thread_num",
        "omp_get_num_threads", "system", "perror", "getenv", "atanh", "asinh", "acosh", "log1p", "expm1", "log2", "exp2",
        "creal", "cimag", "cabs", "csqrt", "cexp", "clog", "cpow", "carg", "conj", "__isoc99_fscanf", "fgets", "remove", "rename"}
W0 = {"memcpy", "memmove", "memset", "strcpy", "strncpy", "strcat", "strncat", "sprintf", "snprintf",
      "vsnprintf", "vsprintf", "qsort", "fread"}
UNSAFE = {"strtok", "rand", "srand", "random", "drand48", "localtime", "gmtime", "ctime", "asctime", "lrand48",
          "strerror", "setlocale", "tmpnam", "fftw_plan_dft_1d", "fftw_plan_r2r_1d", "fftw_plan_dft_r2c_1d",
          "fftw_plan_dft_c2r_1d", "fftw_destroy_plan", "fftw_cleanup", "fftw_plan_many_dft", "fftw_plan_r2r"}
WOUT = {"sscanf": 2, "__isoc99_sscanf": 2, "frexp": 1, "modf": 1, "sincos": 1}


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a == b:
        return a
    s = {a, b}
    if s == {"P", "N"}:
        return "N"
    if s == {"O", "P"}:
        return "O"
    if s == {"O", "N"}:
        return "D"
    if isM(a) and isM(b):
        return munion(a, b)
    if (isM(a) or isM(b)) and "D" not in s:
        return "M*"
    return "D"


def isM(k):
    """computed from digits (quotients r remainders) of the iteration number: M|digit|digit..., M* all of it"""
    return k is not None and k[0] == "M"


def munion(a, b):
    if "M*" in (a, b):
        return "M*"
    return "|".join(["M"] + sorted(set(a.split("|")[1:]) | set(b.split("|")[1:])))


def mfull(k):
    """the digits determine the iteration number"""
    if k == "M*":
        return True
    D = set(k.split("|")[1:])

    def full(p):
        return p in D or len(p) < 6 and full(p + "r") and full(p + "q")
    return full("")


def mdigit(k, x):
    if k == "L":
        return "M|" + x
    if k == "M*":
        return "M*"
    d = k.split("|")[1:]
    return "M|" + d[0] + x if len(d) == 1 else "M*"


def threadlocal(I):
    return I.op == "call" and isinstance(I.callee, str) and I.callee.startswith("@llvm.threadlocal.address")


class Races:
    def __init__(s, P):
        s.P = P
        s.memo = {}
        s.viol = {}
        s.obl = 0
        s.regions = []
        s.unres = 0
        s.assumed = 0
        s.parent = {}
        s.caller = None
        s.fp = fptr(P)
        s.gread = {}      # global -> unsynchronised reads
        s.gcrit = {}      # global -> writes inside a critical section
        s.visited = set()

    def candidates(s, f, I):
        return [s.P.funcs[n] for n in sorted(s.fp.targets(f, I)) if n in s.P.funcs]

    # ------------------------------------------------------------------
    def run(s):
        for f in list(s.P.funcs.values()):
            for I in f.instrs():
                if I.op == "call" and I.callee == "@__kmpc_fork_call":
                    r = s.P.body(I.ops[2], f)
                    if r is None:
                        continue
                    s.region(f, I, r)
        # globals updated under a lock must not be read without it
        for g, rds in s.gread.items():
            if g in s.gcrit:
                for (I, f, reg) in rds:
                    s.report(I, f, reg, "reads '%s' without the lock its writers hold" % g.lstrip("@"))
        return s

    def region(s, host, call, r):
        s.cur = (host, call)
        s.regions.append((host.name, where(call, host)))
        # params: 2 tids + captured; a captured pointer is the address of the
        # shared variable
        args = ["P", "P"] + ["N"] * (len(r.params) - 2)
        s.analyze(r, tuple(args), region=True)
        s.reads_vs_writes(r)

    def report(s, I, f, reg, what):
        host, call = reg
        k = (host.name, f.name, what)
        if k not in s.viol:
            s.viol[k] = (where(I, f), where(call, host))

    # ------------------------------------------------------------------
    def analyze(s, f, args, region=False, depth=0, crit=False, consts=()):
        key = (f.name, f.src, args, region, crit, consts, s.cur[0].name if region else None)
        if key in s.memo:
            return s.memo[key]
        s.memo[key] = "N"       # recursion
        s.parent.setdefault(f.name, s.caller)
        c = {}
        for p, a in zip(f.params, args):
            c[p] = a
        mem = {}                # alloca -> class of contents
        cg = cfg_of(s.P, f)
        back = returning(cg)
        if any(k is not None for k in consts):
            lv = specialise(f, cg, dict(zip(f.params, consts)))
            back = [b for b in back if b in lv]
        backs = set(back)
        incrit = s.crit_blocks(f, cg)
        lbs = set()
        for I in f.instrs():
            if I.op == "call" and isinstance(I.callee, str):
                if I.callee.startswith("@__kmpc_for_static_init"):
                    lbs.add(addr_root(f, I.ops[4]))
                elif I.callee.startswith("@__kmpc_dispatch_next"):
                    lbs.add(addr_root(f, I.ops[3]))
        ret = None

        def val(v):
            if isinstance(v, str):
                if v[:1] == "%":
                    return c.get(v)
                if v == "null" or v == "undef":
                    return "P"
            return "N"
        for rnd in range(6):
            old = (dict(c), dict(mem))
            for bn in back:
                for I in f.blocks[bn].instrs:
                    if I.op == "phi":
                        k = None
                        for v, pb in zip(I.ops, I.x):
                            if pb in backs:
                                k = join(k, val(v))
                    else:
                        k = s.transfer(f, I, c, mem, val, lbs, depth, incrit, crit, region)
                    if I.name:
                        c[I.name] = k
                    if I.op == "ret" and I.ops:
                        ret = join(ret, val(I.ops[0]))
            if (c, mem) == old:
                break
        # stores
        for bn in back:
            for I in f.blocks[bn].instrs:
                locked = crit or incrit.get((bn, I.idx), False)
                if I.op == "store":
                    s.obl += 1
                    s.check_addr(f, I, I.ops[1], c, val, locked, region)
                elif I.op == "load":
                    rt = addr_root(f, I.ops[0])
                    if is_glob(rt) and val(I.ops[0]) == "N":
                        g = s.P.glob(f, rt[1:])
                        if g is not None and not g.const and not locked:
                            s.gread.setdefault(rt, []).append((I, f, s.cur))
                elif I.op == "call" and isinstance(I.callee, str):
                    n = I.callee[1:]
                    if n in W0 or n.startswith(("llvm.memcpy", "llvm.memset", "llvm.memmove")):
                        s.obl += 1
                        s.check_addr(f, I, I.ops[0], c, val, locked, region)
                    elif n in WOUT:
                        for a in I.ops[WOUT[n]:]:
                            s.check_addr(f, I, a, c, val, locked, region)
                    elif n in UNSAFE and not locked:
                        s.report(I, f, s.cur, "calls %s(), which is not thread safe" % n)
        s.memo[key] = ret or "N"
        if region:
            s.rclass = (c, incrit)
        return s.memo[key]

    def crit_blocks(s, f, cg):
        """instructions executed with an OpenMP lock held / by one thread only"""
        has = [I for I in f.instrs() if I.op == "call" and isinstance(I.callee, str) and
               I.callee in ("@__kmpc_critical", "@__kmpc_critical_with_hint", "@__kmpc_single", "@__kmpc_master",
                            "@__kmpc_masked", "@omp_set_lock")]
        if not has:
            # tail of a reduction: combined under the runtime's own lock
            return s.reduction(f, cg, {})
        res = {}
        state = {cg.entry: 0}
        work = [cg.entry]
        while work:
            b = work.pop()
            d = state[b]
            for I in f.blocks[b].instrs:
                if I.op == "call" and isinstance(I.callee, str):
                    if I.callee in ("@__kmpc_critical", "@__kmpc_critical_with_hint", "@omp_set_lock"):
                        d += 1
                    elif I.callee in ("@__kmpc_end_critical", "@omp_unset_lock"):
                        d = max(0, d - 1)
                res[(b, I.idx)] = d > 0 and res.get((b, I.idx), True)
            t = f.blocks[b].instrs[-1]
            for x in cg.succ[b]:
                dd = d
                if t.op == "br" and t.ops and x == t.x[0]:
                    cnd = f.defs.get(t.ops[0])
                    if cnd is not None and cnd.op == "icmp":
                        sd = f.defs.get(cnd.ops[0]) if is_local(cnd.ops[0]) else None
                        if sd is not None and sd.op == "call" and sd.callee in ("@__kmpc_single", "@__kmpc_master", "@__kmpc_masked"):
                            dd += 1
                for I in f.blocks[x].instrs[:0]:
                    pass
                if x not in state:
                    state[x] = dd; work.append(x)
                elif state[x] > dd:
                    state[x] = dd; work.append(x)
        # leaving single/master
        for I in f.instrs():
            pass
        return s.reduction(f, cg, res)

    def reduction(s, f, cg, res):
        for I in f.instrs():
            if I.op == "switch" and is_local(I.ops[0]):
                d = f.defs.get(I.ops[0])
                if d is not None and d.op == "call" and isinstance(d.callee, str) and d.callee.startswith("@__kmpc_reduce"):
                    dflt = I.x[0]
                    for b in cg.live:
                        if b != dflt and cg.dom(I.blk, b) and b != I.blk and not cg.dom(dflt, b):
                            for J in f.blocks[b].instrs:
                                res[(b, J.idx)] = True
        return res

    def transfer(s, f, I, c, mem, val, lbs, depth, incrit, crit, region):
        op = I.op
        if op == "alloca":
            return "P"
        if op == "load":
            a = I.ops[0]
            rt = addr_root(f, a)
            if rt in lbs:
                return "L"
            k = val(a)
            if k is None:
                return None
            if k == "P":
                d = f.defs.get(rt) if is_local(rt) else None
                if d is not None and threadlocal(d):
                    return "N"
                if d is not None and d.op == "alloca":
                    m = mem.get((rt, I.ty == "ptr"))
                    if m is None:
                        return None if I.ty == "ptr" else "N"
                    return m
                if I.ty == "ptr":
                    return "P"
                g = f.defs.get(a) if is_local(a) else None
                if g is not None and g.op == "gep" and gep_path(s.P, g)[0][-1:] and gep_path(s.P, g)[0][-1][0] == "f":
                    return "N"      # a field of a private object, e.g. a loop bound
                return "D"
            if isM(k):
                return "M*"
            if k in ("L", "O"):
                return "O" if I.ty == "ptr" else "D"
            if k == "D":
                return "D"
            # captured private copy of a pointer
            return "N"
        if op == "store":
            rt = addr_root(f, I.ops[1])
            d = f.defs.get(rt) if is_local(rt) else None
            if d is not None and d.op == "alloca" and rt not in lbs:
                k = (rt, stored_ty(I) == "ptr")
                mem[k] = join(mem.get(k), val(I.ops[0]))
            return None
        if op == "gep":
            b = val(I.ops[0])
            if b in ("P", "O"):
                return b
            r = b
            for o in I.ops[1:]:
                k = val(o)
                if isM(k):
                    if r in ("N", "D"):
                        r = k
                    elif isM(r):
                        r = munion(r, k)
                elif k in ("L", "D"):
                    if r in ("N",):
                        r = k
                    elif r == "L" and k == "D":
                        r = "L"
                    elif r == "D" and k == "L":
                        r = "L"
                elif k is None and not isinstance(o, (int, tuple)):
                    return r if r != "N" else None
            return r
        if op in ("add", "sub", "xor", "or"):
            a, b = val(I.ops[0]), val(I.ops[1])
            if a is None or b is None:
                return a or b
            if "L" in (a, b):
                return "L"
            if (isM(a) or isM(b)) and "D" not in (a, b):
                return munion(a, b) if isM(a) and isM(b) else a if isM(a) else b
            return "D" if "D" in (a, b) else "N"
        if op in ("mul", "shl"):
            a, b = val(I.ops[0]), val(I.ops[1])
            if a is None or b is None:
                return a or b
            if {a, b} <= {"L", "N"} and "L" in (a, b) and 0 not in I.ops:
                return "L"
            if (isM(a) or isM(b)) and "D" not in (a, b):
                if isM(a) and isM(b):
                    return "M*"
                m, o = (a, b) if isM(a) else (b, a)
                return m if o == "N" else "M*"
            return "N" if {a, b} == {"N"} else "D"
        if op in ("sdiv", "srem", "udiv", "urem"):
            a, b = val(I.ops[0]), val(I.ops[1])
            if (a == "L" or isM(a)) and b == "N":
                return mdigit(a, "q" if "div" in op else "r")
            return "N" if a == b == "N" else "D"
        if op in CASTS:
            return val(I.ops[0])
        if op == "phi":
            r = None
            for v in I.ops:
                r = join(r, val(v))
            return r
        if op == "select":
            return join(val(I.ops[1]), val(I.ops[2]))
        if op in ("call", "invoke"):
            return s.call(f, I, val, mem, depth, crit or incrit.get((I.blk, I.idx), False))
        if I.name:
            ks = [val(o) for o in I.ops]
            return "N" if all(k in ("N", "P", None) for k in ks) else "D"
        return None

    def call(s, f, I, val, mem, depth, locked):
        cal = I.callee
        if threadlocal(I):
            return "P"
        if isinstance(cal, str) and cal.startswith("@"):
            n = cal[1:]
            if n.startswith("llvm.") or n.startswith("__kmpc") or n.startswith("omp_"):
                if n in ("omp_get_thread_num", "__kmpc_global_thread_num"):
                    return "L"
                ks = [val(o) for o in I.ops]
                return "N" if all(k in ("N", "P", None) for k in ks) else "D"
            g0 = s.P.body(n, f)
            if n in ALLOC or (g0 is None and I.ty == "ptr" and "alloc" in n):
                return "P"
            g = s.P.body(n, f)
            if g is None:
                if n not in SAFE and n not in W0 and n not in WOUT and n not in UNSAFE:
                    s.unres += 1
                ks = [val(o) for o in I.ops]
                if n in ("strstr", "strchr", "strrchr", "strcpy", "strcat"):
                    return ks[0]
                return "N" if all(k in ("N", "P", None) for k in ks) else "D"
            cands = [g]
        else:
            cands = s.candidates(f, I)
            if not cands:
                s.unres += 1
                return "D"
        # addresses of locals escape: contents may become iteration data
        for o in I.ops:
            rt = addr_root(f, o)
            d = f.defs.get(rt) if is_local(rt) else None
            if d is not None and d.op == "alloca":
                if d.x != "ptr" and "ptr]" not in d.x:
                    mem[(rt, False)] = join(mem.get((rt, False)), "D")
                if (rt, True) not in mem:
                    mem[(rt, True)] = "P"
        args = tuple((val(o) or "N") for o in I.ops)
        if depth > 30:
            return "D"
        r = None
        nr = noreturn_set(s.P)
        for g in cands:
            if g.name in nr:
                r = join(r, "N"); continue
            a = args[:len(g.params)]
            s.caller = (f.name, where(I, f))
            kc = tuple(o if isinstance(o, int) else None for o in I.ops[:len(g.params)])
            # allocators built from malloc return private memory
            if s.fresh(g):
                r = join(r, "P")
                s.analyze(g, a, depth=depth + 1, crit=locked, consts=kc)
            else:
                k = s.analyze(g, a, depth=depth + 1, crit=locked, consts=kc)
                if I.ty != "ptr" and k == "L":
                    k = "D" if g.name not in () else "L"
                r = join(r, k)
        return r

    def fresh(s, g):
        """does g return memory it (transitively) allocated?"""
        if not hasattr(s, "_fresh"):
            s._fresh = {}
        if g.name in s._fresh:
            return s._fresh[g.name]
        s._fresh[g.name] = False
        if g.ret != "ptr":
            return False
        res = None
        for I in g.instrs():
            if I.op == "ret" and I.ops:
                ok = s.fresh_val(g, I.ops[0], set())
                res = ok if res is None else (res and ok)
        s._fresh[g.name] = bool(res)
        return bool(res)

    def fresh_val(s, g, v, seen):
        v = strip(g, v)
        if v == "null":
            return True
        if v in seen:
            return True
        seen.add(v)
        d = g.defs.get(v) if is_local(v) else None
        if d is None:
            return False
        if d.op == "phi":
            return all(s.fresh_val(g, o, seen) for o in d.ops)
        if d.op == "call" and isinstance(d.callee, str):
            if d.callee[1:] in ALLOC:
                return True
            h = s.P.body(d.callee, g)
            return h is not None and s.fresh(h)
        return False

    def check_addr(s, f, I, addr, c, val, locked, region):
        k = val(addr)
        rt = addr_root(f, addr)
        if isM(k) and mfull(k):
            s.assumed += 1
            return
        if k in ("P", "L", "O", None):
            return
        if locked:
            if is_glob(rt):
                s.gcrit.setdefault(rt, []).append((I, f))
            return
        nm = pretty(expr(s.P, f, addr))
        if is_glob(rt):
            what = "writes global '%s'" % rt[1:]
        elif k == "D" or isM(k):
            what = "writes %s at a location that different iterations can share" % vname(f, rt)
        else:
            what = "writes shared %s" % vname(f, rt)
        s.report(I, f, s.cur, what)

    # ---- reads of locations written by another iteration --------------
    def reads_vs_writes(s, r):
        P = s.P
        c, incrit = s.rclass
        cg = cfg_of(P, r)
        ivs = {n for n, k in c.items() if k == "L" and r.defs.get(n) is not None and r.defs[n].op == "phi"}
        phis = {n for n, d in r.defs.items() if d.op == "phi"}

        def atom(v):
            return v if v in phis else None

        def decomp(addr):
            d = r.defs.get(addr) if is_local(addr) else None
            if d is None or d.op != "gep" or len(d.ops) != 2:
                return None
            return str(expr(P, r, d.ops[0])), lin(P, r, d.ops[1], atom), d.x
        W = {}
        for I in r.instrs():
            if I.op == "store" and I.blk in cg.live and c.get(I.ops[1]) == "L":
                x = decomp(I.ops[1])
                if x:
                    W.setdefault(x[0], []).append((x[1], I))
        for bs, l in W.items():
            for n, (f1, s1) in enumerate(l):
                for f2, s2 in l[:n]:
                    rest = f1 + f2.scale(-1)
                    if rest and steps(f2, rest, ivs):
                        s.report(s1, r, s.cur, "writes an element of %s that another iteration writes too" % base_name(bs, r))
        # a store strided like an inner loop: the next iteration hits the same element
        for bs, l in W.items():
            for form, st in l:
                inner = set()
                for h, body in cg.loops.items():
                    if st.blk in body:
                        inner |= {I.name for I in r.blocks[h].instrs if I.op == "phi"} - ivs
                coef = {}
                for k, v in form.items():
                    for t in k:
                        if t in ivs or t in inner:
                            q = list(k); q.remove(t)
                            coef.setdefault(t, {})[tuple(q)] = v
                its = [t for t in coef if t in ivs]; ins = [t for t in coef if t in inner]
                s.obl += 1
                for t in its:
                    for u in ins:
                        if r.defs[u].blk in [r.defs[t].blk]:
                            continue
                        a, b = coef[t], coef[u]
                        if a == b or a == {k: -v for k, v in b.items()}:
                            if counts_more(r, cg, u) and not str(bs).count(u):
                                s.report(st, r, s.cur, "writes an element of %s that another iteration writes too" % base_name(bs, r))
        for I in r.instrs():
            if I.op != "load" or I.blk not in cg.live:
                continue
            x = decomp(I.ops[0])
            if not x or x[0] not in W:
                continue
            for form, st in W[x[0]]:
                s.obl += 1
                a = {k: v for k, v in form.items() if any(t in ivs for t in k)}
                b = {k: v for k, v in x[1].items() if any(t in ivs for t in k)}
                if a != b:
                    s.report(I, r, s.cur, "reads an element of %s that another iteration writes" % base_name(x[0], r))
                    continue
                rest = x[1] + form.scale(-1)
                if rest and (all(k == () for k in rest) or steps(form, rest, ivs)):
                    s.report(I, r, s.cur, "reads an element of %s that another iteration writes" % base_name(x[0], r))


def steps(form, rest, ivs):
    """rest is an integer number of steps of the iteration"""
    for t in ivs:
        st = {}
        for k, v in form.items():
            if k.count(t) == 1:
                q = list(k); q.remove(t); st[tuple(q)] = v
        if st and rest and set(st) == set(rest.keys()):
            qs = {rest[k] / st[k] for k in st}
            if len(qs) == 1 and float(next(iter(qs))).is_integer():
                return True
    return False


def counts_more(r, cg, u):
    """the loop of phi u counts by one, more than once for some input"""
    d = r.defs[u]
    body = cg.loops.get(d.blk)
    if body is None:
        return False
    out = [v for v, p in zip(d.ops, d.x) if p not in body]
    bk = [v for v, p in zip(d.ops, d.x) if p in body]
    if len(out) != 1 or len(bk) != 1:
        return False
    e = r.defs.get(bk[0]) if is_local(bk[0]) else None
    if e is None or e.op != "add" or e.ops[0] != u or e.ops[1] not in (1, -1):
        return False
    t = r.blocks[d.blk].instrs[-1]
    q = r.defs.get(t.ops[0]) if t.op == "br" and t.ops and is_local(t.ops[0]) else None
    if q is None or q.op != "icmp":
        return False
    # a bound that is known to be one step away is one iteration only
    if isinstance(out[0], int) and isinstance(q.ops[1], int):
        return abs(out[0] - q.ops[1]) > 1
    return True


def specialise(f, cg, consts):
    """blocks reachable when some parameters have known values"""
    def ev(v, n=0):
        if isinstance(v, int):
            return v
        if not is_local(v) or n > 6:
            return None
        if consts.get(v) is not None:
            return consts[v]
        d = f.defs.get(v)
        if d is None:
            return None
        if d.op in ("sext", "zext", "trunc", "freeze"):
            return ev(d.ops[0], n + 1)
        if d.op == "icmp":
            a, b = ev(d.ops[0], n + 1), ev(d.ops[1], n + 1)
            if a is None or b is None:
                return None
            return int({"eq": a == b, "ne": a != b, "slt": a < b, "sgt": a > b, "sle": a <= b,
                        "sge": a >= b}.get(d.x, False)) if d.x in ("eq", "ne", "slt", "sgt", "sle", "sge") else None
        return None
    seen = {cg.entry}; st = [cg.entry]
    while st:
        b = st.pop()
        ss = cg.succ[b]
        t = f.blocks[b].instrs[-1]
        if t.op == "br" and t.ops and len(ss) == 2:
            k = ev(t.ops[0])
            if k is not None:
                ss = [t.x[0] if k else t.x[1]]
        for x in ss:
            if x not in seen:
                seen.add(x); st.append(x)
    return seen


def returning(cg):
    """blocks from which the function can still return (a block that can only
    end the program is no concern of the other threads)"""
    ok = set(cg.exits); st = list(cg.exits)
    while st:
        for p in cg.pred[st.pop()]:
            if p not in ok:
                ok.add(p); st.append(p)
    return [b for b in cg.rpo if b in ok]


def base_name(k, r):
    import re
    m = re.findall(r"%([A-Za-z_]\w*)", k)
    return m[0] if m else "an array"


def vname(f, rt):
    """source-level name of the object behind a value"""
    if not is_local(rt):
        return str(rt).lstrip("@")
    d = f.defs.get(rt)
    if d is None:
        return "variable '%s'" % f.vars.get(rt, rt[1:].split(".")[0])
    if d.op not in ("load", "gep", "alloca") and d.op not in CASTS and rt not in f.vars:
        return "memory from %s" % (str(d.callee).lstrip("@%") if d.op == "call" else "a computed pointer")
    n = 0
    while d is not None and n < 10:
        if rt in f.vars:
            return "variable '%s'" % f.vars[rt]
        if d.op == "load" or d.op == "gep" or d.op in CASTS:
            rt = d.ops[0]
            if d.op == "load":
                rt = addr_root(f, rt)
            if not is_local(rt):
                return "object '%s'" % str(rt).lstrip("@")
            d = f.defs.get(rt)
            if d is None:
                return "array '%s'" % f.vars.get(rt, rt[1:].split(".")[0])
        else:
            break
        n += 1
    return "memory '%s'" % f.vars.get(rt, rt[1:])


def stored_ty(I):
    return I.x


def flatops(I):
    from .ir import flat
    for o in flat(I.ops):
        if o[0] == "@":
            yield o


def flatinit(v):
    from .ir import flat
    if v is None:
        return
    for o in flat([v]):
        if o[0] == "@":
            yield o
