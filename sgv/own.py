"""Ownership typestate of locally obtained resources (heap blocks, files,
directory streams), with per-function parameter and result summaries.

States along one path:  L live, F released, E handed over.
"""
from .val import *
from .cfg import *
from .fptr import fptr
from .guards import guards, atom

ACQ = {"malloc": "memory", "calloc": "memory", "realloc": "memory", "strdup": "memory", "strndup": "memory",
       "fopen": "file", "fdopen": "file", "tmpfile": "file", "popen": "pipe", "opendir": "directory"}
REL = {"free": "memory", "fclose": "file", "pclose": "pipe", "closedir": "directory", "realloc": "memory"}
BORROW = set("""printf fprintf sprintf snprintf vfprintf vsnprintf puts fputs fputc putc fgets fgetc getc fread fwrite fscanf sscanf
__isoc99_fscanf __isoc99_sscanf __isoc23_fscanf __isoc23_sscanf fseek ftell rewind feof ferror fflush fileno readdir memcpy memset memmove
strcmp strncmp strcasecmp strncasecmp strlen strcpy strncpy strcat strncat strstr strchr strrchr strtok strspn strcspn strdup atoi atof atol
strtod strtol strpbrk stat lstat mkdir rename unlink remove rmdir chdir access system qsort isatty perror fopen opendir popen tolower
toupper setlinebuf clearerr ungetc memcmp strtok_r strerror getcwd realpath abs time difftime gettimeofday localtime asctime strftime
__isoc23_strtol __isoc23_strtod vprintf bcopy""".split())
PASSTHRU = {"strcpy": 0, "strcat": 0, "strncpy": 0, "strncat": 0, "memcpy": 0, "memmove": 0, "memset": 0,
            "strstr": 0, "strchr": 0, "strrchr": 0, "strpbrk": 0, "fgets": 0}
CAP = 6000


class Own:
    def __init__(s, P):
        s.P = P; s.fp = fptr(P)
        s.psum = {}; s.rsum = {}
        s.cond = {}

    # ------------------------------------------------------------ acquire
    def acquires(s, f, I):
        """kind of the fresh resource returned by this call, or None"""
        if I.op != "call" or I.ty != "ptr":
            return None
        if is_glob(I.callee):
            n = I.callee[1:]
            if n in ACQ:
                return ACQ[n]
            h = s.P.body(n, f)
            return s.fresh(h) if h is not None else None
        return None

    def fresh(s, h):
        k = id(h)
        if k in s.rsum:
            return s.rsum[k]
        s.rsum[k] = None
        kind = None; ok = True
        if getattr(h, "ret", None) is not None or True:
            cg = cfg_of(s.P, h)
            for b in cg.exits:
                r = h.blocks[b].instrs[-1]
                if not r.ops or not isinstance(r.ops[0], str):
                    ok = False
                    break
                for v in s.leaves(h, r.ops[0]):
                    if v in ("null", "undef", "poison"):
                        continue
                    d = h.defs.get(v) if is_local(v) else None
                    a = s.acquires(h, d) if d is not None else None
                    if a is None:
                        ok = False; break
                    if s.kept(h, v):
                        ok = False; break
                    kind = a
                if not ok:
                    break
        s.rsum[k] = kind if ok else None
        return s.rsum[k]

    def leaves(s, f, v, seen=None):
        seen = set() if seen is None else seen
        if v in seen:
            return
        seen.add(v)
        d = f.defs.get(v) if is_local(v) else None
        if d is not None and (d.op in CASTS):
            yield from s.leaves(f, d.ops[0], seen)
        elif d is not None and d.op == "phi":
            for o in d.ops:
                yield from s.leaves(f, o, seen)
        elif d is not None and d.op == "select":
            for o in d.ops[1:]:
                yield from s.leaves(f, o, seen)
        elif d is not None and d.op == "gep" and isinstance(v, str):
            yield from s.leaves(f, d.ops[0], seen)
        else:
            yield v

    def kept(s, f, v):
        """is v also stored somewhere that outlives the function?"""
        al = {v}; ch = True
        while ch:
            ch = False
            for I in f.instrs():
                if I.name and I.name not in al and (I.op in CASTS or I.op in ("phi", "gep", "select")):
                    if (I.ops[0] in al) or (I.op in ("phi", "select") and any(o in al for o in I.ops)):
                        al.add(I.name); ch = True
        for I in f.instrs():
            if I.op == "store" and I.ops[0] in al:
                r = addr_root(f, I.ops[1])
                if r in al:
                    continue
                d = f.defs.get(r) if is_local(r) else None
                if d is not None and d.op == "alloca":
                    continue
                return True
        return False

    # --------------------------------------------------- parameter summary
    def param(s, h, k):
        """'free' on every path, 'may', 'escape' or 'borrow'"""
        key = (id(h), k)
        if key in s.psum:
            return s.psum[key]
        s.psum[key] = "escape"
        if k >= len(h.params):
            s.psum[key] = "borrow"       # variadic
            return "borrow"
        res = s.trace(h, None, h.params[k])
        if res is None:
            r = "escape"
        else:
            st = {x for x, _ in res["exits"]}
            if "E" in st:
                r = "escape"
            elif st == {"F"}:
                r = "free"
            elif "F" in st:
                r = "may"
            else:
                r = "borrow"
        s.psum[key] = r
        return r

    def callee_effect(s, f, I, k):
        if is_glob(I.callee):
            n = I.callee[1:]
            if n.startswith("llvm."):
                return "borrow"
            if n in REL and k == 0:
                return "free"
            if n in BORROW:
                return "borrow"
            h = s.P.body(n, f)
            if h is None:
                return "borrow" if n.startswith(("umfpack", "fftw", "cblas", "dgesv", "_Z")) or n in KNOWN_EXT else "escape"
            return s.param(h, k)
        ts = s.fp.targets(f, I)
        if not ts:
            return "escape"
        r = set()
        for t in ts:
            h = s.P.body(t, f)
            r.add(s.param(h, k) if h is not None else "escape")
        if len(r) == 1:
            return r.pop()
        return "escape" if "escape" in r else "may"

    # ------------------------------------------------------ local structures
    def slot(s, f, a):
        """(alloca, constant path) of an address inside a local object that nothing else keeps, or None"""
        path = []
        n = 0
        while is_local(a) and n < 20:
            n += 1
            d = f.defs.get(a)
            if d is None:
                return None
            if d.op in CASTS:
                a = d.ops[0]; continue
            if d.op == "gep":
                if not all(type(x) is int for x in d.ops[1:]):
                    return None
                if any(d.ops[1:]):
                    path.append((d.x, tuple(d.ops[1:])))
                a = d.ops[0]; continue
            if d.op == "alloca":
                return (a, tuple(path)) if s.private(f, a) else None
            return None
        return None

    def into(s, f, a):
        """every value pointing into the local object a"""
        k = (id(f), "into", a)
        if k not in s.cond:
            al = {a}; ch = True
            while ch:
                ch = False
                for I in f.instrs():
                    if I.name and I.name not in al and (I.op in CASTS or I.op in ("phi", "gep", "select")):
                        if any(type(o) is str and o in al for o in (I.ops if I.op in ("phi", "select") else I.ops[:1])):
                            al.add(I.name); ch = True
            s.cond[k] = al
        return s.cond[k]

    def private(s, f, a):
        """the address of this local object is not stored or returned, and it is only indexed with constants where pointers are kept"""
        k = (id(f), "priv", a)
        if k not in s.cond:
            al = s.into(f, a); ok = True
            for I in f.instrs():
                if I.op == "store" and type(I.ops[0]) is str and I.ops[0] in al:
                    ok = False
                elif I.op == "ret" and I.ops and type(I.ops[0]) is str and I.ops[0] in al:
                    ok = False
                elif I.op in ("phi", "select") and I.name in al:
                    ok = False
                elif I.op == "gep" and I.name in al and not all(type(x) is int for x in I.ops[1:]) and any(
                        J.op in ("load", "store") and (J.ty if J.op == "load" else J.x) == "ptr" and J.ops[-1] == I.name for J in f.instrs()):
                    ok = False
                elif I.op == "call" and is_glob(I.callee) and I.callee[1:].startswith(("llvm.memcpy", "llvm.memset", "memcpy", "memset")) and \
                        any(type(o) is str and o in al for o in I.ops):
                    ok = False
            s.cond[k] = ok
        return s.cond[k]

    def slotcall(s, f, I, roots):
        """may this call release or keep what is stored in one of the local objects?"""
        if is_glob(I.callee) and I.callee[1:].startswith("llvm."):
            return False
        for q, o in enumerate(I.ops):
            if type(o) is str and any(o in s.into(f, r) for r in roots):
                for t in ([I.callee[1:]] if is_glob(I.callee) else s.fp.targets(f, I) or ["?"]):
                    if not s.deep(t, f, q):
                        return True
        return False

    def deep(s, name, frm, k, val=False):
        """the callee only reads what its parameter k (or what it points to) refers to, and releases or keeps none of it"""
        if name in BORROW or name.startswith("llvm."):
            return not name.startswith(("memcpy", "memmove", "llvm.mem"))
        h = s.P.body(name, frm)
        if h is None:
            return name in KNOWN_EXT
        if k >= len(h.params):
            return False
        key = (id(h), "deep", k)
        if key in s.cond:
            return s.cond[key]
        s.cond[key] = True
        D = {h.params[k]}; ch = True
        while ch:
            ch = False
            for I in h.instrs():
                if I.name and I.name not in D and (I.op in CASTS or I.op in ("phi", "gep", "select") or (I.op == "load" and I.ty == "ptr")):
                    if any(type(o) is str and o in D for o in (I.ops if I.op in ("phi", "select") else I.ops[:1])):
                        D.add(I.name); ch = True
        ok = True
        for I in h.instrs():
            if I.op == "store" and type(I.ops[0]) is str and I.ops[0] in D:
                r = addr_root(h, I.ops[1])
                d = h.defs.get(r) if is_local(r) else None
                if d is None or d.op != "alloca" or not s.private(h, r):
                    ok = False
                else:
                    ok = ok and not any(J.op == "call" and any(type(o) is str and o in s.into(h, r) for o in J.ops) for J in h.instrs())
            elif I.op == "ret" and I.ops and type(I.ops[0]) is str and I.ops[0] in D:
                ok = False
            elif I.op in ("call", "invoke"):
                for q, o in enumerate(I.ops):
                    if type(o) is str and o in D:
                        ts = [I.callee[1:]] if is_glob(I.callee) else s.fp.targets(h, I)
                        if not ts:
                            ok = False
                        for t in ts or ():
                            if t in REL and q == 0 or t in REL:
                                ok = False
                            elif not s.deep(t, h, q):
                                ok = False
            if not ok:
                break
        s.cond[key] = ok
        return ok

    # ------------------------------------------------------------- tracing
    def facts_at(s, f, cg, blk):
        out = {}
        for t, pol in guards(cg, blk):
            k = s.fact(f, cg, t)
            if k is not None:
                out[k[0]] = pol == k[1]
        return out

    def fact(s, f, cg, t):
        """(comparable condition, polarity meaning true) of a branch"""
        key = (id(f), t.ops[0], t.blk)
        if key in s.cond:
            return s.cond[key]
        a = atom(s.P, f, None, t.ops[0], t, True)
        txt = str(a[0])
        r = (txt, a[1])
        lh = cg.loop_of(t.blk)
        if lh is not None and not s.invariant(f, cg, t.ops[0], cg.loops[lh]):
            r = None
        s.cond[key] = r
        return r

    def invariant(s, f, cg, v, body, n=0):
        d = f.defs.get(v) if is_local(v) else None
        if d is None or d.blk not in body:
            return True
        if n > 12:
            return False
        if d.op in ("icmp", "fcmp", "xor", "and", "or", "add", "sub", "zext", "sext", "trunc"):
            return all(s.invariant(f, cg, o, body, n + 1) for o in d.ops)
        if d.op == "call" and is_glob(d.callee) and (d.callee[1:].replace("SGRID_", "").startswith("Get")):
            return all(s.invariant(f, cg, o, body, n + 1) for o in d.ops)
        if d.op == "load":
            return s.invariant(f, cg, d.ops[0], body, n + 1)
        if d.op == "gep":
            return all(s.invariant(f, cg, o, body, n + 1) for o in d.ops)
        return False

    def trace(s, f, acq, root):
        r = s.trace1(f, acq, root, False)
        if acq is None:
            if r is not None and len({x for x, _ in r["exits"]}) <= 1:
                return r
        elif r is not None and not r["uaf"] and not r["df"] and not r["lost"] and "L" not in {x for x, _ in r["exits"]}:
            return r
        return s.trace1(f, acq, root, True)

    def relevant(s, f, cg, root):
        """conditions that govern what happens to the resource"""
        al = {root}; ch = True
        while ch:
            ch = False
            for I in f.instrs():
                if I.name and I.name not in al and (I.op in CASTS or I.op in ("phi", "gep", "select")):
                    if any(type(o) is str and o in al for o in (I.ops if I.op in ("phi", "select") else I.ops[:1])):
                        al.add(I.name); ch = True
        out = set()
        s.once = set()
        rb = f.defs[root].blk if root in f.defs else None
        for b in cg.live:
            for I in f.blocks[b].instrs:
                if I.op == "call" and any(type(o) is str and o in al and s.callee_effect(f, I, q) != "borrow" for q, o in enumerate(I.ops)):
                    for h, body in cg.loops.items():
                        if b in body and rb is not None and rb not in body:
                            s.once.add(h)
                if (I.op in ("call", "ret") and any(type(o) is str and o in al for o in I.ops)) or (I.op == "store" and type(I.ops[0]) is str and I.ops[0] in al):
                    for t, pol in guards(cg, b):
                        fk = s.fact(f, cg, t)
                        if fk is not None:
                            out.add(fk[0])
                    break
        return out

    def trace1(s, f, acq, root, refine):
        """follow every path from the acquisition (or function entry for a
        parameter).  -> {'exits': {(state, instr)}, 'uaf': [...], 'df': [...], 'lost': [...]} or None"""
        P = s.P; cg = cfg_of(P, f)
        res = {"exits": set(), "uaf": set(), "df": set(), "lost": set()}
        cross, multi, need = s.info(f, cg)
        once = set()
        if refine:
            multi = multi & s.relevant(f, cg, root)
            once = s.once
        else:
            multi = need = ()
        if acq is not None and acq.blk not in cg.live:
            return res
        if acq is not None:
            start = (acq.blk, acq.idx + 1, "L", frozenset([root]), frozenset(s.facts_at(f, cg, acq.blk).items() if refine else ()), frozenset())
        else:
            start = (cg.entry, 0, "L", frozenset([root]), frozenset(), frozenset())
        seen = set(); work = [start]; n = 0
        while work:
            b, k, st, al, facts, env = work.pop()
            key = (b, k, st, al, facts, env)
            if key in seen:
                continue
            seen.add(key); n += 1
            if n > CAP:
                return None
            al = set(al); env = dict(env)
            ins = f.blocks[b].instrs
            stop = False
            j = k
            while j < len(ins):
                I = ins[j]; j += 1
                op = I.op
                if op in ("phi", "br", "switch"):
                    continue
                if acq is not None and I is acq:
                    if st == "L" and not any(type(o) is str and o in al and s.callee_effect(f, I, q) == "free" for q, o in enumerate(I.ops)):
                        res["lost"].add(I)
                    stop = True; break
                if op in CASTS or op == "gep":
                    if (type(I.ops[0]) is str and I.ops[0] in al):
                        al.add(I.name)
                    else:
                        al.discard(I.name)
                    continue
                if op == "select":
                    if (type(I.ops[1]) is str and I.ops[1] in al) or (type(I.ops[2]) is str and I.ops[2] in al):
                        al.add(I.name)
                    else:
                        al.discard(I.name)
                    continue
                if op == "store":
                    sl = s.slot(f, I.ops[1])
                    if sl is not None:
                        al.discard(sl)
                    if (type(I.ops[0]) is str and I.ops[0] in al) and st == "L":
                        r = addr_root(f, I.ops[1])
                        if r in al:
                            continue          # self reference
                        if sl is not None:
                            al.add(sl)
                            continue
                        st = "E"
                    if st == "F" and (type(I.ops[1]) is str and I.ops[1] in al):
                        res["uaf"].add(I)
                    continue
                if op == "load":
                    if st == "F" and (type(I.ops[0]) is str and I.ops[0] in al):
                        res["uaf"].add(I)
                    sl = s.slot(f, I.ops[0])
                    if sl is not None and sl in al:
                        al.add(I.name)
                    else:
                        al.discard(I.name)
                    continue
                if op in ("call", "invoke"):
                    if I.name:
                        al.discard(I.name)
                    if st == "L" and any(type(x) is tuple for x in al):
                        if s.slotcall(f, I, {x[0] for x in al if type(x) is tuple}):
                            st = "E"
                    if not any((type(o) is str and o in al) for o in I.ops):
                        continue
                    for q, o in enumerate(I.ops):
                        if not (type(o) is str and o in al):
                            continue
                        if is_glob(I.callee) and I.callee[1:] in PASSTHRU and q == PASSTHRU[I.callee[1:]] and I.name:
                            al.add(I.name)
                        e = s.callee_effect(f, I, q)
                        if st == "F":
                            if e == "free":
                                res["df"].add(I)
                            elif e == "borrow":
                                res["uaf"].add(I)
                            st = "E"
                            break
                        if e == "free":
                            st = "F"
                        elif e in ("escape", "may") and st == "L":
                            st = "E"
                    continue
                if op == "ret":
                    if I.ops and (type(I.ops[0]) is str and I.ops[0] in al) and st == "L":
                        st = "E"
                    res["exits"].add((st, I)); stop = True
                    break
            if stop or b in cg.dead:
                continue
            t = ins[-1]
            ss = cg.succ[b]
            take = []
            if t.op == "br" and t.ops and len(t.x) == 2 and t.x[0] != t.x[1]:
                v = s.known(f, t.ops[0], al, env, st)
                fk = s.fact(f, cg, t)
                fd = dict(facts)
                if v is None and fk is not None and fk[0] in fd:
                    v = fd[fk[0]] == fk[1]
                for side in (True, False):
                    if v is not None and side != bool(v):
                        continue
                    x = t.x[0] if side else t.x[1]
                    if b in once and ("#" + b) in env and x not in cg.loops[b]:
                        continue        # loops that release or hand over run at least once
                    nf = facts
                    if fk is not None and fk[0] in multi and fk[0] not in fd and v is None:
                        nf = frozenset(list(facts) + [(fk[0], side == fk[1])])
                    take.append((x, nf))
            else:
                take = [(x, facts) for x in ss]
            for x, nf in take:
                al2 = {q for q in al if type(q) is tuple or q in cross}; env2 = dict(env)
                for I in f.blocks[x].instrs:
                    if I.op != "phi":
                        break
                    for v, p in zip(I.ops, I.x):
                        if p == b:
                            if (type(v) is str and v in al):
                                al2.add(I.name)
                            else:
                                al2.discard(I.name)
                            cv = v if isinstance(v, int) else env.get(v) if type(v) is str else None
                            if v == "null":
                                cv = 0
                            if cv is not None:
                                env2[I.name] = cv
                            else:
                                env2.pop(I.name, None)
                # drop values that can no longer matter
                env2 = {q: w for q, w in env2.items() if q[0] == "#" or (q in need and s.flagphi(f, q))}
                if x in once:
                    if b not in cg.loops[x]:
                        env2["#" + x] = 1
                    else:
                        env2.pop("#" + x, None)
                work.append((x, 0, st, frozenset(al2), nf, frozenset(env2.items())))
        return res

    def info(s, f, cg):
        """names used outside their block, condition keys met more than once,
        phis that can decide a branch"""
        k = (id(f), "info")
        if k in s.cond:
            return s.cond[k]
        cross = set(); blk = {}
        for b in cg.live:
            for I in f.blocks[b].instrs:
                if I.name:
                    blk[I.name] = b
        for p in f.params:
            cross.add(p)
        for b in cg.live:
            for I in f.blocks[b].instrs:
                for o in I.ops:
                    if type(o) is str and blk.get(o, b) != b or I.op == "phi":
                        if type(o) is str:
                            cross.add(o)
        cnt = {}
        need = set(); st = []
        for b in cg.live:
            t = f.blocks[b].instrs[-1]
            if t.op == "br" and t.ops:
                fk = s.fact(f, cg, t)
                if fk is not None:
                    cnt[fk[0]] = cnt.get(fk[0], 0) + 1
                st.append(t.ops[0])
        n = 0
        while st:
            v = st.pop()
            if type(v) is not str or v in need:
                continue
            need.add(v)
            d = f.defs.get(v)
            if d is not None and d.op in ("phi", "icmp", "zext", "sext", "trunc", "xor", "select"):
                st.extend(d.ops)
        s.cond[k] = (cross, {x for x, c in cnt.items() if c > 1}, need)
        return s.cond[k]

    def flagphi(s, f, q):
        """only phis that decide branches or pointers are worth tracking"""
        key = (id(f), "flag", q)
        if key not in s.cond:
            d = f.defs.get(q)
            ok = False
            if d is not None and d.op == "phi":
                # loop counters would never converge
                ok = not any(is_local(o) and f.defs.get(o) is not None and f.defs[o].op in ("add", "sub") and q in f.defs[o].ops for o in d.ops)
            s.cond[key] = ok
        return s.cond[key]

    def valof(s, f, v, al, env, st, n):
        """integer value on this path, or None"""
        if isinstance(v, int):
            return int(v)
        if type(v) is not str or n > 8:
            return None
        if v in env:
            return env[v]
        d = f.defs.get(v)
        if d is None:
            return None
        if d.op == "select":
            k = s.known(f, d.ops[0], al, env, st, n + 1)
            return None if k is None else s.valof(f, d.ops[1] if k else d.ops[2], al, env, st, n + 1)
        if d.op in ("zext", "trunc", "sext"):
            if d.op == "zext" and f.defs.get(d.ops[0]) is not None and f.defs[d.ops[0]].op == "icmp":
                k = s.known(f, d.ops[0], al, env, st, n + 1)
                return None if k is None else int(k)
            return s.valof(f, d.ops[0], al, env, st, n + 1)
        if d.op == "call" and is_glob(d.callee):
            h = s.P.body(d.callee[1:], f)
            if h is not None and len(h.order) == 1:
                r = h.blocks[h.order[0]].instrs[-1]
                if r.op == "ret" and r.ops and r.ops[0] in h.params:
                    return s.valof(f, d.ops[h.params.index(r.ops[0])], al, env, st, n + 1)
        return None

    def known(s, f, c, al, env, st, n=0):
        """truth of a branch condition on this path, or None"""
        if isinstance(c, (int, bool)):
            return bool(c)
        if type(c) is str and c in env:
            return bool(env[c])
        d = f.defs.get(c) if is_local(c) else None
        if d is None or n > 6:
            return None
        if d.op in ("zext", "sext", "trunc"):
            return s.known(f, d.ops[0], al, env, st, n + 1)
        if d.op == "xor" and d.ops[1] in (1, -1, True):
            v = s.known(f, d.ops[0], al, env, st, n + 1)
            return None if v is None else not v
        if d.op == "icmp":
            a, b = d.ops
            if b == "null" and (type(a) is str and a in al):
                return d.x == "ne"
            if b == "null" and type(a) is str and a in env:
                return (env[a] != 0) == (d.x == "ne")
            va = s.valof(f, a, al, env, st, n + 1)
            vb = s.valof(f, b, al, env, st, n + 1)
            if va is None and isinstance(vb, int) and vb == 0 and d.x in ("eq", "ne"):
                da = f.defs.get(a) if is_local(a) else None
                if da is not None and da.op in ("zext", "sext", "xor", "icmp"):
                    t = s.known(f, a, al, env, st, n + 1)
                    if t is not None:
                        return t == (d.x == "ne")
            if isinstance(va, int) and isinstance(vb, int):
                from .loopnest import OPS
                return OPS[d.x](va, vb)
        return None


KNOWN_EXT = {"omp_get_thread_num", "clock", "omp_get_wtime", "signal"}

_o = {}


def own(P):
    if id(P) not in _o:
        _o[id(P)] = Own(P)
    return _o[id(P)]
