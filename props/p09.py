"""P09: the checkpoint on disk is only replaced by a complete one."""
from sgv import ir
from sgv.val import *
from sgv.cfg import *
from sgv.sx import Sx, base
from sgv.report import Check
from sgv.strval import *

RULE = ("checkpoint_write is lowered to one function by inlining. From every write to the new file two faults are followed through every path: the error shows at once "
        "(ferror is set) or only when the buffered rest is written (fflush or fclose fail). Under either fault no path may reach the rename that replaces the "
        "old checkpoint. The file renamed is the one written, and the final name is never opened for writing, truncated or removed.")

WRITES = {"fprintf": 0, "fwrite": 3, "fputs": 1, "fputc": 1, "putc": 1, "vfprintf": 0, "_IO_putc": 1}


def pick(s):
    return ("/utility/checkpoint/" in s and not s.endswith("wolfio.c")) or s.endswith("/main/main/utilities.c")


def keep(n):
    return n in ("remove_dir", "errorexit", "errorexits", "errorexiti")


def run(tier):
    c = Check("P09", tier, RULE)
    P = ir.load_linked("main", pick, ["checkpoint_write"], keep, "mem2reg,instcombine<no-verify-fixpoint>,simplifycfg")
    f = P.funcs.get("checkpoint_write")
    c.require(f is not None, "checkpoint_write")
    S = Sx(P, f); cg = S.cg
    ins = [I for b in cg.rpo if b in cg.live for I in f.blocks[b].instrs]
    name = lambda I: base(I.callee[1:]) if I.op == "call" and is_glob(I.callee) else None
    opens = [I for I in ins if name(I) in ("fopen", "freopen", "open", "fopen1", "fopen64") and
             (P.string(f, I.ops[1]) or "w")[0] in "wa" or name(I) in ("fopen", "fopen1") and "+" in (P.string(f, I.ops[1]) or "")]
    ren = [I for I in ins if name(I) in ("rename", "renameat", "link")]
    c.require(opens, "the file opened for writing")
    if not ren:
        other = [I for I in ins if name(I) in ("system", "system_emu")]
        c.require(other, "the rename of the new checkpoint")
    c.count("files opened for writing", len(opens)); c.count("renames", len(ren))
    ptr = lambda v: addr_root(f, v)
    names = [ptr(I.ops[0]) for I in opens]
    targets = [ptr(I.ops[1]) for I in ren]
    for I in ren:
        c.count("renames judged")
        if ptr(I.ops[0]) not in names:
            c.violation("source", where(I, f), "the file moved into place is not the one that was written")
        if ptr(I.ops[1]) == ptr(I.ops[0]):
            c.violation("same", where(I, f), "the file is moved onto itself")
    same = set()
    for I in opens:
        c.count("targets judged")
        if ptr(I.ops[0]) in targets or sametext(P, f, ptr(I.ops[0]), targets):
            c.violation("direct", where(I, f), "the existing checkpoint is opened for writing directly")
    for I in ins:
        if name(I) in ("remove", "unlink", "truncate", "remove_dir", "creat", "unlinkat") and any(ptr(o) in targets for o in I.ops):
            c.violation("removed", where(I, f), "the existing checkpoint is removed")
    # ---- faults
    fps = {I.name for I in opens}
    isfp = lambda v: bool(set(roots(f, v)) & fps)
    last = None
    writes = []
    for I in ins:
        n = name(I)
        if n in WRITES and len(I.ops) > WRITES[n] and isfp(I.ops[WRITES[n]]):
            writes.append(I)
    c.count("writes to the new file", len(writes))
    R = {(I.blk, I.idx) for I in ren}
    for w in writes:
        for mode in ("now", "later"):
            c.count("faults followed")
            hit = follow(P, f, cg, w, mode, isfp, name, R, relevant(f, isfp, name, w))
            if hit is not None:
                c.violation("fault-%s" % mode, where(hit, f), "the old checkpoint is replaced although writing the new one failed (%s): %s" %
                            (where(w, f), "the error indicator is not looked at after this write" if mode == "now" else "the result of writing out the buffer is not looked at"))
    reading(c)
    c.floor("writes to the new file", 5)
    c.floor("reads followed", 6)
    c.floor("renames judged", 1)
    c.sample("%d writes, rename at %s" % (len(writes), where(ren[0], f) if ren else "-"))
    return c


def reading(c):
    """data missing at the end of a checkpoint stops the run"""
    from . import p08
    P = p08.load()
    f = P.funcs.get("checkpoint_read")
    c.require(f is not None, "checkpoint_read")
    cg = cfg_of(P, f)
    name = lambda I: base(I.callee[1:]) if I.op == "call" and is_glob(I.callee) else None
    heads = {b for b in cg.loops}
    for b in cg.rpo:
        if b not in cg.live:
            continue
        for I in f.blocks[b].instrs:
            n = name(I)
            if n in ("fgetparameter", "fgotonext"):
                lab = P.string(f, I.ops[1])
                if lab == "$variable":
                    continue          # there may be no further variable
                v = "m1"
            elif n in ("fread_double_little", "fread"):
                lab = "the data"; v = "short"
            else:
                continue
            c.count("reads followed")
            R = {(J.blk, J.idx) for J in f.instrs() if J.op == "ret" or name(J) in ("fgetparameter", "fgotonext")}
            keep = set()
            if I.name:
                keep = relevant(f, lambda o: False, name, I)
            hit = follow(P, f, cg, I, "read", lambda o: False, name, R, keep, v)
            if hit is not None:
                c.violation("read|%s" % lab, where(I, f), "when the file ends before %s could be read here, the run goes on" % lab)


def roots(f, v, seen=None):
    out = []; st = [v]; seen = set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        d = f.defs.get(x) if is_local(x) else None
        if d is not None and d.op == "phi":
            st += [o for o in d.ops]
        elif d is not None and d.op in CASTS:
            st.append(d.ops[0])
        else:
            out.append(x)
    return out


def sametext(P, f, name, targets):
    """is the buffer filled with an unchanged copy of the target name?"""
    for I in f.instrs():
        if I.op != "call" or not is_glob(I.callee):
            continue
        n = I.callee[1:]
        if n in ("sprintf", "__sprintf_chk") and I.ops and addr_root(f, I.ops[0]) == name:
            if P.string(f, I.ops[1]) == "%s" and addr_root(f, I.ops[2]) in targets:
                return True
        if n in ("strcpy", "stpcpy", "memcpy", "llvm.memcpy.p0.p0.i64") and addr_root(f, I.ops[0]) == name and addr_root(f, I.ops[1]) in targets:
            ext = [J for J in f.instrs() if J is not I and J.op == "call" and is_glob(J.callee) and J.callee[1:] in ("strcat", "strncat", "sprintf", "strcpy", "llvm.memcpy.p0.p0.i64", "snprintf", "stpcpy")
                   and addr_root(f, J.ops[0]) == name]
            if not ext and not any(J.op == "store" and addr_root(f, J.ops[1]) == name for J in f.instrs()):
                return True
    return False


NZ, Z, UNK = "nz", "z", None


def relevant(f, isfp, name, w):
    """values that can tell about the fault: results of the tests, what is
    computed from them, and flags that only ever hold constants"""
    keep = {I.name for I in f.instrs() if I.op == "call" and I.name and
            (I is w or name(I) in ("ferror", "fflush", "fclose") and isfp(I.ops[0]))}
    flags = {I.name: I for I in f.instrs() if I.op in ("phi", "select")}
    ch = True
    while ch:
        ch = False
        for n, I in list(flags.items()):
            ops = I.ops[1:] if I.op == "select" else I.ops
            if not all(isinstance(o, (int, bool)) or o in flags or o in keep for o in ops):
                del flags[n]; ch = True
    keep |= set(flags)
    ch = True
    while ch:
        ch = False
        for I in f.instrs():
            if I.name and I.name not in keep and I.op not in ("call", "load", "gep", "alloca") and any(is_local(o) and o in keep for o in I.ops):
                keep.add(I.name); ch = True
    return keep


def follow(P, f, cg, w, mode, isfp, name, R, keep, res=None):
    """search all paths after the faulty write w; returns a rename that is reached"""
    noret = P._noret
    st = [(w.blk, w.idx + 1, {}, mode == "now")]
    if w.name and name(w) in ("fprintf", "fputs", "vfprintf", "fputc", "putc") and mode == "now":
        st[0][2][w.name] = "neg"
    if res is not None and w.name:
        st[0][2][w.name] = res
    seen = set()
    while st:
        b, k, val, err = st.pop()
        stop = False
        val = dict(val)
        for I in f.blocks[b].instrs[k:]:
            n = name(I)
            if (b, I.idx) in R:
                return I
            if I.op == "call":
                if n == "ferror" and isfp(I.ops[0]):
                    val[I.name] = NZ if err else "any"
                elif n in ("fflush", "fclose") and isfp(I.ops[0]):
                    if mode == "later" and not err:
                        val[I.name] = "m1"; err = True
                    else:
                        val[I.name] = "any"
                elif n == "clearerr":
                    err = False
                elif n in noret or (I.callee and is_glob(I.callee) and I.callee[1:] in noret):
                    stop = True; break
                elif I.name:
                    val.pop(I.name, None)
                # a new file is opened: the faulty one is no longer followed by ferror
            elif I.op == "unreachable":
                stop = True; break
            elif I.op not in ("phi", "br", "switch", "store") and I.name:
                v = ev(I, val)
                if v is None or I.name not in keep:
                    val.pop(I.name, None)
                else:
                    val[I.name] = v
        if stop:
            continue
        t = f.blocks[b].instrs[-1]
        succs = list(cg.succ[b])
        if t.op == "br" and t.ops and len(t.x) == 2:
            v = look(t.ops[0], val)
            if v in (NZ, "neg", "m1"):
                succs = [t.x[0]]
            elif v == Z:
                succs = [t.x[1]]
        for s in succs:
            nv = dict(val)
            for I in f.blocks[s].instrs:
                if I.op != "phi":
                    break
                for o, p in zip(I.ops, I.x):
                    if p == b:
                        x = look(o, val)
                        if x is None or I.name not in keep:
                            nv.pop(I.name, None)
                        else:
                            nv[I.name] = x
            nv = {k: v for k, v in nv.items() if v != "any"}
            key = (s, tuple(sorted(nv.items())), err)
            if key not in seen:
                seen.add(key)
                if len(seen) > 200000:
                    return None
                st.append((s, 0, nv, err))
    return None


def look(o, val):
    if isinstance(o, bool):
        return NZ if o else Z
    if isinstance(o, int):
        return Z if o == 0 else "m1" if o == -1 else "neg" if o < 0 else NZ
    if o == "null":
        return Z
    return val.get(o)


def ev(I, val):
    a = look(I.ops[0], val) if I.ops else None
    if I.op in CASTS:
        return a if I.op != "trunc" or a == Z else (a if I.op == "trunc" and a else None)
    b = look(I.ops[1], val) if len(I.ops) > 1 else None
    nz = (NZ, "neg", "m1")
    if I.op == "icmp" and "short" in (a, b):
        if 0 in I.ops:
            return None
        p = I.x if a == "short" else {"slt": "sgt", "sgt": "slt", "ult": "ugt", "ugt": "ult", "sle": "sge", "sge": "sle", "ule": "uge", "uge": "ule"}.get(I.x, I.x)
        return {"ne": NZ, "ult": NZ, "slt": NZ, "ule": NZ, "sle": NZ, "eq": Z, "uge": Z, "sge": Z, "ugt": Z, "sgt": Z}.get(p)
    if a == "short" and I.op in CASTS:
        return a
    if "short" in (a, b):
        return None
    if I.op == "icmp":
        if I.ops[1] == 0 or I.ops[1] == "null":
            if a in nz:
                if I.x in ("eq", "ne"):
                    return NZ if I.x == "ne" else Z
                if a == NZ:      # ferror gives a positive number
                    return {"slt": Z, "sle": Z, "sgt": NZ, "sge": NZ}.get(I.x)
                if a in ("neg", "m1"):
                    return {"slt": NZ, "sle": NZ, "sgt": Z, "sge": Z}.get(I.x)
            if a == Z:
                return NZ if I.x in ("eq", "sge", "sle", "uge", "ule") else Z
        if I.ops[1] == -1 and a == "m1":
            return NZ if I.x in ("eq", "sle", "sge") else Z
        if I.ops[1] == -1 and a == Z:
            return NZ if I.x in ("ne", "sgt", "sge") else Z if I.x in ("eq", "slt", "sle") else None
        if I.ops[1] == 1 and a in ("neg", "m1") and I.x in ("slt", "sle", "sgt", "sge"):
            return NZ if I.x in ("slt", "sle") else Z
        return None
    if I.op == "or":
        if a in nz or b in nz:
            return "m1" if "m1" in (a, b) else "neg" if "neg" in (a, b) else NZ
        return Z if a == b == Z else None
    if I.op == "and":
        return Z if Z in (a, b) else NZ if a in nz and b in nz and I.ty == "i1" else None
    if I.op == "xor" and I.ops[1] in (1, -1, True):
        return Z if a in nz and I.ty == "i1" else NZ if a == Z else None
    if I.op == "select":
        c = a; x = b; y = look(I.ops[2], val)
        if c in nz:
            return x
        if c == Z:
            return y
        return x if x == y else None
    if I.op == "add":
        if a == Z:
            return b
        if b == Z:
            return a
    return None
