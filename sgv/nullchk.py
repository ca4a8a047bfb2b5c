"""Is the result of an allocation or open tested before it is used?"""
from .val import *
from .cfg import *
from .own import own, ACQ, BORROW

SAFE_NULL = {"free", "fclose?"}


class Null:
    def __init__(s, P):
        s.P = P; s.o = own(P); s.mn = {}; s.dr = {}

    def maynull(s, f, I):
        """kind if the call can return an untested null of a fresh resource"""
        if I.op != "call" or I.ty != "ptr" or not is_glob(I.callee):
            return None
        n = I.callee[1:]
        if n in ACQ:
            return ACQ[n]
        h = s.P.body(n, f)
        if h is None:
            return None
        if id(h) in s.mn:
            return s.mn[id(h)]
        s.mn[id(h)] = None
        k = s.o.fresh(h)
        if k is not None:
            cg = cfg_of(s.P, h)
            bad = None
            for b in cg.exits:
                r = h.blocks[b].instrs[-1]
                for v in s.o.leaves(h, r.ops[0]):
                    d = h.defs.get(v) if is_local(v) else None
                    if d is not None and s.maynull(h, d):
                        if s.scan(h, d, to=r):
                            bad = k
            s.mn[id(h)] = bad
        return s.mn[id(h)]

    def derefs(s, h, k):
        """does h use parameter k without testing it first?"""
        key = (id(h), k)
        if key in s.dr:
            return s.dr[key]
        s.dr[key] = None
        if k < len(h.params):
            s.dr[key] = s.scan(h, None, root=h.params[k])
        return s.dr[key]

    def scan(s, f, acq, root=None, to=None):
        """first use of the value on a path without a test; with `to`: can the
        return be reached with the value untested?"""
        cg = cfg_of(s.P, f)
        root = root if root is not None else acq.name
        if acq is not None and acq.blk not in cg.live:
            return None
        start = (acq.blk, acq.idx + 1, frozenset([root])) if acq is not None else (cg.entry, 0, frozenset([root]))
        work = [start]; seen = set()
        cross = s.o.info(f, cg)[0]
        n = 0
        while work:
            st = work.pop()
            if st in seen:
                continue
            seen.add(st); n += 1
            if n > 4000:
                return None
            b, k, al = st
            al = set(al); alias_slots = set()
            ins = f.blocks[b].instrs
            stop = False
            for I in ins[k:]:
                op = I.op
                if op in ("phi", "br", "switch"):
                    continue
                if I is acq:
                    stop = True; break
                if op in CASTS or op == "gep":
                    if type(I.ops[0]) is str and I.ops[0] in al:
                        al.add(I.name)
                    else:
                        al.discard(I.name)
                    continue
                if op == "select":
                    al.discard(I.name); continue
                if op == "load":
                    if type(I.ops[0]) is str and I.ops[0] in al:
                        return None if to is not None else I
                    # reload of a slot the untested pointer was stored to
                    if ("slot", str(expr(s.P, f, I.ops[0]))) in al:
                        al.add(I.name)
                    continue
                if op == "store":
                    if type(I.ops[1]) is str and I.ops[1] in al:
                        return None if to is not None else I
                    e = ("slot", str(expr(s.P, f, I.ops[1])))
                    if type(I.ops[0]) is str and I.ops[0] in al:
                        al.add(e)
                    else:
                        al.discard(e)
                    continue
                if op in ("call", "invoke"):
                    if I.name:
                        al.discard(I.name)
                    for q, o in enumerate(I.ops):
                        if type(o) is str and o in al:
                            if is_glob(I.callee):
                                nme = I.callee[1:]
                                if nme in ("free", "realloc", "time") or nme.startswith("llvm.lifetime"):
                                    continue
                                if nme.startswith("llvm."):
                                    if to is None:
                                        return I
                                    continue
                                h = s.P.body(nme, f)
                                if h is None:
                                    if nme in BORROW or nme in ("fclose", "closedir", "pclose"):
                                        fm = {"printf": (0,), "fprintf": (0, 1), "sprintf": (0, 1), "snprintf": (0, 2)}.get(nme)
                                        if fm is not None and q not in fm:
                                            continue
                                        if to is None:
                                            return I
                                elif s.derefs(h, q) is not None:
                                    if to is None:
                                        return I
                    continue
                if op == "ret":
                    stop = True
                    if to is not None and I is to:
                        return I
                    break
            if stop or b in cg.dead:
                continue
            t = ins[-1]
            for x in cg.succ[b]:
                if t.op == "br" and t.ops and len(t.x) == 2 and t.x[0] != t.x[1]:
                    r = s.tested(f, t.ops[0], al)
                    if r is not None:
                        continue        # either side: the value has been tested
                al2 = {q for q in al if type(q) is tuple or q in cross}
                for I in f.blocks[x].instrs:
                    if I.op != "phi":
                        break
                    for v, p in zip(I.ops, I.x):
                        if p == b:
                            if type(v) is str and v in al:
                                al2.add(I.name)
                            else:
                                al2.discard(I.name)
                if any(type(q) is str for q in al2) or al2:
                    work.append((x, 0, frozenset(al2)))
        return None

    def tested(s, f, c, al, n=0):
        d = f.defs.get(c) if is_local(c) else None
        if d is None or n > 6:
            return None
        if d.op == "icmp":
            if any(type(o) is str and o in al for o in d.ops):
                return True
            return any(s.tested(f, o, al, n + 1) for o in d.ops if is_local(o)) or None
        if d.op in ("zext", "sext", "trunc", "xor", "and", "or", "freeze", "phi", "select"):
            return any(s.tested(f, o, al, n + 1) for o in d.ops if is_local(o)) or None
        if d.op == "call":
            return any(s.tested(f, o, al, n + 1) or (type(o) is str and o in al) for o in d.ops if is_local(o)) or None
        return None
