"""Which functions can an indirect call reach?  Flow-insensitive, field- and
parameter-sensitive propagation of function addresses over the whole program."""
from .val import *


class Fptr:
    def __init__(s, P):
        s.P = P
        s.param = {}     # (fname, i) -> set of functions
        s.slot = {}      # ('f',struct,field) / ('g',global) -> set
        s.ret = {}       # fname -> set
        s.deps = None
        s.solve()

    def funcs_of(s, f, v, seen=None):
        if seen is None:
            seen = set()
        if isinstance(v, tuple):
            v = ce_base(v)
        if is_glob(v):
            n = v[1:]
            return {n} if n in s.P.funcs or s.P.body(n, f) is not None else set()
        if not is_local(v) or v in seen:
            return set()
        seen.add(v)
        d = f.defs.get(v)
        if d is None:
            if v in f.params:
                return set(s.param.get((f.name, f.params.index(v)), ()))
            return set()
        if d.op in CASTS:
            return s.funcs_of(f, d.ops[0], seen)
        if d.op == "phi":
            r = set()
            for o in d.ops:
                r |= s.funcs_of(f, o, seen)
            return r
        if d.op == "select":
            return s.funcs_of(f, d.ops[1], seen) | s.funcs_of(f, d.ops[2], seen)
        if d.op == "load":
            k = s.key(f, d.ops[0])
            return set(s.slot.get(k, ())) if k else set()
        if d.op == "call":
            r = set()
            for g in s.targets(f, d):
                r |= s.ret.get(g, set())
            return r
        return set()

    def key(s, f, a):
        """abstract memory slot of an address"""
        n = 0
        while n < 20:
            n += 1
            if isinstance(a, tuple):
                a = ce_base(a)
            if is_glob(a):
                return ("g", a)
            if not is_local(a):
                return None
            d = f.defs.get(a)
            if d is None:
                if a in f.params:
                    return ("p", f.name, f.params.index(a))
                return None
            if d.op == "gep":
                st, _ = gep_path(s.P, d)
                fl = [x for x in st if x[0] == "f"]
                if fl:
                    return ("f", fl[-1][1], fl[-1][2])
                a = d.ops[0]; continue
            if d.op in CASTS:
                a = d.ops[0]; continue
            if d.op == "alloca":
                return ("l", f.name, a)
            if d.op == "load":
                k = s.key(f, d.ops[0])
                return ("*", k) if k else None
            return None
        return None

    def targets(s, f, I):
        c = I.callee
        if is_glob(c):
            return {c[1:]}
        return {t for t in s.funcs_of(f, c) if s.ok(t, I)}

    def ok(s, t, I):
        g = s.P.funcs.get(t)
        if g is None:
            return True
        return len(g.params) == len(I.ops) or g.vararg

    def solve(s):
        P = s.P
        # global initialisers
        for m in P.mods:
            for g in m.globals.values():
                s.ginit(("g", "@" + g.name.lstrip("@")), g.init, g.ty)
        sites = []
        for f in P.funcs.values():
            for I in f.instrs():
                if I.op == "store" and I.loc is not False:
                    v = I.ops[0]
                    if (is_local(v) or is_glob(v) or isinstance(v, tuple)):
                        sites.append((f, I))
                elif I.op == "call" and not (is_glob(I.callee) and I.callee.startswith("@llvm.")):
                    sites.append((f, I))
                elif I.op == "ret" and f.ret == "ptr":
                    sites.append((f, I))
        ch = True; n = 0
        while ch and n < 30:
            ch = False; n += 1
            for f, I in sites:
                if I.op == "store":
                    v = s.funcs_of(f, I.ops[0])
                    if v:
                        k = s.key(f, I.ops[1])
                        if k:
                            o = s.slot.setdefault(k, set())
                            if not v <= o:
                                o |= v; ch = True
                elif I.op == "ret":
                    if I.ops:
                        v = s.funcs_of(f, I.ops[0])
                        o = s.ret.setdefault(f.name, set())
                        if not v <= o:
                            o |= v; ch = True
                else:
                    vs = None
                    for i, a in enumerate(I.ops):
                        if I.x["atys"][i] != "ptr":
                            continue
                        v = s.funcs_of(f, a)
                        k = s.key(f, a)
                        if k is not None and I.callee != "@__kmpc_fork_call":
                            for t in s.targets(f, I):
                                for x, y in ((k, ("p", t, i)), (("p", t, i), k)):
                                    if x[0] in "lp" and y in s.slot:
                                        o = s.slot.setdefault(x, set())
                                        if not s.slot[y] <= o:
                                            o |= s.slot[y]; ch = True
                        if not v:
                            continue
                        if I.callee == "@__kmpc_fork_call":
                            continue
                        for t in s.targets(f, I):
                            o = s.param.setdefault((t, i), set())
                            if not v <= o:
                                o |= v; ch = True
                    if I.callee == "@__kmpc_fork_call" and len(I.ops) > 3:
                        b = P.body(I.ops[2], f)
                        if b is not None:
                            for i, a in enumerate(I.ops[3:]):
                                # captured by reference: slot of the local
                                k = s.key(f, a)
                                if k and k in s.slot:
                                    o = s.slot.setdefault(("p", b.name, i + 2), set())
                                    if not s.slot[k] <= o:
                                        o |= s.slot[k]; ch = True

    def ginit(s, k, v, ty):
        if v is None:
            return
        if isinstance(v, tuple):
            if v[0] == "agg":
                if ty.startswith("%") and ty in s.P.structs:
                    for i, e in enumerate(v[1]):
                        s.ginit(("f", ty, s.P.field(ty, i)), e, s.P.structs[ty][i])
                else:
                    et = ty.split(" x ", 1)[1][:-1] if ty.startswith("[") else ty
                    for e in v[1]:
                        s.ginit(k, e, et)
                return
            v = ce_base(v)
        if is_glob(v) and v[1:] in s.P.funcs:
            s.slot.setdefault(k, set()).add(v[1:])


def fptr(P):
    if getattr(P, "_fptr", None) is None:
        P._fptr = Fptr(P)
    return P._fptr
