"""Counted loops and constant expansion of their iteration space."""
from .val import *
from .cfg import *

OPS = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "slt": lambda a, b: a < b, "sle": lambda a, b: a <= b,
       "sgt": lambda a, b: a > b, "sge": lambda a, b: a >= b, "ult": lambda a, b: a < b, "ule": lambda a, b: a <= b,
       "ugt": lambda a, b: a > b, "uge": lambda a, b: a >= b}


class Unknown(Exception):
    pass


class Nest:
    def __init__(s, P, f, cg=None):
        s.P = P; s.f = f; s.cg = cg or cfg_of(P, f)
        s.iv = {}           # header -> (phi name, init, next value, phi incoming)
        for h, body in s.cg.loops.items():
            ivs = []
            for I in f.blocks[h].instrs:
                if I.op != "phi":
                    break
                out = [(v, p) for v, p in zip(I.ops, I.x) if p not in body and p in s.cg.live]
                inn = [(v, p) for v, p in zip(I.ops, I.x) if p in body and p in s.cg.live]
                if len({str(v) for v, _ in out}) == 1 and len({str(v) for v, _ in inn}) == 1:
                    d = f.defs.get(inn[0][0]) if is_local(inn[0][0]) else None
                    if d is not None and d.op in ("add", "sub") and isinstance(d.ops[1], int) and d.ops[0] == I.name:
                        ivs.append((I.name, out[0][0], d.ops[1] if d.op == "add" else -d.ops[1], inn[0][0]))
            s.iv[h] = ivs

    def chain(s, b):
        """loop headers around b, outermost first"""
        hs = [h for h, body in s.cg.loops.items() if b in body]
        return sorted(hs, key=lambda h: -len(s.cg.loops[h]))

    def ev(s, v, env):
        """integer value of v under env (induction variables), or Unknown"""
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if v in env:
            return env[v]
        d = s.f.defs.get(v) if is_local(v) else None
        if d is None:
            raise Unknown(str(v))
        if d.op in ("sext", "zext", "trunc", "freeze"):
            return s.ev(d.ops[0], env)
        if d.op == "add":
            return s.ev(d.ops[0], env) + s.ev(d.ops[1], env)
        if d.op == "sub":
            return s.ev(d.ops[0], env) - s.ev(d.ops[1], env)
        if d.op == "mul":
            return s.ev(d.ops[0], env) * s.ev(d.ops[1], env)
        if d.op == "shl":
            return s.ev(d.ops[0], env) << s.ev(d.ops[1], env)
        if d.op in ("sdiv", "udiv"):
            a, b = s.ev(d.ops[0], env), s.ev(d.ops[1], env)
            if b == 0:
                raise Unknown("div")
            return int(a / b)
        if d.op in ("srem", "urem"):
            a, b = s.ev(d.ops[0], env), s.ev(d.ops[1], env)
            if b == 0:
                raise Unknown("rem")
            return a - b * int(a / b)
        if d.op == "icmp":
            return int(OPS[d.x](s.ev(d.ops[0], env), s.ev(d.ops[1], env)))
        if d.op == "select":
            return s.ev(d.ops[1] if s.ev(d.ops[0], env) else d.ops[2], env)
        if d.op == "and":
            return s.ev(d.ops[0], env) & s.ev(d.ops[1], env)
        if d.op == "xor":
            return s.ev(d.ops[0], env) ^ s.ev(d.ops[1], env)
        raise Unknown(d.op)

    def walk(s, start, stop, env, visit, cap=5000):
        """follow the only path through constant loops from block start until
        a block of `stop`, calling visit(instr, env); env: known values"""
        b = start; prev = None; n = 0
        f = s.f
        while True:
            if b in stop:
                return env
            n += 1
            if n > cap:
                raise Unknown("too long")
            ph = {}
            for I in f.blocks[b].instrs:
                if I.op == "phi":
                    for v, p in zip(I.ops, I.x):
                        if p == prev:
                            try:
                                ph[I.name] = s.ev(v, env)
                            except Unknown:
                                ph[I.name] = None
                else:
                    break
            for k, v in ph.items():
                if v is None:
                    env.pop(k, None)
                else:
                    env[k] = v
            for I in f.blocks[b].instrs:
                if I.op in ("phi", "br"):
                    continue
                visit(I, env)
            t = f.blocks[b].instrs[-1]
            ss = s.cg.succ[b]
            if not ss:
                return env
            prev = b
            if len(ss) == 1:
                b = ss[0]
            elif t.op == "br" and t.ops:
                b = t.x[0] if s.ev(t.ops[0], env) else t.x[1]
            else:
                raise Unknown("branch")


def const_table(P, f, base):
    """constant initial contents of a local or global array of strings/ints"""
    g = None
    if is_glob(base):
        g = P.glob(f, base[1:])
        if g is None or not g.const:
            # never stored to elsewhere is the caller's concern
            pass
    else:
        for I in f.instrs():
            if I.op == "call" and str(I.callee).startswith("@llvm.memcpy") and addr_root(f, I.ops[0]) == base:
                g = P.glob(f, addr_root(f, I.ops[1])[1:]) if is_glob(addr_root(f, I.ops[1])) else None
                break
    if g is None or not isinstance(g.init, tuple) or g.init[0] != "agg":
        return None
    out = []
    for x in g.init[1]:
        t = P.string(f, x) if not isinstance(x, int) else x
        out.append(t)
    return out
