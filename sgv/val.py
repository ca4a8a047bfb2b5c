"""Value helpers shared by the analyses."""


def is_local(v):
    return isinstance(v, str) and v[:1] == "%"


def is_glob(v):
    return isinstance(v, str) and v[:1] == "@"


CASTS = {"sext", "zext", "trunc", "bitcast", "inttoptr", "ptrtoint", "freeze", "addrspacecast"}


def strip(f, v):
    """look through casts"""
    while is_local(v):
        d = f.defs.get(v)
        if d is None or d.op not in CASTS:
            return v
        v = d.ops[0]
    return v


def gep_path(P, g):
    """(struct, field) steps of a gep instruction: list of ('f',struct,name)/('i',value)"""
    steps = []
    ty = g.x
    idx = g.ops[1:]
    if not (isinstance(idx[0], int) and idx[0] == 0):
        steps.append(("i", idx[0]))
    for k in idx[1:]:
        if ty.startswith("%") and isinstance(k, int):
            steps.append(("f", ty, P.field(ty, k)))
            st = P.structs.get(ty)
            ty = st[k] if st else "?"
        elif ty.startswith("["):
            steps.append(("i", k))
            ty = ty.split(" x ", 1)[1][:-1]
        else:
            steps.append(("i", k)); ty = "?"
    return steps, ty


def ce_base(v):
    """global behind a constant expression pointer"""
    while isinstance(v, tuple) and v[0] == "ce":
        v = v[3][0]
    return v


def addr_root(f, v, depth=0):
    """the value an address is computed from through geps/casts only"""
    while True:
        if isinstance(v, tuple):
            return ce_base(v)
        if not is_local(v):
            return v
        d = f.defs.get(v)
        if d is None:
            return v
        if d.op == "gep" or d.op in CASTS:
            v = d.ops[0]; continue
        return v


def expr(P, f, v, depth=12, stop=None):
    """structural key of a value (loads keyed by address expression)"""
    if isinstance(v, (int, float)):
        return v
    if isinstance(v, tuple):
        return ("c", str(v))
    if is_glob(v):
        return v
    if stop and v in stop:
        return v
    d = f.defs.get(v)
    if d is None or depth <= 0:
        return v
    if d.op in ("sext", "zext", "freeze", "bitcast"):
        return expr(P, f, d.ops[0], depth, stop)
    if d.op == "load":
        return ("ld", expr(P, f, d.ops[0], depth - 1, stop))
    if d.op == "gep":
        st, _ = gep_path(P, d)
        r = expr(P, f, d.ops[0], depth - 1, stop)
        for s in st:
            if s[0] == "f":
                r = ("fld", r, s[2])
            else:
                r = ("idx", r, expr(P, f, s[1], depth - 1, stop))
        return r
    if d.op in ("add", "sub", "mul", "sdiv", "srem", "fadd", "fsub", "fmul", "fdiv", "shl"):
        a = expr(P, f, d.ops[0], depth - 1, stop); b = expr(P, f, d.ops[1], depth - 1, stop)
        if d.op in ("add", "mul", "fadd", "fmul") and str(a) > str(b):
            a, b = b, a
        return (d.op, a, b)
    return v


def pretty(e):
    if isinstance(e, tuple):
        if e[0] == "ld":
            return pretty(e[1])
        if e[0] == "fld":
            return pretty(e[1]) + "->" + e[2]
        if e[0] == "idx":
            return pretty(e[1]) + "[" + pretty(e[2]) + "]"
        if e[0] == "c":
            return "const"
        return "(" + (" %s " % {"add": "+", "sub": "-", "mul": "*"}.get(e[0], e[0])).join(pretty(x) for x in e[1:]) + ")"
    return str(e).lstrip("%@")


# ---------------------------------------------------------------- linear forms
class Lin(dict):
    """integer polynomial: {sorted tuple of atom names: coefficient}"""

    def __add__(a, b):
        r = Lin(a)
        for k, c in b.items():
            r[k] = r.get(k, 0) + c
            if r[k] == 0:
                del r[k]
        return r

    def scale(a, c):
        return Lin({k: v * c for k, v in a.items()}) if c else Lin()

    def mul(a, b):
        r = Lin()
        for k1, c1 in a.items():
            for k2, c2 in b.items():
                k = tuple(sorted(k1 + k2, key=str))
                r[k] = r.get(k, 0) + c1 * c2
                if r[k] == 0:
                    del r[k]
        return r

    def const(a):
        return a.get((), 0)


def lin(P, f, v, atom, depth=40):
    """polynomial over atoms; atom(value)->name or None to decompose further"""
    if isinstance(v, int):
        return Lin({(): v}) if v else Lin()
    if not is_local(v):
        return Lin({(str(v),): 1})
    a = atom(v)
    if a is not None:
        return Lin({(a,): 1})
    d = f.defs.get(v)
    if d is None or depth <= 0:
        return Lin({(v,): 1})
    if d.op in ("sext", "zext", "freeze", "trunc"):
        return lin(P, f, d.ops[0], atom, depth)
    if d.op == "add":
        return lin(P, f, d.ops[0], atom, depth - 1) + lin(P, f, d.ops[1], atom, depth - 1)
    if d.op == "sub":
        return lin(P, f, d.ops[0], atom, depth - 1) + lin(P, f, d.ops[1], atom, depth - 1).scale(-1)
    if d.op == "mul":
        return lin(P, f, d.ops[0], atom, depth - 1).mul(lin(P, f, d.ops[1], atom, depth - 1))
    if d.op == "shl" and isinstance(d.ops[1], int):
        return lin(P, f, d.ops[0], atom, depth - 1).scale(1 << d.ops[1])
    if d.op == "load":
        return Lin({(str(expr(P, f, v)),): 1})
    return Lin({(v,): 1})
