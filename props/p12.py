"""P12: formats agree with what is printed or read."""
import re
from sgv import ir
from sgv.val import *
from sgv.cfg import *
from sgv.report import Check
from sgv.strval import strings, A, D

RULE = ("For every call of a printf- or scanf-like function - including the program's own functions that hand a parameter on as format - with a "
        "known format text, each conversion is matched with the compiler's type of the argument it consumes: number of arguments, integer "
        "width, floating or pointer; for reading, the type of the object the pointer addresses, and a field width for text read into a "
        "buffer of known size.")

PF = {"printf": 0, "fprintf": 1, "sprintf": 1, "snprintf": 2, "dprintf": 1, "vprintf": None}
SF = {"scanf": 0, "fscanf": 1, "sscanf": 1, "__isoc99_sscanf": 1, "__isoc99_fscanf": 1, "__isoc99_scanf": 0,
      "__isoc23_sscanf": 1, "__isoc23_fscanf": 1, "__isoc23_scanf": 0}
CONV = re.compile(r"%(?:(%)|([-+ #0']*)(\*|\d+)?(?:\.(\*|-?\d+)?)?(hh|h|ll|l|L|q|j|z|t)?([diouxXcsfFeEgGaApnm]|\[[^\]]*\]))")


def convs(fmt):
    """[(kind, len, width, star?)] or None when malformed"""
    out = []; k = 0
    while True:
        i = fmt.find("%", k)
        if i < 0:
            return out
        m = CONV.match(fmt, i)
        if not m:
            return None
        k = m.end()
        if m.group(1):
            continue
        out.append((m.group(6), m.group(5) or "", m.group(3), m.group(4)))


def want_types(cv):
    t = []
    for k, ln, w, p in cv:
        if w == "*":
            t.append(("i32",))
        if p == "*":
            t.append(("i32",))
        if k in "diouxX":
            t.append(("i64",) if ln in ("l", "ll", "q", "j", "z", "t") else ("i32",))
        elif k == "c":
            t.append(("i32",))
        elif k in "fFeEgGaA":
            t.append(("x86_fp80", "fp128") if ln == "L" else ("double",))
        else:
            t.append(("ptr",))
    return t


def run(tier):
    c = Check("P12", tier, RULE)
    done = set()
    for which in ("main", "alt"):
        one(c, ir.load(which, "seq"), done)
    c.floor("format calls checked", 1500)
    c.floor("read calls checked", 8)
    return c


def one(c, P, done):
    S = strings(P)
    # functions that pass a parameter on as format: name -> (fmt index, [param index or type])
    wrap = {}
    ch = True
    while ch:
        ch = False
        for f in P.funcs.values():
            if f.name in wrap:
                continue
            for I in f.instrs():
                r = fmt_of(I, wrap)
                if r is None or r[0] >= len(I.ops):
                    continue
                k, args, scan = r
                v = strip(f, I.ops[k])
                if v in f.params and not scan:
                    # arguments of the inner call that are parameters
                    a = []
                    for o in args(I):
                        w = strip(f, o)
                        a.append(f.params.index(w) if w in f.params else None)
                    wrap[f.name] = (f.params.index(v), a); ch = True
                    break
    c.count("format forwarding functions", len(wrap))
    for f in P.funcs.values():
        cg = cfg_of(P, f)
        for I in f.instrs():
            r = fmt_of(I, wrap)
            if r is None or I.blk not in cg.live:
                continue
            k, args, scan = r
            if k >= len(I.ops):
                continue
            if strip(f, I.ops[k]) in f.params and f.name in wrap:
                continue
            fm = P.string(f, I.ops[k])
            fms = [fm] if fm is not None else [p for p in S.pats(f, I, I.ops[k])]
            idk = (f.src, f.name, I.loc and I.loc[1:], I.idx, I.blk)
            for fmt in fms:
                if A in fmt or D in fmt:
                    c.count("formats of unknown text")
                    continue
                ops = args(I)
                tys = argtypes(I, ops)
                cv = convs(fmt)
                fn = f.name
                what = fmt.strip().replace("\n", "\\n")
                key = "%s|%s" % (fn, what[:60])
                if cv is None:
                    c.violation(key, where(I, f), "%s uses the malformed format \"%s\"" % (fn, what)); continue
                if scan:
                    if idk not in done:
                        c.count("read calls checked")
                    scan_check(c, P, f, I, cv, ops, key, what)
                else:
                    if idk not in done:
                        c.count("format calls checked")
                    w = want_types(cv)
                    if len(w) > len(tys):
                        c.violation(key, where(I, f), "%s: format \"%s\" needs %d arguments, %d are given" % (fn, what, len(w), len(tys))); continue
                    if len(tys) > len(w) and not (I.callee[1:] in wrap):
                        c.violation(key, where(I, f), "%s: format \"%s\" uses only %d of %d arguments" % (fn, what, len(w), len(tys))); continue
                    for n, (a, b) in enumerate(zip(w, tys)):
                        if b is None:
                            continue
                        if b not in a:
                            c.violation(key, where(I, f), "%s: format \"%s\": argument %d has type %s, the conversion expects %s" % (fn, what, n + 1, b, a[0]))
                            break
            done.add(idk)
    c.sample("forwarders: " + ", ".join(sorted(wrap)[:8]))


def fmt_of(I, wrap):
    if I.op != "call" or not is_glob(I.callee):
        return None
    n = I.callee[1:]
    if PF.get(n) is not None:
        k = PF[n]
        return k, (lambda J: J.ops[k + 1:]), False
    if n in SF:
        k = SF[n]
        return k, (lambda J: J.ops[k + 1:]), True
    if n in wrap:
        k, a = wrap[n]
        return k, (lambda J: [J.ops[x] if x is not None and x < len(J.ops) else None for x in a]), False
    return None


def argtypes(I, ops):
    out = []
    at = I.x["atys"]
    for o in ops:
        t = None
        if o is not None:
            for x, y in zip(I.ops, at):
                if x is o:
                    t = y
                    break
        out.append(t)
    # identity lookup fails for equal small ints; use positions when possible
    if ops and I.ops[-len(ops):] == ops and None not in ops:
        out = list(at[-len(ops):])
    return [t.split()[0] if t else None for t in out]


def scan_check(c, P, f, I, cv, ops, key, what):
    need = [x for x in cv]
    real = [x for x in need if x[2] != "*"]
    if len(real) != len(ops):
        c.violation(key, where(I, f), "%s: reading with \"%s\" stores %d values but %d addresses are given" % (f.name, what, len(real), len(ops)))
        return
    for n, ((k, ln, w, _), o) in enumerate(zip(real, ops)):
        t, size = pointee(P, f, o)
        if k in "diouxXn":
            exp = {"l": "i64", "ll": "i64", "h": "i16", "hh": "i8", "": "i32", "z": "i64", "j": "i64"}.get(ln)
        elif k in "fFeEgGaA":
            exp = {"l": "double", "": "float", "L": "x86_fp80"}.get(ln)
        elif k == "p":
            exp = "ptr"
        else:
            exp = "i8"
            if t == "i8" and size is not None and k != "c" and not source_fits(P, f, I, size):
                if w is None:
                    c.violation(key, where(I, f), "%s: \"%s\" reads text of any length into %d bytes" % (f.name, what, size))
                elif int(w) + 1 > size:
                    c.violation(key, where(I, f), "%s: \"%s\" may store %d bytes into %d" % (f.name, what, int(w) + 1, size))
        if t is not None and exp is not None and t != exp:
            c.violation(key, where(I, f), "%s: \"%s\" stores a %s through the address of a %s" % (f.name, what, exp, t))


def source_fits(P, f, I, size):
    """sscanf from a buffer no larger than the destination"""
    if "sscanf" not in I.callee:
        return False
    t, n = pointee(P, f, addr_root(f, I.ops[0]) if is_local(I.ops[0]) else I.ops[0])
    return t == "i8" and n is not None and n > 1 and n <= size


def pointee(P, f, o):
    """(element type, size in elements or None)"""
    d = f.defs.get(o) if is_local(o) else None
    if is_glob(o):
        g = P.glob(f, o[1:])
        return elem(g.ty) if g is not None else (None, None)
    if d is None:
        return None, None
    if d.op == "alloca":
        return elem(d.x if isinstance(d.x, str) else d.ty)
    if d.op == "gep":
        t = d.x
        if len(d.ops) == 2:
            # decayed array: gep [N x T], p, 0, 0 is printed with 3 operands
            b = f.defs.get(d.ops[0]) if is_local(d.ops[0]) else None
            if isinstance(t, str) and t in ("i8", "i32", "i64", "double", "float", "ptr"):
                return t, None
            return None, None
        st, ty = gep_path(P, d)
        e = elem(ty) if ty else (None, None)
        m = re.match(r"\[(\d+) x (\w+)\]$", t or "")
        if m and len(d.ops) == 3 and d.ops[1] == 0 and isinstance(d.ops[2], int):
            return m.group(2), int(m.group(1)) - d.ops[2]
        return e
    return None, None


def elem(t):
    if not t:
        return None, None
    m = re.match(r"\[(\d+) x (\w+)\]$", t)
    if m:
        return m.group(2), int(m.group(1))
    if t in ("i8", "i16", "i32", "i64", "double", "float", "ptr", "x86_fp80"):
        return t, 1
    return None, None
