"""P05: cached numeric/boolean forms of a parameter follow every text change."""
from sgv import ir
from sgv.val import *
from sgv.cfg import *
from sgv.flow import *
from sgv.report import Check

RULE = ("Every instruction that stores into, or writes through, the text field of a parameter record (including via callees that write "
        "through a pointer to it) must be followed on every path to the function's return - or, for helpers, to the caller's return - by a "
        "recomputation of both cached forms of the same record from its own text; the recomputations themselves must take their operand "
        "from that text.  Readers must return the cached field of the record they looked up.")


def pstruct(P):
    for s, fl in P.fields.items():
        if "numericalvalue" in fl and "booleanvalue" in fl and "value" in fl:
            return s
    return None


class A:
    def __init__(s, P, S):
        s.P = P; s.S = S; s.eff = effects(P)
        s.fn = {n: f for n, f in P.funcs.items()}

    def field_of(s, f, addr):
        """(record pointer value, field) if addr is &rec->field"""
        d = f.defs.get(addr) if is_local(addr) else None
        while d is not None and d.op == "gep":
            st, _ = gep_path(s.P, d)
            fl = [x for x in st if x[0] == "f" and x[1] == s.S]
            if fl:
                return (d, fl[0][2])
            d = f.defs.get(d.ops[0]) if is_local(d.ops[0]) else None
        return None

    def elem(s, f, cg, v, idx=0):
        """canonical (base, index polynomial) of a record pointer"""
        tot = s.poly(f, cg, idx) if not isinstance(idx, int) else Lin({(): idx} if idx else {})
        while True:
            d = f.defs.get(v) if is_local(v) else None
            if d is not None and d.op == "gep" and len(d.ops) == 2 and d.x == s.S:
                tot = tot + s.poly(f, cg, d.ops[1]); v = d.ops[0]; continue
            if d is not None and d.op in CASTS:
                v = d.ops[0]; continue
            break
        if is_local(v) and f.defs.get(v) is not None and f.defs[v].op == "load" and is_glob(f.defs[v].ops[0]):
            v = f.defs[v].ops[0]
        return (str(v), tuple(sorted((k, c) for k, c in tot.items())))

    def poly(s, f, cg, v, n=0):
        def atom(x):
            d = f.defs.get(x)
            if d is not None and d.op == "load" and is_glob(d.ops[0]):
                st = reaching_store(s.P, f, cg, d, s.eff)
                if st is not None and n < 6:
                    return None if is_local(st.ops[0]) else str(st.ops[0])
                return x
            if d is not None and d.op == "phi":
                return x
            return None
        # substitute global loads by their reaching store
        def go(x, depth=0):
            if isinstance(x, int):
                return Lin({(): x}) if x else Lin()
            d = f.defs.get(x) if is_local(x) else None
            if d is None or depth > 12:
                return Lin({(str(x),): 1})
            if d.op in ("sext", "zext", "trunc", "freeze"):
                return go(d.ops[0], depth)
            if d.op == "add":
                return go(d.ops[0], depth + 1) + go(d.ops[1], depth + 1)
            if d.op == "sub":
                return go(d.ops[0], depth + 1) + go(d.ops[1], depth + 1).scale(-1)
            if d.op == "load" and is_glob(d.ops[0]):
                st = reaching_store(s.P, f, cg, d, s.eff)
                if st is not None:
                    return go(st.ops[0], depth + 1)
            return Lin({(x,): 1})
        return go(v)


def text_of(a, f, cg, v, n=0):
    """record element whose text a value is computed from, or None"""
    if not is_local(v) or n > 12:
        return None
    d = f.defs.get(v)
    if d is None:
        return None
    if d.op in CASTS or d.op in ("sitofp", "fptosi"):
        return text_of(a, f, cg, d.ops[0], n + 1)
    if d.op == "load":
        r = a.field_of(f, d.ops[0])
        if r and r[1] == "value":
            return a.elem(f, cg, r[0].ops[0], r[0].ops[1])
    return None


def conv_src(a, f, cg, v, funcs, seen=None):
    """every leaf is a constant or conversion/search of one record's text:
    set of elements, or None when something else flows in"""
    seen = seen or set()
    if v in seen:
        return set()
    seen.add(v)
    if isinstance(v, (int, float)):
        return set()
    d = f.defs.get(v) if is_local(v) else None
    if d is None:
        return None
    if d.op in CASTS or d.op in ("sitofp", "fptosi"):
        return conv_src(a, f, cg, d.ops[0], funcs, seen)
    if d.op in ("phi", "select"):
        r = set()
        for o in (d.ops if d.op == "phi" else d.ops[1:]):
            x = conv_src(a, f, cg, o, funcs, seen)
            if x is None:
                return None
            r |= x
        return r
    if d.op == "call" and is_glob(d.callee) and d.callee[1:] in funcs:
        e = text_of(a, f, cg, d.ops[0])
        return {e} if e else None
    return None


import re


def reader_sources(P, a, f):
    """leaves the returned number is computed from"""
    leaves = []; seen = set()
    st = [(I.ops[0], I) for I in f.instrs() if I.op == "ret" and I.ops]
    while st:
        v, at = st.pop()
        if v in seen or not is_local(v):
            continue
        seen.add(v)
        d = f.defs.get(v)
        if d is None:
            continue
        if d.op == "phi" or d.op in CASTS or d.op in ("select", "add", "sub", "mul", "fadd", "fsub", "fmul", "fdiv", "fneg", "freeze", "or", "and", "xor", "sitofp", "fptosi", "fpext", "fptrunc"):
            for o in (d.ops[1:] if d.op == "select" else d.ops):
                st.append((o, d))
            continue
        leaves.append(d)
    return leaves


def values(c, P, a):
    """what a read by name returns is computed in that very call; a number stored by name can be read back unchanged"""
    S = a.S
    k = P.fields[S].index("value")
    look = set()      # functions returning a record of the table, or its index, for a name
    for f in P.funcs.values():
        if any(I.op == "call" and I.callee == "@strcmp" for I in f.instrs()) and any(I.op == "gep" and I.x == S for I in f.instrs()) and f.params and not any(I.op == "store" and a.field_of(f, I.ops[1]) for I in f.instrs()):
            look.add(f.name)
    for _ in range(2):
        for f in P.funcs.values():
            if f.name in look or f.ret != "ptr":
                continue
            for I in f.instrs():
                h = P.body(I.callee, f) if I.op == "call" and is_glob(I.callee) else None
                if h is not None and h.name in look and any(o in f.params for o in I.ops) and any(J.op == "gep" and J.x == S for J in f.instrs()) \
                        and not any(J.op == "load" and a.field_of(f, J.ops[0]) for J in f.instrs()):
                    look.add(f.name)
    readers = set()
    for f in P.funcs.values():
        if f.name in look or f.ret == "void" or f.ret == "ptr" or not f.params:
            continue
        cs = [I for I in f.instrs() if I.op == "call" and is_glob(I.callee) and P.body(I.callee, f) is not None and P.body(I.callee, f).name in look and any(o in f.params for o in I.ops)]
        fl = [J for J in f.instrs() if J.op == "load" and a.field_of(f, J.ops[0])]
        if not cs or not fl:
            continue
        readers.add(f.name)
        c.count("reads by name")
        for d in reader_sources(P, a, f):
            if d.op == "load" and is_glob(d.ops[0]):
                c.violation("%s remembered" % f.name, where(d, f), "%s can return a number kept from an earlier call instead of the one the text holds now" % f.name)
                break
            if d.op == "load" and is_local(d.ops[0]) and is_glob(addr_root(f, d.ops[0])) and not a.field_of(f, d.ops[0]):
                c.violation("%s remembered" % f.name, where(d, f), "%s can return a number kept from an earlier call instead of the one the text holds now" % f.name)
                break
            if d.op == "call" and d.callee in ("@atoi", "@atol", "@strtol") and f.ret == "double":
                c.violation("%s integer" % f.name, where(d, f), "%s reads only the integer part of the text" % f.name)
                break
    # setters
    setter = {}
    for f in P.funcs.values():
        if a.S is None:
            break
        for I in f.instrs():
            if I.op == "store":
                r = a.field_of(f, I.ops[1])
                d = f.defs.get(strip(f, I.ops[0])) if is_local(I.ops[0]) else None
                if r and r[1] == "value" and d is not None and d.op == "call" and d.callee == "@strdup" and d.ops[0] in f.params:
                    setter.setdefault(f.name, set()).add(f.params.index(d.ops[0]))
    for _ in range(3):
        for f in P.funcs.values():
            for I in f.instrs():
                h = P.body(I.callee, f) if I.op == "call" and is_glob(I.callee) else None
                for q in setter.get(h.name, ()) if h is not None else ():
                    if q < len(I.ops) and I.ops[q] in f.params:
                        setter.setdefault(f.name, set()).add(f.params.index(I.ops[q]))
    for f in P.funcs.values():
        num = [p for p, t in zip(f.params, f.ptypes) if t in ("double", "float", "i32", "i64")]
        if not num or len(f.params) < 2:
            continue
        for I in list(f.instrs()):
            h = P.body(I.callee, f) if I.op == "call" and is_glob(I.callee) else None
            if h is None or h.name not in setter or not any(o in f.params for o in I.ops):
                continue
            for q in setter[h.name]:
                if q >= len(I.ops) or not is_local(I.ops[q]):
                    continue
                buf = addr_root(f, I.ops[q])
                for J in f.instrs():
                    if J.op != "call" or J.callee not in ("@sprintf", "@snprintf", "@__sprintf_chk", "@__snprintf_chk") or addr_root(f, J.ops[0]) != buf:
                        continue
                    k2 = {"@sprintf": 1, "@snprintf": 2, "@__sprintf_chk": 3, "@__snprintf_chk": 4}[J.callee]
                    fmt = P.string(f, J.ops[k2])
                    ar = J.ops[k2 + 1:]
                    if fmt is None or len(ar) != 1 or strip(f, ar[0]) not in num:
                        continue
                    c.count("numbers stored by name")
                    t = f.ptypes[f.params.index(strip(f, ar[0]))]
                    m = re.fullmatch(r"\s*%([-+ 0#]*)(\d*)(?:\.(\d+))?(?:l|ll)?([a-zA-Z])\s*", fmt)
                    if not m:
                        continue
                    pr, cv = m.group(3), m.group(4)
                    n = int(pr) if pr else 6
                    if t in ("double", "float"):
                        ok = cv in "aA" and pr is None or cv in "eE" and n >= 16 or cv in "gG" and n >= 17
                    else:
                        ok = cv in "di" 
                    if not ok:
                        c.violation("%s digits" % f.name, where(J, f), "%s writes the number as \"%s\", which does not give the same number back when it is read" % (f.name, fmt))


def run(tier):
    c = Check("P05", tier, RULE)
    for which in ("main", "alt") if tier == "thorough" else ("main",):
        P = ir.load(which, "seq")
        one(c, P)
        values(c, P, A(P, pstruct(P)))
    c.floor("parameter text writes", 3)
    c.floor("cache recomputations", 4)
    c.floor("cache readers", 2)
    c.assume.append("parameter records are only reached through their declared type")
    return c


def one(c, P):
    S = pstruct(P)
    c.require(S, "the parameter record type with its cached fields")
    a = A(P, S)
    CONV = {"numericalvalue": {"atof", "strtod"}, "booleanvalue": {"atoi", "strtol", "atol", "strtod", "atof"}}
    # ---- refresh summaries: fname -> set of (kind, param, index: int or ('p',k))
    refresh = {}
    events = {}       # fname -> list of (instr, kind 'W'/'R', field, elem)
    fns = [f for f in P.funcs.values()]

    def sub(f, cg, I, e):
        """callee element (base param k, index) as caller element"""
        k, idx = e
        base = I.ops[k]
        if isinstance(idx, tuple):
            return a.elem(f, cg, base, I.ops[idx[1]])
        return a.elem(f, cg, base, idx)

    def as_param(f, el):
        base, poly = el
        if base not in f.params:
            return None
        k = f.params.index(base)
        if not poly:
            return (k, 0)
        if len(poly) == 1:
            (key, cf) = poly[0]
            if key == ():
                return (k, cf)
            if len(key) == 1 and key[0] in f.params and cf == 1:
                return (k, ("p", f.params.index(key[0])))
        return None
    # functions that write through a (char*) or (char**) parameter pointing at text
    stale = {}
    for rnd in range(6):
        before = (str(refresh), str(stale))
        for f in fns:
            cg = cfg_of(P, f)
            ev = []; empty = set(); copies = set()
            for b in cg.rpo:
                for I in f.blocks[b].instrs:
                    if I.op == "store":
                        r = a.field_of(f, I.ops[1])
                        if r:
                            el = a.elem(f, cg, r[0].ops[0], r[0].ops[1])
                            if r[1] == "value":
                                if strip(f, I.ops[0]) == "null":
                                    empty.add(el)
                                else:
                                    ev.append((I, "W", None, el))
                                    d = f.defs.get(strip(f, I.ops[0])) if is_local(I.ops[0]) else None
                                    if d is not None and d.op == "call" and d.callee == "@strdup":
                                        e2 = text_of(a, f, cg, d.ops[0])
                                        if e2:
                                            copies.add((el, e2))
                            elif r[1] in CONV:
                                src = conv_src(a, f, cg, I.ops[0], CONV[r[1]])
                                if src is not None and src == {el}:
                                    k = "R"
                                else:
                                    k = "X"
                                    d = f.defs.get(strip(f, I.ops[0])) if is_local(I.ops[0]) else None
                                    r2 = a.field_of(f, d.ops[0]) if d is not None and d.op == "load" else None
                                    if r2 and r2[1] == r[1]:
                                        k = ("C", a.elem(f, cg, r2[0].ops[0], r2[0].ops[1]))
                                ev.append((I, k, r[1], el))
                        else:
                            # writing characters of the text in place
                            rt = addr_root(f, I.ops[1])
                            e = text_of(a, f, cg, rt)
                            if e:
                                ev.append((I, "W", None, e))
                    elif I.op == "call" and is_glob(I.callee):
                        h = P.body(I.callee, f)
                        n = I.callee[1:]
                        if h is None:
                            for k in EXT_WRITES(n, len(I.ops)):
                                if n.startswith("llvm.") and len(I.ops) > k:
                                    pass
                                e = text_of(a, f, cg, addr_root(f, I.ops[k]))
                                if e:
                                    ev.append((I, "W", None, e))
                                    if n in ("strcpy", "memcpy", "strncpy") or n.startswith("llvm.mem"):
                                        e2 = text_of(a, f, cg, addr_root(f, I.ops[1])) if is_local(I.ops[1]) else None
                                        if e2:
                                            copies.add((e, e2))
                            continue
                        hn = a.eff.nm(h)
                        for k, o in enumerate(I.ops):
                            r = a.field_of(f, o) if is_local(o) else None
                            if r and r[1] == "value" and k in a.eff.pd.get(hn, ()):
                                ev.append((I, "W", None, a.elem(f, cg, r[0].ops[0], r[0].ops[1])))
                            else:
                                e = text_of(a, f, cg, o) if is_local(o) else None
                                if e and k in a.eff.p.get(hn, ()):
                                    ev.append((I, "W", None, e))
                        for (fld, e) in sorted(refresh.get(hn, ()), key=str):
                            ev.append((I, "R", fld, sub(f, cg, I, e)))
                        for e in sorted(stale.get(hn, ()), key=str):
                            ev.append((I, "W", None, sub(f, cg, I, e)))
            # copying text and cache from one record is coherent; an empty
            # record has no text to agree with
            ev = [(I, "R" if (isinstance(k, tuple) and (el, k[1]) in copies) or
                   (k == "X" and el in empty and isinstance(I.ops[0], (int, float))) else
                   ("X" if isinstance(k, tuple) else k), fl, el) for I, k, fl, el in ev]
            events[f.name] = (f, cg, ev)
            if not ev:
                continue
            # summary: refreshes made on every path
            rs = set()
            for I, k, fld, el in ev:
                if k == "R":
                    e = as_param(f, el)
                    if e is None:
                        continue
                    sites = {J for J, kk, ff, ee in ev if kk == "R" and ff == fld and ee == el}
                    first = f.entry.instrs[0]
                    if first in sites or must_follow(cg, first, lambda J: J in sites) is None:
                        rs.add((fld, e))
            refresh[a.eff.nm(f)] = rs
            # stale summary
            st = set()
            for I, k, fld, el in ev:
                if k != "W":
                    continue
                e = as_param(f, el)
                if e is None or not P.callers.get(f.name):
                    continue
                for fl in CONV:
                    sites = {J for J, kk, ff, ee in ev if kk == "R" and ff == fl and ee == el}
                    if must_follow(cg, I, lambda J: J in sites) is not None:
                        st.add(e)
            stale[a.eff.nm(f)] = st
        if before == (str(refresh), str(stale)):
            break
    for f, cg, ev in events.values():
        for I, k, fld, el in ev:
            if k == "W":
                c.count("parameter text writes")
                c.sample("text write in %s at %s" % (f.name, where(I, f)))
                if as_param(f, el) and as_param(f, el) in stale.get(a.eff.nm(f), ()):
                    continue        # the callers answer for it
                for fl in CONV:
                    sites = {J for J, kk, ff, ee in ev if kk == "R" and ff == fl and ee == el}
                    if must_follow(cg, I, lambda J: J in sites) is not None:
                        c.violation("%s|%s stale" % (f.name, fl), where(I, f),
                                    "%s changes a parameter's text but can return without recomputing its %s from it"
                                    % (f.name, fl))
            elif k == "R":
                c.count("cache recomputations")
            elif k == "X":
                c.violation("%s|%s source" % (f.name, fld), where(I, f),
                            "%s sets a parameter's cached %s to something other than the conversion of that parameter's own text" % (f.name, fld))
        # readers
        for I in f.instrs():
            if I.op == "load":
                r = a.field_of(f, I.ops[0])
                if r and r[1] in CONV and I.blk in cg.live:
                    c.count("cache readers")
