"""A reader for textual LLVM IR (the subset clang emits for C at -O0).

Values are represented as
    '%x'            local SSA value / argument / block
    '@g'            global
    int, float      constants
    'null','undef','poison','zeroinit','none'
    ('ce', op, type, [values...])   constant expression
    ('agg', [values]) / ('str', bytes)   aggregate initialisers
    ('md', text)    metadata operand
Types are plain strings ('i32','ptr','double','%struct.tGRID','[3 x double]').
"""
import math, re, os, sys, pickle, struct
from concurrent.futures import ProcessPoolExecutor

TOK = re.compile(r'''\s*(
    [%@](?:"(?:[^"\\]|\\.)*"|[-$\w.]+)
  | c"(?:[^"\\]|\\.)*" | "(?:[^"\\]|\\.)*"
  | !\w+ | ! | \#\d+
  | -?\d+\.\d*(?:[eE][-+]?\d+)? | 0x[KHLMR]?[0-9A-Fa-f]+ | -?\d+
  | [A-Za-z_$.][-\w.$]*:? | \.\.\. | <\{ | \}> | [()\[\]{}<>,=*|:]
)''', re.X)


class Instr:
    __slots__ = ("op", "name", "ty", "ops", "x", "loc", "blk", "idx", "fn")

    def __init__(s, op, name=None, ty=None, ops=(), x=None):
        s.op = op; s.name = name; s.ty = ty; s.ops = list(ops); s.x = x
        s.loc = None; s.blk = None; s.idx = -1; s.fn = None

    def __repr__(s):
        return "<%s%s %s %s>" % ((s.name + "=") if s.name else "", s.op, s.ty, s.ops)

    # call helpers
    @property
    def callee(s):
        return s.x["callee"] if s.op in ("call", "invoke") else None


class Block:
    __slots__ = ("name", "instrs", "succs", "preds")

    def __init__(s, name):
        s.name = name; s.instrs = []; s.succs = []; s.preds = []

    def __repr__(s):
        return "<bb %s>" % s.name


class Func:
    def __init__(s):
        s.name = None; s.ret = None; s.params = []; s.ptypes = []; s.blocks = {}
        s.order = []; s.internal = False; s.src = None; s.module = None
        s.vararg = False; s.dbg = None; s.line = 0; s.lfile = None
        s._defs = None; s._uses = None

    @property
    def entry(s):
        return s.blocks[s.order[0]]

    def instrs(s):
        for b in s.order:
            for i in s.blocks[b].instrs:
                yield i

    @property
    def defs(s):
        if s._defs is None:
            s._defs = {i.name: i for i in s.instrs() if i.name}
        return s._defs

    @property
    def uses(s):
        if s._uses is None:
            u = {}
            for i in s.instrs():
                for o in set(x for x in flat(i.ops)):
                    u.setdefault(o, []).append(i)
            s._uses = u
        return s._uses

    def __getstate__(s):
        d = dict(s.__dict__); d["_defs"] = None; d["_uses"] = None
        return d

    def __repr__(s):
        return "<fn %s>" % s.name


def flat(ops):
    for o in ops:
        if isinstance(o, str):
            if o and o[0] in "%@":
                yield o
        elif isinstance(o, tuple) and o and o[0] == "ce":
            yield from flat(o[3])
        elif isinstance(o, tuple) and o and o[0] == "agg":
            yield from flat(o[1])


class Global:
    __slots__ = ("name", "ty", "init", "const", "linkage", "src", "decl")


class Module:
    def __init__(s):
        s.src = None; s.mod = None
        s.structs = {}      # '%struct.x' -> [types]
        s.globals = {}
        s.funcs = {}
        s.decls = {}        # name -> (ret, [types], vararg)
        s.fields = {}       # '%struct.x' -> [names]
        s.locs = None


class P:
    """token stream"""
    __slots__ = ("t", "i")

    def __init__(s, text):
        s.t = TOK.findall(text); s.i = 0

    def peek(s, k=0):
        j = s.i + k
        return s.t[j] if j < len(s.t) else ""

    def next(s):
        v = s.t[s.i]; s.i += 1
        return v

    def eat(s, v):
        if s.i < len(s.t) and s.t[s.i] == v:
            s.i += 1
            return True
        return False

    def expect(s, v):
        if not s.eat(v):
            raise SyntaxError("expected %r at %r" % (v, s.t[max(0, s.i - 5):s.i + 8]))

    def type(s):
        t = s.next()
        if t == "[":
            n = s.next(); s.expect("x"); e = s.type(); s.expect("]")
            r = "[%s x %s]" % (n, e)
        elif t == "<":
            n = s.next(); s.expect("x"); e = s.type(); s.expect(">")
            r = "<%s x %s>" % (n, e)
        elif t in ("{", "<{"):
            l = []
            close = "}" if t == "{" else "}>"
            while not s.eat(close):
                l.append(s.type()); s.eat(",")
            r = "{" + ", ".join(l) + "}"
        elif t == "ptr":
            r = t
            if s.peek() == "addrspace":
                s.i += 4
        else:
            r = t
        # function type
        if s.peek() == "(" :
            s.i += 1
            l = []
            while not s.eat(")"):
                if s.eat("..."):
                    l.append("...")
                else:
                    l.append(s.type())
                    # skip parameter attributes
                    while s.peek() not in (",", ")"):
                        s.i += 1
                s.eat(",")
            r = r + " (" + ", ".join(l) + ")"
        return r

    def value(s, ty):
        t = s.next()
        c = t[0]
        if c in "%@":
            return unq(t)
        if t in ("null", "undef", "poison", "none"):
            return t
        if t == "zeroinitializer":
            return "zeroinit"
        if t == "true":
            return 1
        if t == "false":
            return 0
        if c.isdigit() or (c == "-" and len(t) > 1):
            if ty in ("double", "float", "x86_fp80", "half", "fp128"):
                return parse_float(t, ty)
            if t.startswith("0x"):
                return parse_float(t, ty)
            return int(t)
        if c == "c" and t[1:2] == '"':
            return ("str", cstr(t[2:-1]))
        if t in ("[", "{", "<", "<{"):
            close = {"[": "]", "{": "}", "<": ">", "<{": "}>"}[t]
            l = []
            if t == "<" and s.peek() == "{":
                pass
            while not s.eat(close):
                et = s.type(); l.append(s.value(et)); s.eat(",")
            return ("agg", l)
        if t in ("getelementptr", "bitcast", "inttoptr", "ptrtoint", "trunc",
                 "sub", "add", "mul", "xor", "and", "or", "shl", "lshr",
                 "icmp", "fcmp", "select", "sext", "zext", "addrspacecast"):
            extra = None
            while s.peek() in ("inbounds", "nuw", "nsw", "exact", "inrange"):
                s.i += 1
            if t in ("icmp", "fcmp"):
                extra = s.next()
            s.expect("(")
            if t == "getelementptr":
                base = s.type(); s.expect(",")
                extra = base
            ops = []
            while not s.eat(")"):
                if s.eat("to"):
                    extra = s.type(); continue
                while s.peek() == "inrange":
                    s.i += 1
                et = s.type(); ops.append(s.value(et)); s.eat(",")
            return ("ce", t, extra, ops)
        if t == "metadata" or c == "!":
            return ("md", t)
        if t == "asm":
            return ("asm",)
        if t in ("blockaddress", "dso_local_equivalent", "no_cfi"):
            return ("other", t)
        raise SyntaxError("value %r" % t)


def unq(t):
    if t[1:2] == '"':
        return t[0] + t[2:-1]
    return t


def cstr(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92); i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out += s[i].encode("utf-8", "surrogateescape"); i += 1
    return bytes(out)


def parse_float(t, ty):
    if t.startswith("0x"):
        if t[2] == "K":
            b = int(t[3:], 16)
            e = (b >> 64) & 0x7fff; m = b & (1 << 64) - 1
            if e < 0x7fff:
                try:
                    v = math.ldexp(m, e - 16383 - 63)
                except OverflowError:
                    v = math.inf
                return -v if b >> 79 else v
        if t[2] in "KHLMR":
            return float("nan")
        return struct.unpack(">d", bytes.fromhex(t[2:].rjust(16, "0")))[0]
    return float(t)


BIN = {"add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "fadd", "fsub", "fmul",
       "fdiv", "frem", "shl", "lshr", "ashr", "and", "or", "xor"}
CAST = {"sext", "zext", "trunc", "sitofp", "uitofp", "fptosi", "fptoui", "fpext",
        "fptrunc", "bitcast", "inttoptr", "ptrtoint", "addrspacecast"}
SKIPW = {"nuw", "nsw", "exact", "inbounds", "fast", "nnan", "ninf", "nsz", "arcp",
         "contract", "afn", "reassoc", "volatile", "disjoint", "nneg"}
PATTR = {"noundef", "nonnull", "noalias", "signext", "zeroext", "inreg", "nocapture",
         "readonly", "readnone", "writeonly", "returned", "immarg", "noreturn",
         "allocptr", "allocalign", "nofree", "swiftself", "inalloca", "dead_on_unwind", "writable", "noext"}
PATTRP = {"align", "dereferenceable", "dereferenceable_or_null", "byval", "sret",
          "elementtype", "byref", "preallocated", "nofpclass", "range"}


def skip_pattrs(p):
    while True:
        t = p.peek()
        if t in PATTR:
            p.i += 1
        elif t in PATTRP:
            p.i += 1
            if p.peek() == "(":
                depth = 0
                while True:
                    v = p.next()
                    if v == "(":
                        depth += 1
                    elif v == ")":
                        depth -= 1
                        if depth == 0:
                            break
            elif t == "align":
                p.i += 1
        else:
            return


DBG = re.compile(r", !dbg !(\d+)")
MDTAIL = re.compile(r"(, ![\w.]+ !\d+)+\s*$")


def parse_instr(line):
    m = DBG.search(line)
    loc = int(m.group(1)) if m else None
    line = MDTAIL.sub("", line)
    p = P(line)
    name = None
    if p.peek()[:1] == "%" and p.peek(1) == "=":
        name = unq(p.next()); p.i += 1
    op = p.next()
    if op in ("tail", "musttail", "notail"):
        op = p.next()
    I = None
    if op == "call" or op == "invoke":
        while p.peek() in SKIPW or p.peek() in ("fastcc", "ccc", "coldcc"):
            p.i += 1
        skip_pattrs(p)
        ty = p.type()
        # p.type() swallowed a function type if present: 'i32 (ptr, ...)'
        ret = ty.split(" (")[0] if " (" in ty and not ty.startswith("{") else ty
        callee = p.value("ptr")
        if callee == ("asm",):
            return Instr("asm", name, ret, [], None), loc
        p.expect("(")
        args = []; atys = []
        while not p.eat(")"):
            if p.peek() == "metadata":
                # skip metadata operand
                p.i += 1
                depth = 0
                toks = []
                while not (depth == 0 and p.peek() in (",", ")")):
                    v = p.next(); toks.append(v)
                    if v in ("(", "{"):
                        depth += 1
                    elif v in (")", "}"):
                        depth -= 1
                args.append(("md", " ".join(toks))); atys.append("metadata")
            else:
                t = p.type(); skip_pattrs(p)
                args.append(p.value(t)); atys.append(t)
            p.eat(",")
        x = {"callee": callee, "atys": atys}
        I = Instr(op, name, ret, args, x)
        if op == "invoke":
            rest = p.t[p.i:]
            labs = [unq(rest[k + 1]) for k in range(len(rest) - 1) if rest[k] == "label"]
            x["labels"] = labs
        return I, loc
    if op == "load":
        while p.peek() in ("volatile", "atomic"):
            p.i += 1
        ty = p.type(); p.expect(","); pt = p.type()
        return Instr("load", name, ty, [p.value(pt)]), loc
    if op == "store":
        while p.peek() in ("volatile", "atomic"):
            p.i += 1
        ty = p.type(); v = p.value(ty); p.expect(","); pt = p.type()
        return Instr("store", None, ty, [v, p.value(pt)], ty), loc
    if op == "getelementptr":
        while p.peek() in SKIPW:
            p.i += 1
        ty = p.type(); p.expect(",")
        pt = p.type(); ops = [p.value(pt)]
        while p.eat(","):
            t = p.type(); ops.append(p.value(t))
        return Instr("gep", name, "ptr", ops, ty), loc
    if op in BIN:
        while p.peek() in SKIPW:
            p.i += 1
        ty = p.type(); a = p.value(ty); p.expect(","); b = p.value(ty)
        return Instr(op, name, ty, [a, b]), loc
    if op == "fneg" or op == "freeze":
        while p.peek() in SKIPW:
            p.i += 1
        ty = p.type()
        return Instr(op, name, ty, [p.value(ty)]), loc
    if op in ("icmp", "fcmp"):
        while p.peek() in SKIPW and p.peek() not in ("ord",):
            p.i += 1
        pred = p.next(); ty = p.type(); a = p.value(ty); p.expect(","); b = p.value(ty)
        return Instr(op, name, "i1", [a, b], pred), loc
    if op in CAST:
        while p.peek() in SKIPW:
            p.i += 1
        ty = p.type(); v = p.value(ty); p.expect("to"); t2 = p.type()
        return Instr(op, name, t2, [v], ty), loc
    if op == "br":
        if p.eat("label"):
            return Instr("br", None, None, [], [unq(p.next())]), loc
        p.type(); c = p.value("i1"); p.expect(","); p.expect("label"); a = unq(p.next())
        p.expect(","); p.expect("label"); b = unq(p.next())
        return Instr("br", None, None, [c], [a, b]), loc
    if op == "switch":
        ty = p.type(); v = p.value(ty); p.expect(","); p.expect("label"); d = unq(p.next())
        p.expect("[")
        cases = []
        while not p.eat("]"):
            t = p.type(); c = p.value(t); p.expect(","); p.expect("label")
            cases.append((c, unq(p.next())))
        return Instr("switch", None, ty, [v] + [c for c, _ in cases], [d] + [l for _, l in cases]), loc
    if op == "phi":
        while p.peek() in SKIPW:
            p.i += 1
        ty = p.type(); inc = []
        while p.eat("["):
            v = p.value(ty); p.expect(","); l = unq(p.next()); p.expect("]"); p.eat(",")
            inc.append((v, l))
        return Instr("phi", name, ty, [v for v, _ in inc], [l for _, l in inc]), loc
    if op == "select":
        while p.peek() in SKIPW:
            p.i += 1
        t = p.type(); c = p.value(t); p.expect(","); ty = p.type(); a = p.value(ty)
        p.expect(","); p.type(); b = p.value(ty)
        return Instr("select", name, ty, [c, a, b]), loc
    if op == "alloca":
        ty = p.type(); n = 1
        if p.eat(",") and p.peek() != "align":
            t = p.type(); n = p.value(t)
        return Instr("alloca", name, "ptr", [n], ty), loc
    if op == "ret":
        if p.peek() == "void":
            return Instr("ret", None, "void", []), loc
        ty = p.type()
        return Instr("ret", None, ty, [p.value(ty)]), loc
    if op == "unreachable":
        return Instr("unreachable", None, None, []), loc
    if op == "extractvalue":
        ty = p.type(); v = p.value(ty)
        return Instr(op, name, "?", [v]), loc
    if op == "insertvalue":
        ty = p.type(); v = p.value(ty); p.expect(","); t = p.type(); w = p.value(t)
        return Instr(op, name, ty, [v, w]), loc
    # anything else: keep every %/@ token as an operand
    ops = [unq(t) for t in p.t[p.i:] if t[:1] in "%@" and len(t) > 1]
    return Instr(op, name, "?", ops), loc


LABEL = re.compile(r'^("(?:[^"\\]|\\.)*"|[-$\w.]+):')
MDN = re.compile(r"^!(\d+) = (?:distinct )?(.*)$")
DIFIELD = re.compile(r'(\w+): (?:"((?:[^"\\]|\\.)*)"|(!?[-\w.]+))')


def difields(body):
    r = {}
    for m in DIFIELD.finditer(body):
        k = m.group(1)
        if k not in r:
            r[k] = m.group(2) if m.group(2) is not None else m.group(3)
    return r


def parse_module(args):
    mod, src, path = args
    M = Module(); M.src = src; M.mod = mod
    with open(path, errors="surrogateescape") as f:
        lines = f.read().split("\n")
    md = {}
    i = 0; n = len(lines)
    while i < n:
        L = lines[i]
        if not L:
            i += 1; continue
        c = L[0]
        if c == "!":
            m = MDN.match(L)
            if m:
                md[int(m.group(1))] = m.group(2)
            i += 1; continue
        if c == "%" and " = type " in L:
            nm, body = L.split(" = type ", 1)
            p = P(body)
            if body.strip() != "opaque":
                t = p.next()
                l = []
                close = "}" if t == "{" else "}>"
                while not p.eat(close):
                    l.append(p.type()); p.eat(",")
                M.structs[unq(nm.strip())] = l
            i += 1; continue
        if c == "@":
            parse_global(M, L); i += 1; continue
        if L.startswith("declare"):
            fn = parse_header(L)
            M.decls[fn.name] = (fn.ret, fn.ptypes, fn.vararg)
            i += 1; continue
        if L.startswith("define"):
            fn = parse_header(L)
            fn.src = src; fn.module = mod
            i += 1
            cur = None
            while lines[i] != "}":
                S = lines[i]
                if not S or S[0] == ";":
                    i += 1; continue
                if S[0] != " ":
                    m = LABEL.match(S)
                    if m:
                        nm = m.group(1)
                        nm = "%" + (nm[1:-1] if nm[0] == '"' else nm)
                        cur = Block(nm); fn.blocks[nm] = cur; fn.order.append(nm)
                        i += 1; continue
                if cur is None:
                    cur = Block("%entry0"); fn.blocks["%entry0"] = cur; fn.order.append("%entry0")
                st = S.strip()
                if st.startswith("switch ") and not st.rstrip().endswith("]"):
                    acc = [st.split(", !dbg")[0]]
                    while "]" not in lines[i + 1]:
                        i += 1; acc.append(lines[i].strip())
                    i += 1; acc.append(lines[i].strip())
                    st = " ".join(acc)
                elif " invoke " in (" " + st) and i + 1 < n and lines[i + 1].lstrip().startswith("to label"):
                    i += 1; st += " " + lines[i].strip()
                elif st.startswith("%") and " landingpad " in st or st.startswith("landingpad"):
                    while lines[i + 1].lstrip().startswith(("cleanup", "catch", "filter")):
                        i += 1
                if "@llvm.dbg." in st or "@llvm.lifetime" in st:
                    if "@llvm.dbg.value" in st or "@llvm.dbg.declare" in st:
                        note_dbg(fn, st)
                    i += 1; continue
                try:
                    I, loc = parse_instr(st)
                except (SyntaxError, IndexError, ValueError) as e:
                    raise SyntaxError("%s: %s: %s: %s" % (path, fn.name, st[:300], e))
                I.loc = loc; I.fn = fn.name; I.blk = cur.name; I.idx = len(cur.instrs)
                cur.instrs.append(I)
                i += 1
            finish_cfg(fn)
            M.funcs[fn.name] = fn
            i += 1; continue
        i += 1
    resolve_md(M, md)
    return M


DBGV = re.compile(r"metadata (?:ptr|i\d+|double|float|[^%@!]*?) ?(%[-\w.$]+|%\"[^\"]*\"), metadata !(\d+)")


def note_dbg(fn, st):
    m = DBGV.search(st)
    if m:
        if not hasattr(fn, "dbgvars"):
            fn.dbgvars = {}
        fn.dbgvars.setdefault(unq(m.group(1)), int(m.group(2)))


def finish_cfg(fn):
    for b in fn.blocks.values():
        t = b.instrs[-1] if b.instrs else None
        if t is None:
            continue
        if t.op in ("br", "switch"):
            b.succs = list(dict.fromkeys(t.x))
        elif t.op == "invoke":
            b.succs = list(t.x["labels"])
    for b in fn.blocks.values():
        for s in b.succs:
            if s in fn.blocks:
                fn.blocks[s].preds.append(b.name)


HDR = re.compile(r'@("(?:[^"\\]|\\.)*"|[-$\w.]+)\(')
FDBG = re.compile(r"!dbg !(\d+) \{$")


def parse_header(L):
    fn = Func()
    fn.internal = L.startswith("define internal")
    m = HDR.search(L)
    nm = m.group(1)
    fn.name = nm[1:-1] if nm[0] == '"' else nm
    head = L[:m.start()].split()
    # return type: last type-like tokens before the name
    pre = L[:m.start()]
    pre = re.sub(r"\b(dereferenceable|align|range|dereferenceable_or_null)\([^)]*\)", "", pre)
    toks = [t for t in pre.split() if t not in ("define", "declare", "internal", "dso_local",
            "noundef", "signext", "zeroext", "noalias", "nonnull", "linkonce_odr", "weak",
            "hidden", "weak_odr", "unnamed_addr", "local_unnamed_addr", "external", "available_externally", "comdat", "protected", "extern_weak", "private", "fastcc", "ccc", "noext", "inreg", "returned", "align")]
    fn.ret = " ".join(toks)
    p = P(L[m.end() - 1:])
    p.expect("(")
    while not p.eat(")"):
        if p.eat("..."):
            fn.vararg = True; continue
        t = p.type()
        skip_pattrs(p)
        while p.peek() not in (",", ")") and p.peek()[:1] != "%":
            p.i += 1
        if p.peek()[:1] == "%":
            fn.params.append(unq(p.next()))
        fn.ptypes.append(t)
        p.eat(",")
    d = FDBG.search(L)
    if d:
        fn.dbg = int(d.group(1))
    return fn


def parse_global(M, L):
    L2 = MDTAIL.sub("", L)
    L2 = re.sub(r", !dbg !\d+", "", L2)
    p = P(L2)
    g = Global()
    g.name = unq(p.next())[1:]; p.expect("=")
    g.linkage = "external"; g.const = False; g.init = None; g.src = M.src; g.decl = False
    while True:
        t = p.peek()
        if t in ("private", "internal", "external", "common", "dso_local", "unnamed_addr",
                 "local_unnamed_addr", "linkonce_odr", "weak", "hidden", "weak_odr", "appending",
                 "extern_weak", "thread_local", "available_externally"):
            if t in ("private", "internal", "external", "common", "appending", "linkonce_odr"):
                g.linkage = t
            if t == "external":
                g.decl = True
            p.i += 1
        elif t in ("global", "constant"):
            g.const = (t == "constant"); p.i += 1
            break
        elif t == "alias" or t == "":
            return
        elif t == "(":
            while p.next() != ")":
                pass
        else:
            p.i += 1
    g.ty = p.type()
    if p.i < len(p.t) and p.peek() not in (",",):
        try:
            g.init = p.value(g.ty)
        except (SyntaxError, IndexError):
            g.init = None
    M.globals[g.name] = g


def resolve_md(M, md):
    """locations, function lines, struct field names, variable names"""
    cache = {}

    def f(n):
        if n not in cache:
            cache[n] = difields(md.get(n, ""))
        return cache[n]

    def ref(s):
        return int(s[1:]) if s and s.startswith("!") and s[1:].isdigit() else None

    def fileof(n, depth=0):
        while n is not None and depth < 40:
            d = f(n)
            if md.get(n, "").startswith("!DIFile"):
                return d.get("filename")
            if "file" in d and ref(d["file"]) is not None:
                return f(ref(d["file"])).get("filename")
            n = ref(d.get("scope")); depth += 1
        return None

    def spof(n, depth=0):
        while n is not None and depth < 60:
            if md.get(n, "").startswith("!DISubprogram"):
                return f(n).get("name")
            n = ref(f(n).get("scope")); depth += 1
        return None
    locs = {}
    for fn in M.funcs.values():
        for I in fn.instrs():
            if I.loc is not None and I.loc not in locs:
                d = f(I.loc)
                sc = ref(d.get("scope"))
                locs[I.loc] = (fileof(sc), int(d.get("line", 0)), spof(sc), ref(d.get("inlinedAt")))
            if I.loc is not None:
                I.loc = locs[I.loc][:3]
        if fn.dbg is not None:
            fn.line = int(f(fn.dbg).get("line", 0))
            fn.lfile = fileof(fn.dbg)
        fn.vars = {}
        for v, n in getattr(fn, "dbgvars", {}).items():
            nm = f(n).get("name")
            if nm:
                fn.vars[v] = nm
    # struct fields
    typedefs = {}
    for n, b in md.items():
        if b.startswith("!DIDerivedType(tag: DW_TAG_typedef"):
            d = f(n)
            bt = ref(d.get("baseType"))
            if bt is not None:
                typedefs.setdefault(bt, d.get("name"))
    for n, b in md.items():
        if b.startswith("!DICompositeType(tag: DW_TAG_structure_type") or b.startswith("!DICompositeType(tag: DW_TAG_union_type"):
            d = f(n)
            nm = d.get("name") or typedefs.get(n)
            el = ref(d.get("elements"))
            if not nm or el is None:
                continue
            names = []
            for r in re.findall(r"!(\d+)", md.get(el, "")):
                mm = md.get(int(r), "")
                if mm.startswith("!DIDerivedType(tag: DW_TAG_member"):
                    names.append(f(int(r)).get("name", "?"))
            key = "%struct." + nm
            if key in M.structs and len(M.structs[key]) == len(names):
                M.fields[key] = names
            elif key in M.structs:
                M.fields.setdefault(key, names)


class Program:
    """all modules of one configuration, linked by symbol name"""

    def __init__(s, mods):
        s.mods = mods
        s.funcs = {}
        s.globals = {}
        s.structs = {}
        s.fields = {}
        s.decls = {}
        for m in mods:
            for k, v in m.structs.items():
                s.structs.setdefault(k, v)
            for k, v in m.fields.items():
                s.fields.setdefault(k, v)
            for k, v in m.decls.items():
                s.decls.setdefault(k, v)
            for g in m.globals.values():
                key = g.name
                if g.linkage in ("private", "internal"):
                    continue
                if key not in s.globals or s.globals[key].decl:
                    s.globals[key] = g
            for fn in m.funcs.values():
                fn.M = m
                if fn.internal and fn.name in s.funcs:
                    s.funcs[fn.name + "#" + os.path.basename(m.src)] = fn
                else:
                    s.funcs[fn.name] = fn
        s._callers = None

    def glob(s, fn_or_mod, name):
        """global as seen from a function's module"""
        m = fn_or_mod.M if isinstance(fn_or_mod, Func) else fn_or_mod
        g = m.globals.get(name)
        if g is not None and (g.linkage in ("private", "internal") or not g.decl):
            return g
        return s.globals.get(name, g)

    def string(s, fn, v):
        """C string literal behind a constant pointer operand, or None"""
        off = 0
        while isinstance(v, tuple) and v[0] == "ce" and v[1] == "getelementptr":
            idx = v[3][1:]
            if any(not isinstance(k, int) for k in idx):
                return None
            off += idx[-1]
            v = v[3][0]
        if isinstance(v, str) and v.startswith("@"):
            g = s.glob(fn, v[1:])
            if g is not None and g.const:
                if isinstance(g.init, tuple) and g.init[0] == "str":
                    b = g.init[1][off:]
                    z = b.find(b"\0")
                    return (b[:z] if z >= 0 else b).decode("latin-1")
                if g.init == "zeroinit" and g.ty.endswith("x i8]"):
                    return ""
        return None

    def body(s, name, frm=None):
        """definition for a callee '@name'"""
        if isinstance(name, str) and name.startswith("@"):
            name = name[1:]
        if frm is not None:
            f = frm.M.funcs.get(name)
            if f is not None:
                return f
        return s.funcs.get(name)

    def field(s, sty, i):
        l = s.fields.get(sty)
        if l and i < len(l):
            return l[i]
        return "f%d" % i

    @property
    def callers(s):
        if s._callers is None:
            c = {}
            for f in s.funcs.values():
                for I in f.instrs():
                    if I.op in ("call", "invoke") and isinstance(I.callee, str) and I.callee.startswith("@"):
                        c.setdefault(I.callee[1:], []).append((f, I))
            s._callers = c
        return s._callers


def load(which="main", profile="seq", repo=None):
    from . import irbuild
    kw = {"repo": repo} if repo else {}
    units = irbuild.build(which, profile, **kw)
    d = os.path.dirname(units[0][2])
    h = str(os.path.getmtime(__file__))
    pk = os.path.join(d, "ir.pickle")
    sys.setrecursionlimit(10000)
    if os.path.exists(pk):
        try:
            with open(pk, "rb") as f:
                tag = pickle.load(f)
                if tag == h:
                    mods = pickle.load(f)
                    return finish(mods)
        except Exception:
            pass
    with ProcessPoolExecutor(8) as ex:
        mods = list(ex.map(parse_module, units))
    try:
        tmp = pk + ".%d" % os.getpid()
        with open(tmp, "wb") as f:
            pickle.dump(h, f); pickle.dump(mods, f, -1)
        os.replace(tmp, pk)
    except OSError:
        pass
    return finish(mods)


def load_linked(which, pick, entries, keep, passes="mem2reg,simplifycfg"):
    """a Program of one module, entries with everything inlined"""
    from . import irbuild
    o = irbuild.linked(which, pick, entries, keep, passes)
    sys.setrecursionlimit(10000)
    P = finish([parse_module(("linked", "linked.c", o))])
    from .cfg import noreturn_set
    P._noret = set(noreturn_set(load(which, "seq")))
    return P


def load_text(ctext, incdirs, which="main", passes="always-inline,mem2reg,simplifycfg"):
    """a Program of one module, lowered from a text of the analysis"""
    from . import irbuild
    o = irbuild.lower_text(ctext, incdirs, which, passes)
    sys.setrecursionlimit(10000)
    P = finish([parse_module(("reference", "ref.c", o))])
    from .cfg import noreturn_set
    P._noret = set(noreturn_set(load(which, "seq")))
    return P


def finish(mods):
    import gc
    return Program(mods)
