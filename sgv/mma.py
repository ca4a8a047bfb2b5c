"""Tensor equations -> plain C.

The physics kernels of the repository come with the tensor equations they were
produced from (the Mathematica files next to them).  This module reads such an
equation file and writes the component equations as straightforward C, without
any simplification.  That text is only ever lowered to IR and value-numbered
(sgv.algv) to decide whether the kernel in the repository computes the same
rational functions; it is never run."""
import re, itertools, hashlib
from fractions import Fraction


class MmaError(Exception):
    pass


TOK = re.compile(r'\s+|\(\*.*?\*\)|(?P<num>\d+\.\d*(?:[eE][+-]?\d+)?|\.\d+|\d+)|(?P<id>[A-Za-z$][A-Za-z0-9$]*_?)|(?P<str>"(?:\\.|[^"\\])*")|(?P<op>==|!=|<=|>=|&&|\|\||:=|/;|/\.|->|:>|[-+*/^()\[\]{},=<>!;&_])', re.S)


def strip_comments(t):
    out = []; i = 0; d = 0; instr = False
    while i < len(t):
        if d == 0 and t[i] == '"':
            j = i + 1
            while j < len(t) and t[j] != '"':
                j += 2 if t[j] == "\\" else 1
            out.append(t[i:j + 1]); i = j + 1
            continue
        if t.startswith("(*", i):
            d += 1; i += 2; continue
        if d and t.startswith("*)", i):
            d -= 1; i += 2; continue
        if d == 0:
            out.append(t[i])
        i += 1
    return "".join(out)


def tokens(t):
    r = []; i = 0
    while i < len(t):
        m = TOK.match(t, i)
        if not m:
            raise MmaError("cannot read %r" % t[i:i + 20])
        k = m.lastgroup
        if k:
            r.append((k, m.group(k)))
        i = m.end()
    r.append(("end", ""))
    return r


class Parser:
    def __init__(s, t):
        s.t = tokens(t); s.i = 0

    def pk(s):
        return s.t[s.i][1] if s.t[s.i][0] in ("op", "end") else None

    def nx(s):
        x = s.t[s.i]; s.i += 1
        return x

    def want(s, v):
        x = s.nx()
        if x[1] != v or x[0] == "str":
            raise MmaError("expected %s, got %r" % (v, x))

    # equation level
    def expr(s):
        return s.orx()

    def orx(s):
        a = s.andx()
        while s.pk() == "||":
            s.nx(); a = ("bin", "||", a, s.andx())
        return a

    def andx(s):
        a = s.notx()
        while s.pk() == "&&":
            s.nx(); a = ("bin", "&&", a, s.notx())
        return a

    def notx(s):
        if s.pk() == "!":
            s.nx(); return ("not", s.notx())
        return s.cmp()

    def cmp(s):
        a = s.sum()
        while s.pk() in ("==", "!=", "<", ">", "<=", ">="):
            o = s.nx()[1]
            a = ("bin", o, a, s.sum())
        return a

    def sum(s):
        r = []
        neg = False
        if s.pk() in ("-", "+"):
            neg = s.nx()[1] == "-"
        t = s.prod()
        r.append(("neg", t) if neg else t)
        while s.pk() in ("+", "-"):
            o = s.nx()[1]
            t = s.prod()
            r.append(("neg", t) if o == "-" else t)
        return r[0] if len(r) == 1 else ("sum", r)

    def starts(s):
        k, v = s.t[s.i]
        return k in ("num", "id") or v in ("(",) and k == "op"

    def prod(s):
        r = [(1, s.unary())]
        while True:
            if s.pk() == "*":
                s.nx(); r.append((1, s.unary()))
            elif s.pk() == "/":
                s.nx(); r.append((-1, s.unary()))
            elif s.starts():
                r.append((1, s.power()))
            else:
                break
        return r[0][1] if len(r) == 1 else ("prod", r)

    def unary(s):
        if s.pk() == "-":
            s.nx(); return ("neg", s.unary())
        if s.pk() == "+":
            s.nx(); return s.unary()
        return s.power()

    def power(s):
        a = s.atom()
        if s.pk() == "^":
            s.nx()
            b = s.unary()
            return ("pow", a, b)
        return a

    def atom(s):
        k, v = s.nx()
        if k == "num":
            return ("num", v)
        if k == "str":
            return ("str", v)
        if k == "id":
            if s.pk() == "[":
                s.nx()
                a = []
                if s.pk() != "]":
                    a.append(s.expr())
                    while s.pk() == ",":
                        s.nx(); a.append(s.expr())
                s.want("]")
                return ("call", v, a)
            return ("id", v)
        if v == "(":
            e = s.expr(); s.want(")")
            return e
        if v == "{":
            a = []
            if s.pk() != "}":
                a.append(s.expr())
                while s.pk() == ",":
                    s.nx(); a.append(s.expr())
            s.want("}")
            return ("list", a)
        raise MmaError("unexpected %r" % v)


def balanced(t, i, o="{", c="}"):
    d = 0; j = i; q = False
    while j < len(t):
        ch = t[j]
        if q:
            if ch == "\\":
                j += 1
            elif ch == '"':
                q = False
        elif ch == '"':
            q = True
        elif ch == o:
            d += 1
        elif ch == c:
            d -= 1
            if d == 0:
                return t[i:j + 1]
        j += 1
    raise MmaError("unbalanced")


def unescape(s):
    s = s[1:-1]
    s = re.sub(r"\\\s*\n\s*", " ", s)
    return s.replace('\\"', '"').replace("\\n", "\n").replace("\\t", "\t").replace("\\\\", "\\")


CFN = {"exp", "log", "sqrt", "fabs", "sin", "cos", "tan", "sinh", "cosh", "tanh", "pow", "atan2", "acos", "asin", "atan"}


class Num:
    """value of an expression whose symbols are independent (mod a prime)"""
    M = (1 << 89) - 1

    def __init__(s, v):
        s.v = v % Num.M

    @staticmethod
    def of(x):
        return x if isinstance(x, Num) else Num(x)

    @staticmethod
    def h(*a):
        return Num(int.from_bytes(hashlib.blake2b(repr([x.v if isinstance(x, Num) else x for x in a]).encode(), digest_size=16).digest(), "big"))

    def __add__(a, b): return Num(a.v + b.v)
    def __sub__(a, b): return Num(a.v - b.v)
    def __mul__(a, b): return Num(a.v * b.v)
    def __truediv__(a, b): return Num(a.v * pow(b.v, -1, Num.M))
    def __neg__(a): return Num(-a.v)
    def __pos__(a): return a
    def __lt__(a, b): return Num.h("<", a, b)
    def __gt__(a, b): return Num.h("<", b, a)
    def __le__(a, b): return Num.h("<=", a, b)
    def __ge__(a, b): return Num.h("<=", b, a)


def ident(c):
    """two right-hand sides that are the same polynomial in their symbols get
    the same identification"""
    def sub(m):
        if m.group(1):
            f = Fraction(m.group(1))
            return "N(%d,%d)" % (f.numerator, f.denominator)
        n = m.group(2).replace("[ijk]", "")
        return "F('%s')" % n if m.group(3) else "V('%s')" % n
    t = re.sub(r"(?<![\w.])(\d+\.\d*|\.\d+|\d+)|([A-Za-z_]\w*(?:\[ijk\])?)(?=\s*(\()?)", sub, c)
    try:
        env = {"N": lambda a, b: Num(a * pow(b, -1, Num.M)), "V": lambda n: Num.h("v", n), "F": lambda n: (lambda *a: Num.h(n, *a))}
        return eval(t, {"__builtins__": {}}, env).v
    except Exception:
        return c


class System:
    """one equation file"""

    def __init__(s, path):
        s.path = path
        raw = open(path, errors="replace").read()
        s.t = t = strip_comments(raw)
        m = re.search(r"TensorEquationsDim\s*=\s*(\d)", t)
        dim = int(m.group(1)) if m else 3
        s.rng = {4: range(0, 4), 2: range(1, 3)}.get(dim, range(1, 4))
        s.vars = s.lst("variables")
        s.eqs = s.lst("tocompute")
        s.rules()
        s.cfile = re.search(r'CFunctionFile\s*=\s*"([^"]+)"', t).group(1)
        s.gridnames = set()
        for v in s.vars:
            s.gridnames |= set(s.expand(v))
        s.aux = []
        for e in s.eqs:
            if not (isinstance(e, tuple) and e[0] == "bin" and e[1] == "=="):
                raise MmaError("not an equation: %r" % (e,))
            l = e[2]
            if l in (("id", "Cif"), ("id", "Cinstruction")):
                continue
            for n in s.expand(l):
                if n not in s.gridnames and n not in s.aux:
                    s.aux.append(n)

    def lst(s, name):
        m = re.search(r"(?m)^\s*%s\s*=\s*\{" % name, s.t)
        if not m:
            raise MmaError("no " + name)
        e = Parser(balanced(s.t, m.end() - 1)).atom()
        return e[1]

    def rules(s):
        s.rule = {}
        for m in re.finditer(r"(?m)^[ \t]*([A-Za-z]\w*)\[([^\]]*)\]\s*:?=(?!=)\s*([^\n;]*?)(?:/;\s*!\s*OrderedQ\[\{\s*(\w+)\s*,\s*(\w+)\s*\}\])?\s*;?[ \t]*$", s.t):
            n, pats, rhs, p, q = m.groups()
            if n in ("BeginCFunction", "variabledeclarations", "InitializationCommands", "EndCFunction") or not pats.strip():
                continue
            ps = [x.strip() for x in pats.split(",")]
            rhs = rhs.strip()
            if any(not re.fullmatch(r"\w+_|-?\d+", x) for x in ps):
                continue
            rm = re.fullmatch(r"(-?)\s*(?:(\d+)|%s\[([^\]]*)\])" % n, rhs)
            if not rm:
                continue
            s.rule.setdefault((n, len(ps)), []).append((ps, rm.group(1) == "-", rm.group(2), [x.strip() for x in (rm.group(3) or "").split(",")], (p, q) if p else None))

    def canon(s, n, idx):
        """(sign, name or None, canonical indices); name None: the number sign"""
        sg = 1
        idx = list(idx)
        R = s.rule.get((n, len(idx)), [])
        R = sorted(R, key=lambda r: r[2] is None)          # constants first
        for _ in range(50):
            for ps, neg, const, perm, cond in R:
                b = {}
                ok = True
                for p, i in zip(ps, idx):
                    if p.endswith("_"):
                        if b.setdefault(p[:-1], i) != i:
                            ok = False
                    elif int(p) != i:
                        ok = False
                if not ok or (cond and not b[cond[0]] > b[cond[1]]):
                    continue
                if neg:
                    sg = -sg
                if const is not None:
                    return sg * int(const), None, None
                idx = [b[x] if x in b else int(x) for x in perm]
                break
            else:
                return sg, n, tuple(idx)
        raise MmaError("symmetry rules of %s do not end" % n)

    def comps(s, l):
        """canonical components of a left-hand side: [(name, binding)]"""
        if l[0] == "id":
            return [(l[1], {})]
        if l[0] != "call":
            raise MmaError("left-hand side")
        syms = []
        for a in l[2]:
            if a[0] == "id" and a[1] not in syms:
                syms.append(a[1])
        seen = []; out = []
        for tup in itertools.product(s.rng, repeat=len(syms)):
            b = dict(zip(syms, tup))
            idx = [b[a[1]] if a[0] == "id" else int(a[1]) for a in l[2]]
            sg, n, c = s.canon(l[1], idx)
            if n is None or c in seen:
                continue
            if tuple(idx) != c:
                # the canonical representative carries the equation
                if all(a[0] == "id" for a in l[2]) and len(syms) == len(l[2]):
                    b = dict(zip(syms, c))
                else:
                    raise MmaError("non-canonical component")
            seen.append(c)
            out.append((c, n + "".join(map(str, c)), b))
        out.sort()
        return [(n, b) for c, n, b in out]

    def assigns(s, l):
        """every index combination of a left-hand side, in the order of the
        components (a tensor declared symmetric is assigned by all of them)"""
        if l[0] == "id":
            return [(l[1], "", {})]
        syms = []
        for a in l[2]:
            if a[0] == "id" and a[1] not in syms:
                syms.append(a[1])
        out = []
        for tup in itertools.product(s.rng, repeat=len(syms)):
            b = dict(zip(syms, tup))
            idx = [b[a[1]] if a[0] == "id" else int(a[1]) for a in l[2]]
            sg, n, c = s.canon(l[1], idx)
            if n is not None:
                out.append((n + "".join(map(str, c)), "-" if sg < 0 else "", b))
        return out

    def expand(s, l):
        return [n for n, b in s.comps(l)]

    # ------------------------------------------------------------ evaluation
    BUILT = CFN | {"Cal", "If", "matrixdet", "matrixinv", "matrixinvdet", "delta", "epsmatrix3d", "epsmatrix", "OD", "OD2"}

    def indices(s, e, b):
        """unbound index symbols occurring in e"""
        k = e[0]
        if k in ("num", "str", "id"):
            return set()
        if k == "neg" or k == "not":
            return s.indices(e[1], b)
        if k == "sum":
            return set().union(*[s.indices(x, b) for x in e[1]])
        if k == "prod":
            return set().union(*[s.indices(x, b) for _, x in e[1]])
        if k == "pow":
            return s.indices(e[1], b) | s.indices(e[2], b)
        if k == "bin":
            return s.indices(e[2], b) | s.indices(e[3], b)
        if k == "call":
            n = e[1]
            if n in CFN or n in ("Cal", "If"):
                return set().union(*[s.indices(x, b) for x in e[2]]) | (set(x[1] for a in e[2][:1] if n == "If" for x in s.syms(a) if x[1] not in b and len(x[1]) == 1 and x[1] not in s.gridnames and x[1] not in s.aux))
            if n in ("OD", "OD2"):
                r = s.indices(e[2][0], b)
                for a in e[2][1:]:
                    if a[0] == "id" and a[1] not in b:
                        r.add(a[1])
                return r
            args = e[2][1:] if n in ("matrixinv", "matrixinvdet") else e[2] if n != "matrixdet" else []
            return {a[1] for a in args if a[0] == "id" and a[1] not in b}
        raise MmaError("indices of " + k)

    def syms(s, e):
        if e[0] == "id":
            return [e]
        if e[0] == "bin":
            return s.syms(e[2]) + s.syms(e[3])
        return []

    def ix(s, a, b):
        if a[0] == "num":
            return int(a[1])
        if a[0] == "id" and a[1] in b:
            return b[a[1]]
        raise MmaError("index %r is not bound" % (a,))

    def name(s, n):
        return n + "[ijk]" if n in s.gridnames else n

    def comp(s, n, idx):
        sg, m, c = s.canon(n, idx)
        if m is None:
            return str(sg) + "."
        r = s.name(m + "".join(map(str, c)))
        return r if sg == 1 else "(-%s)" % r

    def C(s, e, b):
        k = e[0]
        if k == "num":
            return e[1] if "." in e[1] else e[1] + "."
        if k == "id":
            if e[1] in b:
                return "%d." % b[e[1]]
            return {"Pi": "PI"}.get(e[1], s.name(e[1]))
        if k == "neg":
            return "(-%s)" % s.C(e[1], b)
        if k == "not":
            return "(!%s)" % s.C(e[1], b)
        if k == "sum":
            return "(" + " + ".join(s.C(x, b) for x in e[1]) + ")"
        if k == "bin":
            return "(%s %s %s)" % (s.C(e[2], b), e[1], s.C(e[3], b))
        if k == "pow":
            try:
                n = int(e[2][1]) if e[2][0] == "num" else None
            except ValueError:
                n = None
            a = s.C(e[1], b)
            if n is not None and 1 <= n <= 8:
                return "(" + "*".join([a] * n) + ")"
            return "pow(%s, %s)" % (a, s.C(e[2], b))
        if k == "prod":
            cnt = {}
            for sg, x in e[1]:
                for i in s.indices(x, b):
                    cnt[i] = cnt.get(i, 0) + 1
            dum = sorted(i for i, n in cnt.items() if n >= 2)
            terms = []
            for tup in itertools.product(s.rng, repeat=len(dum)):
                bb = dict(b); bb.update(zip(dum, tup))
                num = []; zero = False
                for sg, x in e[1]:
                    c = s.C(x, bb)
                    if c in ("0.", "(-0.)") and sg > 0:
                        zero = True
                    num.append(("*" if sg > 0 else "/") + c)
                if zero:
                    continue
                terms.append("(1." + "".join(num) + ")")
            return "(" + (" + ".join(terms) or "0.") + ")"
        if k == "call":
            n, a = e[1], e[2]
            if n in CFN:
                return "%s(%s)" % (n, ", ".join(s.C(x, b) for x in a))
            if n == "Cal":
                return "Cal(%s, %s, %s)" % tuple(s.C(x, b) for x in a)
            if n == "If":
                c = a[0]
                if c[0] == "bin" and c[1] == "==":
                    return s.C(a[1] if s.ix(c[2], b) == s.ix(c[3], b) else a[2], b)
                raise MmaError("If")
            if n == "delta":
                return "1." if s.ix(a[0], b) == s.ix(a[1], b) else "0."
            if n in ("epsmatrix3d", "epsmatrix"):
                i, j, l = (s.ix(x, b) for x in a)
                return "%d." % ((j - i) * (l - j) * (l - i) // 2)
            if n == "matrixdet":
                return s.det([[s.comp(a[0][1], (i, j)) for j in s.rng] for i in s.rng])
            if n in ("matrixinvdet", "matrixinv"):
                i, j = s.ix(a[1], b), s.ix(a[2], b)
                # cofactor of (j, i)
                M = [[s.comp(a[0][1], (p, q)) for q in s.rng if q != i] for p in s.rng if p != j]
                c = s.det(M)
                if (i + j) % 2:
                    c = "(-%s)" % c
                if n == "matrixinv":
                    c = "(%s/%s)" % (c, s.C(("call", "matrixdet", [a[0]]), b))
                return c
            if n in ("OD", "OD2"):
                g = a[0]
                idx = [s.ix(x, b) for x in g[2]]
                sg, m, c = s.canon(g[1], idx)
                if m is None:
                    return "0."
                d = [s.ix(x, b) for x in a[1:]]
                if n == "OD2" and d[0] > d[1]:
                    d.reverse()
                r = s.name(("d" if n == "OD" else "dd") + m + "".join(map(str, c)) + "".join(map(str, d)))
                return r if sg == 1 else "(-%s)" % r
            return s.comp(n, [s.ix(x, b) for x in a])
        raise MmaError("expression " + k)

    def det(s, M):
        if len(M) == 1:
            return M[0][0]
        return "(" + " ".join("%s %s*%s" % ("-" if k % 2 else "+", M[0][k], s.det([r[:k] + r[k + 1:] for r in M[1:]])) for k in range(len(M))) + ")"

    # ------------------------------------------------------------ the C text
    def module(s, name):
        m = re.search(r"%s\[\]\s*:=\s*Module\[" % name, s.t)
        if not m:
            raise MmaError("no " + name)
        return balanced(s.t, m.end() - 1, "[", "]")

    def strings(s, body):
        return "".join(unescape(x) for x in re.findall(r'pr\[\s*("(?:\\.|[^"\\])*")\s*\]', body))

    def decls(s):
        body = s.module("variabledeclarations")
        out = []
        for m in re.finditer(r'\b(pr|prdecvl|prdecvar|prdecvarname|prdecvlindices)\[', body):
            arg = balanced(body, m.end() - 1, "[", "]")[1:-1]
            if m.group(1) == "pr":
                out.append(unescape(arg.strip()))
                continue
            lst = balanced(arg, arg.index("{"))
            vs = Parser(lst).atom()[1]
            nm = unescape(arg[arg.index(lst) + len(lst):].strip().lstrip(",").strip())
            names = [n for v in vs for n in s.expand(v)]
            if m.group(1) == "prdecvarname":
                out.append("int index_%s = Ind(\"%s\");\n" % (nm, nm))
            for k, n in enumerate(names):
                out.append({"prdecvl": "double *%s = vlldataptr(%s, box, %d);\n" % (n, nm, k),
                            "prdecvar": "double *%s = box->v[%s + %d];\n" % (n, nm, k),
                            "prdecvarname": "double *%s = box->v[index_%s + %d];\n" % (n, nm, k),
                            "prdecvlindices": "int index_%s = (%s)->index[%d];\n" % (n, nm, k)}[m.group(1)])
        return "".join(out)

    def multi(s):
        """equations that assign a component more than one right-hand side"""
        if not hasattr(s, "_multi"):
            s.ctext()
        return list(s._multi)

    def ctext(s, flip=()):
        s._multi = []
        out = [s.strings(s.module("BeginCFunction")), s.decls(), s.strings(s.module("InitializationCommands"))]
        out += ["double %s;\n" % n for n in s.aux]
        s.neqs = 0
        for ne, e in enumerate(s.eqs):
            l, r = e[2], e[3]
            if l == ("id", "Cif"):
                if r == ("id", "else"):
                    out.append("} else {\n")
                elif r == ("id", "end"):
                    out.append("}\n")
                else:
                    out.append("if(%s) {\n" % s.C(r, {}))
                continue
            if l == ("id", "Cinstruction"):
                out.append(unescape(r[1]) + "\n")
                continue
            for n, b in s.comps(l):
                s.neqs += 1
            done = set(); per = {}
            for n, sg, b in s.assigns(l)[::-1 if ne in flip else 1]:
                c = "%s(%s)" % (sg, s.C(r, b))
                k = (n, ident(c))
                if k not in done:
                    done.add(k)
                    per[n] = per.get(n, 0) + 1
                    out.append("%s = %s;\n" % (s.name(n), c))
            if any(v > 1 for v in per.values()):
                s._multi.append(ne)
        out.append(s.strings(s.module("EndCFunction")))
        return "".join(out)
