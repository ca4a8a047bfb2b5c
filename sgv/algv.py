"""Algebraic value numbering over compiler IR.

Every value a function computes gets a number in a prime field; two values get
the same number if (and, up to hash collisions, only if) they are the same
rational function of the same inputs.  Inputs (memory never written before,
results of calls) are numbered by hashing their canonical name, sums and
products by the field operations, roots and elementary functions such that
their algebraic identities hold.  Branches are taken according to a hash of
the canonical condition, so that one walk follows one path and two programs
walked with the same seed follow the same path.  Nothing is executed: the
walk is over the def-use chains of the IR, with one visit per loop body.

Numbers may carry truncated Taylor coefficients in chosen directions (jets):
the coefficients are the value numbers of the symbolic derivatives."""
import hashlib, math, re
from fractions import Fraction
from .val import *
from .cfg import *
from .sx import Sx, base

PM = 618970019642690137449557351      # = 11 mod 12: unique cube roots, unique square roots up to the sign;
                                      # the primes up to 19 are squares: "positive" = "is a square" extends to them


class Retry(Exception):
    """this seed hits a pole or a root outside the field"""


class Giveup(Exception):
    pass


class Jet:
    __slots__ = ("t",)

    def __init__(s, t):
        s.t = t

    def __repr__(s):
        return "Jet(%s)" % {k: v % 100000 for k, v in s.t.items()}


def jet(x, order):
    return x.t if isinstance(x, Jet) else {(): x}


class Field:
    def __init__(s, seed, order=1):
        s.seed = str(seed).encode(); s.order = order
        s.inverse = {}          # value -> (kind, args): known inverse functions
        s.memo = {}
        s.generic = False       # no two different numbers are assumed equal
        s.angles = {}           # angle -> (sin, cos)
        s.angle_of = {}         # (sin, cos) -> angle
        s.abase = []
        s.nohalf = set()
        s.exps = {0: 1}
        s.logs = {1: 0}
        s.ebase = []
        s.calls = {}            # hook for functions whose derivatives are known
        s.fresh = 0             # elementary functions met at arguments unrelated to all others

    def snapshot(s):
        return [(n, x.copy() if not isinstance(x, int) else x) for n in ("inverse", "angles", "angle_of", "abase", "nohalf", "exps", "logs", "ebase", "fresh") for x in (getattr(s, n),)]

    def restore(s, snap):
        for n, x in snap:
            setattr(s, n, x.copy() if not isinstance(x, int) else x)

    # ------------------------------------------------------------- oracle
    def H(s, *a):
        k = repr(a)
        v = s.memo.get(k)
        if v is None:
            v = int.from_bytes(hashlib.blake2b(s.seed + k.encode(), digest_size=20).digest(), "big") % PM
            s.memo[k] = v
        return v

    def const(s, x):
        if isinstance(x, int):
            return x % PM
        if isinstance(x, Fraction):
            return x.numerator * pow(x.denominator, -1, PM) % PM
        if x != x or x in (math.inf, -math.inf):
            return s.H("const", repr(x))
        if x == int(x) and abs(x) < 2 ** 60:
            return int(x) % PM
        if s.generic and abs(x) < 1e6 and abs(x - round(x)) <= 2e-10:
            return round(x) % PM                # numbers within a tolerance of each other do not occur
        for e, unit in ((0, 1.0), (1, math.pi), (-1, 1 / math.pi), (2, math.pi ** 2), (-2, math.pi ** -2)):
            y = x / unit
            f = Fraction(y).limit_denominator(20000 if abs(e) < 2 else 100)
            if f != 0 and abs(float(f) - y) <= 2e-15 * abs(y):
                return s.const(f) * pow(s.pi(), e, PM) % PM
        for e, unit in ((0, 1.0), (1, math.pi), (-1, 1 / math.pi)):
            y = (x / unit) ** 2
            f = Fraction(y).limit_denominator(500 if e == 0 else 40)
            if f != 0 and f < (1000 if e == 0 else 40) and abs(float(f) - y) <= 2e-15 * abs(y):
                r = s.root(s.const(f), 2) * pow(s.pi(), e, PM) % PM
                return r if x > 0 else -r % PM
        return s.const(Fraction(repr(x)))

    def pi(s):
        return s.H("pi")

    # ------------------------------------------------------------- ring
    def add(s, a, b):
        if isinstance(a, Jet) or isinstance(b, Jet):
            t = dict(jet(a, 0))
            for k, v in jet(b, 0).items():
                t[k] = (t.get(k, 0) + v) % PM
            return Jet(t)
        return (a + b) % PM

    def neg(s, a):
        if isinstance(a, Jet):
            return Jet({k: -v % PM for k, v in a.t.items()})
        return -a % PM

    def sub(s, a, b):
        return s.add(a, s.neg(b))

    def mul(s, a, b):
        if isinstance(a, Jet) or isinstance(b, Jet):
            t = {}
            for k, v in jet(a, 0).items():
                if not v:
                    continue
                for l, w in jet(b, 0).items():
                    if len(k) + len(l) <= s.order:
                        m = tuple(sorted(k + l))
                        t[m] = (t.get(m, 0) + v * w) % PM
            return Jet(t)
        return a * b % PM

    def inv(s, a):
        v = a.t.get((), 0) if isinstance(a, Jet) else a
        if v == 0:
            raise Retry("division by zero")
        i = pow(v, -1, PM)
        if not isinstance(a, Jet):
            return i
        return s.compose(a, i, -i * i % PM, i * i % PM * i * 2 % PM)

    def div(s, a, b):
        return s.mul(a, s.inv(b))

    def compose(s, x, f0, f1, f2):
        """f(x) for a jet x from the derivatives of f at its value"""
        h = {k: v for k, v in x.t.items() if k}
        r = {k: v * f1 % PM for k, v in h.items()}
        r[()] = f0
        if s.order >= 2:
            i2 = pow(2, -1, PM)
            for k, v in h.items():
                if len(k) == 1:
                    for l, w in h.items():
                        if len(l) == 1:
                            m = tuple(sorted(k + l))
                            r[m] = (r.get(m, 0) + v * w % PM * f2 % PM * i2) % PM
        return Jet(r)

    # Taylor coefficient -> derivative
    @staticmethod
    def deriv(x, k):
        if not isinstance(x, Jet):
            return x if not k else 0
        v = x.t.get(tuple(sorted(k)), 0)
        m = 1
        for c in set(k):
            m *= math.factorial(k.count(c))
        return v * m % PM

    # ------------------------------------------------------------- functions
    def root(s, x, n):
        if x == 0:
            return 0
        if n == 2:
            r = pow(x, (PM + 1) // 4, PM)
            if r * r % PM != x:
                raise Retry("no square root")
            return r
        e = pow(n, -1, PM - 1)
        return pow(x, e, PM)

    def fn(s, name, x):
        if isinstance(x, Jet):
            v = x.t.get((), 0)
            f0, f1, f2 = s.fn3(name, v)
            return s.compose(x, f0, f1, f2)
        return s.fn3(name, x)[0]

    def odd(s, name, x):
        """oracle of an odd function"""
        if x == 0:
            return 0
        return s.H(name, x) if x <= PM // 2 else -s.H(name, PM - x) % PM

    def expv(s, x):
        """exp: a homomorphism on the numbers x = sum of n_i y_i met so far"""
        v = s.exps.get(x)
        if v is not None:
            return v
        for y in list(s.exps)[:6000]:
            w = s.exps.get((x - y) % PM)
            if w is not None:
                return s.setexp(x, w * s.exps[y] % PM)
        s.fresh += 1
        y = x * pow(4, -1, PM) % PM
        i2 = pow(2, -1, PM)
        for salt in range(400):
            h = s.H("exp", min(y, PM - y), salt)
            h = h * h % PM                   # exp > 0, cosh > 0
            e = h
            for n in range(5):
                if s.legendre((e + pow(e, -1, PM)) * i2 % PM) < 0:
                    break
                e = e * e % PM
            else:
                break
        s.basexp(y, h if y <= PM // 2 else pow(h, -1, PM))
        return s.exps[x]

    def basexp(s, y, e):
        i = pow(e, -1, PM)
        a, b, u, v = 0, 0, 1, 1
        for n in range(1, 17):
            a = (a + y) % PM; u = u * e % PM
            b = (b - y) % PM; v = v * i % PM
            s.setexp(a, u); s.setexp(b, v)
        s.ebase.append(y)

    def setexp(s, x, v):
        s.exps.setdefault(x, v)
        s.logs.setdefault(v, x)
        return s.exps[x]

    def logv(s, x):
        v = s.logs.get(x)
        if v is not None:
            return v
        if s.legendre(x) < 0:
            raise Retry("log of a negative number")
        for e, y in list(s.logs.items()):
            if y in s.ebase:
                w = s.logs.get(x * pow(e, -1, PM) % PM)
                if w is not None:
                    return (w + y) % PM
        s.fresh += 1
        y = pow(x, -1, PM)
        v = s.H("log", x) if x <= y else -s.H("log", y) % PM
        s.basexp(v, x)
        return v

    def trig(s, x):
        """(sin, cos): the angles x = sum of n_i y_i + k pi/2 met so far add up"""
        if not s.angles:
            q = s.pi() * pow(12, -1, PM) % PM
            r2, r3 = s.root(2, 2), s.root(3, 2); h = pow(2, -1, PM); f = pow(4, -1, PM)
            s.addangle(q, (r2 * (r3 - 1) * f % PM, r2 * (r3 + 1) * f % PM), 96, False)
        v = s.angles.get(x)
        if v is not None:
            return v
        if x in s.nohalf:
            raise Retry("half of an angle outside the range")
        y = s.inverse.get(("acos", x))
        if y is not None:
            return s.setangle(x, s.root((1 - y * y) % PM, 2), y)
        y = s.inverse.get(("asin", x))
        if y is not None:
            return s.setangle(x, y, s.root((1 - y * y) % PM, 2))
        y = s.inverse.get(("atan", x))
        if y is not None:
            c = pow(s.root((1 + y * y) % PM, 2), -1, PM)
            return s.setangle(x, y * c % PM, c)
        for y in list(s.angles)[:6000]:
            w = s.angles.get((x - y) % PM)
            if w is not None:
                a, b = s.angles[y]
                s.angles[x] = r = (w[0] * b + w[1] * a) % PM, (w[1] * b - w[0] * a) % PM
                return r
        turn = 2 * s.pi() % PM
        for g in s.abase:
            for n in (1, -1, 2, -2, 4, -4):
                d = (x - n * g) % PM
                if d in s.nohalf:
                    raise Retry("half of an angle outside the range")
                for y in s.abase:
                    for m in (1, -1, 2, -2, 4, -4):
                        r = (d - m * y) % PM
                        w = s.angles.get(r)
                        for c in (turn, -turn, 2 * turn, -2 * turn, 3 * turn, -3 * turn) if w is None else ():
                            w = w or s.angles.get((r + c) % PM)
                        if w is None and r in s.nohalf:
                            raise Retry("half of an angle outside the range")
                        if w is not None:
                            for z in (n * g % PM, m * y % PM):
                                a, b = s.angles[z]
                                w = (w[0] * b + w[1] * a) % PM, (w[1] * b - w[0] * a) % PM
                            s.angles[x] = w
                            return w
        s.fresh += 1
        y = x * pow(4, -1, PM) % PM
        t = s.odd("t", y)
        d = pow((1 + t * t) % PM, -1, PM)
        s.addangle(y, (2 * t * d % PM, (1 - t * t) * d % PM), 16)
        return s.angles[x]

    def setangle(s, x, a, b):
        s.addangle(x, (a, b), 4)
        return a, b

    def addangle(s, y, sc, m, both=True):
        a, b = 0, 1
        q = s.pi() * pow(2, -1, PM) % PM
        todo = []
        for n in range(1, m + 1):
            a, b = (a * sc[1] + b * sc[0]) % PM, (b * sc[1] - a * sc[0]) % PM
            todo.append((n * y % PM, a, b)); todo.append((-n * y % PM, -a % PM, b))
        if both:
            # principal values first
            for k in range(4):
                for x, a, b in todo:
                    for j in range(k):
                        a, b = b, -a % PM
                    s.angles.setdefault((x + k * q) % PM, (a, b))
            for x, a, b in todo:
                s.angle_of.setdefault((a, b), x)
            s.abase.append(y)
        else:
            for x, a, b in todo:
                s.angles.setdefault(x, (a, b))
            s.angles.setdefault(0, (0, 1))
            for x, a, b in todo[:24]:
                s.angle_of.setdefault((a, b), x)
            s.angle_of.setdefault((0, 1), 0)

    def legendre(s, x):
        if x == 0:
            return 0
        return 1 if pow(x, (PM - 1) // 2, PM) == 1 else -1

    def fn3(s, name, x):
        inv = lambda v: pow(v, -1, PM) if v % PM else s.pole()
        if name == "sqrt":
            r = s.root(x, 2)
            if x == 0:
                return 0, s.H("inf"), s.H("inf")
            i = inv(2 * r)
            return r, i, -i * inv(2 * x) % PM
        if name == "cbrt":
            r = s.root(x, 3)
            return r, r * inv(3 * x) % PM, -2 * r * inv(9 * x * x) % PM
        if name == "fabs":
            q = s.small(x)
            sg = s.legendre(x) if q is None else (q > 0) - (q < 0)
            return x * sg % PM, sg % PM, 0
        if name == "exp":
            e = s.expv(x)
            return e, e, e
        if name == "log":
            i = inv(x)
            v = s.logv(x)
            return v, i, -i * i % PM
        if name in ("sin", "cos", "tan"):
            a, b = s.trig(x)
            if name == "sin":
                return a, b, -a % PM
            if name == "cos":
                return b, -a % PM, -b % PM
            t = a * inv(b) % PM
            return t, (1 + t * t) % PM, 2 * t * (1 + t * t) % PM
        if name in ("sinh", "cosh", "tanh"):
            e = s.expv(x); i = inv(e); h = inv(2)
            sh = (e - i) * h % PM; ch = (e + i) * h % PM
            if s.legendre(ch) < 0:
                raise Retry("cosh is positive")
            if name == "sinh":
                return sh, ch, sh
            if name == "cosh":
                return ch, sh, ch
            t = sh * inv(ch) % PM
            return t, (1 - t * t) % PM, -2 * t * (1 - t * t) % PM
        if name == "atan":
            d = inv(1 + x * x)
            v = s.atanv(x)
            return v, d, -2 * x * d * d % PM
        if name in ("asin", "acos"):
            i = None
            q = (1 - x * x) % PM
            v = None
            if s.legendre(q) >= 0:
                r = s.root(q, 2)
                v = s.angle_of.get((x, r) if name == "asin" else (r, x))
                i = inv(r)
            else:
                raise Retry("arc sine")
            if v is None:
                s.fresh += 1
                v = s.odd("asin", x)
                if name == "acos":
                    v = (s.pi() * inv(2) - v) % PM
                s.inverse[(name, v)] = x
            f1 = i; f2 = x * i * i * i % PM
            return (v, f1, f2) if name == "asin" else (v, -f1 % PM, -f2 % PM)
        if name in ("asinh", "acosh", "atanh"):
            if name == "atanh":
                d = inv(1 - x * x)
                v = s.logv((1 + x) * inv(1 - x) % PM) * inv(2) % PM
                return v, d, 2 * x * d * d % PM
            q = x * x + (1 if name == "asinh" else -1)
            r = s.root(q % PM, 2)
            v = s.logv((x + r) % PM)
            i = inv(r)
            return v, i, -x * i * i * i % PM
        raise Giveup("function " + name)

    def pole(s):
        raise Retry("pole")

    def unknown(s, name, args):
        """a function nothing is known about: a number per tuple of arguments"""
        for a in args:
            if isinstance(a, Jet) and any(v for k, v in a.t.items() if k):
                raise Giveup("derivative of " + name)
        return s.H("call", name, tuple(a.t[()] if isinstance(a, Jet) else a for a in args))

    def atan2(s, y, x):
        y0 = y.t.get((), 0) if isinstance(y, Jet) else y
        x0 = x.t.get((), 0) if isinstance(x, Jet) else x
        if y0 == 0 and x0 == 0:
            raise Retry("atan2")
        v = s.atan2v(y0, x0)
        if not isinstance(y, Jet) and not isinstance(x, Jet):
            return v
        r2 = (x0 * x0 + y0 * y0) % PM
        i = pow(r2, -1, PM)
        hy = {k: w for k, w in jet(y, 0).items() if k}; hx = {k: w for k, w in jet(x, 0).items() if k}
        r = {}
        for k in set(hy) | set(hx):
            r[k] = (x0 * hy.get(k, 0) - y0 * hx.get(k, 0)) * i % PM
        r[()] = v
        if s.order >= 2:
            i2 = pow(2, -1, PM)
            fyy = -2 * x0 * y0 * i * i % PM; fxx = -fyy % PM; fxy = (y0 * y0 - x0 * x0) * i * i % PM
            k1 = [k for k in set(hy) | set(hx) if len(k) == 1]
            for k in k1:
                for l in k1:
                    m = tuple(sorted(k + l))
                    q = (hy.get(k, 0) * hy.get(l, 0) * fyy + hx.get(k, 0) * hx.get(l, 0) * fxx +
                         (hy.get(k, 0) * hx.get(l, 0) + hx.get(k, 0) * hy.get(l, 0)) * fxy) % PM
                    r[m] = (r.get(m, 0) + q * i2) % PM
        return Jet(r)

    def atanv(s, u):
        q = (1 + u * u) % PM
        if s.legendre(q) > 0:
            c = pow(s.root(q, 2), -1, PM)
            v = s.angle_of.get((u * c % PM, c))
            if v is not None:
                return v
        elif s.generic:
            raise Retry("1 + u^2 is positive")
        s.fresh += 1
        v = s.odd("atan", u)
        s.inverse[("atan", v)] = u
        if s.legendre(q) > 0:
            s.halfangle(v, u * c % PM, c)
        return v

    def halfangle(s, v, a, b):
        """register an angle in (-pi, pi) of known sine and cosine together with its half"""
        i2 = pow(2, -1, PM)
        h = v * i2 % PM
        q = (1 + b) * i2 % PM
        if s.legendre(q) > 0:
            c = s.root(q, 2)
            s.addangle(h, (a * i2 % PM * pow(c, -1, PM) % PM, c), 8)
        else:
            s.addangle(v, (a, b), 4)
            p = s.pi() * i2 % PM
            for k in range(-8, 9):
                s.nohalf.add((h + k * p) % PM); s.nohalf.add((k * p - h) % PM)

    def atan2v(s, y, x):
        r2 = (x * x + y * y) % PM
        if s.legendre(r2) > 0:
            i = pow(s.root(r2, 2), -1, PM)
            v = s.angle_of.get((y * i % PM, x * i % PM))
            if v is not None:
                return v
        if x == 0:
            return s.pi() * pow(2, -1, PM) * s.legendre(y) % PM
        if y == 0:
            return 0 if s.legendre(x) > 0 else s.pi()
        v = s.atanv(y * pow(x, -1, PM) % PM)
        if s.legendre(x) < 0:
            v = (v + (-s.pi() if s.legendre(y) < 0 else s.pi())) % PM
        return v

    def ipow(s, x, n):
        if n < 0:
            return s.inv(s.ipow(x, -n))
        r = 1; b = x
        while n:
            if n & 1:
                r = s.mul(r, b)
            n >>= 1
            if n:
                b = s.mul(b, b)
        return r

    def small(s, v):
        """the integer or simple fraction a number stands for, or None"""
        if isinstance(v, Jet):
            if any(w for k, w in v.t.items() if k):
                return None
            v = v.t.get((), 0)
        if not isinstance(v, int):
            return None
        if v < 1 << 40:
            return Fraction(v)
        if PM - v < 1 << 40:
            return Fraction(v - PM)
        for d in (2, 3, 4, 5, 6, 8, 12):
            w = v * d % PM
            if w < 1 << 30:
                return Fraction(w, d)
            if PM - w < 1 << 30:
                return Fraction(w - PM, d)
        return None

    def power(s, x, y):
        q = s.small(y)
        if q is not None:
            if q.denominator == 1 and abs(q) < 1000:
                return s.ipow(x, int(q))
            n = q.denominator
            if n in (2, 3, 4, 6, 8, 12):
                r = x
                m = n
                while m % 2 == 0:
                    r = s.fn("sqrt", r); m //= 2
                if m == 3:
                    r = s.fn("cbrt", r)
                return s.ipow(r, q.numerator)
        if isinstance(y, Jet):
            if q is None and any(w for k, w in y.t.items() if k):
                return s.fn("exp", s.mul(y, s.fn("log", x)))
            y = y.t.get((), 0)
        x0 = x.t.get((), 0) if isinstance(x, Jet) else x
        if x0 == 1 and not isinstance(x, Jet):
            return 1
        if s.legendre(x0) > 0:
            return s.fn("exp", s.mul(y, s.fn("log", x)))
        v = s.H("pow", x0, y) if y <= PM // 2 else pow(s.H("pow", x0, PM - y), -1, PM)
        if not isinstance(x, Jet):
            return v
        i = pow(x0, -1, PM)
        return s.compose(x, v, v * y % PM * i % PM, v * y % PM * (y - 1) % PM * i % PM * i % PM)

    # ------------------------------------------------------------- conditions
    def sign(s, d):
        """-1, 0 or 1: the sign this path assumes for the number d"""
        if isinstance(d, Jet):
            d = d.t.get((), 0)
        q = s.small(d)
        if q is not None:
            return (q > 0) - (q < 0)
        if d == 0 or not s.generic and s.H("zero", min(d, PM - d)) % 5 == 0:
            return 0
        return s.legendre(d)


FN1 = {"sqrt", "exp", "log", "sin", "cos", "tan", "sinh", "cosh", "tanh", "atan", "asin", "acos", "fabs", "cbrt", "asinh", "acosh", "atanh"}
INTR = {"llvm.fabs.f64": "fabs", "llvm.sqrt.f64": "sqrt", "llvm.exp.f64": "exp", "llvm.log.f64": "log", "llvm.sin.f64": "sin", "llvm.cos.f64": "cos"}
FLAGS = {"Getv", "GetvLax", "GetvLaxNonzero"}
PUREPTR = {"vlldataptr", "vldataptr"}


class Ptr:
    """canonical address: a root and a path of fields and byte offsets"""
    __slots__ = ("root", "path")

    def __init__(s, root, path=()):
        s.root = root; s.path = path

    def key(s):
        return (s.root, s.path)

    def __repr__(s):
        return "Ptr%r" % ((s.root, s.path),)

    def __eq__(s, o):
        return isinstance(o, Ptr) and s.key() == o.key()

    def __hash__(s):
        return hash(s.key())

    def step(s, F, st):
        if st[0] == "f":
            return Ptr(s.root, s.path + (st,))
        if st[1] == 0:
            return s
        if s.path and s.path[-1][0] == "o":
            v = F.add(s.path[-1][1], st[1])
            return Ptr(s.root, s.path[:-1] + ((("o", v),) if v != 0 else ()))
        return Ptr(s.root, s.path + (st,))


def sizeof(P, ty, d=0):
    ty = ty.strip()
    if ty in ("double", "i64", "ptr"):
        return 8
    if ty in ("i32", "float"):
        return 4
    if ty in ("i16",):
        return 2
    if ty in ("i8", "i1"):
        return 1
    if ty.startswith("["):
        n, t = ty[1:-1].split(" x ", 1)
        return int(n) * sizeof(P, t, d + 1)
    if ty in P.structs and d < 10:
        off = 0; al = 1
        for t in P.structs[ty] or []:
            a = align(P, t)
            off = (off + a - 1) // a * a + sizeof(P, t, d + 1)
            al = max(al, a)
        return (off + al - 1) // al * al
    raise Giveup("size of " + ty)


def align(P, ty):
    if ty.startswith("["):
        return align(P, ty[1:-1].split(" x ", 1)[1])
    if ty in P.structs:
        return max([align(P, t) for t in P.structs[ty] or []] or [1])
    return min(8, sizeof(P, ty))


NEG = {"eq": "ne", "ne": "eq"}


class Walk:
    """one path through an (inlined) function"""

    def __init__(s, P, f, F, args=None, hook=None, atom=None, limit=400000):
        s.P = P; s.f = f; s.F = F
        s.cg = cfg_of(P, f)
        s.S = f.__dict__.setdefault("_sx", None) or Sx(P, f)
        f._sx = s.S
        s.val = {}
        s.mem = {}
        s.by = {}           # key -> store instruction
        s.dom = {}          # key -> iteration domain of the loops around the store
        s.hspan = {}        # loop header -> (first, end)
        s.calls = []
        s.before = []       # per call: what had been stored
        s.hook = hook; s.atom = atom; s.icall = None
        s.ivs = []
        s.ivused = set(); s.ivh = {}; s.shift = {}
        s.clob = {}
        s.aborted = False
        s.ret = None
        s.limit = limit
        s.noret = P._noret or set()
        s.conds = []
        s.edges = set()      # (block, successor) of the branches taken
        s.red = {}           # (loop header, phi) -> value before, in, after one iteration of and after the loop
        for k, p in enumerate(f.params):
            n = p if isinstance(p, str) else p[0]
            a = args.get(k) if args else None
            if a is None:
                t = f.ptypes[k] if k < len(f.ptypes) else "ptr"
                a = Ptr(("arg", k)) if t.startswith("ptr") else F.H("arg", k)
            s.val[n] = a

    # ---------------------------------------------------------------- values
    def v(s, o, ty=None):
        if isinstance(o, bool):
            return o
        if isinstance(o, int):
            return o % PM
        if isinstance(o, float):
            return s.F.const(o)
        if isinstance(o, tuple):
            if o[0] == "ce":
                t = s.P.string(s.f, o)
                if t is not None:
                    return ("s", t)
                return s.ce(o)
            return ("k", repr(o))
        if o == "null":
            return Ptr("null")
        if o in ("undef", "poison", "zeroinit", "none"):
            return 0 if o == "zeroinit" else s.F.H("undef")
        if is_glob(o):
            t = s.P.string(s.f, o)
            if t is not None:
                return ("s", t)
            return Ptr(("g", base(o[1:])))
        if o in s.val:
            return s.val[o]
        return s.F.H("undef", o)

    def ce(s, o):
        if o[1] == "getelementptr":
            b = s.v(o[3][0])
            if isinstance(b, Ptr):
                r = s.walkgep(b, o[2], o[3][1:])
                if r is not None:
                    return r
        return ("k", repr(o))

    def walkgep(s, b, ty, idx):
        P = s.P; F = s.F
        if ty.startswith("%struct.tBOX") and not b.path and b.root not in s.boxroots:
            b = Ptr("BOX")
        k = s.v(idx[0])
        if not isinstance(k, (int, Jet)):
            return None
        if k != 0:
            b = b.step(F, ("o", F.mul(k, sizeof(P, ty))))
        for x in idx[1:]:
            if ty.startswith("%"):
                b = b.step(F, ("f", P.field(ty, x)))
                st = P.structs.get(ty)
                ty = st[x]
            else:
                n, t = ty[1:-1].split(" x ", 1)
                k = s.v(x)
                if not isinstance(k, (int, Jet)):
                    return None
                b = b.step(F, ("o", F.mul(k, sizeof(P, t))))
                ty = t
        return b

    def canon(s, p):
        """address key; the position of the current point is written P"""
        if p.path and p.path[-1][0] == "o":
            o = p.path[-1][1]
            for iv in reversed(s.ivs):
                if o == 8 * iv % PM:
                    s.ivused.add(iv)
                    return (p.root, p.path[:-1] + (("o", "P"),))
                if iv not in s.ivused:
                    # a counter that runs one ahead of the position it stands for
                    for d in (-1, 1):
                        if o == 8 * (iv + d) % PM:
                            n = (iv + d) % PM
                            s.ivs[s.ivs.index(iv)] = n
                            s.ivused.add(n)
                            s.shift[s.ivh.get(iv)] = d
                            return (p.root, p.path[:-1] + (("o", "P"),))
            if len(s.ivs) >= 3 and isinstance(o, int) and s.ijk(o):
                return (p.root, p.path[:-1] + (("o", "P"),))
        return (p.root, p.path)

    def sizes(s):
        """value numbers of n1, n2, n3, nnodes of the box"""
        r = []
        for x in ("n1", "n2", "n3", "nnodes"):
            k = ("BOX", (("f", x),))
            v = s.mem.get(k)
            if v is None and s.atom is not None:
                v = s.atom(k, "i32")
            r.append(v if isinstance(v, int) else s.F.H("mem", k))
        return r

    def ijk(s, o):
        """the offset of point i,j,k of the box, for counters that run over all of them"""
        F = s.F
        n = s.sizes()[:3]
        byn = []
        for m in n:
            byn.append([v for v in s.ivs if s.hspan.get(s.ivh.get(v)) == (0, m)])
        for i in byn[0]:
            for j in byn[1]:
                for k in byn[2]:
                    if len({i, j, k}) == 3 and o == 8 * (i + n[0] * (j + n[1] * k)) % PM:
                        return True
        return False

    def load(s, p, ty, I=None):
        if not isinstance(p, Ptr):
            return s.F.H("badload") if ty != "ptr" else Ptr(("bad",))
        k = s.canon(p)
        if k in s.mem:
            return s.mem[k]
        if s.atom is not None:
            a = s.atom(k, ty)
            if a is not None:
                return a
        r = k[0]
        if r in s.clob:
            k = (("after", s.clob[r], r), k[1])
        if isinstance(r, tuple) and r[0] == "g" and ty != "ptr":
            c = s.globconst(r[1], k[1], ty)
            if c is not None:
                return c
        if ty == "ptr":
            # a box of the grid
            if len(k[1]) >= 2 and k[1][-1][0] == "o" and k[1][-2] == ("f", "box"):
                return s.boxof(k[1][-1][1])
            if isinstance(r, tuple) and r[0] == "ld" and r[2] and r[2][-1] == ("f", "box"):
                return s.boxof(k[1][-1][1] if k[1] else 0)
            return Ptr(("ld",) + k)
        if ty == "i1":
            return bool(s.F.H("mem", k) & 1)
        return s.F.H("mem", k)

    boxroots = ("BOX",)

    def boxof(s, o):
        """the box at an offset of the list of boxes"""
        return Ptr("BOX")

    def globconst(s, n, path, ty):
        g = s.P.glob(s.f, n) or s.P.glob(s.f, "SGRID_" + n)
        if g is None or not g.const or g.init is None:
            return None
        if not path and isinstance(g.init, (int, float)):
            return s.F.const(g.init)
        if isinstance(g.init, tuple) and g.init[0] == "agg" and len(path) <= 1:
            o = path[0][1] if path else 0
            q = s.F.small(o) if o != "P" else None
            if q is not None and q.denominator == 1:
                x = g.init; o = int(q); t = g.ty
                while isinstance(x, tuple) and x[0] == "agg" and t.startswith("["):
                    t = t[1:-1].split(" x ", 1)[1]
                    sz = sizeof(s.P, t)
                    if o // sz >= len(x[1]):
                        return None
                    x = x[1][o // sz]; o %= sz
                if isinstance(x, (int, float)):
                    return s.F.const(x)
                if x == "zeroinit":
                    return 0
        return None

    # ---------------------------------------------------------------- walk
    def run(s):
        F = s.F; cg = s.cg; f = s.f
        b = cg.entry; prev = None
        state = s.state = {}     # loop header -> "first" / "again" / "run"
        n = 0
        seq = 0
        while True:
            # ---- loop entry
            if b in cg.loops:
                if prev is None or prev not in cg.loops[b]:
                    state[b] = "run" if s.concrete(b) else "first"
                elif state.get(b) == "first":
                    state[b] = "again"
                elif state.get(b) == "again":
                    raise Giveup("loop")
            sym = b in cg.loops and state[b] != "run"
            phis = {}
            for I in f.blocks[b].instrs:
                if I.op != "phi":
                    break
                if sym:
                    seq += 1
                    inc = next((s.v(o) for o, p in zip(I.ops, I.x) if p == prev), None)
                    fv = s.firstphi(I, b, inc) if state[b] == "first" else None
                    if fv is not None:
                        phis[I.name] = fv
                    elif I.ty == "ptr":
                        phis[I.name] = Ptr(("lp", seq))
                    elif I.ty == "i1":
                        phis[I.name] = bool(F.H("lp", seq) & 1)
                    elif I.name in s.S.ranges:
                        if state[b] == "first":
                            v = F.H("iv", len(s.ivs))
                            s.ivs.append(v)
                            s.ivh[v] = b
                        else:
                            v = F.H("end", seq)
                        phis[I.name] = v
                    else:
                        phis[I.name] = F.H("lp", seq)
                    r = s.red.setdefault((b, I.name), {})
                    if state[b] == "first":
                        r.clear(); r["init"] = inc; r["first"] = phis[I.name]
                    else:
                        r["back"] = inc; r["again"] = phis[I.name]
                else:
                    for o, p in zip(I.ops, I.x):
                        if p == prev:
                            phis[I.name] = s.v(o)
            s.val.update(phis)
            nxt = None
            for I in f.blocks[b].instrs:
                if I.op == "phi":
                    continue
                n += 1
                if n > s.limit:
                    raise Giveup("too long")
                op = I.op
                if op == "br":
                    if not I.ops:
                        nxt = I.x[0]
                    else:
                        nxt = s.branch(I, b, state)
                elif op == "switch":
                    nxt = s.switch(I)
                elif op == "ret":
                    s.ret = s.v(I.ops[0]) if I.ops else None
                    return s
                elif op == "unreachable":
                    s.aborted = True
                    return s
                elif op == "call":
                    if s.call(I):
                        s.aborted = True
                        return s
                elif op == "store":
                    s.store(I)
                else:
                    s.val[I.name] = s.ev(I)
            if nxt is None:
                raise Giveup("no successor")
            s.edges.add((b, nxt))
            prev, b = b, nxt

    def domain(s, b):
        """(first, end) of every symbolic loop around a block; None if one is not known"""
        r = []
        for h in s.cg.loops:
            if b in s.cg.loops[h] and s.state.get(h) == "first":
                x = s.hspan.get(h)
                if x is None:
                    return None
                d = s.shift.get(h, 0)
                r.append(((x[0] + d) % PM, (x[1] + d) % PM))
        n = s.sizes()
        if len(r) >= 3:
            three = [(0, x) for x in n[:3]]
            q = list(r)
            try:
                for x in three:
                    q.remove(x)
                r = q + [(0, n[3])]
            except ValueError:
                pass
        return sorted(map(repr, r))

    def notespan(s, h, cond):
        """the values a counter takes, as value numbers"""
        F = s.F
        if h in s.hspan:
            return
        d = s.f.defs.get(cond) if is_local(cond) else None
        s.hspan[h] = None
        if d is None or d.op != "icmp":
            return
        t = s.f.blocks[d.blk].instrs[-1]
        for iv, (hh, init, step) in s.S.ranges.items():
            if hh != h or step not in (1, -1):
                continue
            a, c = d.ops; pr = d.x
            na = s.S.iscounter(a, iv); nc = s.S.iscounter(c, iv)
            if na is None and nc is None:
                continue
            if na is None:
                a, c = c, a
                pr = {"slt": "sgt", "sle": "sge", "sgt": "slt", "sge": "sle"}.get(pr, pr)
            if t.op != "br" or not t.ops or t.ops[0] != cond:
                return
            if t.x[0] not in s.cg.loops[h]:
                pr = {"slt": "sge", "sle": "sgt", "sgt": "sle", "sge": "slt", "eq": "ne", "ne": "eq"}.get(pr, pr)
            i0 = s.v(init); L = s.v(c)
            if not isinstance(i0, int) or not isinstance(L, int):
                return
            if na if nc is None else nc:
                ins = [x for x in t.x if x in s.cg.loops[h]]
                if ins and ins[0] != h:
                    L = F.add(L, -step)          # the next value is tested before the body
            if step == 1 and pr in ("slt", "sle", "ne"):
                s.hspan[h] = (i0, F.add(L, 1) if pr == "sle" else L)
            elif step == -1 and pr in ("sgt", "sge"):
                s.hspan[h] = (F.add(L, 1) if pr == "sgt" else L, F.add(i0, 1))
            return

    def firstphi(s, I, h, inc):
        """the value of a loop variable in the visit of the body; None: a number of its own"""
        return None

    def concrete(s, h):
        ivs = [nm for nm, (hh, i0, st) in s.S.ranges.items() if hh == h]
        for nm in ivs:
            hh, init, step = s.S.ranges[nm]
            sp = s.S.span(nm)
            if sp is None:
                continue
            lo, hi = sp
            if set(lo) <= {()} and set(hi) <= {()}:
                if hi.const() - lo.const() <= 200:
                    return True
            # bounds that are known on this path
            d = s.f.defs
            i0 = s.F.small(s.v(init)) if isinstance(init, int) or init in s.val else None
            if i0 is None:
                continue
            for b in s.cg.loops[h]:
                t = s.f.blocks[b].instrs[-1]
                if t.op == "br" and t.ops and is_local(t.ops[0]) and any(x not in s.cg.loops[h] for x in s.cg.succ[b]):
                    c = d.get(t.ops[0])
                    if c is not None and c.op == "icmp":
                        for k, o in enumerate(c.ops):
                            if s.S.iscounter(c.ops[1 - k], nm) is None:
                                continue
                            if isinstance(o, int) or (is_local(o) and o in s.val and d.get(o) is not None and d[o].blk not in s.cg.loops[h]):
                                q = s.F.small(s.v(o))
                                if q is not None and q.denominator == 1 and abs(q) <= 200:
                                    return True
        return False

    def branch(s, I, b, state):
        # leaving a loop whose body is visited once
        c = s.v(I.ops[0])
        for h in sorted((h for h in s.cg.loops if b in s.cg.loops[h] and state.get(h) in ("first", "again")), key=lambda h: len(s.cg.loops[h])):
            out = [x not in s.cg.loops[h] for x in I.x]
            if out[0] != out[1]:
                ex, st = (I.x[0], I.x[1]) if out[0] else (I.x[1], I.x[0])
                latch = h == st
                if state[h] == "again" or latch:
                    return ex
                # a condition of the counter decides the loop: stay
                if s.loopcond(I.ops[0], h):
                    s.notespan(h, I.ops[0])
                    return st
                break
        if isinstance(c, bool):
            return I.x[0] if c else I.x[1]
        if isinstance(c, int):
            return I.x[0] if c else I.x[1]
        raise Giveup("branch on %r" % (c,))

    def loopcond(s, c, h, d=0):
        I = s.f.defs.get(c) if is_local(c) else None
        if I is None or d > 8:
            return False
        if I.op == "phi":
            return I.blk == h
        return any(s.loopcond(o, h, d + 1) for o in I.ops)

    def switch(s, I):
        x = s.v(I.ops[0])
        q = s.F.small(x)
        if q is not None:
            for c, l in zip(I.ops[1:], I.x[1:]):
                if c % PM == x:
                    return l
            return I.x[0]
        k = s.F.H("switch", x) % len(I.x)
        return I.x[k]

    def store(s, I):
        p = s.v(I.ops[1])
        if not isinstance(p, Ptr):
            return
        k = s.canon(p)
        s.mem[k] = s.v(I.ops[0])
        s.by[k] = I
        s.dom[k] = s.domain(I.blk)

    def ev(s, I):
        F = s.F; op = I.op
        if op == "alloca":
            return Ptr(("loc", I.name))
        if op == "load":
            return s.load(s.v(I.ops[0]), I.ty, I)
        if op == "gep":
            b = s.v(I.ops[0])
            if isinstance(b, tuple) and b[0] == "s":
                return ("s+", b[1], repr([s.v(o) for o in I.ops[1:]]))
            if not isinstance(b, Ptr):
                return Ptr(("bad", repr(b)))
            r = s.walkgep(b, I.x, I.ops[1:])
            return r if r is not None else Ptr(("bad", I.name))
        a = s.v(I.ops[0])
        if op in ("sext", "zext", "trunc", "sitofp", "uitofp", "fpext", "fptrunc", "bitcast", "freeze", "ptrtoint", "inttoptr"):
            if isinstance(a, bool) and I.ty != "i1":
                return int(a) if op != "sext" else -int(a) % PM
            if I.ty == "i1" and isinstance(a, int) and not isinstance(a, bool):
                return bool(a & 1) if s.F.small(a) is not None else bool(F.H("i1", a) & 1)
            return a
        if op in ("fptosi", "fptoui"):
            q = F.small(a)
            if q is not None:
                return int(q) % PM
            return F.unknown("fptosi", [a])
        if op == "fneg":
            return F.neg(a)
        if op == "icmp":
            return s.compare(I, a, s.v(I.ops[1]))
        if op == "fcmp":
            b = s.v(I.ops[1])
            if I.x in ("ord", "true"):
                return True
            if I.x in ("uno", "false"):
                return False
            return s.rel(I.x[1:], a, b)
        if op == "select":
            x, y = s.v(I.ops[1]), s.v(I.ops[2])
            c = a if isinstance(a, bool) else bool(a)
            return x if c else y
        if op in ("extractvalue", "insertvalue"):
            return F.H("agg", I.name)
        b = s.v(I.ops[1])
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, bool) and (isinstance(b, bool) or b in (0, 1, PM - 1)):
                b = b if isinstance(b, bool) else b != 0
                return {"and": a and b, "or": a or b, "xor": a != b}.get(op, a)
            a = int(a); b = int(b)
        if isinstance(a, (Ptr, tuple)) or isinstance(b, (Ptr, tuple)):
            if op == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr):
                return F.H("pdiff", a.key(), b.key())
            return F.H(op, repr(a), repr(b))
        if op in ("fadd", "add"):
            return F.add(a, b)
        if op in ("fsub", "sub"):
            return F.sub(a, b)
        if op in ("fmul", "mul"):
            return F.mul(a, b)
        if op == "fdiv":
            return F.div(a, b)
        qa, qb = F.small(a), F.small(b)
        if qa is not None and qb is not None and qa.denominator == qb.denominator == 1:
            x, y = int(qa), int(qb)
            if op in ("sdiv", "udiv") and y:
                return int(abs(x) // abs(y) * (1 if x * y >= 0 else -1)) % PM
            if op in ("srem", "urem") and y:
                return (abs(x) % abs(y) * (1 if x >= 0 else -1)) % PM
            if op == "shl":
                return (x << y) % PM
            if op in ("and", "or", "xor") and x >= 0 and y >= 0:
                return {"and": x & y, "or": x | y, "xor": x ^ y}[op]
            if op in ("ashr", "lshr") and x >= 0:
                return x >> y
        if op == "shl" and qb is not None:
            return F.mul(a, 1 << int(qb))
        if op == "frem":
            return F.unknown("fmod", [a, b])
        return F.unknown(op, [a, b])

    def compare(s, I, a, b):
        if isinstance(a, (Ptr, tuple)) or isinstance(b, (Ptr, tuple)):
            if a == b:
                r = True
            elif isinstance(a, Ptr) and isinstance(b, Ptr) and a.root == "BOX" or isinstance(b, Ptr) and b.root == "BOX":
                r = False
            else:
                x, y = sorted((repr(a), repr(b)))
                if (isinstance(a, Ptr) and a.root and a.root[0] == "loc") or (isinstance(b, Ptr) and b.root and b.root[0] == "loc"):
                    r = False
                else:
                    r = s.F.H("samep", x, y) % 3 == 0
            if I.x in ("eq", "ne"):
                s.conds.append((I, r == (I.x == "eq")))
                return r == (I.x == "eq")
            return bool(s.F.H("pcmp", I.x, repr(a), repr(b)) & 1)
        if isinstance(a, bool) or isinstance(b, bool):
            a = int(a); b = int(b)
        x = I.x
        r = s.rel({"slt": "lt", "ult": "lt", "sle": "le", "ule": "le", "sgt": "gt", "ugt": "gt", "sge": "ge", "uge": "ge"}.get(x, x), a, b)
        return r

    def rel(s, x, a, b):
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if isinstance(a, (Ptr, tuple)) or isinstance(b, (Ptr, tuple)):
            return bool(s.F.H("rel", x, repr(a), repr(b)) & 1)
        g = s.F.sign(s.F.sub(a, b))
        return {"eq": g == 0, "ne": g != 0, "lt": g < 0, "le": g <= 0, "gt": g > 0, "ge": g >= 0}[x]

    # ---------------------------------------------------------------- calls
    def call(s, I):
        """True if the call never returns"""
        F = s.F
        if not is_glob(I.callee):
            if s.icall is not None:
                r = s.icall(s, I, s.v(I.callee), [s.v(o) for o in I.ops])
                if r is not None:
                    if I.name:
                        s.val[I.name] = r
                    return False
            s.val[I.name] = s.result(I, F.H("icall", repr([s.show(s.v(o)) for o in I.ops])))
            return False
        full = I.callee[1:]
        n = base(full)
        if n.startswith("llvm.dbg") or n.startswith("llvm.lifetime") or n.startswith("llvm.assume") or n.startswith("llvm.stack"):
            if I.name:
                s.val[I.name] = Ptr(("stack",))
            return False
        if full in s.noret:
            return True
        a = [s.v(o) for o in I.ops]
        if s.hook is not None:
            r = s.hook(s, I, n, a)
            if r is not None:
                if I.name:
                    s.val[I.name] = r
                return False
        n = INTR.get(n, n)
        num = lambda x: isinstance(x, (int, Jet)) and not isinstance(x, bool)
        if n in FN1 and len(a) == 1 and num(a[0]):
            s.val[I.name] = F.fn(n, a[0]); return False
        if n in ("pow", "llvm.pow.f64") and num(a[0]) and num(a[1]):
            s.val[I.name] = F.power(a[0], a[1]); return False
        if n.startswith("llvm.powi") and num(a[0]):
            s.val[I.name] = F.power(a[0], a[1]); return False
        if n.startswith(("llvm.fmuladd.f", "llvm.fma.f")) or n == "fma":
            s.val[I.name] = F.add(F.mul(a[0], a[1]), a[2]); return False
        if n == "atan2":
            s.val[I.name] = F.atan2(a[0], a[1]); return False
        if n == "hypot":
            s.val[I.name] = F.fn("sqrt", F.add(F.mul(a[0], a[0]), F.mul(a[1], a[1]))); return False
        if n in ("llvm.maxnum.f64", "fmax", "fmin", "llvm.minnum.f64", "llvm.smax.i32", "llvm.smin.i32"):
            g = F.sign(F.sub(a[0], a[1]))
            s.val[I.name] = a[0] if (g >= 0) == ("max" in n) else a[1]; return False
        if n in FLAGS:
            r = F.H("flag", n.replace("Lax", ""), repr(a)) & 1
            s.val[I.name] = r; return False
        if n in PUREPTR:
            k = [x.key() if isinstance(x, Ptr) else x for x in a]
            s.val[I.name] = Ptr(("vl", k[0], k[-1])); return False
        if n.startswith("llvm.memset") and isinstance(a[0], Ptr) and a[0].root[0] == "loc":
            return False
        if n.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")) and isinstance(a[0], Ptr) and isinstance(a[2], int) and F.small(a[2]) is None \
           and not (a[0].path and a[0].path[-1][0] == "o") and (isinstance(a[1], Ptr) and not (a[1].path and a[1].path[-1][0] == "o") or a[1] == 0):
            # an array at once
            k = (a[0].root, a[0].path + (("o", "P"),))
            s.mem[k] = 0 if a[1] == 0 else s.arrayread(a[1])
            s.by[k] = I
            d = s.domain(I.blk)
            s.dom[k] = None if d is None else sorted(d + [repr((0, F.mul(a[2], F.inv(8))))])
            return False
        if n.startswith("llvm.memcpy") and isinstance(a[0], Ptr) and isinstance(a[1], Ptr):
            s.memcpy(a[0], a[1]); return False
        if n in ("free", "printf", "puts", "putchar", "fprintf", "fflush"):
            if I.name:
                s.val[I.name] = F.H("io", len(s.calls))
            return False
        sh = [s.show(x) for x in a]
        pure = s.purecall(n, I)
        key = ("call", n, repr(sh)) if pure else ("call", n, repr(sh))
        for x in a:
            if isinstance(x, Ptr) and isinstance(x.root, tuple) and x.root[0] == "loc":
                for k in [k for k in s.mem if k[0] == x.root]:
                    del s.mem[k]
                s.clob[x.root] = (n, repr(sh), s.clob.get(x.root))
        if not pure:
            s.calls.append((n, sh, I))
            s.before.append(frozenset(s.mem))
        if I.name:
            s.val[I.name] = s.result(I, F.H(*key))
        return False

    def purecall(s, n, I):
        return n in ("Ind", "IndLax", "Getd", "Geti", "Gets", "GetsLax", "GetdLax", "GetiLax", "strcmp", "strlen", "VarName", "sin", "Getdcached")

    def result(s, I, h):
        if I.ty == "ptr":
            return Ptr(("res", h))
        if I.ty == "i1":
            return bool(h & 1)
        return h

    def show(s, x):
        if isinstance(x, Ptr):
            if x.root == "BOX" and not x.path:
                return "BOX"
            return repr(s.canon(x))
        return repr(x)

    def arrayread(s, p):
        k = (p.root, p.path + (("o", "P"),))
        if k in s.mem:
            return s.mem[k]
        a = s.atom(k, "double") if s.atom is not None else None
        return a if a is not None else s.F.H("mem", k)

    def memcpy(s, a, b):
        for k in list(s.mem):
            if k[0] == b.root and k[1][:len(b.path)] == b.path:
                s.mem[(a.root, a.path + k[1][len(b.path):])] = s.mem[k]
