"""Exact-arithmetic normal form of scalar expressions.

An expression is a quotient of two Laurent polynomials with rational
coefficients over atoms: memory elements, arguments, loop-carried values and
applications of elementary functions whose arguments are themselves in normal
form.  exp(a+b) is exp(a)*exp(b), sqrt(x)^2 is x, |x|^2 is x^2, erf is odd,
and irrational constants are products of sqrt(2), sqrt(pi) and rationals.
Nothing here is evaluated in floating point except by `evalf`, which is used
only to exhibit a point at which two different normal forms differ."""
import math
import struct
from fractions import Fraction as Fr

# -- atoms -------------------------------------------------------------------
_ID, DESC, ARG = {}, [], {}


def atom(desc, arg=None):
    i = _ID.get(desc)
    if i is None:
        i = _ID[desc] = len(DESC)
        DESC.append(desc)
        if arg is not None:
            ARG[i] = arg
    return i


class NoForm(Exception):
    """The expression has no normal form here."""


class Signs:
    """Atoms known to be positive / non-negative in the current context."""

    def __init__(self):
        self.pos, self.nn = set(), set()


CTX = Signs()


def kind(a):
    return DESC[a][0]


def a_pos(a):
    return kind(a) in ("exp", "s2", "sp", "sz") or a in CTX.pos


def a_nn(a):
    return a_pos(a) or kind(a) in ("sq", "ab") or a in CTX.nn


# -- Laurent polynomials: dict monomial -> Fraction ---------------------------
def mmul(x, y):
    if not x:
        return y
    if not y:
        return x
    d = dict(x)
    for a, e in y:
        d[a] = d.get(a, 0) + e
    return tuple(sorted((a, e) for a, e in d.items() if e))


def padd(p, q, c=1):
    r = dict(p)
    for m, v in q.items():
        n = r.get(m, 0) + v * c
        if n:
            r[m] = n
        else:
            r.pop(m, None)
    return r


def pmul_raw(p, q):
    if len(p) * len(q) > 4000:
        raise NoForm("expression too large")
    r = {}
    for m, v in p.items():
        for n, w in q.items():
            k = mmul(m, n)
            s = r.get(k, 0) + v * w
            if s:
                r[k] = s
            else:
                r.pop(k, None)
    return r


def _special(a):
    return kind(a) in ("sq", "ab", "s2")


def preduce(p):
    """Powers of square roots and absolute values above one are expanded."""
    todo = True
    while todo:
        todo = False
        for m in list(p):
            for a, e in m:
                if _special(a) and (e >= 2 or e < 0) and e.denominator == 1 \
                        if isinstance(e, Fr) else _special(a) and (e >= 2 or e < 0):
                    v = p.pop(m)
                    k = int(e) // 2
                    rest = tuple(x for x in m if x[0] != a)
                    if int(e) % 2:
                        rest = mmul(rest, ((a, 1),))
                    sqr = _square(a)
                    if k >= 0:
                        t = {rest: v}
                        for _ in range(k):
                            t = pmul_raw(t, sqr)
                    else:
                        if len(sqr) != 1:
                            raise NoForm("negative power of a root")
                        (sm, sv), = sqr.items()
                        t = {mmul(rest, tuple((x, y * k) for x, y in sm)):
                             v * sv ** k}
                    p = padd(p, t)
                    todo = True
                    break
            if todo:
                break
    return p


def _square(a):
    k = kind(a)
    if k == "s2":
        return {(): Fr(2)}
    if k == "sq":
        r = ARG[a]
        return r.n
    r = ARG[a]
    return preduce(pmul_raw(r.n, r.n))


def pmul(p, q):
    return preduce(pmul_raw(p, q))


def lead(p):
    return max(p, key=lambda m: (sum(e for _, e in m), m))


def pdivexact(p, q):
    """p / q when it leaves no remainder, else None."""
    if len(q) == 1:
        return None
    ats = sorted({a for m in (*p, *q) for a, _ in m})

    def key(m):
        e = dict(m)
        return tuple(e.get(a, 0) for a in ats)
    ql = max(q, key=key)
    r, out = dict(p), {}
    for _ in range(60):
        if not r:
            return out
        m = max(r, key=key)
        k = mmul(m, tuple((a, -e) for a, e in ql))
        c = r[m] / q[ql]
        out[k] = out.get(k, 0) + c
        r = padd(r, pmul_raw({k: c}, q), -1)
        if r and key(max(r, key=key)) >= key(m):
            return None
        if len(out) > 40:
            return None
    return None


class Rat:
    __slots__ = ("n", "d", "_k")

    def __init__(self, n, d=None, norm=True):
        self.n = n
        self.d = d if d is not None else {(): Fr(1)}
        self._k = None
        if norm:
            self._norm()

    def _norm(self):
        n, d = preduce(self.n), preduce(self.d)
        if not d:
            raise NoForm("division by zero")
        if not n:
            self.n, self.d = {}, {(): Fr(1)}
            return
        # a monomial common to all terms of the denominator
        if len(d) == 1:
            (m, c), = d.items()
            inv = {(): Fr(1) / c}
            post = None
            for a, e in m:
                if _special(a):
                    # 1/r = r/r^2
                    inv = pmul_raw(inv, {((a, 1),): Fr(1)})
                    s = _square(a)
                    if len(s) == 1:
                        (sm, sv), = s.items()
                        inv = pmul_raw(inv, {tuple((x, -y) for x, y in sm):
                                             1 / sv})
                    else:
                        post = s if post is None else pmul_raw(post, s)
                else:
                    inv = pmul_raw(inv, {((a, -e),): Fr(1)})
            n = preduce(pmul_raw(n, inv))
            d = {(): Fr(1)} if post is None else preduce(post)
            if len(d) == 1 and () not in d:
                x = Rat(n, d)
                self.n, self.d = x.n, x.d
                return
        if len(d) > 1:
            common = None
            for m in d:
                e = dict(m)
                if common is None:
                    common = dict(e)
                else:
                    common = {a: min(common.get(a, 0), e.get(a, 0))
                              for a in set(common) | set(e)}
            common = {a: e for a, e in common.items()
                      if e and not _special(a)}
            if common:
                k = tuple(sorted((a, -e) for a, e in common.items()))
                n = {mmul(m, k): v for m, v in n.items()}
                d = {mmul(m, k): v for m, v in d.items()}
            c = d[lead(d)]
            if c != 1:
                n = {m: v / c for m, v in n.items()}
                d = {m: v / c for m, v in d.items()}
            q = pdivexact(n, d)
            if q is not None:
                n, d = preduce(q), {(): Fr(1)}
            else:
                q = pdivexact(d, n)
                if q is not None and len(q) >= 1:
                    x = Rat({(): Fr(1)}, q)
                    self.n, self.d = x.n, x.d
                    return
        self.n, self.d = n, d

    # -- arithmetic
    def __add__(self, o):
        if self.d == o.d:
            return Rat(padd(self.n, o.n), self.d)
        return Rat(padd(pmul(self.n, o.d), pmul(o.n, self.d)),
                   pmul(self.d, o.d))

    def __neg__(self):
        return Rat({m: -v for m, v in self.n.items()}, self.d, False)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        return Rat(pmul(self.n, o.n), pmul(self.d, o.d))

    def inv(self):
        if not self.n:
            raise NoForm("division by zero")
        return Rat(self.d, self.n)

    def __truediv__(self, o):
        return self * o.inv()

    def ipow(self, k):
        if k < 0:
            return self.inv().ipow(-k)
        r = ONE
        for _ in range(k):
            r = r * self
        return r

    def is_zero(self):
        return not self.n

    def __eq__(self, o):
        if not isinstance(o, Rat):
            return NotImplemented
        if self.key() == o.key():
            return True
        return (self - o).is_zero()

    def key(self):
        if self._k is None:
            self._k = (tuple(sorted(self.n.items())),
                       tuple(sorted(self.d.items())))
        return self._k

    def __hash__(self):
        return hash(self.key())

    def const(self):
        """Rational value, or None."""
        if self.d != {(): 1}:
            return None
        if not self.n:
            return Fr(0)
        if len(self.n) == 1 and () in self.n:
            return self.n[()]
        return None

    def atoms(self):
        out, st = set(), [self]
        while st:
            r = st.pop()
            for p in (r.n, r.d):
                for m in p:
                    for a, _ in m:
                        if a not in out:
                            out.add(a)
                            if a in ARG:
                                x = ARG[a]
                                st.extend(x if isinstance(x, tuple) else (x,))
        return out

    def __repr__(self):
        s = pstr(self.n)
        if self.d != {(): 1}:
            s = "(%s)/(%s)" % (s, pstr(self.d))
        return s


def pstr(p):
    if not p:
        return "0"
    out = []
    for m, v in sorted(p.items()):
        t = "*".join(astr(a) + ("" if e == 1 else "^%s" % e) for a, e in m)
        if not t:
            out.append(str(v))
        elif v == 1:
            out.append(t)
        elif v == -1:
            out.append("-" + t)
        else:
            out.append("%s*%s" % (v, t))
    return " + ".join(out).replace("+ -", "- ")


NAMES = {}   # parameter index -> name, for messages


def astr(a):
    d = DESC[a]
    if d[0] == "ld":
        return "%s[%s]" % (NAMES.get(d[1], "p%d" % d[1]), d[2])
    if d[0] in ("p", "sz"):
        return NAMES.get(d[1], "p%d" % d[1])
    if d[0] in ("P", "R", "E"):
        return "%s%d.%d" % (d[0], d[1], d[2])
    if d[0] == "s2":
        return "sqrt2"
    if d[0] == "sp":
        return "sqrtpi"
    if a in ARG:
        x = ARG[a]
        return "%s(%s)" % ({"sq": "sqrt", "ab": "fabs"}.get(d[0], d[0]),
                           ", ".join(map(repr, x)) if isinstance(x, tuple)
                           else repr(x))
    return str(d)


def rat_atom(a, e=1):
    return Rat({((a, e),): Fr(1)}, None, False)


def num(c):
    c = Fr(c)
    return Rat({(): c} if c else {}, None, False)


ONE, ZERO = num(1), num(0)
S2, SP = atom(("s2",)), atom(("sp",))
PI = rat_atom(SP, 2)
SQRT2 = rat_atom(S2)


# -- signs -------------------------------------------------------------------
def m_nn(m):
    return all(a_nn(a) or (e == int(e) and int(e) % 2 == 0) for a, e in m)


def p_nn(p):
    return all(v > 0 and m_nn(m) for m, v in p.items())


def nonneg(r):
    if p_nn(r.n) and p_nn(r.d):
        return True
    neg = {m: -v for m, v in r.n.items()}
    nd = {m: -v for m, v in r.d.items()}
    return p_nn(neg) and p_nn(nd)


# -- functions ---------------------------------------------------------------
def fn_atom(name, r):
    return atom((name, r.key() if isinstance(r, Rat)
                 else tuple(x.key() for x in r)), r)


def isqrt_fr(c):
    """(rational root, squarefree rest) of a positive rational."""
    n = c.numerator * c.denominator
    den = c.denominator
    out, rest, f = 1, 1, 2
    if n > 10 ** 14:
        r = math.isqrt(n)
        if r * r == n:
            return Fr(r, den), 1
        return Fr(1, den), n
    while f * f <= n:
        k = 0
        while n % f == 0:
            n //= f
            k += 1
        out *= f ** (k // 2)
        if k % 2:
            rest *= f
        f += 1
        if f > 100000:
            break
    rest *= n
    return Fr(out, den), rest


def fabs_mono(m):
    r = ()
    for a, e in m:
        if a_nn(a) or (e == int(e) and int(e) % 2 == 0):
            r = mmul(r, ((a, e),))
        else:
            b = fn_atom("ab", rat_atom(a))
            r = mmul(r, ((b, 1), (a, e - 1)) if e != 1 else ((b, 1),))
    return r


def fabs(r):
    c = r.const()
    if c is not None:
        return num(abs(c))
    if nonneg(r):
        return r
    if nonneg(-r):
        return -r
    if r.d != {(): 1}:
        return fabs(Rat(r.n)) / fabs(Rat(r.d))
    if len(r.n) == 1:
        (m, v), = r.n.items()
        return Rat({fabs_mono(m): abs(v)})
    if r.n[lead(r.n)] < 0:
        r = -r
    return rat_atom(fn_atom("ab", r))


def sqrt(r):
    c = r.const()
    if c is not None and c < 0:
        raise NoForm("root of a negative number")
    if not r.n:
        return ZERO
    if r.d != {(): 1}:
        return sqrt(Rat(r.n)) / sqrt(Rat(r.d))
    p = r.n
    out = ONE
    # common factors
    common = None
    for m in p:
        e = dict(m)
        common = dict(e) if common is None else {
            a: min(common.get(a, 0), e.get(a, 0))
            for a in set(common) | set(e)}
    for a, e in sorted((common or {}).items()):
        if not e:
            continue
        if _special(a):
            continue
        if a_pos(a):
            out = out * Rat({((a, Fr(e) / 2),): Fr(1)})
            p = {mmul(m, ((a, -e),)): v for m, v in p.items()}
        else:
            if e != int(e):
                raise NoForm("fractional power")
            k = math.floor(e / 2)
            if k:
                out = out * fabs(rat_atom(a, k))
                p = {mmul(m, ((a, -2 * k),)): v for m, v in p.items()}
    lc = abs(p[lead(p)])
    p = {m: v / lc for m, v in p.items()}
    q, rest = isqrt_fr(lc)
    out = out * num(q)
    f = 2
    while rest > 1 and f * f <= rest:
        if rest % f == 0:
            out = out * (rat_atom(S2) if f == 2 else
                         rat_atom(fn_atom("sq", num(f))))
            rest //= f
        else:
            f += 1
            if f > 100000:
                break
    if rest > 1:
        out = out * (rat_atom(S2) if rest == 2 else
                     rat_atom(fn_atom("sq", num(rest))))
    if p == {(): 1}:
        return out
    return out * rat_atom(fn_atom("sq", Rat(p)))


def exp(r):
    if r.d != {(): 1}:
        return rat_atom(fn_atom("exp", r))
    out = {}
    extra = ONE
    for m, v in r.n.items():
        if len(m) == 1 and kind(m[0][0]) == "log" and m[0][1] == 1 \
                and v == int(v):
            extra = extra * ARG[m[0][0]].ipow(int(v))
            continue
        a = atom(("exp", m), Rat({m: Fr(1)}, None, False))
        out[a] = v if v != int(v) else Fr(int(v))
    return Rat({tuple(sorted(out.items())): Fr(1)}) * extra


def erf(r):
    if r.is_zero():
        return ZERO
    if r.n[lead(r.n)] < 0:
        return -rat_atom(fn_atom("erf", -r))
    return rat_atom(fn_atom("erf", r))


def log(r):
    if r.const() == 1:
        return ZERO
    return rat_atom(fn_atom("log", r))


def power(b, e):
    c = e.const()
    if c is not None and c == int(c) and abs(c) <= 8:
        return b.ipow(int(c))
    if c == Fr(1, 2):
        return sqrt(b)
    if c == Fr(-1, 2):
        return sqrt(b).inv()
    return rat_atom(atom(("pow", b.key(), e.key()), (b, e)))


def tanh(r):
    return ONE - num(2) / (ONE + exp(num(2) * r))


def hypot(a, b):
    return sqrt(a * a + b * b)


def func(name, args):
    f = {"exp": exp, "sqrt": sqrt, "fabs": fabs, "erf": erf, "log": log,
         "tanh": tanh, "hypot": hypot, "pow": power}.get(name)
    if f is not None:
        return f(*args)
    if name == "erfc":
        return ONE - erf(args[0])
    if name == "expm1":
        return exp(args[0]) - ONE
    if name == "log1p":
        return log(args[0] + ONE)
    if name == "exp2":
        raise NoForm("exp2")
    if name == "fma":
        return args[0] * args[1] + args[2]
    if name == "cbrt":
        raise NoForm(name)
    raise NoForm("function " + name)


# -- constants ---------------------------------------------------------------
_BASES = [(1.0, 0, 0), (2 ** .5, 1, 0), (math.pi, 0, 2), (math.pi ** .5, 0, 1),
          (math.pi ** -.5, 0, -1), (1 / math.pi, 0, -2),
          ((2 / math.pi) ** .5, 1, -1), ((math.pi * 2) ** .5, 1, 1)]


def constant(x, single):
    """Normal form of a floating-point constant of the program."""
    if x != x or x in (math.inf, -math.inf):
        raise NoForm("infinite constant")
    if x == 0:
        return ZERO
    short = None
    for nd in range(1, 18):
        s = "%.*g" % (nd, x)
        y = float(s)
        if single:
            try:
                y = struct.unpack("f", struct.pack("f", y))[0]
            except OverflowError:
                continue
        if y == x:
            short = s
            break
    f = Fr(short if short is not None else x)
    if len((short or "x" * 30).lstrip("-0.").replace(".", "")) <= (
            5 if single else 12):
        return num(f)
    tol = 2.5e-7 if single else 1e-14
    digits = 6 if single else 10
    for b, i, j in _BASES:
        r = x / b
        for q in list(range(1, 65)) + [None]:
            if q is None:
                g = Fr("%.*g" % (digits, r))
            else:
                g = Fr(round(r * q), q)
            if g and abs(float(g) - r) <= tol * abs(r):
                if q is not None and single and abs(g.numerator) > 4096:
                    continue
                if q is not None and abs(g.numerator) > 10 ** 6:
                    continue
                m = ()
                if i:
                    m = mmul(m, ((S2, i),))
                if j:
                    m = mmul(m, ((SP, j),))
                return Rat({m: g})
    return num(f)


# -- substitution and evaluation ----------------------------------------------
def subst(r, m, memo=None):
    """r with atoms replaced; m maps atom id -> Rat."""
    if not m:
        return r
    if memo is None:
        memo = {}

    def sa(a):
        if a in memo:
            return memo[a]
        if a in m:
            v = m[a]
        elif a in ARG:
            x = ARG[a]
            k = kind(a)
            if isinstance(x, tuple):
                y = tuple(subst(z, m, memo) for z in x)
                v = rat_atom(a) if all(p is q or p.key() == q.key()
                                       for p, q in zip(x, y)) else func(k, y)
            else:
                y = subst(x, m, memo)
                v = rat_atom(a) if y.key() == x.key() else \
                    func({"sq": "sqrt", "ab": "fabs"}.get(k, k), (y,))
        else:
            v = rat_atom(a)
        memo[a] = v
        return v

    def sp(p):
        out = ZERO
        for mono, c in p.items():
            t = num(c)
            for a, e in mono:
                v = sa(a)
                if v.n == {((a, 1),): 1} and v.d == {(): 1}:
                    t = t * rat_atom(a, e)
                elif e == int(e):
                    t = t * v.ipow(int(e))
                else:
                    t = t * fpow(v, e)
            out = out + t
        return out
    return sp(r.n) / sp(r.d)


def fpow(v, e):
    if v.d == {(): 1} and len(v.n) == 1:
        (m, c), = v.n.items()
        if c == 1 and all(a_pos(a) for a, _ in m):
            return Rat({tuple((a, x * e) for a, x in m): Fr(1)})
    if (e * 2) == int(e * 2):
        return sqrt(v).ipow(int(e * 2))
    raise NoForm("fractional power")


def evalf(r, val, memo=None):
    """Floating-point value at a point (val: atom id -> float)."""
    if memo is None:
        memo = {}

    def av(a):
        if a in memo:
            return memo[a]
        if a in ARG:
            x = ARG[a]
            k = kind(a)
            if isinstance(x, tuple):
                b, e = [evalf(z, val, memo) for z in x]
                v = b ** e
                if isinstance(v, complex):
                    raise ValueError
            else:
                y = evalf(x, val, memo)
                v = {"exp": math.exp, "sq": math.sqrt, "ab": abs,
                     "erf": math.erf, "log": math.log}[k](y)
        elif a == S2:
            v = math.sqrt(2)
        elif a == SP:
            v = math.sqrt(math.pi)
        else:
            v = val(a)
        memo[a] = v
        return v

    def pv(p):
        s = 0.0
        for m, c in p.items():
            t = float(c)
            for a, e in m:
                x = av(a)
                t *= x ** (int(e) if e == int(e) else float(e))
                if isinstance(t, complex):
                    raise ValueError
            s += t
        return s
    return pv(r.n) / pv(r.d)
