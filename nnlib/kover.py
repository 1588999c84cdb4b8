"""Exponentials that overflow, and infinities of masked elements, in a kernel.

Every floating-point value of a path is given the set of kinds it may have --
zero, finite, +infinity, -infinity, not a number -- by propagation over the IR,
with the conditions of the path as facts; values carried by loops by a fixed
point over the paths of their bodies.  Inputs are finite (elements a mask may
hide: or -infinity).  The exponential of an argument that the conditions of
the path bound by zero cannot overflow; of any other it can.  Nothing else is
taken to overflow: polynomials of the inputs stay within range.
"""
import decimal
import math
from fractions import Fraction as Fr

from . import kalg
from .kalg import DESC, rat_atom, subst
from .kform import (CTX, FUNCS, MATH, NoForm, NumOracle, Point, Split, _ref, facts_of,
                    nonneg_strict, positive, strip)

Z, F, I, J, N = "0", "finite", "+inf", "-inf", "nan"
OK = frozenset([Z, F])
ANY = frozenset([Z, F, I, J, N])
NEG = {Z: Z, F: F, I: J, J: I, N: N}


def _add(a, b):
    if N in (a, b) or {a, b} == {I, J}:
        return {N}
    for x in (I, J):
        if x in (a, b):
            return {x}
    if a == b == Z:
        return {Z}
    return {F} if Z in (a, b) else {Z, F}


def _mul(a, b):
    if N in (a, b):
        return {N}
    inf = [x for x in (a, b) if x in (I, J)]
    if inf:
        if Z in (a, b):
            return {N}
        if len(inf) == 2:
            return {I if inf[0] == inf[1] else J}
        return {I, J}
    return {Z} if Z in (a, b) else {F, Z}


def _div(a, b):
    if N in (a, b):
        return {N}
    if a in (I, J):
        return {N} if b in (I, J) else {I, J}
    if b in (I, J) or a == Z:
        return {Z}
    return {F, Z}              # a divisor that is zero: not decided here


def leaf(x):
    """An input, not computed: what is shown of it holds exactly."""
    ats = x.atoms()
    return len(ats) == 1 and x == rat_atom(next(iter(ats))) and \
        DESC[next(iter(ats))][0] in ("ld", "p", "sz")


def rolled(K, path):
    """The path as seen from within the loops over output elements."""
    q = path.copy()
    q.stack = q.stack + tuple(L for L in K.roles if L not in q.stack)
    return q


class Values:
    """Abstract values on one path: structure common to the domains."""

    def __init__(self, pr, path, state, masked, zsub):
        self.pr, self.K, self.path = pr, pr.K, rolled(pr.K, path)
        self.state, self.masked, self.zsub = state, masked, zsub
        self.lits = path.lits
        self.facts = facts_of(path.lits, pr.K)
        self.memo = {}

    def rat(self, v):
        return subst(self.K.ev(v, self.path), self.zsub)

    def of(self, v):
        K = self.K
        if v.get("k") == "cf":
            return self.number({"+Inf": math.inf, "-Inf": -math.inf}.get(
                v["v"]) or float(v["v"]))
        if v.get("k") in ("ci",):
            return self.number(v["v"])
        if v.get("k") == "param":
            x = K.facts.get(v["i"])
            return self.param(v["i"]) if x is None else self.number(x)
        i = v.get("id")
        if i is None:
            return self.TOP
        if i not in self.memo:
            self.memo[i] = self.TOP
            self.memo[i] = self.refine(v, frozenset(self._of(K.defs[i], i)))
        return self.memo[i]

    def side(self, d, a):
        if d.d != {(): 1}:
            return 0
        ms = [(m, c) for m, c in d.n.items() if any(b == a for b, _ in m)]
        if len(ms) == 1 and ms[0][0] == ((a, 1),) and len(d.n) == 2:
            return ms[0][1]
        return 0

    def finite(self, a):
        if any(l.k == "fin" and l.d.atoms() == {a} for l in self.lits):
            return True
        d = DESC[a]
        if d[0] == "ld":
            return d[1] not in self.masked
        if d[0] in ("P", "R"):
            return self.state.get((d[1], d[2]), self.TOP) <= self.GOOD
        return d[0] in ("p", "sz", "ix")

    def _of(self, d, i):
        K, path = self.K, self.path
        k = d["k"]
        bb = d.get("bb", d.get("blk"))
        left = K._left(bb, path) if bb is not None else None
        if k == "phi":
            L = K.headers.get(d["blk"])
            if L is not None:
                return self.state.get((L, i), self.TOP)
            if left is None:
                for x in d["in"]:
                    if x["b"] == path.pred.get(d["blk"]):
                        return self.of(x["v"])
            return self.TOP
        if left is not None:
            return self.TOP
        out = [L for L in K._chain(bb) if L not in path.stack and
               L not in K.roles] if bb is not None else []
        if out:
            # a value of the last iteration: what the loop carries
            lt = K.fm.loops[out[0]].get("latch")
            for h, ins in K.phis(out[0]).items():
                if ins[0] != "mem" and any(
                        x["b"] == lt and strip(x["v"]).get("id") == i
                        for x in ins[1]):
                    return self.state.get((out[0], h), self.TOP)
            return self.TOP
        if k == "cast":
            if d["op"] in ("fpext", "fptrunc"):
                return self.of(d["a"])
            return self.BASE
        if k == "load":
            return self.load(d, i)
        if k == "call":
            return self.call(d)
        if k == "op":
            op = d["op"]
            if op == "select":
                return self.of(d["a"][1 if K.truth(d["a"][0], path) else 2])
            if op == "fneg":
                return {self.neg(x) for x in self.of(d["a"][0])}
            if op == "freeze":
                return self.of(d["a"][0])
            if op in ("fadd", "fsub", "fmul", "fdiv"):
                return self.arith(op, d, i)
            if (d.get("t") or "").startswith("i"):
                return self.BASE
        return self.TOP

    def load(self, d, i):
        K = self.K
        v = strip(d["p"]["base"])
        if v.get("k") != "param":
            return self.BASE
        r = self.path.loads.get(i)
        if r is None:
            r = K.load(d, self.path)
        ats = r.atoms()
        if len(ats) == 1 and r == rat_atom(next(iter(ats))):
            x = DESC[next(iter(ats))]
            if x[0] == "ld":
                return self.element(x[1])
            if x[0] in ("P", "R"):
                return self.state.get((x[1], x[2]), self.TOP)
        # stored before by this path
        s = frozenset()
        for _, w in self.path.vals:
            s |= self.of(w)
        return s or self.TOP

    def call(self, d):
        m = MATH.match(d.get("m") or "")
        f = m.group(1) if m else ""
        if f not in FUNCS and f.endswith("f"):
            f = f[:-1]
        a = [self.of(x) for x in d["a"]]
        return self.fn(f, a, d)


class Kinds(Values):
    GOOD, TOP, BASE = OK, ANY, OK

    def number(self, x):
        return frozenset([Z if x == 0 else F if math.isfinite(x) else
                          I if x > 0 else J])

    def param(self, i):
        return OK

    def element(self, q):
        return OK | {J} if q in self.masked else OK

    def neg(self, x):
        return NEG[x]

    def refine(self, v, s):
        """Takes the conditions of the path on a value into account."""
        if s <= OK and Z not in s:
            return s
        try:
            x = self.rat(v)
        except (NoForm, Split):
            return s
        if Z in s:
            if leaf(x) and positive(self.facts.app(x)):
                s = s - {Z}
            elif any(l.k == "ne0" and (l.d == x or l.d == -x)
                     for l in self.lits):
                s = s - {Z}
        if s <= OK:
            return s
        if J in s and nonneg_strict(x):
            s = s - {J}
        if I in s and nonneg_strict(-x):
            s = s - {I}
        ats = x.atoms()
        for l in self.lits:
            if l.k == "exit":
                continue
            if l.k in ("fin", "inf"):
                d = l.d
                if d == x or d == -x or len(ats) == 1 and d.atoms() == ats:
                    s = s & (OK if l.k == "fin" else {I, J, N})
            elif l.k == "gt0" and len(ats) == 1:
                (a,) = ats
                c = self.side(l.d, a)
                if c:
                    s = s - {J if c > 0 else I}
            elif l.k == "ge0" and len(ats) == 1:
                # at least something that is finite
                (a,) = ats
                c = self.side(l.d, a)
                if c and all(self.finite(b) for b in l.d.atoms() - {a}):
                    s = s - {J if c > 0 else I}
        return s

    def arith(self, op, d, i):
        f = {"fadd": _add, "fmul": _mul, "fdiv": _div,
             "fsub": lambda a, b: _add(a, NEG[b])}[op]
        a, b = [self.of(x) for x in d["a"][:2]]
        r = set()
        for x in a:
            for y in b:
                r |= f(x, y)
        if op == "fsub" and N in r and not a & {N} and not b & {N}:
            # one of them is strictly larger
            try:
                x = self.rat({"k": "deep", "id": i})
                if any(l.k in ("gt0", "ne0") and (
                        l.d == x or l.d == -x) for l in self.lits):
                    r -= {N}
            except (NoForm, Split):
                pass
        return r

    def fn(self, f, a, d):
        if f == "fma" or f == "fmuladd":
            r = set()
            for x in a[0]:
                for y in a[1]:
                    for p in _mul(x, y):
                        for z in a[2]:
                            r |= _add(p, z)
            return r
        if f in ("fmax", "fmin", "maxnum", "minnum", "maximum", "minimum"):
            r = a[0] | a[1]
            lo = J if f in ("fmax", "maxnum", "maximum") else I
            if lo in r and not (lo in a[0] and lo in a[1]):
                r = r - {lo}
            return r - {N} if not (N in a[0] and N in a[1]) else r
        if len(a) == 1:
            s = set()
            for x in a[0]:
                if x == N:
                    s.add(N)
                elif f in ("exp", "expm1"):
                    s |= {Z: {F}, J: {Z}, I: {I}}.get(x) or self.exp(d["a"][0])
                elif f in ("log", "log1p"):
                    s |= {Z: {J} if f == "log" else {Z}, J: {N},
                          I: {I}, F: {Z, F}}[x]
                elif f == "sqrt":
                    s |= {J: {N}}.get(x) or {x}
                elif f == "fabs":
                    s.add(I if x == J else x)
                elif f in ("erf", "erfc", "tanh"):
                    s |= {Z, F}
                else:
                    s |= {Z, F} if x in OK else ANY
            return s
        return OK if all(x <= OK for x in a) else ANY

    def exp(self, v):
        """Kinds of the exponential of a finite nonzero value."""
        try:
            x = self.rat(v)
        except (NoForm, Split):
            return {Z, F, I}
        c = x.const()
        if c is not None:
            return {F} if self.K.deref(v).get("k") in (None, "cf") \
                else {Z, F, I}     # what rounding leaves of it
        if self.facts.implies_ge(-x):
            return {Z, F}
        if self.facts.implies_ge(x):
            return {F, I}
        return {Z, F, I}


class Magnitudes(Values):
    """How values grow with the data: bounded, like the data, unbounded
    quotient, or beyond (what squares of data overflow to)."""

    B, R, U, Q, X = "bounded", "as the data", "unbounded quotient", \
        "as the squared data", "square of what is not bounded"
    GOOD, TOP, BASE = frozenset([B, R, U]), frozenset([X]), frozenset([B])
    small, square = (), ()       # bounded buffers, scalars like squares

    def number(self, x):
        return frozenset([self.B])

    def param(self, i):
        return frozenset([self.Q if i in self.square else self.B])

    def element(self, q):
        return frozenset([self.B if q in self.small else self.R])

    def neg(self, x):
        return x

    def refine(self, v, s):
        if s <= {self.B}:
            return s
        try:
            if self.bounded(self.rat(v)):
                return frozenset([self.B])
        except (NoForm, Split):
            pass
        return s

    def bounded(self, x):
        """|x| <= 1 on this path."""
        if x.const() is not None:
            return True
        one = kalg.ONE
        f = self.facts.implies_ge
        return f(one - x) and f(one + x) or f(one - x * x)

    def mul(self, x, y):
        B, R, U, Q, X = self.B, self.R, self.U, self.Q, self.X
        if X in (x, y):
            return X
        if B in (x, y):
            return y if x == B else x
        return X

    def add(self, x, y):
        for c in (self.X, self.Q, self.R, self.U):
            if c in (x, y):
                return c
        return self.B

    def div(self, x, y):
        B, R, U, Q, X = self.B, self.R, self.U, self.Q, self.X
        if X in (x, y):
            return X
        if y == B:
            return x
        if x == Q and y == R:
            return R
        return U if x in (B, R, y) else X

    def arith(self, op, d, i):
        f = {"fadd": self.add, "fsub": self.add, "fmul": self.mul,
             "fdiv": self.div}[op]
        a, b = [self.of(x) for x in d["a"][:2]]
        return {f(x, y) for x in a for y in b}

    def fn(self, f, a, d):
        if f in ("fma", "fmuladd"):
            return {self.add(self.mul(x, y), z)
                    for x in a[0] for y in a[1] for z in a[2]}
        if f in ("fmax", "fmin", "maxnum", "minnum", "maximum", "minimum",
                 "hypot"):
            return a[0] | a[1]
        if f == "sqrt":
            return {self.R if x == self.Q else x for x in a[0]}
        if f in ("fabs", "copysign"):
            return a[0]
        return {self.B} if all(x <= {self.B} for x in a) else self.TOP


def analyse(pr, masked, domain=Kinds):
    """(values shown to stay finite, [(key, kinds)] of the others, number of
    exponentials) of the values stored on every path of a proved kernel."""
    K = pr.K
    ok, bad, exps = 0, [], set()
    for p in pr.paths:
        pr.signs()
        CTX.nn |= p.nn
        K.zero, K.zsub = p.zero, p.zsub
        if facts_of(p.lits, K).infeasible:
            continue
        ctx = K.contexts(p)
        state = {(L, i): frozenset() for L, e, _ in ctx for i in K.phis(L)}
        for _ in range(12):
            old = dict(state)
            for L, e, bps in ctx:
                for n, (q, pred) in enumerate([e] + [(b, b.latch)
                                                     for b in bps]):
                    q = q.copy()
                    if n and facts_of(q.lits, K).infeasible:
                        continue
                    C = domain(pr, q, state, masked, K.zsub)
                    for i, ins in K.phis(L).items():
                        if ins[0] == "mem":
                            vs = [v for k, v in q.vals if k == ins[1]]
                            s = C.of(vs[-1]) if vs else frozenset() if n \
                                else C.element(K.outs[ins[1]][0])
                        else:
                            s = frozenset()
                            for x in ins[1]:
                                if x["b"] == pred:
                                    s |= C.of(x["v"])
                        state[(L, i)] |= s
            if state == old:
                break
        todo = [p] + [b for _, _, bps in ctx for b in bps
                      if not facts_of(b.lits, K).infeasible]
        for q in todo:
            C = domain(pr, q, state, masked, K.zsub)
            for key, v in q.vals:
                s = C.of(v)
                if s <= domain.GOOD:
                    ok += 1
                else:
                    bad.append((key, s - domain.GOOD))
    return ok, bad


# -- a point at which one is not finite ---------------------------------------------
def fexp(x, single):
    if x != x:
        return x
    if x > (88.8 if single else 709.7):
        return math.inf
    return 0.0 if x < (-104 if single else -746) else math.exp(x)


def fdiv(a, b):
    if b == 0:
        return math.nan if a == 0 or a != a else math.copysign(
            math.inf, a) * math.copysign(1, b)
    return a / b


class Sim(Point):
    """A point at which the values are those of the instructions, evaluated
    in order, with infinities."""

    def __init__(self, *a):
        super().__init__(*a)
        self.inner = {}

    rounded = False
    residue = 1.0       # exponential of what rounding leaves of a zero

    def here(self):
        if self.path is None:
            raise NoForm("no path")
        x = self.inner.get(id(self.path))
        if x is None or x[0] is not self.path:
            x = self.inner[id(self.path)] = self.path, rolled(self.K,
                                                              self.path)
        return x[1]

    def num(self, v):
        K, path = self.K, self.here()
        if v.get("k") == "cf":
            return {"+Inf": math.inf, "-Inf": -math.inf}.get(
                v["v"]) or float(v["v"])
        if v.get("k") == "ci":
            return float(v["v"])
        if v.get("k") == "param":
            return self.ev(K.ev(v, path))
        i = v.get("id")
        if i is None:
            raise NoForm("value")
        if ("n", i) in self.cache:
            return self.cache[("n", i)]
        r = self._num(K.defs[i], i)
        self.cache[("n", i)] = r
        return r

    def _num(self, d, i):
        K, path = self.K, self.here()
        k = d["k"]
        bb = d.get("bb", d.get("blk"))
        if bb is not None and K._left(bb, path) is not None:
            return self.ev(K.ev({"k": "deep", "id": i}, path))
        if k == "phi":
            if d["blk"] in K.headers:
                return self.ev(K.ev({"k": "deep", "id": i}, path))
            for x in d["in"]:
                if x["b"] == path.pred.get(d["blk"]):
                    return self.num(x["v"])
            raise NoForm("phi")
        if bb is not None and any(L not in path.stack and L not in K.roles
                                  for L in K._chain(bb)):
            return self.ev(K.ev({"k": "deep", "id": i}, path))
        if k == "cast":
            if d["op"] in ("fpext", "fptrunc"):
                return self.num(d["a"])
            return self.ev(K.ev({"k": "deep", "id": i}, path))
        if k == "load":
            r = path.loads.get(i)
            return self.ev(r if r is not None else K.load(d, path))
        if k == "call":
            return self.fcall(d)
        op = d.get("op")
        if op == "select":
            return self.num(d["a"][1 if K.truth(d["a"][0], path) else 2])
        if op in ("fneg", "freeze"):
            x = self.num(d["a"][0])
            return -x if op == "fneg" else x
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            a, b = self.num(d["a"][0]), self.num(d["a"][1])
            return self.fl({
                "fadd": lambda: a + b, "fsub": lambda: a - b,
                "fmul": lambda: a * b, "fdiv": lambda: fdiv(a, b)}[op]())
        return self.ev(K.ev({"k": "deep", "id": i}, path))

    def fl(self, x):
        if self.K.single:
            if abs(x) > 3.4028235e38:
                return math.copysign(math.inf, x)
            if abs(x) < 1.4e-45:
                return 0.0
        return x

    def fcall(self, d):
        m = MATH.match(d.get("m") or "")
        f = m.group(1) if m else ""
        if f not in FUNCS and f.endswith("f"):
            f = f[:-1]
        a = [self.num(x) for x in d["a"]]
        if f == "exp":
            try:
                x = subst(self.K.ev(d["a"][0], self.here()), self.K.zsub)
                if x.const() is not None and self.K.deref(
                        d["a"][0]).get("k") not in (None, "cf"):
                    self.rounded = self.residue != 1.0
                    return self.residue
            except NoForm:
                pass
            return fexp(a[0], self.K.single)
        if f in ("fma", "fmuladd"):
            return self.fl(a[0] * a[1] + a[2])
        if f == "log":
            return -math.inf if a[0] == 0 else math.log(a[0]) \
                if a[0] > 0 and a[0] != math.inf else a[0] \
                if a[0] > 0 else math.nan
        if f == "sqrt":
            return math.sqrt(a[0]) if a[0] >= 0 else math.nan
        if f == "fabs":
            return abs(a[0])
        if f in ("fmax", "maxnum", "maximum"):
            return max(a)
        if f in ("fmin", "minnum", "minimum"):
            return min(a)
        if f in ("erf", "erfc", "tanh", "hypot"):
            return getattr(math, f)(*a)
        raise NoForm("call")

    def holds(self, lits):
        for l in lits:
            if l.k == "exit":
                self.result(l.d[0])
                if self.left[l.d[0]] != l.d[1]:
                    return False
                continue
            x = self.exact(l.d)
            if l.k in ("inf", "fin"):
                if math.isinf(x) != (l.k == "inf"):
                    return False
                continue
            if x != x:
                x = 0.0          # equal infinities
            if not {"gt0": x > 0, "ge0": x >= 0, "eq0": x == 0,
                    "ne0": x != 0}[l.k]:
                return False
        return True

    def exact(self, r):
        """Exactly, where nothing but products and sums is involved."""
        def poly(p):
            t = Fr(0)
            for m, c in p.items():
                x = Fr(c)
                for a, e in m:
                    if a in kalg.ARG or a in (kalg.S2, kalg.SP) or \
                            e != int(e):
                        raise ValueError
                    x *= Fr(self.val(a)) ** int(e)
                t += x
            return t
        try:
            x = poly(r.n) / poly(r.d)
            return (x > 0) - (x < 0)
        except (ValueError, OverflowError, ZeroDivisionError):
            return self.ev(r)

    def step(self, L, b):
        K, out = self.K, {}
        for i, ins in K.phis(L).items():
            if ins[0] == "mem":
                vs = [v for k, v in b.vals if k == ins[1]]
                out[i] = self.num(vs[-1])
                continue
            for x in ins[1]:
                if x["b"] == b.latch:
                    out[i] = self.num(x["v"])
        return out


CTXD = decimal.Context(prec=50, Emax=decimal.MAX_EMAX,
                       Emin=decimal.MIN_EMIN)


def wide(r, val):
    """Value of a formula with exponents of any size."""
    D = lambda x: decimal.Decimal(x)

    def av(a):
        if a in kalg.ARG:
            x = kalg.ARG[a]
            if isinstance(x, tuple):
                raise NoForm("power")
            y = wide(x, val)
            k = kalg.kind(a)
            if k == "sq":
                return CTXD.sqrt(y)
            if k == "ab":
                return abs(y)
            if k == "exp":
                return CTXD.exp(y)
            if k == "log":
                return CTXD.ln(y)
            raise NoForm("function")
        if a == kalg.S2:
            return CTXD.sqrt(D(2))
        if a == kalg.SP:
            return D("1.77245385090551602729816748334114518279754945612")
        return D(val(a))

    def pv(p):
        s = D(0)
        for m, c in p.items():
            t = CTXD.divide(D(c.numerator), D(c.denominator))
            for a, e in m:
                t = CTXD.multiply(t, CTXD.power(
                    av(a), int(e) if e == int(e) else
                    CTXD.divide(D(e.numerator), D(e.denominator))))
            s = CTXD.add(s, t)
        return s
    return CTXD.divide(pv(r.n), pv(r.d))


def off(pt, S, g, got, single):
    """The value a goal should have, if the one left is not close to it."""
    o = NumOracle(pt)
    lo, hi = (1e-37, 1e38) if single else (1e-300, 1e300)
    try:
        if g[0] == "val":
            y = wide(g[3](o), pt.val)
            x = got[g[2]]
        elif g[0] == "sum" and g[6] is not None:
            T = g[4](o) if callable(g[4]) else g[4]
            B = g[3](o) if callable(g[3]) else g[3]
            y = wide(B, pt.val)

            def rec(k):
                nonlocal y
                if k == len(g[5]):
                    y = CTXD.add(y, wide(T, pt.val))
                    return
                j, ext = g[5][k]
                for t in range(pt.poly(ext)):
                    pt.idx[j] = t
                    rec(k + 1)
            rec(0)
            y = CTXD.sqrt(y)
            x = got[g[6]]
        else:
            return None
    except (decimal.DecimalException, NoForm):
        return None
    if y != 0 and not lo < abs(y) < hi:
        return None               # not representable
    if math.isfinite(x) and abs(decimal.Decimal(x) - y) <= abs(y) / 1000:
        return None
    return float(y)


ROUND = ("%s is %r: a factor is the exponential of what rounding leaves of a "
         "difference that is zero in exact arithmetic, which overflows or "
         "vanishes for large inputs while the other factor does the opposite")


def witness(pr, masked, scales=(1.0, 40.0, 400.0, 5000.0), tries=240,
            exact=False):
    """A point of finite inputs at which a value stored is not finite."""
    K, S = pr.K, pr.S
    pr.signs()
    for p in pr.paths:
        CTX.nn |= p.nn
    K.zero, K.zsub = set(), {}
    for seed in range(tries):
        pt = Sim(K, S, seed, 1 + seed % 5)
        pt.hidden = 0.55
        pt.scale = scales[seed // 2 % len(scales)]
        pt.masked = masked if seed % 2 else ()
        if pt.scale == 5000:
            pt.residue = (1.0, 0.0, math.inf)[seed // 8 % 3]
        try:
            for j, ext in S.index:
                n = pt.poly(ext)
                pt.idx[j] = pt.rng.randrange(max(1, n))
            if not pt.holds([l for l in S.assume if l.k != "fin"]):
                continue
            p = pt.pick(pr.paths)
            if p is None:
                continue
            got = {key: pt.num(v) for key, v in p.vals}
            if exact:
                for g in S.goals:
                    key = g[2] if g[0] == "val" else g[6]
                    if key not in got:
                        continue
                    y = off(pt, S, g, got, K.single)
                    if y is not None:
                        return "%s is %.4g instead of %.4g for inputs of the " \
                            "size of %g, at %s" % (
                                key, got[key], y, pt.scale, ", ".join(
                                    "%s=%s" % (K.params[i]["n"], v)
                                    for i, v in sorted(pt.size.items())))
                continue
            for key, x in got.items():
                if not math.isfinite(x):
                    if pt.rounded:
                        return ROUND % (key, x)
                    return "%s is %r for finite inputs as large as %g%s, " \
                        "at %s" % (key, x, 1.6 * pt.scale,
                                   " (some masked)" if pt.masked else "",
                                   ", ".join("%s=%s" % (
                                       K.params[i]["n"], v)
                                       for i, v in sorted(pt.size.items())))
        except (ValueError, OverflowError, ZeroDivisionError, KeyError,
                NoForm, Split):
            continue
    return None
