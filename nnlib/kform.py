"""Formulas computed by the CPU kernels, extracted from LLVM IR and compared
with reference formulas in exact arithmetic.

Every kernel is walked once for a generic element of its output: loops whose
counter determines the element written ("index loops") are entered with the
counter replaced by an index variable, all other loops ("reductions") are
summarised by induction over their body.  Stored values become normal forms
(kalg).  Obligations:

  value   on every path that is feasible, the value of the element is the
          reference expression (an element not stored keeps its old value);
  sum     G(element) = B + sum of the reference term over the reduction
          indices: G is what the stored expression says about the loop-carried
          values, it equals B when the loop starts and grows by exactly the
          term in each iteration, on every path of the body;
  max     likewise for the maximum.

Compensation terms of Kahan summation are shown to be zero in exact
arithmetic, scaling factors to be non-negative, by induction as well.  Nothing
is executed.  If an obligation cannot be shown, a point is looked for at which
the two formulas differ; without one the obligation is undecided."""
import math
import random
import re

from . import kalg
from .kalg import (ARG, CTX, DESC, NoForm, ONE, Rat, ZERO, atom, evalf, fabs,
                   func, kind, nonneg, num, rat_atom, subst)
from .poly import Poly
from .tasks import FnModel, base_kind, const_off, strip

# -- index polynomials ---------------------------------------------------------
_IND = {}


def ind_atom(param, off):
    """Integer loaded from an index array."""
    k = "X%d[%r]" % (param, off)
    _IND[k] = (param, off)
    return Poly.atom(k)


def psub(p, m):
    """Substitution in an index polynomial, also inside indirect indices."""
    mm = dict(m)
    for a in p.atoms():
        if a in _IND:
            q, o = _IND[a]
            mm[a] = ind_atom(q, psub(o, m))
    return p.subst({k: v for k, v in mm.items() if k in p.atoms()})


def patoms(p):
    out, st = set(), [p]
    while st:
        for a in st.pop().atoms():
            out.add(a)
            if a in _IND:
                st.append(_IND[a][1])
    return out


def pdiv(p, c):
    if any(v % c for v in p.t.values()):
        return None
    return Poly({k: v // c for k, v in p.t.items()})


def ld(param, off):
    return rat_atom(atom(("ld", param, off)))


def prat(p):
    """Index polynomial as an expression."""
    r = ZERO
    for k, v in p.t.items():
        t = num(v)
        for a in k:
            t = t * rat_atom(atom(("sz", int(a[1:])) if a[0] == "p" and
                                  a[1:].isdigit() else ("ix", a)))
        r = r + t
    return r


# -- literals ------------------------------------------------------------------
class Lit:
    __slots__ = ("k", "d")    # gt0 ge0 eq0 ne0 inf fin

    def __init__(self, k, d):
        self.k, self.d = k, d

    def __repr__(self):
        return {"gt0": "%r > 0", "ge0": "%r >= 0", "eq0": "%r == 0",
                "ne0": "%r != 0", "inf": "isinf(%r)", "exit": "leaves %r",
                "fin": "isfinite(%r)"}[self.k] % self.d


class Split(Exception):
    def __init__(self, key):
        self.key = key


class SpecSplit(Exception):
    def __init__(self, d):
        self.d = d


def squared(d):
    """a - b with a, b non-negative: a^2 - b^2 (same sign)."""
    if d.d != {(): 1} or len(d.n) != 2:
        return None
    (m1, v1), (m2, v2) = d.n.items()
    if v1 * v2 > 0 or not (kalg.m_nn(m1) and kalg.m_nn(m2)):
        return None
    if not any(kalg._special(a) or e != int(e) for a, e in m1 + m2):
        return None
    a, b = Rat({m1: abs(v1)}), Rat({m2: abs(v2)})
    r = a * a - b * b
    if v1 < 0:
        r = -r
    return r


def primitive(d, weak=False):
    """d without positive factors; a factor that may be zero is kept when
    weak is set (d >= 0 says nothing about the rest where it is)."""
    if d.is_zero() or not (d.d == {(): 1} or kalg.p_nn(d.d)):
        return d
    p = d.n
    common = None
    for m in p:
        e = dict(m)
        common = dict(e) if common is None else {
            a: min(common.get(a, 0), e.get(a, 0))
            for a in set(common) | set(e)}
    k = []
    for a, e in (common or {}).items():
        if not e:
            continue
        if kalg.a_pos(a):
            k.append((a, -e))
        elif not kalg._special(a) and e == int(e):
            e2 = 2 * math.floor(e / 2)
            if kalg.a_nn(a) and e < 0:
                e2 = e
            if e2 and not (weak and e2 > 0):
                k.append((a, -e2))
    k = tuple(sorted(k))
    p = {kalg.mmul(m, k): v for m, v in p.items()}
    c = abs(p[kalg.lead(p)])
    return Rat({m: v / c for m, v in p.items()})


BASE = ("ld", "p", "P", "R", "sz")


class Facts:
    """Consequences of the literals of a path."""

    def __init__(self, lits, zero=()):
        self.sub = {a: ZERO for a in zero}
        self.nil = []      # products of these atoms are zero
        self.infs = []
        self.infeasible = False
        self.lits = []
        self.overflow = []
        for l in lits:
            if l.k == "inf":
                at = [a for a in l.d.n for a, _ in a]
                if len(l.d.n) == 1 and len(at) == 1 and kind(at[0]) in BASE \
                        and l.d.d == {(): 1}:
                    self.infs.append(at[0])
                else:
                    self.overflow.append(l.d)
            elif l.k not in ("fin", "exit"):
                self.lits.append(Lit(l.k, l.d))
        if any(a in self.infs for l in lits if l.k == "fin"
               for m in l.d.n for a, _ in m if len(l.d.n) == 1):
            self.infeasible = True
        self._close()

    def app(self, r):
        return subst(r, self.sub) if self.sub else r

    def _solve(self, d):
        """d == 0: a substitution, True (trivial), False (impossible)."""
        if d.is_zero():
            return True
        if d.const() is not None:
            return False
        p = kalg.preduce(dict(d.n))
        if len(p) == 1:
            (m, _), = p.items()
            cand = [a for a, e in m if not kalg.a_pos(a)]
            if not cand:
                return False
            if len(cand) == 1:
                a = cand[0]
                if kind(a) in BASE:
                    return {a: ZERO}
                if kind(a) in ("ab", "sq"):
                    return self._solve(ARG[a])
            if all(e > 0 for a, e in m):
                z = frozenset(base_atom(a) for a in cand)
                if z not in self.nil:
                    self.nil.append(z)
            return None
        if kalg.p_nn(p) and all(e > 0 for m in p for _, e in m):
            # a sum of non-negative terms: all of them are zero
            for m, v in p.items():
                s = self._solve(Rat({m: v}))
                if s is False or isinstance(s, dict):
                    return s
            return None
        for a in sorted({a for m in p for a, _ in m},
                        key=lambda a: (kind(a) == "sz", -a)):
            if kind(a) not in BASE:
                continue
            ms = [m for m in p if any(x == a for x, _ in m)]
            if len(ms) != 1:
                continue
            e = dict(ms[0])[a]
            rest = {m: -v for m, v in p.items() if m is not ms[0]}
            co = Rat({tuple(x for x in ms[0] if x[0] != a): p[ms[0]]})
            if any(a in Rat({m: v}).atoms() for m, v in rest.items()) or \
                    a in co.atoms():
                continue
            try:
                v = Rat(rest) / co
                if e == 1:
                    return {a: v}
                if e == 2 and kalg.a_nn(a):
                    return {a: kalg.sqrt(v)}
            except NoForm:
                continue
        return None

    def _close(self):
        for _ in range(12):
            changed = False
            eqs = []
            cur = []
            for l in self.lits:
                try:
                    d = self.app(l.d)
                except NoForm:
                    continue
                if d.is_zero():
                    if l.k in ("gt0", "ne0"):
                        self.infeasible = True
                    continue
                if l.k == "eq0":
                    if d.const() is not None:
                        self.infeasible = True
                        return
                    eqs.append(d)
                    continue
                if l.k == "ne0":
                    cur.append(Lit("ne0", d))
                    continue
                sq = squared(d)
                d = primitive(sq if sq is not None else d, l.k == "ge0")
                c = d.const()
                if c is not None:
                    if c < 0 or (c == 0 and l.k == "gt0"):
                        self.infeasible = True
                        return
                    continue
                if nonneg_strict(-d):
                    # d <= 0
                    if l.k == "gt0":
                        self.infeasible = True
                        return
                    eqs.append(d)
                    continue
                cur.append(Lit(l.k, d))
            for i, a in enumerate(cur):
                for b in cur[i + 1:]:
                    if a.k == "ne0" or b.k == "ne0":
                        continue
                    s = a.d + b.d
                    if s.is_zero() or nonneg_strict(-s):
                        if a.k == "gt0" or b.k == "gt0":
                            self.infeasible = True
                            return
                        eqs.append(a.d)
                    else:
                        for c in cur:
                            if c.k == "gt0" and c is not a and c is not b:
                                if (s + c.d).is_zero():
                                    self.infeasible = True
                                    return
            for d in eqs:
                d = self.app(d)
                e = d
                while len(e.n) == 1 and e.d == {(): 1} and \
                        len(next(iter(e.n))) == 1 and \
                        kind(next(iter(e.n))[0][0]) in ("sq", "ab"):
                    e = ARG[next(iter(e.n))[0][0]]
                for c in cur:
                    if c.k == "gt0" and (c.d == e or c.d == -e):
                        self.infeasible = True
                        return
                s = self._solve(d)
                if s is False:
                    self.infeasible = True
                    return
                if isinstance(s, dict):
                    self.sub = {a: subst(v, s) for a, v in self.sub.items()}
                    self.sub.update(s)
                    changed = True
            self.cur = cur
            if not changed:
                break

    def limit(self, r):
        """exp(x) is 0 for x = -inf."""
        if self.infs:
            m = {}
            for a in r.atoms():
                if kind(a) == "exp":
                    x = ARG[a]
                    if len(x.n) == 1 and x.d == {(): 1}:
                        (mono, v), = x.n.items()
                        if len(mono) == 1 and mono[0][0] in self.infs \
                                and mono[0][1] == 1 and v > 0:
                            m[a] = ZERO
            r = subst(r, m)
        return r

    def implies_ge(self, d):
        """d >= 0 follows from one of the facts."""
        d = self.app(d)
        if d.is_zero() or nonneg(d):
            return True
        p = primitive(d)
        for l in self.cur:
            if l.k in ("gt0", "ge0") and (l.d == p or nonneg_strict(p - l.d)):
                return True
        return False

    def equal(self, x, y):
        """None: cannot tell; True: equal."""
        try:
            d = x - y
            if d.is_zero():
                return True
            d = self.limit(self.app(self.limit(d)))
            if d.is_zero():
                return True
            if self.nil:
                n = {m: v for m, v in d.n.items() if not any(
                    z <= {base_atom(a) for a, e in m if e > 0}
                    for z in self.nil)}
                if not n:
                    return True
            for o in self.overflow:
                # the exponential overflows: compare the limits
                if limit_zero(d, o):
                    return True
            return None
        except NoForm:
            return None


def base_atom(a):
    """x for |x|."""
    if kind(a) == "ab":
        r = ARG[a]
        if len(r.n) == 1 and r.d == {(): 1}:
            (m, _), = r.n.items()
            if len(m) == 1 and m[0][1] == 1:
                return m[0][0]
    return a


def limit_zero(r, o):
    """r tends to zero when the product o of exponentials tends to infinity."""
    if o.d != {(): 1} or len(o.n) != 1 or r.is_zero():
        return False
    (m, v), = o.n.items()
    if v <= 0 or not m or any(kind(a) != "exp" for a, _ in m):
        return False
    w = atom(("exp", ("w", m)), ONE)
    (a, e), rest = m[-1], m[:-1]
    x = Rat({tuple(sorted(((w, kalg.Fr(1) / e),) + tuple(
        (b, -f / kalg.Fr(e)) for b, f in rest))): kalg.Fr(1)})
    r = subst(r, {a: x})

    def deg(p):
        return max(dict(m).get(w, 0) for m in p)
    return deg(r.n) < deg(r.d)


def nonneg_strict(r):
    """r >= 0 by signs of the atoms (r itself, not -r)."""
    return kalg.p_nn(r.n) and kalg.p_nn(r.d)


# -- paths ---------------------------------------------------------------------
class Path:
    def __init__(self):
        self.lits, self.mem, self.pred = [], {}, {}
        self.loads, self.assume, self.memo = {}, {}, {}
        self.entry, self.isub, self.stack, self.done = {}, {}, (), ()
        self.sites, self.vals = [], []
        self.end = None
        self.early = frozenset()

    def copy(self):
        p = Path()
        for k in ("lits", "sites", "vals"):
            setattr(p, k, list(getattr(self, k)))
        for k in ("mem", "pred", "loads", "assume", "memo", "entry", "isub"):
            setattr(p, k, dict(getattr(self, k)))
        p.stack, p.done, p.end = self.stack, self.done, self.end
        p.early = self.early
        return p


FPREDS = {"lt": ("gt0", 1), "gt": ("gt0", 0), "le": ("ge0", 1),
          "ge": ("ge0", 0)}
MATH = re.compile(r"^(?:llvm\.)?(?:std::)?([a-z0-9]+?)(?:\.f(?:32|64))?$")
FUNCS = {"exp", "sqrt", "fabs", "erf", "erfc", "log", "pow", "tanh", "hypot",
         "expm1", "log1p", "fma", "fmuladd", "maxnum", "minnum", "fmax",
         "fmin", "copysign", "maximum", "minimum"}


class Kernel:
    """One instance of a kernel under one scenario."""

    MAXPATHS = 600

    def __init__(self, fm, single):
        self.fm = fm
        self.single = single
        self.defs = fm.defs
        self.facts = {}
        for (p, o), v in fm.facts.items():
            if o == -1 and v != "*":
                self.facts[p] = v
        self.params = fm.fn["params"]
        self.outs = {}       # key -> (param, element offset)
        self.roles = {}      # loop -> Poly (index expression)
        self.headers = {L["header"]: L["id"] for L in fm.loops.values()}
        self.gstore = {}
        for b, n, i in fm.insts():
            if i["k"] == "store":
                v = strip(i["p"]["base"])
                if v.get("k") == "global":
                    self.gstore.setdefault((v["m"], const_off(i["p"]["off"])),
                                           []).append(i["v"])
        self.zero = set()
        self.npaths = 0
        self.bodies = {}
        self._phis, self.memkeys = {}, {}
        self.used = set()
        self.acc, self.zsub = set(), {}

    # -- index values
    def conv(self, p):
        """Polynomial of Ctx -> canonical index polynomial."""
        if p is None:
            raise NoForm("index is not affine")
        m = {}
        for a in p.atoms():
            if a[0] == "p" and a[1:].isdigit():
                v = self.facts.get(int(a[1:]))
                if v is not None and re.match(r"^-?\d+$", v):
                    m[a] = Poly.const(int(v))
            elif a[0] == "i" and a[1:].isdigit():
                pass
            elif a in self.fm.ctx.opaque or a[0] in "ap":
                x = self.fm.ctx.opaque.get(a)
                if x is not None and x.get("k") == "load":
                    bk = strip(x["p"]["base"])
                    if bk.get("k") != "param":
                        raise NoForm("index of unknown origin")
                    q = pdiv(self.conv(self.fm.ctx.scev(x["p"]["off"])),
                             x.get("sz", 8))
                    if q is None:
                        raise NoForm("index of unknown origin")
                    m[a] = ind_atom(bk["i"], q)
                elif x is None and re.match(r"^a\d+$", a):
                    m[a] = ind_atom(1, Poly.const(int(a[1:]) // 8))
                elif x is None and re.match(r"^p\d+\.\d+$", a):
                    q, o = a[1:].split(".")
                    m[a] = ind_atom(int(q), Poly.const(int(o) // 8))
                else:
                    raise NoForm("index of unknown origin")
            else:
                raise NoForm("index of unknown origin")
        return p.subst(m) if m else p

    def trips(self, L):
        lo = self.fm.loops[L]
        live = self.fm.live_exiting(lo)
        if len(live) > 1:
            # as often as the main exit allows; other exits are paths
            e = self.main_exit(lo, live)
            t = self.fm.ctx.scev(lo["ec"].get(str(e))) if e is not None \
                else None
            if t is not None and e != lo["header"]:
                t = t + Poly.const(1)
            return self.conv(t)
        t = self.fm.trips(L, self.fm.loops[L]["latch"]) \
            if self.fm.loops[L].get("latch") is not None else None
        return self.conv(t)

    def offset(self, i):
        """(param, element offset) of a load or store, or None."""
        v = strip(i["p"]["base"])
        while v.get("k") == "ptr":
            return None
        if v.get("k") != "param":
            return None
        o = pdiv(self.conv(self.fm.ctx.scev(i["p"]["off"])), i.get("sz") or 1)
        if o is None:
            raise NoForm("offset is not a multiple of the element")
        return v["i"], o

    # -- roles of loops
    def assign(self, outs, index):
        """outs: {key: (param, offset poly)}; index: [(atom, extent)].
        Determines which loop runs over which index variable."""
        self.outs = outs
        fm = self.fm
        params = {p for p, _ in outs.values()}
        self.sites = []
        for b, n, i in fm.insts():
            if i["k"] != "store":
                continue
            v = strip(i["p"]["base"])
            if v.get("k") == "param" and v["i"] in params:
                self.sites.append((b, i))
            elif v.get("k") in ("phi", "op", "load", "?"):
                raise NoForm("store through an unknown pointer")
        self.memkeys = {}
        for b, i in self.sites:
            q, off = self.offset(i)
            chain = fm.loop_chain(b["loop"])
            key = self._match(q, off, chain, index)
            if key is None:
                raise NoForm("element written at %s[%r] is not that of the "
                             "reference" % (self.params[q]["n"], off))
            for L in chain:
                self.memkeys.setdefault(L, set()).add(key)

    def generic(self):
        """Every store counts as an output of its own, for every value of the
        counters of the loops around it."""
        fm = self.fm
        self.outs, self.sites, self.memkeys = {}, [], {}
        for b, n, i in fm.insts():
            if i["k"] != "store":
                continue
            v = strip(i["p"]["base"])
            if v.get("k") == "global":
                continue
            if v.get("k") != "param":
                raise NoForm("store through an unknown pointer")
            self.sites.append((b, i))
            q, off = self.offset(i)
            key = "%d:%r" % (q, off)
            self.outs[key] = (q, off)
            for L in fm.loop_chain(b["loop"]):
                if "i%d" % L in patoms(off):
                    self.roles[L] = Poly.atom("i%d" % L)
                self.memkeys.setdefault(L, set()).add(key)

    def _match(self, q, off, chain, index):
        trips = {}
        for L in chain:
            try:
                trips[L] = self.trips(L)
            except NoForm:
                trips[L] = None
        want = [(k, o) for k, (p, o) in self.outs.items() if p == q]

        def rec(k, used, sub):
            if k == len(index):
                inv = {"i%d" % L: e for L, e in sub.items()}
                o = psub(off, inv)
                for key, w in want:
                    if o != w:
                        continue
                    for L, e in sub.items():
                        if L in self.roles and self.roles[L] != e:
                            return None
                    self.roles.update(sub)
                    return key
                return None
            j, ext = index[k]
            ja = Poly.atom(j)
            if ext == Poly.const(1):
                return rec(k + 1, used, sub)
            for L in chain:
                if L in used or trips[L] != ext:
                    continue
                for e in (ja, ext - Poly.const(1) - ja):
                    if L in self.roles and self.roles[L] != e:
                        continue
                    r = rec(k + 1, used | {L}, {**sub, L: e})
                    if r is not None:
                        return r
            return None
        return rec(0, frozenset(), {})

    # -- values
    def deref(self, v):
        v = v or {}
        if v.get("k") == "deep" or (v.get("id") in self.defs):
            return self.defs[v["id"]]
        return v

    def ev(self, v, path):
        v0 = v
        if v0.get("k") == "cf":
            s = v0["v"]
            x = {"+Inf": math.inf, "-Inf": -math.inf}.get(s)
            if x is None:
                x = float(s)
            return kalg.constant(x, self.single)
        if v0.get("k") == "ci":
            return num(v0["v"])
        if v0.get("k") == "param":
            i = v0["i"]
            self.used.add(i)
            if i in self.facts:
                return num(kalg.Fr(self.facts[i]))
            if (v0.get("t") or "").startswith("i"):
                return rat_atom(atom(("sz", i)))
            return rat_atom(atom(("p", i)))
        i = v0.get("id")
        if i is None:
            if v0.get("k") in ("undef", "poison"):
                return rat_atom(atom(("u", 0)))
            raise NoForm("value %s" % v0.get("k"))
        if i in path.memo:
            return path.memo[i]
        r = self._ev(self.defs[i], i, path)
        path.memo[i] = r
        return r

    def bottom(self, L):
        """The loop tests at its end."""
        lo = self.fm.loops[L]
        return self.fm.live_exiting(lo) == [lo.get("latch")] and \
            lo.get("latch") != lo["header"] or lo.get("latch") == lo["header"]

    def _chain(self, bb):
        return self.fm.loop_chain(self.fm.blocks[bb]["loop"])

    def _left(self, bb, path):
        """The loop around a block that the path left in its middle."""
        for L in self._chain(bb):
            if L in path.early and L not in path.stack:
                return L
        return None

    def _ev(self, d, i, path):
        k = d["k"]
        bb = d.get("bb")
        if k == "phi":
            L = self.headers.get(d["blk"])
            if L is not None:
                if L not in path.stack and self.bottom(L) and \
                        L not in path.early:
                    raise NoForm("value before the last iteration of a loop")
                return rat_atom(atom(("P" if L in path.stack else "R", L, i)))
            left = self._left(d["blk"], path)
            if left is not None:
                return rat_atom(atom(("E", left, i)))
            for x in d["in"]:
                if x["b"] == path.pred.get(d["blk"]):
                    return self.ev(x["v"], path)
            raise NoForm("phi without a path")
        left = self._left(bb, path) if bb is not None else None
        if left is not None and self._isfp(d, set()):
            return rat_atom(atom(("E", left, i)))
        out = [L for L in self._chain(bb) if L not in path.stack] \
            if bb is not None else []
        if out and self.bottom(out[0]) and len(out) == 1:
            lt = self.fm.loops[out[0]].get("latch")
            for h, ins in self.phis(out[0]).items():
                if ins[0] != "mem" and any(
                        x["b"] == lt and strip(x["v"]).get("id") == i
                        for x in ins[1]):
                    return rat_atom(atom(("R", out[0], h)))
        if out and (bb not in self.headers or self.bottom(out[0])):
            raise NoForm("value of the last iteration of a loop")
        if k == "cast":
            op = d["op"]
            if op in ("fpext", "fptrunc"):
                return self.ev(d["a"], path)
            if op in ("sitofp", "uitofp"):
                a = strip(d["a"])
                x = self.deref(a)
                if x.get("k") == "cmp" or x.get("t") == "i1":
                    return ONE if self.truth(d["a"], path) else ZERO
                return self.ival(d["a"], path)
            if op in ("sext", "zext", "trunc"):
                return self.ival(d["a"], path)
            raise NoForm("conversion " + op)
        if k == "load":
            if i in path.loads:
                return path.loads[i]
            return self.load(d, path)
        if k == "call":
            return self.call(d, i, path)
        if k == "op":
            op = d["op"]
            if op == "select":
                return self.ev(d["a"][1 if self.truth(d["a"][0], path) else 2],
                               path)
            if op == "fneg":
                return -self.ev(d["a"][0], path)
            if op == "freeze":
                return self.ev(d["a"][0], path)
            if op in ("fadd", "fsub", "fmul", "fdiv"):
                a, b = self.ev(d["a"][0], path), self.ev(d["a"][1], path)
                r = {"fadd": a.__add__, "fsub": a.__sub__,
                     "fmul": a.__mul__, "fdiv": a.__truediv__}[op](b)
                return self.rounded(r, i, path, a, b) if op in ("fadd", "fsub") \
                    else r
            if (d.get("t") or "").startswith("i"):
                return self.ival({"k": "deep", "id": i}, path)
        raise NoForm("operation " + str(d.get("op") or k))

    def ival(self, v, path):
        p = self.conv(self.fm.ctx.val(v))
        return prat(psub(p, path.isub))

    def load(self, d, path):
        v = strip(d["p"]["base"])
        if v.get("k") == "global":
            st = self.gstore.get((v["m"], const_off(d["p"]["off"])), [])
            if len(st) == 1:
                return self.ev_static(st[0], path)
            raise NoForm("global " + str(v.get("n")))
        if v.get("k") != "param":
            raise NoForm("load from memory of unknown origin")
        q, off = self.offset(d)
        self.used.add(q)
        off = psub(off, path.isub)
        if any(p == q for p, _ in self.outs.values()):
            for key, (p, o) in self.outs.items():
                if p == q and o == off:
                    return path.mem.get(key, ld(q, off))
            return ld(q, off)
        return ld(q, off)

    def ev_static(self, v, path):
        """Value of a static local: depends on nothing but constants."""
        q = Path()
        q.stack = tuple(self.fm.loops)
        return self.ev(v, q)

    def call(self, d, i, path):
        m = MATH.match(d.get("m") or "")
        f = m.group(1) if m else None
        if f is not None and f not in FUNCS and f.endswith("f") \
                and f[:-1] in FUNCS:
            f = f[:-1]
        if f not in FUNCS:
            raise NoForm("call of %s" % d.get("m"))
        if f in ("fmax", "maxnum", "maximum", "fmin", "minnum", "minimum"):
            a, b = self.ev(d["a"][0], path), self.ev(d["a"][1], path)
            key = ("fmax", i)
            if key not in path.assume:
                raise Split((key, Lit("ge0", a - b), Lit("gt0", b - a)))
            first = path.assume[key] == (f[:4] in ("fmax", "maxn", "maxi"))
            return a if first else b
        if f == "copysign":
            raise NoForm("copysign")
        args = [self.ev(a, path) for a in d["a"]]
        r = func("fma" if f == "fmuladd" else f, args)
        return self.rounded(r, i, path) if f in ("fma", "fmuladd") else r

    def rounded(self, r, i, path, *ops):
        """A sum with its rounding error, if it is as large as one of the
        accumulators of interest.  The difference of two values that contain
        the same error may be exact."""
        if not self.acc or not path.stack:
            return r
        x = subst(r, self.zsub)
        x = subst(x, {a: ZERO for a in x.atoms() if kind(a) == "dl"})
        if any(a in self.acc for a in x.atoms()):
            dl = [{a for a in o.atoms() if kind(a) == "dl"} for o in ops]
            weak = bool(dl and set.intersection(*dl))
            return r + rat_atom(atom(("dl", i, weak)))
        return r

    # -- conditions
    def truth(self, v, path):
        v = self.deref(v) if v.get("k") != "ci" else v
        if v["k"] == "ci":
            return bool(v["v"])
        i = v.get("id")
        if v["k"] == "phi":
            L = self.headers.get(v["blk"])
            if L is None:
                for x in v["in"]:
                    if x["b"] == path.pred.get(v["blk"]):
                        return self.truth(x["v"], path)
            raise NoForm("condition carried by a loop")
        if v["k"] == "op":
            a = v["a"]
            if v["op"] == "xor":
                return self.truth(a[0], path) != self.truth(a[1], path)
            if v["op"] == "and":
                return self.truth(a[0], path) and self.truth(a[1], path)
            if v["op"] == "or":
                return self.truth(a[0], path) or self.truth(a[1], path)
            if v["op"] == "select":
                return self.truth(a[1] if self.truth(a[0], path) else a[2],
                                  path)
            if v["op"] == "freeze":
                return self.truth(a[0], path)
        if v["k"] == "cast" and v["op"] in ("zext", "trunc", "sext"):
            x = self.deref(v["a"])
            if x.get("k") in ("cmp",) or x.get("t") == "i1":
                return self.truth(v["a"], path)
            if v["op"] == "trunc" and x.get("k") == "load":
                return self._bool_load(x, path)
        if v["k"] == "load":
            return self._bool_load(v, path)
        if v["k"] == "call" and (v.get("m") or "").startswith(
                "llvm.is.fpclass"):
            mask = self.deref(v["a"][1]).get("v")
            x = self.ev(v["a"][0], path)
            if mask == 0x204:
                return self._decide(("c", i), Lit("inf", x), Lit("fin", x),
                                    path)
            if mask == 0x1f8:
                return self._decide(("c", i), Lit("fin", x), Lit("inf", x),
                                    path)
        if v["k"] == "cmp":
            return self._cmp(v, i, path)
        raise NoForm("condition %s" % (v.get("m") or v["k"]))

    def _bool_load(self, v, path):
        x = self.load(v, path)
        return self._decide(("c", v["id"]), Lit("ne0", x), Lit("eq0", x), path)

    def _decide(self, key, lt, lf, path):
        if key in path.assume:
            return path.assume[key]
        c = lt.d.const()
        if c is not None and lt.k in ("gt0", "ge0", "eq0", "ne0"):
            return {"gt0": c > 0, "ge0": c >= 0, "eq0": c == 0,
                    "ne0": c != 0}[lt.k]
        if c is not None:
            return lt.k == "fin"
        if lt.k in ("inf", "fin") and (nonneg(lt.d) or True):
            pass
        raise Split((key, lt, lf))

    def _isinf(self, v):
        return v.get("k") == "cf" and v["v"] in ("+Inf", "-Inf")

    def _guard(self, v):
        """The guard variable of a static local."""
        v = self.deref(strip(v))
        if v.get("k") == "load":
            b = strip(v["p"]["base"])
            return b.get("k") == "global" and b["m"].startswith("_ZGV")
        return v.get("k") == "call" and v.get("m") == "__cxa_guard_acquire"

    def _cmp(self, v, i, path):
        p, a, b = v["p"], v["a"], v["b"]
        key = ("c", i)
        if key in path.assume:
            return path.assume[key]
        if self._guard(a) or self._guard(b):
            return p == "ne"
        if self._isinf(a):
            a, b = b, a
            p = {"olt": "ogt", "ogt": "olt", "ole": "oge", "oge": "ole",
                 "ult": "ugt", "ugt": "ult", "ule": "uge",
                 "uge": "ule"}.get(p, p)
        if self._isinf(b):
            x = self.ev(a, path)
            ax = None
            ats = [y for m in x.n for y, _ in m]
            if len(x.n) == 1 and len(ats) == 1 and kind(ats[0]) == "ab":
                ax = ARG[ats[0]]
            t = x if ax is None else ax
            if p in ("oeq", "ueq", "oge", "uge"):
                return self._decide(key, Lit("inf", t), Lit("fin", t), path)
            if p in ("une", "one", "olt", "ult"):
                return self._decide(key, Lit("fin", t), Lit("inf", t), path)
            raise NoForm("comparison with infinity")
        fp = p[0] in "ou" and p[1:] in ("eq", "ne", "lt", "le", "gt", "ge",
                                        "ne")
        da = self.deref(a)
        if fp and p not in ("ord", "uno"):
            x, y = self.ev(a, path), self.ev(b, path)
        elif p in ("ord", "uno"):
            return p == "ord"
        else:
            t = da.get("t") or ""
            if da.get("k") == "load" and da.get("sz") == 1 or t == "i1" or \
                    da.get("k") in ("cmp",):
                x = self.ev(a, path) if da.get("k") == "load" else None
                if x is None:
                    raise NoForm("comparison of conditions")
                y = self.ev(b, path)
            else:
                x, y = self.ival(a, path), self.ival(b, path)
        c = p[1:] if p not in ("eq", "ne") else p
        if c == "eq":
            return self._decide(key, Lit("eq0", x - y), Lit("ne0", x - y),
                                path)
        if c == "ne":
            return self._decide(key, Lit("ne0", x - y), Lit("eq0", x - y),
                                path)
        if c in ("lt", "gt"):
            d = y - x if c == "lt" else x - y
            return self._decide(key, Lit("gt0", d), Lit("ge0", -d), path)
        if c in ("le", "ge"):
            d = y - x if c == "le" else x - y
            return self._decide(key, Lit("ge0", d), Lit("gt0", -d), path)
        raise NoForm("comparison " + p)

    # -- walking
    def run(self, path, b, pred, region):
        """All paths from block b until the region (a loop id or None) ends."""
        done, todo = [], [(path, b, pred, 0)]
        while todo:
            self.npaths += 1
            if self.npaths > self.MAXPATHS:
                raise NoForm("too many paths")
            path, b, pred, at = todo.pop()
            try:
                nxt = self._block(path, b, pred, at, region)
            except Split as s:
                key, lt, lf = s.key
                at2 = path._at
                for val, lit in ((True, lt), (False, lf)):
                    q = path.copy()
                    q.assume[key] = val
                    q.lits.append(lit)
                    if not Facts(q.lits, self.zero).infeasible:
                        todo.append((q, b, pred, at2))
                continue
            if nxt is None:
                done.append(path)
            else:
                todo.extend(nxt)
        return done

    def _block(self, path, b, pred, at, region):
        fm = self.fm
        L = self.headers.get(b)
        if L is not None and L != region and at == 0:
            return self._loop(path, L, b, pred)
        path.pred[b] = pred
        blk = fm.blocks[b]
        for n, i in enumerate(blk["is"]):
            if n < at:
                continue
            path._at = n
            k = i["k"]
            if k == "load":
                v = strip(i["p"]["base"])
                if v.get("k") == "param" and any(
                        p == v["i"] for p, _ in self.outs.values()):
                    path.memo.pop(i["id"], None)
                    path.loads[i["id"]] = self.load(
                        self.defs[i["id"]], path)
            elif k == "store":
                self._store(path, i)
            elif k in ("call", "invoke"):
                m = i.get("m") or ""
                if any(x and "base" in x and strip(x["base"]).get("k") ==
                       "param" for x in i["s"]):
                    raise NoForm("call of %s on a buffer" % m)
            elif k == "ret":
                path.end = "ret"
                return None
            elif k == "unreachable":
                path.end = "dead"
                return None
            elif k == "switch":
                raise NoForm("switch")
            elif k == "br":
                succ = blk["succ"]
                if "c" not in i or len(set(succ)) == 1:
                    return self._goto(path, succ[0], b, region)
                if region is not None:
                    body = fm.loops[region]["blocks"]
                    inside = [s for s in succ if s in body]
                    if len(inside) == 1:
                        # an exit of this loop
                        lo = fm.loops[region]
                        live = fm.live_exiting(lo)
                        if b not in live or b == self.main_exit(lo, live):
                            return self._goto(path, inside[0], b, region)
                        if self.truth(i["c"], path) == (succ[0] == inside[0]):
                            return self._goto(path, inside[0], b, region)
                        path.end = "exit"
                        path.latch = b
                        return None
                t = self.truth(i["c"], path)
                return self._goto(path, succ[0 if t else 1], b, region)
        path.end = "ret"
        return None

    def main_exit(self, lo, live):
        if lo["header"] in live:
            return lo["header"]
        return lo.get("latch") if lo.get("latch") in live else None

    def _goto(self, path, s, b, region):
        if region is not None and s == self.fm.loops[region]["header"]:
            # choices made by the values carried to the next iteration
            self._carried(path, region, b)
            path.end = "back"
            path.latch = b
            return None
        return [(path, s, b, 0)]

    def _carried(self, path, L, b):
        for i, ins in self.phis(L).items():
            if ins[0] != "mem":
                for x in ins[1]:
                    if x["b"] == b:
                        try:
                            self.ev(x["v"], path)
                        except NoForm:
                            pass

    def _store(self, path, i):
        v = strip(i["p"]["base"])
        if v.get("k") == "global":
            return
        if v.get("k") != "param":
            if v.get("k") == "alloca":
                raise NoForm("local array")
            raise NoForm("store through an unknown pointer")
        q, off = self.offset(i)
        off = psub(off, path.isub)
        mine = [(key, o) for key, (p, o) in self.outs.items() if p == q]
        if not mine:
            raise NoForm("store to a buffer that is not an output")
        x = self.ev(i["v"], path)
        for key, o in mine:
            if o == off:
                path.mem[key] = x
                path.sites.append((key, i["loc"]))
                path.vals.append((key, i["v"]))
                return
        raise NoForm("element written is not that of the reference")

    def _loop(self, path, L, b, pred):
        fm = self.fm
        lo = fm.loops[L]
        live = fm.live_exiting(lo)
        e = self.main_exit(lo, live)
        if e is None or lo.get("latch") is None:
            raise NoForm("loop without a counter")
        if len(live) != 1 and L in self.roles:
            raise NoForm("loop with several exits")
        outs = [(x, s) for x in live for s in fm.blocks[x]["succ"]
                if s not in lo["blocks"] and s not in fm.dead_ends()]
        if L in self.roles:
            q = path.copy()
            q.isub["i%d" % L] = self.roles[L]
            q.stack = q.stack + (L,)
            res = []
            for r in self.run(q, lo["header"], pred, L):
                if r.end != "back":
                    continue
                res.append((r, outs[0]))
        else:
            path._at = 0
            self._carried(path, L, pred)
            res = []
            for o in outs:
                q = path.copy()
                q.entry[L] = (path.copy(), pred)
                q.isub["i%d" % L] = Poly.atom("i%d" % L)
                for h, ins in self.phis(L).items():
                    if ins[0] == "mem":
                        q.mem[ins[1]] = rat_atom(atom(("R", L, h)))
                if len(outs) > 1:
                    q.lits.append(Lit("exit", (L, o[0])))
                    if o[0] != e:
                        q.early = q.early | {L}
                res.append((q, o))
        nxt = []
        for r, (e, to) in res:
            r.stack = tuple(x for x in path.stack)
            r.pred[lo["header"]] = pred
            for k in list(r.memo):
                bb = self.defs[k].get("bb")
                if bb in lo["blocks"]:
                    del r.memo[k]
            for k in list(r.assume):
                if k[1] in self.defs and self.defs[k[1]].get("bb") in \
                        lo["blocks"] and L not in self.roles:
                    del r.assume[k]
            r.end = None
            nxt.append((r, to, e, 0))
        return nxt

    def body(self, L, entry, ix):
        """Paths of one iteration of a reduction with its counter at ix."""
        q = entry[0].copy()
        q.stack = q.stack + (L,)
        q.isub["i%d" % L] = ix
        for h, ins in self.phis(L).items():
            if ins[0] == "mem":
                q.mem[ins[1]] = rat_atom(atom(("P", L, h)))
        lo = self.fm.loops[L]
        n = len(q.lits)
        r = self.run(q, lo["header"], entry[1], L)
        if any(x.end not in ("back", "dead", "exit") for x in r):
            raise NoForm("iteration leaves the loop")
        self.leaving = [x for x in r if x.end == "exit"]
        for x in self.leaving:
            x.own = x.lits[n:]
        r = [x for x in r if x.end == "back"]
        for x in r:
            x.own = x.lits[n:]
        return r

    def phis(self, L):
        """Floating-point values carried by a loop, in registers or in the
        element that is computed: id -> ("phi", incoming) or ("mem", key)."""
        if L in self._phis:
            return self._phis[L]
        h = self.fm.loops[L]["header"]
        out = self._phis[L] = {}
        for n, key in enumerate(sorted(self.memkeys.get(L, ()))):
            if L not in self.roles:
                out[-1 - n] = ("mem", key)
        for i, d in self.defs.items():
            if d["k"] == "phi" and d["blk"] == h:
                vs = [strip(x["v"]) for x in d["in"]]
                if any(self._isfp(v, set()) for v in vs):
                    out[i] = ("phi", d["in"])
        return out

    def _isfp(self, v, seen):
        if v.get("k") == "cf":
            return True
        d = self.deref(v)
        if "k" not in d or d.get("id") in seen:
            return False
        seen.add(d.get("id"))
        if d["k"] == "phi":
            return any(self._isfp(strip(x["v"]), seen) for x in d["in"])
        if d["k"] == "op" and d["op"] == "select":
            return any(self._isfp(strip(x), seen) for x in d["a"][1:])
        t = d.get("t") or ""
        if d["k"] == "call":
            return True
        return t in ("double", "float")

    def init(self, L, entry):
        path, pred = entry
        out = {}
        for i, ins in self.phis(L).items():
            if ins[0] == "mem":
                out[atom(("R", L, i))] = path.mem.get(
                    ins[1], ld(*self.outs[ins[1]]))
                continue
            for x in ins[1]:
                if x["b"] == pred:
                    out[atom(("R", L, i))] = self.ev(x["v"], path.copy())
        return out

    def nexts(self, L, bp):
        out = {}
        for i, ins in self.phis(L).items():
            if ins[0] == "mem":
                out[atom(("R", L, i))] = bp.mem[ins[1]]
                continue
            for x in ins[1]:
                if x["b"] == bp.latch:
                    out[atom(("R", L, i))] = self.ev(x["v"], bp.copy())
        return out

    def cur(self, L):
        return {atom(("R", L, i)): rat_atom(atom(("P", L, i)))
                for i in self.phis(L)}

    # -- invariants
    def contexts(self, path):
        """(loop, entry, body paths) of every reduction below a path."""
        out, todo = [], [(L, e) for L, e in path.entry.items()]
        seen = set()
        while todo:
            L, e = todo.pop()
            if L in seen:
                continue
            seen.add(L)
            bps = self.body(L, e, Poly.atom("i%d" % L))
            out.append((L, e, bps))
            for b in bps:
                for M, f in b.entry.items():
                    if M not in seen:
                        todo.append((M, f))
        return out

    def invariants(self, path):
        """Loop-carried values that are always zero / never negative."""
        self.zero = set()
        loops = self.contexts(path)
        both = lambda L, i: {atom(("P", L, i)), atom(("R", L, i))}
        zero = {(L, i) for L, _, _ in loops for i in self.phis(L)}
        base = {(L, i): self.init(L, e) for L, e, _ in loops
                for i in self.phis(L)}

        def zs():
            return {a: ZERO for L, i in zero for a in both(L, i)}
        while True:
            bad = set()
            m = zs()
            for L, e, bps in loops:
                ini = self.init(L, e)
                for i in self.phis(L):
                    if (L, i) not in zero:
                        continue
                    a = atom(("R", L, i))
                    try:
                        ok = subst(ini[a], m).is_zero() and all(
                            subst(self.nexts(L, b)[a], m).is_zero()
                            for b in bps)
                    except NoForm:
                        ok = False
                    if not ok:
                        bad.add((L, i))
            if not bad:
                break
            zero -= bad
        self.zero = set(zs())
        self.zsub = zs()
        cand = {(L, i) for L, _, _ in loops for i in self.phis(L)} - zero
        for _ in range(6):
            add = {a for L, i in cand for a in both(L, i)}
            CTX.nn |= add
            bad = set()
            try:
                for L, e, bps in self.contexts(path):
                    ini = self.init(L, e)
                    for i in self.phis(L):
                        if (L, i) not in cand:
                            continue
                        a = atom(("R", L, i))
                        try:
                            ok = nonneg(subst(ini[a], self.zsub)) and \
                                nn(subst(ini[a], self.zsub)) and \
                                all(nn(subst(self.nexts(L, b)[a], self.zsub))
                                    for b in bps)
                        except NoForm:
                            ok = False
                        if not ok:
                            bad.add((L, i))
            finally:
                if bad:
                    CTX.nn -= add
            if not bad:
                break
            cand -= bad
        return len(zero), len(cand)


def nn(r):
    return kalg.p_nn(r.n) and kalg.p_nn(r.d)


# -- goals -----------------------------------------------------------------------
def rsub(r, m):
    """Substitution of index variables in an expression."""
    s = {}
    for a in r.atoms():
        d = DESC[a]
        if d[0] == "ld":
            o = psub(d[2], m)
            if o != d[2]:
                s[a] = ld(d[1], o)
        elif d[0] == "ix" and d[1] in m:
            s[a] = prat(m[d[1]])
    return subst(r, s) if s else r


class Spec:
    """Reference of one kernel for one scenario of its scalars."""

    def __init__(self, K):
        self.K = K
        self.index, self.red = [], []
        self.outs, self.goals = {}, []
        self.assume = []
        self.sizes = {}
        self.pos, self.nneg = set(), set()
        self.masked = set()    # buffers with elements hidden by a mask (-inf)

    def n(self, i):
        v = self.K.facts.get(i)
        if v is not None and re.match(r"^-?\d+$", v):
            return Poly.const(int(v))
        self.sizes[i] = 1
        return Poly.atom("p%d" % i)

    def nr(self, i):
        return prat(self.n(i))

    def a(self, i, pos=False, nneg=False):
        v = self.K.facts.get(i)
        if v is not None:
            return num(kalg.Fr(v))
        x = atom(("p", i))
        if pos:
            self.pos.add(x)
        if nneg:
            self.nneg.add(x)
        return rat_atom(x)

    def fact(self, i):
        return self.K.facts.get(i)

    def ix(self, ext):
        j = "j%d" % len(self.index)
        self.index.append((j, ext))
        return Poly.atom(j)

    def rx(self, ext):
        j = "r%d" % len(self.red)
        self.red.append((j, ext))
        return Poly.atom(j)

    def ld(self, i, off=None, nneg=False, pos=False):
        x = ld(i, off if off is not None else Poly.const(0))
        if nneg or pos:
            (self.pos if pos else self.nneg).update(
                a for m in x.n for a, _ in m)
        return x

    def at(self, i, off):
        return ind_atom(i, off)

    def out(self, key, param, off):
        self.outs[key] = (param, off)
        return ld(param, off)

    def val(self, key, fn, name=None):
        self.goals.append(("val", name or key, key, fn))

    def sum(self, name, G, base, term, dims=None, square=None):
        self.goals.append(("sum", name, G, base, term,
                           dims if dims is not None else list(self.red),
                           square))

    def max(self, name, key, base, term):
        self.goals.append(("max", name, key, base, term, list(self.red)))


class Oracle:
    def __init__(self, facts):
        self.f = facts

    def ge(self, a, b):
        return self._t(a - b, "ge0", "gt0")

    def gt(self, a, b):
        return self._t(a - b, "gt0", "ge0")

    def eq(self, a, b):
        d = a - b
        d2 = self.f.app(d)
        if d2.is_zero():
            return True
        if d2.const() is not None:
            return False
        for l in self.f.lits:
            if l.k == "ne0" and (l.d == d or l.d == -d):
                return False
        raise SpecSplit((Lit("eq0", d), Lit("ne0", d)))

    def isinf(self, x):
        for l in self.f.all:
            if l.k in ("inf", "fin") and l.d == x:
                return l.k == "inf"
        raise SpecSplit((Lit("inf", x), Lit("fin", x)))

    def truth(self, x):
        return not self.eq(x, ZERO)

    def _t(self, d, yes, no):
        d2 = self.f.app(d)
        c = d2.const()
        if c is not None:
            return c > 0 or (c == 0 and yes == "ge0")
        p = primitive(d2)
        for l in self.f.cur:
            if l.d == p and (l.k == "gt0" or yes == "ge0"):
                return True
            if l.d == -p and (l.k == "gt0" or no == "ge0" and l.k == "ge0"):
                return False
        raise SpecSplit((Lit(yes, d), Lit(no, -d)))


def facts_of(lits, K):
    f = Facts(lits, K.zero)
    f.all = lits
    return f


class Prover:
    def __init__(self, K, S):
        self.K, self.S = K, S
        self.ob = 0           # obligations shown
        self.failed = []      # (goal, path, text, x, y)

    def signs(self):
        CTX.pos, CTX.nn = set(self.S.pos), set(self.S.nneg)

    def prove(self):
        K, S = self.K, self.S
        kalg.NAMES.clear()
        kalg.NAMES.update({i: p["n"] for i, p in enumerate(K.params)})
        self.signs()
        K.assign(S.outs, S.index)
        base = Path()
        base.lits = list(S.assume)
        self.paths = [p for p in K.run(base, K.fm.entry, None, None)
                      if p.end == "ret"]
        if not self.paths:
            raise NoForm("no path returns")
        for p in self.paths:
            self.signs()
            K.zero, K.zsub = set(), {}
            if p.entry:
                nz, nn_ = K.invariants(p)
                self.ob += nz + nn_
            p.nn = set(CTX.nn)
            p.zero, p.zsub = set(K.zero), dict(K.zsub)
        for g in S.goals:
            self.proven = []
            # paths that depend on a reduction first: what they show is used
            # for the others
            for p in sorted(self.paths, key=lambda p: not self._has_r(g, p)):
                self.signs()
                CTX.nn |= p.nn
                K.zero, K.zsub = p.zero, p.zsub
                f = facts_of(p.lits, K)
                if f.infeasible:
                    continue
                getattr(self, "_" + g[0])(g, p)
        return not self.failed

    def outv(self, p, key):
        q, o = self.S.outs[key]
        r = p.mem.get(key)
        return subst(r, self.K.zsub) if r is not None else ld(q, o)

    def _has_r(self, g, p):
        try:
            return any(kind(a) == "R" for k in self.S.outs
                       for a in self.outv(p, k).atoms())
        except NoForm:
            return False

    def variants(self, lits, fn):
        """fn(facts, oracle) under every outcome of what the reference asks."""
        todo, n = [list(lits)], 0
        while todo:
            ls = todo.pop()
            n += 1
            if n > 64:
                raise NoForm("too many cases")
            f = facts_of(ls, self.K)
            if f.infeasible:
                continue
            try:
                fn(f, Oracle(f), ls)
            except SpecSplit as s:
                todo.extend(ls + [l] for l in s.d)

    def _fail(self, g, p, text, x=None, y=None, lits=None):
        self.failed.append((g, p, text, x, y, lits if lits is not None
                            else p.lits))

    # -- elementwise
    def _val(self, g, p):
        key = g[2]
        x = self.outv(p, key)

        def one(f, o, ls):
            y = g[3](o)
            if f.equal(x, y):
                self.ob += 1
            else:
                self._fail(g, p, "%s = %r instead of %r" % (key, x, y), x, y,
                           ls)
        self.variants(p.lits, one)

    # -- sums
    def _sum(self, g, p):
        _, name, G, base, term, dims, square = g

        def one(f, o, ls):
            E = G({k: self.outv(p, k) for k in self.S.outs})
            B = base(o) if callable(base) else base
            T = term(o) if callable(term) else term
            E = f.limit(E)
            if square is not None and not nn_ok(self.outv(p, square), f):
                self._fail(g, p, "%s may be negative" % square)
                return
            for q in self.proven:
                if q[1] == B and q[2] == T and f.equal(E, q[0]):
                    self.ob += 1
                    return
                try:
                    if q[2] == T and f.equal(E - B, q[0] - q[1]):
                        self.ob += 1
                        return
                except NoForm:
                    pass
            if self.psum(E, B, T, dims, p, ls):
                self.proven.append((E, B, T))
            else:
                self._fail(g, p, "%s: %s" % (name, self.why), None, None, ls)
        self.variants(p.lits, one)

    def loops_of(self, E):
        return sorted({DESC[a][1] for a in E.atoms() if kind(a) == "R"})

    def psum(self, E, B, T, dims, path, lits):
        K = self.K
        self.why = ""
        f = facts_of(lits, K)
        E = subst(E, K.zsub)
        Ls = [L for L in self.loops_of(E) if L in path.entry]
        if not dims and not Ls:
            if f.equal(E, B + T):
                self.ob += 1
                return True
            self.why = "%r instead of %r" % (f.app(E), B + T)
            return False
        if not Ls:
            if f.equal(E, B) and T.is_zero():
                self.ob += 1
                return True
            self.why = "%r does not accumulate the %s" % (
                E, "terms %r" % T)
            return False
        if len(Ls) != 1:
            self.why = "several loops contribute"
            return False
        L = Ls[0]
        if L in path.early:
            self.why = "the loop is left before its last iteration"
            return False
        entry = path.entry[L]
        t = K.trips(L)
        t = psub(t, path.isub)
        c1 = Poly.const(1)
        why = "its loop does not run over a reduction index"
        for d, ext in dims:
            rest = [x for x in dims if x[0] != d]
            i = Poly.atom("i%d" % L)
            cands = []
            if t == ext:
                cands = [(i, None), (ext - c1 - i, None)]
            elif t == ext - c1 and not rest:
                cands = [(i + c1, Poly.const(0)), (i, ext - c1),
                         (ext - c1 - i, Poly.const(0)),
                         (ext - c1 - c1 - i, ext - c1)]
            for e, peel in cands:
                w = self._step(E, B, T, rest, d, e, peel, L, entry, path, lits)
                if w is None:
                    return True
                why = w
        self.why = why
        return False

    def _step(self, E, B, T, rest, d, e, peel, L, entry, path, lits):
        K = self.K
        ini = {a: subst(v, K.zsub) for a, v in K.init(L, entry).items()}
        f = facts_of(entry[0].lits, K)
        try:
            E0 = subst(E, ini)
        except NoForm as x:
            return "start: %s" % x
        B0 = B + rsub(T, {d: peel}) if peel is not None else B
        if not f.equal(f.limit(E0), B0):
            return "before the first iteration it is %r instead of %r" % (
                E0, B0)
        self.ob += 1
        cur = K.cur(L)
        Td = rsub(T, {d: e})
        Ep = subst(E, cur)
        for b in K.body(L, entry, Poly.atom("i%d" % L)):
            nx = {a: subst(v, K.zsub) for a, v in K.nexts(L, b).items()}
            fb = facts_of(b.lits, K)
            if fb.infeasible:
                continue
            try:
                En = subst(E, nx)
            except NoForm as x:
                return "step: %s" % x
            T2 = fb.limit(fb.app(Td)) if not rest else Td
            if not rest:
                if not [M for M in self.loops_of(En) if M in b.entry]:
                    if fb.equal(En, Ep + T2):
                        self.ob += 1
                        continue
                    return "an iteration%s adds %r instead of %r" % (
                        self.at(b), safe(lambda: fb.app(En - Ep)), T2)
                return "a loop inside the reduction"
            if not self.psum(En, Ep, T2, rest, b, b.lits):
                return self.why
        return None

    def at(self, b):
        own = [l for l in getattr(b, "own", [])]
        return " with " + ", ".join(map(repr, own)) if own else ""

    # -- maxima
    def _max(self, g, p):
        _, name, key, base, term, dims = g

        def one(f, o, ls):
            E = self.outv(p, key)
            B = base(o)
            T = term(o) if callable(term) else term
            if B == "skip":
                self.ob += 1
                return
            Rs = [r for r in {a for a in E.atoms() if kind(a) == "R"}]
            # the maximum over the slice as the loop carries it
            m = self._maxphi(p, T, dims, ls)
            if m is None:
                self._fail(g, p, "%s: no loop-carried value is the maximum of "
                           "the elements%s" % (name, self.why))
                return
            if any(l.k == "inf" and l.d == m for l in ls):
                # nothing but masked elements: the pair stays as it is
                if f.equal(E, ld(*self.S.outs[key])):
                    self.ob += 1
                else:
                    self._fail(g, p, "%s = %r although all elements are "
                               "masked" % (name, E), None, None, ls)
                return
            cands = [m] + ([B] if B is not None else [])
            if not any(f.equal(E, c) for c in cands):
                self._fail(g, p, "%s = %r is not the maximum of %s" % (
                    name, E, " and ".join(map(repr, cands))), None, None, ls)
                return
            for c in cands:
                if not f.implies_ge(E - c):
                    self._fail(g, p, "%s = %r may be less than %r" % (
                        name, E, c), None, None, ls)
                    return
            self.ob += 1
        self.variants(p.lits, one)

    def _maxphi(self, p, T, dims, lits):
        K = self.K
        self.why = ""
        if len(dims) != 1:
            return None
        d, ext = dims[0]
        c1 = Poly.const(1)
        for L, entry in p.entry.items():
            if L in p.early:
                continue
            t = psub(K.trips(L), p.isub)
            i = Poly.atom("i%d" % L)
            if t == ext - c1:
                cands = [(i + c1, Poly.const(0)), (i, ext - c1),
                         (ext - c1 - i, Poly.const(0))]
            else:
                continue
            ini = K.init(L, entry)
            for a, v in ini.items():
                for e, peel in cands:
                    if v != rsub(T, {d: peel}):
                        continue
                    ok = True
                    for b in K.body(L, entry, i):
                        fb = facts_of(b.lits, K)
                        if fb.infeasible:
                            continue
                        x = rsub(T, {d: e})
                        P = rat_atom(atom(("P", L, DESC[a][2])))
                        nx = K.nexts(L, b)[a]
                        if any(l.k == "inf" and l.d == x for l in b.lits):
                            if fb.equal(nx, P):
                                self.ob += 1
                                continue
                            ok = False
                        elif not ((fb.equal(nx, P) or fb.equal(nx, x))
                                  and fb.implies_ge(nx - P)
                                  and fb.implies_ge(nx - x)):
                            ok = False
                        else:
                            self.ob += 1
                        if not ok:
                            self.why = ": an iteration%s makes it %r" % (
                                self.at(b), nx)
                            break
                    if ok:
                        return rat_atom(a)
        return None


def safe(fn):
    try:
        return fn()
    except NoForm:
        return "?"


def nn_ok(r, f):
    r = f.app(r)
    return nn(r)


# -- divisions -------------------------------------------------------------------
def positive(r):
    """Greater than zero by the signs of its atoms."""
    def strict(p):
        return kalg.p_nn(p) and any(all(kalg.a_pos(a) for a, _ in m)
                                    for m in p)
    return strict(r.n) and kalg.p_nn(r.d)


def feeds(K, path, vs):
    """Instructions a path evaluates to obtain values: id -> instruction."""
    out = {}

    def walk(v, stack):
        d = K.deref(v) if v.get("k") not in ("ci", "cf", "param") else v
        i = d.get("id")
        if i is None or i in out or i in stack:
            return
        k = d["k"]
        if k == "phi":
            if d["blk"] in K.headers:
                return
            for x in d["in"]:
                if x["b"] == path.pred.get(d["blk"]):
                    walk(x["v"], stack | {i})
            return
        out[i] = d
        if k == "cast":
            walk(d["a"], stack)
        elif k == "call":
            for x in d["a"]:
                walk(x, stack)
        elif k == "cmp":
            walk(d["a"], stack)
            walk(d["b"], stack)
        elif k == "op":
            a = d["a"]
            if d["op"] == "select":
                a = [a[0], a[1 if K.truth(a[0], path) else 2]]
            for x in a:
                walk(x, stack)
    for v in vs:
        walk(v, frozenset())
    return out


def inside(K, path, d):
    """The path at an instruction of a loop over output elements."""
    q = path.copy()
    q.stack = q.stack + tuple(L for L in K._chain(d["bb"])
                              if L in K.roles and L not in q.stack)
    return q


def carried(K, L, b):
    """(phi, value) of what an iteration hands to the next one."""
    return [(i, x["v"]) for i, ins in K.phis(L).items() if ins[0] != "mem"
            for x in ins[1] if x["b"] == b.latch]


def divisions(pr):
    """Divisors of the values stored or carried by loops: number shown to be
    nonzero (or to be zero only where the reference is singular too), and
    points at which one is zero while the reference is defined."""
    K, S = pr.K, pr.S
    ok, opened, bad = 0, [], []
    seen = set()

    def one(D, lits, loc, path):
        nonlocal ok
        key = (D.key(), tuple(map(repr, lits)))
        if key in seen:
            return
        seen.add(key)
        if D.const() is not None or positive(D) or positive(-D):
            ok += 1
            return
        # the reference divides by it too, in every case it tells apart
        cases = []

        def case(f2, o, ls):
            if any(l.k == "inf" and not all(
                    DESC[a][0] == "ld" and DESC[a][1] in S.masked
                    for a in l.d.atoms()) for l in ls[len(lits):]):
                return           # only hidden elements are infinite
            try:
                r = [x for g in S.goals for x in _ref(g, o)]
            except NoForm:
                return
            if not any(_divided(x, D) for x in r):
                cases.append(ls)
        try:
            pr.variants(list(lits), case)
        except NoForm:
            cases = [list(lits)]
        if not cases:
            ok += 1
        for ls in cases:
            zeros(D, ls + [Lit("eq0", D)], loc, path, 0)

    def zeros(D, cond, loc, path, depth):
        nonlocal ok
        lits = cond[:-1 - depth]
        f = facts_of(cond, K)
        if f.infeasible or positive(f.app(D)):
            ok += 1
            return
        nil = [z for z in f.nil if not any(
            f.app(kalg.rat_atom(a)).is_zero() for a in z)]
        if nil and depth < 4:
            for a in sorted(nil[0]):
                zeros(D, cond + [Lit("eq0", kalg.rat_atom(a))], loc, path,
                      depth + 1)
            return
        # singular in the reference too?
        try:
            for g in S.goals:
                pr.variants(list(f.all), lambda f2, o, ls: [
                    f2.app(x) for x in _ref(g, o)])
        except NoForm:
            ok += 1
            return
        z = [DESC[a] for a in f.sub if a not in K.zero]
        if any(d[0] in ("P", "R", "sz") for d in z) or not z or \
                not f.app(D).is_zero():
            opened.append("divisor %r" % D)
            return
        # the other conditions of the path hold for some values
        for seed in range(40):
            pt = Point(K, S, 2000 + seed, 3)
            pt.path, pt.cache = path, {}
            try:
                for j, ext in S.index:
                    pt.idx[j] = pt.rng.randrange(max(1, pt.poly(ext)))
                ls = []
                for l in lits:
                    try:
                        if l.k not in ("inf", "fin"):
                            d = f.app(l.d)
                            if not d.is_zero():
                                ls.append(Lit(l.k, d))
                            elif l.k in ("gt0", "ne0"):
                                raise ValueError
                    except NoForm:
                        pass     # not a number: the comparison fails
                if pt.holds(ls):
                    bad.append("divides by %r, which is zero with %s where "
                               "the reference is defined" % (D, ", ".join(
                                   "%s = %r" % (kalg.astr(a), v)
                                   for a, v in f.sub.items()
                                   if a not in K.zero)))
                    return
            except (ValueError, OverflowError, ZeroDivisionError, KeyError,
                    NoForm):
                continue
        opened.append("divisor %r" % D)

    def values(vs, path, lits):
        for i, d in feeds(K, path, vs).items():
            if d["k"] == "op" and d["op"] == "fdiv":
                try:
                    D = subst(K.ev(d["a"][1], inside(K, path, d)), K.zsub)
                except NoForm as x:
                    opened.append("divisor of unknown form: %s" % x)
                    continue
                one(D, lits, None, path)

    done = set()
    for p in pr.paths:
        pr.signs()
        CTX.nn |= p.nn
        K.zero, K.zsub = p.zero, p.zsub
        if facts_of(p.lits, K).infeasible:
            continue
        try:
            values([v for _, v in p.vals], p, p.lits)
            for L, e, bps in K.contexts(p):
                for b in bps:
                    values([v for _, v in carried(K, L, b)] +
                           [v for _, v in b.vals], b, b.lits)
        except (NoForm, Split) as x:
            opened.append(str(x))
    return ok, opened, bad


def _divided(r, D):
    """r has D among its divisors."""
    if r.is_zero():
        return False
    if len(D.n) == 1 and D.d == {(): 1}:
        at = {a for m in D.n for a, e in m if not kalg.a_pos(a)}
        return all(all(dict(m).get(a, 0) < 0 for m in r.n) or all(
            dict(m).get(a, 0) > 0 for m in r.d) or
            kind(a) in ("sq", "ab") and _divided(r, ARG[a]) for a in at)
    try:
        return kalg.pdivexact(r.d, D.n) is not None
    except (NoForm, ZeroDivisionError):
        return False


def _ref(g, o):
    if g[0] == "val":
        return [g[3](o)]
    T = g[4](o) if callable(g[4]) else g[4]
    B = g[3](o) if callable(g[3]) else g[3]
    return [T] + ([B] if isinstance(B, Rat) else [])


# -- a point where two formulas differ -------------------------------------------
class Point:
    """Deterministic pseudo-random values of everything a formula mentions."""

    def __init__(self, K, S, seed, small):
        self.K, self.S = K, S
        self.seed = seed
        self.rng = random.Random(seed)
        self.size = {}
        for i in range(len(K.params)):
            t = K.params[i]["t"]
            if t.startswith("i"):
                self.size[i] = self.rng.randint(1, small)
        self.idx = {}
        self.state, self.left, self.leave = {}, {}, {}
        self.path, self.cache = None, {}
        self.sgn = set(S.pos) | set(S.nneg)
        self.pos = set(S.pos)
        self.signed = set()    # elements that are never negative
        self.special = seed % 3 == 2
        self.few = seed % 3 == 1 and seed % 2 == 1
        self.scale = 1.0
        self.masked = S.masked if seed % 4 == 2 else ()
        self.hidden = 0.35     # share of masked elements
        self.bools = {strip(i["p"]["base"])["i"] for _, _, i in K.fm.insts()
                      if i["k"] == "load" and i.get("sz") == 1 and
                      strip(i["p"]["base"]).get("k") == "param"}

    def poly(self, p):
        s = 0
        for k, v in p.t.items():
            t = v
            for a in k:
                t *= self.ix(a)
            s += t
        return s

    def ix(self, a):
        if a in self.idx:
            return self.idx[a]
        if a in _IND:
            q, o = _IND[a]
            return random.Random("%d X%d %d" % (self.seed, q, self.poly(o))
                                 ).randint(0, 2)
        if a[0] == "p":
            return self.size[int(a[1:])]
        raise KeyError(a)

    def val(self, a):
        d = DESC[a]
        if d[0] == "ld":
            off = self.poly(d[2])
            r = random.Random("%d L%d %d" % (self.seed, d[1], off))
            sgn = a in self.sgn or (d[1], off) in self.signed
            if d[1] in self.bools:
                return float(r.randint(0, 1))
            if d[1] in self.masked and r.random() < self.hidden:
                return -math.inf
            x = r.uniform(-1.6, 1.6)
            if abs(x) < 0.05:
                x = 0.7
            x *= self.scale
            if self.seed % 5 == 4 and a not in self.pos and random.Random(
                    "%d Z%d" % (self.seed, d[1])).random() < 0.4:
                return 0.0
            if self.special:
                x = r.choice([x, x, 1.0, 0.0 if a not in self.pos else x])
            elif self.few:
                x = r.choice([-2.0, -1.0, 1.0, 2.0,
                              0.0 if a not in self.pos else 1.0])
            return abs(x) if sgn else x
        if d[0] == "p":
            r = random.Random("%d p%d" % (self.seed, d[1]))
            x = r.uniform(-1.5, 1.5)
            x = x if abs(x) > 0.1 else x + 0.37
            if self.special:
                x = r.choice([x, x, 1.0])
            return abs(x) if a in self.sgn else x
        if d[0] == "sz":
            return float(self.size[d[1]])
        if d[0] == "ix":
            return float(self.ix(d[1]))
        if d[0] == "P":
            return self.state[(d[1], d[2])]
        if d[0] == "R":
            return self.result(d[1])[d[2]]
        if d[0] == "E":
            self.result(d[1])
            b, idx, state, cache = self.leave[d[1]]
            keep = self.path, self.idx, self.state, self.cache
            self.path, self.idx, self.state, self.cache = \
                b, dict(idx), dict(state), dict(cache)
            try:
                return self.ev(self.K.ev({"id": d[2], "k": "deep"}, b.copy()))
            finally:
                self.path, self.idx, self.state, self.cache = keep
        if d[0] == "u":
            return 0.377
        raise KeyError(d)

    def ev(self, r):
        return evalf(r, self.val)

    def holds(self, lits):
        for l in lits:
            if l.k in ("inf", "fin"):
                if math.isinf(self.ev(l.d)) != (l.k == "inf"):
                    return False
                continue
            if l.k == "exit":
                self.result(l.d[0])
                if self.left[l.d[0]] != l.d[1]:
                    return False
                continue
            x = self.ev(l.d)
            if not {"gt0": x > 0, "ge0": x >= 0, "eq0": x == 0,
                    "ne0": x != 0}[l.k]:
                return False
        return True

    def result(self, L):
        """Values a reduction leaves, from its formulas."""
        if L in self.cache:
            return self.cache[L]
        K = self.K
        entry = self.path.entry[L]
        st = {DESC[a][2]: self.ev(v) for a, v in K.init(L, entry).items()}
        trips = self.poly(psub(K.trips(L), self.path.isub))
        up = self.path
        key = (L, id(entry))
        if key not in K.bodies:
            x = K.body(L, entry, Poly.atom("i%d" % L))
            K.bodies[key] = (x, K.leaving, entry)
        bps, leaving, _ = K.bodies[key]
        lo = K.fm.loops[L]
        self.left[L] = K.main_exit(lo, K.fm.live_exiting(lo))
        for t in range(trips):
            self.idx["i%d" % L] = t
            for i, v in st.items():
                self.state[(L, i)] = v
            saved = dict(self.cache)
            for b in bps + leaving:
                self.path = b
                if self.holds(b.own):
                    break
            else:
                self.path = up
                raise ValueError("no path")
            if b.end == "exit":
                self.left[L] = b.latch
                self.leave[L] = (b, dict(self.idx), dict(self.state),
                                 dict(self.cache))
                self.path, self.cache = up, saved
                break
            st = self.step(L, b)
            self.path = up
            self.cache = saved
        self.cache[L] = st
        return st

    def step(self, L, b):
        return {DESC[a][2]: self.ev(v)
                for a, v in self.K.nexts(L, b).items()}

    def pick(self, paths):
        for p in paths:
            self.path, self.cache = p, {}
            try:
                if self.holds(p.lits):
                    return p
            except (ValueError, OverflowError, ZeroDivisionError):
                continue
        return None


def far(K, x, y):
    if math.isnan(x) or math.isnan(y) or x == y:
        return False
    return not abs(x - y) <= (5e-6 if K.single else 1e-9) * (
        1 + abs(x) + abs(y))


class NumOracle:
    def __init__(self, pt):
        self.pt = pt

    def ge(self, a, b):
        return self.pt.ev(a - b) >= 0

    def gt(self, a, b):
        return self.pt.ev(a - b) > 0

    def eq(self, a, b):
        return self.pt.ev(a - b) == 0

    def isinf(self, x):
        return math.isinf(self.pt.ev(x))

    def truth(self, x):
        return self.pt.ev(x) != 0


def difference(pr, tries=90):
    """A point where the kernel and the reference differ, as text, or None."""
    K, S = pr.K, pr.S
    goals = []
    for x in pr.failed:
        if x[0] not in goals:
            goals.append(x[0])
    pr.signs()
    for p in pr.paths:
        CTX.nn |= p.nn
    K.zero, K.zsub = set(), {}
    for seed in range(tries):
        pt = Point(K, S, seed, 1 + seed % 4)
        try:
            for j, ext in S.index:
                n = pt.poly(ext)
                pt.idx[j] = pt.rng.randrange(max(1, n))
            if not pt.holds([l for l in S.assume if l.k != "fin"]):
                continue
            p = pt.pick(pr.paths)
            if p is None:
                continue
            for g in goals:
                r = goal_at(pt, pr, g, p)
                if r is not None:
                    x, y = r
                    if far(K, x, y):
                        return "%s is %.6g instead of %.6g at %s" % (
                            g[1], x, y, describe(pt, pr))
                if g[0] == "sum" and g[6] is not None:
                    x = pt.ev(p.mem.get(g[6]) or ld(*S.outs[g[6]]))
                    if x < 0 and far(K, x, 0):
                        return "%s is %.6g, which is negative, at %s" % (
                            g[6], x, describe(pt, pr))
        except (ValueError, OverflowError, ZeroDivisionError, KeyError,
                NoForm):
            continue
    # cases a random point misses: equalities
    for g, p, text, x, y, lits in pr.failed:
        if x is None:
            continue
        r = differs_under(pr, x, y, lits, p)
        if r:
            return "%s, %s" % (text, r)
    return None


def describe(pt, pr):
    return ", ".join("%s=%s" % (pr.K.params[i]["n"], v)
                     for i, v in sorted(pt.size.items())) + ", " + ", ".join(
        "%s=%d" % (j, pt.idx[j]) for j, _ in pr.S.index)


def goal_at(pt, pr, g, p):
    S = pr.S
    o = NumOracle(pt)

    def out(k):
        q, off = S.outs[k]
        r = p.mem.get(k)
        return r if r is not None else ld(q, off)
    if g[0] == "val":
        y = pt.ev(g[3](o))
        x = pt.ev(out(g[2]))
        return x, y
    dims = g[5]
    T = g[4](o) if callable(g[4]) else g[4]
    terms = []

    def rec(k):
        if k == len(dims):
            terms.append(pt.ev(T))
            return
        j, ext = dims[k]
        for t in range(pt.poly(ext)):
            pt.idx[j] = t
            rec(k + 1)
    rec(0)
    if g[0] == "sum":
        B = g[3](o) if callable(g[3]) else g[3]
        x = pt.ev(g[2]({k: out(k) for k in S.outs}))
        return x, pt.ev(B) + sum(terms)
    B = g[3](o)
    if B == "skip":
        return None
    y = max(terms + ([pt.ev(B)] if B is not None else []))
    # nothing but masked elements: no maximum
    return None if math.isinf(y) else (pt.ev(out(g[2])), y)


def differs_under(pr, x, y, lits, p):
    """Two expressions that stay different when the equalities of a path are
    taken into account."""
    K = pr.K
    f = facts_of(lits, K)
    if f.infeasible or f.infs or not (f.sub or f.overflow):
        return None
    try:
        x, y = f.app(x), f.app(y)
        ls = [Lit(l.k, f.app(l.d)) for l in lits if l.k not in ("inf", "fin")]
        ls = [l for l in ls if not l.d.is_zero()]
    except NoForm:
        return None
    for seed in range(40):
        pt = Point(K, pr.S, 1000 + seed, 3)
        pt.path, pt.cache = p, {}
        if f.overflow:
            # an exponential that overflows is beyond all bounds
            pt.scale = 2.0 + seed % 8
        try:
            for j, ext in pr.S.index:
                pt.idx[j] = pt.rng.randrange(max(1, pt.poly(ext)))
            if not pt.holds(ls) or \
                    any(pt.ev(o) < 1e12 for o in f.overflow):
                continue
            a, b = pt.ev(x), pt.ev(y)
            if abs(a - b) > 1e-3 if f.overflow else far(K, a, b):
                return "for instance %.6g and %.6g" % (a, b)
        except (ValueError, OverflowError, ZeroDivisionError, KeyError,
                NoForm):
            continue
    return None


# -- elements written that are not those of the reference ---------------------------
def difference_generic(K, S, tries=36):
    """A point at which the set of elements written, or the value of one of
    them, is not that of the reference.  K is a fresh kernel: its stores are
    taken as they are, each with the index expression and the value extracted
    for it.  None if nothing is found or the stores cannot be told apart."""
    kalg.NAMES.clear()
    kalg.NAMES.update({i: p["n"] for i, p in enumerate(K.params)})
    CTX.pos, CTX.nn = set(S.pos), set(S.nneg)
    K.generic()
    paths = [p for p in K.run(Path(), K.fm.entry, None, None)
             if p.end == "ret"]
    keys = {}
    for b, i in K.sites:
        q, off = K.offset(i)
        key = "%d:%r" % (q, off)
        ls = [L for L in K.fm.loop_chain(b["loop"]) if L in K.roles]
        if keys.setdefault(key, (q, off, ls))[2] != ls:
            return None
    roles = sorted(K.roles)
    for p in paths:
        if p.entry:
            K.contexts(p)
    refq = {q for q, _ in S.outs.values()}
    for seed in range(tries):
        pt = Point(K, S, seed, 1 + seed % 4)
        pt.path, pt.cache = None, {}
        written, vague = {}, set()
        try:
            _signed(pt, S)
            for key, (q, off, ls) in keys.items():
                def rec(n):
                    if n == len(ls):
                        one(key, q, off, ls)
                        return
                    L = ls[n]
                    for t in range(pt.poly(K.trips(L))):
                        pt.idx["i%d" % L] = t
                        rec(n + 1)
                    pt.idx["i%d" % L] = 0

                def one(key, q, off, ls):
                    p = pt.pick(paths)
                    at = (q, pt.poly(off))
                    if p is None:
                        vague.add(at)
                        return
                    if key not in p.mem:
                        return
                    if at in written or at in vague:
                        vague.add(at)
                        return
                    r = p.mem[key]
                    written[at] = None
                    for a in r.atoms():
                        d = DESC[a]
                        if d[0] == "ld" and any(d[1] == o
                                                for o, _ in K.outs.values()):
                            w = (d[1], pt.poly(d[2]))
                            if w != at:
                                reads.append((at, w))
                    try:
                        written[at] = pt.ev(r)
                    except (ValueError, OverflowError, ZeroDivisionError):
                        vague.add(at)
                for L in roles:
                    pt.idx["i%d" % L] = 0
                reads = []
                rec(0)
                vague.update(at for at, w in reads if w in written)
        except (KeyError, NoForm):
            return None
        r = _compare(pt, K, S, written, vague, refq)
        if r is not None:
            return r
    return None


def _signed(pt, S):
    """The elements the reference takes to be non-negative."""
    dims = list(S.index) + list(S.red)

    def rec(n):
        if n == len(dims):
            for a in pt.sgn:
                d = DESC[a]
                if d[0] == "ld":
                    pt.signed.add((d[1], pt.poly(d[2])))
            return
        for t in range(pt.poly(dims[n][1])):
            pt.idx[dims[n][0]] = t
            rec(n + 1)
    rec(0)


def _compare(pt, K, S, written, vague, refq):
    name = lambda at: "%s[%d]" % (K.params[at[0]]["n"], at[1])
    want, twice = set(), set()
    found = []

    def where():
        return ", ".join("%s=%s" % (K.params[i]["n"], v)
                         for i, v in sorted(pt.size.items()))

    def rec(n, fn):
        if n == len(S.index):
            fn()
            return
        j, ext = S.index[n]
        for t in range(pt.poly(ext)):
            pt.idx[j] = t
            rec(n + 1, fn)

    def names():
        for q, o in S.outs.values():
            at = (q, pt.poly(o))
            (twice if at in want else want).add(at)

    def elem():
        ats = {k: (q, pt.poly(o)) for k, (q, o) in S.outs.items()}
        if found or any(at in vague for at in ats.values()):
            return
        try:
            if not pt.holds([l for l in S.assume if l.k != "fin"]):
                return
            for g in S.goals:
                got = {k: written[at] if at in written else
                       pt.ev(ld(*S.outs[k])) for k, at in ats.items()}
                r = _goal(pt, S, g, got)
                if r is not None and far(K, *r):
                    found.append("%s at %s is %.6g%s instead of %.6g with %s"
                                 % (g[1], "/".join(
                                     sorted(map(name, ats.values()))),
                                    r[0], "" if all(
                                        a in written for a in ats.values())
                                    else " (left as it was)", r[1], where()))
        except (ValueError, OverflowError, ZeroDivisionError, KeyError,
                NoForm):
            pass
    rec(0, names)
    vague |= twice
    rec(0, elem)
    extra = [at for at in written if at not in want]
    if extra:
        return "%s is written, which the reference does not name, with %s" % (
            name(sorted(extra)[0]), where())
    return found[0] if found else None


def _goal(pt, S, g, got):
    """(value the kernel leaves, value of the reference)."""
    o = NumOracle(pt)
    if g[0] == "val":
        return got[g[2]], pt.ev(g[3](o))
    T = g[4](o) if callable(g[4]) else g[4]
    terms = []

    def rec(k):
        if k == len(g[5]):
            terms.append(pt.ev(T))
            return
        j, ext = g[5][k]
        for t in range(pt.poly(ext)):
            pt.idx[j] = t
            rec(k + 1)
    rec(0)
    B = g[3](o) if callable(g[3]) else g[3]
    if g[0] == "sum":
        x = g[2]({k: num(kalg.Fr(v)) for k, v in got.items()})
        return pt.ev(x), pt.ev(B) + sum(terms)
    if B == "skip":
        return None
    y = max(terms + ([pt.ev(B)] if B is not None else []))
    return None if math.isinf(y) else (got[g[2]], y)
