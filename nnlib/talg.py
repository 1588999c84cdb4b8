"""Algebra of tensor expressions.

The value of a tensor is a sum of products of indexed atoms (parameters,
inputs, functions of expressions), brought to a normal form: bound indices are
numbered canonically, equal atoms are collected into powers and equal products
into one coefficient.  No numbers are put in for the atoms."""
import itertools
import math


class Unsupported(Exception):
    pass


class Mismatch(Exception):
    """Operands the operation rejects."""


BOOL = {"mask", "onehot"}
_ATOMS = {}
_INFO = []


class Atom:
    __slots__ = ("n", "kind", "args", "name", "nd")

    def __init__(self, n, kind, args, name, nd):
        self.n, self.kind, self.args, self.name = n, kind, args, name
        self.nd = nd

    def __repr__(self):
        return self.name


def rnd(c):
    """Coefficient as it enters a comparison key."""
    if c == 0 or math.isinf(c) or math.isnan(c):
        return c
    return float("%.9g" % c)


def intern(kind, key, args, name, nd):
    k = (kind, key)
    a = _ATOMS.get(k)
    if a is None:
        a = Atom(len(_INFO), kind, args, name, nd)
        _ATOMS[k] = a
        _INFO.append(a)
    return a


def leaf(name, nd, kind="leaf"):
    return intern(kind, name, (), name, nd)


def reset():
    _ATOMS.clear()
    del _INFO[:]


# -- monomials ------------------------------------------------------------------
# a monomial is a tuple of (atom number, power, indices); free indices are >= 0,
# bound ones < 0


def canon(fs):
    """Normal form of a list of factors."""
    acc = {}
    for a, p, ix in fs:
        k = (a, ix)
        acc[k] = acc.get(k, 0) + p
    out = []
    for (a, ix), p in acc.items():
        if abs(p) < 1e-12:
            continue
        if _INFO[a].kind in BOOL:
            p = 1
        if abs(p - round(p)) < 1e-12:
            p = int(round(p))
        else:
            p = round(p, 9)
        out.append((a, p, ix))
    bound = sorted({i for a, p, ix in out for i in ix if i < 0})
    if not bound:
        return tuple(sorted(out))
    col = {b: 0 for b in bound}
    for _ in range(3):
        sig = {b: [] for b in bound}
        for a, p, ix in out:
            c = tuple((1, col[i]) if i < 0 else (0, i) for i in ix)
            for d, i in enumerate(ix):
                if i < 0:
                    sig[i].append((a, p, d, c))
        ks = {b: (col[b], tuple(sorted(sig[b]))) for b in bound}
        order = {k: n for n, k in enumerate(sorted(set(ks.values())))}
        new = {b: order[ks[b]] for b in bound}
        if new == col:
            break
        col = new
    groups = {}
    for b in bound:
        groups.setdefault(col[b], []).append(b)
    seqs = [groups[c] for c in sorted(groups)]
    n = 1
    for s in seqs:
        n *= math.factorial(len(s))
    if n > 720:
        raise Unsupported("too symmetric a product")
    best = None
    for ps in itertools.product(*[itertools.permutations(s) for s in seqs]):
        m = {}
        for s in ps:
            for b in s:
                m[b] = -1 - len(m)
        t = tuple(sorted((a, p, tuple(m.get(i, i) for i in ix))
                         for a, p, ix in out))
        if best is None or t < best:
            best = t
    return best


def subst(mono, m):
    return [(a, p, tuple(m.get(i, i) for i in ix)) for a, p, ix in mono]


class Fresh:
    def __init__(self):
        self.n = 0

    def __call__(self):
        self.n -= 1
        return -100000 + self.n


fresh = Fresh()


def refresh(mono, m=None):
    """Rename the bound indices apart and substitute the free ones."""
    m = dict(m or {})
    for a, p, ix in mono:
        for i in ix:
            if i < 0 and i not in m:
                m[i] = fresh()
    return subst(mono, m)


def total(fs):
    """Without softmax factors that are only summed over their axis: the sum
    is one."""
    for j, (a, p, ix) in enumerate(fs):
        info = _INFO[a]
        if info.kind == "softmax" and p == 1:
            i = ix[info.args[1]]
            if i < 0 and ix.count(i) == 1 and not any(
                    i in f[2] for n, f in enumerate(fs) if n != j):
                return total(list(fs[:j]) + list(fs[j + 1:]))
    return fs


MAXTERMS = 6000


class E:
    """Expression over free indices 0..nd-1 with the extents given."""

    def __init__(self, shape, terms=None):
        self.shape = list(shape)
        self.t = terms if terms is not None else {}

    @property
    def nd(self):
        return len(self.shape)

    def add(self, fs, c):
        if c == 0:
            return
        if math.isnan(c):
            raise Unsupported("0 times infinity")
        # whole powers of a base expand
        for j, (a, p, ix) in enumerate(fs):
            info = _INFO[a]
            if info.kind == "pow":
                tot = sum(q for b, q, iy in fs if b == a and iy == ix)
                if tot >= 1 - 1e-12:
                    rest = [f for f in fs if not (f[0] == a and f[2] == ix)]
                    if abs(tot - 1) > 1e-12:
                        rest.append((a, tot - 1, ix))
                    base = info.args[0]
                    for m, bc in base.t.items():
                        self.add(rest + refresh(m, dict(enumerate(ix))),
                                 c * bc)
                    return
        k = canon(total(fs))
        v = self.t.get(k, 0.0) + c
        if abs(v) <= 1e-10 * max(abs(c), 1e-30):
            self.t.pop(k, None)
        else:
            self.t[k] = v
            if len(self.t) > MAXTERMS:
                raise Unsupported("expression of more than %d terms"
                                  % MAXTERMS)

    def key(self):
        return (tuple(self.shape), tuple(sorted(
            (m, rnd(c)) for m, c in self.t.items())))

    def copy(self):
        return E(self.shape, dict(self.t))

    def scale(self, c):
        if c == 0:
            return E(self.shape)
        return E(self.shape, {m: v * c for m, v in self.t.items()})

    def plus(self, o):
        if o.shape != self.shape:
            raise Mismatch("sum of shapes %s and %s" % (self.shape, o.shape))
        r = self.copy()
        for m, c in o.t.items():
            r.add(list(m), c)
        return r

    def remap(self, m, shape):
        """Free index i becomes m[i]; the result has the given shape."""
        r = E(shape)
        m = dict(m)
        for mono, c in self.t.items():
            r.add(subst(mono, m), c)
        return r

    def times(self, o):
        """Elementwise product (free indices are shared)."""
        r = E(self.shape)
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                r.add(list(m1) + refresh(m2), c1 * c2)
        return r

    def sum_over(self, dims, shape, m):
        """Sum over free indices dims, then renumber the rest by m."""
        r = E(shape)
        for mono, c in self.t.items():
            mm = dict(m)
            k = c
            used = {i for a, p, ix in mono for i in ix}
            for d in dims:
                if d in used:
                    mm[d] = fresh()
                else:
                    k *= self.shape[d]
            # bound indices must stay apart from the new ones
            r.add(refresh(mono, mm), k)
        return r

    def atoms(self):
        """Numbers of all atoms, nested ones included."""
        out = set()
        todo = [a for m in self.t for a, p, ix in m]
        while todo:
            a = todo.pop()
            if a in out:
                continue
            out.add(a)
            for x in _INFO[a].args:
                if isinstance(x, E):
                    todo.extend(b for m in x.t for b, p, ix in m)
        return out

    def show(self, limit=6):
        out = []
        for m, c in sorted(self.t.items()):
            out.append("%+.4g" % c + "".join(
                " %s%s[%s]" % (_INFO[a].name, "" if p == 1 else "^%g" % p,
                               ",".join("ijklmnop"[i] if 0 <= i < 8 else
                                        "abcdefgh"[-1 - i] if -9 < i < 0
                                        else str(i) for i in ix))
                for a, p, ix in m))
            if len(out) == limit:
                out.append("... (%d terms)" % len(self.t))
                break
        return " ".join(out) or "0"


def const(shape, c):
    e = E(shape)
    if math.isinf(c):
        e.add([(leaf("inf", 0, "inf").n, 1, ())], math.copysign(1.0, c))
    else:
        e.add([], c)
    return e


def of_atom(a, shape, p=1):
    e = E(shape)
    e.add([(a.n, p, tuple(range(len(shape))))], 1.0)
    return e


def scalar(c):
    """(number, atoms) of a coefficient which may be a symbol."""
    return c


def elementwise(fn, arg):
    """fn(arg) as an atom."""
    a = intern("fn", (fn, arg.key()), (arg, fn), "%s(%s)" % (fn, brief(arg)),
               arg.nd)
    return of_atom(a, arg.shape)


def brief(e):
    s = e.show(2)
    return s if len(s) < 40 else s[:37] + "..."


def power(e, p):
    """e to the power p, elementwise."""
    if p == 1:
        return e
    if abs(p - round(p)) < 1e-12 and p >= 1:
        r = e
        for _ in range(int(round(p)) - 1):
            r = r.times(e)
        return r
    if not e.t:
        if p > 0:
            return E(e.shape)
        raise Unsupported("negative power of zero")
    if len(e.t) == 1:
        (m, c), = e.t.items()
        if not any(i < 0 for a, q, ix in m for i in ix):
            # |x| is not told from x
            r = E(e.shape)
            r.add([(a, q * p, ix) for a, q, ix in m],
                  c ** p if c > 0 else sign_pow(c, p))
            return r
    # bring the first coefficient to one
    m0 = min(e.t)
    c0 = e.t[m0]
    base = e.scale(1.0 / c0)
    if c0 < 0 and abs(p - round(p)) > 1e-12:
        base, c0 = e, 1.0
    a = intern("pow", base.key(), (base,), "(%s)" % brief(base), base.nd)
    r = E(e.shape)
    r.add([(a.n, p, tuple(range(base.nd)))], c0 ** p)
    return r


def sign_pow(c, p):
    if abs(p - round(p)) < 1e-12:
        return c ** int(round(p))
    raise Unsupported("fractional power of a negative number")


def softmax_atom(e, axis):
    return intern("softmax", (axis, e.key()), (e, axis),
                  "softmax(%s)" % brief(e), e.nd)


def lse_atom(e, axis):
    return intern("lse", (axis, e.key()), (e, axis),
                  "logsumexp(%s)" % brief(e), e.nd - 1)


def maximum(a, b):
    # only compared with magnitudes
    if not a.t or not b.t:
        return b if not a.t else a
    if a.key() == b.key():
        return a
    k = tuple(sorted([a.key(), b.key()]))
    x = intern("fn", ("max",) + k, (a, "max", b),
               "max(%s, %s)" % (brief(a), brief(b)), a.nd)
    return of_atom(x, a.shape)


# -- derivatives ---------------------------------------------------------------
def derivative(L, atom, shape):
    """dL/d(leaf) of a scalar expression, over the indices of the leaf."""
    r = E(shape)
    memo = {}
    for m, c in L.t.items():
        into(list(m), c, atom, r, memo)
    return r


def depends(a, atom, memo):
    if a == atom.n:
        return True
    v = memo.get(a)
    if v is None:
        memo[a] = v = any(depends(b, atom, memo) for x in _INFO[a].args
                          if isinstance(x, E) for m in x.t
                          for b, p, ix in m)
    return v


def into(fs, c, atom, r, memo, only=None):
    """Add the derivative of c * product(fs) through each factor (or those
    listed in only)."""
    for j in (range(len(fs)) if only is None else only):
        a, p, ix = fs[j]
        if not depends(a, atom, memo):
            continue
        info = _INFO[a]
        rest = fs[:j] + fs[j + 1:]
        k = c * p
        if p != 1:
            rest = rest + [(a, p - 1, ix)]
        if a == atom.n:
            m = {}
            for d, i in enumerate(ix):
                if i >= 0 or i in m:
                    raise Unsupported("diagonal of a tensor")
                m[i] = d
            r.add(refresh(rest, m), k)
        elif info.kind == "pow":
            through(rest, k, info.args[0], ix, atom, r, memo)
        elif info.kind == "fn":
            if info.args[1] == "max":
                raise Unsupported("derivative of a maximum")
            d = intern("fn", (info.args[1] + "'", info.args[0].key()),
                       (info.args[0], info.args[1] + "'"),
                       "%s'(%s)" % (info.args[1], brief(info.args[0])),
                       info.nd)
            through(rest + [(d.n, 1, ix)], k, info.args[0], ix, atom, r, memo)
        elif info.kind == "softmax":
            e, ax = info.args
            rest = rest + [(a, 1, ix)]
            through(rest, k, e, ix, atom, r, memo)
            iy = ix[:ax] + (fresh(),) + ix[ax + 1:]
            through(rest + [(a, 1, iy)], -k, e, iy, atom, r, memo)
        elif info.kind == "lse":
            e, ax = info.args
            s = softmax_atom(e, ax)
            iy = ix[:ax] + (fresh(),) + ix[ax:]
            through(rest + [(s.n, 1, iy)], k, e, iy, atom, r, memo)
        else:
            raise Unsupported("derivative of " + info.name)


def through(rest, c, e, ix, atom, r, memo):
    m = dict(enumerate(ix))
    for mono, k in e.t.items():
        fs = refresh(mono, m)
        n = len(rest)
        into(rest + fs, c * k, atom, r, memo, range(n, n + len(fs)))


def difference(a, b, tol=1e-6):
    """Terms in which two expressions differ: [(monomial, coefficient in a,
    coefficient in b)]."""
    out = []
    for m in sorted(set(a.t) | set(b.t)):
        x, y = a.t.get(m, 0.0), b.t.get(m, 0.0)
        if abs(x - y) > tol * max(abs(x), abs(y)):
            out.append((m, x, y))
    return out


def show_mono(m):
    e = E([1] * 8)
    e.t[m] = 1.0
    return e.show()[2:].strip() or "1"
