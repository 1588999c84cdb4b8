"""What each tensor operation computes, in the algebra of talg, and which
operand dimensions it requires to agree."""
import re

from . import talg
from .pyinterp import Opaque, Sym, Tensor, TransV
from .talg import E, Mismatch, Unsupported


class Mse:
    """Running maximum and sum of exponents along an axis."""

    def __init__(self, e=None, axis=None):
        self.e, self.axis = e, axis


class Undef:
    """Contents nothing has written."""


class State:
    """Values of all tensors."""

    def __init__(self):
        self.val = {}
        self.garbage = {}       # atom number -> tensor
        self.reads = {}
        self.log = []           # (operation, tensors read, tensors written)
        self.mismatch = []
        self.poison = {}

    def get(self, t):
        v = self.val.get(t.n)
        if v is None:
            a = talg.leaf("old contents of %r" % t + "#%d" % t.n,
                          len(t.traits.shape))
            self.garbage[a.n] = t
            v = talg.of_atom(a, t.traits.shape)
            self.val[t.n] = v
        if isinstance(v, Unsupported):
            raise v
        if isinstance(v, Mse):
            # entries of the pair are not modelled separately
            raise Unsupported("%r holds maxima and sums" % t)
        return v

    def raw(self, t):
        return self.val.get(t.n)

    def put(self, t, e):
        if isinstance(e, E) and e.shape != t.traits.shape:
            raise Mismatch("value of shape %s for %r" % (e.shape, t))
        self.val[t.n] = e

    def leaf(self, t, name, kind="leaf"):
        a = talg.leaf("%s#%d" % (name, t.n), len(t.traits.shape), kind)
        a.name = name
        self.val[t.n] = talg.of_atom(a, t.traits.shape)
        return a


def dims(t):
    return list(zip(t.traits.shape, t.traits.basetile))


def req(what, a, b, strict=True):
    """Operand dimensions (extent, tile) which must agree."""
    if a != b:
        raise Mismatch("%s: %s and %s" % (what, a, b))


def same(S, name, x, y):
    req(name, dims(x), dims(y))


def num(c):
    """Coefficient as (number, factors)."""
    if isinstance(c, bool):
        return float(c), []
    if isinstance(c, (int, float)):
        return float(c), []
    if isinstance(c, (Sym, Opaque)):
        a = talg.leaf(repr(c) if isinstance(c, Sym) else str(c.key), 0, "sym")
        return 1.0, [(a.n, 1, ())]
    raise Unsupported("coefficient %r" % (c,))


def mul(e, c):
    if c == 0 and isinstance(c, (int, float)):
        return E(e.shape)
    k, fs = num(c)
    if k in (float("inf"), float("-inf")):
        return e.times(talg.const(e.shape, k))
    if not fs:
        return e.scale(k)
    r = E(e.shape)
    for m, v in e.t.items():
        r.add(list(m) + fs, v * k)
    return r


def lin(alpha, x, beta, y):
    """alpha x + beta y, where a zero coefficient discards its operand."""
    r = mul(x, alpha)
    if isinstance(beta, (int, float)) and beta == 0:
        return r
    return r.plus(mul(y(), beta))


def slice_map(nd, axis):
    """free indices of a slice -> those of the whole."""
    return {i: i if i < axis else i + 1 for i in range(nd - 1)}


def inv_slice(nd, axis):
    return {i: i if i < axis else i - 1 for i in range(nd) if i != axis}


def chk_axis(axis, nd):
    if not isinstance(axis, int):
        raise Unsupported("unknown axis")
    if axis < 0 or axis >= nd:
        raise Mismatch("axis %d of %d dimensions" % (axis, nd))


def chk_slice(name, s, x, axis):
    chk_axis(axis, len(x.traits.shape))
    d = dims(x)
    req("%s: slice and whole" % name, dims(s), d[:axis] + d[axis + 1:])


def chk_fiber(name, f, x, axis, batch):
    n = len(x.traits.shape)
    chk_axis(axis, n)
    if batch < 0 or axis >= n - batch:
        raise Mismatch("%s: axis %d, %d batch dimensions of %d" % (
            name, axis, batch, n))
    d = dims(x)
    req("%s: fiber and whole" % name, dims(f),
        [d[axis]] + d[n - batch:] if batch else [d[axis]])


def gemm(S, a):
    alpha, tA, A, tB, B, beta, C, nd, batch = a[:9]
    if not (isinstance(tA, TransV) and isinstance(tB, TransV)):
        raise Unsupported("transposition flag")
    if not isinstance(nd, int) or not isinstance(batch, int):
        raise Unsupported("gemm dimensions")
    da, db, dc = dims(A), dims(B), dims(C)
    if nd < 0 or batch < 0 or len(da) < nd + batch or len(db) < nd + batch:
        raise Mismatch("gemm: ndim %d, batch %d for %d and %d dimensions" % (
            nd, batch, len(da), len(db)))
    ra, rb = len(da) - batch, len(db) - batch
    ka = list(range(nd)) if tA.t else list(range(ra - nd, ra))
    ma = list(range(nd, ra)) if tA.t else list(range(ra - nd))
    kb = list(range(rb - nd, rb)) if tB.t else list(range(nd))
    nb = list(range(rb - nd)) if tB.t else list(range(nd, rb))
    req("gemm: inner dimensions", [da[i] for i in ka], [db[i] for i in kb])
    req("gemm: batch dimensions", da[ra:], db[rb:])
    req("gemm: outer dimensions", dc, [da[i] for i in ma]
        + [db[i] for i in nb] + da[ra:])
    ea, eb = S.get(A), S.get(B)
    r = E(C.traits.shape)
    k, fs0 = num(alpha)
    if k:
        for m1, c1 in ea.t.items():
            for m2, c2 in eb.t.items():
                sh = [talg.fresh() for _ in ka]
                mm1 = {d: sh[j] for j, d in enumerate(ka)}
                mm1.update({d: j for j, d in enumerate(ma)})
                mm1.update({ra + j: len(ma) + len(nb) + j
                            for j in range(batch)})
                mm2 = {d: sh[j] for j, d in enumerate(kb)}
                mm2.update({d: len(ma) + j for j, d in enumerate(nb)})
                mm2.update({rb + j: len(ma) + len(nb) + j
                            for j in range(batch)})
                fs = talg.refresh(m1, mm1) + talg.refresh(m2, mm2) + fs0
                used = {i for f in fs for i in f[2]}
                c = c1 * c2 * k
                for j, d in enumerate(ka):
                    if sh[j] not in used:
                        c *= A.traits.shape[d]
                r.add(fs, c)
    if not (isinstance(beta, (int, float)) and beta == 0):
        r = r.plus(mul(S.get(C), beta))
    S.put(C, r)


def ew_forward(fn):
    def f(S, a):
        same(S, fn, a[0], a[1])
        S.put(a[1], talg.elementwise(fn, S.get(a[0])))
    return f


def ew_inplace(fn):
    def f(S, a):
        S.put(a[0], talg.elementwise(fn, S.get(a[0])))
    return f


def ew_backward(fn):
    def f(S, a):
        same(S, fn, a[0], a[1])
        same(S, fn, a[0], a[2])
        d = talg.elementwise(fn + "'", S.get(a[0]))
        S.put(a[2], S.get(a[2]).plus(S.get(a[1]).times(d)))
    return f


def copy(S, a):
    same(S, "copy", a[0], a[1])
    S.val[a[1].n] = S.raw(a[0]) if isinstance(S.raw(a[0]), Mse) \
        else S.get(a[0])


def sum_slice(S, a):
    alpha, x, beta, y, axis = a[:5]
    chk_slice("sum_slice", y, x, axis)
    n = len(x.traits.shape)
    s = S.get(x).sum_over([axis], y.traits.shape, inv_slice(n, axis))
    S.put(y, lin(alpha, s, beta, lambda: S.get(y)))


def fiber_dims(n, axis, batch):
    """(summed dimensions, renumbering)"""
    keep = [axis] + list(range(n - batch, n))
    return [i for i in range(n) if i not in keep], \
        {d: j for j, d in enumerate(keep)}


def sum_fiber(S, a):
    alpha, x, beta, y, axis, batch = a[:6]
    chk_fiber("sum_fiber", y, x, axis, batch)
    ds, m = fiber_dims(len(x.traits.shape), axis, batch)
    s = S.get(x).sum_over(ds, y.traits.shape, m)
    S.put(y, lin(alpha, s, beta, lambda: S.get(y)))


def sumprod_slice(S, a):
    alpha, x1, x2, beta, y, axis = a[:6]
    same(S, "sumprod_slice", x1, x2)
    chk_slice("sumprod_slice", y, x1, axis)
    n = len(x1.traits.shape)
    s = S.get(x1).times(S.get(x2)).sum_over([axis], y.traits.shape,
                                            inv_slice(n, axis))
    S.put(y, lin(alpha, s, beta, lambda: S.get(y)))


def sumprod_fiber(S, a):
    alpha, x1, x2, beta, y, axis = a[:6]
    same(S, "sumprod_fiber", x1, x2)
    chk_fiber("sumprod_fiber", y, x1, axis, 0)
    ds, m = fiber_dims(len(x1.traits.shape), axis, 0)
    s = S.get(x1).times(S.get(x2)).sum_over(ds, y.traits.shape, m)
    S.put(y, lin(alpha, s, beta, lambda: S.get(y)))


def hyp(alpha, x2, beta, y):
    """hypot of alpha x and beta y, given the square of x."""
    s = mul(mul(x2, alpha), alpha)
    if not (isinstance(beta, (int, float)) and beta == 0):
        v = y()
        s = s.plus(mul(mul(v.times(v), beta), beta))
    return talg.power(s, 0.5)


def norm_slice(S, a):
    alpha, x, beta, y, axis = a[:5]
    chk_slice("norm_slice", y, x, axis)
    n = len(x.traits.shape)
    v = S.get(x)
    s = v.times(v).sum_over([axis], y.traits.shape, inv_slice(n, axis))
    S.put(y, hyp(alpha, s, beta, lambda: S.get(y)))


def nrm2(S, a):
    alpha, x, beta, y, tmp = a[:5]
    req("nrm2: result", dims(y), [])
    req("nrm2: temporary", dims(tmp), [(g, 1) for g in x.traits.grid.shape])
    v = S.get(x)
    s = v.times(v).sum_over(list(range(v.nd)), [], {})
    # partial norms
    S.val[tmp.n] = Unsupported("partial norms")
    S.put(y, hyp(alpha, s, beta, lambda: S.get(y)))


def hypot(S, a):
    alpha, x, beta, y = a[:4]
    same(S, "hypot", x, y)
    v = S.get(x)
    S.put(y, hyp(alpha, v.times(v), beta, lambda: S.get(y)))


def hypot_scalar_inverse(S, a):
    eps, alpha, x = a[:3]
    v = S.get(x)
    s = mul(mul(v.times(v), alpha), alpha).plus(
        mul(mul(talg.const(v.shape, 1.0), eps), eps))
    S.put(x, talg.power(s, -0.5))


def pow_(S, a):
    alpha, p, x = a[:3]
    if not isinstance(p, (int, float)):
        raise Unsupported("unknown exponent")
    S.put(x, mul(talg.power(S.get(x), p), alpha))


def maxsumexp(S, a):
    x, y, axis = a[:3]
    chk_axis(axis, len(x.traits.shape))
    d = dims(x)
    req("maxsumexp", dims(y), [(2, 2)] + d[:axis] + d[axis + 1:])
    r = S.raw(y)
    if isinstance(r, E) and not r.t:
        S.val[y.n] = Mse(S.get(x), axis)
    elif isinstance(r, Mse) or r is None:
        # accumulates to whatever was there
        S.val[y.n] = Stale(y)
    else:
        raise Unsupported("maxsumexp onto other data")


class Stale(Mse):
    def __init__(self, t):
        Mse.__init__(self)
        self.t = t


def stat(S, y):
    r = S.raw(y)
    if isinstance(r, Stale) or r is None:
        raise StaleData(y)
    if not isinstance(r, Mse):
        raise Unsupported("%r holds no maxima and sums" % y)
    return r


class StaleData(Exception):
    def __init__(self, t):
        super().__init__("%r was not cleared before" % t)
        self.t = t


def softmax_of(S, mse, x, axis):
    chk_axis(axis, len(x.traits.shape))
    d = dims(x)
    req("softmax", dims(mse), [(2, 2)] + d[:axis] + d[axis + 1:])
    r = stat(S, mse)
    e = S.get(x)
    if r.axis != axis or r.e.key() != e.key():
        a = talg.intern("other", ("softmax", axis, r.axis, r.e.key(),
                                  e.key()), (e, r.e),
                        "softmax with the sums of other data", e.nd)
        return talg.of_atom(a, e.shape)
    return talg.of_atom(talg.softmax_atom(e, axis), e.shape)


def softmax(S, a):
    mse, x, alpha, y, axis = a[:5]
    same(S, "softmax", x, y)
    S.put(y, mul(softmax_of(S, mse, x, axis), alpha))


def softmax_inplace(S, a):
    mse, alpha, x, axis = a[:4]
    S.put(x, mul(softmax_of(S, mse, x, axis), alpha))


def logsumexp(S, a):
    mse, y = a[:2]
    req("logsumexp", dims(mse), [(2, 2)] + dims(y))
    r = stat(S, mse)
    S.put(y, talg.of_atom(talg.lse_atom(r.e, r.axis), y.traits.shape))


def prod(S, a):
    same(S, "prod", a[0], a[1])
    S.put(a[1], S.get(a[1]).times(S.get(a[0])))


def add(S, a):
    alpha, x, beta, y = a[:4]
    same(S, "add", x, y)
    S.put(y, lin(alpha, S.get(x), beta, lambda: S.get(y)))


def axpy(S, a):
    alpha, x, y = a[:3]
    same(S, "axpy", x, y)
    if isinstance(alpha, Tensor):
        req("axpy: coefficient", dims(alpha), [])
        S.put(y, S.get(y).plus(S.get(x).times(
            S.get(alpha).remap({}, x.traits.shape))))
        return
    S.put(y, lin(alpha, S.get(x), 1.0, lambda: S.get(y)))


def spread(S, s, x, axis):
    """Value of slice s over all of x."""
    return S.get(s).remap(slice_map(len(x.traits.shape), axis),
                          x.traits.shape)


def add_slice(S, a):
    alpha, s, beta, x, axis = a[:5]
    chk_slice("add_slice", s, x, axis)
    S.put(x, lin(alpha, spread(S, s, x, axis), beta, lambda: S.get(x)))


def add_slice3(S, a):
    alpha, s, beta, x, y, axis = a[:6]
    same(S, "add_slice3", x, y)
    chk_slice("add_slice3", s, x, axis)
    S.put(y, lin(alpha, spread(S, s, x, axis), beta, lambda: S.get(x)))


def spread_fiber(S, f, x, axis, batch):
    n = len(x.traits.shape)
    m = {0: axis}
    m.update({1 + j: n - batch + j for j in range(batch)})
    return S.get(f).remap(m, x.traits.shape)


def add_fiber(S, a):
    alpha, f, beta, x, axis, batch = a[:6]
    chk_fiber("add_fiber", f, x, axis, batch)
    S.put(x, lin(alpha, spread_fiber(S, f, x, axis, batch), beta,
                 lambda: S.get(x)))


def prod_slice(S, a):
    s, alpha, x, axis = a[:4]
    chk_slice("prod_slice", s, x, axis)
    S.put(x, mul(S.get(x).times(spread(S, s, x, axis)), alpha))


def prod_fiber(S, a):
    f, alpha, x, axis = a[:4]
    chk_fiber("prod_fiber", f, x, axis, 0)
    S.put(x, mul(S.get(x).times(spread_fiber(S, f, x, axis, 0)), alpha))


def prod_fiber3(S, a):
    f, alpha, x, y, axis = a[:5]
    same(S, "prod_fiber3", x, y)
    chk_fiber("prod_fiber3", f, x, axis, 0)
    S.put(y, mul(S.get(x).times(spread_fiber(S, f, x, axis, 0)), alpha))


def addcdiv(S, a):
    val, eps, nom, den, src = a[:5]
    same(S, "addcdiv", nom, den)
    same(S, "addcdiv", nom, src)
    d = S.get(den).plus(mul(talg.const(den.traits.shape, 1.0), eps))
    S.put(src, S.get(src).plus(mul(S.get(nom).times(talg.power(d, -1)),
                                   val)))


def maximum(S, a):
    same(S, "maximum", a[0], a[1])
    x, y = S.get(a[0]), S.get(a[1])
    S.put(a[1], talg.maximum(x, y))


def onehot(S, labels, nd):
    """Indicator of label value v at the positions of labels: [v, ...]."""
    v = S.raw(labels)
    if v is None or not isinstance(v, E) or len(v.t) != 1:
        if v is None:
            raise StaleData(labels)
        raise Unsupported("labels")
    (m, c), = v.t.items()
    return talg.intern("onehot", v.key(), (v,), "onehot(%s)" % talg.brief(v),
                       nd + 1)


def total_sum_accum(S, a):
    alpha, lse, src, labels, val = a[:5]
    d = dims(src)
    req("total_sum_accum: logsumexp", dims(lse), d[1:])
    req("total_sum_accum: labels", dims(labels), d[1:])
    req("total_sum_accum: value", dims(val), [])
    n = len(d)
    s = S.get(lse).sum_over(list(range(n - 1)), [], {})
    o = talg.of_atom(onehot(S, labels, n - 1), src.traits.shape)
    t = S.get(src).times(o).sum_over(list(range(n)), [], {})
    S.put(val, S.get(val).plus(mul(s.plus(t.scale(-1.0)), alpha)))


def subtract_indexed_outputs(S, a):
    val, labels, dst = a[:3]
    d = dims(dst)
    req("subtract_indexed_outputs", dims(labels), d[1:])
    o = talg.of_atom(onehot(S, labels, len(d) - 1), dst.traits.shape)
    S.put(dst, S.get(dst).plus(mul(o, val).scale(-1.0)))


def scal(S, a):
    same(S, "scal", a[1], a[2])
    S.put(a[2], mul(S.get(a[1]), a[0]))


def mask_scalar(S, a):
    mask, val, x, batch = a[:4]
    d = dims(x)
    req("mask_scalar", dims(mask), d[:len(d) - batch])
    m = S.get(mask).remap({i: i for i in range(len(d) - batch)},
                          x.traits.shape)
    e = S.get(x).times(m)
    if not (isinstance(val, (int, float)) and val == 0):
        one = talg.const(x.traits.shape, 1.0)
        e = e.plus(mul(one.plus(m.scale(-1.0)), val))
    S.put(x, e)


def emb_dims(name, index, vocab, embed, axis):
    chk_axis(axis, len(embed.traits.shape))
    d = dims(embed)
    req(name + ": index", dims(index), d[:axis] + d[axis + 1:])
    v = dims(vocab)
    if len(v) != 2 or v[0][0] != d[axis][0] or d[axis][1] % v[0][1] \
            or v[1][0] != v[1][1]:
        raise Mismatch("%s: vocabulary %s for %s" % (name, v, d[axis]))


def emb_atom(S, index, vocab, embed, axis):
    o = onehot(S, index, len(index.traits.shape))
    n = len(embed.traits.shape)
    return o, [i for i in range(n) if i != axis]


def embedding(S, a):
    index, vocab, embed, axis = a[:4]
    emb_dims("embedding", index, vocab, embed, axis)
    o, rest = emb_atom(S, index, vocab, embed, axis)
    r = E(embed.traits.shape)
    for m, c in S.get(vocab).t.items():
        v = talg.fresh()
        r.add(talg.refresh(m, {0: axis, 1: v})
              + [(o.n, 1, (v,) + tuple(rest))], c)
    S.put(embed, r)


def embedding_backward(S, a):
    index, embed, vocab, axis = a[:4]
    emb_dims("embedding_backward", index, vocab, embed, axis)
    o, rest = emb_atom(S, index, vocab, embed, axis)
    r = S.get(vocab).copy()
    for m, c in S.get(embed).t.items():
        mm = {d: talg.fresh() for d in rest}
        mm[axis] = 0
        r.add(talg.refresh(m, mm)
              + [(o.n, 1, (1,) + tuple(mm[d] for d in rest))], c)
    S.put(vocab, r)


def transpose(S, a):
    alpha, x, y, nd = a[:4]
    d = dims(x)
    n = len(d)
    if not isinstance(nd, int) or nd <= 0 or nd >= n:
        raise Mismatch("transpose: %r of %d dimensions" % (nd, n))
    req("transpose", dims(y), d[nd:] + d[:nd])
    S.put(y, mul(S.get(x).remap({i: (i - nd) % n for i in range(n)},
                                y.traits.shape), alpha))


def fill(S, a):
    S.put(a[1], mul(talg.const(a[1].traits.shape, 1.0), a[0]))


def clear(S, a):
    S.put(a[0], E(a[0].traits.shape))


def scal_inplace(S, a):
    S.put(a[1], mul(S.get(a[1]), a[0]))


def add_scalar(S, a):
    alpha, beta, x = a[:3]
    S.put(x, lin(alpha, talg.const(x.traits.shape, 1.0), beta,
                 lambda: S.get(x)))


def randn(S, a):
    S.leaf(a[0], "random")


def whole_copy(S, a):
    req("scatter/gather", a[0].traits.shape, a[1].traits.shape)
    S.val[a[1].n] = S.get(a[0])


def flash_scores(S, Q, K, mask):
    dq, dk = dims(Q), dims(K)
    if len(dq) != 4:
        raise Mismatch("flash attention: %d dimensions" % len(dq))
    req("flash attention", dq, dk)
    req("flash attention: mask", dims(mask), [dk[1], dq[1]])
    shape = [K.traits.shape[1]] + Q.traits.shape[1:]
    e = E(shape)
    q, k = S.get(Q), S.get(K)
    sc = Q.traits.shape[0] ** -0.5
    for m1, c1 in k.t.items():
        for m2, c2 in q.t.items():
            h = talg.fresh()
            fs = talg.refresh(m1, {0: h, 1: 0, 2: 2, 3: 3}) + talg.refresh(
                m2, {0: h, 1: 1, 2: 2, 3: 3})
            used = {i for f in fs for i in f[2]}
            e.add(fs, c1 * c2 * sc * (1 if h in used else Q.traits.shape[0]))
    m = S.get(mask).remap({0: 0, 1: 1}, shape)
    one = talg.const(shape, 1.0)
    return e.times(m).plus(one.plus(m.scale(-1.0)).times(
        talg.const(shape, float("-inf"))))


def flash_tmp(S, t, Q, K):
    d = dims(Q)
    req("flash attention: temporary", dims(t), [dims(K)[1]] + d[1:])
    S.val[t.n] = Unsupported("temporary of flash attention")


def flash_maxsumexp(S, a):
    Q, K, mask, mse, tmp = a[:5]
    e = flash_scores(S, Q, K, mask)
    req("flash attention: maxsumexp", dims(mse), [(2, 2)] + dims(Q)[1:])
    r = S.raw(mse)
    if isinstance(r, E) and not r.t:
        S.val[mse.n] = Mse(e, 0)
    else:
        S.val[mse.n] = Stale(mse)
    flash_tmp(S, tmp, Q, K)


def flash_softmax(S, Q, K, mask, mse):
    e = flash_scores(S, Q, K, mask)
    req("flash attention: maxsumexp", dims(mse), [(2, 2)] + dims(Q)[1:])
    r = stat(S, mse)
    if r.axis != 0 or r.e.key() != e.key():
        a = talg.intern("other", ("softmax", r.e.key(), e.key()), (e, r.e),
                        "softmax with the sums of other data", e.nd)
        return talg.of_atom(a, e.shape)
    return talg.of_atom(talg.softmax_atom(e, 0), e.shape)


def contract(x, y, mx, my, h, shape):
    """Sum over the index h (renamed in both maps)."""
    r = E(shape)
    for m1, c1 in x.t.items():
        for m2, c2 in y.t.items():
            f = talg.fresh()
            a = {k: f if v == h else v for k, v in mx.items()}
            b = {k: f if v == h else v for k, v in my.items()}
            fs = talg.refresh(m1, a) + talg.refresh(m2, b)
            if f not in {i for z in fs for i in z[2]}:
                raise Unsupported("sum of a constant")
            r.add(fs, c1 * c2)
    return r


def flash_softmax_gemm(S, a):
    Q, K, V, mask, mse, dst, tmp = a[:7]
    s = flash_softmax(S, Q, K, mask, mse)
    req("flash attention: values", dims(V), dims(K))
    req("flash attention: result", dims(dst), dims(Q))
    flash_tmp(S, tmp, Q, K)
    # dst[h, q, b, n] = sum over k of V[h, k, b, n] s[k, q, b, n]
    S.put(dst, contract(S.get(V), s, {0: 0, 1: "k", 2: 2, 3: 3},
                        {0: "k", 1: 1, 2: 2, 3: 3}, "k", dst.traits.shape))


def flash_softmax_gemm_backward(S, a):
    Q, dQ, K, dK, V, dV, mask, mse, g, tmp, tmpg, sps = a[:12]
    s = flash_softmax(S, Q, K, mask, mse)
    for x, y in ((dQ, Q), (dK, K), (dV, V), (g, Q), (V, K)):
        req("flash attention: gradients", dims(x), dims(y))
    req("flash attention: temporary", dims(sps), dims(Q)[1:])
    ge, ve = S.get(g), S.get(V)
    q, k = S.get(Q), S.get(K)
    m = S.get(mask).remap({0: 0, 1: 1}, s.shape)
    flash_tmp(S, tmp, Q, K)
    flash_tmp(S, tmpg, Q, K)
    S.val[sps.n] = Unsupported("temporary of flash attention")
    # dV[h, k] = sum over q of g[h, q] s[k, q]
    S.put(dV, contract(ge, s, {0: 0, 1: "q", 2: 2, 3: 3},
                       {0: 1, 1: "q", 2: 2, 3: 3}, "q", dV.traits.shape))
    # ds[k, q] = sum over h of V[h, k] g[h, q]
    ds = contract(ve, ge, {0: "h", 1: 0, 2: 2, 3: 3},
                  {0: "h", 1: 1, 2: 2, 3: 3}, "h", s.shape)
    t = ds.times(s).sum_over([0], s.shape[1:], {1: 0, 2: 1, 3: 2})
    da = ds.plus(t.remap({0: 1, 1: 2, 2: 3}, s.shape).scale(-1.0)) \
        .times(s).times(m).scale(Q.traits.shape[0] ** -0.5)
    S.put(dK, contract(q, da, {0: 0, 1: "q", 2: 2, 3: 3},
                       {0: 1, 1: "q", 2: 2, 3: 3}, "q", dK.traits.shape))
    S.put(dQ, contract(k, da, {0: 0, 1: "k", 2: 2, 3: 3},
                       {0: "k", 1: 1, 2: 2, 3: 3}, "k", dQ.traits.shape))


def adam(decoupled):
    def f(S, a):
        it, b1, b2, eps, lr, wd, g, m, v, p = a[:10]
        for x in (m, v, p):
            same(S, "adam_step", g, x)
        for x in (it, b1, b2, eps, lr, wd):
            if not isinstance(x, (int, float)):
                raise Unsupported("unknown hyperparameter")
        ge, pe = S.get(g), S.get(p)
        if wd != 0:
            if decoupled:
                pe = pe.scale(1.0 - lr * wd)
            else:
                ge = ge.plus(pe.scale(wd))
        me = ge.scale(1 - b1)
        v2 = ge.times(ge).scale(1 - b2)
        if it != 1:
            me = me.plus(S.get(m).scale(b1))
            ve = S.get(v)
            v2 = v2.plus(ve.times(ve).scale(b2))
        ve = talg.power(v2, 0.5)
        al = lr / (1 - b1 ** it)
        be = (1 - b2 ** it) ** -0.5
        d = ve.scale(be).plus(talg.const(ve.shape, eps))
        S.put(m, me)
        S.put(v, ve)
        S.put(p, pe.plus(me.times(talg.power(d, -1)).scale(-al)))
    return f


OPS = {
    "gemm": gemm, "gemm_ex": gemm,
    "relu": ew_inplace("relu"), "relu_forward": ew_forward("relu"),
    "relu_backward": ew_backward("relu"), "drelu": ew_inplace("relu'"),
    "gelu": ew_inplace("gelu"), "gelu_backward": ew_backward("gelu"),
    "dgelu": ew_inplace("gelu'"),
    "gelutanh": ew_forward("gelutanh"),
    "gelutanh_inplace": ew_inplace("gelutanh"),
    "gelutanh_backward": ew_backward("gelutanh"),
    "dgelutanh": ew_inplace("gelutanh'"),
    "sqrt": lambda S, a: (same(S, "sqrt", a[0], a[1]),
                          S.put(a[1], talg.power(S.get(a[0]), 0.5))),
    "sqrt_inplace": lambda S, a: S.put(a[0], talg.power(S.get(a[0]), 0.5)),
    "copy": copy, "scatter": whole_copy, "gather": whole_copy,
    "fill": fill, "clear": clear, "sum_slice": sum_slice,
    "sum_fiber": sum_fiber, "norm_slice": norm_slice, "pow": pow_,
    "softmax": softmax, "softmax_inplace": softmax_inplace, "randn": randn,
    "prod": prod, "add": add, "axpy": axpy, "nrm2": nrm2,
    "maxsumexp": maxsumexp, "add_slice": add_slice,
    "add_slice3": add_slice3, "add_fiber": add_fiber,
    "prod_slice": prod_slice, "prod_fiber": prod_fiber,
    "prod_fiber3": prod_fiber3, "add_scalar": add_scalar,
    "maximum": maximum, "addcdiv": addcdiv,
    "sumprod_slice": sumprod_slice, "sumprod_fiber": sumprod_fiber,
    "logsumexp": logsumexp, "total_sum_accum": total_sum_accum,
    "subtract_indexed_outputs": subtract_indexed_outputs,
    "scal": scal, "scal_inplace": scal_inplace,
    "mask_scalar": mask_scalar, "embedding": embedding,
    "embedding_backward": embedding_backward, "hypot": hypot,
    "hypot_scalar_inverse": hypot_scalar_inverse, "transpose": transpose,
    "fp32_to_fp16": copy, "fp16_to_fp32": copy,
    "flash_maxsumexp": flash_maxsumexp,
    "flash_softmax_gemm": flash_softmax_gemm,
    "flash_softmax_gemm_backward": flash_softmax_gemm_backward,
    "adam_step": adam(False), "adamw_step": adam(True),
}

# positions of tensor operands an operation (may) write
WRITES = {
    "gemm": (6,), "gemm_ex": (6,), "relu": (0,), "relu_forward": (1,),
    "relu_backward": (2,), "drelu": (0,), "gelu": (0,), "dgelu": (0,),
    "gelu_backward": (2,), "gelutanh": (1,), "gelutanh_inplace": (0,),
    "gelutanh_backward": (2,), "dgelutanh": (0,), "sqrt": (1,),
    "sqrt_inplace": (0,), "copy": (1,), "scatter": (1,), "gather": (1,),
    "fill": (1,), "clear": (0,), "sum_slice": (3,), "sum_fiber": (3,),
    "norm_slice": (3,), "pow": (2,), "softmax": (3,), "softmax_inplace": (2,),
    "randn": (0,), "prod": (1,), "add": (3,), "axpy": (2,), "nrm2": (3, 4),
    "maxsumexp": (1,), "add_slice": (3,), "add_slice3": (4,),
    "add_fiber": (3,), "prod_slice": (2,), "prod_fiber": (2,),
    "prod_fiber3": (3,), "add_scalar": (2,), "maximum": (1,), "addcdiv": (4,),
    "sumprod_slice": (4,), "sumprod_fiber": (4,), "logsumexp": (1,),
    "total_sum_accum": (4,), "subtract_indexed_outputs": (2,), "scal": (2,),
    "scal_inplace": (1,), "mask_scalar": (2,), "embedding": (2,),
    "embedding_backward": (2,), "hypot": (3,), "hypot_scalar_inverse": (2,),
    "transpose": (2,), "fp32_to_fp16": (1,), "fp16_to_fp32": (1,),
    "flash_maxsumexp": (3, 4), "flash_softmax_gemm": (5, 6),
    "flash_softmax_gemm_backward": (1, 3, 5, 9, 10, 11),
    "adam_step": (6, 7, 8, 9), "adamw_step": (6, 7, 8, 9),
    "copy_intersection": (2, 4), "normalize": (2,), "sumnorm": (1,),
}


def opname(name):
    return re.sub(r"(_async)?(_(fp64|fp32|fp16|int64|bool))?$", "", name)


def tensors(args):
    return [a for a in args if isinstance(a, Tensor)]
