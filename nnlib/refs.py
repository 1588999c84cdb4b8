"""What layers and models compute, written down independently of their
implementation, in the algebra of talg."""
from . import talg
from .model import attr, is_moments, reach
from .pyinterp import Inst, Tensor
from .talg import E, Unsupported
from .tops import onehot


def einsum(spec, *es):
    """Sum of products; letters not in the result are summed over."""
    ins, out = spec.split("->")
    ins = ins.split(",")
    ext = {}
    for s, e in zip(ins, es):
        if len(s) != e.nd:
            raise Unsupported("einsum %s of %d dimensions" % (spec, e.nd))
        for c, n in zip(s, e.shape):
            if ext.setdefault(c, n) != n:
                raise Unsupported("einsum %s: extents %d and %d" % (
                    spec, n, ext[c]))
    pos = {c: i for i, c in enumerate(out)}
    r = E([ext[c] for c in out])

    # indices summed over need names of their own in every product
    names = sorted(set("".join(ins)) - set(out))
    lst = [list(e.t.items()) for e in es]

    def go(k, pick):
        if k == len(es):
            fr = {x: talg.fresh() for x in names}
            fs, c, used = [], 1.0, set()
            for s, (m, v) in zip(ins, pick):
                mm = {i: pos[x] if x in pos else fr[x]
                      for i, x in enumerate(s)}
                used |= {s[i] for a, p, ix in m for i in ix if i >= 0}
                fs += talg.refresh(m, mm)
                c *= v
            for x in names:
                if x not in used:
                    c *= ext[x]
            r.add(fs, c)
            return
        for it in lst[k]:
            go(k + 1, pick + [it])
    go(0, [])
    return r


L = "abcdefgh"


def linear(x, w, b, side, trans, nd):
    n, k = x.nd, w.nd - nd
    i = L[:n]
    red = i[-nd:] if (side == "L") != trans else i[:nd]
    free = i[:n - nd] if (side == "L") != trans else i[nd:]
    o = "uvwxyz"[:k]
    if side == "L":
        y = einsum("%s,%s->%s" % (i, red + o, free + o), x, w)
        d = y.nd - 1
    else:
        y = einsum("%s,%s->%s" % (i, o + red, o + free), x, w)
        d = 0
    if b is not None:
        y = y.plus(b.remap({0: d}, y.shape))
    return y


def act(x, fn):
    return talg.elementwise(fn, x)


def mean(x, axis):
    n = x.shape[axis]
    return x.sum_over([axis], x.shape[:axis] + x.shape[axis + 1:], {
        i: i if i < axis else i - 1 for i in range(x.nd) if i != axis}) \
        .scale(1.0 / n)


def over(s, x, axis):
    """Slice s over all of x."""
    return s.remap({i: i if i < axis else i + 1 for i in range(s.nd)},
                   x.shape)


def layer_norm(x, g, b, axis, eps):
    c = x.plus(over(mean(x, axis), x, axis).scale(-1.0))
    v = mean(c.times(c), axis).plus(talg.const(
        x.shape[:axis] + x.shape[axis + 1:], eps))
    h = c.times(over(talg.power(v, -0.5), x, axis))
    return h.times(g.remap({0: axis}, x.shape)).plus(
        b.remap({0: axis}, x.shape))


def gap(x):
    m = mean(x, 0)
    return m.remap({0: 1, 1: 0}, m.shape[::-1])


def embedding(S, ids, w, axis):
    n = len(ids.traits.shape)
    o = onehot(S, ids, n)
    sh = ids.traits.shape
    i = L[:n]
    return einsum("zy,y%s->%sz%s" % (i, i[:axis], i[axis:]), w, talg.of_atom(
        o, [w.shape[1]] + list(sh)))


def attention(q, k, v, p, mask):
    """p: the parameters by the names used in the layer."""
    def proj(x, w, b):
        r = einsum("nhe,esb->hsbn", w, x)
        return r if b is None else r.plus(b.remap({0: 0, 1: 3}, r.shape))
    Q = proj(q, p["w_q"], p["in_proj_bias_q"])
    K = proj(k, p["w_k"], p["in_proj_bias_k"])
    V = proj(v, p["w_v"], p["in_proj_bias_v"])
    a = einsum("hkbn,hqbn->kqbn", K, Q).scale(Q.shape[0] ** -0.5)
    if mask is not None:
        m = mask.remap({0: 0, 1: 1}, a.shape)
        one = talg.const(a.shape, 1.0)
        a = a.times(m).plus(one.plus(m.scale(-1.0)).times(
            talg.const(a.shape, float("-inf"))))
    s = talg.of_atom(talg.softmax_atom(a, 0), a.shape)
    y = einsum("enh,hkbn,kqbn->eqb", p["w"], V, s)
    b = p["out_proj_bias"]
    return y if b is None else y.plus(b.remap({0: 0}, y.shape))


NAMES = ("w_q", "w_k", "w_v", "w", "in_proj_bias_q", "in_proj_bias_k",
         "in_proj_bias_v", "out_proj_bias")
LIMIT = 4000


class Fold:
    """Evaluates a reference, replacing each intermediate result some tensor
    holds by the name of that tensor's contents."""

    def __init__(self, tr, obj):
        self.tr, self.S = tr, tr.S
        self.cuts = [c for c in tr.cuts]
        self.by = {}
        for c in self.cuts:
            self.by.setdefault(tuple(c[1].shape), []).append(c)
        self.layers = []
        for p, x in reach(obj):
            if isinstance(x, Inst) and x not in self.layers and (
                    "activations_output" in x.attrs):
                self.layers.append(x)
        self.used = set()
        self.lost = []

    def fold(self, e, what):
        for a, x, t in self.by.get(tuple(e.shape), []):
            if not talg.difference(x, e):
                return talg.of_atom(a, x.shape)
        self.lost.append(what)
        if len(e.t) > LIMIT:
            raise Unsupported("too many terms after " + what)
        return e

    def user(self, name):
        for t in self.tr.B.user:
            if t.name == name:
                return t
        raise Unsupported("no tensor " + name)

    def val(self, t):
        a = self.tr.version.get(t.n)
        if a is None:
            v = self.S.raw(t)
            if not isinstance(v, E):
                raise Unsupported("value of %r" % t)
            return v
        return talg.of_atom(a, t.traits.shape)

    def x(self, name):
        # what the caller put there
        t = self.user(name)
        for n, s in self.tr.src.items():
            if s is t:
                return talg.of_atom(talg._INFO[n], t.traits.shape)
        return self.val(t)

    def par(self, o, name):
        m = attr(o, name)
        if m is None:
            return None
        return self.val(attr(m, "value"))

    def try_layers(self, cls, f, what):
        """f(layer) for the layer which computes it."""
        first = None
        for o in self.layers:
            if o.cls.name != cls or id(o) in self.used:
                continue
            try:
                e = f(o)
            except Unsupported:
                continue
            if first is None:
                first = (o, e)
            for a, x, t in self.by.get(tuple(e.shape), []):
                if not talg.difference(x, e):
                    self.used.add(id(o))
                    return talg.of_atom(a, x.shape)
        if first is None:
            raise Missing(what)
        self.used.add(id(first[0]))
        self.lost.append(what)
        if len(first[1].t) > LIMIT:
            raise Unsupported("too many terms after " + what)
        return first[1]

    def mask(self):
        """The model's own mask."""
        m = [t for t in self.tr.P.tensors if t.ncls.name == "Tensor_bool"]
        if len(m) != 1:
            raise Unsupported("mask of the model")
        return self.val(m[0])

    # -- layers with parameters ---------------------------------------------
    def linear(self, x, side, trans=False, nd=1, bias=True, out=None):
        def f(o):
            b = self.par(o, "b")
            if (b is not None) != bias:
                raise Unsupported("bias")
            w = self.par(o, "w")
            if out is not None and out not in w.shape:
                raise Unsupported("features")
            return linear(x, w, b, side, trans, nd)
        return self.try_layers("Linear", f, "linear layer (side %s%s)" % (
            side, ", bias" if bias else ""))

    def norm(self, x, axis, eps):
        return self.try_layers("LayerNorm", lambda o: layer_norm(
            x, self.par(o, "gamma"), self.par(o, "beta"), axis, eps),
            "layer normalization")

    def emb(self, ids, axis):
        return self.try_layers("Embedding", lambda o: embedding(
            self.S, ids, self.par(o, "w"), axis), "embedding")

    def att(self, q, k, v, mask, cls="Attention", bias=True):
        def f(o):
            p = {n: self.par(o, n) for n in NAMES}
            for n in NAMES[4:]:
                if (p[n] is not None) != bias:
                    raise Unsupported("bias")
            return attention(q, k, v, p, mask)
        return self.try_layers(cls, f, "attention")

    # -- without ------------------------------------------------------------
    def act(self, x, fn):
        return self.fold(act(x, fn), fn)

    def plus(self, x, y):
        return self.fold(x.plus(y), "sum")

    def add_slice(self, x, y, axis):
        return self.fold(x.plus(over(y, x, axis)), "sum with a slice")

    def gap(self, x):
        return self.fold(gap(x), "average")

    def mixer_mlp(self, x, side):
        h = self.linear(x, side, bias=False)
        return self.linear(self.act(h, "gelu"), side, bias=False)

    def mixer(self, x):
        y = self.plus(x, self.mixer_mlp(self.norm(x, 2, 1e-5), "R"))
        return self.plus(y, self.mixer_mlp(self.norm(y, 2, 1e-5), "L"))

    # -- models -------------------------------------------------------------
    def deep(self, x, side, nd, n, relu, bias):
        for i in range(n):
            x = self.linear(x, side, nd=nd if i == 0 else 1, bias=bias)
            if relu and i < n - 1:
                x = self.act(x, "relu")
        return x

    def mlp(self, x, fn):
        return self.linear(self.act(self.linear(x, "R"), fn), "R")

    def gpt2(self, ids, pos, mask, n, cls, fn, eps):
        h = self.add_slice(self.emb(ids, 0), self.emb(pos, 0), 2)
        for _ in range(n):
            a = self.norm(h, 0, eps)
            h = self.plus(h, self.att(a, a, a, mask, cls))
            h = self.plus(h, self.mlp(self.norm(h, 0, eps), fn))
        return self.linear(self.norm(h, 0, eps), "R", bias=False)

    def mlp_mixer(self, x, n):
        x = self.linear(x, "L", bias=False)
        for _ in range(n):
            x = self.mixer(x)
        return self.linear(self.gap(x), "R", bias=False)


class Missing(Exception):
    """No layer of the kind the function needs."""
