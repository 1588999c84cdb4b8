"""Meaning of a Python-level training step: the sequence of tensor operations
a layer, loss, optimizer, model or pipeline submits (found by abstract
interpretation of the Python source), evaluated in the algebra of talg."""
from . import talg
from .pyinterp import (Arr, Inst, Opaque, Sym, Tag, Tensor, Traits, TransV)
from .talg import E, Mismatch, Unsupported
from .tops import OPS, WRITES, Mse, Stale, StaleData, State, opname, tensors


class Builder:
    """Makes the user's side of a case."""

    def __init__(self, P, dtype="fp32"):
        self.P, self.dtype = P, dtype
        self.tag = Tag(())
        self.user = []
        self.marks = {}

    def cls(self, t=None):
        return self.P.pkg.ncls("tensor.Tensor_" + (t or self.dtype))

    def tensor(self, name, shape, tile, t=None, tag=None):
        P = self.P
        tr = Traits(list(shape), list(tile))
        x = Tensor(len(P.tensors), self.cls(t), tr, [0] * tr.grid.nelems,
                   self.tag, None, name)
        x.stack = []
        P.tensors.append(x)
        self.tag = x.next_tag
        self.user.append(x)
        return x

    def moments(self, name, shape, tile, t=None, grad=True, required=True):
        v = self.tensor(name, shape, tile, t)
        g = self.tensor("grad of " + name, shape, tile, t) if grad else None
        return self.P.call(self.fn("nntile.tensor", "TensorMoments"),
                           [v, g, required], {})

    def fn(self, mod, name):
        self.P.resolve(mod)
        return self.P.mods[mod].ns[name]

    def make(self, mod, cls, *args, **kw):
        c = self.fn(mod, cls)
        g, owner = c.find("generate_simple")
        r = self.P.call(self.P.getattr(c, "generate_simple"), list(args), kw)
        return r

    def new(self, mod, cls, *args, **kw):
        return self.P.call(self.fn(mod, cls), list(args), kw)

    def call(self, o, m, *args):
        return self.P.call(self.P.getattr(o, m), list(args), {})

    def mark(self, name):
        self.P.events.append(_Mark(name))


class _Mark:
    kind = "mark"

    def __init__(self, name):
        self.name, self.args, self.where = name, [], None


def attr(o, name):
    return o.attrs.get(name) if isinstance(o, Inst) else None


def is_moments(o):
    return isinstance(o, Inst) and "value" in o.attrs and "grad" in o.attrs


def reach(o, seen=None, path=""):
    """(path, object) of everything reachable from a Python object."""
    seen = seen if seen is not None else set()
    if id(o) in seen:
        return
    if isinstance(o, (Inst, list, tuple, dict, Tensor)):
        seen.add(id(o))
    yield path, o
    if isinstance(o, Inst):
        for k, v in list(o.attrs.items()) + list(o.items.items()):
            yield from reach(v, seen, "%s.%s" % (path, k) if path else str(k))
    elif isinstance(o, (list, tuple)):
        for i, v in enumerate(o):
            yield from reach(v, seen, "%s[%d]" % (path, i))
    elif isinstance(o, dict):
        for k, v in o.items():
            yield from reach(v, seen, "%s[%s]" % (path, k))


def name_tensors(o, keep=()):
    """Name the tensors of an object by the shortest attribute path."""
    best = {}
    for p, x in reach(o):
        if isinstance(x, Tensor) and x not in keep:
            if x.n not in best or len(p) < len(best[x.n][0]):
                best[x.n] = (p, x)
    for p, x in best.values():
        x.name = p


def all_moments(o):
    out = []
    for p, x in reach(o):
        if is_moments(x) and x not in out:
            out.append(x)
    return out


class Finding(Exception):
    pass


# what a harness does after each of its marks
AFTER = {"built": "clear", "cleared": "forward", "clearednow": "forward",
         "forward": "backward", "backward": "release", "calc": "release",
         "before": "step", "after": "save", "loaded": "step",
         "trained": "release", "calculate": "calc", "train": "train"}


class Trace:
    """Evaluates the events of one path.

    report(rule, key, message, where) is called for what is wrong;
    undecided(message) for what is out of reach."""

    def __init__(self, P, report, undecided, cut=True):
        self.P, self.report, self.undecided = P, report, undecided
        self.S = State()
        self.moments = {}       # value tensor number -> moments
        self.cut = cut
        self.cuts = []          # (atom of the new leaf, E it stands for, t)
        self.adjdef = {}        # leaf atom number -> adjoint leaf atom
        self.mat = set()        # adjoint leaves placed in a gradient
        self.version = {}       # value tensor number -> current leaf atom
        self.vn = {}
        self.src = {}           # atom number -> tensor (inputs, parameters)
        self.seed = []          # (leaf atom, E) adjoints given from outside
        self.init = {}          # grad tensor number -> initial E
        self.ops = 0
        self.unit = []          # entered phases
        self.done_back = set()
        self.bad = set()
        self.outs = {}
        self.calls = []         # (phase, object) leaves, in order
        self.dead = set()
        self.broken = False
        self.stage = "build"
        self.grads = {}
        self.writers = {}
        self.cells = {}

    # -- state ------------------------------------------------------------
    def leaf(self, t, name, kind="leaf"):
        n = self.vn[t.n] = self.vn.get(t.n, 0) + 1
        a = talg.leaf("%s#%d.%d" % (name, t.n, n), len(t.traits.shape), kind)
        a.name = name
        self.S.val[t.n] = talg.of_atom(a, t.traits.shape)
        self.version[t.n] = a
        return a

    def know(self, ms):
        for m in ms:
            v = attr(m, "value")
            if isinstance(v, Tensor):
                self.moments[v.n] = m
                g = attr(m, "grad")
                if isinstance(g, Tensor):
                    self.grads[g.n] = v

    def source(self, t, name, kind="leaf"):
        """An input or parameter."""
        a = self.leaf(t, name, kind)
        self.src[a.n] = t
        return a

    # -- adjoints ---------------------------------------------------------
    def adj(self, a, shape):
        n = self.adjdef.get(a.n)
        if n is None:
            n = talg.leaf("adjoint of %s#%d" % (a.name, a.n), a.nd)
            n.name = "d(%s)" % a.name
            self.adjdef[a.n] = n
        return n

    def definition(self, a, shape):
        """Adjoint of leaf a by the values computed from it, in terms of the
        adjoints of those."""
        r = E(shape)
        for b, e, t in self.cuts:
            if b.n == a.n:
                continue
            memo = {}
            ad = self.adj(b, t.traits.shape)
            L = E([])
            hit = False
            for m, c in e.t.items():
                if any(talg.depends(x, a, memo) for x, p, ix in m):
                    hit = True
                    fr = {i: talg.fresh() for i in range(e.nd)}
                    L.add(talg.refresh(m, fr) + [(ad.n, 1, tuple(
                        fr[i] for i in range(e.nd)))], c)
            if hit:
                r = r.plus(talg.derivative(L, a, shape))
        for b, L in self.seed:
            if any(talg.depends(x, a, {}) for m in L.t for x, p, ix in m):
                r = r.plus(talg.derivative(L, a, shape))
        return r

    def expand(self, e, skip=()):
        """Replace adjoints which no gradient tensor holds by their
        definitions."""
        for _ in range(40):
            todo = None
            for m in e.t:
                for x, p, ix in m:
                    if x in self.adjleaf() and x not in self.mat:
                        todo = x
                        break
                if todo is not None:
                    break
            if todo is None:
                return e
            a, shape = self.adjleaf()[todo]
            d = self.definition(a, shape)
            r = E(e.shape)
            for m, c in e.t.items():
                hit = [f for f in m if f[0] == todo]
                if not hit:
                    r.add(list(m), c)
                    continue
                if len(hit) != 1 or hit[0][1] != 1:
                    raise Unsupported("product of adjoints")
                rest = [f for f in m if f[0] != todo]
                for m2, c2 in d.t.items():
                    r.add(rest + talg.refresh(m2, dict(enumerate(hit[0][2]))),
                          c * c2)
            e = r
        raise Unsupported("adjoints nested too deeply")

    def adjleaf(self):
        out = {}
        for b, e, t in self.cuts:
            n = self.adjdef.get(b.n)
            if n is not None:
                out[n.n] = (b, t.traits.shape)
        return out

    # -- events -----------------------------------------------------------
    def run(self, events):
        nested = self.nested = inner(events)
        for i, e in enumerate(events):
            try:
                self.event(i, e, nested)
            except Unsupported as x:
                self.undecided("%s: %s" % (e.where, x))
                self.poison(e, x)

    def poison(self, e, x):
        for t in self.targets(e):
            self.S.val[t.n] = x

    def targets(self, e):
        op = opname(e.name)
        w = WRITES.get(op)
        if w is None:
            return tensors(e.args)
        return [e.args[i] for i in w if i < len(e.args)
                and isinstance(e.args[i], Tensor)]

    def event(self, i, e, nested):
        if e.kind == "core":
            self.core(e)
        elif e.kind == "method":
            self.method(e)
        elif e.kind == "enter":
            self.unit.append((e.name, e.args[0], i))
            if e.name == "backward_async" and i in nested:
                self.enter_backward(e)
            elif e.name == "step":
                self.enter_step(e)
        elif e.kind == "leave":
            name, o, j = self.unit.pop()
            self.calls.append((name, o, j))
            if name == "forward_async" and j in nested:
                self.leave_forward(e, o)
            elif name == "calc_async":
                self.leave_loss(e, o)
            elif name == "step":
                self.leave_step(e, o)
        elif e.kind == "mark":
            self.stage = AFTER.get(e.name, self.stage)
            self.at_mark(e)

    def at_mark(self, e):
        pass

    def enter_step(self, e):
        pass

    def leave_step(self, e, o):
        pass

    def core(self, e):
        op = opname(e.name)
        self.ops += 1
        for t in tensors(e.args):
            if t.n in self.dead:
                self.report("use", "dead:%s" % nm(t), "%s uses %r after it "
                            "was unregistered" % (e.name, t), e.where)
        f = OPS.get(op)
        if f is None:
            raise Unsupported("operation " + e.name)
        for t in self.targets(e):
            self.writers[t.n] = e
        try:
            f(self.S, e.args)
        except Mismatch as x:
            self.broken = True
            self.report("accept", "reject:%s" % short(e.where),
                        "%s rejects its operands: %s" % (e.name, x), e.where)
            self.report("broken " + self.stage, "reject:%s" % short(e.where),
                        "%s rejects its operands: %s" % (e.name, x), e.where)
            self.poison(e, Unsupported("rejected"))
            return
        except StaleData as x:
            self.report("fresh", "stale:%s" % nm(x.t), "%s uses %r, which "
                        "was not cleared and holds data of an earlier step"
                        % (e.name, x.t), e.where)
            self.poison(e, Unsupported("stale"))
            return
        if self.cut and not self.inside():
            for t in self.targets(e):
                if t.n in self.moments:
                    self.new_version(t)

    def inside(self):
        """In a layer's own forward pass, or any backward pass?"""
        if any(n in ("backward_async", "step") for n, o, j in self.unit):
            return True
        return bool(self.unit) and self.unit[-1][0] == "forward_async" and \
            self.unit[-1][2] in self.nested

    def method(self, e):
        t = e.args[0]
        if e.name == "unregister":
            self.dead.add(t.n)
            return
        if t.n in self.dead:
            self.report("use", "dead:%s" % nm(t), "%s of %r after it was "
                        "unregistered" % (e.name, t), e.where)
        if e.name == "from_array":
            kind = {"Tensor_bool": "mask"}.get(t.ncls.name, "leaf")
            self.leaf(t, nm(t), kind)
        elif e.name == "invalidate_submit":
            self.S.val.pop(t.n, None)

    def new_version(self, t):
        """Name the current value of t by a leaf of its own."""
        v = self.S.raw(t)
        if not isinstance(v, E) or single(v, self.version.get(t.n)):
            return
        a = self.leaf(t, nm(t))
        self.cuts.append((a, v, t))

    # -- units ------------------------------------------------------------
    def leave_forward(self, e, o):
        if not self.cut:
            return
        for m in self.outputs(o):
            v = attr(m, "value")
            if not isinstance(v, Tensor):
                continue
            x = self.S.raw(v)
            if not isinstance(x, E):
                continue
            self.garbage(v, x, "value of %s" % nm(v))
            a = self.leaf(v, nm(v))
            self.cuts.append((a, x, v))
            self.outs[a.n] = o

    def outputs(self, o):
        r = attr(o, "activations_output")
        return [m for m in r if is_moments(m)] if isinstance(r, list) else []

    def enter_backward(self, e):
        o = e.args[0]
        self.done_back.add(id(o))
        for m in self.outputs(o):
            v, g = attr(m, "value"), attr(m, "grad")
            if not isinstance(v, Tensor) or not isinstance(g, Tensor):
                continue
            a = self.version.get(v.n)
            if a is None or self.S.raw(g) is None and \
                    g.n not in self.init:
                # harness gives no seed
                if a is None:
                    continue
            self.check_adjoint(v, g, e.where, "when %s.backward_async starts"
                               % o.cls.name)

    def base_of(self, g):
        return self.init.get(g.n) or E(g.traits.shape)

    def check_adjoint(self, v, g, where, when):
        """Compare gradient tensor g with the adjoint of the values v had."""
        a = self.version[v.n]
        # the value this unit produced may have been updated in place since
        chain = self.chain(v)
        got = self.S.raw(g)
        if not isinstance(got, E):
            return
        a = chain[0]
        want = self.definition(a, v.traits.shape)
        top = a
        while True:
            k = self.sole_adjoint(want)
            if k is None or k.n in self.mat:
                break
            top = self.adjleaf()[k.n][0]
            want = self.definition(top, v.traits.shape)
        want = self.expand(want)
        self.compare(g, v, got, want, where, when)
        n = self.adj(top, v.traits.shape)
        # what it is called from here on
        self.mat.add(n.n)
        self.S.val[g.n] = talg.of_atom(n, g.traits.shape)

    def chain(self, v):
        """Versions of v since its producer wrote it."""
        cur = self.version[v.n]
        byn = {b.n: (b, e, t) for b, e, t in self.cuts}
        own = [b for b, e, t in self.cuts if t.n == v.n and b.n in self.outs]
        return [own[-1]] if own else [cur]

    def sole_adjoint(self, e):
        if len(e.t) != 1:
            return None
        (m, c), = e.t.items()
        if abs(c - 1) > 1e-9 or len(m) != 1 or m[0][1] != 1 or \
                m[0][2] != tuple(range(e.nd)):
            return None
        x = m[0][0]
        return talg._INFO[x] if x in self.adjleaf() else None

    def compare(self, g, v, got, want, where, when, base=None):
        bad = talg.difference(got, want)
        self.report(None, None, None, None, ok=not bad)
        if not bad:
            return True
        gb = [x for x in self.bad_garbage(got)]
        if gb:
            self.report("fresh", "old:%s" % nm(g), "%s depends on %s, which "
                        "no operation of this step has written %s"
                        % (nm(g), ", ".join(sorted(gb)), when), where)
            return False
        bt = set(base.t) if base is not None else set()
        init = [d for d in bad if d[0] in bt]
        if base is not None and not talg.difference(got, base):
            self.report("missing", "none:%s" % nm(g), "%s: nothing is added "
                        "%s" % (nm(g), when), where)
            return False
        if init:
            self.report("accumulate", "over:%s" % nm(g), "%s: previous "
                        "contents enter with factor %g instead of %g %s" % (
                            nm(g), init[0][1], init[0][2], when), where)
            bad = [d for d in bad if d[0] not in bt]
            if not bad:
                return False
        m, x, y = bad[0]
        self.report("gradient", "grad:%s" % nm(g), "%s is not the derivative "
                    "with respect to %s %s: the term %s has coefficient %.6g "
                    "instead of %.6g (%d terms differ)" % (
                        nm(g), nm(v), when, talg.show_mono(m), x, y,
                        len(bad)), self.where_of(g) or where)
        return False

    def where_of(self, t):
        w = self.writers.get(t.n)
        return w.where if w is not None else None

    def bad_garbage(self, e):
        return {repr(self.S.garbage[a]) for a in e.atoms()
                if a in self.S.garbage}

    def garbage(self, t, e, what):
        b = self.bad_garbage(e)
        self.report(None, None, None, None, ok=not b)
        if b:
            self.report("fresh", "old:%s" % nm(t), "%s depends on %s, which "
                        "nothing has written" % (what, ", ".join(sorted(b))),
                        self.where_of(t))

    def leave_loss(self, e, o):
        pass

    # -- finish -----------------------------------------------------------
    def check_sources(self, when, only=None):
        for n, t in list(self.src.items()):
            m = self.moments.get(t.n)
            if m is None or only is not None and t.n not in only:
                continue
            g = attr(m, "grad")
            if not isinstance(g, Tensor):
                continue
            a = talg._INFO[n]
            if self.version.get(t.n) is not a:
                continue
            got = self.S.raw(g)
            if got is None:
                got = self.S.get(g)
            if not isinstance(got, E):
                continue
            base = self.base_of(g)
            if attr(m, "grad_required"):
                want = base.plus(self.expand(self.definition(
                    a, t.traits.shape)))
                self.compare(g, t, got, want, self.where_of(g), when, base)
            else:
                bad = talg.difference(got, base)
                self.report(None, None, None, None, ok=not bad)
                if bad:
                    self.report("accumulate", "touch:%s" % nm(g), "%s is "
                                "not required but changes" % nm(g),
                                self.where_of(g))

    def check_unchanged(self, ts, when):
        for t, v in ts:
            got = self.S.raw(t)
            if not isinstance(got, E):
                continue
            ok = not talg.difference(got, v)
            self.report(None, None, None, None, ok=ok)
            if not ok:
                self.report("modify", "mod:%s" % nm(t), "%s is modified by "
                            "the %s" % (nm(t), when), self.where_of(t))


def inner(events):
    """Indices of enter events with no phase of the same name inside."""
    st, out = [], set()
    for i, e in enumerate(events):
        if e.kind == "enter":
            for s in st:
                if s[0] == e.name:
                    s[2] = False
            st.append([e.name, i, True])
        elif e.kind == "leave" and st:
            n, j, leafy = st.pop()
            if leafy:
                out.add(j)
    return out


def single(v, a):
    if a is None or len(v.t) != 1:
        return False
    (m, c), = v.t.items()
    return c == 1 and m == ((a.n, 1, tuple(range(v.nd))),)


def nm(t):
    return t.name or "tensor#%d" % t.n


def short(where):
    """file without line"""
    return (where or "").rsplit(":", 1)[0]
