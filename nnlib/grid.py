"""Expansion of an operation's summarised task structure on one particular
tiling: which tasks it submits, for which tiles and with which coefficients.

The summary (the tree of loops and task insertions found by the abstract
interpreter) is expanded arithmetically for given numbers of tiles and tile
extents.  It is used to exhibit a concrete tiling when a rule is violated and
to compare tasks tile by tile."""
import itertools
import re

from .poly import Poly
from .sym import ATOM, IDX, TILES, Hnd, LoopNode, Obj, Sc, Snap, Vec, C


class Unknown(Exception):
    pass


class Outside(Exception):
    """A tile outside the grid of its tensor."""


class Stop(Exception):
    def __init__(self, flow):
        self.flow = flow


class Task:
    def __init__(self, ev, vals, order, loops):
        self.ev, self.vals, self.order, self.loops = ev, vals, order, loops
        self.name = ev.name

    def handles(self):
        return [(k, v) for k, v in self.vals if isinstance(v, tuple) and
                v and v[0] == "tile"]

    def get(self, k):
        for n, v in self.vals:
            if n == k:
                return v
        return None


def at(v, i):
    if not 0 <= i < len(v):
        raise Unknown("position %s of %s" % (i, v))
    return v[i]


class Grid:
    """Numbers of tiles, tile extents and leftover extents per operand."""

    def __init__(self, dims, lens=None, vecs=None):
        self.dims = dims            # operand -> [(G, B, left)]
        self.vecs = vecs or {}      # index vector parameter -> [values]
        self.fl = {}                # float condition -> truth
        self.env = {}
        self.need = []

    def shape(self, X):
        return [(g - 1) * b + l for g, b, l in self.dims[X]]

    def grid(self, X):
        return [g for g, b, l in self.dims[X]]

    def comps(self, X, i):
        out = []
        for g in self.grid(X):
            out.append(i % g)
            i //= g
        if i:
            raise Outside(X)
        return out

    def tile_shape(self, X, comps):
        return [l if c == g - 1 else b
                for (g, b, l), c in zip(self.dims[X], comps)]

    # -- values --------------------------------------------------------------
    def val(self, p):
        if isinstance(p, int):
            return p
        if not isinstance(p, Poly):
            raise Unknown(p)
        r = 0
        for k, v in p.t.items():
            x = v
            for a in k:
                x *= self.atom(a)
            r += x
        return r

    def atom(self, a):
        if a in self.env:
            return self.env[a]
        k = ATOM.get(a)
        if k is None:
            raise Unknown(a)
        if k[0] == "el":
            return self.el(k[1], self.val(k[2]))
        if k[0] in ("div", "mod"):
            x, y = self.val(k[1]), self.val(k[2])
            if y == 0:
                raise Unknown(a)
            q = abs(x) // abs(y) * (1 if (x >= 0) == (y >= 0) else -1)
            return q if k[0] == "div" else x - q * y
        if k[0] in ("min", "max"):
            return (min if k[0] == "min" else max)(self.val(k[1]),
                                                   self.val(k[2]))
        if k[0] == "ite":
            return self.val(k[2] if self.cond(k[1]) else k[3])
        if k[0] == "lin":
            X = k[1][:-len(".grid")] if k[1].endswith(".grid") else None
            if X not in self.dims:
                raise Unknown(a)
            cs = self.vec(k[2], len(self.dims[X]))
            r, s = 0, 1
            for c, g in zip(cs, self.grid(X)):
                if not 0 <= c < g:
                    raise Outside("%s%s" % (X, cs))
                r += c * s
                s *= g
            return r
        if k[0] == "pp":
            n = self.val(k[2])
            r = 1
            for i in range(n):
                r *= self.el(k[1] + ".shape", i)
            return r
        raise Unknown(a)

    def vec(self, v, n):
        if isinstance(v, Vec):
            return [self.el(v.n, i) for i in range(n)]
        if isinstance(v, Snap):
            out = []
            for i in range(n):
                x = None
                for lo, hi, f in reversed(v.pieces):
                    if self.val(lo) <= i < self.val(hi):
                        if isinstance(f, Poly):
                            x = self.val(f.subst({"@": C(i)}))
                        break
                else:
                    b = v.base
                    if b is not None and b[0] == "const":
                        x = self.val(b[1])
                    elif b is not None and b[0] == "vec":
                        x = self.vec(b[1], n)[i]
                if x is None:
                    raise Unknown(str(v))
                out.append(x)
            return out
        raise Unknown(v)

    def el(self, name, i):
        m = re.match(r"(.*)\.(shape|basetile_shape|leftover_shape|stride)$",
                     name)
        if name in IDX:
            g, p = IDX[name]
            if g.endswith(".grid"):
                X = g[:-len(".grid")]
                if X in self.dims:
                    return at(self.comps(X, self.val(p)), i)
            elif g in self.dims:
                return at(self.decomp(self.shape(g), self.val(p)), i)
            raise Unknown(name)
        if not m:
            if name in self.vecs:
                return self.vecs[name][i]
            raise Unknown(name)
        o, role = m.groups()
        if o in TILES:
            X, p = TILES[o]
            if X not in self.dims:
                raise Unknown(name)
            sh = self.tile_shape(X, self.comps(X, self.val(p)))
        elif o.endswith(".grid"):
            X = o[:-5]
            if X not in self.dims:
                raise Unknown(name)
            sh = self.grid(X)
        elif o in self.dims:
            X = o
            if role == "basetile_shape":
                return at([b for g, b, l in self.dims[X]], i)
            if role == "leftover_shape":
                return at([l for g, b, l in self.dims[X]], i)
            sh = self.shape(X)
        else:
            raise Unknown(name)
        if role == "stride":
            r = 1
            for x in sh[:i]:
                r *= x
            return r
        if role != "shape" or not 0 <= i < len(sh):
            raise Unknown(name)
        return sh[i]

    def decomp(self, sh, i):
        out = []
        for s in sh:
            out.append(i % s)
            i //= s
        return out

    # -- conditions ----------------------------------------------------------
    def cond(self, c):
        k = c[0]
        if k == "const":
            return bool(c[1])
        if k == "ge":
            return self.val(c[1]) >= 0
        if k == "eq":
            return self.val(c[1]) == 0
        if k == "ne":
            return self.val(c[1]) != 0
        if k == "and":
            return all(self.cond(x) for x in c[1])
        if k == "or":
            return any(self.cond(x) for x in c[1])
        if k in ("feq", "fne", "fc"):
            if k == "fc":
                key, pos = ("fc", c[1]), c[2]
            else:
                key, pos = ("feq",) + tuple(sorted(map(str, c[1:]))), \
                    k == "feq"
            if key not in self.fl:
                self.need.append(key)
                raise Unknown("float")
            return self.fl[key] == pos
        raise Unknown(str(c))

    # -- expansion -----------------------------------------------------------
    def run(self, trace, limit=4000):
        self.tasks = []
        self.limit = limit
        try:
            self.seq(trace, {})
        except Stop as s:
            return self.tasks, s.flow
        return self.tasks, "n"

    def seq(self, trace, loops):
        for n in trace:
            if isinstance(n, LoopNode):
                self.loop(n, loops)
            elif n.kind == "submit":
                vals = [(k, self.arg(v)) for k, v in n.args]
                nd = dict(vals).get("ndim")
                if isinstance(nd, int):
                    vals = [(k, self.vecarg(a, nd, v))
                            for (k, v), (_, a) in zip(vals, n.args)]
                self.tasks.append(Task(n, vals, len(self.tasks),
                                       dict(loops)))
                if len(self.tasks) > self.limit:
                    raise Unknown("too many tasks")

    def arg(self, v):
        if isinstance(v, Obj) and v.n in self.dims:
            return ("tile", v.n, tuple(0 for _ in self.dims[v.n]))
        if isinstance(v, Hnd):
            if v.obj.n in self.dims and isinstance(v.index, Poly):
                i = self.val(v.index)
                n = 1
                for g in self.grid(v.obj.n):
                    n *= g
                if not 0 <= i < n:
                    raise Outside("%s tile %d" % (v.obj.n, i))
                return ("tile", v.obj.n, tuple(self.comps(v.obj.n, i)))
            if v.obj.n in self.dims and v.index is None and \
                    v.obj.kind == "tile":
                return ("tile", v.obj.n,
                        tuple(0 for _ in self.dims[v.obj.n]))
            return ("handle", str(v))
        if isinstance(v, Poly):
            try:
                return self.val(v)
            except Unknown:
                return ("sym", str(v))
        if isinstance(v, Sc):
            return ("sc", v.n, v.val)
        return ("sym", str(v))

    def vecarg(self, a, n, v):
        if isinstance(a, (Vec, Snap)):
            try:
                return ("vec", tuple(self.vec(a, n)))
            except (Unknown, KeyError, IndexError):
                return v
        return v

    def loop(self, n, loops):
        if n.lo is None:
            raise Unknown("loop without bounds")
        a, b = self.val(n.lo), self.val(n.hi)
        old = self.env.get(n.name)
        rng = range(a, b)
        for i in (rng if n.delta > 0 else reversed(rng)):
            self.env[n.name] = i
            loops[n.name] = i
            hit = [x for x in n.alts if all(self.cond(c) for c, _ in x[1])]
            if len(hit) != 1:
                raise Unknown("%d alternatives apply" % len(hit))
            fl, _, tr, _ = hit[0]
            self.seq(tr, loops)
            if fl == "break":
                break
            if fl in ("ret", "throw"):
                raise Stop(fl)
        if old is None:
            self.env.pop(n.name, None)
        else:
            self.env[n.name] = old
        loops.pop(n.name, None)


def expand(ps, dims, vecs=None):
    """All outcomes of an operation on one tiling: list of
    (float conditions, flow, tasks)."""
    out = []
    todo = [{}]
    while todo:
        fl = todo.pop()
        g = Grid(dims, vecs=vecs)
        g.fl = fl
        try:
            hits = []
            for p in ps:
                if p.flow == "throw":
                    continue
                if any(c[0] == "unk" and re.match(r"(some|break) L", c[1])
                       for c, _ in p.st.conds):
                    continue
                ok = True
                for c, _ in p.st.conds:
                    if not g.cond(c):
                        ok = False
                        break
                if ok:
                    hits.append(p)
            if len(hits) != 1:
                raise Unknown("%d paths apply" % len(hits))
            tasks, flow = g.run(hits[0].st.trace)
            out.append((fl, flow, tasks, g))
        except Unknown:
            if not g.need:
                raise
            k = g.need[0]
            if len(fl) > 6:
                raise
            todo += [dict(fl, **{}) | {k: True}, dict(fl) | {k: False}]
    return out


# -- tilings of a context ----------------------------------------------------
def tilings(op, c, tier=3):
    """Tilings (operand -> [(tiles, extent, leftover)]) that satisfy the
    operation's requirements."""
    labels = {}
    for X, ls in sorted((c["labels"] or {}).items()):
        for l in ls:
            if l.startswith("#"):
                continue
            s = l.endswith("!")
            l = l.rstrip("!")
            labels[l] = labels.get(l, False) or s
    names = sorted(labels)
    base = [(1, 2, 2), (2, 3, 2), (3, 2, 1), (2, 4, 4)]
    combos = []
    # every label with 1..3 tiles, neighbours differing
    for k in range(4):
        combos.append({n: base[(i + k) % 4] for i, n in enumerate(names)})
    combos.append({n: (2, 3 + i, 1 + i) for i, n in enumerate(names)})
    combos.append({n: (3, 2 + i, 2 + i) for i, n in enumerate(names)})
    combos.append({n: (1, 3, 3) for n in names})
    for one in names:
        combos.append({n: (3, 2, 2) if n == one else (1, 3, 3)
                       for n in names})
        combos.append({n: (1, 2, 2) if n == one else (2, 3, 1)
                       for n in names})
    if op.layer == "tile":
        combos = [{n: (1, 2 + i, 2 + i) for i, n in enumerate(names)},
                  {n: (1, 5 - i % 4, 5 - i % 4) for i, n in enumerate(names)},
                  {n: (1, 1, 1) for n in names},
                  {n: (1, 3, 3) for n in names}]
    seen = set()
    for m in combos:
        for n in names:
            if labels[n]:
                g, b, l = m[n]
                e = (g - 1) * b + l
                m[n] = (1, e, e)
        if op.name.startswith("flash_"):
            # equal tiles only, the same for queries and keys
            m = {n: (g, b, b) for n, (g, b, l) in m.items()}
            g = m["k"][0] if "dQ" in op.operands else m["q"][0]
            m["q"] = (g,) + m["k"][1:]
        key = tuple(sorted(m.items()))
        if key in seen:
            continue
        seen.add(key)
        dims = {}
        for X, ls in c["labels"].items():
            dims[X] = [(1, int(l[1:]), int(l[1:])) if l.startswith("#")
                       else m[l.rstrip("!")] for l in ls]
        yield from special(op, c, dims, m)


def special(op, c, dims, m):
    n = op.name
    if op.layer == "tile":
        pass
    elif n == "nrm2" and op.layer == "tensor":
        dims["tmp"] = [(g, 1, 1) for g, b, l in dims["src"]]
    elif n in ("gather", "scatter"):
        X = "dst" if n == "gather" else "src"
        Y = "src" if n == "gather" else "dst"
        dims[X] = [(1, (g - 1) * b + l, (g - 1) * b + l)
                   for g, b, l in dims[Y]]
    elif n.startswith("embedding") and op.layer == "tensor":
        e = dims["embed"][c["ints"]["axis"]]
        tot = (e[0] - 1) * e[1] + e[2]
        for f in (1, 2, 3):
            if e[1] % f:
                continue
            b = e[1] // f
            g = -(-tot // b)
            d = dict(dims)
            d["vocab"] = [(g, b, tot - (g - 1) * b), (1, 4, 4)]
            yield d
        return
    yield dims


# -- access modes of task insertions ------------------------------------------
def submit_modes(ws):
    """submit function (operation name) -> handle parameter -> set of modes
    ('R', 'W', 'RW', 'ACC', 'S') over all scenarios."""
    from .tasks import TaskLayer
    from .effects import bindings
    T = TaskLayer(ws)
    K = T.K
    out = {}
    for b in bindings(T)[0]:
        name = b.sub.ast["q"].split("::")[-2]
        d = out.setdefault(name, {})
        for mode, pi, _, _ in b.site.bufs:
            if pi is None:
                continue
            p = b.param_name(pi)
            if mode is None:
                m = "?"
            elif mode & K["STARPU_SCRATCH"]:
                m = "S"
            elif mode & K["STARPU_REDUX"] or mode & K.get(
                    "STARPU_MPI_REDUX", 0):
                m = "ACC"
            else:
                m = ("R" if mode & K["STARPU_R"] else "") + \
                    ("W" if mode & K["STARPU_W"] else "")
            d.setdefault(p, set()).add(m)
    return out
