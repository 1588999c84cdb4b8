"""C14: the memory accesses of task implementations on the tiles an operation
passes to them, for concrete tilings."""
import itertools
import re

from .chk_grid import contexts, dshow, ERR
from .chk_tensor import layers, bound, cshow, where
from .effects import bindings, leaves, reach_avoiding
from .grid import Outside, Unknown, expand, tilings
from .poly import Poly
from .tasks import TaskLayer, strip

SIZES = [("fp64", 8), ("double", 8), ("fp32", 4), ("float", 4), ("fp16", 2),
         ("half", 2), ("long", 8), ("Index", 8), ("int64", 8), ("bool", 1)]
# element types of instances the compiled kernels are compared with
LIMIT = 60000


def elem_size(t):
    m = re.search(r"<(.*)>", t)
    s = m.group(1) if m else t
    for k, n in SIZES:
        if k in s:
            return n
    return None


class Prog:
    """One access, compiled for repeated evaluation."""
    __slots__ = ("a", "loops", "trips", "off", "size", "virt", "vs", "data",
                 "guard",
                 "fn", "order", "params")


def fnum(s):
    try:
        return float(s)
    except (TypeError, ValueError):
        return None


PRED = {"eq": "==", "ne": "!=", "slt": "<", "sle": "<=", "sgt": ">",
        "sge": ">=", "ult": "<", "ule": "<=", "ugt": ">", "uge": ">="}


def on_data(fm, v, depth=0):
    """The condition compares floating point values only."""
    v = strip(fm.ctx.resolve(strip(v)))
    if v is None or depth > 8:
        return False
    if v.get("k") == "cmp":
        for x in (v["a"], v["b"]):
            x = fm.ctx.resolve(x)
            if x.get("k") == "cf" or str(x.get("t")) in (
                    "float", "double", "half"):
                return True
        return False
    if v.get("k") == "op" and v.get("op") in ("and", "or", "xor", "select"):
        return all(on_data(fm, x, depth + 1) or
                   (x.get("k") == "ci") for x in v["a"])
    return False


def guards(fm, block):
    """Conditions under which a block of a loop iteration executes, other
    than loop exits: [(polynomial a, operator, polynomial b)], or None if a
    condition on sizes or loop counters cannot be expressed.  Conditions on
    the data alone are taken as possibly true."""
    out = []
    d = fm.dom()
    c = block
    chain = []
    while d.get(c) is not None and d[c] != c:
        c = d[c]
        chain.append(c)
    for c in chain:
        succ = fm.blocks[c]["succ"]
        last = fm.blocks[c]["is"][-1]
        if len(succ) < 2 or any(s in fm.dead_ends() for s in succ):
            continue
        if any(c in L["exiting"] and (block in L["blocks"] or
                                      fm.live_exiting(L) == [c])
               for L in fm.loops.values()):
            continue        # covered by the number of iterations
        sides = [i for i, s in enumerate(succ) if s == block or
                 reach_avoiding(fm, s, {block}, {c}) is not None]
        if len(sides) != 1 or len(succ) != 2:
            if len(sides) == len(succ):
                continue
            ks = set()
            if on_data(fm, last.get("c")):
                continue
            leaves(fm, last.get("c"), ks, set())
            if ks & {"size", "index", "?"}:
                return None
            continue
        # the loop of the block is skipped when it has no iterations
        v = strip(fm.ctx.resolve(strip(last.get("c"))))
        if on_data(fm, v):
            continue
        ks = set()
        leaves(fm, v, ks, set())
        if not ks & {"size", "index", "?"}:
            continue
        if v.get("k") == "cmp" and v["p"] in PRED:
            a, b = fm.ctx.val(v["a"]), fm.ctx.val(v["b"])
            if a is not None and b is not None and not any(
                    x[0] in "xpd" for q in (a, b) for x in q.atoms()):
                out.append((a, PRED[v["p"]], b, sides[0] == 0))
                continue
        return None
    return out


class Kernel:
    """Accesses of one (submission scenario, implementation scenario)."""

    def __init__(self, b):
        self.b = b
        self.progs, self.skipped = [], []
        fm = b.impl.fm
        for a in b.impl.acc:
            if a.off is None:
                self.skipped.append(a)
                continue
            p = Prog()
            p.a = a
            p.loops = fm.loop_chain(a.loop)[::-1]
            p.trips = [fm.trips(l, a.block) for l in p.loops]
            p.off, p.size = a.off, a.size
            if a.virt is not None:
                p.virt = [((a.block, a.idx, n), e, s) for n, e, s in a.virt]
                p.size = a.size
            elif a.count is not None:
                p.virt = [((a.block, a.idx, "bytes"), a.count,
                           Poly.const(1))]
            else:
                p.virt = []
            p.vs = ["i%d" % l for l in p.loops]
            p.data = sorted(x for x in a.off.atoms() if x[0] == "d" and
                            x[1].isdigit())
            p.guard = guards(fm, a.block)
            if p.guard is None or any(
                    x[0] == "i" and x[1:].isdigit() and x not in p.vs
                    for g in p.guard for q in (g[0], g[2])
                    for x in q.atoms()):
                self.skipped.append(a)
                continue
            known = set(p.vs) | set(p.data)
            bad = [x for q in [p.off] + p.trips + [e for _, e, _ in p.virt] +
                   [s for _, _, s in p.virt] if q is not None
                   for x in q.atoms() if x[0] in "xp" and x not in known]
            if None in p.trips or bad or len(p.data) > 1:
                self.skipped.append(a)
                continue
            self.progs.append(p)


def environment(b, vals, bufbytes):
    """Values of the atoms of an implementation in one task."""
    env = {}
    for off in b.site.fields:
        pi = b.field_param(off)
        if pi is not None and pi < len(vals) and isinstance(vals[pi], int):
            env["a%d" % off] = vals[pi]
        elif pi is None:
            f = b.field_fact(off)
            if f is not None and re.match(r"-?\d+$", f):
                env["a%d" % off] = int(f)
    for buf, n in bufbytes.items():
        env["e%d" % buf] = n
        for k in (1, 2, 4, 8, 16):
            env["e%d/%d" % (buf, k)] = n // k
    return env


def source(p, names):
    """Expression of a polynomial over the listed atoms."""
    out = []
    for k, v in p.t.items():
        out.append("*".join([str(v)] + [names[a] for a in k]))
    return "+".join("(%s)" % o for o in out) or "0"


def compiled(p):
    """Function from the values of the size atoms to the list of
    (iteration, byte offset); iteration variables are p.order."""
    if getattr(p, "fn", None):
        return p.fn
    names, params = {}, []
    ivs = list(p.vs) + p.data
    for n, v in enumerate(ivs):
        names[v] = "v%d" % n
    polys = [p.off] + p.trips + [q for g in p.guard for q in (g[0], g[2])] + [
        q for _, e, s in p.virt for q in (e, s)]
    for q in polys:
        for a in sorted(map(str, q.atoms())):
            if a not in names:
                names[a] = "s%d" % len(params)
                params.append(a)
    lines = ["def f(D, LIMIT, %s):" % ", ".join(names[a] for a in params)
             if params else "def f(D, LIMIT):", " out = []"]
    d = 1
    for v, t in zip(p.vs, p.trips):
        lines.append(" " * d + "for %s in range(%s):" % (
            names[v], source(t, names)))
        d += 1
    for a, op, b, sense in p.guard:
        lines.append(" " * d + "if %s(%s %s %s):" % (
            "" if sense else "not ", source(a, names), op, source(b, names)))
        d += 1
    for v in p.data:
        lines.append(" " * d + "for %s in range(D):" % names[v])
        d += 1
    lines.append(" " * d + "o = " + source(p.off, names))
    lines.append(" " * d + "if len(out) > LIMIT: return None")
    vv = []
    inc = "o"
    for n, (k, e, st) in enumerate(p.virt):
        w = "w%d" % n
        lines.append(" " * d + "for %s in range(%s):" % (w, source(e, names)))
        d += 1
        inc += "+%s*%d*(%s)" % (w, p.size, source(st, names))
        vv.append(w)
    its = [names[v] for v in ivs] + vv
    lines.append(" " * d + "out.append(((%s), %s))" % (
        "".join(i + "," for i in its), inc))
    lines.append(" return out")
    ns = {}
    exec("\n".join(lines), ns)       # generated from polynomials only
    p.order = ivs + [k for k, _, _ in p.virt]
    p.params = params
    p.fn = ns["f"]
    return p.fn


def points(p, env, drange):
    f = compiled(p)
    args = []
    for a in p.params:
        if env.get(a) is None:
            raise Unknown(a)
        args.append(env[a])
    r = f(drange, LIMIT, *args)
    if r is None:
        raise Unknown("too many iterations")
    return r


class Tile:
    """The tile bound to one buffer."""

    def __init__(self, x, dims, X, comps, es):
        self.X, self.comps = X, comps
        self.shape = [l if c == g - 1 else b
                      for (g, b, l), c in zip(dims[X], comps)]
        self.start = [c * b for (g, b, l), c in zip(dims[X], comps)]
        self.labels = x.labels.get(X, [None] * len(self.shape))
        if X in (x.c.get("nolink") or ()) or X in (x.c.get("tile_of") or {}):
            self.labels = [None] * len(self.shape)
        self.es = es
        self.n = 1
        for s in self.shape:
            self.n *= s
        self.bytes = self.n * es

    def key(self):
        return (self.X, tuple(self.shape), tuple(self.start), self.es)

    def show(self):
        return "%s%s (%s elements)" % (self.X, list(self.comps), "x".join(
            map(str, self.shape)) or "1")

    def decode(self):
        """Element -> position in its tensor (relative per label)."""
        if not hasattr(self, "_dec"):
            self._dec = [tuple(c[::-1]) for c in itertools.product(
                *[range(a, a + n) for a, n in
                  list(zip(self.start, self.shape))[::-1]])]
        return self._dec


def relative(tiles):
    """Positions relative to the first index along each shared dimension."""
    low = {}
    for t in tiles.values():
        for l, s in zip(t.labels, t.start):
            low[l] = min(low.get(l, s), s)
    for t in tiles.values():
        t.start = [0 if l is None else s - low[l]
                   for l, s in zip(t.labels, t.start)]


def proj(p, pts, tile, vs, shared):
    ix = [p.order.index(v) for v in vs]
    ds = [(d, tile.labels.index(l)) for d, l in enumerate(shared)]
    dec = tile.decode()
    m = {}
    pos = [k for _, k in ds]
    for it, o in pts:
        c = dec[o // tile.es]
        m.setdefault(tuple([it[i] for i in ix]), set()).add(
            tuple([c[k] for k in pos]))
    return m


def examine(k, vals, tiles, drange):
    """Evaluate one kernel on one task: (problem or None, touched elements per
    (buffer, kind))."""
    b = k.b
    env = environment(b, vals, {i: t.bytes for i, t in tiles.items()})
    touched = {}
    maps = []
    for p in k.progs:
        t = tiles.get(p.a.buf)
        if t is None:
            continue
        dr = drange.get(t.X, 0) if p.data else 0
        kind = "w" if p.a.kind == "w" else "r"
        tt = touched.setdefault((p.a.buf, kind), set())
        pts = points(p, env, dr)
        if pts:
            lo, hi = min(q[1] for q in pts), max(q[1] for q in pts)
            o = lo if lo < 0 else hi
            if lo < 0 or hi + p.size > t.bytes:
                return ("outside", "accesses bytes %d..%d of tile %s which "
                        "has %d bytes" % (o, o + p.size, t.show(), t.bytes),
                        p.a.loc, t.X), touched
        if p.size == t.es:
            tt.update({o // t.es for _, o in pts})
        else:
            for _, o in pts:
                tt.update(range(o // t.es, (o + p.size - 1) // t.es + 1))
        maps.append((p, t, pts))
    # accesses of one iteration must lie at the same place of their tensors
    done = set()
    for (p, t, P), (q, u, Q) in itertools.combinations(maps, 2):
        if p.a.buf == q.a.buf:
            continue
        shared = sorted({l for l in t.labels if l} & {l for l in u.labels if l})
        if not shared or not P or not Q:
            continue
        key = (p.a.buf, q.a.buf, p.off, q.off, p.a.block, q.a.block)
        if key in done:
            continue
        done.add(key)
        vs = [v for v in p.order if v in q.order]
        a, c = proj(p, P, t, vs, shared), proj(q, Q, u, vs, shared)
        for v in a:
            if v in c and not a[v] & c[v]:
                return ("layout", "combines element %s of %s with element %s "
                        "of %s (index ranges of the tensors along %s)" % (
                            list(min(a[v])), t.X, list(min(c[v])), u.X,
                            ", ".join(shared)), p.a.loc,
                        "/".join(sorted((t.X, u.X)))), touched
    return None, touched


class Kernels:
    def __init__(self, ws):
        self.T = TaskLayer(ws)
        bs, _ = bindings(self.T)
        self.by = {}
        for b in bs:
            q = b.sub.ast["q"].split("::")
            self.by.setdefault(q[-2], []).append(Kernel(b))

    def of(self, name, task, ta, fl):
        """Kernels a task may run."""
        out = []
        vals = [v for _, v in task.vals]
        for k in self.by.get(name, []):
            b = k.b
            bta = tuple(b.sub.ast.get("ta") or ())
            if bta and ta and bta[0] != ta[0]:
                continue
            ps = b.sub.ast["ps"]
            if len(ps) != len(vals):
                continue
            hs = {pi for _, pi, _, _ in b.site.bufs}
            if not all(isinstance(vals[i], tuple) and vals[i] and
                       vals[i][0] in ("tile", "handle")
                       for i in hs if i is not None):
                continue
            if not self.possible(b, vals, fl):
                continue
            out.append(k)
        return out

    def possible(self, b, vals, fl):
        for (pi, off), f in b.sub.facts.items():
            if off not in (-1, 0) or pi >= len(vals):
                continue
            v = vals[pi]
            if isinstance(v, tuple) and v and v[0] == "sc":
                n = v[2]
                if n is None:
                    n = fnum(v[1])
                if n is None:
                    for key, truth in fl.items():
                        if key[0] == "feq" and key[2] == v[1] and truth:
                            n = fnum(key[1])
                v = n
            elif isinstance(v, tuple) and v and v[0] == "sym":
                m = re.match(r"<transop (\d)>", str(v[1]))
                v = int(m.group(1)) if m else None
            elif not isinstance(v, int):
                v = None
            if v is None:
                continue
            others = {fnum(x) for x in b.sub.all_consts.get((pi, off), set())}
            if f == "*":
                if float(v) in others:
                    return False
            elif fnum(f) is not None and fnum(f) != float(v):
                return False
        return True


def data_ranges(x, dims):
    """Operand -> extent of its dimension that is selected by the contents of
    an index tensor: the one no other operand has."""
    out = {}
    for X, ls in x.labels.items():
        own = [d for d, l in enumerate(ls) if l is not None and not any(
            l in m for Y, m in x.labels.items() if Y != X)]
        if len(own) == 1:
            g, b, l = dims[X][own[0]]
            out[X] = b if g > 1 else l
    return out


FILLS = ("clear", "fill")


def strides(shape):
    out, s = [], 1
    for x in shape:
        out.append(s)
        s *= x
    return tuple(out)


def box(t, dims, x):
    """subcopy and randn are given the box of elements as vectors: problem or
    None, and whether everything could be evaluated."""
    g = {k: v[1] for k, v in t.vals if isinstance(v, tuple) and v and
         v[0] == "vec"}
    whole = True

    def tile(par):
        v = t.get(par)
        if v is None or v[0] != "tile":
            return None
        return Tile(x, dims, v[1], v[2], 1)
    parts = [("src", "src_stride", "src_start", "copy_shape"),
             ("dst", "dst_stride", "dst_start", "copy_shape")] \
        if t.name == "subcopy" else [("data", "stride", None, "shape")]
    for par, st, start, shape in parts:
        u = tile(par)
        if u is None:
            whole = False
            continue
        if st in g:
            # the stride of a dimension with one element is never used
            for d, (a, b) in enumerate(zip(g[st], strides(u.shape))):
                if a != b and u.shape[d] > 1:
                    return ("strides %s" % u.X, "addresses tile %s with the "
                            "strides %s" % (u.show(), list(g[st]))), whole
        else:
            whole = False
        if shape in g:
            lo = g.get(start, (0,) * len(u.shape))
            if start is not None and start not in g:
                whole = False
            for d, (a, n) in enumerate(zip(lo, g[shape])):
                if a < 0 or n < 0 or a + n > u.shape[d]:
                    return ("box %s" % u.X, "addresses elements %s to %s of "
                            "tile %s along dimension %d" % (
                                a, a + n - 1, u.show(), d)), whole
        else:
            whole = False
    n = t.get("nelems")
    if t.name == "randn" and isinstance(n, int):
        u = tile("data")
        if u is not None and n != u.n:
            return ("count %s" % u.X, "generates %d elements of tile %s" % (
                n, u.show())), whole
    return None, whole


def c14(Rp):
    ws, Ls = layers(Rp)
    Rp.rule("bounds", "every access of the task's implementation, with the "
            "sizes passed at submission, lies inside the tile bound to the "
            "buffer")
    Rp.rule("layout", "accesses of one iteration to several tiles have equal "
            "positions along the dimensions the operands share")
    Rp.rule("box", "the box of elements a copy or generator task is given "
            "lies inside the tile and uses the tile's strides")
    Rp.rule("cover", "the tasks of the operation together access every "
            "element of every tile they are given")
    K = Kernels(ws)
    cache = {}
    skipped = {}
    insts = {}
    for L in Ls:
        for o in L.ops:
            insts.setdefault((o.unit, o.name, tuple(o.params)), []).append(o)
    for x in contexts(Rp, Ls, bound(Rp)):
        with Rp.guard(x.op.title):
            Rp.count("rank contexts")
            op = x.op
            group = insts[(op.unit, op.name, tuple(op.params))]
            try:
                for dims in tilings(op, x.c):
                    for fl, flow, tasks, g in expand(x.ps, dims):
                        Rp.count("tilings")
                        for o in group:
                            one(Rp, K, cache, skipped, x, o, dims, fl, tasks)
            except Unknown as e:
                Rp.undecided("%s (%s): %s" % (op.title, cshow(x.c), str(e)[:80]))
            except Outside:
                pass        # reported by C09
    for k, n in sorted(skipped.items()):
        Rp.undecided("%s (%d tasks)" % (k, n))
    Rp.require("operations", 40)
    Rp.require("tilings", 2000)
    Rp.require("task variants examined", 1000)
    return "other", (
        "The memory accesses of each task implementation are taken from the "
        "compiled function as polynomials of its loop counters and argument "
        "fields; the fields are bound to the sizes that abstract "
        "interpretation of the operation finds for each task of a tiling "
        "(1 to 3 tiles per dimension, distinct extents); the resulting byte "
        "ranges are enumerated and compared with the tile.")


def one(Rp, K, cache, skipped, x, o, dims, fl, tasks):
    types = {p["n"]: p["t"] for p in o.f["ps"]}
    es = {X: elem_size(types[X]) for X in dims if X in types}
    cover = {}
    for t in tasks:
        if t.name in ("subcopy", "randn"):
            bad, whole = box(t, dims, x)
            Rp.ob(bad is None)
            Rp.count("boxes")
            if bad is not None:
                Rp.violation(
                    "%s/%s %s" % (x.op.key(), t.name, bad[0]),
                    "%s: task %s %s (%s; tiles per dimension %s)" % (
                        o.title, t.name, bad[1], cshow(x.c), dshow(dims)),
                    where(o.L.ws, o.f))
                return
            if not whole:
                kk = "%s: %s box not completely known" % (o.title, t.name)
                skipped[kk] = skipped.get(kk, 0) + 1
            continue
        if t.name == "data_cpy":
            continue
        ks = K.of(t.name, t, o.ta, fl)
        if not ks:
            k = "%s: no matching implementation of task %s" % (
                o.title, t.name) if t.name in K.by else \
                "task %s has no CPU implementation" % t.name
            skipped[k] = skipped.get(k, 0) + 1
            continue
        vals = [v for _, v in t.vals]
        for k in ks:
            tiles = {}
            for buf, (mode, pi, _, _) in enumerate(k.b.site.bufs):
                if pi is None:
                    continue
                v = vals[pi]
                if v[0] == "tile" and es.get(v[1]):
                    tiles[buf] = Tile(x, dims, v[1], v[2], es[v[1]])
            relative(tiles)
            ints = tuple(v if isinstance(v, int) else None for v in vals)
            key = (id(k), ints, tuple((i, u.key()) for i, u in tiles.items()),
                   tuple(tuple(u.labels) for u in tiles.values()))
            if key not in cache:
                Rp.count("task variants examined")
                try:
                    cache[key] = examine(k, vals, tiles,
                                         data_ranges(x, dims))
                except Unknown as e:
                    cache[key] = str(e)
            r = cache[key]
            if isinstance(r, str):
                kk = "%s: %s" % (k.b.describe(), r)
                skipped[kk] = skipped.get(kk, 0) + 1
                continue
            bad, touched = r
            Rp.ob(bad is None)
            if bad is not None:
                Rp.violation(
                    "%s/%s %s %s" % (x.op.key(), t.name, bad[0], bad[3]),
                    "%s: task %s %s (%s; tiles per dimension %s)" % (
                        o.title, k.b.describe(), bad[1], cshow(x.c),
                        dshow(dims)), bad[2] or where(o.L.ws, o.f))
                return
            for a in k.skipped:
                kk = "%s: an access to buffer %d has no closed form" % (
                    k.b.codelet.name, a.buf)
                skipped[kk] = skipped.get(kk, 0) + 1
            sk = {a.buf for a in k.skipped}
            if t.name in FILLS and x.op.name != t.name:
                continue
            for (buf, kind), s in touched.items():
                u = tiles.get(buf)
                if u is None or buf in sk:
                    continue
                c = cover.setdefault((u.X, u.comps, kind, t.name, id(k)),
                                     (u, set(), k))
                c[1].update(s)
    for (X, comps, kind, name, _), (u, s, k) in cover.items():
        ok = len(s) == u.n
        Rp.ob(ok)
        if not ok:
            Rp.violation(
                "%s/%s partial %s %s" % (x.op.key(), name, kind, X),
                "%s: tasks %s %s only %d of the %d elements of tile %s (%s; "
                "tiles per dimension %s)" % (
                    o.title, k.b.describe(),
                    "write" if kind == "w" else "read", len(s), u.n,
                    u.show(), cshow(x.c), dshow(dims)), where(o.L.ws, o.f))


CHECKS = {"C14": c14}
