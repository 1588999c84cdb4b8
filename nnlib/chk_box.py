"""C51: copies between differently tiled tensors; C52: random tensors.

The operations are interpreted abstractly (cxxi).  Elements of buffers are
symbols named by their offsets, so that what an operation leaves in a buffer
says where every element came from."""
import itertools
import math
import re

from . import cxxi
from .build import AnalysisBroken
from .chk_core import Core, Ctrl_of, World, feasible, fld, ref, vec
from .cxxi import C, Cell, Flt, GiveUp, Mem, Ptr, Shared, Struct, Tok, Unk, \
    Vect, paths
from .poly import Poly

WORD = 1 << 64
LCG_A, LCG_C = 6364136223846793005, 1


def const(p):
    return p.is_const() and p.cval()


def polys(v):
    return [c.v for c in v.items]


def name_of(f):
    return "%s<%s>" % (f["q"].replace("nntile::", "", 1),
                       ", ".join(x.replace("nntile::", "")
                                 for x in f.get("ta") or []))


def functions(K, q):
    return [f for f in K.code.byq.get(q, []) if f.get("body")]


def offsets(start, stride, shape):
    """index -> offset, first index fastest"""
    for idx in itertools.product(*[range(n) for n in reversed(shape)]):
        idx = idx[::-1]
        o = C(0)
        for s, t, i in zip(start, stride, idx):
            o = o + (s + C(i)) * t
        yield idx, o


class Decide:
    """Obligations over the paths of one scenario."""

    def __init__(self, K, R):
        self.K, self.R = K, R
        self.seen = set()

    def run(self, what, sc, world=World, limit=200, stuck=False):
        try:
            ps = paths(self.K.code, sc, limit, world)
        except GiveUp as e:
            self.R.undecided("%s: %s" % (what, e))
            return []
        out = []
        for p in ps:
            if p.kind == "stuck":
                self.R.undecided("%s: %r" % (what, p.val))
                if stuck:
                    out.append(p)
            elif feasible(p):
                out.append(p)
            else:
                self.R.undecided("%s: a path which no small extents take"
                                 % what)
        self.R.count("paths", len(out))
        return out

    def need(self, ok, key, msg, f):
        self.R.ob(bool(ok))
        if not ok and key not in self.seen:
            self.seen.add(key)
            self.R.violation(key, msg, self.K.where(f))
        return ok


# -- the kernel that copies a box ------------------------------------------------
BOXES = {1: [(1,), (2,), (4,)],
         2: [(1, 1), (2, 3), (3, 1), (1, 3), (3, 2)],
         3: [(2, 2, 2), (1, 3, 2), (3, 1, 2), (2, 2, 1), (2, 1, 1)],
         4: [(2, 2, 2, 2), (1, 2, 1, 3), (2, 1, 3, 1), (2, 3, 1, 2)],
         5: [(2, 1, 2, 1, 2), (1, 2, 2, 2, 2)]}


def starts(it, name, n):
    out = []
    for i in range(n):
        a = "%s%d" % (name, i)
        it.facts.nn.add(a)
        out.append(Poly.atom(a))
    return out


def strides(it, name, n):
    out = [C(1)]
    for i in range(1, n):
        a = "%s%d" % (name, i)
        it.facts.pos.add(a)
        out.append(Poly.atom(a))
    return out[:n]


def pointer(v, i=0):
    return Ptr(None, v, C(i))


def garbage(n):
    return Vect("long", [Cell(Unk("scratch")) for _ in range(n)])


# starting indices of the source and the destination box
CORNERS = [(2, 1), (1, 3), (3, 1), (1, 2), (2, 1)]


def subcopy(D, f, tier):
    for n in range(1, 5 if tier == "quick" else 6):
        for shape in BOXES[n]:
            for fixed in (False, True):
                u = len(D.R.undec)
                box_copy(D, f, n, shape, fixed)
                if len(D.R.undec) == u:
                    break
                # once more with given starting indices and strides


WIDTH = {"nntile::fp16_t": 2, "float": 4, "double": 8, "long": 8, "bool": 1}


class KernelWorld(World):
    """memcpy between buffers; other calls may not be given buffers."""

    def call(self, it, name, args, e):
        n = name.rsplit("::", 1)[-1]
        bufs = [a for a in args if isinstance(a, Ptr) and isinstance(a.vec, Mem)]
        if n in ("memcpy", "memmove", "__builtin_memcpy") and len(args) == 3 \
                and len(bufs) == 2:
            z = WIDTH.get((it.stack[0].get("ta") or [""])[0])
            b = it.facts.norm(args[2])
            if not z or not b.is_const() or b.cval() % z:
                raise GiveUp("bytes copied by %s" % n)
            vs = [args[1].vec.cell(it.facts.norm(args[1].i + C(k))).v
                  for k in range(b.cval() // z)]
            for k, v in enumerate(vs):
                args[0].vec.cell(it.facts.norm(args[0].i + C(k))).v = v
            return args[0]
        if bufs:
            raise GiveUp("call of " + name)
        return super().call(it, name, args, e)


def box_copy(D, f, n, shape, fixed):
    what = "%s, box %s" % (name_of(f), "x".join(map(str, shape)))

    def sc(it):
        s = {k: starts(it, k, n) for k in ("a", "b")}
        s["s"], s["t"] = strides(it, "s", n), strides(it, "t", n)
        if fixed:
            for k, m, i in (("a", "s", 0), ("b", "t", 1)):
                s[k] = [C(x[i]) for x in CORNERS[:n]]
                s[m] = [C(x) for x in colstride(
                    [y + x[i] + i for x, y in zip(CORNERS, shape)])]
        s["src"], s["dst"] = Mem("src"), Mem("dst")
        s["tmp"] = garbage(2 * n)
        by = {"ndim": C(n), "src": pointer(s["src"]),
              "dst": pointer(s["dst"]), "tmp_index": pointer(s["tmp"])}
        vs = {"src_start": s["a"], "dst_start": s["b"],
              "src_stride": s["s"], "dst_stride": s["t"],
              "copy_shape": [C(x) for x in shape]}
        names = ["ndim", "src_start", "src_stride", "copy_shape", "src",
                 "dst_start", "dst_stride", "dst", "tmp_index"]
        args = []
        for k in names:
            args.append(by[k] if k in by else pointer(vec(vs[k])))
        if len(f["ps"]) != len(args):
            raise GiveUp("parameters of subcopy")
        it.info = s
        return it.run(f, None, args)
    for p in D.run(what, sc, KernelWorld, stuck=fixed):
        if p.kind == "stuck":
            for ok, w, line, fn, i, m in p.oob:
                if not ok and isinstance(i, Poly) and i.is_const():
                    D.need(False, "%s:scratch" % f["q"], "%s: %s of "
                           "the scratch buffer" % (what, w), f)
            continue
        D.R.count("boxes copied")
        s = p.it.info
        got = {}
        for k, c in s["dst"].cells.items():
            if c.v is not s["dst"].first[k]:
                got[k] = c.v
        key = "%s:%s" % (f["q"], "x".join(map(str, shape)))
        if any(not isinstance(v, Mem.Elem) for v in got.values()):
            D.R.undecided("%s: stored values are not elements of the "
                          "source" % what)
            continue
        want = {}
        for (idx, o), (_, q) in zip(
                offsets(s["b"], s["t"], shape),
                offsets(s["a"], s["s"], shape)):
            want[str(o)] = (idx, q)
        bad = None
        for k, (idx, q) in want.items():
            v = got.get(k)
            if v is None:
                bad = "element %s of the box is not copied" % (idx,)
            elif v.mem is not s["src"] or v.off != q:
                bad = "element %s of the box is copied from %r, not " \
                    "from src[%s]" % (idx, v, q)
            if bad:
                break
        more = [k for k in got if k not in want]
        if not bad and more:
            bad = "dst[%s], outside of the box, is overwritten" % more[0]
        D.need(bad is None, key, "%s: %s" % (what, bad), f)
        for ok, w, line, fn, i, m in p.oob:
            D.need(ok, key + ":scratch", "%s: %s of the scratch buffer"
                   % (what, w), f)
        x = [k for k in s["src"].cells if k not in
             {str(q) for _, q in want.values()}]
        D.need(not x, key + ":reads", "%s reads src[%s], which is "
               "outside of the box" % (what, x[:1]), f)


# -- operations -----------------------------------------------------------------
def tensor(K, it, cls, shape, base):
    tr = it.run(K.fn("mk_tensor"), None, [ref(vec(shape)), ref(vec(base))])
    n = 1
    for s, b in zip(shape, base):
        s, b = (x.cval() if isinstance(x, Poly) and x.is_const() else x
                for x in (s, b))
        if isinstance(s, int) and isinstance(b, int):
            n *= -(-s // b)
        else:
            n = None
            break
    if n is None:
        n = const(it.facts.norm(fld(fld(tr, "grid"), "nelems")))
    v = Struct(cls)
    ks = [k for k in K.code.ctors.get(cls, []) if len(k["ps"]) == 3]
    if len(ks) != 1:
        raise GiveUp("constructor of " + cls)
    it.construct(v, cls, ks[0], [Cell(tr), Cell(vec([0] * n, "int")),
                                 Cell(C(0))])
    return v


def tile(K, it, cls, shape, name):
    tr = it.run(K.fn("mk_tile"), None, [ref(vec(shape))])
    v = Struct(cls)
    v.f.update(tr.f)
    v.f[("Handle", "handle")] = Cell(Shared(Ctrl_of(name)))
    return v


def handles(v):
    """Handles an object holds."""
    if isinstance(v, Cell):
        v = v.v
    if isinstance(v, Struct):
        for c in v.f.values():
            yield from handles(c)
    elif isinstance(v, Vect):
        for c in v.items:
            yield from handles(c)
    elif isinstance(v, Shared) and v.ctrl is not None:
        if isinstance(v.ctrl.ptr, Tok):
            yield v.ctrl.ptr
    elif isinstance(v, Tok):
        yield v


def handle(v):
    hs = list(handles(v))
    return hs[0] if len(hs) == 1 else None


def snap(a):
    a = a.v if isinstance(a, Cell) else a
    if isinstance(a, Vect):
        return [c.v for c in a.items]
    if isinstance(a, (Struct, Shared)):
        h = list(handles(a))
        return h[0] if h else None
    return a


def hook(w, it, name, args, e):
    n = name.rsplit("::", 1)[-1]
    if name.startswith("nntile::starpu::") and n == "submit":
        it.tasks.append((name.split("::")[-2], [snap(a) for a in args], e))
        return None
    if n in ("starpu_task_insert", "starpu_task_submit"):
        raise GiveUp("task submitted without the task layer")
    if n == "starpu_data_cpy":
        it.tasks.append(("data_cpy", [snap(a) for a in args[:2]], e))
        return C(0)
    if n.startswith("starpu_mpi_") and e.get("t", "void") == "int":
        return C(0)
    if n.startswith("starpu_mpi_"):
        return None if e.get("t", "void") == "void" else NotImplemented
    return NotImplemented


class OpWorld(World):
    def intercept(self, it, k, o, e):
        if k["q"].startswith("nntile::starpu::") and k["n"] == "submit":
            hook(self, it, k["q"], it.args(k, e["a"]), e)
            return Cell(Unk("void"))
        return NotImplemented

    def hook(self, it, name, args, e):
        return hook(self, it, name, args, e)


def grid(shape, base):
    """Tiles as (origin, shape), first index fastest."""
    per = [[(i, min(b, s - i)) for i in range(0, s, b)]
           for s, b in zip(shape, base)]
    for x in itertools.product(*reversed(per)):
        x = x[::-1]
        yield tuple(a for a, _ in x), tuple(n for _, n in x)


def colstride(shape):
    out, n = [], 1
    for s in shape:
        out.append(n)
        n *= s
    return out


class Problem(Exception):
    pass


def numbers(xs):
    out = []
    for x in xs:
        if not isinstance(x, Poly) or not x.is_const():
            raise GiveUp("argument %r" % (x,))
        out.append(x.cval())
    return out


def simulate(K, p, src, dst, so, do):
    """Contents of the destination: tile -> element -> global source index."""
    where = {}
    for tag, t, off in (("src", src, so), ("dst", dst, do)):
        for h, (o, sh) in zip(t["handles"], t["tiles"]):
            where[id(h)] = (tag, tuple(a + b for a, b in zip(o, off)), sh)
    val = {}

    def find(h, tag, what):
        if h is None or id(h) not in where:
            raise Problem("%s is given a buffer that is no tile of %s"
                          % (what, tag))
        w = where[id(h)]
        if w[0] != tag:
            raise Problem("%s is given a tile of %s as %s" % (what, w[0], tag))
        return w
    modes = K.modes
    for name, a, e in p.it.tasks:
        if name in ("data_cpy", "copy"):
            s, d = (a[1], a[0]) if name == "data_cpy" else (a[0], a[1])
            _, os_, ss = find(s, "src", name)
            _, od, sd = find(d, "dst", name)
            if ss != sd:
                raise Problem("%s between tiles of different sizes %s and %s"
                              % (name, ss, sd))
            new = {}
            for idx in itertools.product(*[range(n) for n in ss]):
                new[idx] = tuple(x + y for x, y in zip(os_, idx))
            val[id(d)] = new
            continue
        if name != "subcopy":
            raise GiveUp("task " + name)
        n, ss, st, ds, dt, cs, sh, dh, tmp, mode = a
        n = numbers([n])[0]
        ss, st, ds, dt, cs = map(numbers, (ss, st, ds, dt, cs))
        if {len(x) for x in (ss, st, ds, dt, cs)} != {n}:
            raise Problem("subcopy is given vectors whose lengths differ from "
                          "its number of dimensions")
        _, os_, hs = find(sh, "src", name)
        _, od, hd = find(dh, "dst", name)
        for what, start, stride, shape in (("source", ss, st, hs),
                                           ("destination", ds, dt, hd)):
            for d in range(n):
                if start[d] < 0 or cs[d] < 1 or start[d] + cs[d] > shape[d]:
                    raise Problem(
                        "the box of elements %s to %s along dimension %d is "
                        "outside of the %s tile of shape %s" % (
                            start[d], start[d] + cs[d] - 1, d, what,
                            list(shape)))
                if shape[d] > 1 and stride[d] != colstride(shape)[d]:
                    raise Problem("wrong strides %s of a %s tile of shape %s"
                                  % (stride, what, list(shape)))
        m = numbers([mode])[0]
        full = all(c == x for c, x in zip(cs, hd))
        if m == modes["STARPU_W"]:
            if not full:
                # the rest of the tile is undefined
                val[id(dh)] = {i: None for i in itertools.product(
                    *[range(x) for x in hd])}
        elif m != modes["STARPU_RW"]:
            raise Problem("subcopy is submitted with access mode %d" % m)
        size = tmp.info.get("reg") if isinstance(tmp, Tok) else None
        if size and tmp not in (sh, dh):
            b = size[-1]
            if isinstance(b, Poly) and b.is_const() and b.cval() < 16 * n:
                raise Problem("a scratch buffer of %d bytes for %d dimensions"
                              % (b.cval(), n))
        cur = val.setdefault(id(dh), {})
        for idx in itertools.product(*[range(c) for c in cs]):
            cur[tuple(x + y for x, y in zip(ds, idx))] = tuple(
                o + x + y for o, x, y in zip(os_, ss, idx))
    return val


def judge(K, p, src, dst, so, do):
    """None or what is wrong with the copied elements."""
    try:
        val = simulate(K, p, src, dst, so, do)
    except Problem as e:
        return str(e)
    lo = so
    hi = tuple(a + b for a, b in zip(so, src["shape"]))
    for h, (o, sh) in zip(dst["handles"], dst["tiles"]):
        cur = val.get(id(h), {})
        for idx in itertools.product(*[range(n) for n in sh]):
            g = tuple(a + b + c for a, b, c in zip(o, do, idx))
            inside = all(a <= x < b for a, x, b in zip(lo, g, hi))
            v = cur.get(idx, "old")
            at = tuple(a + b for a, b in zip(o, idx))
            if inside and v == "old":
                return "element %s of the destination is not copied" % (
                    list(at),)
            if inside and v is None:
                return "element %s of the destination is lost (write-only " \
                    "access of a tile that is only partly overwritten)" % (
                        list(at),)
            if inside and v != g:
                return "element %s of the destination is copied from element "\
                    "%s of the source, not %s" % (list(at), [
                        a - b for a, b in zip(v, so)], [
                            a - b for a, b in zip(g, so)])
            if not inside and v != "old":
                return "element %s of the destination, outside of the " \
                    "intersection, is %s" % (
                        list(at), "lost (write-only access of a tile that is "
                        "only partly overwritten)" if v is None
                        else "overwritten")
    return None


def operand(K, it, kind, cls, shape, base, name):
    if kind == "tile":
        v = tile(K, it, cls, [C(x) for x in shape], name)
        base = shape
    else:
        v = tensor(K, it, cls, [C(x) for x in shape], [C(x) for x in base])
    hs = list(handles(v))
    ts = list(grid(shape, base))
    if len(hs) != len(ts):
        raise GiveUp("tiles of " + name)
    return v, {"shape": tuple(shape), "handles": hs, "tiles": ts}


def one_copy(K, f, kind, case):
    """(paths, problem) of one tiling; raises GiveUp."""
    (s, sb, so), (d, db, do) = case

    def sc(it):
        it.tasks = []
        w = it.world
        cls = cxxi.bare(f["ps"][0]["t"])
        a, A = operand(K, it, kind, cls, s, sb, "src")
        b, B = operand(K, it, kind, cls, d, db, "dst")
        args = []
        vs = {"src": a, "dst": b, "src_offset": vec(list(so)),
              "dst_offset": vec(list(do))}
        order = ["src", "src_offset", "dst", "dst_offset"]
        if len(f["ps"]) == 2:
            order = ["src", "dst"]
        elif len(f["ps"]) == 5:
            order.append("scratch")
            vs["scratch"] = tile(K, it, cxxi.bare(f["ps"][4]["t"]),
                                 [C(2 * len(s)) if s else C(1)], "scratch")
        elif len(f["ps"]) != 4:
            raise GiveUp("parameters")
        for k, prm in zip(order, f["ps"]):
            args.append(Cell(vs[k]) if cxxi.is_ref(prm["t"]) else vs[k])
        for h in w.handles:
            h.info["unreg"] = ["given"]
        w.handles = []
        it.info = (A, B)
        return it.run(f, None, args)
    ps = [p for p in paths(K.code, sc, 50, OpWorld)]
    probs = []
    for p in ps:
        if p.kind == "stuck":
            raise GiveUp("%r" % (p.val,))
        if not hasattr(p.it, "info"):
            raise GiveUp("operands cannot be built")
        if p.kind == "throw":
            probs.append("a valid combination of tensors is rejected")
            continue
        bad = [o for o in p.oob if not o[0]]
        if bad:
            probs.append("%s (%s)" % (bad[0][1], bad[0][3]))
            continue
        b = judge(K, p, p.it.info[0], p.it.info[1], tuple(so), tuple(do))
        if b:
            probs.append(b)
    return len(ps), probs


def line(n):
    """All tilings of 1 to n elements."""
    return [(s, b) for s in range(1, n + 1) for b in range(1, s + 1)]


def cases_line(n):
    for (s, sb), (d, db) in itertools.product(line(n), repeat=2):
        for o in range(-d, s + 1):
            yield ((s,), (sb,), (1 if o < 0 else 0,)), \
                ((d,), (db,), ((1 if o < 0 else 0) + o,))


# (source, its tile, destination, its tile, offset of the destination)
DIMS = [(5, 2, 5, 3, 0), (4, 2, 4, 2, 0), (5, 2, 4, 2, 1), (3, 3, 5, 2, -1),
        (6, 2, 2, 1, 2), (2, 1, 6, 4, -2), (5, 5, 3, 2, 1), (4, 4, 4, 4, 0),
        (3, 2, 3, 2, 2), (1, 1, 4, 3, -3)]


def cases_box(r, pick):
    k = 0
    for ds in itertools.product(DIMS, repeat=r):
        k += 1
        if k % pick:
            continue
        yield tuple(zip(*[(s, sb, 1 if o < 0 else 3) for s, sb, d, db, o in ds])
                    ), tuple(zip(*[(d, db, (1 if o < 0 else 3) + o)
                                   for s, sb, d, db, o in ds]))


def cases_whole(r, dims):
    for ds in itertools.product(dims, repeat=r):
        s, b = zip(*ds) if ds else ((), ())
        yield s, b


def copies(D, f, kind, op, tier):
    thorough = tier == "thorough"
    if op == "copy_intersection":
        cs = [(((), (), ()), ((), (), ()))]
        if kind == "tensor":
            cs += cases_line(7 if thorough else 5)
            cs += cases_box(2, 1 if thorough else 3)
            cs += cases_box(3, 11 if thorough else 83)
        else:
            cs += [c for c in cases_line(6 if thorough else 5)
                   if c[0][0] == c[0][1] and c[1][0] == c[1][1]]
            cs += cases_box(2, 1 if thorough else 2)
            cs += cases_box(3, 11 if thorough else 53)
    else:
        z = (0,)
        cs = []
        ds = [(1, 1), (3, 1), (4, 2), (5, 2), (3, 3), (5, 3)]
        for r in range(4 if thorough else 3):
            cs += [((s, s, z * r), (s, b, z * r))
                   for s, b in cases_whole(r, ds)]
        cs += [((s, s, z * 3), (s, b, z * 3)) for s, b in (
            ((2, 3, 2), (1, 2, 1)), ((3, 2, 3), (2, 2, 2)),
            ((4, 3, 2), (2, 1, 2)))]
        if op == "gather":
            cs = [(b, a) for a, b in cs]
    n = 0
    for case in cs:
        what = "%s, source %s in tiles of %s, destination %s in tiles of %s" % (
            name_of(f), *["x".join(map(str, x)) or "scalar" for x in (
                case[0][0], case[0][1], case[1][0], case[1][1])])
        if op == "copy_intersection":
            what += ", offsets %s and %s" % (list(case[0][2]), list(case[1][2]))
        try:
            m, probs = one_copy(D.K, f, kind, case)
        except GiveUp as e:
            D.R.undecided("%s: %s" % (what, e))
            n += 1
            if n > 20:
                D.R.undecided("%s: given up" % name_of(f))
                return
            continue
        D.R.count("%s tilings" % op)
        D.need(not probs, f["q"], "%s: %s" % (what, "; ".join(probs[:1])), f)


# -- the task layer of the two operations ------------------------------------------
# keys that say nothing about values and buffers
PLAIN = ["STARPU_FLOPS", "STARPU_PRIORITY", "STARPU_NAME", "STARPU_TAG_ONLY",
         "STARPU_TASK_FILE", "STARPU_TASK_LINE"]
TASK_MODES = 7        # bits of an access mode that say what is read and written


class TaskWorld(World):
    """Submission: one task with the values copied into it and its buffers."""

    def intercept(self, it, k, o, e):
        if k["q"].endswith("starpu::Codelet::init") and o is not None:
            fs = [it.rd(it.ev(x)) for x in e["a"]]
            it.inits.append((o, fs))
            return None
        return NotImplemented

    def call(self, it, name, args, e):
        if name.rsplit("::", 1)[-1] in ("starpu_task_insert",
                                        "starpu_insert_task"):
            it.tasks.append(task_of(it, args, e))
            st = it.fresh("insert")
            if it.choose(("fails", st, e.get("l"))):
                it.facts.add_ge(st * C(-1) - C(1))
            else:
                it.facts.add_eq(st)
            return st
        return super().call(it, name, args, e)


def task_of(it, args, e):
    """(codelet cell, [(values, bytes)], [(mode, handle)])"""
    M = it.keys
    if not args or not isinstance(args[0], Ptr) or args[0].cell is None:
        raise GiveUp("codelet of a task")
    vals, bufs = [], []
    i = 1
    while i < len(args):
        k = it.facts.norm(args[i]) if isinstance(args[i], Poly) else None
        if k is None or not k.is_const():
            raise GiveUp("key of a task argument")
        k = k.cval()
        if k == 0:
            break
        if k == M["STARPU_VALUE"]:
            p, z = args[i + 1], args[i + 2]
            z = it.facts.norm(z) if isinstance(z, Poly) else None
            if not isinstance(p, Ptr) or z is None or not z.is_const():
                raise GiveUp("packed value")
            z = z.cval()
            if p.vec is None:
                vals.append((p.cell.v, z))
            else:
                b = it.facts.norm(p.i)
                if not isinstance(p.vec, Vect) or not b.is_const() or \
                        p.vec.et not in ("long", "nntile::Index") or z % 8:
                    raise GiveUp("packed array")
                b = b.cval()
                vals.append(([c.v for c in p.vec.items[b:b + z // 8]], z))
            i += 3
        elif 0 < k & TASK_MODES and k < M["STARPU_VALUE"]:
            h = args[i + 1]
            if isinstance(h, Struct):
                h = handle(h)
            if not isinstance(h, Tok):
                raise GiveUp("handle of a task")
            bufs.append((k & TASK_MODES, h))
            i += 2
        elif k in [M[x] for x in PLAIN]:
            i += 2
        else:
            raise GiveUp("task argument with key %d" % k)
    return args[0].cell, vals, bufs, e


class ImplWorld(World):
    """An implementation is given the values and buffers of a task."""

    def intercept(self, it, k, o, e):
        n = k["n"]
        if n == "unpack_args_ptr":
            cl = it.rd(it.ev(e["a"][0]))
            if cl is not it.info["cl"]:
                raise GiveUp("unpacked block")
            vals = it.info["vals"]
            for (v, z), x in zip(vals, e["a"][1:]):
                it.lv(x).v = v
            if len(e["a"]) - 1 > len(vals):
                raise GiveUp("more values unpacked than packed")
            return Cell(Unk("void"))
        if n == "get_ptr" and o is not None and isinstance(o.v, Tok) and \
                "buffer" in o.v.info:
            return Cell(o.v.info["mem"])
        if k["q"] in it.info["kernels"]:
            it.info["calls"].append((k["q"], [
                a.v if isinstance(a, Cell) else a
                for a in it.args(k, e["a"])]))
            return Cell(Unk("void"))
        return NotImplemented

    def call(self, it, name, args, e):
        if name in it.info["kernels"]:
            it.info["calls"].append((name, args))
            return None
        raise GiveUp("call of " + name)


def task_layer(D, f, spec, n, modes):
    """A submitted task makes its implementation call the kernel with the
    values and buffers that were submitted."""
    K, R = D.K, D.R
    what = "%s, %d dimensions" % (name_of(f), n)
    ns = f["q"].rsplit("::", 1)[0]
    keys = dict(K.modes)
    keys.update(K.ws.constants(["STARPU_VALUE"] + PLAIN))
    inits = [g for g in functions(K, ns + "::init") if not g["ps"]]
    if len(inits) != 1:
        R.undecided("%s: no init" % what)
        return

    def sc(it):
        it.floats = True
        it.tasks, it.inits, it.keys = [], [], keys
        it.run(inits[0], None, [])
        args, by = [], {}
        if len(f["ps"]) != len(spec["submit"]):
            raise GiveUp("parameters of submit")
        for (name, kind), q in zip(spec["submit"], f["ps"]):
            if kind == "vec":
                v = [Poly.atom("%s%d" % (name, i)) for i in range(n)]
                by[name] = v
                v = vec(v)
            elif kind == "handle":
                t = Tok("handle " + name, acq=0, gen=0, unreg=["given"])
                by[name] = t
                v = Struct("nntile::starpu::Handle")
                v.f[("Handle", "handle")] = Cell(Shared(Ctrl_of(name)))
                t = list(handles(v))[0]
                by[name] = t
            elif kind == "float":
                v = by[name] = Flt("arg", name)
            elif kind == "mode":
                v = by[name] = C(modes)
            elif name == "ndim":
                v = by[name] = C(n)
            else:
                v = by[name] = Poly.atom(name)
            args.append(Cell(v) if cxxi.is_ref(q["t"]) else v)
        it.info = by
        return it.run(f, None, args)
    for p in D.run(what, sc, TaskWorld, limit=50):
        if p.kind != "ret":
            continue
        by = p.it.info
        R.count("submissions")
        if not D.need(len(p.it.tasks) == 1, f["q"] + ":tasks", "%s: %d tasks "
                      "are submitted" % (what, len(p.it.tasks)), f):
            continue
        cell, vals, bufs, e = p.it.tasks[0]
        for name, want in spec["access"].items():
            if n == 0 and name == spec["scratch"]:
                continue
            want = by[want].cval() if want in by else keys[want]
            got = [m for m, h in bufs if h is by[name]]
            D.need(got == [want], "%s:access:%s" % (f["q"], name), "%s: the "
                   "buffer %s is accessed with modes %s, not %d" % (
                       what, name, got, want), f)
        impl = None
        for c, fs in p.it.inits:
            if c is cell:
                fns = [x for y in fs for x in functions_in(y)]
                fns = [K.code.fns.get(x.m) for x in fns]
                fns = [x for x in fns if x and len(x["ps"]) == 2]
                impl = fns[0] if len(fns) == 1 else None
        if impl is None or not impl.get("body"):
            R.undecided("%s: implementation of the task" % what)
            continue
        one_impl(D, f, what, spec, impl, by, vals, bufs, n, p.facts)


def functions_in(v, depth=0):
    if isinstance(v, Cell):
        v = v.v
    if isinstance(v, cxxi.Fn):
        yield v
    elif isinstance(v, Vect):
        for c in v.items:
            yield from functions_in(c, depth + 1)
    elif isinstance(v, Struct) and depth < 6:
        for c in v.f.values():
            yield from functions_in(c, depth + 1)
    elif isinstance(v, (list, tuple)):
        for c in v:
            yield from functions_in(c, depth + 1)


def one_impl(D, f, what, spec, impl, by, vals, bufs, n, facts):
    K, R = D.K, D.R
    kerns = [spec[k] for k in ("kernel", "scalar") if k in spec]
    kname, order = kerns[-1 if n == 0 else 0]

    def sc(it):
        it.floats = True
        it.info = {"cl": Tok("cl_args", "void *"), "kernels": [k for k, _ in kerns],
                   "calls": [], "vals": [], "mem": []}
        for v, z in vals:
            if isinstance(v, list):
                w = vec(v)
                it.info["vals"].append((Ptr(None, w, C(0)), z))
            else:
                it.info["vals"].append((Ptr(Cell(v)), z))
        cells = []
        for i, (m, h) in enumerate(bufs):
            mem = Tok("memory#%d" % i, "void *", of=h)
            cells.append(Cell(Ptr(Cell(Tok("interface#%d" % i, buffer=i,
                                           mem=mem)))))
        return it.run(impl, None, [Ptr(None, Vect("void *", cells), C(0)),
                                   it.info["cl"]])
    for p in D.run("%s, %s" % (what, name_of(impl)), sc, ImplWorld, limit=50):
        if p.kind != "ret":
            continue
        calls = p.it.info["calls"]
        if len(calls) != 1:
            R.undecided("%s: %s calls the kernel %d times" % (
                what, name_of(impl), len(calls)))
            continue
        R.count("kernel calls composed")
        called, a = calls[0]
        if called != kname:
            # the element of a scalar is the first of the sequence
            if n and any(facts.decide_eq(x) is not True
                         for x in by.get("start", [C(0)])):
                D.need(False, f["q"] + ":kernel", "%s: the task runs %s, which "
                       "takes no starting index" % (what, called), f)
            else:
                R.undecided("%s: the task runs %s" % (what, called))
            continue
        if len(a) != len(order):
            R.undecided("%s: arguments of the kernel" % what)
            continue
        for name, x in zip(order, a):
            want = by[name]
            if isinstance(want, list):
                if isinstance(x, Ptr) and x.vec is not None and isinstance(
                        x.i, Poly) and isinstance(x.vec, Vect):
                    b = p.facts.norm(x.i)
                    got = [c.v for c in x.vec.items[b.cval():]] \
                        if b.is_const() else None
                else:
                    got = None
                if got is None:
                    R.undecided("%s: argument %s of the kernel" % (what, name))
                    continue
                ok = len(got) >= n and all(g == w for g, w in zip(got, want))
            elif isinstance(want, Tok):
                if not isinstance(x, Tok) or "of" not in x.info:
                    R.undecided("%s: argument %s of the kernel" % (what, name))
                    continue
                ok = x.info["of"] is want
                got = x.info["of"]
            elif isinstance(want, Flt):
                if not isinstance(x, Flt):
                    R.undecided("%s: argument %s of the kernel" % (what, name))
                    continue
                ok, got = (x.op, x.a) == (want.op, want.a), x
            else:
                if not isinstance(x, Poly):
                    R.undecided("%s: argument %s of the kernel" % (what, name))
                    continue
                got = p.facts.norm(x)
                ok = got == want
            D.need(ok, "%s:argument:%s" % (f["q"], name), "%s: the kernel is "
                   "given %s as %s" % (what, got, name), f)
        for (v, z), name in sized(vals, by):
            least = 8 * n if isinstance(v, list) else None
            if least is not None:
                D.need(z >= least, "%s:bytes:%s" % (f["q"], name), "%s: %d "
                       "bytes of %s are packed, not %d" % (
                           what, z, name, least), f)


def sized(vals, by):
    for v, z in vals:
        for name, w in by.items():
            if isinstance(v, list) and isinstance(w, list) and v and \
                    v == w[:len(v)]:
                yield (v, z), name


SUBCOPY = {
    "submit": [("ndim", "int"), ("src_start", "vec"), ("src_stride", "vec"),
               ("dst_start", "vec"), ("dst_stride", "vec"),
               ("copy_shape", "vec"), ("src", "handle"), ("dst", "handle"),
               ("tmp_index", "handle"), ("mode", "mode")],
    "access": {"src": "STARPU_R", "dst": "mode", "tmp_index": "STARPU_SCRATCH"},
    "scratch": "tmp_index",
    "kernel": ("nntile::kernel::subcopy::cpu", [
        "ndim", "src_start", "src_stride", "copy_shape", "src", "dst_start",
        "dst_stride", "dst", "tmp_index"])}
RANDN = {
    "submit": [("ndim", "int"), ("nelems", "int"), ("seed", "int"),
               ("mean", "float"), ("stddev", "float"), ("start", "vec"),
               ("shape", "vec"), ("stride", "vec"),
               ("underlying_shape", "vec"), ("data", "handle"),
               ("tmp_index", "handle")],
    "access": {"data": "STARPU_W", "tmp_index": "STARPU_SCRATCH"},
    "scratch": "tmp_index",
    "scalar": ("nntile::kernel::randn::cpu_ndim0",
               ["seed", "mean", "stddev", "data"]),
    "kernel": ("nntile::kernel::randn::cpu", [
        "ndim", "nelems", "seed", "mean", "stddev", "start", "shape",
        "underlying_shape", "data", "stride", "tmp_index"])}


def tasks(D, q, spec, ranks, modes):
    for f in functions(D.K, q):
        D.R.count("submitting functions")
        for n in ranks:
            for m in modes:
                with D.R.guard("%s %d" % (name_of(f), n)):
                    task_layer(D, f, spec, n, m)


OPS = [("tensor", "scatter"), ("tensor", "gather"),
       ("tensor", "copy_intersection"), ("tile", "copy_intersection")]


def c51(R):
    ws = Core().ws
    units = [ws.repo / ("src/%s/%s.cc" % (k, o)) for k, o in OPS]
    kern = ws.repo / "src/kernel/subcopy/cpu.cc"
    layer = ws.repo / "src/starpu/subcopy.cc"
    for u in units + [kern, layer]:
        if not u.exists():
            raise AnalysisBroken("no %s" % u)
    K = Core(extra=units + [kern])
    D = Decide(K, R)
    R.rule("box", "the kernel that copies a box of elements stores in every "
           "element of the destination box the element of the source box with "
           "the same index, touches nothing else, and keeps its indices within "
           "the scratch buffer")
    R.rule("elements", "after the tasks of the operation every element of the "
           "destination inside the intersection holds the source element with "
           "the same global index, and every other element its old value")
    R.rule("task", "a submitted box copy accesses the source with STARPU_R, "
           "the destination with the caller's mode and its buffer of indices "
           "as scratch, and its implementation gives the kernel the submitted "
           "starts, strides, shape and buffers")
    L = Decide(Core(extra=[layer]), R)
    for m in ("STARPU_W", "STARPU_RW"):
        tasks(L, "nntile::starpu::subcopy::submit", SUBCOPY,
              (1, 3) if R.tier == "quick" else (1, 2, 3, 4, 5), [K.modes[m]])
    fs = functions(K, "nntile::kernel::subcopy::cpu")
    R.count("kernel instances", len(fs))
    for f in fs:
        with R.guard(name_of(f)):
            subcopy(D, f, R.tier)
    for kind, op in OPS:
        fs = functions(K, "nntile::%s::%s_async" % (kind, op))
        R.count("operations", 1 if fs else 0)
        R.count("operation instances", len(fs))
        # instances differ in the element type alone
        seen = {}
        for f in fs:
            seen.setdefault(shape_of(f["body"], (f.get("ta") or [None])[0]),
                            []).append(f)
        for fs in seen.values():
            fs.sort(key=lambda f: cxxi.bare(f["ps"][0]["t"])
                    not in K.code.ctors)
            with R.guard(name_of(fs[0])):
                copies(D, fs[0], kind, op, R.tier)
    R.require("kernel instances", 4)
    R.require("boxes copied", 40)
    R.require("operations", 4)
    R.require("scatter tilings", 30)
    R.require("gather tilings", 30)
    R.require("copy_intersection tilings", 500)
    return "other", (
        "Abstract interpretation of the box copy kernel with symbolic starting "
        "indices and strides (boxes of 1 to 4 dimensions with up to 4 elements "
        "each), and of scatter, gather and the intersection copies of tiles and "
        "tensors: the submitted copies are composed into a map from elements "
        "of the destination to elements of the source for every tiling of "
        "small one-dimensional tensors at every offset and a selection of two- "
        "and three-dimensional ones.")


SKIP = {"t", "ft", "m", "l", "id", "st", "cls", "clst", "ta"}


def shape_of(b, t=None):
    """Syntax tree without types: equal for instances of one template with
    argument t."""
    if isinstance(b, dict):
        return tuple((k, shape_of(v, t)) for k, v in sorted(b.items())
                     if k not in SKIP)
    if isinstance(b, list):
        return tuple(shape_of(x, t) for x in b)
    if isinstance(b, str) and t:
        return re.sub(r"\b(Tensor|Tile|\w*submit|\w*async)<%s>" % re.escape(t),
                      r"\1<T>", b)
    return b if not isinstance(b, float) else repr(b)


# -- random tensors ----------------------------------------------------------------
STEP = Poly.atom("STEP")      # one step of the generator
SEED = Poly.atom("seed")
MATHF = {"sqrt": math.sqrt, "log": math.log, "cos": math.cos, "sin": math.sin,
         "exp": math.exp, "fabs": abs, "abs": abs, "log2": math.log2,
         "sqrtf": math.sqrt, "logf": math.log, "cosf": math.cos,
         "log1p": math.log1p}


class RandWorld(KernelWorld):
    """The generator's state is its position in the sequence."""

    fork = True       # follow comparisons of random numbers both ways

    def float_test(self, op, a, b):
        """Comparisons at ordinary values."""
        if self.fork:
            return None
        try:
            return TESTS[op](floatv(a, ORDINARY), floatv(b, ORDINARY))
        except (NoValue, ValueError, OverflowError, ZeroDivisionError):
            return None

    def intercept(self, it, k, o, e):
        if k["q"] in ("std::max", "std::min") and len(e["a"]) == 2:
            a = [it.rd(it.ev(x)) for x in e["a"]]
            if all(isinstance(x, Flt) for x in a):
                return Flt(k["q"][5:], *a)
            return NotImplemented
        if k["q"] == "CORE_rnd64_jump" and len(e["a"]) == 2:
            n, s = [it.rd(it.ev(x)) for x in e["a"]]
            if not isinstance(n, Poly) or not isinstance(s, Poly):
                raise GiveUp("jump by %r" % (n,))
            return s + C(2) * n * STEP
        if k["q"] in ("CORE_slaran", "CORE_dlaran") and len(e["a"]) == 1:
            c = it.deref(it.rd(it.ev(e["a"][0])), e)
            p = c.v
            if not isinstance(p, Poly):
                raise GiveUp("state %r" % (p,))
            c.v = p + STEP
            return Flt("u", p)
        return NotImplemented

    def call(self, it, name, args, e):
        n = name.rsplit("::", 1)[-1]
        if n in MATHF and len(args) == 1 and isinstance(args[0], Flt):
            return Flt(n, args[0])
        if n in ("fmax", "fmin", "fmaxf", "fminf") and all(
                isinstance(a, Flt) for a in args):
            return Flt(n[1:4], *args)
        return super().call(it, name, args, e)


class NoValue(Exception):
    pass


TESTS = {"<": lambda x, y: x < y, ">": lambda x, y: x > y,
         "<=": lambda x, y: x <= y, ">=": lambda x, y: x >= y,
         "==": lambda x, y: x == y, "!=": lambda x, y: x != y}
ORDINARY = {"mean": 1.5, "stddev": 0.75, "u": lambda p: 0.37}


def floatv(x, env):
    if not isinstance(x, Flt):
        raise NoValue("%r" % (x,))
    if x.op == "num":
        return x.a[0]
    if x.op == "arg":
        return env[x.a[0]]
    if x.op == "u":
        return env["u"](x.a[0])
    if x.op == "int":
        if x.a[0].is_const():
            return float(x.a[0].cval())
        raise NoValue("%r" % (x,))
    v = [floatv(y, env) for y in x.a]
    if x.op in MATHF:
        return MATHF[x.op](v[0])
    return {"+": lambda a, b: a + b, "-": lambda a, b: a - b,
            "*": lambda a, b: a * b, "/": lambda a, b: a / b,
            "max": max, "min": min, "neg": lambda a: -a}[x.op](*v)


def draws(x):
    """Positions an expression depends on."""
    if isinstance(x, Flt):
        if x.op == "u":
            yield x.a[0]
        for y in x.a:
            yield from draws(y)


POINTS = [(0.37, 0.81, 1.5, 0.75), (0.02, 0.13, -3.0, 2.5),
          (0.93, 0.55, 0.25, 4.0), (0.5, 0.29, 10.0, 0.125)]


def normal(x, first, tests):
    """Is the value the normal number of two draws from position first?
    None or (rule, problem); raises NoValue."""
    second = first + STEP
    got = list(draws(x))
    if not got:
        if any(t[3] for t in tests):
            raise NoValue("depends on a comparison")
        return "uses no random number"
    for p in got:
        if p not in (first, second):
            return "uses the numbers at position %s of the sequence instead " \
                "of %s" % (show(p), show(first))
    n = 0
    for u1, u2, mean, dev in POINTS:
        env = {"mean": mean, "stddev": dev,
               "u": lambda p: u1 if p == first else u2}
        try:
            if not all(holds(t, env) for t in tests):
                continue
            v = floatv(x, env)
        except (ValueError, OverflowError, ZeroDivisionError):
            return "is undefined for uniform numbers %s and %s" % (u1, u2)
        n += 1
        w = dev * math.sqrt(-2 * math.log(u1)) * math.cos(2 * math.pi * u2) \
            + mean
        if abs(v - w) > 1e-5 * max(1, abs(w)):
            return "is %.6g instead of %.6g for uniform numbers %s and %s, " \
                "mean %s and deviation %s" % (v, w, u1, u2, mean, dev)
    if not n:
        raise NoValue("depends on a comparison")
    return None


def holds(t, env):
    op, a, b, r = t
    try:
        x, y = floatv(a, env), floatv(b, env)
    except NoValue:
        return True
    return TESTS[op](x, y) == bool(r)


def infinite(x, first, tests):
    """Uniform numbers at the ends of their range for which the value is
    infinite or undefined."""
    for u1, u2 in ((0.0, 0.3), (1.0, 0.3), (0.4, 0.0), (0.4, 1.0)):
        env = {"mean": 0.5, "stddev": 2.0,
               "u": lambda p: u1 if p == first else u2}
        try:
            if not all(holds(t, env) for t in tests):
                continue
            v = floatv(x, env)
            if math.isfinite(v):
                continue
        except (ValueError, OverflowError, ZeroDivisionError):
            pass
        return u1, u2
    return None


def show(p):
    q = p.subst({"STEP": C(1), "seed": C(0)})
    return "%s" % (q,)


def lcg(n, x=None):
    """(a, c): n steps of the generator map s to a s + c."""
    a, c = 1, 0
    ba, bc = LCG_A, LCG_C
    while n:
        if n & 1:
            a, c = ba * a % WORD, (ba * c + bc) % WORD
        ba, bc = ba * ba % WORD, (ba * bc + bc) % WORD
        n >>= 1
    return a, c


def affine(p):
    """(a, c) of a state that is affine in the seed, modulo 2^64."""
    a, c = 0, 0
    for m, k in p.t.items():
        if m == ():
            c = k
        elif m == (("seed", 1),) or m == ("seed",):
            a = k
        else:
            raise GiveUp("state %s" % p)
    return a % WORD, c % WORD


JUMPS = [0, 1, 2, 3, 5, 6, 7, 12, 100, 1023, 65537, 10 ** 6, 2 ** 31 - 1,
         2 ** 32, 2 ** 40 + 2 ** 20 + 1] + [1 << k for k in range(4, 62, 6)]


def generator(D, K):
    """Jumps and draws of the generator itself."""
    for f in functions(K, "CORE_rnd64_jump"):
        for n in JUMPS:
            what = "CORE_rnd64_jump by %d" % n

            def sc(it):
                return it.run(f, None, [C(n), SEED])
            for p in D.run(what, sc):
                if p.kind != "ret" or not isinstance(p.val, Poly):
                    D.R.undecided("%s: %r" % (what, p.val))
                    continue
                D.R.count("jumps")
                try:
                    g = affine(p.val)
                except GiveUp as e:
                    D.R.undecided("%s: %s" % (what, e))
                    continue
                D.need(g == lcg(2 * n), "jump", "%s does not skip the uniform "
                       "numbers of %d elements: the state becomes %d s + %d "
                       "instead of %d s + %d" % ((what, n) + g + lcg(2 * n)), f)
    for q in ("CORE_slaran", "CORE_dlaran"):
        for f in functions(K, q):
            def sc(it):
                it.floats = True
                it.info = Cell(SEED)
                return it.run(f, None, [Ptr(it.info)])
            for p in D.run(q, sc):
                D.R.count("draws")
                v = p.it.info.v
                if not isinstance(v, Poly):
                    D.R.undecided("%s: state %r" % (q, v))
                    continue
                D.need(affine(v) == lcg(1), q + ":state", "%s does not advance "
                       "the generator by one step" % q, f)
                x = p.val
                ok = None
                if isinstance(x, Flt) and x.op == "*":
                    nums = [y.a[0] for y in x.a if y.op == "num"]
                    ints = [y.a[0] for y in x.a if y.op == "int"]
                    if nums and ints:
                        ok = ints[0] == SEED and abs(
                            nums[0] * WORD - 1) < 1e-6
                if ok is None:
                    D.R.undecided("%s: value %r" % (q, x))
                else:
                    D.need(ok, q + ":value", "%s does not give the state "
                           "divided by 2^64" % q, f)


def randn(D, f, tier):
    R = D.R
    for n in range(1, 5 if tier == "quick" else 6):
        for shape in BOXES[n]:
            what = "%s, shape %s" % (name_of(f), "x".join(map(str, shape)))

            def sc(it):
                it.floats = True
                it.world.fork = max(shape) == 1
                a = starts(it, "start", n)
                slack = starts(it, "rest", n)
                und = [x + C(y) + z for x, y, z in zip(a, shape, slack)]
                st = ["stride%d" % i for i in range(n)]
                it.facts.pos.update(st)
                st = [Poly.atom(x) for x in st]
                m = Mem("data")
                k = 1
                for x in shape:
                    k *= x
                it.info = (a, und, st, m)
                args = [C(n), C(k), SEED, Flt("arg", "mean"),
                        Flt("arg", "stddev"), pointer(vec(a)),
                        pointer(vec(shape)), pointer(vec(und)), pointer(m),
                        pointer(vec(st)), pointer(garbage(n))]
                if len(f["ps"]) != len(args):
                    raise GiveUp("parameters of randn")
                return it.run(f, None, args)
            for p in D.run(what, sc, RandWorld):
                if p.kind != "ret":
                    continue
                R.count("generated boxes")
                a, und, st, m = p.it.info
                elements(D, f, what, p, m, {
                    str(o): (idx, lin) for (idx, o), lin in zip(
                        offsets([C(0)] * n, st, shape),
                        [linear(a, und, i) for i, _ in offsets(
                            [C(0)] * n, st, shape)])})
                for ok, w, line, fn, i, q in p.oob:
                    D.need(ok, f["q"] + ":scratch", "%s: %s of the scratch "
                           "buffer" % (what, w), f)


def linear(start, und, idx):
    r, u = C(0), C(1)
    for s, n, i in zip(start, und, idx):
        r = r + (s + C(i)) * u
        u = u * n
    return r


def elements(D, f, what, p, m, want):
    """The values stored in a buffer."""
    tests = [e.args for e in p.events if e.name == "float test"]
    got = {k: c.v for k, c in m.cells.items() if c.v is not m.first[k]}
    for k, (idx, lin) in want.items():
        if k not in got:
            D.need(False, f["q"] + ":missing", "%s: element %s is not "
                   "generated" % (what, list(idx)), f)
            continue
        first = SEED + C(2) * lin * STEP
        try:
            bad = normal(got[k], first, tests)
        except NoValue as e:
            D.R.undecided("%s: element %s is %s" % (what, list(idx), e))
            continue
        D.need(bad is None, f["q"] + ":value", "%s: element %s %s" % (
            what, list(idx), bad), f)
        if bad is None:
            u = infinite(got[k], first, tests)
            D.need(u is None, f["q"] + ":finite", "%s: element %s is not "
                   "finite for the uniform numbers %s and %s, which the "
                   "generator gives (zero for the seed 0)" % (
                       (what, list(idx)) + (u or (0, 0))), f)
    more = [k for k in got if k not in want]
    D.need(not more, f["q"] + ":outside", "%s: data[%s], outside of the tile, "
           "is overwritten" % (what, more[:1]), f)


def scalar(D, f):
    what = name_of(f)

    def sc(it):
        it.floats = True
        it.info = Mem("data")
        return it.run(f, None, [SEED, Flt("arg", "mean"), Flt("arg", "stddev"),
                                pointer(it.info)])
    for p in D.run(what, sc, RandWorld):
        if p.kind == "ret":
            D.R.count("generated boxes")
            elements(D, f, what, p, p.it.info, {"0": ((), C(0))})


GRIDS = [(), (1,), (2,), (3,), (1, 1), (2, 1), (2, 2), (3, 2), (2, 3),
         (2, 1, 2), (1, 2, 2), (2, 2, 1)]


def fill(D, f, kind, g):
    """Tasks of a random fill with symbolic extents."""
    K, R = D.K, D.R
    n = len(g)
    what = "%s, %s" % (name_of(f), "%d dimensions" % n if kind == "tile" else
                       "tiles %s" % ("x".join(map(str, g)) or "scalar"))

    def sc(it):
        it.tasks = []
        it.floats = True
        w = it.world
        cls = cxxi.bare(f["ps"][0]["t"])
        b = ["base%d" % i for i in range(n)]
        last = ["last%d" % i for i in range(n)]
        it.facts.pos.update(b + last)
        b, last = [Poly.atom(x) for x in b], [Poly.atom(x) for x in last]
        if kind == "tile":
            shape = b
            v = tile(K, it, cls, shape, "dst")
            tiles = [((C(0),) * n, tuple(b))]
        else:
            for x, y in zip(b, last):
                it.facts.add_ge(x - y)
            shape = [C(k - 1) * x + y for k, x, y in zip(g, b, last)]
            tr = it.run(K.fn("mk_tensor"), None, [ref(vec(shape)),
                                                  ref(vec(b))])
            v = Struct(cls)
            ks = [k for k in K.code.ctors.get(cls, []) if len(k["ps"]) == 3]
            if len(ks) != 1:
                raise GiveUp("constructor of " + cls)
            cnt = 1
            for k in g:
                cnt *= k
            it.construct(v, cls, ks[0], [
                Cell(tr), Cell(vec([0] * cnt, "int")), Cell(C(0))])
            tiles = []
            for idx in itertools.product(*[range(k) for k in reversed(g)]):
                idx = idx[::-1]
                tiles.append((
                    tuple(C(i) * x for i, x in zip(idx, b)),
                    tuple(y if i == k - 1 else x for i, k, x, y in zip(
                        idx, g, b, last))))
        for h in w.handles:
            h.info["unreg"] = ["given"]
        w.handles = []
        start = starts(it, "start", n)
        rest = starts(it, "rest", n)
        und = [x + y + z for x, y, z in zip(start, shape, rest)]
        it.info = (tiles, list(handles(v)), start, und)
        vs = [v, vec(start), vec(und), SEED, Flt("arg", "mean"),
              Flt("arg", "stddev")]
        if len(f["ps"]) != len(vs):
            raise GiveUp("parameters of randn")
        return it.run(f, None, [Cell(x) if cxxi.is_ref(q["t"]) else x
                                for x, q in zip(vs, f["ps"])])
    for p in D.run(what, sc, OpWorld):
        if not hasattr(p.it, "info"):
            R.undecided("%s: operands cannot be built" % what)
            continue
        if p.kind == "throw":
            D.need(False, f["q"] + ":rejects", "%s: a tensor inside of the "
                   "underlying one is rejected" % what, f)
            continue
        R.count("fills")
        tiles, hs, start, und = p.it.info
        todo = {id(h): t for h, t in zip(hs, tiles)}
        for name, a, e in p.it.tasks:
            if name != "randn" or len(a) != 11:
                R.undecided("%s: task %s" % (what, name))
                continue
            nd, ne, seed, mean, dev, s, sh, st, u, h, tmp = a
            t = todo.pop(id(h), None)
            if not D.need(t is not None, f["q"] + ":tiles", "%s: a task fills "
                          "a buffer that is no tile of the tensor, or a tile "
                          "twice" % what, f):
                continue
            o, ext = t

            def eq(x, y):
                return p.facts.norm(x - y).is_zero() or \
                    p.facts.decide_eq(x - y) is True

            def same(x, y):
                return len(x) == len(y) and all(eq(c, d)
                                                for c, d in zip(x, y))
            key = f["q"]
            tot, strd = C(1), []
            for x in ext:
                strd.append(tot)
                tot = tot * x
            for ok, part, text in (
                    (eq(nd, C(n)), "ndim", "number of dimensions"),
                    (eq(ne, tot), "nelems", "number of elements"),
                    (eq(seed, SEED), "seed", "seed"),
                    (isinstance(mean, Flt) and mean.a == ("mean",), "mean",
                     "mean"),
                    (isinstance(dev, Flt) and dev.a == ("stddev",), "stddev",
                     "standard deviation"),
                    (same(s, [x + y for x, y in zip(start, o)]), "start",
                     "first index in the underlying tensor"),
                    (same(sh, list(ext)), "shape", "shape"),
                    (same(st, strd), "stride", "strides"),
                    (same(u, und), "underlying", "shape of the underlying "
                     "tensor")):
                D.need(ok, "%s:%s" % (key, part), "%s: the task of the tile at "
                       "%s is given a wrong %s" % (what, list(o), text), f)
            size = tmp.info.get("reg") if isinstance(tmp, Tok) else None
            if n and size and isinstance(size[-1], Poly):
                D.need(not size[-1].is_const() or size[-1].cval() >= 8 * n,
                       key + ":scratch", "%s: a scratch buffer of %s bytes" % (
                           what, size[-1]), f)
            if n:
                D.need(isinstance(tmp, Tok), key + ":scratch", "%s: a task "
                       "without scratch buffer" % what, f)
        D.need(not todo, f["q"] + ":tiles", "%s: %d tiles are not filled" % (
            what, len(todo)), f)


def c52(R):
    ws = Core().ws
    kern = ws.repo / "src/kernel/randn/cpu.cc"
    ops = [(k, ws.repo / ("src/%s/randn.cc" % k)) for k in ("tile", "tensor")]
    layer = ws.repo / "src/starpu/randn.cc"
    for u in [kern, layer] + [u for _, u in ops]:
        if not u.exists():
            raise AnalysisBroken("no %s" % u)
    K = Core(extra=[kern] + [u for _, u in ops])
    D = Decide(K, R)
    R.rule("generator", "a jump by n elements is 2 n steps of the generator, a "
           "draw is one step and gives its state divided by 2^64")
    R.rule("elements", "every element of a tile is the normal number computed "
           "from the two uniform numbers whose position in the sequence is "
           "given by the element's linear index in the underlying tensor")
    R.rule("finite", "it is finite for every uniform number the generator "
           "gives")
    R.rule("tiles", "every tile is filled once, with its own first index, "
           "shape and strides, and the caller's seed, mean and deviation")
    R.rule("task", "a submitted fill writes its tile, and its implementation "
           "gives the kernel the submitted numbers, arrays and buffers")
    tasks(Decide(Core(extra=[layer]), R), "nntile::starpu::randn::submit", RANDN,
          (0, 1, 3) if R.tier == "quick" else (0, 1, 2, 3, 4, 5), [0])
    with R.guard("generator"):
        generator(D, K)
    for f in functions(K, "nntile::kernel::randn::cpu"):
        R.count("kernel instances")
        with R.guard(name_of(f)):
            randn(D, f, R.tier)
    for f in functions(K, "nntile::kernel::randn::cpu_ndim0"):
        R.count("kernel instances")
        with R.guard(name_of(f)):
            scalar(D, f)
    for kind, u in ops:
        for f in functions(K, "nntile::%s::randn_async" % kind):
            R.count("operation instances")
            gs = GRIDS if kind == "tensor" else [(1,) * r for r in range(
                4 if R.tier == "quick" else 5)]
            for g in gs:
                with R.guard("%s %s" % (name_of(f), g)):
                    fill(D, f, kind, g)
    R.require("kernel instances", 4)
    R.require("operation instances", 4)
    R.require("generated boxes", 20)
    R.require("fills", 20)
    return "other", (
        "Abstract interpretation of the kernel with symbolic first indices, "
        "strides and underlying extents (boxes of 1 to 4 dimensions), the state "
        "of the generator being its position in the sequence; of the generator "
        "as affine map modulo 2^64; and of the tile and tensor operations with "
        "symbolic extents for tilings with up to 3 tiles per dimension.")


CHECKS = {"C51": c51, "C52": c52}
