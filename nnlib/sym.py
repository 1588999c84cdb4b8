"""Abstract interpreter over the C++ syntax tree (C++ semantics of the small
language the tile and tensor layers are written in).

Domain: integers are polynomials over symbolic atoms; index vectors are
segmented arrays whose pieces are functions of the position; loops are
summarised once per segment of their range, the range being split where a
branch condition changes its value, and carried scalars are closed to linear
functions of the loop variable.  Guards that throw leave facts behind; the
result is the set of abstract paths with the tree of runtime calls on each."""
import re

from .poly import Poly

ATOM = {}          # name -> (kind, ...)


def atom(kind, *args):
    if kind == "el":
        n = "%s[%s]" % (args[0], args[1])
    elif kind == "p":
        n = args[0]
    elif kind == "L":
        n = args[0]
    elif kind == "u":
        n = "?" + args[0]
    else:
        n = "%s(%s)" % (kind, ",".join(str(a) for a in args))
    ATOM.setdefault(n, (kind,) + args)
    return Poly.atom(n)


def C(n):
    return Poly.const(n)


AT = Poly.atom("@")
ATOM["@"] = ("@",)


class Vec:
    """Immutable symbolic vector of integers named n with length ln."""
    def __init__(self, n, ln, owner=None, role=None):
        self.n, self.ln, self.owner, self.role = n, ln, owner, role

    def __repr__(self):
        return "<%s>" % self.n


class Obj:
    """Tensor, tile, traits or grid object."""
    def __init__(self, n, kind, tensor=None, index=None):
        self.n, self.kind, self.tensor, self.index = n, kind, tensor, index

    def __repr__(self):
        return "<%s %s>" % (self.kind, self.n)


class Hnd:
    def __init__(self, obj, index=None):
        self.obj, self.index = obj, index

    def __repr__(self):
        return "H(%s%s)" % (self.obj.n, "" if self.index is None
                            else "@%s" % (self.index,))


class LV:
    """Reference to a local vector on the abstract heap."""
    def __init__(self, i):
        self.i = i

    def __repr__(self):
        return "LV%d" % self.i


class VIt:
    """Iterator into an index vector."""

    def __init__(self, v, off, grows=False):
        self.v, self.off, self.grows = v, off, grows

    def __repr__(self):
        return "it(%s,%s)" % (self.v, self.off)


# algorithms that write through an iterator
WRITERS = ("copy", "copy_n", "copy_if", "copy_backward", "move_backward",
           "fill", "fill_n", "transform", "generate", "generate_n", "iota",
           "partial_sum", "exclusive_scan", "inclusive_scan",
           "adjacent_difference", "for_each", "for_each_n", "replace",
           "replace_if", "reverse", "reverse_copy", "rotate", "rotate_copy",
           "swap_ranges", "iter_swap", "sort", "merge")


def moved(p, off):
    """The pointer or number p with another value."""
    if isinstance(p, Ptr):
        return Ptr(p.base, off)
    return VIt(p.v, off) if isinstance(p, VIt) else off


def offset(p):
    return p.off if isinstance(p, (Ptr, VIt)) else p


class Snap:
    """Frozen index vector."""
    def __init__(self, st, base, ln):
        self.pieces, self.base, self.ln = st, base, ln

    def __str__(self):
        return "{" + "; ".join("%s..%s:%s" % (a, b, f) for a, b, f in
                               self.pieces) + "|%s}" % (self.base,)
    __repr__ = __str__


class Sc:
    """Opaque scalar (floating point argument, flag, unknown value)."""
    def __init__(self, n, val=None, kind="s"):
        self.n, self.val, self.kind = n, val, kind

    def __repr__(self):
        return self.n

    def __eq__(self, o):
        return isinstance(o, Sc) and self.n == o.n

    def __hash__(self):
        return hash(self.n)


class Ptr:
    def __init__(self, base, off, es=1):
        self.base, self.off = base, off

    def __repr__(self):
        return "&%s[%s]" % (self.base, self.off)


class Lam:
    def __init__(self, node):
        self.node = node


class Unk:
    def __init__(self, why=""):
        self.why = why

    def __repr__(self):
        return "Unk(%s)" % self.why


class Split(Exception):
    def __init__(self, loop, point, eq):
        self.loop, self.point, self.eq = loop, point, eq


class GiveUp(Exception):
    pass


# -- facts ------------------------------------------------------------------
class Facts:
    def __init__(self, o=None):
        if o is None:
            self.sub, self.ge, self.ne, self.fa, self.ors, self.unk = \
                {}, [], [], [], [], []
        else:
            self.sub = dict(o.sub)
            self.ge, self.ne, self.fa, self.ors, self.unk = \
                list(o.ge), list(o.ne), list(o.fa), list(o.ors), list(o.unk)

    def norm(self, p):
        for _ in range(12):
            m = {a: self.sub[a] for a in p.atoms() if a in self.sub}
            if m:
                p = p.subst(m)
                continue
            # atoms whose arguments mention substituted atoms
            m = {}
            for a in p.atoms():
                r = self.renorm(a)
                if r is not None:
                    m[a] = r
            if not m:
                return p
            p = p.subst(m)
        return p

    def renorm(self, a):
        k = ATOM.get(a)
        if k is None:
            return None
        if k[0] == "el" and isinstance(k[2], Poly):
            q = self.norm(k[2])
            if q != k[2]:
                return atom("el", k[1], q)
        elif k[0] == "pp":
            q = self.norm(k[2])
            if q != k[2]:
                return pprod(k[1], q)
        return None

    def add_eq(self, p):
        p = self.norm(p)
        if p.is_zero() or p.is_const():
            return
        best = None
        for k, v in p.t.items():
            if len(k) == 1 and abs(v) == 1:
                a = k[0]
                r = p - Poly({k: v})
                if a in r.atoms() or any(a in str(x) and a != x
                                         for x in r.atoms()):
                    continue
                rank = (ATOM.get(a, ("z",))[0] in ("L", "@"), len(a), a)
                if best is None or rank > best[0]:
                    best = (rank, a, r * C(-v))
        if best is None:
            self.ge += [p, p * C(-1)]
            return
        self.sub[best[1]] = best[2]

    def add_ge(self, p):
        p = self.norm(p)
        if not p.is_const():
            if (p * C(-1)) in self.ge:
                self.add_eq(p)
            elif p not in self.ge:
                self.ge.append(p)

    def nonneg_atom(self, a):
        k = ATOM.get(a, ("u",))
        return k[0] in ("ndim", "el1", "pp", "nelems", "size", "ms") or \
            (k[0] == "el" and isinstance(k[1], str) and
             re.search(r"(shape|stride|idx\(.*\)|index)$", k[1]) is not None)

    def pos_atom(self, a):
        k = ATOM.get(a, ("u",))
        return k[0] in ("pp", "nelems", "ms") or \
            (k[0] == "el" and isinstance(k[1], str) and
             k[1].endswith("shape"))

    def prove_ge(self, p, depth=4):
        p = self.norm(p)
        return self._ge(p, depth, {})

    def _ge(self, p, depth, seen):
        if p.is_const():
            return p.cval() >= 0
        # all non-constant terms are products of non-negative atoms
        c = p.cval()
        ok = True
        low = c
        for k, v in p.t.items():
            if k == ():
                continue
            if v < 0 or not all(self.nonneg_atom(a) for a in k):
                ok = False
                break
            if all(self.pos_atom(a) for a in k):
                low += v
        if ok and low >= 0:
            return True
        if depth == 0:
            return False
        if seen.get(p, -1) >= depth:
            return False
        seen[p] = depth
        cands = []
        for f in self.ge:
            f = self.norm(f)
            if f.is_const():
                continue
            sc = sum(1 for k, v in f.t.items()
                     if k != () and p.t.get(k, 0) * v > 0)
            if sc:
                cands.append((-sc, len(f.t), len(cands), f))
        cands.sort(key=lambda x: x[:3])
        for _, _, _, f in cands[:10]:
            if self._ge(p - f, depth - 1, seen):
                return True
        return False

    def decide_ge(self, p):
        if self.prove_ge(p):
            return True
        if self.prove_ge(p * C(-1) - C(1)):
            return False
        return None

    def decide_eq(self, p):
        p = self.norm(p)
        if p.is_zero():
            return True
        if p.is_const():
            return False
        for q in self.ne:
            q = self.norm(q)
            if q == p or q == p * C(-1):
                return False
        if self.prove_ge(p - C(1)) or self.prove_ge(p * C(-1) - C(1)):
            return False
        if self.prove_ge(p) and self.prove_ge(p * C(-1)):
            return True
        return None


def pprod(owner, i):
    """Product of the first i extents of an object's shape."""
    if i.is_zero():
        return C(1)
    return atom("pp", owner, i)


# -- conditions -------------------------------------------------------------
def neg(c):
    k = c[0]
    if k == "const":
        return ("const", not c[1])
    if k == "ge":
        return ("ge", c[1] * C(-1) - C(1))
    if k == "eq":
        return ("ne", c[1])
    if k == "ne":
        return ("eq", c[1])
    if k == "and":
        return ("or", [neg(x) for x in c[1]])
    if k == "or":
        return ("and", [neg(x) for x in c[1]])
    if k == "veq":
        return ("vne", c[1], c[2])
    if k == "vne":
        return ("veq", c[1], c[2])
    if k == "feq":
        return ("fne",) + c[1:]
    if k == "fne":
        return ("feq",) + c[1:]
    if k == "fc":
        return ("fc", c[1], not c[2])
    if k == "unk":
        return ("unk", "not " + c[1])
    raise AssertionError(c)


def cstr(c):
    k = c[0]
    if k == "ge":
        return "%s >= 0" % c[1]
    if k in ("eq", "ne"):
        return "%s %s 0" % (c[1], "==" if k == "eq" else "!=")
    if k in ("and", "or"):
        return "(" + (" %s " % k).join(cstr(x) for x in c[1]) + ")"
    return " ".join(str(x) for x in c)


# -- machine state ----------------------------------------------------------
class VecState:
    __slots__ = ("pieces", "base", "ln", "fresh")

    def __init__(self, pieces=(), base=None, ln=None):
        self.pieces = list(pieces)   # (lo, hi, f(@)) later pieces win
        self.base = base             # ("vec", Vec) | ("const", Poly) | None
        self.ln = ln

    def copy(self):
        return VecState(self.pieces, self.base, self.ln)


class State:
    def __init__(self):
        self.env = {}
        self.heap = {}
        self.facts = Facts()
        self.trace = ()
        self.conds = ()
        self.loops = ()       # active loops (name, lo, hi)

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.heap = {k: v.copy() for k, v in self.heap.items()}
        s.facts = Facts(self.facts)
        s.trace = self.trace
        s.conds = self.conds
        s.loops = self.loops
        return s


class Event:
    def __init__(self, kind, name, args, loc, st, extra=None):
        self.kind, self.name, self.args, self.loc = kind, name, args, loc
        self.facts = st.facts
        self.loops = st.loops
        self.conds = st.conds
        self.extra = extra

    def __repr__(self):
        return "%s %s(%s)" % (self.kind, self.name, ", ".join(
            "%s=%s" % (k, v) for k, v in self.args))


class LoopNode:
    def __init__(self, name, lo, hi, alts, delta=1):
        self.name, self.lo, self.hi, self.alts = name, lo, hi, alts
        self.delta = delta

    def __repr__(self):
        return "loop %s in [%s,%s)" % (self.name, self.lo, self.hi)


class Path:
    def __init__(self, flow, st, val=None):
        self.flow, self.st, self.val = flow, st, val


SKIP_CALLS = {"mpi_transfer", "mpi_flush", "wont_use", "invalidate_submit",
              "starpu_task_wait_for_all", "starpu_mpi_wait_for_all",
              "reserve", "mpi_get_tag"}
ZERO_CALLS = {"starpu_mpi_world_rank", "mpi_get_rank"}


class Interp:
    def __init__(self, fns, unit, layer, repo_unit=""):
        self.fns = fns              # mangled name -> function
        self.unit = unit
        self.layer = layer
        self.nid = 0
        self.nl = 0
        self.steps = 0
        self.unknown_guards = []
        self.assumed = []
        self.depth = 0
        self.keep = None            # predicate: call kept as an event
        self.notes = []

    def fresh(self, hint):
        self.nid += 1
        return atom("u", "%s%d" % (hint, self.nid))

    # -- entry ---------------------------------------------------------------
    def run(self, f, bind=None):
        st = State()
        for p in f["ps"]:
            st.env[p["id"]] = self.param(p, st, bind or {})
        ps = self.stmt(f["body"], st)
        return ps

    def param(self, p, st, bind):
        n, t = p["n"], p["t"]
        if n in bind:
            return bind[n]
        if re.search(r"tensor::Tensor<|TensorTraits", t):
            return Obj(n, "tensor")
        if re.search(r"tile::Tile<|TileTraits", t):
            return Obj(n, "tile")
        if "vector<" in t:
            if re.search(r"vector<(long|int|nntile::Index)", t) and \
                    "&" in t or "vector<long>" in t:
                return Vec(n, atom("size", n))
            return Unk(n)
        if "TransOp" in t:
            return Obj(n, "transop")
        if "Handle" in t:
            return Hnd(Obj(n, "handle"))
        if "*" in t:
            return Ptr(n, C(0))
        if re.search(r"\b(long|int|unsigned|Index|size_t|short|bool)\b", t):
            return atom("p", n)
        return Sc(n)

    # -- statements ----------------------------------------------------------
    def stmt(self, s, st):
        """List of paths."""
        self.steps += 1
        if self.steps > 400000:
            raise GiveUp("too many steps")
        if s is None:
            return [Path("n", st)]
        k = s.get("k")
        m = getattr(self, "s_" + k, None)
        if m is not None:
            return m(s, st)
        if k in ("nop", "null"):
            return [Path("n", st)]
        # expression used as statement
        return self.s_expr({"e": s, "l": s.get("l")}, st)

    def seq(self, ss, st):
        paths = [Path("n", st)]
        out = []
        for s in ss:
            nxt = []
            for p in paths:
                for q in self.stmt(s, p.st):
                    (nxt if q.flow == "n" else out).append(q)
            paths = self.merge(nxt)
            if not paths:
                break
            if len(paths) > 48:
                raise GiveUp("too many paths")
        return paths + out

    def merge(self, ps):
        return ps

    def s_block(self, s, st):
        return self.seq(s["b"], st)

    def s_decl(self, s, st):
        for d in s["d"]:
            if "id" not in d:
                continue
            r = self.declare(d, st)
            if r is not None:
                return r
        return [Path("n", st)]

    def declare(self, d, st):
        t = d.get("t", "")
        i = d.get("i")
        if i is None:
            if "vector<" in t:
                st.env[d["id"]] = self.newvec(st, ln=C(0), base=("const", C(0)))
            elif "array<" in t or "[" in t:
                st.env[d["id"]] = self.newvec(st)
            else:
                st.env[d["id"]] = Unk("uninitialised " + d["n"])
            return None
        v = self.ev(i, st)
        if isinstance(v, LV) and "&" not in t:
            v = self.clone(v, st)
        elif isinstance(v, Vec) and "&" not in t and "vector<" in t and \
                "const" not in t:
            v = self.clone(v, st)
        if isinstance(v, Snap):
            v = self.unsnap(v, st)
        st.env[d["id"]] = v
        return None

    def newvec(self, st, ln=None, base=None, pieces=()):
        self.nid += 1
        st.heap[self.nid] = VecState(pieces, base, ln)
        return LV(self.nid)

    def clone(self, v, st):
        if isinstance(v, LV):
            h = st.heap[v.i]
            return self.newvec(st, h.ln, h.base, h.pieces)
        if isinstance(v, Vec):
            return self.newvec(st, v.ln, ("vec", v))
        return v

    def unsnap(self, v, st):
        return self.newvec(st, v.ln, v.base, v.pieces)

    def s_expr(self, s, st):
        e = s["e"]
        if e is not None and e.get("k") == "throw":
            return self.s_throw(e, st)
        c = uncast(e) if e is not None else {}
        if c.get("k") == "call":
            t = self.inlineable(c, st)
            if t is not None:
                g, o = t
                out = []
                for p in self.inline_paths(g, c, st, o):
                    if p.flow == "ret":
                        p.flow = "n"
                    out.append(p)
                return out
        self.ev(e, st)
        return [Path("n", st)]

    def inlineable(self, e, st):
        """(function, object) when a call is followed into its body."""
        f = e.get("f") or ""
        n = re.sub(r"<.*>$", "", f).split("::")[-1]
        if n in ZERO_CALLS or n in SKIP_CALLS or n in (
                "swap", "starpu_data_cpy") or self.depth >= 12:
            return None
        if n == "operator()" and e.get("o"):
            o = self.ev(e["o"], st)
            return (o.node, None) if isinstance(o, Lam) else None
        if e.get("o") or e.get("oc"):
            return None
        if re.match(r"nntile::starpu::\w+::submit(_mpi)?$", re.sub(r"<.*>$", "", f)):
            return None
        if self.keep is not None and self.keep(f, e):
            return None
        g = self.fns.get(e.get("m"))
        if g is None or g.get("body") is None:
            return None
        if n.endswith("_async") and self.layer in ("tile", "tensor"):
            args = [(p, self.freeze(v, st)) for p, v in self.args_of(e, st)]
            st.trace = st.trace + (Event("async", n, args, e.get("l"), st,
                                         e.get("ta")),)
        return g, None

    def s_throw(self, s, st):
        return [Path("throw", st, s.get("l"))]

    def s_ret(self, s, st):
        c = uncast(s["a"]) if s.get("a") else {}
        if c.get("k") == "call":
            t = self.inlineable(c, st)
            if t is not None:
                out = []
                for p in self.inline_paths(t[0], c, st, t[1]):
                    if p.flow == "n":
                        p.flow = "ret"
                    out.append(p)
                return out
        v = self.ev(s["a"], st) if s.get("a") else None
        return [Path("ret", st, v)]

    def s_break(self, s, st):
        return [Path("break", st)]

    def s_cont(self, s, st):
        return [Path("cont", st)]

    def s_try(self, s, st):
        return self.stmt(s["b"], st)

    def s_if(self, s, st):
        if s.get("in"):
            ps = self.stmt(s["in"], st)
            st = ps[0].st
        if s.get("cv"):
            self.declare(s["cv"], st)
        c = self.cond(s["c"], st)
        d = self.decide(c, st)
        if d is None:
            self.maybe_split(c, st)
        if d is True:
            return self.stmt(s["t"], st)
        if d is False:
            return self.stmt(s.get("f"), st)
        a, b = st.copy(), st
        self.assume(a, c)
        self.assume(b, neg(c))
        pa = self.stmt(s["t"], a)
        pb = self.stmt(s.get("f"), b)
        # a guard: one arm only throws
        ta = all(p.flow == "throw" for p in pa)
        tb = all(p.flow == "throw" for p in pb)
        if ta != tb:
            g = c if ta else neg(c)
            if has_unk(g):
                for p in (pb if ta else pa):
                    p.st.facts.unk.append(cstr(g))
            for p in (pa if ta else pb):
                if p.flow == "throw":
                    p.guard = g
            return pa + pb
        for p in pa:
            p.st.conds = p.st.conds + ((c, s.get("l")),)
        for p in pb:
            p.st.conds = p.st.conds + ((neg(c), s.get("l")),)
        na = [p for p in pa if p.flow == "n"]
        nb = [p for p in pb if p.flow == "n"]
        if len(na) == 1 and len(nb) == 1 and len(pa) == 1 and len(pb) == 1:
            j = self.join(st, c, na[0].st, nb[0].st)
            if j is not None:
                return [Path("n", j)]
        return pa + pb

    def join(self, base, c, a, b):
        """Join two arms that did not call the runtime."""
        if a.trace != base.trace or b.trace != base.trace or \
                a.trace != b.trace:
            return None
        ta, tb = len(a.conds), len(b.conds)
        if ta != tb:
            return None
        st = a.copy()
        st.conds = a.conds[:-1]
        f = Facts(a.facts)
        f.ge = [x for x in a.facts.ge if x in b.facts.ge]
        f.ne = [x for x in a.facts.ne if x in b.facts.ne]
        f.fa = [x for x in a.facts.fa if x in b.facts.fa]
        f.unk = list(dict.fromkeys(a.facts.unk + b.facts.unk))
        f.ors = [x for x in a.facts.ors if x in b.facts.ors]
        f.sub = {k: v for k, v in a.facts.sub.items()
                 if b.facts.sub.get(k) == v}
        st.facts = f
        for k in set(a.env) | set(b.env):
            x, y = a.env.get(k), b.env.get(k)
            if x is None or y is None:
                st.env[k] = x if x is not None else y
                continue
            if same(x, y):
                continue
            if isinstance(x, Unk) and x.why.startswith("uninit") or \
                    isinstance(y, Unk) and y.why.startswith("uninit"):
                pass
            if isinstance(x, Poly) and isinstance(y, Poly):
                st.env[k] = atom("ite", cstr(c), str(x), str(y))
                ATOM[str(st.env[k])] = ("ite", c, x, y)
            elif isinstance(x, LV) and isinstance(y, LV):
                return None
            else:
                return None
        for i in set(a.heap) | set(b.heap):
            x, y = a.heap.get(i), b.heap.get(i)
            if x is None or y is None:
                st.heap[i] = x or y
                continue
            if x.pieces == y.pieces and same_base(x.base, y.base):
                continue
            # differing pieces
            n = 0
            while n < min(len(x.pieces), len(y.pieces)) and \
                    x.pieces[n] == y.pieces[n]:
                n += 1
            ra, rb = x.pieces[n:], y.pieces[n:]
            if len(ra) == 1 and len(rb) == 1 and ra[0][0] == rb[0][0] and \
                    ra[0][1] == rb[0][1]:
                fa, fb = ra[0][2], rb[0][2]
                v = atom("ite", cstr(c), str(fa), str(fb))
                ATOM[str(v)] = ("ite", c, fa, fb)
                h = x.copy()
                h.pieces = x.pieces[:n] + [(ra[0][0], ra[0][1], v)]
                st.heap[i] = h
            else:
                return None
        return st

    def s_switch(self, s, st):
        v = self.ev(s["c"], st)
        body = s["b"]
        items = body["b"] if body.get("k") == "block" else [body]
        flat = []
        for it in items:
            while it is not None and it.get("k") in ("case", "default"):
                flat.append(("case", it))
                it = it.get("b") or it.get("s")
            if it is not None:
                flat.append(("stmt", it))
        if not isinstance(v, Poly):
            raise GiveUp("switch over an unknown value")
        labels = [(i, it) for i, (k, it) in enumerate(flat) if k == "case"]
        target, default = [], None
        und = False
        for i, it in labels:
            if it["k"] == "default":
                default = i
                continue
            cv = self.ev(it.get("v") or it.get("c"), st)
            d = st.facts.decide_eq(v - cv)
            if d is True:
                target.append(i)
                break
            if d is None:
                und = True
        if und and not target:
            raise GiveUp("switch not decided")
        start = target[0] if target else default
        if start is None:
            return [Path("n", st)]
        ss = [it for k, it in flat[start:] if k == "stmt"]
        out = self.seq(ss, st)
        for p in out:
            if p.flow == "break":
                p.flow = "n"
        return out

    # -- loops ---------------------------------------------------------------
    def s_for(self, s, st):
        if s.get("in"):
            st = self.stmt(s["in"], st)[0].st
        return self.loop(s.get("c"), s.get("s"), s.get("b"), st, s)

    def s_while(self, s, st):
        return self.loop(s.get("c"), None, s.get("b"), st, s)

    def s_do(self, s, st):
        out = []
        for p in self.stmt(s.get("b"), st):
            if p.flow == "break":
                p.flow = "n"
                out.append(p)
            elif p.flow in ("n", "cont"):
                out += self.loop(s.get("c"), None, s.get("b"), p.st, s)
            else:
                out.append(p)
        return out

    def s_rfor(self, s, st):
        v = self.ev(s["r"], st)
        ln = self.length(v, st)
        if ln is None:
            raise GiveUp("range over unknown container")
        name = self.newloop()
        hid = -self.nl

        def enter(x, L):
            x.env[s["v"]["id"]] = self.index(v, L, x)
        return self.segments(name, hid, C(0), ln, enter, None, s["b"], st, s,
                             +1)

    def newloop(self):
        self.nl += 1
        return "L%d" % self.nl

    def loop(self, c, step, body, st, s):
        mod = modified(body, self.fns) | modified(step, self.fns)
        # variable of the loop
        var = None
        cand = []
        if c is not None:
            for x in conj(c):
                if x.get("k") == "bin" and x["op"] in ("<", "<=", ">", ">=",
                                                       "!="):
                    for side, other in ((x["a"], x["b"]), (x["b"], x["a"])):
                        v = uncast(side)
                        if v.get("k") == "var" and v["id"] in mod and \
                                isinstance(st.env.get(v["id"]), Poly):
                            cand.append((v["id"], x, side is x["b"], other))
        if len(cand) >= 1 and len(conj(c)) == 1:
            var = cand[0]
        if var is None and c is not None:
            r = self.counting(c, step, body, st, s)
            if r is not None:
                return r
        if var is None:
            return self.opaque(c, step, body, st, s, mod)
        vid, x, flip, other = var
        if refs(other) & mod:
            # bound changes during the loop
            return self.opaque(c, step, body, st, s, mod)
        delta = self.delta(vid, step, body)
        if delta not in (1, -1):
            return self.opaque(c, step, body, st, s, mod)
        bound = self.ev(other, st)
        v0 = st.env[vid]
        if not isinstance(bound, Poly):
            return self.opaque(c, step, body, st, s, mod)
        op = x["op"]
        if flip:
            op = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "!=": "!="}[op]
        if delta == 1:
            if op in ("<", "!="):
                lo, hi = v0, bound
            elif op == "<=":
                lo, hi = v0, bound + C(1)
            else:
                return self.opaque(c, step, body, st, s, mod)
        else:
            if op in (">",):
                lo, hi = bound + C(1), v0 + C(1)
            elif op == ">=":
                lo, hi = bound, v0 + C(1)
            elif op == "!=":
                lo, hi = bound + C(1), v0 + C(1)
            else:
                return self.opaque(c, step, body, st, s, mod)
        name = self.newloop()

        def enter(y, L):
            y.env[vid] = L
        return self.segments(name, vid, lo, hi, enter, step, body, st, s,
                             delta)

    def counting(self, c, step, body, st, s):
        """A loop whose condition itself counts: while(i-- > 0)."""
        x = uncast(c)
        op, a, b = "!=", x, {"k": "int", "v": 0}
        if x.get("k") == "bin" and x["op"] in ("<", "<=", ">", ">=", "!="):
            op, a, b = x["op"], uncast(x["a"]), uncast(x["b"])
            if a.get("k") != "un":
                a, b = b, a
                op = {"<": ">", "<=": ">=", ">": "<", ">=": "<=",
                      "!=": "!="}[op]
        if a.get("k") != "un" or a["op"] not in ("++", "--", "p++", "p--"):
            return None
        v = uncast(a["a"])
        if v.get("k") != "var" or not isinstance(st.env.get(v["id"]), Poly):
            return None
        vid = v["id"]
        mod = modified(body, self.fns) | modified(step, self.fns)
        if vid in mod or refs(b) & (mod | {vid}):
            return None
        bound, v0 = self.ev(b, st), st.env[vid]
        if not isinstance(bound, Poly):
            return None
        d = 1 if "++" in a["op"] else -1
        post = a["op"][0] == "p"
        if d < 0:
            if op in (">", "!="):
                low = bound + C(1)      # smallest tested value that continues
            elif op == ">=":
                low = bound
            else:
                return None
            lo = low - C(1) if post else low
            hi, end = v0, lo - C(1)
        else:
            if op in ("<", "!="):
                top = bound - C(1)
            elif op == "<=":
                top = bound
            else:
                return None
            top = top + C(1) if post else top
            lo, hi, end = v0 + C(1), top + C(1), top + C(1)
        name = self.newloop()

        def enter(y, L):
            y.env[vid] = L
        out = self.segments(name, -self.nl, lo, hi, enter, step, body, st, s,
                            d)
        for p in out:
            if p.flow == "n":
                # a break leaves the counter where it was
                broke = any(k[0] == ("unk", "break " + name)
                            for k in p.st.conds)
                p.st.env[vid] = self.fresh("w") if broke else end
        return out

    def delta(self, vid, step, body):
        """Net change of the loop variable, from its increments."""
        ds = []
        bad = []

        def look(n):
            if isinstance(n, list):
                for y in n:
                    look(y)
                return
            if not isinstance(n, dict):
                return
            if n.get("k") == "un" and n["op"] in ("++", "--", "p++", "p--"):
                v = uncast(n["a"])
                if v.get("k") == "var" and v["id"] == vid:
                    ds.append(1 if "++" in n["op"] else -1)
            elif n.get("k") == "asg":
                v = uncast(n["a"])
                if v.get("k") == "var" and v["id"] == vid:
                    w = uncast(n["b"])
                    if n["op"] in ("+=", "-=") and w.get("k") == "int":
                        ds.append(int(w["v"]) * (1 if n["op"] == "+=" else -1))
                    elif n["op"] == "=" and w.get("k") == "bin" and \
                            w["op"] in "+-" and uncast(w["a"]).get("id") == vid \
                            and uncast(w["b"]).get("k") == "int":
                        ds.append(int(uncast(w["b"])["v"]) *
                                  (1 if w["op"] == "+" else -1))
                    else:
                        bad.append(1)
            for y in n.values():
                if isinstance(y, (dict, list)):
                    look(y)
        look(step)
        look(body)
        if bad or len(ds) != 1:
            return None
        return ds[0]

    def segments(self, name, vid, lo, hi, enter, step, body, st, s, delta):
        """Execute a counted loop segment by segment."""
        lo, hi = st.facts.norm(lo), st.facts.norm(hi)
        work = [(lo, hi, False)]
        out = []
        first = True
        i = 0
        guard = 0
        paths = [Path("n", st)]
        done = []
        while work:
            guard += 1
            if guard > 60:
                raise GiveUp("too many loop segments")
            if delta > 0:
                a, b, single = work.pop(0)
            else:
                a, b, single = work.pop()
            nxt = []
            try:
                for p in paths:
                    snap = (self.nid,)
                    r = self.segment(name, vid, a, b, enter, step, body,
                                     p.st.copy(), s, delta, single)
                    nxt += r
            except Split as x:
                if x.loop != name:
                    raise
                e = x.point
                st0 = paths[0].st
                if x.eq:
                    segs = [(a, e, False), (e, e + C(1), True),
                            (e + C(1), b, False)]
                else:
                    segs = [(a, e, False), (e, b, False)]
                segs = [g for g in segs
                        if not st0.facts.prove_ge(g[0] - g[1])]
                segs = [(g0, g1, sg or st0.facts.norm(g1 - g0) == C(1))
                        for g0, g1, sg in segs]
                if len(segs) == 1 and segs[0][:2] == (a, b):
                    raise GiveUp("loop cannot be split at %s" % e)
                self.assumed.append("%s <= %s <= %s" % (a, e, b))
                for y in paths:
                    y.st.facts.add_ge(e - a)
                    y.st.facts.add_ge(b - e - (C(1) if x.eq else C(0)))
                if delta > 0:
                    work = segs + work
                else:
                    work = work + segs
                continue
            paths = []
            for p in nxt:
                (paths if p.flow == "n" else done).append(p)
            if not paths:
                break
            if len(paths) > 24:
                raise GiveUp("too many loop paths")
        for p in paths:
            if vid > 0 if isinstance(vid, int) else True:
                p.st.env[vid] = hi if delta > 0 else lo - C(1)
        for p in done:
            if p.flow == "break":
                p.flow = "n"
        return paths + done

    def segment(self, name, vid, a, b, enter, step, body, st, s, delta,
                single):
        f = st.facts
        if f.prove_ge(a - b):
            return [Path("n", st)]
        if single or f.norm(b - a) == C(1):
            return self.iterate(enter, a, step, body, st)
        L = atom("L", name)
        mod = {v for v in modified(body, self.fns) | modified(step, self.fns)
               if v in st.env and v != vid}
        # pass 1: how do carried values change?
        pre = dict(st.env)
        x = st.copy()
        x.loops = x.loops + ((name, a, b),)
        havoc = {}
        for v in mod:
            cur = x.env[v]
            if isinstance(cur, Poly):
                h = self.fresh("c")
                havoc[v] = h
                x.env[v] = h
            elif isinstance(cur, (Ptr, VIt)):
                h = self.fresh("c")
                havoc[v] = h
                x.env[v] = moved(cur, h)
            elif isinstance(cur, Unk):
                pass
            elif isinstance(cur, LV):
                pass
            elif isinstance(cur, Vec):
                pass
            else:
                x.env[v] = Unk("carried")
        x.facts.add_ge(L - a)
        x.facts.add_ge(b - L - C(1))
        heap0 = {i: len(h.pieces) for i, h in st.heap.items()}
        ps = self.iterate(enter, L, step, body, x.copy())
        ps = [p for p in ps if p.flow == "n"]
        ind = {}
        for v in mod:
            if v not in havoc:
                continue
            ds = set()
            for p in ps:
                y = p.st.env.get(v)
                z = y.off if isinstance(y, (Ptr, VIt)) else y
                if isinstance(pre[v], VIt) and not (
                        isinstance(y, VIt) and same(y.v, pre[v].v)):
                    z = None
                if not isinstance(z, Poly):
                    ds.add(None)
                    continue
                d = p.st.facts.norm(z - havoc[v])
                if any(("?c" in q and q.startswith("?")) or q == name or
                       int_id(q) > self_id(havoc[v])
                       for q in d.atoms() if q.startswith("?") or q == name):
                    # depends on the iteration: not an induction variable
                    ds.add(("last", z))
                else:
                    ds.add(d)
            if len(ds) == 1:
                ind[v] = ds.pop()
            else:
                ind[v] = None
        # pass 2: with the closed forms
        x = st.copy()
        x.loops = x.loops + ((name, a, b),)
        x.facts.add_ge(L - a)
        x.facts.add_ge(b - L - C(1))
        trip = (L - a) if delta > 0 else (b - C(1) - L)
        for v in mod:
            cur = pre[v]
            d = ind.get(v)
            if v in havoc:
                if isinstance(d, Poly):
                    x.env[v] = moved(cur, offset(cur) + d * trip)
                elif isinstance(cur, VIt):
                    x.env[v] = Unk("carried")
                else:
                    x.env[v] = moved(cur, self.fresh("c"))
            elif isinstance(cur, Unk) or isinstance(cur, (LV, Vec)):
                pass
            else:
                x.env[v] = Unk("carried")
        self.carried_vectors(ps, st, x, L, name, a, b, delta)
        entries = {i: h.copy() for i, h in x.heap.items()}
        tr0 = x.trace
        x.trace = ()
        cn = len(x.conds)
        f0 = Facts(x.facts)
        ps = self.iterate(enter, L, step, body, x)
        normal = [p for p in ps if p.flow == "n"]
        others = [p for p in ps if p.flow != "n"]
        # state after the loop
        out = st.copy()
        n = b - a
        alts = []
        for p in ps:
            alts.append((p.flow, p.st.conds[cn:], p.st.trace, p))
        if any(p.st.trace for p in ps):
            out.trace = out.trace + (LoopNode(name, a, b, alts, delta),)
        if not normal:
            # no iteration completes: the loop ends in its first iteration
            res = []
            for p in ps:
                p.st.trace = st.trace + p.st.trace
                res.append(p)
            e = st.copy()
            return res + [Path("n", e)]
        for v in mod:
            cur = pre[v]
            d = ind.get(v)
            if v in havoc and isinstance(d, Poly):
                out.env[v] = moved(cur, offset(cur) + d * n)
            elif isinstance(cur, VIt):
                out.env[v] = Unk("after loop")
            elif v in havoc and isinstance(d, tuple) and len(normal) == 1:
                z = normal[0].st.env.get(v)
                zz = z.off if isinstance(z, Ptr) else z
                lastL = b - C(1) if delta > 0 else a
                if isinstance(zz, Poly) and not any(
                        q.startswith("?") for q in zz.atoms()):
                    zz = zz.subst({name: lastL})
                    out.env[v] = Ptr(cur.base, zz) if isinstance(z, Ptr) \
                        else zz
                else:
                    out.env[v] = self.fresh("v")
            elif isinstance(cur, (LV, Vec)):
                pass
            elif isinstance(cur, Poly):
                out.env[v] = self.fresh("v")
            elif isinstance(cur, Ptr):
                out.env[v] = Ptr(cur.base, self.fresh("v"))
            else:
                out.env[v] = Unk("after loop")
        # vectors
        for i, h in st.heap.items():
            o = out.heap[i]
            entry = entries[i]
            olds = len(entry.pieces)
            news = None
            for p in normal:
                q = p.st.heap.get(i)
                if q is None:
                    continue
                w = q.pieces[olds:] if q.pieces[:olds] == entry.pieces \
                    else False
                if not same_base(q.base, entry.base):
                    w = False
                news = w if news is None else (news if news == w else False)
            if news is False:
                o.pieces = []
                o.base = None
                continue
            if entry.base is None and h.base is not None:
                o.pieces = []
                o.base = None
            ran = f.prove_ge(n - C(1))
            for (g0, g1, val) in (news or []):
                if name not in g0.atoms() and name not in g1.atoms():
                    if isinstance(val, Poly) and name in val.atoms():
                        lastL = b - C(1) if delta > 0 else a
                        val = val.subst({name: lastL})
                    if not ran:
                        val = self.fresh("e")
                    o.pieces.append((g0, g1, val))
                    continue
                c1, r = g0.coeff(name)
                if f.norm(g1 - g0) == C(1) and c1 is not None and \
                        c1 in (C(1), C(-1)):
                    v2 = self.fresh("e")
                    if isinstance(val, Poly):
                        # index g = c*L + r  =>  L = c*(@ - r)
                        v2 = val.subst({name: (AT - r) * c1})
                        if any(name in q for q in v2.atoms()):
                            v2 = self.fresh("e")
                    if c1 == C(1):
                        o.pieces.append((a + r, b + r, v2))
                    else:
                        o.pieces.append((r - b + C(1), r - a + C(1), v2))
                else:
                    o.pieces = []
                    o.base = None
        # facts established by every normal iteration
        if not has_exit(others):
            for p in normal[:1]:
                self.quantify(p.st.facts, f0, name, a, b, out.facts, normal)
        for p in normal:
            for u in p.st.facts.unk:
                if u not in out.facts.unk:
                    out.facts.unk.append(u)
        res = [Path("n", out)]
        for p in others:
            if p.flow == "throw":
                p.st.trace = tr0 + p.st.trace
                res.append(p)
            elif p.flow == "ret":
                p.st.trace = tr0 + p.st.trace
                p.st.conds = p.st.conds + ((("unk", "some " + name), s.get("l")),)
                res.append(p)
            elif p.flow == "break":
                y = p.st
                y.trace = tr0 + y.trace
                y.conds = y.conds + ((("unk", "break " + name), s.get("l")),)
                res.append(p)
        return res

    def carried_vectors(self, ps, st, x, L, name, a, b, delta):
        """Contents of the vectors the body changes, as an iteration other
        than the first one finds them."""
        for i, h in st.heap.items():
            tgt = x.heap[i]
            news = []
            lost = False
            for p in ps:
                q = p.st.heap.get(i)
                if q is None:
                    continue
                if not same_base(q.base, h.base) or \
                        q.pieces[:len(h.pieces)] != h.pieces:
                    lost = True
                    break
                for z in q.pieces[len(h.pieces):]:
                    if z not in news:
                        news.append(z)
            if lost:
                tgt.pieces, tgt.base = [], None
                continue
            for g0, g1, val in news:
                ats = g0.atoms() | g1.atoms()
                if name not in ats and not any(q.startswith("?")
                                               for q in ats):
                    tgt.pieces.append((g0, g1, self.fresh("e")))
                    continue
                c1, r = g0.coeff(name)
                if x.facts.norm(g1 - g0) == C(1) and c1 in (C(1), C(-1)) \
                        and not any(q.startswith("?") for q in ats):
                    v2 = None
                    if isinstance(val, Poly) and len(news) == 1 and not any(
                            "?" in q for q in val.atoms()):
                        v2 = val.subst({name: (AT - r) * c1})
                        if any(name in q for q in v2.atoms()):
                            v2 = None
                    if v2 is None:
                        v2 = self.fresh("e")
                    # values of the loop variable seen before this one
                    u, w = (a, L) if delta > 0 else (L + C(1), b)
                    if c1 == C(1):
                        tgt.pieces.append((u + r, w + r, v2))
                    else:
                        tgt.pieces.append((r - w + C(1), r - u + C(1), v2))
                    continue
                tgt.pieces, tgt.base = [], None
                break

    def quantify(self, g, g0, name, a, b, out, normal):
        def common(key, x):
            return all(x in getattr(p.st.facts, key) for p in normal)
        for p in g.ge:
            if p in g0.ge or not common("ge", p):
                continue
            if name in p.atoms() or any(name in str(z) for z in p.atoms()):
                out.fa.append((a, b, "ge", gen(p, name)))
            else:
                out.add_ge(p)
        for p in g.ne:
            if p not in g0.ne and common("ne", p):
                if any(name in str(z) for z in p.atoms()):
                    out.fa.append((a, b, "ne", gen(p, name)))
                else:
                    out.ne.append(p)
        for k, v in g.sub.items():
            if g0.sub.get(k) == v:
                continue
            if not all(p.st.facts.sub.get(k) == v for p in normal):
                continue
            p = Poly.atom(k) - v
            if any(name in str(z) for z in p.atoms()):
                out.fa.append((a, b, "eq", gen(p, name)))
            else:
                out.add_eq(p)
        for fa in g.fa:
            if fa not in g0.fa and common("fa", fa):
                if name in str(fa[3]) or name in str(fa[0]) or \
                        name in str(fa[1]):
                    out.fa.append(fa + ((name, a, b),))
                else:
                    out.fa.append(fa)
        for o in g.ors:
            if o not in g0.ors and common("ors", o):
                out.fa.append((a, b, "or", ("or", o, name)))

    def iterate(self, enter, val, step, body, st):
        enter(st, val)
        ps = self.stmt(body, st)
        out = []
        for p in ps:
            if p.flow in ("n", "cont"):
                p.flow = "n"
                if step is not None:
                    for q in self.stmt({"k": "expr", "e": step,
                                        "l": step.get("l")}, p.st):
                        out.append(q)
                else:
                    out.append(p)
            else:
                out.append(p)
        return out

    def opaque(self, c, step, body, st, s, mod):
        """A loop whose range is not understood."""
        name = self.newloop()
        self.notes.append("loop at line %s is not summarised" % s.get("l"))

        def havoc(x):
            for v in mod:
                cur = x.env.get(v)
                if isinstance(cur, Poly):
                    x.env[v] = self.fresh("w")
                elif isinstance(cur, Ptr):
                    x.env[v] = Ptr(cur.base, self.fresh("w"))
                elif isinstance(cur, LV):
                    x.heap[cur.i].pieces = []
                    x.heap[cur.i].base = None
                elif isinstance(cur, (VIt, Unk)) and v in mod:
                    self.forget(x)
                    x.env[v] = Unk("loop")
                elif v in x.env and not isinstance(cur, (Vec, Obj, Hnd, Lam)):
                    x.env[v] = Unk("loop")
        x = st.copy()
        havoc(x)
        x.loops = x.loops + ((name, None, None),)
        x.trace = ()
        cn = len(x.conds)
        if c is not None:
            cc = self.cond(c, x)
            self.assume(x, cc)
        ps = self.iterate(lambda *_: None, None, step, body, x)
        out = st.copy()
        havoc(out)
        if any(p.flow in ("throw", "ret") for p in ps):
            out.facts.unk.append("loop at line %s" % s.get("l"))
        alts = [(p.flow, p.st.conds[cn:], p.st.trace, p) for p in ps
                if p.st.trace or p.flow not in ("n", "break")]
        if any(p.st.trace for p in ps):
            out.trace = out.trace + (LoopNode(name, None, None, alts),)
        res = [Path("n", out)]
        for p in ps:
            if p.flow in ("throw", "ret"):
                p.st.trace = st.trace + p.st.trace
                p.st.conds = p.st.conds + ((("unk", "some " + name),
                                            s.get("l")),)
                res.append(p)
        return res

    # -- conditions ----------------------------------------------------------
    def cond(self, e, st):
        e0 = e
        e = uncast(e)
        k = e.get("k")
        if k == "bin" and e["op"] in ("&&", "and"):
            return ("and", [self.cond(e["a"], st), self.cond(e["b"], st)])
        if k == "bin" and e["op"] in ("||", "or"):
            return ("or", [self.cond(e["a"], st), self.cond(e["b"], st)])
        if k == "un" and e["op"] in ("!", "not"):
            return neg(self.cond(e["a"], st))
        if k == "bin" and e["op"] in ("==", "!=", "<", "<=", ">", ">="):
            a, b = self.ev(e["a"], st), self.ev(e["b"], st)
            return self.compare(e["op"], a, b, st)
        if k == "call" and (e.get("f") or "").split("::")[-1] in (
                "operator==", "operator!="):
            xs = ([e["o"]] if e.get("o") else []) + e["a"]
            if len(xs) == 2:
                a, b = self.ev(xs[0], st), self.ev(xs[1], st)
                op = "==" if e["f"].endswith("operator==") else "!="
                return self.compare(op, a, b, st)
        v = self.ev(e, st)
        if isinstance(v, tuple) and v and v[0] in (
                "const", "ge", "eq", "ne", "and", "or", "veq", "vne", "unk",
                "feq", "fne", "fc"):
            return v
        if isinstance(v, Poly):
            return self.compare("!=", v, C(0), st)
        return ("unk", text(e0))

    def compare(self, op, a, b, st):
        if isinstance(a, tuple) or isinstance(b, tuple):
            return ("unk", "bool")
        isv = (Vec, LV, Snap)
        if isinstance(a, VIt) and isinstance(b, VIt):
            if not same(a.v, b.v):
                return ("unk", "iterators")
            a, b = a.off, b.off
        if isinstance(a, isv) and isinstance(b, isv):
            r = ("veq", self.freeze(a, st), self.freeze(b, st))
            return r if op == "==" else neg(r)
        if isinstance(a, Sc) and isinstance(b, Poly):
            b = Sc(str(b), float(b.cval()) if b.is_const() else None)
        if isinstance(b, Sc) and isinstance(a, Poly):
            a = Sc(str(a), float(a.cval()) if a.is_const() else None)
        if isinstance(a, Sc) and isinstance(b, Sc):
            if op in ("==", "!="):
                if a.val is not None and b.val is not None:
                    return ("const", (a.val == b.val) == (op == "=="))
                if a.n > b.n:
                    a, b = b, a
                return ("feq" if op == "==" else "fne", a, b)
            return ("fc", "%s %s %s" % (a, op, b), True)
        if not (isinstance(a, Poly) and isinstance(b, Poly)):
            return ("unk", "%s %s %s" % (a, op, b))
        if op == "==":
            return ("eq", a - b)
        if op == "!=":
            return ("ne", a - b)
        if op == "<":
            return ("ge", b - a - C(1))
        if op == "<=":
            return ("ge", b - a)
        if op == ">":
            return ("ge", a - b - C(1))
        return ("ge", a - b)

    def decide(self, c, st):
        k = c[0]
        f = st.facts
        if k == "const":
            return c[1]
        if k == "ge":
            return f.decide_ge(c[1])
        if k == "eq":
            return f.decide_eq(c[1])
        if k == "ne":
            d = f.decide_eq(c[1])
            return None if d is None else not d
        if k in ("and", "or"):
            ds = [self.decide(x, st) for x in c[1]]
            stop = k == "or"
            if any(d is stop for d in ds):
                return stop
            if all(d is (not stop) for d in ds):
                return not stop
            return None
        if k in ("feq", "fne"):
            for cc in st.conds:
                if cc[0][0] in ("feq", "fne") and cc[0][1:] == c[1:]:
                    return cc[0][0] == k
            for cc in f.ors:
                if cc[0] in ("feq", "fne") and cc[1:] == c[1:]:
                    return cc[0] == k
            # two different constants
            for other in list(f.ors):
                if other[0] == "feq":
                    x, y = other[1], other[2]
                    for p, q in ((x, y), (y, x)):
                        if p.val is not None and q.val is None:
                            for r, t in ((c[1], c[2]), (c[2], c[1])):
                                if t == q and r.val is not None and \
                                        r.val != p.val:
                                    return k == "fne"
            return None
        if k in ("veq", "vne"):
            if str(c[1]) == str(c[2]):
                return k == "veq"
            return None
        return None

    def maybe_split(self, c, st):
        """Ask for the loop range to be split where the condition changes."""
        for x in flatten(c):
            if x[0] not in ("ge", "eq", "ne"):
                continue
            if self.decide(x, st) is not None:
                continue
            for name, a, b in reversed(st.loops):
                if a is None or name not in x[1].atoms():
                    continue
                p = st.facts.norm(x[1])
                c1, r = p.coeff(name)
                if c1 is None or not c1.is_const() or \
                        c1.cval() not in (1, -1):
                    continue
                if any(q.startswith("?") for q in r.atoms()):
                    continue
                inner = False
                for q in r.atoms():
                    if depends_inner(q, st.loops, name):
                        inner = True
                if inner:
                    continue
                if x[0] in ("eq", "ne"):
                    e = r * C(-c1.cval())
                    raise Split(name, e, True)
                if c1.cval() == 1:        # L + r >= 0  <=>  L >= -r
                    raise Split(name, r * C(-1), False)
                raise Split(name, r + C(1), False)

    def assume(self, st, c):
        k = c[0]
        f = st.facts
        if k == "ge":
            f.add_ge(c[1])
        elif k == "eq":
            f.add_eq(c[1])
        elif k == "ne":
            f.ne.append(c[1])
        elif k == "and":
            for x in c[1]:
                self.assume(st, x)
        elif k == "or":
            live = [x for x in c[1] if self.decide(x, st) is not False]
            if len(live) == 1:
                self.assume(st, live[0])
            else:
                f.ors.append(("or", c[1]))
        elif k == "veq":
            a, b = c[1], c[2]
            la, lb = self.length(a, st), self.length(b, st)
            if la is not None and lb is not None:
                f.add_eq(la - lb)
                pa = self.index(a, AT, st)
                pb = self.index(b, AT, st)
                if isinstance(pa, Poly) and isinstance(pb, Poly):
                    f.fa.append((C(0), la, "eq", pa - pb))
            f.ors.append(c)
        elif k in ("vne", "feq", "fne"):
            f.ors.append(c)

    # -- vectors -------------------------------------------------------------
    def freeze(self, v, st):
        if isinstance(v, LV):
            h = st.heap[v.i]
            b = h.base
            if not h.pieces and b is not None and b[0] == "vec":
                return b[1]
            ps = []
            for lo, hi, val in h.pieces:
                ps = [z for z in ps if z[:2] != (lo, hi)]
                ps.append((lo, hi, val))
            return Snap(tuple(ps), h.base, h.ln)
        return v

    def length(self, v, st):
        if isinstance(v, Vec):
            return v.ln
        if isinstance(v, LV):
            return st.heap[v.i].ln
        if isinstance(v, Snap):
            return v.ln
        return None

    def index(self, v, i, st):
        """Value of v[i]."""
        if not isinstance(i, Poly):
            return Unk("index")
        if isinstance(v, Vec):
            return self.elem(v, i)
        if isinstance(v, LV):
            h = st.heap[v.i]
            return self.lookup(h.pieces, h.base, i, st)
        if isinstance(v, Snap):
            return self.lookup(v.pieces, v.base, i, st)
        return Unk("index of %s" % (v,))

    def lookup(self, pieces, base, i, st):
        f = st.facts
        for lo, hi, val in reversed(pieces):
            ii = f.norm(i)
            if f.norm(lo) == ii and f.norm(hi - lo) == C(1):
                inside = True
            elif "@" in ii.atoms():
                inside = None
                if f.norm(lo) == C(0):
                    inside = None
            else:
                a, b = f.decide_ge(i - lo), f.decide_ge(hi - i - C(1))
                inside = True if a and b else \
                    False if a is False or b is False else None
            if inside:
                if not isinstance(val, Poly):
                    return val
                return val.subst({"@": i})
            if inside is None:
                self.split_point(i, lo, hi, st)
                return self.fresh("e")
        if base is None:
            return self.fresh("e")
        if base[0] == "const":
            return base[1]
        if base[0] == "vec":
            return self.elem(base[1], i)
        return self.fresh("e")

    def split_point(self, i, lo, hi, st):
        if st.facts.norm(hi - lo) == C(1):
            self.maybe_split(("eq", i - lo), st)
        else:
            self.maybe_split(("ge", i - lo), st)
            self.maybe_split(("ge", hi - i - C(1)), st)

    def elem(self, v, i):
        if v.role == "stride":
            return pprod(v.owner, i)
        return atom("el", v.n, i)

    # -- expressions ---------------------------------------------------------
    def ev(self, e, st):
        if e is None:
            return Unk("none")
        k = e.get("k")
        m = getattr(self, "e_" + k, None)
        if m is None:
            return Unk(k)
        return m(e, st)

    def e_int(self, e, st):
        return C(int(e["v"]))

    def e_flt(self, e, st):
        try:
            v = float(e["v"])
        except ValueError:
            return Sc(e["v"])
        return Sc("%g" % v, v)

    def e_zero(self, e, st):
        t = e.get("t", "")
        if re.search(r"float|double", t):
            return Sc("0", 0.0)
        return C(0)

    def e_str(self, e, st):
        return Unk("string")

    def e_null(self, e, st):
        return C(0)

    def e_sizeof(self, e, st):
        return atom("sizeof", e.get("of"))

    def e_var(self, e, st):
        v = st.env.get(e["id"])
        if v is not None:
            return v
        return Unk("var " + str(e.get("n")))

    def e_fn(self, e, st):
        return Unk("fn " + str(e.get("f")))

    def e_this(self, e, st):
        return st.env.get("this", Unk("this"))

    def e_lambda(self, e, st):
        return Lam(e)

    def e_cast(self, e, st):
        v = self.ev(e["a"], st)
        t = e.get("t", "")
        if isinstance(v, Poly) and re.search(r"\b(float|double)\b", t) and \
                "*" not in t:
            if v.is_const():
                return Sc("%g" % v.cval(), float(v.cval()))
            return Sc("(%s)" % v)
        if isinstance(v, Sc) and v.val is not None and \
                re.search(r"\b(long|int)\b", t) and "*" not in t:
            return C(int(v.val))
        return v

    def e_cond(self, e, st):
        c = self.cond(e["c"], st)
        d = self.decide(c, st)
        if d is None:
            self.maybe_split(c, st)
        if d is True:
            return self.ev(e["a"], st)
        if d is False:
            return self.ev(e["b"], st)
        a, b = self.ev(e["a"], st), self.ev(e["b"], st)
        if same(a, b):
            return a
        if isinstance(a, Poly) and isinstance(b, Poly):
            v = atom("ite", cstr(c), str(a), str(b))
            ATOM[str(v)] = ("ite", c, a, b)
            return v
        if isinstance(a, Sc) and isinstance(b, Sc):
            return Sc("ite(%s,%s,%s)" % (cstr(c), a, b))
        return Unk("cond")

    def e_il(self, e, st):
        vs = [self.ev(x, st) for x in e["a"]]
        if len(vs) == 1 and isinstance(vs[0], (Vec, LV, Snap, Poly, Sc)):
            if not re.search(r"array|vector|initializer_list|\[\d*\]$",
                             e.get("t", "")):
                return vs[0]
        if len(vs) == 1 and isinstance(vs[0], (LV, Snap)):
            return vs[0]
        v = self.newvec(st, C(len(vs)))
        st.heap[v.i].pieces = [(C(i), C(i + 1), x) for i, x in enumerate(vs)]
        return v

    def e_ctor(self, e, st):
        c = e.get("c", "")
        a = e["a"]
        if c == "std::vector":
            a = [x for x in a if not (x.get("k") == "ctor" and
                                      "allocator" in x.get("c", ""))]
            if not a:
                return self.newvec(st, C(0), ("const", C(0)))
            v = self.ev(a[0], st)
            if isinstance(v, VIt) and len(a) >= 2:
                w = self.ev(a[1], st)
                if isinstance(w, VIt) and same(v.v, w.v):
                    ps = self.slice(v.v, v.off, w.off, C(0), st)
                    return self.newvec(
                        st, w.off - v.off, ("const", C(0)) if ps is not None
                        else None, ps or ())
                return self.newvec(st)
            if isinstance(v, (Vec, LV, Snap)):
                if e.get("elidable"):
                    return v
                return self.clone(v, st) if not isinstance(v, Snap) \
                    else self.unsnap(v, st)
            if isinstance(v, Poly):
                fill = C(0)
                if len(a) > 1:
                    fill = self.ev(a[1], st)
                    if not isinstance(fill, Poly):
                        return self.newvec(st, v, None)
                return self.newvec(st, v, ("const", fill))
            return self.newvec(st)
        if len(a) == 1:
            v = self.ev(a[0], st)
            if isinstance(v, (Obj, Hnd, Poly, Sc, Ptr, VIt)):
                return v
        if "VariableHandle" in c or "Handle" in c:
            for x in a:
                self.ev(x, st)
            return Hnd(Obj("scratch@%s" % e.get("l"), "scratch"))
        return Unk("ctor " + c)

    def e_mem(self, e, st):
        b = self.ev(e["b"], st) if e.get("b") else st.env.get("this")
        n = e["n"]
        return self.member(b, n, e, st)

    def member(self, b, n, e, st):
        if isinstance(b, Obj):
            if b.kind == "transop":
                return C(int(b.n)) if b.n.isdigit() else atom("p", b.n)
            if b.kind in ("tensor", "tile", "grid"):
                o = b.n
                nd = atom("ndim", o if b.kind != "grid" else b.tensor)
                if n == "ndim":
                    return nd
                if n == "shape":
                    return Vec(o + ".shape", nd, o, "shape")
                if n == "basetile_shape":
                    return Vec(o + ".basetile_shape", nd, o, "basetile")
                if n == "leftover_shape":
                    return Vec(o + ".leftover_shape", nd, o, "leftover")
                if n == "stride":
                    return Vec(o + ".stride", nd, o, "stride")
                if n == "nelems":
                    return pprod(o, nd)
                if n == "matrix_shape":
                    return ("ms", o, nd)
                if n == "grid" and b.kind == "tensor":
                    return Obj(b.n + ".grid", "grid", b.n)
                if n == "tile_traits" or n == "tile_handles":
                    return ("tiles", b, n)
            return Unk("member %s" % n)
        if isinstance(b, Ptr) and e.get("ar") or isinstance(b, tuple) and \
                b and b[0] == "struct":
            return self.field(b, n, e, st)
        return Unk("member %s of %s" % (n, b))

    def field(self, b, n, e, st):
        t = e.get("t", "")
        if re.search(r"float|double", t):
            return Sc("args." + n)
        return atom("p", "args." + n)

    def e_idx(self, e, st):
        b = self.ev(e["b"], st)
        i = self.ev(e["i"], st)
        return self.at(b, i, e, st)

    def at(self, b, i, e, st):
        if isinstance(b, tuple) and b and b[0] == "ms":
            return ("ms1", b[1], b[2], i)
        if isinstance(b, tuple) and b and b[0] == "ms1":
            if isinstance(i, Poly) and i.is_const() and isinstance(b[3], Poly):
                o, nd, j = b[1], b[2], b[3]
                if i.cval() == 0:
                    return pprod(o, j)
                # product of the extents from j on
                return atom("sp", o, str(j)) if False else \
                    self.suffix(o, nd, j)
            return Unk("ms")
        if isinstance(b, tuple) and b and b[0] == "tiles":
            if b[2] == "tile_traits":
                return self.tile_traits(b[1], i, st)
            return Hnd(b[1], self.tile_index(i, st))
        if isinstance(b, (Vec, LV, Snap)):
            return self.index(b, i, st)
        if isinstance(b, VIt) and isinstance(i, Poly):
            return self.index(b.v, b.off + i, st)
        if isinstance(b, Ptr) and isinstance(i, Poly):
            return self.load(b.base, b.off + i, e, st)
        return Unk("index")

    def suffix(self, o, nd, j):
        n = "sp(%s,%s)" % (o, j)
        ATOM.setdefault(n, ("sp", o, nd, j))
        return Poly.atom(n)

    def load(self, base, off, e, st):
        self.access("r", base, off, e, st)
        return Unk("load")

    def access(self, kind, base, off, e, st):
        st.trace = st.trace + (Event("access", kind, [("base", base),
                                                      ("off", off)],
                                     e.get("l"), st),)

    def tile_index(self, i, st):
        if isinstance(i, (LV, Vec)):
            return self.freeze(i, st)
        return i

    def tile_traits(self, t, i, st):
        i = self.tile_index(i, st)
        n = "tile(%s@%s)" % (t.n, i)
        TILES.setdefault(n, (t.n, i))
        return Obj(n, "tile", t.n, i)

    def e_un(self, e, st):
        op = e["op"]
        if op in ("++", "--", "p++", "p--"):
            v = self.ev(e["a"], st)
            d = C(1 if "++" in op else -1)
            if isinstance(v, Poly):
                nv = v + d
            elif isinstance(v, Ptr):
                nv = Ptr(v.base, v.off + d)
            elif isinstance(v, VIt):
                nv = VIt(v.v, v.off + d)
            else:
                nv = Unk("inc")
            self.assign(e["a"], nv, st)
            return v if op[0] == "p" else nv
        if op == "-":
            v = self.ev(e["a"], st)
            if isinstance(v, Poly):
                return v * C(-1)
            if isinstance(v, Sc):
                return Sc("-" + v.n, -v.val if v.val is not None else None)
            return Unk("neg")
        if op == "+":
            return self.ev(e["a"], st)
        if op == "*":
            v = self.ev(e["a"], st)
            if isinstance(v, Ptr):
                return self.load(v.base, v.off, e, st)
            if isinstance(v, VIt):
                return self.index(v.v, v.off, st)
            return v if isinstance(v, (Obj, Hnd)) else Unk("deref")
        if op == "&":
            b = uncast(e["a"])
            if b.get("k") == "idx":
                p = self.ev(b["b"], st)
                i = self.ev(b["i"], st)
                if isinstance(p, Ptr) and isinstance(i, Poly):
                    return Ptr(p.base, p.off + i)
                if isinstance(p, (LV, Vec)) and isinstance(i, Poly):
                    return VIt(p, i)
                if isinstance(p, VIt) and isinstance(i, Poly):
                    return VIt(p.v, p.off + i)
            if b.get("k") == "call" and b.get("o") and b["a"] and \
                    (b.get("f") or "").endswith("operator[]"):
                p = self.ev(b["o"], st)
                i = self.ev(b["a"][0], st)
                if isinstance(p, (LV, Vec)) and isinstance(i, Poly):
                    return VIt(p, i)
            if b.get("k") == "un" and b["op"] == "*":
                return self.ev(b["a"], st)
            v = self.ev(e["a"], st)
            return v if isinstance(v, (Obj, Hnd)) else Unk("addr")
        if op in ("!", "not"):
            return neg(self.cond(e["a"], st))
        return Unk("un " + op)

    def e_bin(self, e, st):
        op = e["op"]
        if op == ",":
            self.ev(e["a"], st)
            return self.ev(e["b"], st)
        if op in ("==", "!=", "<", "<=", ">", ">=", "&&", "||", "and", "or"):
            return self.cond(e, st)
        a, b = self.ev(e["a"], st), self.ev(e["b"], st)
        return self.arith(op, a, b, st)

    def arith(self, op, a, b, st):
        if isinstance(a, Ptr) and isinstance(b, Poly) and op in "+-":
            return Ptr(a.base, a.off + b if op == "+" else a.off - b)
        if isinstance(b, Ptr) and isinstance(a, Poly) and op == "+":
            return Ptr(b.base, b.off + a)
        if isinstance(a, VIt) or isinstance(b, VIt):
            if op in "+-":
                r = self.iterator("operator" + op, [a, b], None, None)
                if r is not None:
                    return r
            return Unk("iterator")
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op == "-" and \
                a.base == b.base:
            return a.off - b.off
        if isinstance(a, Poly) and isinstance(b, Poly):
            if op == "+":
                return a + b
            if op == "-":
                return a - b
            if op == "*":
                return a * b
            if op == "/":
                if b == C(1):
                    return a
                if a.is_const() and b.is_const() and b.cval():
                    q = abs(a.cval()) // abs(b.cval())
                    return C(q if a.cval() * b.cval() >= 0 else -q)
                q = divide(a, b)
                if q is not None:
                    return q
                v = atom("div", str(a), str(b))
                ATOM[str(v)] = ("div", a, b)
                return v
            if op == "%":
                v = atom("mod", str(a), str(b))
                ATOM[str(v)] = ("mod", a, b)
                return v
            return self.fresh("o")
        if isinstance(a, (Sc, Poly)) and isinstance(b, (Sc, Poly)):
            return Sc("(%s%s%s)" % (a, op, b))
        return Unk("arith")

    def e_asg(self, e, st):
        op = e["op"]
        v = self.ev(e["b"], st)
        if op != "=":
            cur = self.ev(e["a"], st)
            v = self.arith(op[:-1], cur, v, st)
        if isinstance(v, LV):
            v = self.clone(v, st)
        self.assign(e["a"], v, st)
        return v

    def assign(self, l, v, st):
        l = uncast(l)
        k = l.get("k")
        if k == "var":
            i = st.env.get(("ref", l["id"]))
            if i is not None:
                l = dict(l, id=i)
            st.env[l["id"]] = v
        elif k == "idx" or (k == "call" and
                            (l.get("f") or "").endswith("operator[]")):
            if k == "idx":
                b, i = self.ev(l["b"], st), self.ev(l["i"], st)
            else:
                b, i = self.ev(l["o"], st), self.ev(l["a"][0], st)
            if isinstance(b, VIt) and isinstance(b.v, LV):
                i = b.off + i if isinstance(i, Poly) else i
                b = b.v
            if isinstance(b, LV):
                h = st.heap[b.i]
                if isinstance(i, Poly):
                    h.pieces.append((i, i + C(1), v))
                else:
                    h.pieces, h.base = [], None
            elif isinstance(b, Ptr):
                off = b.off + i if isinstance(i, Poly) else self.fresh("i")
                self.access("w", b.base, off, l, st)
            elif isinstance(b, (Unk, VIt)):
                self.forget(st)
        elif k == "call" and (l.get("f") or "").endswith("operator*") or \
                k == "un" and l["op"] == "*":
            x = l.get("o") or (l["a"][0] if k == "call" else l["a"])
            b = self.ev(x, st)
            if isinstance(b, VIt) and isinstance(b.v, LV):
                st.heap[b.v.i].pieces.append((b.off, b.off + C(1), v))
            elif isinstance(b, Ptr):
                self.access("w", b.base, b.off, l, st)
            elif isinstance(b, (Unk, VIt)):
                self.forget(st)
        elif k == "call" and (l.get("f") or "").split("::")[-1] in (
                "at", "front", "back"):
            b = self.ev(l["o"], st) if l.get("o") else None
            if isinstance(b, LV):
                h = st.heap[b.i]
                m = l["f"].split("::")[-1]
                i = self.ev(l["a"][0], st) if m == "at" else C(0) \
                    if m == "front" else h.ln - C(1) if h.ln is not None \
                    else None
                if isinstance(i, Poly):
                    h.pieces.append((i, i + C(1), v))
                else:
                    h.pieces, h.base = [], None
        elif k == "mem":
            pass

    def forget(self, st):
        """A store to an unknown place: vectors hold anything."""
        for h in st.heap.values():
            h.pieces, h.base = [], None

    def args_of(self, e, st):
        out = []
        pn = e.get("pn") or []
        for i, a in enumerate(e["a"]):
            out.append((pn[i] if i < len(pn) else "a%d" % i, self.ev(a, st)))
        return out

    def e_call(self, e, st):
        f = e.get("f") or ""
        n = re.sub(r"<.*>$", "", f).split("::")[-1]
        if n in ZERO_CALLS:
            return C(0)
        if n in SKIP_CALLS:
            if n in ("starpu_task_wait_for_all",):
                st.trace = st.trace + (Event("wait", n, [], e.get("l"), st),)
            return C(0)
        if n == "starpu_mpi_world_size":
            return C(1)
        o = self.ev(e["o"], st) if e.get("o") else None
        if n == "operator()" and isinstance(o, Lam):
            return self.inline(o.node, e, st, None)
        if o is not None or e.get("oc"):
            r = self.method(n, o, e, st)
            if r is not None:
                return r
        if f.startswith("std::") and e["a"]:
            r = self.algorithm(n, e, st)
            if r is not None:
                return r
        if n in ("min", "max") and len(e["a"]) == 2:
            a, b = self.ev(e["a"][0], st), self.ev(e["a"][1], st)
            if isinstance(a, Poly) and isinstance(b, Poly):
                if a == b:
                    return a
                d = st.facts.decide_ge(a - b)
                if d is not None:
                    return (b if n == "min" else a) if d else \
                        (a if n == "min" else b)
                x, y = sorted((a, b), key=str)
                v = atom(n, str(x), str(y))
                ATOM[str(v)] = (n, x, y)
                return v
            return Unk(n)
        if n in ("move", "forward", "ref", "cref", "as_const") and e["a"]:
            return self.ev(e["a"][0], st)
        if n == "swap" and len(e["a"]) == 2:
            a, b = self.ev(e["a"][0], st), self.ev(e["a"][1], st)
            self.assign(e["a"][0], b, st)
            self.assign(e["a"][1], a, st)
            return C(0)
        if re.match(r"nntile::starpu::\w+::submit(_mpi)?$", re.sub(r"<.*>$", "", f)):
            args = [(p, self.freeze(v, st)) for p, v in self.args_of(e, st)]
            st.trace = st.trace + (Event("submit", f.split("::")[-2], args,
                                         e.get("l"), st, e.get("ta")),)
            return C(0)
        if f.split("::")[-1] == "starpu_data_cpy" or n == "starpu_data_cpy":
            args = self.args_of(e, st)
            st.trace = st.trace + (Event("submit", "data_cpy",
                                         [("dst", args[0][1]),
                                          ("src", args[1][1])],
                                         e.get("l"), st),)
            return self.fresh("ret")
        if self.keep is not None and self.keep(f, e):
            args = [(p, self.freeze(v, st)) for p, v in self.args_of(e, st)]
            ev = Event("call", f, args, e.get("l"), st, e.get("ta"))
            ev.callee = e.get("m")
            st.trace = st.trace + (ev,)
            return C(0)
        g = self.fns.get(e.get("m"))
        if g is not None and g.get("body") is not None and self.depth < 12:
            if n.endswith("_async") and self.layer in ("tile", "tensor"):
                args = [(p, self.freeze(v, st))
                        for p, v in self.args_of(e, st)]
                st.trace = st.trace + (Event("async", n, args, e.get("l"),
                                             st, e.get("ta")),)
                # its validation has run as well: inline for facts and tasks
            return self.inline(g, e, st, o)
        if n.replace("__builtin_", "") in ("memcpy", "memmove", "memset") \
                and e["a"]:
            # elements of a vector change
            l = uncast(e["a"][0])
            x = self.ev(l, st)
            if l.get("k") == "un" and l["op"] == "&":
                l = uncast(l["a"])
                if l.get("k") in ("call", "idx"):
                    x = self.ev(l["o"] if l["k"] == "call" and l.get("o")
                                else l.get("b") or l, st)
            x = x.v if isinstance(x, VIt) else x
            if isinstance(x, LV):
                h = st.heap[x.i]
                h.pieces, h.base = [], None
        for a in e["a"]:
            self.ev(a, st)
        if n.endswith("_async"):
            args = [(p, self.freeze(v, st)) for p, v in self.args_of(e, st)]
            st.trace = st.trace + (Event("async", n, args, e.get("l"), st,
                                         e.get("ta")),)
            return C(0)
        if re.search(r"\b(float|double)\b", e.get("t") or ""):
            return Sc("%s(%s)" % (n, ",".join(
                str(self.ev(a, st)) for a in e["a"])))
        return self.fresh("r") if re.search(r"\b(int|long)\b",
                                            e.get("t") or "") else Unk(n)

    def method(self, n, o, e, st):
        a = e["a"]
        if isinstance(o, Obj) and o.kind == "tensor":
            if n == "get_tile_handle":
                return Hnd(o, self.canon_index(o, self.ev(a[0], st), st))
            if n == "get_tile_traits":
                return self.tile_traits(
                    o, self.canon_index(o, self.ev(a[0], st), st), st)
            if n == "get_tile":
                return self.tile_traits(
                    o, self.canon_index(o, self.ev(a[0], st), st), st)
            if n == "get_tile_shape":
                i = self.ev(a[0], st)
                t = self.tile_traits(
                    o, ("lin", o.n, self.freeze(i, st)), st)
                return self.member(t, "shape", e, st)
        if isinstance(o, Obj) and o.kind in ("grid", "tensor", "tile"):
            if n == "linear_to_index":
                p = self.ev(a[0], st)
                if isinstance(p, Poly):
                    nd = self.member(o, "ndim", e, st)
                    nm = "idx(%s,%s)" % (o.n, p)
                    IDX.setdefault(nm, (o.n, p))
                    v = Vec(nm, nd, o.n, "idx")
                    return v
                return self.newvec(st)
            if n == "index_to_linear":
                v = self.freeze(self.ev(a[0], st), st)
                if isinstance(v, Vec) and v.role == "idx" and \
                        IDX[v.n][0] == o.n:
                    return IDX[v.n][1]
                nm = "lin(%s,%s)" % (o.n, v if not isinstance(v, Vec)
                                     else v.n)
                ATOM.setdefault(nm, ("lin", o.n, v))
                return Poly.atom(nm)
        if isinstance(o, (Vec, LV, Snap)):
            if n == "size":
                ln = self.length(o, st)
                return ln if ln is not None else self.fresh("size")
            if n in ("operator[]", "at"):
                return self.index(o, self.ev(a[0], st), st)
            if n == "empty":
                ln = self.length(o, st)
                return ("eq", ln) if ln is not None else Unk("empty")
            if n == "operator=":
                v = self.ev(a[0], st)
                if isinstance(o, LV):
                    v2 = self.clone(v, st)
                    if isinstance(v2, LV):
                        st.heap[o.i] = st.heap[v2.i].copy()
                    else:
                        st.heap[o.i] = VecState()
                return o
            if n in ("resize", "assign") and isinstance(o, LV):
                x = self.ev(a[0], st)
                if isinstance(x, Poly):
                    fill = self.ev(a[1], st) if len(a) > 1 else C(0)
                    h = st.heap[o.i]
                    if h.ln is not None and st.facts.norm(h.ln).is_zero() \
                            or n == "assign":
                        st.heap[o.i] = VecState((), ("const", fill) if
                                                isinstance(fill, Poly)
                                                else None, x)
                    else:
                        h.ln = x
                return C(0)
            if n == "push_back" and isinstance(o, LV):
                h = st.heap[o.i]
                v = self.ev(a[0], st)
                if h.ln is not None:
                    h.pieces.append((h.ln, h.ln + C(1), v))
                    h.ln = h.ln + C(1)
                return C(0)
            if n in ("begin", "cbegin", "data"):
                return VIt(o, C(0))
            if n in ("end", "cend"):
                ln = self.length(o, st)
                return VIt(o, ln) if ln is not None else Unk("end")
            if n in ("front", "back"):
                ln = self.length(o, st)
                if n == "front":
                    return self.index(o, C(0), st)
                return self.index(o, ln - C(1), st) if ln is not None \
                    else self.fresh("e")
            if n == "emplace_back" and len(a) == 1 and isinstance(o, LV):
                return self.method("push_back", o, e, st)
            if n in ("reserve", "shrink_to_fit"):
                return C(0)
            if isinstance(o, LV):
                h = st.heap[o.i]
                xs = [self.ev(x, st) for x in a]
                if n == "clear":
                    st.heap[o.i] = VecState((), ("const", C(0)), C(0))
                    return C(0)
                if n == "pop_back" and h.ln is not None:
                    h.ln = h.ln - C(1)
                    return C(0)
                if n == "swap" and xs and isinstance(xs[0], LV):
                    j = xs[0].i
                    st.heap[o.i], st.heap[j] = st.heap[j], st.heap[o.i]
                    return C(0)
                if n == "assign" and len(xs) == 2 and all(
                        isinstance(x, VIt) for x in xs) and \
                        same(xs[0].v, xs[1].v):
                    ps = self.slice(xs[0].v, xs[0].off, xs[1].off, C(0), st)
                    st.heap[o.i] = VecState(
                        ps or (), ("const", C(0)) if ps is not None else None,
                        xs[1].off - xs[0].off)
                    return C(0)
                if n in ("insert", "emplace") and len(xs) >= 2 and \
                        isinstance(xs[0], VIt) and same(xs[0].v, o) and \
                        h.ln is not None:
                    at, cnt, mid = xs[0].off, None, None
                    if len(xs) == 2 and isinstance(xs[1], (Poly, Unk)):
                        cnt, mid = C(1), [(at, at + C(1), xs[1])]
                    elif len(xs) == 3 and isinstance(xs[1], Poly) and \
                            isinstance(xs[2], Poly):
                        cnt, mid = xs[1], [(at, at + xs[1], xs[2])]
                    elif len(xs) == 3 and isinstance(xs[1], VIt) and \
                            isinstance(xs[2], VIt) and \
                            same(xs[1].v, xs[2].v):
                        cnt = xs[2].off - xs[1].off
                        mid = self.slice(xs[1].v, xs[1].off, xs[2].off, at,
                                         st)
                    if cnt is not None:
                        l = self.slice(o, C(0), at, C(0), st)
                        r = self.slice(o, at, h.ln, at + cnt, st)
                        ln = h.ln + cnt
                        ok = None not in (l, r, mid)
                        st.heap[o.i] = VecState(
                            l + mid + r if ok else (),
                            ("const", C(0)) if ok else None, ln)
                        return VIt(o, at)
                if n == "erase" and xs and isinstance(xs[0], VIt) and \
                        same(xs[0].v, o) and h.ln is not None and (
                        len(xs) == 1 or isinstance(xs[1], VIt)):
                    at = xs[0].off
                    to = xs[1].off if len(xs) > 1 else at + C(1)
                    l = self.slice(o, C(0), at, C(0), st)
                    r = self.slice(o, to, h.ln, at, st)
                    ok = None not in (l, r)
                    st.heap[o.i] = VecState(l + r if ok else (),
                                            ("const", C(0)) if ok else None,
                                            h.ln - (to - at))
                    return VIt(o, at)
                if n not in ("capacity", "max_size", "get_allocator"):
                    st.heap[o.i] = VecState()
            return Unk("vector::" + n)
        if isinstance(o, VIt) or n in ("operator+", "operator-",
                                       "operator==", "operator!=") and any(
                isinstance(self.ev(x, st), VIt) for x in a):
            xs = ([o] if o is not None else []) + [self.ev(x, st) for x in a]
            r = self.iterator(n, xs, e, st)
            if r is not None:
                return r
            return Unk("iterator::" + n)
        if n in ("get_ptr", "getPtr") and isinstance(o, tuple) and o[0] == \
                "iface":
            return Ptr(o[1], C(0))
        if n.startswith("operator") and ("data_handle" in n or "*" in n or
                                         "starpu" in n):
            return o
        if isinstance(o, Hnd):
            return Unk("handle::" + n)
        return None

    def slice(self, v, p, q, to, st):
        """Pieces that hold v[p:q] at positions to.. of another vector; None
        when the contents are not known."""
        sh = to - p

        def put(lo, hi, val):
            if isinstance(val, Poly):
                val = val.subst({"@": AT - sh})
            return (lo + sh, hi + sh, val)
        if isinstance(v, Vec):
            return [put(p, q, self.elem(v, AT))]
        pieces, base = (st.heap[v.i].pieces, st.heap[v.i].base) \
            if isinstance(v, LV) else (v.pieces, v.base)
        out = []
        if base is not None and base[0] == "const":
            out.append(put(p, q, base[1]))
        elif base is not None and base[0] == "vec":
            out.append(put(p, q, self.elem(base[1], AT)))
        f = st.facts
        for lo, hi, val in pieces:
            ds = []
            for x in (lo - p, q - hi):
                d = f.decide_ge(x)
                if d is None:
                    self.maybe_split(("ge", x), st)
                ds.append(d)
            if None in ds:
                return None
            a = lo if ds[0] else p
            b = hi if ds[1] else q
            d = f.decide_ge(b - a - C(1))
            if d is None:
                # an empty piece is harmless when its ends do not cross
                if f.decide_ge(b - a) is not True:
                    return None
            if d is False:
                continue
            out.append(put(a, b, val))
        return out

    def iterator(self, n, xs, e, st):
        o = xs[0]
        if n in ("operator+", "operator-") and len(xs) == 2:
            b = xs[1]
            if isinstance(o, VIt) and isinstance(b, Poly):
                return VIt(o.v, o.off + b if n[-1] == "+" else o.off - b)
            if isinstance(b, VIt) and isinstance(o, Poly) and n[-1] == "+":
                return VIt(b.v, b.off + o)
            if isinstance(o, VIt) and isinstance(b, VIt) and n[-1] == "-" \
                    and same(o.v, b.v):
                return o.off - b.off
        if n in ("operator==", "operator!=") and len(xs) == 2 and all(
                isinstance(x, VIt) for x in xs) and same(xs[0].v, xs[1].v):
            return self.compare(n[-2:], xs[0].off, xs[1].off, st)
        if not isinstance(o, VIt):
            return None
        if n == "operator*" and len(xs) == 1:
            return self.index(o.v, o.off, st)
        if n == "operator[]" and len(xs) == 2 and isinstance(xs[1], Poly):
            return self.index(o.v, o.off + xs[1], st)
        if n in ("operator++", "operator--", "operator+=", "operator-="):
            d = C(1) if n[-1] in "+-" else xs[1]
            if not isinstance(d, Poly):
                d = self.fresh("it")
            nv = VIt(o.v, o.off + d if n[8] == "+" else o.off - d)
            self.assign(e["o"], nv, st)
            return o if len(xs) == 2 and n[-1] in "+-" else nv
        if n == "base":
            return o
        return None

    def algorithm(self, n, e, st):
        """Calls of <algorithm> and <numeric> on index vectors."""
        xs = [self.ev(x, st) for x in e["a"]]
        its = [x for x in xs if isinstance(x, VIt)]
        if n == "back_inserter" and len(xs) == 1 and isinstance(xs[0], LV):
            h = st.heap[xs[0].i]
            return VIt(xs[0], h.ln, True) if h.ln is not None \
                else Unk("inserter")
        if not its:
            if n in WRITERS:
                self.forget(st)
            return None
        if n in WRITERS and any(isinstance(x, Unk) for x in xs):
            self.forget(st)

        def write(it, cnt, pieces):
            if not isinstance(it, VIt) or not isinstance(it.v, LV):
                return Unk(n)
            h = st.heap[it.v.i]
            if it.grows:
                h.ln = it.off + cnt
            if pieces is None:
                h.pieces, h.base = [], None
            else:
                h.pieces = list(h.pieces) + list(pieces)
            return VIt(it.v, it.off + cnt)
        if n in ("copy", "copy_n") and len(xs) == 3 and isinstance(
                xs[0], VIt) and isinstance(xs[2], VIt):
            a, o = xs[0], xs[2]
            if n == "copy":
                if not isinstance(xs[1], VIt) or not same(a.v, xs[1].v):
                    return write(o, self.fresh("n"), None)
                q = xs[1].off
            elif isinstance(xs[1], Poly):
                q = a.off + xs[1]
            else:
                return write(o, self.fresh("n"), None)
            return write(o, q - a.off, self.slice(a.v, a.off, q, o.off, st))
        if n == "copy_backward" and len(xs) == 3 and all(
                isinstance(x, VIt) for x in xs) and same(xs[0].v, xs[1].v):
            cnt = xs[1].off - xs[0].off
            o = VIt(xs[2].v, xs[2].off - cnt)
            write(o, cnt, self.slice(xs[0].v, xs[0].off, xs[1].off, o.off,
                                     st))
            return o
        if n in ("fill", "fill_n") and len(xs) == 3 and isinstance(
                xs[0], VIt):
            if n == "fill":
                cnt = xs[1].off - xs[0].off if isinstance(xs[1], VIt) and \
                    same(xs[0].v, xs[1].v) else None
            else:
                cnt = xs[1] if isinstance(xs[1], Poly) else None
            v = xs[2]
            if cnt is None:
                return write(xs[0], self.fresh("n"), None)
            a = xs[0].off
            return write(xs[0], cnt, [(a, a + cnt, v if isinstance(v, Poly)
                                       else self.fresh("e"))])
        if n == "equal" and len(xs) in (3, 4) and all(
                isinstance(x, VIt) for x in xs):
            cnt = xs[1].off - xs[0].off
            p = self.slice(xs[0].v, xs[0].off, xs[1].off, C(0), st)
            q = self.slice(xs[2].v, xs[2].off, xs[2].off + cnt, C(0), st)
            if p is not None and q is not None:
                a, b = Snap(tuple(p), None, cnt), Snap(tuple(q), None, cnt)
                r = ("veq", a, b)
                if len(xs) == 4:
                    return ("and", [("eq", xs[3].off - xs[2].off - cnt), r])
                return r
            return ("unk", n)
        # what else writes through its iterators is unknown afterwards
        for x in its:
            if isinstance(x.v, LV) and n not in (
                    "accumulate", "find", "find_if", "count", "count_if",
                    "all_of", "any_of", "none_of", "max_element",
                    "min_element", "distance", "mismatch", "is_sorted",
                    "equal", "inner_product", "next", "prev"):
                h = st.heap[x.v.i]
                h.pieces, h.base = [], None
        if n in ("next", "prev") and isinstance(xs[0], VIt):
            d = xs[1] if len(xs) > 1 else C(1)
            if isinstance(d, Poly):
                return VIt(xs[0].v, xs[0].off + d if n == "next"
                           else xs[0].off - d)
        if n == "distance" and len(xs) == 2 and len(its) == 2 and \
                same(xs[0].v, xs[1].v):
            return xs[1].off - xs[0].off
        if n == "accumulate" and len(xs) == 4 and len(its) == 2 and \
                isinstance(xs[2], Poly) and "multiplies" in str(
                    e["a"][3].get("t", "")) and isinstance(xs[0].v, Vec) and \
                xs[0].v.role == "shape" and xs[0].off.is_zero():
            return xs[2] * pprod(xs[0].v.owner, xs[1].off)
        if re.search(r"\bbool\b", e.get("t") or ""):
            return ("unk", n)
        if re.search(r"\b(int|long)\b", e.get("t") or ""):
            return self.fresh("r")
        return Unk(n)

    def canon_index(self, o, i, st):
        """Linear offset or frozen index vector."""
        if isinstance(i, (LV, Vec, Snap)):
            v = self.freeze(i, st)
            if isinstance(v, Vec) and v.role == "idx" and \
                    IDX[v.n][0] == o.n + ".grid":
                return IDX[v.n][1]
            nm = "lin(%s,%s)" % (o.n + ".grid", v if not isinstance(v, Vec)
                                 else v.n)
            ATOM.setdefault(nm, ("lin", o.n + ".grid", v))
            return Poly.atom(nm)
        if isinstance(i, Poly):
            return st.facts.norm(i)
        return i

    def inline_paths(self, g, e, st, obj):
        """Paths through the body of a called function."""
        if self.depth >= 12:
            raise GiveUp("inlining too deep")
        refs_ = {}
        for p, a in zip(g["ps"], e["a"]):
            v = self.ev(a, st)
            t = p["t"]
            if isinstance(v, (LV,)) and "&" not in t:
                v = self.clone(v, st)
            if isinstance(v, Snap):
                v = self.unsnap(v, st)
            b = uncast(a)
            if "&" in t and not t.startswith("const") and \
                    b.get("k") == "var":
                refs_[p["id"]] = b["id"]
            st.env[p["id"]] = v
        if obj is not None:
            st.env["this"] = obj
        self.depth += 1
        try:
            ps = self.stmt(g["body"], st)
        finally:
            self.depth -= 1
        for p in ps:
            for inner, outer in refs_.items():
                if inner in p.st.env:
                    p.st.env[outer] = p.st.env[inner]
        return ps

    def inline(self, g, e, st, obj):
        ps = self.inline_paths(g, e, st, obj)
        rets = [p for p in ps if p.flow in ("n", "ret")]
        throws = [p for p in ps if p.flow == "throw"]
        self.thrown = getattr(self, "thrown", [])
        self.thrown += throws
        if not rets:
            raise GiveUp("helper never returns")
        if len(rets) == 1:
            self.adopt(st, rets[0].st)
            return rets[0].val if rets[0].val is not None else C(0)
        # several returning paths: try to combine them into one
        r = rets[0]
        tr = [x.st.trace for x in rets]
        if all(t == tr[0] for t in tr) and all(
                x.val is None or same(x.val, r.val) for x in rets):
            self.adopt(st, r.st)
            st.conds = saved_conds(rets)
            return r.val if r.val is not None else C(0)
        if all(t == tr[0] for t in tr) and len(rets) == 2 and all(
                isinstance(x.val, (tuple, Poly)) for x in rets):
            v = self.combine(rets, st)
            if v is not None:
                return v
        raise GiveUp("helper with several outcomes")

    def combine(self, rets, st):
        a, b = rets
        n = min(len(a.st.conds), len(b.st.conds))
        i = 0
        while i < n and a.st.conds[i] == b.st.conds[i]:
            i += 1
        ca = [c for c, _ in a.st.conds[i:]]
        cb = [c for c, _ in b.st.conds[i:]]
        if not ca:
            return None

        def truth(v):
            if isinstance(v, Poly) and v.is_const():
                return ("const", v.cval() != 0)
            return v if isinstance(v, tuple) else None
        if isinstance(a.val, Poly) and isinstance(b.val, Poly) and not (
                a.val.is_const() and b.val.is_const()):
            c = ("and", ca) if len(ca) > 1 else ca[0]
            v = atom("ite", cstr(c), str(a.val), str(b.val))
            ATOM[str(v)] = ("ite", c, a.val, b.val)
            self.adopt(st, b.st)
            st.conds = st.conds[:i]
            return v
        ta, tb = truth(a.val), truth(b.val)
        if ta is None or tb is None:
            return None
        self.adopt(st, b.st)
        st.conds = st.conds[:i]
        return ("or", [("and", ca + [ta]), ("and", cb + [tb])])

    def adopt(self, st, o):
        st.env, st.heap, st.facts = o.env, o.heap, o.facts
        st.trace, st.conds = o.trace, o.conds


TILES = {}
IDX = {}


class Inline(Exception):
    pass


def saved_conds(rets):
    a = rets[0].st.conds
    n = len(a)
    for r in rets[1:]:
        i = 0
        while i < min(n, len(r.st.conds)) and r.st.conds[i] == a[i]:
            i += 1
        n = i
    return a[:n]


def has_exit(ps):
    return any(p.flow in ("break",) for p in ps)


def self_id(p):
    return max((int_id(a) for a in p.atoms()), default=0)


def int_id(a):
    m = re.match(r"\?[a-z]+(\d+)$", a)
    return int(m.group(1)) if m else -1


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, Poly):
        return a == b
    if isinstance(a, (Sc, Vec)):
        return a.n == b.n
    if isinstance(a, LV):
        return a.i == b.i
    if isinstance(a, (Obj,)):
        return a.n == b.n and a.kind == b.kind
    if isinstance(a, Hnd):
        return a.obj.n == b.obj.n and str(a.index) == str(b.index)
    if isinstance(a, Ptr):
        return a.base == b.base and a.off == b.off
    if isinstance(a, VIt):
        return same(a.v, b.v) and a.off == b.off
    if isinstance(a, Snap):
        return str(a) == str(b)
    if isinstance(a, Unk):
        return a.why == b.why
    if isinstance(a, tuple):
        return str(a) == str(b)
    if isinstance(a, Lam):
        return a.node is b.node
    return False


def same_base(a, b):
    if a is None or b is None:
        return a is b
    return a[0] == b[0] and same(a[1], b[1])


def gen(p, name):
    """Replace the loop variable by the quantified position, also inside
    element atoms."""
    m = {}
    for a in p.atoms():
        if a == name:
            m[a] = AT
        else:
            k = ATOM.get(a)
            if k and k[0] == "el" and isinstance(k[2], Poly) and \
                    name in k[2].atoms():
                m[a] = atom("el", k[1], k[2].subst({name: AT}))
            elif k and k[0] == "pp" and name in k[2].atoms():
                m[a] = atom("pp", k[1], k[2].subst({name: AT}))
            elif k and name in a:
                pass
    return p.subst(m)


# element atoms must follow substitutions of the variables in their index
_subst0 = Poly.subst


def _subst(self, m):
    r = _subst0(self, m)
    mm = {}
    for a in r.atoms():
        k = ATOM.get(a)
        if not k or a in m:
            continue
        if k[0] in ("el", "pp") and isinstance(k[2], Poly) and \
                any(x in m for x in k[2].atoms()):
            q = _subst(k[2], {x: v for x, v in m.items()})
            mm[a] = atom("el", k[1], q) if k[0] == "el" else pprod(k[1], q)
        elif k[0] == "sp" and isinstance(k[3], Poly) and \
                any(x in m for x in k[3].atoms()):
            q = _subst(k[3], m)
            n = "sp(%s,%s)" % (k[1], q)
            ATOM.setdefault(n, ("sp", k[1], k[2], q))
            mm[a] = Poly.atom(n)
    return _subst0(r, mm) if mm else r


Poly.subst = _subst


def divide(a, b):
    """Exact polynomial division by a monomial."""
    m = b.monomial()
    if m is None:
        return None
    c, ks = m
    out = {}
    for k, v in a.t.items():
        kk = list(k)
        for x in ks:
            if x not in kk:
                return None
            kk.remove(x)
        if v % c:
            return None
        out[tuple(kk)] = v // c
    return Poly(out)


def uncast(e):
    while isinstance(e, dict) and e.get("k") == "cast":
        e = e["a"]
    return e


def conj(c):
    c = uncast(c)
    if c.get("k") == "bin" and c["op"] in ("&&", "and"):
        return conj(c["a"]) + conj(c["b"])
    return [c]


def flatten(c):
    if c[0] in ("and", "or"):
        out = []
        for x in c[1]:
            out += flatten(x)
        return out
    return [c]


def has_unk(c):
    return any(x[0] == "unk" for x in flatten(c))


def refs(e):
    out = set()
    if isinstance(e, dict):
        if e.get("k") == "var":
            out.add(e["id"])
        for v in e.values():
            out |= refs(v)
    elif isinstance(e, list):
        for v in e:
            out |= refs(v)
    return out


def modified(e, fns=None, depth=0):
    """Variables assigned in a syntax tree."""
    out = set()
    if isinstance(e, list):
        for v in e:
            out |= modified(v, fns, depth)
        return out
    if not isinstance(e, dict):
        return out
    k = e.get("k")
    if k == "asg" or (k == "un" and e["op"] in ("++", "--", "p++", "p--")):
        l = uncast(e["a"])
        while l.get("k") in ("idx", "mem", "un"):
            l = uncast(l.get("b") or l.get("a") or {})
        if l.get("k") == "call" and l.get("o"):
            l = uncast(l["o"])
        if l.get("k") == "var":
            out.add(l["id"])
    elif k == "call":
        f = (e.get("f") or "").split("::")[-1]
        if f in ("operator=", "push_back", "resize", "assign", "clear",
                 "pop_back", "insert", "erase", "emplace", "emplace_back",
                 "swap", "operator++", "operator--", "operator+=",
                 "operator-=") and e.get("o"):
            l = uncast(e["o"])
            if l.get("k") == "var":
                out.add(l["id"])
        if (e.get("f") or "").startswith("std::"):
            # algorithms write through their iterators
            for a in e["a"]:
                for x in walk_calls(a):
                    l = uncast(x["o"]) if x.get("o") else {}
                    if l.get("k") == "var":
                        out.add(l["id"])
        g = (fns or {}).get(e.get("m"))
        if g is not None:
            for p, a in zip(g["ps"], e["a"]):
                b = uncast(a)
                if "&" in p["t"] and not p["t"].startswith("const") and \
                        b.get("k") == "var":
                    out.add(b["id"])
        if f == "operator()" and e.get("o"):
            # a lambda may modify what it captures by reference
            l = uncast(e["o"])
            out.add(("lambda", l.get("id")))
        if f == "swap":
            for a in e["a"]:
                b = uncast(a)
                if b.get("k") == "var":
                    out.add(b["id"])
    elif k == "lambda":
        out |= modified(e.get("body"), fns, depth)
    for v in e.values():
        if isinstance(v, (dict, list)):
            out |= modified(v, fns, depth)
    return out


def walk_calls(e):
    if isinstance(e, list):
        for x in e:
            yield from walk_calls(x)
    elif isinstance(e, dict):
        if e.get("k") == "call" and (e.get("f") or "").split("::")[-1] in (
                "begin", "end", "data"):
            yield e
        for v in e.values():
            if isinstance(v, (dict, list)):
                yield from walk_calls(v)


def depends_inner(a, loops, name):
    """Does the atom mention a loop nested inside `name`?"""
    seen = False
    for n, _, _ in loops:
        if n == name:
            seen = True
            continue
        if seen and re.search(r"\b%s\b" % n, a):
            return True
    return False


def text(e):
    e = uncast(e)
    k = e.get("k")
    if k == "var":
        return e["n"]
    if k == "int":
        return str(e["v"])
    if k == "mem":
        return text(e["b"]) + "." + e["n"] if e.get("b") else e["n"]
    if k == "idx":
        return text(e["b"]) + "[" + text(e["i"]) + "]"
    if k in ("bin", "asg"):
        return "%s %s %s" % (text(e["a"]), e["op"], text(e["b"]))
    if k == "un":
        return e["op"] + text(e["a"])
    if k == "call":
        return "%s(%s)" % ((e.get("f") or "?").split("::")[-1],
                           ", ".join(text(a) for a in e["a"]))
    return k or "?"
