"""Checks on the C++ core classes (cxxi): C05, C11, C18, C19."""
import pathlib
import random
import re

from . import build, cxxi
from .build import AnalysisBroken
from .cxxi import (C, Cell, Code, CxxThrow, Fn, GiveUp, Interp, NULL, Ptr,
                   Shared, Str, Struct, Tok, Unk, Vect, bare, paths)
from .poly import Poly

PROBE = r"""
#include <nntile.hh>
#include <type_traits>
template class nntile::tensor::Tensor<float>;
template class nntile::tensor::Tensor<double>;
template class nntile::tile::Tile<float>;
template class nntile::tile::TileLocalData<float>;
namespace nnv
{
using namespace nntile;
using V = std::vector<Index>;
using TT = tile::TileTraits;
using XT = tensor::TensorTraits;
using Tl = tile::Tile<float>;
using Tn = tensor::Tensor<float>;
using H = starpu::Handle;
using VH = starpu::VariableHandle;
using HL = starpu::HandleLocalData;
using TL = tile::TileLocalData<float>;

// index conversions
TT mk_tile(const V &s) { return TT(s); }
XT mk_tensor(const V &s, const V &b) { return XT(s, b); }
Index i2l(const TT &t, const V &i) { return t.index_to_linear(i); }
V l2i(const TT &t, Index i) { return t.linear_to_index(i); }
bool has(const TT &t, const V &i) { return t.contains_index(i); }
V tshape(const XT &t, const V &i) { return t.get_tile_shape(i); }
TT ttl(const Tn &t, Index i) { return t.get_tile_traits(i); }
TT tti(const Tn &t, const V &i) { return t.get_tile_traits(i); }
Tl gtl(const Tn &t, Index i) { return t.get_tile(i); }
Tl gti(const Tn &t, const V &i) { return t.get_tile(i); }
H ghl(const Tn &t, Index i) { return t.get_tile_handle(i); }
H ghi(const Tn &t, const V &i) { return t.get_tile_handle(i); }
Tl tile_ptr(const V &s, float *p, Index n) { return Tl(s, p, n); }
Tl tile_ptr2(const TT &s, float *p, Index n) { return Tl(s, p, n); }
Tl tile_own(const V &s) { return Tl(s); }
Tl tile_own2(const TT &s) { return Tl(s); }
Tn tn(const XT &t, const std::vector<int> &d, starpu_mpi_tag_t &g)
{ return Tn(t, d, g); }
VH vh(size_t n, starpu_data_access_mode m) { return VH(n, m); }
VH vhp(void *p, size_t n, starpu_data_access_mode m) { return VH(p, n, m); }
std::vector<int> bc(const V &g, const std::vector<int> &m, int s, int x)
{ return tensor::distributions::block_cyclic(g, m, s, x); }

// lifetimes
void may_throw(int stage);
void h_scope(void *p, size_t n, starpu_data_access_mode m) { VH h(p, n, m); }
void h_own(size_t n, starpu_data_access_mode m) { VH h(n, m); }
void h_copy(size_t n, starpu_data_access_mode m)
{ VH h(n, m); { H g(h); } may_throw(1); VH k(h); may_throw(2); }
void h_outlive(size_t n, starpu_data_access_mode m)
{ H g; { VH h(n, m); g = h; } may_throw(1); }
void h_unreg(size_t n, starpu_data_access_mode m)
{ VH h(n, m); h.unregister(); may_throw(1); h.unregister(); }
void h_unreg_copy(size_t n, starpu_data_access_mode m)
{ VH h(n, m); H g(h); h.unregister(); may_throw(1); }
void h_reassign(size_t n, starpu_data_access_mode m)
{ VH h(n, m); may_throw(1); h = VH(n, m); may_throw(2); }
void h_vector(size_t n, starpu_data_access_mode m)
{ std::vector<VH> v; v.reserve(2); v.emplace_back(n, m); may_throw(1);
  v.emplace_back(n, m); may_throw(2); }
VH h_make(size_t n, starpu_data_access_mode m)
{ VH h(n, m); may_throw(1); return h; }
void h_return(size_t n, starpu_data_access_mode m) { VH h = h_make(n, m); }
void t_scope(const V &s) { Tl t(s); may_throw(1); }
void t_traits(const TT &s) { Tl t(s); may_throw(1); }
void t_ptr(const V &s, float *p, Index n) { Tl t(s, p, n); may_throw(1); }
void t_share(const V &s)
{ Tl a(s); TT tr(s); Tl b(tr, a); a.unregister(); may_throw(1); }
void x_scope(const XT &t, const std::vector<int> &d, starpu_mpi_tag_t &g)
{ Tn x(t, d, g); may_throw(1); }
void x_tile(const XT &t, const std::vector<int> &d, starpu_mpi_tag_t &g)
{ Tn x(t, d, g); auto y = x.get_tile(0); may_throw(1); x.unregister();
  may_throw(2); }
void x_copy(const XT &t, const std::vector<int> &d, starpu_mpi_tag_t &g)
{ Tn x(t, d, g); Tn y(x); x.unregister(); may_throw(1); y.unregister();
  may_throw(2); }
void use(void *p, int stage);
void l_scope(const H &h, starpu_data_access_mode m)
{ auto l = h.acquire(m); use(l.get_ptr(), 1); may_throw(1); }
void l_release(const H &h, starpu_data_access_mode m)
{ auto l = h.acquire(m); use(l.get_ptr(), 1); may_throw(1); l.release();
  use(l.get_ptr(), 2); may_throw(2); }
void l_direct(const H &h, starpu_data_access_mode m)
{ HL l(h, m); use(l.get_ptr(), 1); may_throw(1); }
void l_again(const H &h, starpu_data_access_mode m)
{ HL l(h, m); l.release(); may_throw(1); l.acquire(m); use(l.get_ptr(), 1);
  may_throw(2); }
void l_tile(const Tl &t, starpu_data_access_mode m)
{ auto l = t.acquire(m); use(l.get_ptr(), 1); may_throw(1); l.release();
  may_throw(2); }
void l_two(const H &h, const H &g, starpu_data_access_mode m)
{ HL a(h, m); HL b(g, m); may_throw(1); }
void l_keep(size_t n, starpu_data_access_mode m)
{ VH *dummy = nullptr; (void)dummy; VH h(n, STARPU_R); HL l(h, m);
  h.unregister(); use(l.get_ptr(), 1); may_throw(1); }
template<typename L, typename S> void l_copy(const S &h, starpu_data_access_mode m)
{
    if constexpr(std::is_copy_constructible_v<L>)
    { L a(h, m); { L b(a); } use(a.get_ptr(), 1); }
}
template<typename L, typename S> void l_move(const S &h, starpu_data_access_mode m)
{
    if constexpr(std::is_move_constructible_v<L>)
    { L a(h, m); L b(std::move(a)); use(b.get_ptr(), 1); }
}
template<typename L, typename S> void l_assign(const S &h, const S &g,
    starpu_data_access_mode m)
{
    if constexpr(std::is_copy_assignable_v<L>)
    { L a(h, m); L b(g, m); a = b; }
}
template void l_copy<HL, H>(const H &, starpu_data_access_mode);
template void l_copy<TL, Tl>(const Tl &, starpu_data_access_mode);
template void l_move<HL, H>(const H &, starpu_data_access_mode);
template void l_move<TL, Tl>(const Tl &, starpu_data_access_mode);
template void l_assign<HL, H>(const H &, const H &, starpu_data_access_mode);
template void l_assign<TL, Tl>(const Tl &, const Tl &, starpu_data_access_mode);

// start of the runtime
void cfg(int a, int b, int c) { starpu::Config x(a, b, c); }
void lib_init() { starpu::init(); }
void lib_restrict(uint32_t w) { starpu::restrict_where(w); }
void lib_restore() { starpu::restore_where(); }
}
"""


def probe(ws):
    d = ws.gen / "nnv"
    d.mkdir(exist_ok=True)
    p = d / ("core_%s.cc" % build.sha(PROBE)[:16])
    if not p.exists():
        t = pathlib.Path(str(p) + ".tmp")
        t.write_text(PROBE)
        t.replace(p)
    return p


class Core:
    def __init__(self, extra=()):
        self.ws = build.Workspace()
        us = [probe(self.ws)] + [self.ws.repo / u for u in (
            "src/tile/traits.cc", "src/tensor/traits.cc",
            "src/tensor/distributions.cc")]
        us += list(extra)
        self.asts = self.ws.asts(us)
        self.code = Code(list(self.asts.values()))
        self.modes = self.ws.constants(
            ["STARPU_R", "STARPU_W", "STARPU_RW", "STARPU_SCRATCH",
             "STARPU_REDUX"])

    def fn(self, name):
        fs = [f for f in self.code.byq.get("nnv::" + name, [])]
        if not fs:
            raise AnalysisBroken("probe function %s" % name)
        return fs[0]

    def where(self, f, line=None):
        d = self.ws.display(f["file"])
        return "%s:%s" % (d, line or f["l"])


def vec(items, et="long"):
    return Vect(et, [Cell(x if isinstance(x, Poly) else C(x)) for x in items])


def ref(v):
    return Cell(v)


# ---------------------------------------------------------------------------
# model of the runtime
# ---------------------------------------------------------------------------
STATUS = ("starpu_conf_init", "starpu_init", "starpu_initialize",
          "starpu_data_acquire", "starpu_data_acquire_cb",
          "starpu_data_acquire_on_node", "starpu_data_acquire_try")


class World:
    """What the runtime's calls mean for handles, acquisitions and status."""
    modes = {}
    hook = None      # further external calls

    def __init__(self):
        self.handles = []
        self.bad = []        # (rule, message, function, line)
        self.failed = []     # status calls that failed on this path
        self.reached = set()
        self.callbacks = set()

    def report(self, it, rule, msg, e=None):
        f = it.stack[-1] if it.stack else None
        self.bad.append((rule, msg, f, e.get("l") if e else None))

    def ctor(self, it, c, a, e):
        return NotImplemented

    def intercept(self, it, k, o, e):
        return NotImplemented

    def method(self, it, o, n, a, e):
        for x in a:
            self.touch(it, x, e)
        return NotImplemented

    def touch(self, it, x, e):
        """Use of a pointer into the memory of a handle."""
        while isinstance(x, Tok) and x.info.get("base") is not None:
            x = x.info["base"]
        if isinstance(x, Tok) and x.info.get("memgen") is not None:
            h = x.info["handle"]
            if h.info["acq"] == 0 or x.info["memgen"] != h.info["gen"]:
                self.report(it, "host access after release",
                            "the memory of a handle is used while it is not "
                            "acquired", e)

    def handle(self, h):
        """State of a handle the code was given."""
        if isinstance(h, Tok):
            h.info.setdefault("acq", 0)
            h.info.setdefault("gen", 0)
            return h
        return None

    def call(self, it, name, args, e):
        if self.hook:
            r = self.hook(it, name, args, e)
            if r is not NotImplemented:
                return r
        n = name.rsplit("::", 1)[-1]
        if name in ("nnv::may_throw",):
            it.event(name, args, e.get("l"))
            if it.choose(("throw", args[0], None)):
                raise CxxThrow(Str("any"), e.get("l"))
            return None
        if re.match(r"^starpu_\w+_data_register$", n) and args and \
                isinstance(args[0], Ptr):
            h = Tok("handle#%d" % (len(self.handles) + 1), acq=0, gen=0,
                    unreg=[], reg=list(args), mode=None)
            self.handles.append(h)
            args[0].cell.v = h
            it.event(n, [h] + args[1:], e.get("l"))
            return None
        h = self.handle(args[0]) if args else None
        if n.startswith("starpu_data_unregister") and h:
            ev = it.event(n, args, e.get("l"))
            if h.info["acq"]:
                self.report(it, "unregistered while acquired",
                            "%s of a handle whose memory is acquired" % n, e)
            if "unreg" in h.info:
                if h.info["unreg"]:
                    self.report(it, "unregistered twice",
                                "%s of a handle that is already unregistered"
                                % n, e)
                h.info["unreg"].append(n)
            else:
                self.report(it, "foreign handle unregistered",
                            "%s of a handle whose owner still uses it" % n, e)
            return None
        if n in STATUS:
            self.reached.add((it.stack[-1]["m"], e.get("l"), n))
            st = it.fresh(n)
            it.event(n, args, e.get("l"), st)
            if h is not None and h.info.get("unreg"):
                self.report(it, "use of an unregistered handle", n, e)
            if it.choose(("fails", st, e.get("l"))):
                # failures are negative error codes
                it.facts.add_ge(st * C(-1) - C(1))
                self.failed.append((n, it.stack[-1], e.get("l"), st))
                return st
            it.facts.add_eq(st)
            if n == "starpu_data_acquire_cb":
                if h is not None:
                    h.info["acq"] += 1
                    h.info["gen"] += 1
                    h.info["amode"] = args[1]
                cb = args[2] if len(args) > 2 else None
                if isinstance(cb, Fn):
                    self.callbacks.add(cb.m)
                    it.callv(cb, [args[3]], e.get("l"))
                if h is not None and h.info["acq"]:
                    self.report(it, "acquisition not released",
                                "the callback does not release the handle", e)
                    h.info["acq"] = 0
            elif n.startswith("starpu_data_acquire") and h is not None:
                h.info["acq"] += 1
                h.info["gen"] += 1
                h.info["amode"] = args[1]
            return st
        if n == "starpu_data_release" and h is not None:
            it.event(n, args, e.get("l"))
            if h.info["acq"] == 0:
                self.report(it, "released without acquisition",
                            "starpu_data_release of a handle that is not "
                            "acquired (or already released)", e)
            else:
                h.info["acq"] -= 1
            return None
        if n in ("starpu_data_get_local_ptr", "starpu_variable_get_local_ptr",
                 "starpu_data_handle_to_pointer") and h is not None:
            it.event(n, args, e.get("l"))
            if h.info["acq"] == 0:
                self.report(it, "memory handed out without acquisition",
                            "%s of a handle that is not acquired" % n, e)
            return Tok("memory(%s)" % h, "void *", handle=h,
                       memgen=h.info["gen"])
        if n == "malloc" and args:
            t = e.get("t", "")
            v = Vect("void *", [Cell(Unk("malloc"))])
            return Ptr(None, v, C(0))
        for x in args:
            self.touch(it, x, e)
        return NotImplemented

    def finish(self, it):
        """Obligations at the end of a path."""
        for h in self.handles:
            u = h.info["unreg"]
            if not u:
                self.bad.append(("handle never unregistered",
                                 "a registered handle is not unregistered",
                                 None, None))
            if h.info["acq"]:
                self.bad.append(("acquisition not released",
                                 "a handle is still acquired", None, None))
        for e in it.events:
            if e.name in ("use after destruction", "use after scope",
                          "null access"):
                self.bad.append((e.name, repr(e), e.fn, e.line))


class Setup:
    """Arguments for the functions of the probe."""

    def __init__(self, K, it):
        self.K, self.it = K, it

    def sym(self, name, low=None):
        p = Poly.atom(name)
        if low is not None:
            self.it.facts.add_ge(p - C(low))
            if low >= 1:
                self.it.facts.pos.add(name)
            elif low >= 0:
                self.it.facts.nn.add(name)
        return p

    def tile(self, r, name="s", valid=True):
        s = [self.sym("%s%d" % (name, i), 1) for i in range(r)]
        t = self.it.run(self.K.fn("mk_tile"), None, [ref(vec(s))])
        return s, t

    def tensor(self, r, g=None):
        """Tensor traits; g: numbers of tiles (symbolic if None)."""
        b = [self.sym("b%d" % i, 1) for i in range(r)]
        if g is None:
            s = [self.sym("s%d" % i, 1) for i in range(r)]
            l = None
        else:
            l = [self.sym("l%d" % i, 1) for i in range(r)]
            for x, y in zip(l, b):
                self.it.facts.add_ge(y - x)
            s = [(C(n - 1) * x + y) for n, x, y in zip(g, b, l)]
        t = self.it.run(self.K.fn("mk_tensor"), None,
                        [ref(vec(s)), ref(vec(b))])
        return s, b, l, t

    def arg(self, p):
        """Some valid argument for a parameter."""
        t, n = bare(p["t"]), p["n"]
        it = self.it
        if t.startswith("std::vector<long"):
            v = vec([self.sym("%s%d" % (n, i), 1) for i in range(2)])
        elif t.startswith("std::vector<int"):
            v = vec([0, 0], "int")
        elif t == "nntile::tile::TileTraits":
            v = self.tile(2, n)[1]
        elif t == "nntile::tensor::TensorTraits":
            v = self.tensor(2, (2, 1))[3]
        elif t == "nntile::starpu::Handle" or "VariableHandle" in t:
            v = Struct(t)
            v.f[("Handle", "handle")] = Cell(Shared(Ctrl_of(n)))
        elif t.startswith("nntile::tile::Tile<"):
            v = Struct(t)
            tr = self.tile(2, n)[1]
            v.f.update(tr.f)
            v.f[("Handle", "handle")] = Cell(Shared(Ctrl_of(n)))
        else:
            v = it.unknown(t, n)
        return Cell(v) if cxxi.is_ref(p["t"]) else v


def Ctrl_of(n):
    c = cxxi.Ctrl(Tok("given:" + n, acq=0, gen=0, given=1), None)
    c.count = 1
    return c


def fld(s, n):
    """Field of an object by its name alone."""
    for k, c in s.f.items():
        if k[1] == n:
            return c.v
    raise GiveUp("no field %s in %r" % (n, s))


def ints(v):
    return [c.v for c in v.items]


def prod(xs):
    r = C(1)
    for x in xs:
        r = r * x
    return r


def run_paths(K, R, what, scenario, world=True, limit=600, stuck=False):
    """Paths of a scenario; None (and an undecided entry) if not analysable."""
    def mkworld():
        return World()
    try:
        ps = paths(K.code, scenario, limit, mkworld)
    except GiveUp as e:
        R.undecided("%s: %s" % (what, e))
        R.count("scenarios not analysable")
        return None
    if not stuck and any(p.kind == "stuck" for p in ps):
        R.undecided("%s: element outside its container" % what)
        return None
    R.count("scenarios")
    ok = [p for p in ps if feasible(p)]
    if len(ok) < len(ps):
        R.undecided("%s: a path which no small extents take" % what)
    R.count("paths", len(ok))
    return ok


def feasible(p):
    """Some small integers satisfy the conditions of the path (those this
    can tell)."""
    f = p.facts
    if not f.ge and not f.ne and not f.sub:
        return True
    return witness(p, [("ge", C(0))], 2500) is not None or not judged(p)


def judged(p):
    """Does the path condition consist of conditions on known numbers?"""
    f = p.facts
    a = free_atoms(list(f.ge) + list(f.ne), f.sub)
    return all(FREE.match(x) for x in a)


WEAK = []     # obligations neither proved nor refuted
FREE = re.compile(r"^([sbilg]\d+|k|n|ix|start|max|array\..*)$")


class NoModel(Exception):
    pass


def value(q, env, sub):
    """Value of a polynomial under an assignment of the free atoms."""
    r = 0
    for k, v in q.t.items():
        for a in k:
            if a not in env:
                if a in sub:
                    env[a] = value(sub[a], env, sub)
                elif a in cxxi.DIV:
                    x, y = (value(z, env, sub) for z in cxxi.DIV[a])
                    if y == 0:
                        raise NoModel
                    env[a] = x // y
                else:
                    raise KeyError(a)
            v *= env[a]
        r += v
    return r


def free_atoms(qs, sub):
    todo, out = [a for q in qs for a in q.atoms()], set()
    seen = set()
    while todo:
        a = todo.pop()
        if a in seen:
            continue
        seen.add(a)
        if a in sub:
            todo += sub[a].atoms()
        elif a in cxxi.DIV:
            for q in cxxi.DIV[a]:
                todo += q.atoms()
        else:
            out.add(a)
    return out


def witness(p, conds, tries=6000):
    """Small integers that satisfy the path condition and every condition
    (each a function of an evaluator), or None."""
    f = p.facts
    qs = [q for _, q in conds]
    # the part of the path condition that is connected to the question
    hyp = [("ge", q) for q in f.ge] + [("ne", q) for q in f.ne] + \
        [("ge", Poly.atom(a)) for a in f.nn if a not in cxxi.DIV] + \
        [("ge", Poly.atom(a) - C(1)) for a in f.pos]
    atoms = free_atoms(qs + [q for _, q in hyp], f.sub)
    unk = [a for a in atoms if not FREE.match(a)]
    if unk:
        hyp = [h for h in hyp if not (free_atoms([h[1]], f.sub) & set(unk))]
        atoms = free_atoms(qs + [q for _, q in hyp], f.sub)
        if any(not FREE.match(a) for a in atoms):
            return None
    atoms = sorted(atoms)
    rng = random.Random(1)
    dom = [1, 2, 3, 4, 0, 5, -1, 6, 7, 12]
    for i in range(tries):
        env = {a: rng.choice(dom[:5] if i % 3 else dom) for a in atoms}
        full = dict(env)
        try:
            if all(holds(c, value(q, full, f.sub)) for c, q in hyp) and \
                    all(holds(c, value(q, full, f.sub)) for c, q in conds):
                return env
        except (KeyError, NoModel):
            continue
    return None


def holds(c, v):
    return v >= 0 if c == "ge" else v < 0 if c == "lt" else v == 0 \
        if c == "eq" else v != 0


def ge(p, q):
    """q >= 0 on this path: False only with a counterexample."""
    if p.facts.prove_ge(q):
        return True
    if witness(p, [("lt", q)]) is not None:
        return False
    WEAK.append("%s >= 0" % q)
    return True


def eq(p, q):
    if not isinstance(q, Poly):
        return False
    if p.facts.decide_eq(q) is True:
        return True
    if p.facts.decide_eq(q) is False or \
            witness(p, [("ne", q)]) is not None:
        return False
    WEAK.append("%s = 0" % q)
    return True


def possible(p, *qs):
    """Can all q >= 0 hold at once on this path?"""
    for q in qs:
        if p.facts.prove_ge(q * C(-1) - C(1)):
            return False
    if witness(p, [("ge", q) for q in qs]) is not None:
        return True
    WEAK.append("impossibility of %s" % " and ".join(
        "%s >= 0" % q for q in qs))
    return False


# ---------------------------------------------------------------------------
# C19
# ---------------------------------------------------------------------------
class Conv:
    def __init__(self, K, R, ranks):
        self.K, self.R, self.ranks = K, R, ranks

    def bad(self, key, msg, f=None):
        self.R.ob(False)
        self.R.violation(key, msg, self.K.where(f) if f else None)

    def need(self, ok, key, msg, f=None):
        if ok and WEAK:
            self.R.ob()
            self.R.undecided("%s: %s" % (key, WEAK[0]))
            del WEAK[:]
        elif ok:
            self.R.ob()
        else:
            del WEAK[:]
            self.bad(key, msg, f)
        return ok

    def bounds(self, ps, what):
        for p in ps:
            for ok, w, line, q, i, n in p.oob:
                self.R.count("element accesses")
                if ok:
                    self.R.ob()
                elif i is not None and (i.is_const() is False) and not (
                        witness(p, [("lt", i)])
                        or witness(p, [("ge", i - C(n))])):
                    self.R.undecided("%s: %s (%s)" % (what, w, q))
                else:
                    self.bad("outside:%s" % q, "%s: %s may be outside the "
                             "container (%s)" % (what, w, q))
            for e in p.events:
                if e.name in ("division by zero", "null access"):
                    self.bad("%s:%s" % (e.name, e.at), "%s: %s" % (what, e.name))

    def run(self, what, sc, limit=600):
        ps = run_paths(self.K, self.R, what, sc, limit=limit, stuck=True)
        if ps is None:
            return []
        self.bounds(ps, what)
        if any(p.kind == "stuck" for p in ps):
            self.R.undecided("%s: %s" % (what, [
                p.val for p in ps if p.kind == "stuck"][0]))
            return []
        return ps

    # -- shapes ------------------------------------------------------------
    def check_traits(self, p, t, s, what, key):
        """t has the fields of TileTraits of shape s."""
        r = len(s)
        try:
            ok = eq(p, fld(t, "ndim") - C(r))
            sh, st = ints(fld(t, "shape")), ints(fld(t, "stride"))
            ok = ok and len(sh) == r and len(st) == r and \
                all(eq(p, a - b) for a, b in zip(sh, s)) and \
                all(eq(p, st[i] - prod(s[:i])) for i in range(r)) and \
                eq(p, fld(t, "nelems") - prod(s))
            ms = fld(t, "matrix_shape").items
            ok = ok and len(ms) == r + 1 and all(
                len(ints(m.v)) == 2 and eq(p, ints(m.v)[0] - prod(s[:i]))
                and eq(p, ints(m.v)[1] - prod(s[i:]))
                for i, m in enumerate(ms))
        except (GiveUp, TypeError, AttributeError) as e:
            ok = False
        return self.need(ok, key, "%s: the traits are not those of shape %s "
                         "(%r)" % (what, s, t))

    def tile_traits(self):
        K = self.K
        f = K.fn("mk_tile")
        for r in self.ranks:
            s = [Poly.atom("s%d" % i) for i in range(r)]
            what = "TileTraits of %d dimensions" % r
            ps = self.run(what, lambda it: it.run(f, None, [ref(vec(s))]))
            n = 0
            for p in ps:
                if p.kind == "ret":
                    n += 1
                    for x in s:
                        self.need(ge(p, x - C(1)), "TileTraits:accepts",
                                  "%s: an extent that is not positive is "
                                  "accepted" % what)
                    self.check_traits(p, p.val, s, what, "TileTraits:fields")
                else:
                    self.need(not possible(p, *[x - C(1) for x in s]),
                              "TileTraits:rejects",
                              "%s: a valid shape is rejected" % what)
            if ps:
                self.need(n >= 1, "TileTraits:rejects",
                          "%s: every shape is rejected" % what)

    # -- index conversions -------------------------------------------------
    def conversions(self):
        K, R = self.K, self.R
        for r in self.ranks:
            S = {}

            def tile(it):
                S["s"], S["t"] = Setup(K, it).tile(r)
                return S["t"]
            idx = [Poly.atom("i%d" % i) for i in range(r)]

            def lemma(it):
                # (s_j - 1 - i_j) * prod(s_0..s_{j-1}) >= 0 once i_j < s_j
                pass
            for name, what in (("i2l", "index_to_linear"),
                               ("has", "contains_index")):
                f = K.fn(name)
                ps = self.run("%s, %d dimensions" % (what, r), lambda it: it.run(
                    f, None, [ref(tile(it)), ref(vec(idx))]))
                nn = 0
                for p in ps:
                    s = [Poly.atom("s%d" % i) for i in range(r)]
                    inside = [q for i, x in zip(idx, s)
                              for q in (i, x - i - C(1))]
                    inr = mayin = None
                    if p.kind == "throw" or name == "has" and \
                            not eq(p, p.val - C(1)):
                        mayin = possible(p, *inside)
                    else:
                        inr = all(ge(p, q) for q in inside)
                    if p.kind == "throw":
                        self.need(not mayin, what + ":rejects",
                                  "%s throws for an index inside the shape"
                                  % what)
                        if name == "has":
                            self.bad(what + ":throws", "%s throws for an index "
                                     "of the right length" % what)
                        continue
                    nn += 1
                    if name == "i2l":
                        self.need(inr, what + ":accepts",
                                  "%s accepts an index outside the shape "
                                  "(%d dimensions)" % (what, r))
                        e = C(0)
                        for j, (i, x) in enumerate(zip(idx, s)):
                            e = e + i * prod(s[:j])
                        self.need(eq(p, p.val - e), what + ":value",
                                  "%s yields %s instead of %s" % (
                                      what, p.val, e))
                    else:
                        self.need(inr if inr is not None
                                  else eq(p, p.val) and not mayin,
                                  what + ":value", "%s is wrong about %s"
                                  % (what, idx))
                if ps:
                    self.need(nn > 0, what + ":rejects",
                              "%s rejects every index" % what)
                for bad in (r - 1, r + 1, r + 2):
                    if bad < 0:
                        continue
                    j = [Poly.atom("i%d" % i) for i in range(bad)]
                    ps = self.run("%s, %d indices for %d dimensions"
                                  % (what, bad, r), lambda it: it.run(
                                      f, None, [ref(tile(it)), ref(vec(j))]))
                    for p in ps:
                        self.need(p.kind == "throw", what + ":length",
                                  "%s accepts %d indices for %d dimensions"
                                  % (what, bad, r))
            # linear to index
            f = K.fn("l2i")
            lin = Poly.atom("k")
            ps = self.run("linear_to_index, %d dimensions" % r,
                          lambda it: it.run(f, None, [ref(tile(it)), lin]))
            nn = 0
            for p in ps:
                s = [Poly.atom("s%d" % i) for i in range(r)]
                if p.kind == "throw":
                    self.need(not possible(p, lin, prod(s) - lin - C(1)),
                              "linear_to_index:rejects", "linear_to_index "
                              "throws for an index inside the shape")
                    continue
                nn += 1
                inr = ge(p, lin) and ge(p, prod(s) - lin - C(1))
                self.need(inr, "linear_to_index:accepts", "linear_to_index "
                          "accepts an index outside the shape (%d dimensions)"
                          % r)
                v = ints(p.val)
                if not self.need(len(v) == r, "linear_to_index:length",
                                 "linear_to_index yields %d indices for %d "
                                 "dimensions" % (len(v), r)):
                    continue
                e = C(0)
                okv = all(isinstance(x, Poly) for x in v)
                if not okv and any(isinstance(x, cxxi.Unk) for x in v):
                    self.R.undecided("linear_to_index:value")
                    continue
                if okv:
                    for j, x in enumerate(v):
                        e = e + x * prod(s[:j])
                self.need(okv and (eq(p, e - lin) or r == 0),
                          "linear_to_index:value", "index_to_linear of what "
                          "linear_to_index yields, %s, is not the given index"
                          % (v,))
                if okv:
                    self.need(all(ge(p, x) and ge(p, y - x - C(1))
                                  for x, y in zip(v, s)),
                              "linear_to_index:range", "linear_to_index yields "
                              "%s, not known to be inside the shape" % (v,))
            if ps:
                self.need(nn > 0, "linear_to_index:rejects",
                          "linear_to_index rejects every index")

    # -- tensors -----------------------------------------------------------
    def tensor_traits(self):
        K = self.K
        f = K.fn("mk_tensor")
        for r in self.ranks:
            s = [Poly.atom("s%d" % i) for i in range(r)]
            b = [Poly.atom("b%d" % i) for i in range(r)]
            what = "TensorTraits of %d dimensions" % r
            ps = self.run(what, lambda it: it.run(
                f, None, [ref(vec(s)), ref(vec(b))]))
            nn = 0
            for p in ps:
                if p.kind == "throw":
                    self.need(not possible(p, *[x - C(1) for x in s + b]),
                              "TensorTraits:rejects", "%s: valid shapes are "
                              "rejected" % what)
                    continue
                nn += 1
                for x in s + b:
                    self.need(ge(p, x - C(1)), "TensorTraits:accepts",
                              "%s: an extent that is not positive is accepted"
                              % what)
                self.check_traits(p, p.val, s, what, "TensorTraits:fields")
                g = ints(fld(fld(p.val, "grid"), "shape"))
                l = ints(fld(p.val, "leftover_shape"))
                bb = ints(fld(p.val, "basetile_shape"))
                ok = len(g) == len(l) == len(bb) == r
                for i in range(r):
                    ok = ok and eq(p, bb[i] - b[i]) and \
                        eq(p, l[i] - s[i] + (g[i] - C(1)) * b[i]) and \
                        ge(p, l[i] - C(1)) and ge(p, b[i] - l[i])
                self.need(ok, "TensorTraits:grid", "%s: the grid %s and the "
                          "leftover tile %s do not partition the shape %s "
                          "into tiles of %s" % (what, g, l, s, b))
                if ok:
                    self.check_traits(p, fld(p.val, "grid"), g,
                                      "grid of " + what, "TensorTraits:grid")
            if ps:
                self.need(nn > 0, "TensorTraits:rejects",
                          "%s: every shape is rejected" % what)
            for bad in (r - 1, r + 1):
                if bad < 0:
                    continue
                bb = [Poly.atom("b%d" % i) for i in range(bad)]
                ps = self.run(what + ", %d tile extents" % bad,
                              lambda it: it.run(f, None, [ref(vec(s)),
                                                          ref(vec(bb))]))
                for p in ps:
                    self.need(p.kind == "throw", "TensorTraits:length",
                              "%s: %d tile extents are accepted" % (what, bad))

    def tile_shape(self):
        K = self.K
        f = K.fn("tshape")
        for r in self.ranks:
            idx = [Poly.atom("i%d" % i) for i in range(r)]
            S = {}

            def sc(it, idx=idx):
                S["x"] = Setup(K, it).tensor(r)
                return S["x"], it.run(f, None, [ref(S["x"][3]), ref(vec(idx))])
            ps = self.run("get_tile_shape, %d dimensions" % r, sc)
            nn = 0
            for p in ps:
                if p.kind == "throw":
                    x = p.it.val0 if hasattr(p.it, "val0") else None
                    g = [self.grid_atom(p, i) for i in range(r)]
                    self.need(not possible(p, *[
                        q for i, y in zip(idx, g) for q in (i, y - i - C(1))]),
                              "get_tile_shape:rejects", "get_tile_shape throws "
                              "for a tile of the grid")
                    continue
                nn += 1
                (s, b, l, t), v = p.val
                g = ints(fld(fld(t, "grid"), "shape"))
                v = ints(v)
                self.need(all(ge(p, i) and ge(p, y - i - C(1))
                              for i, y in zip(idx, g)),
                          "get_tile_shape:accepts", "get_tile_shape accepts a "
                          "tile outside the grid (%d dimensions)" % r)
                ok = len(v) == r
                for i in range(r):
                    left = s[i] - (g[i] - C(1)) * b[i]
                    ok = ok and isinstance(v[i], Poly) and (
                        eq(p, v[i] - b[i]) and ge(p, g[i] - C(2) - idx[i])
                        or eq(p, v[i] - left)
                        and eq(p, g[i] - C(1) - idx[i]))
                self.need(ok, "get_tile_shape:value", "get_tile_shape yields "
                          "%s (%d dimensions)" % (v, r))
            if ps:
                self.need(nn > 0, "get_tile_shape:rejects",
                          "get_tile_shape rejects every tile")
            for bad in (r - 1, r + 1):
                if bad < 0:
                    continue
                j = [Poly.atom("i%d" % i) for i in range(bad)]
                for p in self.run("get_tile_shape, %d indices for %d dimensions"
                                  % (bad, r), lambda it: sc(it, j)):
                    self.need(p.kind == "throw", "get_tile_shape:length",
                              "get_tile_shape accepts %d indices for %d "
                              "dimensions" % (bad, r))

    def grid_atom(self, p, i):
        return Poly.atom("div(s%d - 1,b%d)" % (i, i)) + C(1)

    # -- tiles and tensors of data ------------------------------------------
    def tensors(self, grids):
        K = self.K
        f = K.fn("tn")
        for g in grids:
            r = len(g)
            n = 1
            for x in g:
                n *= x

            def mk(it, extra=0):
                s, b, l, t = Setup(K, it).tensor(r, g)
                d = vec([0] * (n + extra), "int")
                x = it.run(f, None, [ref(t), ref(d), ref(C(0))])
                return s, b, l, x
            what = "Tensor of %s tiles" % "x".join(map(str, g)) if g \
                else "scalar Tensor"
            comps = []
            for k in range(n):
                c, kk = [], k
                for x in g:
                    c.append(kk % x)
                    kk //= x
                comps.append(c)

            def tshape(b, l, k):
                return [l[i] if comps[k][i] == g[i] - 1 else b[i]
                        for i in range(r)]
            for p in self.run(what, mk):
                if not self.need(p.kind == "ret", "Tensor:rejects",
                                 "%s: a valid tensor is rejected" % what):
                    continue
                s, b, l, x = p.val
                tr, th = fld(x, "tile_traits").items, \
                    fld(x, "tile_handles").items
                if not self.need(len(tr) == n and len(th) == n,
                                 "Tensor:tiles", "%s: %d traits and %d "
                                 "handles" % (what, len(tr), len(th))):
                    continue
                for k in range(n):
                    sh = tshape(b, l, k)
                    self.check_traits(p, tr[k].v, sh, "tile %d of %s"
                                      % (k, what), "Tensor:tile traits")
                    self.handle_size(p, th[k].v, C(4) * prod(sh),
                                     "tile %d of %s" % (k, what),
                                     "Tensor:tile size")
            for extra in (-1, 1):
                if n + extra < 0:
                    continue
                for p in self.run(what + ", wrong distribution",
                                  lambda it: mk(it, extra)):
                    self.need(p.kind == "throw", "Tensor:distribution",
                              "%s: a distribution of %d tiles is accepted"
                              % (what, n + extra))
            # lookup of tiles
            k = Poly.atom("k")
            idx = [Poly.atom("i%d" % i) for i in range(r)]
            for name, api in (("ttl", "get_tile_traits(Index)"),
                              ("gtl", "get_tile(Index)"),
                              ("ghl", "get_tile_handle(Index)"),
                              ("tti", "get_tile_traits(vector)"),
                              ("gti", "get_tile(vector)"),
                              ("ghi", "get_tile_handle(vector)")):
                h = K.fn(name)
                for bad in ((0,) if name[2] == "l" else (0, -1, 1)):
                    if r + bad < 0:
                        continue
                    j = idx[:r + bad] if bad <= 0 else \
                        idx + [Poly.atom("ix")]

                    def look(it):
                        s, b, l, x = mk(it)
                        a = k if name[2] == "l" else ref(vec(j))
                        return b, l, x, it.run(h, None, [ref(x), a])
                    self.lookup(look, name, api, bad, what, n, g, k, idx,
                                tshape, comps)

    def lookup(self, look, name, api, bad, what, n, g, k, idx, tshape, comps):
        r = len(g)
        nn = 0
        ps = self.run("%s of %s" % (api, what), look)
        for p in ps:
            if bad:
                self.need(p.kind == "throw", api + ":length",
                          "%s accepts an index of the wrong length" % api)
                continue
            if name[2] == "l":
                inside = [k, C(n - 1) - k]
            else:
                inside = [q for i, x in zip(idx, g)
                          for q in (i, C(x - 1) - i)]
            if p.kind == "throw":
                self.need(not possible(p, *inside), api + ":rejects", "%s throws for a tile of "
                          "the grid" % api)
                continue
            nn += 1
            if not self.need(all([ge(p, q) for q in inside]), api + ":accepts", "%s accepts a tile outside "
                             "the grid" % api):
                continue
            b, l, x, v = p.val
            if name[2] == "l":
                kk = p.facts.norm(k)
                num = kk.cval() if kk.is_const() else 0 if n == 1 else None
            else:
                num = 0
                m = 1
                for i, q in zip(idx, g):
                    c = p.facts.norm(i)
                    cv = c.cval() if c.is_const() else 0 if q == 1 else None
                    if cv is None:
                        num = None
                        break
                    num += m * cv
                    m *= q
            if num is None:
                self.R.undecided("%s: which tile" % api)
                continue
            if name[:2] != "gh":
                self.check_traits(p, v, tshape(b, l, num), "%s of %s"
                                  % (api, what), api + ":traits")
            if name[0] == "g":
                try:
                    own = fld(v, "handle")
                    exp = fld(fld(x, "tile_handles").items[num].v, "handle")
                    ok = own.ctrl is not None and own.ctrl is exp.ctrl
                except (GiveUp, AttributeError):
                    ok = False
                self.need(ok, api + ":handle", "%s yields the handle of "
                          "another tile" % api)
        if ps and not bad:
            self.need(nn > 0, api + ":rejects", "%s rejects every tile" % api)

    def handle_size(self, p, h, size, what, key, ptr=None):
        try:
            t = fld(h, "handle").ctrl.ptr
            reg = t.info["reg"]
            ok = eq(p, reg[3] - size)
            if ptr is not None:
                ok = ok and ptr(reg)
        except (GiveUp, AttributeError, KeyError, IndexError, TypeError):
            ok = False
            reg = "?"
        return self.need(ok, key, "%s: registered with %s instead of %s bytes"
                         % (what, reg[3] if ok is False and reg != "?" else
                            reg, size))

    def handles(self):
        K, R = self.K, self.R
        n = Poly.atom("n")
        for name, withp in (("vh", 0), ("vhp", 1)):
            f = K.fn(name)
            what = "VariableHandle"

            def sc(it, m):
                it.facts.nn.add("n")
                a = [n, m]
                if withp:
                    a = [Tok("p", "void *")] + a
                return it.run(f, None, a)
            for mode, v in list(K.modes.items()) + [("invalid", 1 << 12)]:
                nn = 0
                ps = self.run("%s in mode %s" % (what, mode),
                              lambda it: sc(it, C(v)))
                for p in ps:
                    if p.kind == "throw":
                        self.need(not ge(p, n - C(1)) or mode in (
                            "STARPU_REDUX", "invalid"), what + ":rejects",
                            "a handle of positive size in mode %s is rejected"
                            % mode)
                        continue
                    nn += 1
                    self.need(ge(p, n - C(1)), what + ":zero", "a handle of "
                              "size zero is accepted")
                    self.need(mode not in ("STARPU_REDUX", "invalid"),
                              what + ":mode",
                              "a handle in mode %s is accepted" % mode)
                    self.handle_size(p, p.val, n, what, what + ":size", (
                        lambda reg: isinstance(reg[2], Tok)
                        and reg[2].name == "p" and eq(p, reg[1]))
                        if withp else None)
                if ps and mode not in ("STARPU_REDUX", "invalid"):
                    self.need(nn > 0, what + ":rejects", "every handle in mode "
                              "%s is rejected" % mode)
        for r in self.ranks:
            for name in ("tile_ptr", "tile_ptr2"):
                f = K.fn(name)

                def sc(it):
                    S = Setup(K, it)
                    if name == "tile_ptr":
                        a = vec([S.sym("s%d" % i, 1) for i in range(r)])
                    else:
                        a = S.tile(r)[1]
                    return it.run(f, None, [ref(a), Tok("p", "float *"), n])
                s = [Poly.atom("s%d" % i) for i in range(r)]
                what = "Tile on a user's buffer, %d dimensions" % r
                nn = 0
                ps = self.run(what, sc)
                for p in ps:
                    if p.kind == "throw":
                        self.need(not possible(p, n - prod(s)), "Tile:rejects",
                                  "%s: a large enough buffer is rejected"
                                  % what)
                        continue
                    nn += 1
                    self.need(ge(p, n - prod(s)), "Tile:buffer", "%s: a buffer "
                              "that is too small is accepted" % what)
                    self.check_traits(p, p.val, s, what, "Tile:traits")
                    self.handle_size(p, p.val, C(4) * prod(s), what,
                                     "Tile:size", lambda reg: isinstance(
                                         reg[2], Tok) and reg[2].name == "p")
                if ps:
                    self.need(nn > 0, "Tile:rejects", what + " is always "
                              "rejected")
            for name in ("tile_own", "tile_own2"):
                f = K.fn(name)

                def sc(it):
                    S = Setup(K, it)
                    if name == "tile_own":
                        a = vec([S.sym("s%d" % i, 1) for i in range(r)])
                    else:
                        a = S.tile(r)[1]
                    return it.run(f, None, [ref(a)])
                what = "Tile of %d dimensions" % r
                for p in self.run(what, sc):
                    if self.need(p.kind == "ret", "Tile:rejects",
                                 what + " is rejected"):
                        self.check_traits(p, p.val, s, what, "Tile:traits")
                        self.handle_size(p, p.val, C(4) * prod(s), what,
                                         "Tile:size")

    def distributions(self):
        K = self.K
        f = K.fn("bc")
        for g, m in (((), ()), ((3,), (2,)), ((2, 3), (2, 2)),
                     ((2, 2, 2), (1, 2, 2)), ((2,), ()), ((), (1,)),
                     ((2, 2), (2,))):
            st, mx = Poly.atom("start"), Poly.atom("max")
            what = "block_cyclic of a grid %s over %s" % (g, m)
            n = 1
            for x in g:
                n *= x
            nn = 0
            ps = self.run(what, lambda it: it.run(
                f, None, [ref(vec(g)), ref(vec(m, "int")), st, mx]))
            for p in ps:
                if len(g) != len(m):
                    self.need(p.kind == "throw", "block_cyclic:length",
                              what + " is accepted")
                    continue
                if p.kind == "throw":
                    self.need(not possible(p, st, mx - st - C(1)),
                              "block_cyclic:rejects",
                        what + ": a valid start is rejected")
                    continue
                nn += 1
                self.need(ge(p, st) and ge(p, mx - st - C(1)),
                          "block_cyclic:accepts",
                          what + ": an invalid start is accepted")
                self.need(len(p.val.items) == n, "block_cyclic:size",
                          "%s yields %d ranks" % (what, len(p.val.items)))
                for x in ints(p.val):
                    if isinstance(x, Poly):
                        self.need(ge(p, x) and ge(p, mx - x - C(1)),
                                  "block_cyclic:range", "%s yields a rank "
                                  "outside 0 to max-1" % what)
                    else:
                        self.R.undecided("block_cyclic:range")
            if ps and len(g) == len(m):
                self.need(nn > 0, "block_cyclic:rejects",
                          what + " is always rejected")

    def printing(self):
        """Printing shapes reads nothing outside them."""
        K = self.K
        for f in K.code.byq.get("nntile::tile::operator<<", []) + \
                K.code.byq.get("nntile::tensor::operator<<", []):
            t = bare(f["ps"][1]["t"])
            if t.endswith("TileTraits"):
                for r in self.ranks:
                    self.run("printing TileTraits", lambda it: it.run(
                        f, None, [ref(Unk("stream")),
                                  ref(Setup(K, it).tile(r)[1])]))
            elif t.endswith("TensorTraits"):
                for g in ((), (2,), (2, 1)):
                    self.run("printing TensorTraits", lambda it: it.run(
                        f, None, [ref(Unk("stream")),
                                  ref(Setup(K, it).tensor(len(g), g)[3])]))


def c19(R):
    K = Core()
    hi = 4 if R.tier == "thorough" else 3
    V = Conv(K, R, list(range(hi + 1)))
    R.rule("conversions", "for every rank, with symbolic extents and indices: "
           "a normal path implies the index is inside the shape and yields the "
           "documented value, an exceptional path implies it is not")
    R.rule("constructors", "every object built has positive extents, the "
           "strides, products and grid of its shape, and registers exactly the "
           "bytes of each tile; sizes that are zero, negative, inconsistent or "
           "larger than the user's buffer are rejected")
    R.rule("accesses", "every element access in these functions is proved "
           "inside its container")
    V.tile_traits()
    V.conversions()
    V.tensor_traits()
    V.tile_shape()
    gs = [(), (1,), (2,), (3,), (2, 2), (1, 2)]
    if R.tier == "thorough":
        gs += [(4,), (3, 2), (2, 2, 2), (1, 3, 2)]
    V.tensors(gs)
    V.handles()
    V.distributions()
    V.printing()
    R.require("scenarios", 1)
    return "other", ("Abstract interpretation of the constructors, index "
                     "conversions and tile lookups of TileTraits, TensorTraits, "
                     "Tile, Tensor and the handle classes with symbolic "
                     "extents and indices, ranks 0 to %d." % hi)


# ---------------------------------------------------------------------------
# C18, C05, C23: life of handles and of host access
# ---------------------------------------------------------------------------
DEL = {"STARPU_R": "starpu_data_unregister_no_coherency",
       "STARPU_W": "starpu_data_unregister",
       "STARPU_RW": "starpu_data_unregister",
       "STARPU_SCRATCH": "starpu_data_unregister_submit"}
WHAT = {"h_scope": "a handle of a user's buffer in a scope",
        "h_own": "a handle in a scope",
        "h_copy": "copies of a handle",
        "h_outlive": "a copy that outlives the original",
        "h_unreg": "explicit unregistration, twice",
        "h_unreg_copy": "unregistration through one of two copies",
        "h_reassign": "assignment of a new handle over an old one",
        "h_vector": "handles in a growing vector",
        "h_return": "a handle returned from a function",
        "t_scope": "a tile", "t_traits": "a tile from its traits",
        "t_ptr": "a tile on a user's buffer",
        "t_share": "two tiles sharing a handle",
        "x_scope": "a tensor", "x_tile": "a tile outliving its tensor",
        "x_copy": "two copies of a tensor",
        "l_scope": "host access in a scope",
        "l_release": "host access released explicitly",
        "l_direct": "host access constructed directly",
        "l_again": "host access acquired again",
        "l_tile": "host access to a tile", "l_two": "two host accesses",
        "l_keep": "host access outliving the handle",
        "l_copy": "a copy of host access", "l_move": "moved host access",
        "l_assign": "assigned host access"}


def array_functions(K):
    """Functions of the Python extension that exchange data with NumPy."""
    out = []
    for f in K.code.fns.values():
        if "nntile_core.cc" in (f.get("file") or "") and any(
                "pybind11::array" in p["t"] for p in f["ps"]) and any(
                "nntile::t" in p["t"] for p in f["ps"]):
            out.append(f)
    return out


class Exchange:
    """Scenarios of the NumPy exchange functions."""

    def __init__(self, K):
        self.K = K

    def hook(self, it, name, args, e):
        w = it.world
        n = name.rsplit("::", 1)[-1]
        if name.startswith("nntile::"):
            for a in args:
                for h in self.handles(a):
                    if h.info.get("acq"):
                        w.report(it, "task on acquired data", "%s is called "
                                 "while the host holds data of its operand"
                                 % n, e)
            ev = it.event(name, args, e.get("l"))
            ev.held = [list(self.handles(a)) for a in args]
            ev.shape = []
            for a in args:
                try:
                    a = a.v if isinstance(a, Cell) else a
                    ev.shape.append(ints(fld(a, "shape")))
                except (GiveUp, AttributeError):
                    ev.shape.append(None)
            return None if e.get("t", "void") == "void" else Unk(n)
        return NotImplemented

    @staticmethod
    def handles(v):
        if isinstance(v, Cell):
            v = v.v
        if isinstance(v, Struct):
            for c in v.f.values():
                yield from Exchange.handles(c)
        elif isinstance(v, Vect):
            for c in v.items:
                yield from Exchange.handles(c)
        elif isinstance(v, Shared) and v.ctrl and isinstance(v.ctrl.ptr, Tok):
            yield v.ctrl.ptr

    def cases(self, f, tier):
        t = [bare(p["t"]) for p in f["ps"]]
        if any("nntile::tensor::Tensor<" in x for x in t):
            gs = [(), (1,), (2,), (2, 1)]
            if tier == "thorough":
                gs += [(3,), (2, 2), (1, 2, 2)]
            return [("tensor", g) for g in gs]
        return [("tile", r) for r in range(4 if tier == "quick" else 5)]

    def scenario(self, f, case):
        K = self.K

        def sc(it):
            w = it.world
            w.hook = self.hook
            S = Setup(K, it)
            args, info = [], {}
            for p in f["ps"]:
                t = bare(p["t"])
                if t.startswith("nntile::tile::Tile<"):
                    sh, tr = S.tile(case[1])
                    v = Struct(t)
                    v.f.update(tr.f)
                    c = Ctrl_of(p["n"])
                    v.f[("Handle", "handle")] = Cell(Shared(c))
                    info["shape"], info["obj"] = sh, v
                    info["tiles"] = [c.ptr]
                elif t.startswith("nntile::tensor::Tensor<"):
                    s, b, l, tr = S.tensor(len(case[1]), case[1])
                    n = 1
                    for x in case[1]:
                        n *= x
                    v = Struct(t)
                    ks = [k for k in K.code.ctors.get(t, [])
                          if len(k["ps"]) == 3]
                    if len(ks) != 1:
                        raise GiveUp("constructor of " + t)
                    it.construct(v, t, ks[0], [
                        Cell(tr), Cell(vec([0] * n, "int")), Cell(C(0))])
                    for h in w.handles:
                        h.info.pop("unreg")
                    w.handles = []
                    info["tiles"] = list(self.handles(v))
                    info["shape"], info["obj"] = s, v
                elif "pybind11::array" in t:
                    v = Tok("array", t)
                    info["array"] = v
                else:
                    v = it.unknown(t, p["n"])
                args.append(Cell(v) if cxxi.is_ref(p["t"]) else v)
            del it.events[:]
            it.info = info
            r = it.run(f, None, args)
            return r
        return sc


class XWorld(World):
    def method(self, it, o, n, a, e):
        super().method(it, o, n, a, e)
        # array.shape(i) is array.shape()[i]
        if isinstance(o, Tok) and "pybind11::array" in o.t and n == "shape" \
                and len(a) == 1 and isinstance(a[0], Poly):
            b = it.opaque_method(o, "shape", [], {"t": "const long *"})
            k = "[%s]" % (a[0],)
            if k not in b.memo:
                b.memo[k] = Cell(it.unknown("long", b.name + k))
            return b.memo[k].v
        if isinstance(o, Tok) and "pybind11::array" in o.t and not a and \
                n in ("data", "mutable_data"):
            it.event("." + n, [o], e.get("l"))
            return o.memo.setdefault(n, Tok("%s.%s()" % (o.name, n),
                                            e.get("t", "")))
        if isinstance(o, Tok) and "pybind11::array" in o.t and not a and \
                n in ("size", "nbytes"):
            # products of the extents, once their number is known
            r = it.facts.norm(Poly.atom(o.name + ".ndim()"))
            if r.is_const():
                sz = C(1)
                for i in range(r.cval()):
                    sz = sz * Poly.atom("%s.shape()[%d]" % (o.name, i))
                z = SIZES.get(element(o.t))
                if n == "size" or z:
                    return sz if n == "size" else sz * C(z)
        return NotImplemented


SIZES = {"float": 4, "double": 8, "long": 8, "nntile::fp16_t": 2, "bool": 1,
         "nntile::bool_t": 1, "int": 4, "long long": 8}


def element(t):
    """Element type of a NumPy array type."""
    m = re.search(r"array_t<([^,>]*)", t)
    return m.group(1).strip() if m else None


def mode_args(K, f):
    """Access modes to try for a function of the probe."""
    if any(bare(p["t"]) == "starpu_data_access_mode" for p in f["ps"]):
        n = f["q"].rsplit("::", 1)[-1]
        ms = ["STARPU_R", "STARPU_W", "STARPU_RW"]
        if n.startswith("h_"):
            ms.append("STARPU_SCRATCH")
        return ms
    return [None]


def life(K, R):
    """Runs every lifetime scenario; yields (name, function, mode, paths)."""
    for f in sorted(K.code.fns.values(), key=lambda f: f["q"]):
        if not f["q"].startswith("nnv::"):
            continue
        name = f["q"].split("::")[-1].split("<")[0]
        if name not in WHAT or f["n"] in ("h_make",):
            continue
        for m in mode_args(K, f):
            def sc(it):
                S = Setup(K, it)
                args = []
                for p in f["ps"]:
                    if bare(p["t"]) == "starpu_data_access_mode" and m:
                        args.append(C(K.modes[m]))
                    elif bare(p["t"]) == "unsigned long":
                        args.append(S.sym(p["n"], 1))
                    elif bare(p["t"]) == "long" and p["n"] == "n":
                        args.append(Poly.atom("n"))
                    else:
                        args.append(S.arg(p))
                del it.events[:]
                return it.run(f, None, args)
            what = "%s%s" % (WHAT[name], ", mode " + m if m else "")
            ps = run_paths(K, R, what, sc)
            if ps is not None:
                yield name, f, m, what, ps
    # a mode no handle can have
    for name in ("h_scope", "h_own"):
        f = K.fn(name)
        for v in (K.modes["STARPU_REDUX"], 1 << 12):
            def sc(it):
                S = Setup(K, it)
                return it.run(f, None, [
                    C(v) if bare(p["t"]) == "starpu_data_access_mode"
                    else S.sym(p["n"], 1) if bare(p["t"]) == "unsigned long"
                    else it.unknown(p["t"], p["n"]) for p in f["ps"]])
            ps = run_paths(K, R, "invalid mode", sc)
            if ps is not None:
                yield name, f, None, "a handle in an invalid mode", ps


def finish(p):
    w = p.it.world
    w.finish(p.it)
    return w.bad


def report_bad(K, R, what, ps, skip=()):
    for p in ps:
        bad = finish(p)
        R.ob(not [b for b in bad if b[0] not in skip])
        for rule, msg, f, line in bad:
            if rule in skip:
                continue
            loc = None
            q = ""
            if f and f.get("file"):
                loc = K.where(f, line)
                q = f["q"]
            if not q or q.startswith("nnv::"):
                q = "%s" % what.split(", mode")[0]
            R.violation("%s:%s" % (rule, q), "%s: %s%s" % (
                what, msg, " (path leaving by an exception)"
                if p.kind == "throw" else ""), loc)


def core_unit():
    return build.REPO / "wrappers/python/nntile/nntile_core.cc"


def core_flags(K):
    from . import bindings
    return bindings.flags() if hasattr(bindings, "flags") else ()


def c18(R):
    K = Core()
    R.rule("unregistration", "on every path through every lifetime scenario a "
           "registered handle is unregistered exactly once, by the call that "
           "belongs to its mode, when its last owner dies, and not while it "
           "is acquired")
    R.rule("release", "every successful acquisition is released exactly once, "
           "also when an exception propagates; no memory of a handle is used "
           "when it is not acquired")
    n = 0
    for name, f, m, what, ps in life(K, R):
        with R.guard(name):
            n += 1
            report_bad(K, R, what, ps)
            for p in ps:
                for h in p.it.world.handles:
                    how = h.info["unreg"]
                    want = DEL.get(m) if name.startswith("h_") and m else None
                    if name == "t_ptr":
                        want = DEL["STARPU_RW"]
                    if want and how and how[0] != want:
                        R.ob(False)
                        R.violation("unregistration:%s" % m, "%s: unregistered by "
                                    "%s instead of %s" % (what, how[0], want))
                    elif how:
                        R.ob()
                # the last copy decides
                if name == "h_unreg_copy" and p.kind == "ret":
                    pass
    if n < 20:
        R.undecided("only %d lifetime scenarios" % n)
    numpy(K, R, lambda what, f, case, ps: report_bad(K, R, what, ps))
    return "other", ("Object-precise abstract interpretation of the handle, "
                     "tile, tensor and host access classes over lifetime "
                     "scenarios with an exception at every stage and with "
                     "failing acquisitions, and of the NumPy exchange "
                     "functions of the Python extension.")


def numpy(K, R, fn):
    """Paths of the NumPy exchange functions."""
    from .bindings import Bindings
    B = Bindings(K.ws)
    KK = Core.__new__(Core)
    KK.__dict__.update(K.__dict__)
    KK.code = Code([B.tree] + list(K.asts.values()))
    X = Exchange(KK)
    fs = array_functions(KK)
    R.count("NumPy exchange functions", len(fs))
    for f in fs:
        for case in X.cases(f, R.tier):
            what = "%s, %s" % (f["q"] + "<%s>" % ",".join(f.get("ta", [])),
                               "%d dimensions" % case[1] if case[0] == "tile"
                               else "%s tiles" % "x".join(map(str, case[1])))
            try:
                ps = paths(KK.code, X.scenario(f, case), 600, XWorld)
            except GiveUp as e:
                R.undecided("%s: %s" % (what, e))
                continue
            if any(p.kind == "stuck" for p in ps):
                R.undecided("%s: element outside its container" % what)
                continue
            ok = [p for p in ps if feasible(p)]
            if len(ok) < len(ps):
                R.undecided("%s: a path which no small extents take" % what)
            R.count("paths", len(ok))
            if any(not hasattr(p.it, "info") for p in ok):
                R.undecided("%s: its operands cannot be built" % what)
                continue
            with R.guard(what):
                fn(what, f, case, ok)


# ---------------------------------------------------------------------------
# C23: exchange with NumPy
# ---------------------------------------------------------------------------
F_STYLE = 2


class Copies:
    """Obligations of the NumPy exchange functions."""

    def __init__(self, K, R):
        self.K, self.R = K, R
        self.V = Conv(K, R, [])
        self.done = {}

    def need(self, ok, key, msg, f):
        return self.V.need(ok, key, msg, f)

    @staticmethod
    def to_numpy(f):
        """Does the function fill the array (or the tensor from it)?"""
        for p in f["ps"]:
            if "pybind11::array" in p["t"]:
                t = p["t"]
                return not t.strip().startswith("const") and "&" in t
        return False

    def check(self, what, f, case, ps):
        R = self.R
        out = self.to_numpy(f)
        nn = 0
        key = "%s" % f["q"]
        for p in ps:
            w, info = p.it.world, p.it.info
            if w.failed:
                continue
            sh = info["shape"]
            nd = Poly.atom("array.ndim()")
            ext = [Poly.atom("array.shape()[%d]" % i)
                   for i in range(max(1, len(sh)))]
            want = [nd - C(max(1, len(sh)))] + [
                a - b for a, b in zip(ext, sh or [C(1)])]
            if p.kind == "throw":
                if any(p.facts.decide_eq(x) is False for x in want):
                    R.ob()
                    continue
                q = [x for y in want for x in (y, y * C(-1))]
                self.need(not possible(p, *q), key + ":rejects",
                          "%s rejects an array of the right shape" % what, f)
                continue
            nn += 1
            self.need(all([eq(p, x) for x in want]), key + ":shape",
                      "%s accepts an array of another shape" % what, f)
            self.copy(p, info, what, key, f, out)
        if ps:
            self.need(nn > 0, key + ":rejects", "%s rejects every array"
                      % what, f)

    def copy(self, p, info, what, key, f, out):
        R, K = self.R, self.K
        cs = []
        for i, e in enumerate(p.events):
            n = e.name.rsplit("::", 1)[-1]
            if n in ("memcpy", "memmove") and len(e.args) == 3:
                cs.append((i, e, e.args[0], e.args[1], e.args[2]))
        if not cs:
            if any(self.memory(a) is not None for e in p.events
                   for a in e.args if not e.name.startswith("starpu_")):
                R.undecided("%s: copied by other means than memcpy" % what)
            else:
                self.need(False, key + ":copy", "%s copies nothing" % what, f)
            return
        z = SIZES.get((f.get("ta") or [""])[0])
        for i, e, dst, src, n in cs:
            mem, arr = (src, dst) if out else (dst, src)
            h = self.memory(mem)
            if not self.need(h is not None and self.array(arr), key + ":copy",
                             "%s copies in the wrong direction" % what, f):
                continue
            md = h.info.get("amode")
            ok = [C(K.modes["STARPU_RW"]),
                  C(K.modes["STARPU_R" if out else "STARPU_W"])]
            self.need(md in ok, key + ":mode", "%s accesses the data in a mode "
                      "that does not allow it to be %s" % (
                          what, "read" if out else "written"), f)
            if z:
                self.need(isinstance(n, Poly) and eq(p, n - C(z) * prod(
                    info["shape"])), key + ":size",
                    "%s copies %s bytes" % (what, n), f)
            else:
                R.undecided("%s: size of %s" % (what, f.get("ta")))
            if h in info["tiles"] and len(info["tiles"]) == 1:
                R.ob()
                continue
            name = "gather" if out else "scatter"
            ev = [(j, x) for j, x in enumerate(p.events)
                  if x.name.rsplit("::", 1)[-1] == name
                  and getattr(x, "held", None)]
            ok = False
            for j, x in ev:
                a, b = (1, 0) if out else (0, 1)
                if len(x.held) < 2 or x.held[a] != [h] or \
                        x.held[b] != info["tiles"]:
                    continue
                if (j < i) != out:
                    continue
                s1, s2 = x.shape[a], info["shape"]
                if s1 is None or len(s1) != len(s2) or not all(
                        [eq(p, u - v) for u, v in zip(s1, s2)]):
                    continue
                ok = True
            self.need(ok, key + ":transfer", "%s does not %s the copied data "
                      "%s every tile of the tensor" % (
                          what, name, "from" if out else "to"), f)

    @staticmethod
    def memory(x):
        while isinstance(x, Tok) and x.info.get("base") is not None:
            x = x.info["base"]
        return x.info["handle"] if isinstance(x, Tok) and \
            x.info.get("memgen") is not None else None

    @staticmethod
    def array(x):
        return isinstance(x, Tok) and x.name.startswith("array.")


def c23(R):
    K = Core()
    R.rule("copy", "every normal path of an exchange function copies the bytes "
           "of every element once, between the memory of the acquired data and "
           "the array, in the right direction, and moves them between the "
           "single-tile temporary and every tile of the tensor")
    R.rule("shape", "a normal path implies that dimensions and extents agree, "
           "an exceptional path that they do not (or that the runtime failed)")
    R.rule("conversion", "an array the function writes to is in column-major "
           "order and is never a converted copy")
    X = Copies(K, R)
    fs = numpy(K, R, X.check)
    from .bindings import Bindings
    B = Bindings(K.ws)
    R.count("bindings of exchange functions", 0)
    for d in B.defs:
        with R.guard(str(d)[:60]):
            f = B.fns.get(d["fn"].m) if d["fn"] is not None else None
            if f is None or not any("pybind11::array" in p["t"] for p in f["ps"]):
                continue
            R.count("bindings of exchange functions")
            for i, p in enumerate(f["ps"]):
                t = p["t"]
                if "pybind11::array" not in t:
                    continue
                m = re.search(r"array_t<[^,>]*,\s*(\d+)\s*>", t)
                ok = m is not None and int(m.group(1)) & F_STYLE
                X.need(bool(ok), "%s:order" % f["q"], "%s takes an array that is "
                       "not in column-major order (%s)" % (f["q"], t), f)
                if Copies.to_numpy(f):
                    extra = d["extra"]
                    k = i - (1 if d["class"] else 0)
                    named = [a for a in extra if "pybind11::arg" in a_type(a)]
                    good = 0 <= k < len(named) and noconvert(named[k])
                    X.need(good, "%s:converts" % d["path"], "%s silently fills a "
                           "converted copy of an array of another type or order"
                           % d["path"], f)
    R.require("NumPy exchange functions", 4)
    return "other", ("Abstract interpretation of the NumPy exchange functions "
                     "of the extension module, for tiles of 0 to 3 dimensions "
                     "and tensors of several tilings with symbolic extents; "
                     "syntax-tree query of their bindings.")


def a_type(a):
    s = []

    def go(x):
        if isinstance(x, dict):
            s.append(str(x.get("t", "")) + str(x.get("c", ""))
                     + str(x.get("f", "")))
            for v in x.values():
                go(v)
        elif isinstance(x, list):
            for v in x:
                go(v)
    go(a)
    return " ".join(s)


def noconvert(a):
    """arg(..).noconvert() or .noconvert(true)"""
    ok = []

    def go(x):
        if isinstance(x, dict):
            if x.get("k") == "call" and str(x.get("f", "")).endswith(
                    "arg::noconvert"):
                v = [y for y in x["a"] if y.get("k") != "dflt"]
                ok.append(not v or v[0].get("v") not in (0, False))
            for y in x.values():
                go(y)
        elif isinstance(x, list):
            for y in x:
                go(y)
    go(a)
    return bool(ok) and ok[0]


# ---------------------------------------------------------------------------
# C05: failures of the runtime
# ---------------------------------------------------------------------------
LOCAL = ("starpu_data_get_local_ptr", "starpu_variable_get_local_ptr",
         "starpu_data_handle_to_pointer")


def walk(x):
    if isinstance(x, dict):
        yield x
        for v in x.values():
            yield from walk(v)
    elif isinstance(x, list):
        for v in x:
            yield from walk(v)


def c05(R):
    K = Core()
    R.rule("status", "on every path on which a runtime call reports a failure "
           "(acquisition, configuration, start) the function throws, or hands "
           "the status to its caller who throws")
    R.rule("memory", "the memory of a handle is handed out only while it is "
           "acquired")
    ws = K.ws
    # every call site
    sites = {}
    extra = {}
    for layer in ("starpu", "tile", "tensor"):
        extra.update(ws.asts(ws.units(layer)))
    from .bindings import Bindings
    B = Bindings(ws)
    allc = Code([B.tree] + list(K.asts.values()) + list(extra.values()))
    for f in allc.fns.values():
        if (f.get("file") or "").endswith(".in") or "nnv::" in f["q"]:
            continue
        for x in walk([f.get("body"), f.get("inits")]):
            if x.get("k") == "call" and x.get("f") in STATUS + LOCAL:
                sites.setdefault(where_key(K, f, x), (f, x))
    R.count("call sites", len(sites))
    KK = Core.__new__(Core)
    KK.__dict__.update(K.__dict__)
    KK.code = allc
    seen = set()

    def judge(what, ps):
        for p in ps:
            with R.guard(str(what)):
                w = p.it.world
                for m, l, n in w.reached:
                    f = allc.fns.get(m)
                    if f:
                        seen.add((K.ws.display(f["file"]), l))
                for n, f, l, st in w.failed:
                    ok = p.kind == "throw"
                    if not ok and isinstance(p.val, Poly):
                        # the caller gets the status
                        ok = p.facts.decide_eq(p.val) is False
                    R.ob(ok)
                    if not ok:
                        R.violation("ignored:%s:%s" % (f["q"], n), "%s: a failure "
                                    "of %s is ignored" % (what, n),
                                    K.where(f, l))
                if w.failed and p.kind != "throw":
                    continue
                for rule, msg, f, l in w.bad:
                    if rule == "memory handed out without acquisition":
                        R.ob(False)
                        R.violation("memory:%s" % (f["q"] if f else what),
                                    "%s: %s" % (what, msg),
                                    K.where(f, l) if f else None)
        for p in ps:
            for e in p.events:
                if e.name in LOCAL:
                    R.ob()
                    if e.fn and e.fn.get("file"):
                        seen.add((K.ws.display(e.fn["file"]), e.line))

    # start of the runtime
    f = K.fn("cfg")
    ps = run_paths(KK, R, "start of the runtime", lambda it: it.run(
        f, None, [Poly.atom(a) for a in ("a", "b", "c")]))
    if ps is not None:
        judge("start of the runtime", ps)
        names = {n for p in ps for _, _, n in p.it.world.reached}
        ok = bool(names & {"starpu_init", "starpu_initialize"})
        R.ob(ok)
        if not ok:
            R.violation("start", "the configuration does not start the runtime")
    for name, f, m, what, ps in life(KK, R):
        judge(what, ps)
    # asynchronous printing
    for name, g in (("print_scalar_async", ()),):
        for f in KK.code.fns.values():
            if f["n"] == name and "Tensor<float>" in (f.get("clst") or ""):
                def sc(it):
                    x = build_tensor(K, it, g)
                    return it.run(f, Cell(x), [])
                ps = run_paths(KK, R, name, sc)
                if ps is not None:
                    judge(name, ps)
    numpy(KK, R, lambda what, f, case, ps: judge(what, ps))
    # whatever else contains such a call
    for (d, l), (f, x) in sorted(sites.items(), key=lambda z: z[0]):
        if (d, l) in seen or (d, l - 1) in seen:
            continue
        cs = [f] if f.get("body") is not None else []
        if x["f"] in LOCAL:
            # memory of a handle somebody else acquired
            cs = [c for c in allc.fns.values() if calls(c, f)]
        for c in cs:
            with R.guard(str(d)):
                def sc(it):
                    S = Setup(K, it)
                    this = None
                    t = c.get("clst") or c.get("cls")
                    if t and not c.get("static"):
                        this = Cell(it.unknown(bare(t), "this"))
                    args = [S.arg(p) for p in c["ps"]]
                    return it.run(c, this, args)
                ps = run_paths(KK, R, c["q"], sc)
                if ps is not None:
                    judge(c["q"], ps)
        if (d, l) not in seen:
            R.undecided("%s in %s at %s:%s is not reached by any scenario"
                        % (x["f"], f["q"], d, l))
    R.require("call sites", 3)
    return "other", ("Object-precise abstract interpretation of the start of "
                     "the runtime, of host access in the handle, tile and "
                     "tensor classes and of the NumPy exchange functions, "
                     "with every status call failing or not.")


def calls(c, f):
    return any(x.get("k") == "call" and x.get("m") == f["m"]
               for x in walk(c.get("body")))


def where_key(K, f, x):
    return (K.ws.display(f["file"]), x.get("l"))


def build_tensor(K, it, g, cls="nntile::tensor::Tensor<float>"):
    s, b, l, tr = Setup(K, it).tensor(len(g), g)
    n = 1
    for x in g:
        n *= x
    v = Struct(cls)
    ks = [k for k in K.code.ctors.get(cls, []) if len(k["ps"]) == 3]
    if len(ks) != 1:
        raise GiveUp("constructor of " + cls)
    it.construct(v, cls, ks[0], [Cell(tr), Cell(vec([0] * n, "int")),
                                 Cell(C(0))])
    return v


# ---------------------------------------------------------------------------
# C17: reduction methods of tensors
# ---------------------------------------------------------------------------
METHODS = {"set_reduction_add": "accumulate",
           "set_reduction_hypot": "accumulate_hypot",
           "set_reduction_maxsumexp": "accumulate_maxsumexp"}


def glob(it, v):
    """Name of the global a pointer refers to."""
    if isinstance(v, Ptr) and v.cell is not None:
        for q, c in it.globals.items():
            if c is v.cell:
                return q
    return None


def reduction_methods(R):
    K = Core()
    for el, suffix in (("float", "fp32"), ("double", "fp64")):
        for name, op in METHODS.items():
            fs = [f for f in K.code.fns.values() if f["n"] == name
                  and bare(f.get("clst") or "")
                  == "nntile::tensor::Tensor<%s>" % el]
            if not fs:
                R.undecided("%s of Tensor<%s>" % (name, el))
                continue
            f = fs[0]
            for g in ((), (2,), (2, 2)):
                def sc(it):
                    x = build_tensor(K, it, g, bare(f["clst"]))
                    it.tiles = list(Exchange.handles(x))
                    it.run(f, Cell(x), [])
                what = "%s of a tensor of %s tiles" % (
                    name, "x".join(map(str, g)) or "1")
                ps = run_paths(K, R, what, sc)
                for p in ps or []:
                    got = {}
                    for e in p.events:
                        if e.name.endswith("set_reduction_methods"):
                            R.count("reduction method registrations")
                            got[id(e.args[0])] = (glob(p.it, e.args[1]),
                                                  glob(p.it, e.args[2]))
                    want = ("nntile::starpu::%s::codelet_%s" % (op, suffix),
                            "nntile::starpu::clear::codelet")
                    ok = p.kind == "ret" and all(
                        got.get(id(h)) == want for h in p.it.tiles)
                    R.ob(ok)
                    if not ok:
                        R.violation("methods:%s" % name, "%s gives %s instead "
                                    "of %s to each tile" % (
                                        what, sorted(set(got.values()), key=str)
                                        or "nothing", want), K.where(f))


# ---------------------------------------------------------------------------
# C11: kinds of tasks
# ---------------------------------------------------------------------------
# kinds of tasks that exist on GPUs only
GPU_ONLY = {"fp16_to_fp32", "fp32_to_fp16", "gemm_ex"}
GPU_TYPES = ("_fp16", "fast_tf32", "fast_fp16")


def cfield(v, n):
    """Field of an object, None if it was never set."""
    for k, c in v.f.items():
        if k[1] == n:
            return c.v
    return None


class FakeFn(Fn):
    pass


def c11(R):
    ws = build.Workspace()
    K = Core(extra=ws.units("starpu"))
    R.rule("registered", "after the start of the library every task kind has "
           "a performance model with a name and an implementation for the CPU "
           "(GPU-only kinds excepted)")
    R.rule("names", "names and symbols are pairwise distinct")
    R.rule("restriction", "with implementations for both kinds of worker, any "
           "sequence of restrictions leaves every task kind restricted to the "
           "last one, and lifting it restores what it was")
    gs = sorted(q for q, g in K.code.globals.items()
                if bare(g["t"]) == "nntile::starpu::Codelet")
    R.count("task kinds", len(gs))
    CPU, CUDA = K.ws.constants(["STARPU_CPU", "STARPU_CUDA"]).values()
    for q in gs:
        with R.guard("restore scenario"):
            R.sample(q)

    def cod(it, q):
        c = it.globals.get(q)
        return c.v if c is not None and isinstance(c.v, Struct) else None

    def started(it):
        it.run(K.fn("lib_init"))

    ps = run_paths(K, R, "start of the library", started)
    for p in ps or []:
        if p.kind != "ret":
            R.ob(False)
            R.violation("start", "the start of the library throws")
            continue
        names, symbols = {}, {}
        for q in gs:
            with R.guard("restore scenario"):
                v = cod(p.it, q)
                short = q.replace("nntile::starpu::", "")
                op, kind = (short.rsplit("::", 1) + [""])[:2]
                loc = K.where(K.code.globals[q])
                nm = v and cfield(v, "name")
                ok = isinstance(nm, Str) and bool(nm.v)
                R.ob(ok)
                if not ok:
                    R.violation("registered:%s" % short, "task kind %s is not "
                                "initialised by the start of the library" % short,
                                loc)
                    continue
                sy = cfield(v, "symbol")
                md = cfield(v, "model")
                ok = isinstance(sy, Str) and bool(sy.v) and isinstance(md, Ptr) \
                    and md.cell is not None and md.cell.v is v
                R.ob(ok)
                if not ok:
                    R.violation("model:%s" % short, "task kind %s has no "
                                "performance model of its own" % short, loc)
                for d, x, w in ((names, nm, "name"), (symbols, sy, "symbol")):
                    if not isinstance(x, Str):
                        continue
                    if x.v in d:
                        R.ob(False)
                        R.violation("names:%s" % x.v, "task kinds %s and %s have "
                                    "the same %s %r" % (d[x.v], short, w, x.v),
                                    loc)
                    else:
                        d[x.v] = short
                        R.ob()
                if op in GPU_ONLY or any(t in kind for t in GPU_TYPES):
                    R.count("task kinds for GPUs only")
                    continue
                cf = cfield(v, "cpu_funcs")
                fs = [c.v for c in cf.items] if isinstance(cf, Vect) else []
                ok = any(isinstance(x, Fn) for x in fs)
                R.ob(ok)
                if not ok:
                    R.violation("implementation:%s" % short, "task kind %s has no "
                                "implementation for the CPU" % short, loc)
                wh = cfield(v, "where")
                ok = isinstance(wh, Poly) and p.facts.norm(wh) == C(CPU)
                R.ob(ok)
                if not ok and fs:
                    R.violation("where:%s" % short, "task kind %s may not run on "
                                "the CPU after the start" % short, loc)
    # restrictions
    inits = [f for f in K.code.fns.values()
             if f["q"] == "nntile::starpu::Codelet::init"]
    if len(inits) != 1:
        R.undecided("Codelet::init")
        return "other", "start of the library only"
    both, cpu, gpu = (CPU | CUDA), CPU, CUDA
    kinds = {both: (1, 1), cpu: (1, 0), gpu: (0, 1)}

    def prepare(it, q, have):
        g = it.globals.get(q)
        c, d = kinds[have]
        fn = Fn("_any", "any implementation")
        it.run(inits[0], g, [
            Str("x" + q), NULL,
            vec_of([fn] if c else []), vec_of([fn] if d else [])])

    def run_sequence(have, seq):
        def sc(it):
            started(it)
            for q in gs:
                if it.globals.get(q) is not None:
                    prepare(it, q, have)
            for w in seq:
                if w is None:
                    it.run(K.fn("lib_restore"))
                else:
                    it.run(K.fn("lib_restrict"), None, [C(w)])
        return sc
    seqs = [[], [cpu], [gpu], [cpu, gpu], [gpu, cpu], [gpu, None], [cpu, None],
            [gpu, cpu, None], [gpu, None, cpu], [gpu, gpu, None]]
    if R.tier == "quick":
        hs = [both]
    else:
        hs = [both, cpu, gpu]
    for have in hs:
        for seq in seqs:
            with R.guard(str(seq)[:60]):
                exp = have
                for w in seq:
                    if w is None:
                        exp = have
                    elif have & w == w:
                        exp = w
                txt = "implementations %s, %s" % (
                    {both: "for CPU and GPU", cpu: "for CPU", gpu: "for GPU"}[have],
                    ", ".join("restore" if w is None else "restrict to %s" % (
                        "CPU" if w == cpu else "GPU") for w in seq) or "no calls")
                for p in run_paths(K, R, txt, run_sequence(have, seq)) or []:
                    for q in gs:
                        v = cod(p.it, q)
                        short = q.replace("nntile::starpu::", "")
                        if v is None:
                            continue
                        wh = cfield(v, "where")
                        ok = p.kind == "ret" and isinstance(wh, Poly) and \
                            p.facts.norm(wh) == C(exp)
                        R.ob(ok)
                        if not ok:
                            R.violation("restriction:%s" % short, "task kind %s: "
                                        "%s: may run on %s instead of %s" % (
                                            short, txt, wh, exp),
                                        K.where(K.code.globals[q]))
    R.require("task kinds", 100)
    return "other", ("Abstract interpretation of the library-wide start, "
                     "restriction and restoration over all task kinds: "
                     "contents of every codelet structure afterwards.")


def vec_of(xs):
    return Vect("void (*)(void **, void *)", [Cell(x) for x in xs])


CHECKS = {"C19": c19, "C18": c18, "C05": c05, "C11": c11, "C23": c23}
