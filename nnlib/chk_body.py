"""C49: what task implementations built from BLAS routines and kernels compute,
as a whole: the sequence of calls is interpreted in the algebra of talg."""
import math
import re

from . import talg
from .build import Workspace, pmap
from .effects import bindings, fact_value
from .limit import item
from .poly import Poly
from .pyinterp import Sym, Tensor, Traits, TransV
from .talg import Mismatch, Unsupported
from .tasks import FnModel, TaskLayer, base_kind, const_off, includes_of, strip
from .tops import OPS, Mse, Stale, StaleData, State, contract, dims, \
    flash_scores, flash_softmax, hyp, lin

KERNEL = re.compile(r"^_ZN6nntile6kernel\d+(\w+?)3cpu(?:I|E)")
SIZES = [5, 7, 11, 13, 17, 19]
ONE = Poly.const(1)
PURE = re.compile(r"^(sqrt|pow|exp|log|fabs|fmax|fmin)f?$|^llvm\.(sqrt|pow|exp|"
                  r"log|fabs|lifetime|assume|dbg|experimental\.noalias|smax|"
                  r"umax|smin|umin|expect)|^_ZSt9terminate|^__cxa_|"
                  r"^__clang_call_terminate")


class NoBody(Exception):
    """The implementation cannot be followed."""


class Wrong(Exception):
    """The implementation does something other than its specification."""


# -- reading the implementation -------------------------------------------------
class Step:
    def __init__(self, name, args, loc, loops):
        self.name, self.args, self.loc, self.loops = name, args, loc, loops
        self.bufs, self.down = {}, set()


def order(fm):
    """Blocks in an order compatible with execution."""
    seen, out = set(), []

    def go(b):
        st = [(b, iter(fm.blocks[b]["succ"]))]
        seen.add(b)
        while st:
            x, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(fm.blocks[s]["succ"])))
                    break
            else:
                st.pop()
                out.append(x)
    go(fm.entry)
    out.reverse()
    # the body of a loop precedes what follows it
    for L in fm.loops.values():
        ins = [b for b in out if b in L["blocks"]]
        if not ins:
            continue
        i = out.index(ins[0])
        rest = [b for b in out[i:] if b not in L["blocks"]]
        out = out[:i] + ins + rest
    return out


class Body:
    """Calls of an implementation with arguments over the parameters of the
    submitting function."""

    def __init__(self, fm, b):
        self.fm, self.b = fm, b
        self.steps = []
        self.types = {}
        for bid in order(fm):
            if bid in fm.dead_ends():
                continue
            for i in fm.blocks[bid]["is"]:
                self.inst(bid, fm.blocks[bid]["loop"], i)

    def param(self, off):
        """Submission parameter stored in the task's arguments."""
        return self.b.field_param(off)

    def size(self, p):
        """Polynomial over n<parameter> and loop counters."""
        if p is None:
            raise NoBody("a size without closed form")
        m = {}
        for a in p.atoms():
            if re.match(r"^i\d+$", a):
                continue
            q = None
            if re.match(r"^a\d+$", a):
                o = int(a[1:])
                q = self.param(o)
                if q is None:
                    f = self.b.field_fact(o)
                    if f is not None and re.match(r"^-?\d+$", str(f)):
                        m[a] = Poly.const(int(f))
                        continue
            if q is None:
                raise NoBody("a size that is not an argument of the task")
            m[a] = Poly.atom("n%d" % q)
        return p.subst(m) if m else p

    def int(self, i, j):
        c = self.fm.ctx
        old, c.narrow = c.narrow, True
        try:
            p = c.scev(i["s"][j]) if i["s"][j] is not None else None
            if p is None:
                p = c.val(i["a"][j])
        finally:
            c.narrow = old
        return self.size(p)

    def buf(self, i, j):
        s = i["s"][j]
        if not s or "base" not in s:
            return None
        bk = base_kind(s["base"])
        if bk[0] != "buf":
            return None
        off = self.fm.ctx.scev(s["off"])
        return bk[1], self.size(off)

    def real(self, v, depth=0):
        """Coefficient: number, Sym of a parameter or ('at', buffer)."""
        v = strip(self.fm.ctx.resolve(strip(v)))
        if v is None or depth > 20:
            raise NoBody("a coefficient that is not understood")
        k = v.get("k")
        if k == "cf":
            return {"Inf": math.inf, "-Inf": -math.inf}.get(
                v["v"]) if v["v"] in ("Inf", "-Inf") else float(v["v"])
        if k == "ci":
            return float(v["v"])
        if k == "load":
            bs = v["p"]["base"]
            o = const_off(v["p"]["off"])
            bk = base_kind(bs)
            if bk[0] == "buf" and o == 0:
                return ("at", bk[1])
            if bs.get("k") == "param" and bs["i"] == 1 and o is not None:
                q = self.param(o)
                if q is not None and str(v.get("t")) in (
                        "float", "double", "half"):
                    return Sym("p%d" % q)
                if q is not None:
                    return ("n", Poly.atom("n%d" % q))
                f = self.b.site.fields.get(o)
                c = fact_value(f[1]) if f else None
                if c is not None:
                    return float(c)
        if k == "cast":
            x = self.real(v["a"] if isinstance(v["a"], dict) else v["a"][0],
                          depth + 1)
            return self.num(x) if isinstance(x, tuple) and x[0] == "n" else x
        if k == "op":
            a = [self.num(self.real(x, depth + 1)) for x in v["a"]]
            op = v["op"]
            if all(isinstance(x, float) for x in a):
                if op == "fneg":
                    return -a[0]
                if op in ("fadd", "add"):
                    return a[0] + a[1]
                if op in ("fsub", "sub"):
                    return a[0] - a[1]
                if op in ("fmul", "mul"):
                    return a[0] * a[1]
                if op == "fdiv" and a[1]:
                    return a[0] / a[1]
        if k == "call":
            m = re.sub(r"^llvm\.(\w+)\..*", r"\1", v.get("m") or "")
            a = [self.num(self.real(x, depth + 1)) for x in v["a"][:2]]
            if m in ("sqrt", "sqrtf") and isinstance(a[0], float):
                return math.sqrt(a[0])
            if m in ("pow", "powf") and all(isinstance(x, float) for x in a):
                return a[0] ** a[1]
            if m in ("fabs", "fabsf") and isinstance(a[0], float):
                return abs(a[0])
        raise NoBody("a coefficient that is not understood (%s)" % (
            v.get("op") or v.get("m") or k))

    def num(self, x):
        if isinstance(x, tuple) and x[0] == "n":
            return float(at(x[1]))
        return x

    def loops(self, bid, lp):
        out = []
        fm = self.fm
        for l in fm.loop_chain(lp)[::-1]:
            t = fm.trips(l, bid)
            out.append(("i%d" % l, self.size(t)))
        # executed in every iteration
        tgt = [fm.loops[lp]["latch"]] if lp != -1 else fm.exits
        for x in tgt:
            if x is None or not fm.dominates(bid, x):
                raise NoBody("a call that is made conditionally")
        ch = fm.loop_chain(lp)
        for inner, outer in zip(ch, ch[1:] + [-1]):
            h = fm.loops[inner]["header"]
            tgt = [fm.loops[outer]["latch"]] if outer != -1 else fm.exits
            for x in tgt:
                if x is None or not fm.dominates(h, x):
                    raise NoBody("a loop that is entered conditionally")
        return out

    def inst(self, bid, lp, i):
        k = i["k"]
        if k == "store":
            bk = base_kind(i["p"]["base"])
            if bk[0] != "buf":
                return
            v = strip(self.fm.ctx.resolve(strip(i["v"])))
            if v.get("k") == "call" and re.match(r"^cblas_[sd]nrm2$",
                                                 v.get("m") or ""):
                st = [s for s in self.steps if s.name == "nrm2" and
                      s.id == v.get("id")]
                if st:
                    st[0].bufs["y"] = (bk[1], self.size(
                        self.fm.ctx.scev(i["p"]["off"])))
                    self.loops(bid, lp)
                    return
            raise NoBody("values stored element by element")
        if k not in ("call", "invoke"):
            return
        m = i.get("m") or ""
        if PURE.match(m):
            return
        g = re.match(r"^cblas_([sd])(gemm|axpy|scal|nrm2)$", m)
        q = KERNEL.match(m)
        if not g and not q:
            for j, s in enumerate(i["s"]):
                if s and "base" in s and base_kind(s["base"])[0] in (
                        "buf", "multi", "?"):
                    raise NoBody("call of %s" % (m or "an unknown function"))
            return
        name = g.group(2) if g else q.group(1)
        if name not in ARGS:
            raise NoBody("call of %s" % name)
        if len(i["a"]) < len(ARGS[name]):
            raise NoBody("arguments of %s" % name)
        args = {}
        st = Step(name, args, i.get("loc"), self.loops(bid, lp))
        st.id = i.get("id")
        for j, (n, t) in enumerate(ARGS[name]):
            if t == "i":
                args[n] = self.int(i, j)
            elif t == "f":
                args[n] = self.num(self.real(i["a"][j]))
            elif t == "c":
                v = strip(i["a"][j])
                if v.get("k") != "ci":
                    raise NoBody("%s of %s is not constant" % (n, name))
                args[n] = v["v"]
            else:
                p = self.buf(i, j)
                if p is None:
                    raise NoBody("operand %s of %s" % (n, name))
                es = 1 if t == "b" else (8 if (g and g.group(1) == "d") or
                                         "3cpuId" in m else 4)
                bad = [v for v in p[1].t.values() if v % es]
                if bad:
                    raise NoBody("offset of %s of %s" % (n, name))
                st.bufs[n] = (p[0], Poly({x: v // es
                                          for x, v in p[1].t.items()}))
        # loops that walk their buffers backwards
        for c, trip in st.loops:
            ks = [coefficient(o, c) for _, o in st.bufs.values()]
            ks = [k for k in ks if k is not None and not k.is_zero()]
            if ks and all(all(v < 0 for v in k.t.values()) for k in ks):
                st.down.add(c)
        self.steps.append(st)


# name -> [(argument, i integer / f coefficient / c constant / p operand /
# b boolean operand)]
def sig(s):
    return [tuple(x.split(":")) for x in s.split()]


ARGS = {
    "gemm": sig("layout:c tA:c tB:c M:i N:i K:i alpha:f A:p lda:i B:p ldb:i "
                "beta:f C:p ldc:i"),
    "axpy": sig("N:i alpha:f x:p incx:c y:p incy:c"),
    "scal": sig("N:i alpha:f x:p incx:c"),
    "nrm2": sig("N:i x:p incx:c"),
    "mask_scalar": sig("rows:i cols:i mask:b val:f A:p"),
    "maxsumexp": sig("m:i n:i k:i src:p dst:p"),
    "softmax_inplace": sig("m:i n:i k:i mse:p alpha:f dst:p"),
    "softmax": sig("m:i n:i k:i mse:p src:p alpha:f dst:p"),
    "sumprod_slice": sig("m:i n:i k:i alpha:f x1:p x2:p beta:f y:p"),
    "sum_slice": sig("m:i n:i k:i alpha:f x:p beta:f y:p"),
    "add_slice": sig("m:i n:i k:i alpha:f s:p beta:f x:p"),
    "prod_slice": sig("m:i n:i k:i alpha:f s:p x:p"),
    "prod": sig("n:i x:p y:p"),
    "add": sig("n:i alpha:f x:p beta:f y:p"),
    "scal_inplace": sig("n:i alpha:f x:p"),
    "copy": sig("n:i x:p y:p"),
}


def at(p):
    """Value at distinct prime sizes."""
    r = p.subst({a: Poly.const(SIZES[int(a[1:]) % len(SIZES)])
                 for a in p.atoms()})
    return r.cval()


def prod(ps):
    r = ONE
    for p in ps:
        r = r * p
    return r


def split(D, r, c):
    """Position at which the dimensions divide into r rows and c columns."""
    for p in range(len(D) + 1):
        if prod(D[:p]) == r and prod(D[p:]) == c:
            return p
    return None


class Run:
    """Interpretation of the steps of one implementation."""

    def __init__(self, shapes, names):
        self.shapes = shapes            # buffer -> [Poly]
        self.names = names
        self.S = State()
        self.T = {b: self.tensor(names[b], D) for b, D in shapes.items()}

    def tensor(self, name, D):
        s = [at(d) for d in D]
        self.count = getattr(self, "count", 0) + 1
        return Tensor(self.count, None, Traits(s, s), [], None, None, name)

    def operand(self, st, n, write=False):
        """(tensor, dimensions of one iteration, number of batch
        dimensions)"""
        buf, off = st.bufs[n]
        if buf not in self.shapes:
            raise NoBody("a buffer without a specification")
        if any(a[0] == "i" for a in off.atoms() - {c for c, _ in st.loops}):
            raise NoBody("an offset left by another loop")
        D = list(self.shapes[buf])
        nb = 0
        for c, trip in st.loops:
            k = coefficient(off, c)
            if k is None:
                raise NoBody("an offset that is not linear")
            if k.is_zero():
                continue
            if c in st.down:
                # counted backwards
                off = off + k * (trip - ONE) - k * Poly.atom(c)
                k = Poly.const(-1) * k
                off = off + k * Poly.atom(c)
            off = off - k * Poly.atom(c)
            for j in range(len(D)):
                if prod(D[:j]) == k and prod(D[j:]) == trip:
                    nb += len(D) - j
                    D = D[:j]
                    break
            else:
                raise Wrong("loop over %s advances by %s elements for %s "
                            "iterations, which is not a dimension of %s" % (
                                self.names[buf], show(k, self), show(
                                    trip, self), dshow(
                                        self.shapes[buf], self)))
        if not off.is_zero():
            raise Wrong("%s is used from element %s on" % (
                self.names[buf], show(off, self)))
        return self.T[buf], D, nb

    def pick(self, st, ops, write):
        """Operands brought to a common batch: name -> (tensor, dims)."""
        r = {n: self.operand(st, n) for n in ops}
        nb = max(x[2] for x in r.values())
        ext = {}
        for n, (t, D, k) in r.items():
            if k == nb:
                ext[n] = [at(x) for x in self.shapes[st.bufs[n][0]]][len(D):]
        bd = next(iter(ext.values())) if ext else []
        if len(st.loops) and not nb:
            raise NoBody("a loop that repeats the same call")
        out = {}
        for n, (t, D, k) in r.items():
            if k == nb:
                out[n] = (t, D)
                continue
            if n in write:
                raise Wrong("every iteration of the loop updates the same "
                            "part of %s" % t)
            if n == "mask":
                out[n] = (t, D)
                continue
            # the same part in every iteration
            f = self.tensor("the first part of %s in place of each" % t, [])
            f.traits = Traits([at(d) for d in D] + bd,
                              [at(d) for d in D] + bd)
            if k:
                raise NoBody("operands advanced by different loops")
            self.S.leaf(f, "first part of %s" % t)
            out[n] = (f, D)
        return out, nb

    def flat(self, st, ops, n, write):
        o, nb = self.pick(st, ops, write)
        for x, (t, D) in o.items():
            if prod(D) != n:
                raise Wrong("%s of %s elements is used as %s elements" % (
                    t, show(prod(D), self), show(n, self)))
        return o, nb

    def slices(self, st, full, part, write, stat=False):
        """Position of the axis."""
        m, n, k = (st.args[x] for x in "mnk")
        o, nb = self.pick(st, full + [part], write)
        ax = None
        for x in full:
            t, D = o[x]
            c = [j for j in range(len(D)) if prod(D[:j]) == m and
                 D[j] == k and prod(D[j + 1:]) == n]
            if not c:
                raise Wrong("%s with the dimensions %s is used as (%s)" % (
                    t, dshow(D, self), ", ".join(
                        show(z, self) for z in (m, k, n))))
            ax = c[0] if ax is None else ax
            if c[0] != ax:
                raise NoBody("operands with different axes")
        t, D = o[part]
        want = m * n * (Poly.const(2) if stat else ONE)
        if prod(D) != want:
            raise Wrong("%s with the dimensions %s is used for slices of %s" %
                        (t, dshow(D, self), ", ".join(
                            show(z, self) for z in (m, k, n))))
        return [o[x][0] for x in full], t, ax

    def coef(self, c):
        if isinstance(c, tuple) and c[0] == "at":
            return self.T[c[1]]
        return c

    def step(self, st):
        S, a = self.S, st.args
        n = st.name
        if n == "gemm":
            return self.gemm(st)
        if n in ("axpy", "scal", "nrm2"):
            if any(a[x] != 1 for x in ("incx", "incy") if x in a):
                raise Wrong("%s with a stride" % n)
            ops = {"axpy": ["x", "y"], "scal": ["x"], "nrm2": ["x"]}[n]
            o, _ = self.flat(st, ops, a["N"], [ops[-1]])
            if n == "axpy":
                OPS["axpy"](S, [self.coef(a["alpha"]), o["x"][0], o["y"][0]])
            elif n == "scal":
                OPS["scal_inplace"](S, [a["alpha"], o["x"][0]])
            else:
                y, D, k = self.operand(st, "y")
                if D:
                    raise NoBody("result of a norm")
                v = S.get(o["x"][0])
                s = v.times(v).sum_over(list(range(v.nd)), [], {})
                S.put(y, hyp(1.0, s, 0.0, None))
            return
        if any(isinstance(c, tuple) for c in a.values()):
            raise NoBody("a coefficient read from a buffer")
        if n == "mask_scalar":
            o, nb = self.pick(st, ["mask", "A"], ["A"])
            (mt, MD), (t, D) = o["mask"], o["A"]
            p = split(D, a["rows"], a["cols"])
            if p is None or prod(MD) != a["rows"]:
                raise Wrong("%s with the dimensions %s is masked in %s rows "
                            "and %s columns" % (t, dshow(D, self), show(
                                a["rows"], self), show(a["cols"], self)))
            OPS[n](S, [mt, a["val"], t, len(D) - p + nb])
        elif n == "maxsumexp":
            (x,), y, ax = self.slices(st, ["src"], "dst", ["dst"], True)
            OPS[n](S, [x, y, ax])
        elif n == "softmax_inplace":
            (x,), s, ax = self.slices(st, ["dst"], "mse", ["dst"], True)
            OPS[n](S, [s, a["alpha"], x, ax])
        elif n == "softmax":
            (x, y), s, ax = self.slices(st, ["src", "dst"], "mse", ["dst"],
                                        True)
            OPS[n](S, [s, x, a["alpha"], y, ax])
        elif n == "sumprod_slice":
            (x1, x2), y, ax = self.slices(st, ["x1", "x2"], "y", ["y"])
            OPS[n](S, [a["alpha"], x1, x2, a["beta"], y, ax])
        elif n == "sum_slice":
            (x,), y, ax = self.slices(st, ["x"], "y", ["y"])
            OPS[n](S, [a["alpha"], x, a["beta"], y, ax])
        elif n == "add_slice":
            (x,), s, ax = self.slices(st, ["x"], "s", ["x"])
            OPS[n](S, [a["alpha"], s, a["beta"], x, ax])
        elif n == "prod_slice":
            (x,), s, ax = self.slices(st, ["x"], "s", ["x"])
            OPS[n](S, [s, a["alpha"], x, ax])
        elif n in ("prod", "copy"):
            o, _ = self.flat(st, ["x", "y"], a["n"], ["y"])
            OPS[n](S, [o["x"][0], o["y"][0]])
        elif n == "add":
            o, _ = self.flat(st, ["x", "y"], a["n"], ["y"])
            OPS[n](S, [a["alpha"], o["x"][0], a["beta"], o["y"][0]])
        elif n == "scal_inplace":
            o, _ = self.flat(st, ["x"], a["n"], ["x"])
            OPS[n](S, [a["alpha"], o["x"][0]])
        else:
            raise NoBody("call of %s" % n)

    def gemm(self, st):
        a = st.args
        if any(isinstance(a[c], tuple) for c in ("alpha", "beta")):
            raise NoBody("a coefficient read from a buffer")
        o, nb = self.pick(st, ["A", "B", "C"], ["C"])
        if a["layout"] not in (101, 102):
            raise NoBody("layout of a matrix")
        if not {a["tA"], a["tB"]} <= {111, 112}:
            raise Wrong("multiplies with unknown transposition flags")
        M, N, K = a["M"], a["N"], a["K"]
        tA, tB = a["tA"] == 112, a["tB"] == 112
        if a["layout"] == 101:
            # row-major: the transposed product in column-major order
            o["A"], o["B"] = o["B"], o["A"]
            tA, tB, M, N = tB, tA, N, M
            ld = {"A": a["ldb"], "B": a["lda"], "C": a["ldc"]}
        else:
            ld = {"A": a["lda"], "B": a["ldb"], "C": a["ldc"]}
        shape = {"A": (K, M) if tA else (M, K), "B": (N, K) if tB else (K, N),
                 "C": (M, N)}
        pos = {}
        for x, (r, c) in shape.items():
            t, D = o[x]
            p = split(D, r, c)
            if p is None or ld[x] != r:
                raise Wrong("%s with the dimensions %s is multiplied as a "
                            "matrix of %s rows and %s columns with leading "
                            "dimension %s" % (t, dshow(D, self), show(r, self),
                                              show(c, self),
                                              show(ld[x], self)))
            pos[x] = p
        ka = pos["A"] if tA else len(o["A"][1]) - pos["A"]
        kb = len(o["B"][1]) - pos["B"] if tB else pos["B"]
        if ka != kb:
            raise NoBody("dimensions of a product grouped differently")
        OPS["gemm"](self.S, [a["alpha"], TransV(tA), o["A"][0], TransV(tB),
                             o["B"][0], a["beta"], o["C"][0], ka, nb])


def coefficient(p, c):
    """Coefficient of the atom c in p, None if it is not linear."""
    z = p.subst({c: Poly.const(0)})
    k = p.subst({c: Poly.const(1)}) - z
    return k if z + k * Poly.atom(c) == p else None


def show(p, run):
    s = str(p)
    for a in sorted(p.atoms(), key=len, reverse=True):
        if a[0] == "n" and a[1:].isdigit():
            s = re.sub(r"\b%s\b" % a, run.pnames[int(a[1:])], s)
    return s


def dshow(D, run):
    return "(%s)" % ", ".join(show(d, run) for d in D)


# -- what the tasks compute -----------------------------------------------------
# name -> (shapes of the operands over the positions of the parameters of
# submit, reference)
def P(i):
    return Poly.atom("n%d" % i)


def flash_spec(names, out, ref):
    s, h, b = P(0), P(1), P(2)
    seqs = [h, s, b, ONE]
    sh = {"mask": [s, s], "maxsumexp": [Poly.const(2), s, b, ONE],
          "sumprod_slice": [s, b, ONE]}
    for n in ("tmp", "tmp_grad"):
        sh[n] = [s, s, b, ONE]
    return {3 + i: sh.get(n, seqs) for i, n in enumerate(names)}, \
        dict((n, 3 + i) for i, n in enumerate(names)), out, ref


def attention(S, t):
    """Softmax of the masked scores, from given maxima and sums."""
    return flash_softmax(S, t["Q"], t["K"], t["mask"], t["maxsumexp"])


def stats_given(S, t):
    S.val[t["maxsumexp"].n] = Mse(flash_scores(S, t["Q"], t["K"], t["mask"]),
                                  0)


def flash_max(S, t):
    S.val[t["maxsumexp"].n] = Mse(flash_scores(S, t["Q"], t["K"], t["mask"]),
                                  0)


def flash_gemm(S, t):
    s = attention(S, t)
    S.put(t["A"], S.get(t["A"]).plus(contract(
        S.get(t["V"]), s, {0: 0, 1: "k", 2: 2, 3: 3},
        {0: "k", 1: 1, 2: 2, 3: 3}, "k", t["A"].traits.shape)))


def scores_grad(S, t, s):
    """Gradient of the softmax."""
    return contract(S.get(t["V"]), S.get(t["dA"]), {0: "h", 1: 0, 2: 2, 3: 3},
                    {0: "h", 1: 1, 2: 2, 3: 3}, "h", s.shape)


def flash_sumprod(S, t):
    s = attention(S, t)
    S.put(t["dV"], S.get(t["dV"]).plus(contract(
        S.get(t["dA"]), s, {0: 0, 1: "q", 2: 2, 3: 3},
        {0: 1, 1: "q", 2: 2, 3: 3}, "q", t["dV"].traits.shape)))
    y = t["sumprod_slice"]
    S.put(y, S.get(y).plus(scores_grad(S, t, s).times(s).sum_over(
        [0], y.traits.shape, {1: 0, 2: 1, 3: 2})))


def flash_dqdk(S, t, masked=True):
    """masked: once more, where the softmax is zero already"""
    s = attention(S, t)
    m = S.get(t["mask"]).remap({0: 0, 1: 1}, s.shape) if masked \
        else talg.const(s.shape, 1.0)
    sp = S.get(t["sumprod_slice"]).remap({0: 1, 1: 2, 2: 3}, s.shape)
    da = scores_grad(S, t, s).plus(sp.scale(-1.0)).times(s).times(m).scale(
        t["Q"].traits.shape[0] ** -0.5)
    S.put(t["dK"], S.get(t["dK"]).plus(contract(
        S.get(t["Q"]), da, {0: 0, 1: "q", 2: 2, 3: 3},
        {0: 1, 1: "q", 2: 2, 3: 3}, "q", t["dK"].traits.shape)))
    S.put(t["dQ"], S.get(t["dQ"]).plus(contract(
        S.get(t["K"]), da, {0: 0, 1: "k", 2: 2, 3: 3},
        {0: "k", 1: 1, 2: 2, 3: 3}, "k", t["dQ"].traits.shape)))


def gemm_spec(b):
    tr = {}
    for (pi, off), v in b.sub.facts.items():
        if pi in (0, 1) and off <= 0:
            tr[pi] = v
    for (pi, off), v in b.impl.fm.facts.items():
        if pi != 1:
            continue
        r = b.field_ref(off)
        if r is not None and r[0] in (0, 1):
            if tr.get(r[0], v) == "*" or r[0] not in tr:
                tr[r[0]] = v
    if set(tr) != {0, 1}:
        raise NoBody("transposition flags of the task")
    ta, tb = tr[0] != "0", tr[1] != "0"
    m, n, k, bt = P(2), P(3), P(4), P(5)
    shapes = {7: ([k, m] if ta else [m, k]) + [bt],
              8: ([n, k] if tb else [k, n]) + [bt], 10: [m, n, bt]}

    def ref(S, t):
        OPS["gemm"](S, [Sym("p6"), TransV(ta), t["A"], TransV(tb), t["B"],
                        Sym("p9"), t["C"], 1, 1])
    return shapes, {"A": 7, "B": 8, "C": 10}, ["C"], ref


def axpy_spec(b):
    if 0 in {pi for _, pi, _, _ in b.site.bufs}:
        return {0: [], 2: [P(1)], 3: [P(1)]}, {"alpha": 0, "x": 2, "y": 3}, \
            ["y"], lambda S, t: OPS["axpy"](S, [t["alpha"], t["x"], t["y"]])
    return {2: [P(1)], 3: [P(1)]}, {"x": 2, "y": 3}, ["y"], \
        lambda S, t: S.put(t["y"], lin(Sym("p0"), S.get(t["x"]), 1.0,
                                       lambda: S.get(t["y"])))


def nrm2_ref(S, t):
    v = S.get(t["x"])
    S.put(t["y"], hyp(1.0, v.times(v).sum_over(
        list(range(v.nd)), [], {}), 0.0, None))


SPECS = {
    "gemm": gemm_spec, "axpy": axpy_spec,
    "nrm2": lambda b: ({1: [P(0)], 2: []}, {"x": 1, "y": 2}, ["y"], nrm2_ref),
    "scal_inplace": lambda b: (
        {2: [P(1)]}, {"x": 2}, ["x"],
        lambda S, t: OPS["scal_inplace"](S, [Sym("p0"), t["x"]])),
    "flash_maxsumexp": lambda b: flash_spec(
        ["K", "Q", "mask", "maxsumexp", "tmp"], ["maxsumexp"], flash_max),
    "flash_softmax_gemm": lambda b: flash_spec(
        ["K", "Q", "mask", "maxsumexp", "V", "A", "tmp"], ["A"], flash_gemm),
    "flash_softmax_gemm_backward_sumprod_slice": lambda b: flash_spec(
        ["K", "Q", "mask", "maxsumexp", "dA", "V", "dV", "sumprod_slice",
         "tmp", "tmp_grad"], ["dV", "sumprod_slice"], flash_sumprod),
    "flash_softmax_gemm_backward_dq_dk": lambda b: flash_spec(
        ["K", "Q", "mask", "maxsumexp", "dA", "V", "sumprod_slice", "dQ",
         "dK", "tmp", "tmp_grad"], ["dQ", "dK"],
        [flash_dqdk, lambda S, t: flash_dqdk(S, t, False)]),
}


def evaluate(b, shapes, names, body, ref, pnames):
    """Values of the operands after the implementation (body) or as
    documented."""
    bufs = {}
    for buf, (mode, pi, _, _) in enumerate(b.site.bufs):
        if pi in shapes:
            bufs[buf] = pi
    if set(shapes) - set(bufs.values()):
        raise NoBody("an operand of the operation is not passed to the task")
    back = {pi: n for n, pi in names.items()}
    R = Run({buf: shapes[pi] for buf, pi in bufs.items()},
            {buf: back[pi] for buf, pi in bufs.items()})
    R.pnames = pnames
    t = {back[pi]: R.T[buf] for buf, pi in bufs.items()}
    for n in sorted(t):
        # the same names on both sides
        a = talg.leaf(n, len(t[n].traits.shape),
                      "mask" if n == "mask" else "leaf")
        R.S.val[t[n].n] = talg.of_atom(a, t[n].traits.shape)
    if "maxsumexp" in t:
        if "tmp" in t and "A" not in t and "dA" not in t:
            R.S.val[t["maxsumexp"].n] = talg.E(t["maxsumexp"].traits.shape)
        else:
            stats_given(R.S, t)
    if body is None:
        ref(R.S, t)
    else:
        for st in body.steps:
            try:
                R.step(st)
            except (Wrong, Mismatch, StaleData) as e:
                x = Wrong(str(e))
                x.loc = st.loc
                raise x
    return R.S, t


def parts(body):
    """The same call is made in several places, each for a part of a batch."""
    seen = set()
    for st in body.steps:
        k = (st.name, tuple(sorted((n, str(v)) for n, v in st.args.items())),
             tuple(sorted((n, b) for n, (b, _) in st.bufs.items())))
        if k in seen:
            return True
        seen.add(k)
    return False


def value(S, t):
    v = S.val.get(t.n)
    if isinstance(v, Stale):
        return "stale"
    if isinstance(v, Mse):
        return ("mse", v.axis, v.e.key())
    if isinstance(v, talg.E):
        return v.key()
    raise NoBody("contents of %r" % t)


def c49(Rp):
    ws = Workspace()
    T = TaskLayer(ws)
    Rp.rule("formula", "the calls an implementation makes, composed, give the "
            "operands it updates the values the operation is documented to "
            "compute, for all sizes and contents")
    Rp.rule("layout", "every matrix and slice passed to a routine is laid out "
            "as the operand's dimensions")
    bs, _ = bindings(T)
    todo = {}
    for b in bs:
        n = b.sub.ast["q"].split("::")[-2]
        if n in SPECS:
            todo.setdefault(b.op.unit, []).append((n, b))
    units = [op for op in T.ops if op.unit in todo]

    def dump(op):
        bcs = [T.bcs[op.unit]] + [T.bcs[k] for k in includes_of(ws, op.unit)]
        return ws.ir(bcs, op.entries, scenarios=True,
                     keep=("nntile::kernel::",))
    kept = dict(zip([op.unit for op in units], pmap(dump, units)))
    for u, xs in todo.items():
        for n, b in xs:
            with Rp.guard(b.describe()), item(60):
                one(Rp, n, b, kept[u], ws)
    Rp.require("task implementations", 24)
    Rp.require("library and kernel calls", 80)
    return "other", (
        "From the IR of every implementation that is built from BLAS routines "
        "and kernels, the calls are extracted with operands, offsets, sizes "
        "and loop counts as polynomials of the task's arguments; the calls "
        "are checked to address operands along their dimensions and are "
        "composed in an algebra of indexed tensors; the normal forms of the "
        "results are compared with those of the documented operation.")


def one(Rp, name, b, kept, ws):
    Rp.count("task implementations")
    d = kept.get(b.impl_name)
    if d is None:
        raise NoBody("implementation without code")
    fms = [FnModel(d["name"], s["facts"], s["fn"]) for s in d["scenarios"]]
    fm = [f for f in fms if f.facts == b.impl.fm.facts]
    if not fm:
        fm = [f for f in fms if all(
            b.impl.fm.facts.get(k, v) == v for k, v in f.facts.items())]
    if len(fm) != 1:
        raise NoBody("cases of the implementation")
    title = b.describe()
    key = "%s/%s" % (name, "T" if "double" in (b.sub.ast.get("ta") or [])
                     else "t")
    key = name
    loc = "%s:%s" % (ws.display(b.op.unit), b.codelet.loc.split(":")[-1])
    try:
        body = Body(fm[0], b)
        Rp.count("library and kernel calls", len(body.steps))
        talg.reset()
        shapes, names, out, ref = SPECS[name](b)
        pn = [p["n"] or "argument %d" % i
              for i, p in enumerate(b.sub.ast["ps"])]
        refs = [evaluate(b, shapes, names, None, x, pn)
                for x in (ref if isinstance(ref, list) else [ref])]
        R1, t1 = refs[0]
        R2, t2 = evaluate(b, shapes, names, body, ref, pn)
    except NoBody as e:
        Rp.undecided("%s: %s" % (title, e))
        return
    except Wrong as e:
        if parts(body):
            Rp.undecided("%s: the batch is divided among several calls" %
                         title)
            return
        Rp.ob(False)
        Rp.violation("%s/layout" % key, "%s: %s" % (title, e),
                     getattr(e, "loc", None) or loc)
        return
    except Unsupported as e:
        Rp.undecided("%s: %s" % (title, e))
        return
    for o in out:
        try:
            ok = any(value(R, t[o]) == value(R2, t2[o]) for R, t in refs)
        except NoBody as e:
            Rp.undecided("%s: %s" % (title, e))
            continue
        Rp.ob(ok)
        if ok:
            Rp.sample("%s: %s is as documented after %s" % (
                title, o, ", ".join(s.name for s in body.steps)))
        else:
            Rp.violation("%s/%s" % (key, o), "%s: the calls %s leave %s with "
                         "another value than documented" % (
                             title, ", ".join(s.name for s in body.steps),
                             o), loc)
    for o, pi in names.items():
        if o in out or o.startswith("tmp"):
            continue
        ok = value(R1, t1[o]) == value(R2, t2[o])
        Rp.ob(ok)
        if not ok:
            Rp.violation("%s/input %s" % (key, o), "%s: the calls %s change "
                         "the input %s" % (title, ", ".join(
                             s.name for s in body.steps), o), loc)


CHECKS = {"C49": c49}
