"""C40: every CPU kernel computes its formula.  C44: no overflow in the
exponentials of the softmax family."""
from . import build, kalg, kform
from .limit import item
from .kalg import NoForm, ONE, ZERO, exp, num, sqrt
from .kform import Kernel, Lit, Poly, Prover, Spec, difference
from .tasks import FnModel

R = {}


def ref(*names):
    def f(fn):
        for n in names:
            R[n] = fn
        return fn
    return f


C1 = Poly.const(1)
H = num(kalg.Fr(1, 2))
TWO = num(2)
ISQ2 = ONE / kalg.SQRT2
ISQ2PI = ONE / (kalg.SQRT2 * kalg.rat_atom(kalg.SP))


def ew(S, n, out):
    """Elementwise kernel: index, old value of the output."""
    j = S.ix(S.n(n))
    return j, S.out("out", out, j)


# -- elementwise ---------------------------------------------------------------
@ref("add")
def _(S):
    j, old = ew(S, 0, 4)
    S.val("out", lambda o: S.a(1) * S.ld(2, j) + S.a(3) * old)


@ref("add_scalar")
def _(S):
    j, old = ew(S, 0, 3)
    S.val("out", lambda o: S.a(1) + S.a(2) * old)


@ref("addcdiv")
def _(S):
    j, old = ew(S, 2, 5)
    S.val("out", lambda o: old + S.a(0) * S.ld(3, j) / (S.ld(4, j) + S.a(1)))


@ref("fill")
def _(S):
    ew(S, 0, 2)
    S.val("out", lambda o: S.a(1))


@ref("hypot")
def _(S):
    j, old = ew(S, 0, 4)
    S.val("out", lambda o: kalg.hypot(S.a(1) * S.ld(2, j), S.a(3) * old))


@ref("hypot_scalar_inverse")
def _(S):
    j, old = ew(S, 0, 3)
    S.val("out", lambda o: ONE / kalg.hypot(S.a(2) * old, S.a(1)))


@ref("logsumexp")
def _(S):
    j, old = ew(S, 0, 2)
    S.val("out", lambda o: S.ld(1, j + j) + kalg.log(S.ld(1, j + j + C1)))


def vmax(o, a, b):
    return a if o.ge(a, b) else b


@ref("maximum")
def _(S):
    j, old = ew(S, 0, 2)
    S.val("out", lambda o: vmax(o, S.ld(1, j), old))


@ref("pow")
def _(S):
    j, old = ew(S, 0, 3)
    S.val("out", lambda o: S.a(1) * kalg.power(old, S.a(2)))


@ref("prod")
def _(S):
    j, old = ew(S, 0, 2)
    S.val("out", lambda o: old * S.ld(1, j))


@ref("scal")
def _(S):
    j, old = ew(S, 0, 3)
    S.val("out", lambda o: S.a(1) * S.ld(2, j))


@ref("sqrt")
def _(S):
    j, old = ew(S, 0, 2)
    S.val("out", lambda o: sqrt(S.ld(1, j)))


@ref("sqrt_inplace")
def _(S):
    j, old = ew(S, 0, 1)
    S.val("out", lambda o: sqrt(old))


@ref("fp16_to_fp32", "fp32_to_fp16")
def _(S):
    j, old = ew(S, 0, 2)
    S.val("out", lambda o: S.ld(1, j))


@ref("relu")
def _(S):
    j, old = ew(S, 0, 1)
    S.val("out", lambda o: vmax(o, old, ZERO))


@ref("relu_forward")
def _(S):
    j, old = ew(S, 0, 2)
    S.val("out", lambda o: vmax(o, S.ld(1, j), ZERO))


@ref("relu_backward")
def _(S):
    j, old = ew(S, 0, 3)
    S.val("out", lambda o: old + (S.ld(2, j) if o.gt(S.ld(1, j), ZERO)
                                  else ZERO))


@ref("drelu")
def _(S):
    j, old = ew(S, 0, 1)
    S.val("out", lambda o: ONE if o.gt(old, ZERO) else ZERO)


def gelu(z):
    return H * z * (ONE + kalg.erf(z * ISQ2))


def dgelu(z):
    return H * (ONE + kalg.erf(z * ISQ2)) + z * ISQ2PI * exp(-H * z * z)


CG = num(kalg.Fr(44715, 1000000))


def gelutanh(z):
    f = kalg.SQRT2 / kalg.rat_atom(kalg.SP)
    return H * z * (ONE + kalg.tanh(f * (z + CG * z * z * z)))


def dgelutanh(z):
    f = kalg.SQRT2 / kalg.rat_atom(kalg.SP)
    t = kalg.tanh(f * (z + CG * z * z * z))
    return H * (ONE + t) + H * z * (ONE - t * t) * f * (
        ONE + num(3) * CG * z * z)


@ref("gelu")
def _(S):
    j, old = ew(S, 0, 1)
    S.val("out", lambda o: gelu(old))


@ref("dgelu")
def _(S):
    j, old = ew(S, 0, 1)
    S.val("out", lambda o: dgelu(old))


@ref("gelu_backward")
def _(S):
    j, old = ew(S, 0, 3)
    S.val("out", lambda o: old + dgelu(S.ld(1, j)) * S.ld(2, j))


@ref("gelutanh")
def _(S):
    j, old = ew(S, 0, 2)
    S.val("out", lambda o: gelutanh(S.ld(1, j)))


@ref("gelutanh_inplace")
def _(S):
    j, old = ew(S, 0, 1)
    S.val("out", lambda o: gelutanh(old))


@ref("dgelutanh")
def _(S):
    j, old = ew(S, 0, 1)
    S.val("out", lambda o: dgelutanh(old))


@ref("gelutanh_backward")
def _(S):
    j, old = ew(S, 0, 3)
    S.val("out", lambda o: old + dgelutanh(S.ld(1, j)) * S.ld(2, j))


def adam(S, decoupled):
    j = S.ix(S.n(1))
    b1, b2, eps, lr, wd = [S.a(k) for k in (2, 3, 4, 5, 6)]
    m = S.out("first_moment", 8, j)
    v = S.out("second_moment", 9, j)
    p = S.out("p", 10, j)
    t = S.nr(0)
    g = S.ld(7, j)
    if decoupled:
        p0 = p * (ONE - lr * wd)
        gg = g
    else:
        p0 = p
        gg = g + wd * p
    # 0 <= beta < 1
    for b in (b1, b2):
        S.assume.append(Lit("gt0", ONE - kalg.power(b, t)))
    # the second moment is kept as its square root
    if S.fact(0) == "1":
        m1 = (ONE - b1) * gg
        v1 = sqrt(ONE - b2) * kalg.fabs(gg)
    else:
        m1 = b1 * m + (ONE - b1) * gg
        v1 = kalg.hypot(sqrt(b2) * v, sqrt(ONE - b2) * gg)
    S.val("first_moment", lambda o: m1)
    S.val("second_moment", lambda o: v1)
    S.val("p", lambda o: p0 - lr / (ONE - kalg.power(b1, t)) * m1 / (
        v1 / sqrt(ONE - kalg.power(b2, t)) + eps))


@ref("adam_step")
def _(S):
    adam(S, False)


@ref("adamw_step")
def _(S):
    adam(S, True)


# -- matrices and slices ---------------------------------------------------------
@ref("transpose")
def _(S):
    m, n = S.n(0), S.n(1)
    i, j = S.ix(m), S.ix(n)
    S.out("out", 4, i * n + j)
    S.val("out", lambda o: S.a(2) * S.ld(3, i + j * m))


@ref("mask_scalar")
def _(S):
    i, j = S.ix(S.n(0)), S.ix(S.n(1))
    old = S.out("out", 4, i + j * S.n(0))
    S.val("out", lambda o: old if o.truth(S.ld(2, i)) else S.a(3))


def mkn(S):
    """m-by-k-by-n array: offsets of an element and of its slice."""
    m, n, k = S.n(0), S.n(1), S.n(2)
    i2, i1, i0 = S.ix(n), S.ix(m), S.ix(k)
    return i2 * m * k + i0 * m + i1, i2 * m + i1


def mnk(S):
    """m-by-k-by-n array: offsets of an element and of its fiber."""
    m, n, k = S.n(0), S.n(1), S.n(2)
    i2, i1, i0 = S.ix(k), S.ix(n), S.ix(m)
    return (i1 * k + i2) * m + i0, i2


@ref("add_slice")
def _(S):
    e, s = mkn(S)
    old = S.out("out", 6, e)
    S.val("out", lambda o: S.a(3) * S.ld(4, s) + S.a(5) * old)


@ref("add_slice3")
def _(S):
    e, s = mkn(S)
    S.out("out", 7, e)
    S.val("out", lambda o: S.a(3) * S.ld(4, s) + S.a(5) * S.ld(6, e))


@ref("prod_slice")
def _(S):
    e, s = mkn(S)
    old = S.out("out", 5, e)
    S.val("out", lambda o: S.a(3) * S.ld(4, s) * old)


@ref("prod_fiber")
def _(S):
    e, f = mnk(S)
    old = S.out("out", 5, e)
    S.val("out", lambda o: S.a(3) * S.ld(4, f) * old)


@ref("prod_fiber3")
def _(S):
    e, f = mnk(S)
    S.out("out", 6, e)
    S.val("out", lambda o: S.a(3) * S.ld(4, f) * S.ld(5, e))


@ref("add_fiber")
def _(S):
    m, n, k, batch = S.n(0), S.n(1), S.n(2), S.n(3)
    b, i2, i1, i0 = S.ix(batch), S.ix(k), S.ix(n), S.ix(m)
    old = S.out("out", 7, ((i1 + b * n) * k + i2) * m + i0)
    S.val("out", lambda o: S.a(4) * S.ld(5, i2 + b * k) + S.a(6) * old)


@ref("embedding")
def _(S):
    m, n, k, k0, ks = [S.n(x) for x in range(5)]
    i2, i1, i0 = S.ix(n), S.ix(m), S.ix(ks)
    S.out("out", 7, (i2 * k + k0 + i0) * m + i1)
    S.val("out", lambda o: S.ld(6, ks * S.at(5, i2 * m + i1) + i0))


@ref("embedding_backward")
def _(S):
    m, n, k, k0, ks = [S.n(x) for x in range(5)]
    i2, i1, i0 = S.ix(n), S.ix(m), S.ix(ks)
    old = S.out("out", 7, ks * S.at(5, i2 * m + i1) + i0)
    S.val("out", lambda o: old + S.ld(6, (i2 * k + k0 + i0) * m + i1))


@ref("subtract_indexed_outputs")
def _(S):
    i = S.ix(S.n(1))
    old = S.out("out", 4, S.at(3, i) + i * S.n(0))
    S.val("out", lambda o: old - S.a(2))


@ref("normalize")
def _(S):
    m, n, k = S.n(0), S.n(1), S.n(2)
    i2, i1, i0 = S.ix(n), S.ix(k), S.ix(m)
    e = (i2 * k + i1) * m + i0
    s = (i2 * m + i0) * Poly.const(2)
    old = S.out("out", 8, e)
    l = S.nr(3)
    eps = S.a(4, pos=True)
    total, norm = S.ld(7, s), S.ld(7, s + C1, nneg=True)
    # the mean square is at least the square of the mean
    S.assume.append(Lit("ge0", norm * norm * l - total * total))
    mean = total / l
    S.val("out", lambda o: (old - mean) / sqrt(
        norm * norm / l - mean * mean + eps) * S.ld(5) + S.ld(6))


def softmax(S, M, src, alpha, out):
    m, n, k = S.n(0), S.n(1), S.n(2)
    i2, i1, i0 = S.ix(n), S.ix(k), S.ix(m)
    e = (i2 * k + i1) * m + i0
    s = (i2 * m + i0) * Poly.const(2)
    S.out("out", out, e)
    x = S.ld(src, e)
    S.masked.add(src)
    S.val("out", lambda o: ZERO if o.isinf(x) else
          S.a(alpha) * exp(x - S.ld(M, s)) / S.ld(M, s + C1))


@ref("softmax")
def _(S):
    softmax(S, 3, 4, 5, 6)


@ref("softmax_inplace")
def _(S):
    softmax(S, 3, 5, 4, 5)


@ref("accumulate_maxsumexp")
def _(S):
    j = S.ix(S.n(0))
    d0 = j + j
    M = S.out("max", 2, d0)
    s = S.out("sum", 2, d0 + C1)
    xM, xs = S.ld(1, d0), S.ld(1, d0 + C1)

    def best(o):
        if o.eq(xs, ZERO):
            return M
        if o.eq(s, ZERO):
            return xM
        return vmax(o, xM, M)
    S.val("max", best)
    # sum * exp(max) is added up
    S.sum("sum*exp(max)", lambda v: v["sum"] * exp(v["max"]),
          s * exp(M) + xs * exp(xM), ZERO, [])


# -- reductions ------------------------------------------------------------------
def slice_red(S):
    m, n, k = S.n(0), S.n(1), S.n(2)
    i2, i1 = S.ix(n), S.ix(m)
    r = S.rx(k)
    return i2 * m * k + r * m + i1, i2 * m + i1


@ref("sum_slice")
def _(S):
    e, s = slice_red(S)
    old = S.out("out", 6, s)
    S.sum("out", lambda v: v["out"], S.a(5) * old, S.a(3) * S.ld(4, e))


@ref("sumprod_slice")
def _(S):
    e, s = slice_red(S)
    old = S.out("out", 7, s)
    S.sum("out", lambda v: v["out"], S.a(6) * old,
          S.a(3) * S.ld(4, e) * S.ld(5, e))


@ref("norm_slice")
def _(S):
    e, s = slice_red(S)
    old = S.out("out", 6, s)
    x, b = S.a(3) * S.ld(4, e), S.a(5) * old
    S.sum("out^2", lambda v: v["out"] * v["out"], b * b, x * x, square="out")


@ref("sum_fiber")
def _(S):
    m, n, k, batch = S.n(0), S.n(1), S.n(2), S.n(3)
    b, i2 = S.ix(batch), S.ix(k)
    i1, i0 = S.rx(n), S.rx(m)
    old = S.out("out", 7, i2 + b * k)
    S.sum("out", lambda v: v["out"], S.a(6) * old,
          S.a(4) * S.ld(5, ((i1 + b * n) * k + i2) * m + i0))


@ref("sumprod_fiber")
def _(S):
    m, n, k = S.n(0), S.n(1), S.n(2)
    i2 = S.ix(k)
    i1, i0 = S.rx(n), S.rx(m)
    e = (i1 * k + i2) * m + i0
    old = S.out("out", 7, i2)
    S.sum("out", lambda v: v["out"], S.a(6) * old,
          S.a(3) * S.ld(4, e) * S.ld(5, e))


@ref("sumnorm")
def _(S):
    e, s = slice_red(S)
    old = S.out("sum", 4, s + s)
    nrm = S.out("norm", 4, s + s + C1)
    S.ld(4, s + s + C1, nneg=True)
    x = S.ld(3, e)
    S.sum("sum", lambda v: v["sum"], old, x)
    S.sum("norm^2", lambda v: v["norm"] * v["norm"], nrm * nrm, x * x,
          square="norm")


@ref("total_sum_accum")
def _(S):
    n = S.n(2)
    i = S.rx(n)
    old = S.out("val", 6, Poly.const(0))
    S.sum("val", lambda v: v["val"], old, S.a(0) * (
        S.ld(3, i) - S.ld(4, S.at(5, i) + i * S.n(1))))


@ref("maxsumexp")
def _(S):
    e, s = slice_red(S)
    M = S.out("max", 4, s + s)
    s_ = S.out("sum", 4, s + s + C1)
    x = S.ld(3, e)
    S.masked.add(3)
    S.sum("sum*exp(max)", lambda v: v["sum"] * exp(v["max"]),
          s_ * exp(M), exp(x))
    S.max("max", "max", lambda o: None if o.eq(s_, ZERO) else M, x)


# -- driver ------------------------------------------------------------------------
def instances(ws, rep=None):
    """(kernel, mangled, FnModel, single precision) of every CPU kernel."""
    units = [u for u in ws.units("kernel") if u.parent.name in R]
    asts = ws.asts(units)
    bcs = ws.bitcodes(units)

    def one(u):
        fs = [f for f in asts[u]["functions"] if f["file"] == str(u)
              and f["n"].endswith("cpu")]
        return u, fs, ws.ir([bcs[u]], {f["m"] for f in fs})
    out = []
    for u, fs, d in build.pmap(one, units):
        for f in fs:
            x = d.get(f["m"])
            if x is None:
                continue
            for s in x["scenarios"]:
                fm = FnModel(x["name"], s["facts"], s["fn"])
                out.append((u, f, fm))
    return out


def precision(fm):
    ts = {i["t"] for _, _, i in fm.insts() if i["k"] in ("load", "store")}
    return "float" in ts and "double" not in ts


def show_facts(fm):
    """The case of an instance, for messages."""
    x = [(fm.fn["params"][p]["n"], v) for (p, o), v in sorted(fm.facts.items())
         if o == -1 and v != "*" and p < len(fm.fn["params"])]
    return " with " + ", ".join("%s=%s" % y for y in x) if x else ""


def decide(k, fm):
    """("ok", obligations) | ("bad", text, goal) | ("open", text)."""
    single = precision(fm)
    why = None
    try:
        K = Kernel(fm, single)
        S = Spec(K)
        R[k](S)
        P = Prover(K, S)
        if P.prove():
            n, opened, bad = kform.divisions(P)
            if bad:
                return "bad", bad[0], "division"
            return "ok", P.ob + n, opened
        why = "; ".join(x[2] for x in P.failed[:2])[:600]
        w = difference(P)
        if w:
            return "bad", "%s (%s)" % (w, P.failed[0][2][:400]), \
                P.failed[0][0][1]
    except NoForm as e:
        why = str(e)
    try:
        K = Kernel(fm, single)
        S = Spec(K)
        R[k](S)
        w = kform.difference_generic(K, S)
        if w:
            return "bad", "%s (%s)" % (w, why[:400]), w.split()[0]
    except NoForm as e:
        why += "; " + str(e)
    return "open", why


def c40(Rp):
    Rp.rule("formula", "the value stored in every element of an output, "
            "extracted from the compiled kernel as a formula over the old "
            "contents of the buffers and the scalars, equals the documented "
            "formula in exact arithmetic, on every feasible path")
    Rp.rule("reduction", "sums, norms, maxima and sums of exponentials: by "
            "induction over the loop body, every iteration adds exactly the "
            "term of its index to what the loop-carried values stand for, "
            "which starts at the documented base")
    Rp.rule("elements", "the elements written are those of the documented "
            "index ranges, each from the elements the formula names")
    Rp.rule("division", "no divisor of a stored or loop-carried value is zero "
            "where the reference formula is defined")
    Rp.rule("witness", "a formula that is not shown equal is a violation only "
            "with an assignment of values at which it differs; without one it "
            "is undecided")
    ws = build.Workspace()
    for u in ws.units("kernel"):
        if u.parent.name not in R:
            Rp.count("kernels without a reference formula")
            Rp.sample("no reference formula: " + u.parent.name)
    seen = set()
    for u, f, fm in instances(ws):
        k = u.parent.name
        prec = "fp32" if precision(fm) else "fp64"
        name = "%s<%s>%s" % (k, prec, show_facts(fm))
        with Rp.guard(name), item(60):
            r = decide(k, fm)
            if k not in seen:
                seen.add(k)
                Rp.count("kernels")
            Rp.count("instances and cases")
            if r[0] == "ok":
                for _ in range(r[1]):
                    Rp.ob()
                Rp.sample("%s: %d obligations shown" % (name, r[1]))
                for x in r[2]:
                    Rp.undecided("%s: %s" % (name, x))
            elif r[0] == "bad":
                Rp.ob(False)
                Rp.violation("%s %s %s" % (k, prec, r[2]),
                             "kernel %s: %s" % (name, r[1]), loc(ws, f))
            else:
                Rp.ob(False)
                Rp.undecided("%s: %s" % (name, r[1]))
    Rp.require("kernels", 48)
    Rp.require("instances and cases", 130)
    return "other", ("Formulas extracted from the optimised LLVM IR of every "
                     "CPU kernel and compared with reference formulas in a "
                     "normal form of exact arithmetic; rounding is not "
                     "modelled.")


def loc(ws, f):
    return "%s:%s" % (ws.display(f["file"]), f.get("l", 0))


CHECKS = {"C40": c40}
