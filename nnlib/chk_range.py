"""Range properties of the CPU kernels: exponentials that overflow (C44)."""
from . import build, kcomp, kform, kover
from .chk_kernel import R, instances, loc, precision, show_facts
from .kform import Kernel, Lit, NoForm, Prover, Spec, ld
from .limit import item
from .poly import Poly

C1 = Poly.const(1)


def stats(S, M, src):
    """The statistics cover the elements they are used with, at least one of
    which is not masked."""
    (_, n), (_, k), (_, m) = S.index
    j2, j1, j0 = [Poly.atom(j) for j, _ in S.index]
    s = (j2 * m + j0) * Poly.const(2)
    x = ld(src, (j2 * k + j1) * m + j0)
    S.assume.append(Lit("ge0", ld(M, s) - x))
    S.ld(M, s + C1, pos=True)


CONTRACT = {
    "softmax": lambda S: stats(S, 3, 4),
    "softmax_inplace": lambda S: stats(S, 3, 5),
    "logsumexp": lambda S: S.ld(1, Poly.atom("j0") * Poly.const(2) + C1,
                                pos=True),
}
EXPS = ("exp", "expm1", "log", "log1p", "pow", "cosh", "sinh")


def has_exp(fm):
    for _, _, i in fm.insts():
        m = kform.MATH.match(i.get("m") or "") if i["k"] == "call" else None
        f = m.group(1) if m else ""
        if f in EXPS or f.endswith("f") and f[:-1] in EXPS:
            return True
    return False


def decide(k, fm):
    """("ok", n) | ("bad", key, text) | ("open", text)"""
    try:
        K = Kernel(fm, precision(fm))
        S = Spec(K)
        R[k](S)
        if k in CONTRACT:
            CONTRACT[k](S)
        P = Prover(K, S)
        P.prove()
        ok, bad = kover.analyse(P, S.masked)
        if not bad:
            return "ok", ok
        w = kover.witness(P, S.masked)
        if w:
            return "bad", bad[0][0], w
        return "open", "; ".join("%s may be %s" % (key, "/".join(sorted(s)))
                                 for key, s in bad[:3])
    except NoForm as e:
        return "open", str(e)


BOUNDED = {"normalize": (5, 6)}    # gamma, beta: of ordinary size
SQUARES = {"normalize": (4,)}      # eps is added to a square
NORMS = ("norm_slice", "sumnorm", "hypot", "hypot_scalar_inverse",
         "normalize")


def decide_norm(k, fm):
    try:
        K = Kernel(fm, precision(fm))
        S = Spec(K)
        R[k](S)
        P = Prover(K, S)
        P.prove()

        class D(kover.Magnitudes):
            small, square = BOUNDED.get(k, ()), SQUARES.get(k, ())
        ok, bad = kover.analyse(P, (), D)
        if not bad:
            return "ok", ok
        s = 1e28 if K.single else 1e220
        w = kover.witness(P, (), (s, s / 64, 1 / s, 64 / s), exact=True)
        if w:
            return "bad", bad[0][0], w
        return "open", "; ".join("%s: %s" % (key, "/".join(sorted(x)))
                                 for key, x in bad[:3])
    except NoForm as e:
        return "open", str(e)


def run(Rp, decide, wanted, what, shown):
    ws = build.Workspace()
    seen = set()
    for u, f, fm in instances(ws):
        k = u.parent.name
        if not wanted(k, fm):
            continue
        name = "%s<%s>%s" % (k, "fp32" if precision(fm) else "fp64",
                             show_facts(fm))
        with Rp.guard(name), item(60):
            r = decide(k, fm)
            if k not in seen:
                seen.add(k)
                Rp.count(what)
            Rp.count("instances and cases")
            if r[0] == "ok":
                for _ in range(r[1]):
                    Rp.ob()
                Rp.sample("%s: %d %s" % (name, r[1], shown))
            elif r[0] == "bad":
                Rp.ob(False)
                Rp.violation("%s %s" % (k, r[1]),
                             "kernel %s: %s" % (name, r[2]), loc(ws, f))
            else:
                Rp.ob(False)
                Rp.undecided("%s: %s" % (name, r[1]))


def c44(Rp):
    Rp.rule("kinds", "the set of kinds (zero, finite, infinite, not a number) "
            "of every value of a kernel, propagated over its IR on every path "
            "with the conditions of the path as facts: nothing stored is "
            "infinite or not a number for finite inputs and masked elements")
    Rp.rule("exponential", "the exponential of an argument that the path does "
            "not bound by zero may overflow; one that is guarded by a test "
            "for infinity, or that only divides a finite value, is harmless")
    Rp.rule("witness", "a value that may be infinite is a violation only with "
            "finite inputs for which it is; without them it is undecided")
    run(Rp, decide, lambda k, fm: k in CONTRACT or has_exp(fm),
        "kernels with exponentials or logarithms",
        "stored values stay finite")
    Rp.require("kernels with exponentials or logarithms", 9)
    Rp.require("instances and cases", 18)
    return "other", ("Propagation of value kinds over the optimised LLVM IR "
                     "of every CPU kernel with exponentials, path by path; "
                     "loops by a fixed point over the paths of their bodies.")


def c48(Rp):
    Rp.rule("magnitude", "how every value of a norm kernel grows with the "
            "data, propagated over its IR on every path: only quantities "
            "shown to be at most one in magnitude are squared (or the pair is "
            "given to a library routine that scales)")
    Rp.rule("witness", "a square of unscaled data is a violation only with "
            "finite inputs for which the result is not finite; without them "
            "it is undecided")
    run(Rp, decide_norm, lambda k, fm: k in NORMS, "norm kernels",
        "stored values without squares of unscaled data")
    Rp.require("norm kernels", 5)
    Rp.require("instances and cases", 10)
    return "other", ("Propagation of growth classes over the optimised LLVM "
                     "IR of the norm kernels, path by path, with the "
                     "conditions of the path as facts.")


COMPENSATED = ("sum_slice", "sum_fiber", "sumprod_slice", "norm_slice",
               "maxsumexp", "total_sum_accum")


def decide_comp(k, fm):
    try:
        K = Kernel(fm, precision(fm))
        S = Spec(K)
        R[k](S)
        P = Prover(K, S)
        P.prove()
        n, bad, opened, loops = kcomp.analyse(P)
        if bad:
            i, key = bad[0]
            d = fm.defs.get(i) or {}
            return "bad", key, "the rounding error of the addition%s is " \
                "still in %s many terms later: the error of the sum grows " \
                "with the number of terms" % (
                    " at %s" % d["loc"] if d.get("loc") else "", key)
        if opened:
            return "open", "; ".join(map(str, opened[:3]))
        if not n and S.goals:
            return "open", "no sum found" if not loops else "no addition found"
        return "ok", n
    except NoForm as e:
        return "open", str(e)


def c50(Rp):
    Rp.rule("error", "every addition whose result is as large as an "
            "accumulator gets a symbolic rounding error; a loop iteration is "
            "an affine map of the accumulators, their compensation terms and "
            "these errors, on every path of the loop body")
    Rp.rule("vanish", "for every addition and every path of the following "
            "iterations, what the map leaves of the error does not reach a "
            "stored value")
    Rp.rule("witness", "an error that the repetition of the same path leaves "
            "in the result is a violation; other cases are undecided")
    run(Rp, decide_comp, lambda k, fm: k in COMPENSATED, "summing kernels",
        "errors of additions followed")
    Rp.require("summing kernels", 6)
    Rp.require("instances and cases", 12)
    return "other", ("Symbolic first-order rounding errors propagated through "
                     "the affine maps of the loop bodies, extracted from the "
                     "optimised LLVM IR of the summing kernels.")


CHECKS = {"C44": c44, "C48": c48, "C50": c50}
