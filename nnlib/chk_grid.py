"""Checks over the task structure of tensor operations: C09 C10."""
import itertools

from .build import AnalysisBroken
from .chk_tensor import layers, bound, cshow, where
from .grid import Outside, Unknown, expand, submit_modes, tilings
from .sym import GiveUp

ERR = (GiveUp, RecursionError, KeyError, TypeError, AttributeError,
       IndexError)
# the output is defined by the operation alone / added to by it
OVERWRITES = {"embedding", "tensor/sumnorm", "flash_softmax_gemm",
              "flash_softmax_gemm_backward"}
ACCUMULATES = {"maxsumexp", "flash_maxsumexp", "embedding_backward", "tile/sumnorm",
               "total_sum_accum"}
# the result of a single contribution is scaled afterwards
SCALED = {"tile/nrm2"}
# operands that only hold an intermediate result
TEMPORARY = {("nrm2", "tmp")}


class Ctx:
    """One operation in one rank context with its paths."""

    def __init__(self, op, c, I, ps):
        self.op, self.c, self.I, self.ps = op, c, I, ps
        self.labels = {X: [l.rstrip("!") if not l.startswith("#") else None
                           for l in ls] for X, ls in c["labels"].items()}
        self.scal = [n for n, o in op.params if not o]

    def link(self, dims):
        """Tilings as they correspond to each other: one element of X stands
        for one tile of Y."""
        t = self.c.get("tile_of")
        if not t:
            return dims
        return dict(dims, **{X: dims[Y] for X, Y in t.items()})


def contexts(Rp, Ls, N):
    for op in [o for L in Ls for o in L.representatives()]:
        cs = op.contexts(N)
        if cs is None:
            Rp.undecided("%s: operation without a specification" % op.title)
            continue
        Rp.count("operations")
        for c in cs:
            if c["bad"] or c["labels"] is None:
                if c["labels"] is None and not c["bad"]:
                    Rp.undecided("%s: index ranges of its operands are not "
                                 "related dimension by dimension" % op.title)
                continue
            if not set(c["ranks"]) <= set(op.operands):
                Rp.undecided("%s: operands renamed" % op.title)
                break
            try:
                I, ps = op.interp(c)
            except ERR as e:
                Rp.undecided("%s (%s): %s" % (op.title, cshow(c), e))
                continue
            yield Ctx(op, c, I, ps)


def rng(d, i):
    g, b, l = d
    return i * b, i * b + (l if i == g - 1 else b)


def dshow(dims):
    return ", ".join("%s=%s" % (X, "x".join(
        str(g) for g, _, _ in d) or "1") for X, d in sorted(dims.items()))


def coords(x, dims, task):
    """label -> {(tiles, extent, leftover): index}; conflicts as message."""
    dims = x.link(dims)
    out = {}
    for par, (_, X, cs) in task.handles():
        for d, l in enumerate(x.labels.get(X, [])):
            if l is None:
                continue
            k = dims[X][d]
            m = out.setdefault(l, {})
            if k in m and m[k][0] != cs[d]:
                return None, (X, d, cs, m[k])
            m.setdefault(k, (cs[d], X, d))
    for l, m in out.items():
        its = list(m.items())
        for (k1, v1), (k2, v2) in itertools.combinations(its, 2):
            a, b = rng(k1, v1[0]), rng(k2, v2[0])
            if min(a[1], b[1]) <= max(a[0], b[0]):
                return None, (v1[1], v1[2], (v1[0],), v2)
    return {l: {k: v[0] for k, v in m.items()} for l, m in out.items()}, None


def expected(x, dims, ops):
    """All coordinate tuples of a group of tasks over these operands."""
    per = {}
    dims = x.link(dims)
    for X in ops:
        for d, l in enumerate(x.labels.get(X, [])):
            if l is not None:
                per.setdefault(l, set()).add(dims[X][d])
    ls = sorted(per)
    choices = []
    for l in ls:
        ks = sorted(per[l])
        opts = []
        for combo in itertools.product(*[range(k[0]) for k in ks]):
            ok = True
            for (k1, i), (k2, j) in itertools.combinations(
                    list(zip(ks, combo)), 2):
                a, b = rng(k1, i), rng(k2, j)
                if min(a[1], b[1]) <= max(a[0], b[0]):
                    ok = False
            if ok:
                opts.append(tuple(zip(ks, combo)))
        choices.append(opts)
    return ls, set(itertools.product(*choices))


def noop(x, fl):
    zero = {k[2] for k, v in fl.items() if v and k[0] == "feq" and k[1] == "0"}
    one = {k[2] for k, v in fl.items() if v and k[0] == "feq" and k[1] == "1"}
    return "alpha" in zero, "alpha" in zero and (
        "beta" not in x.scal or "beta" in one)


def written(task, par, modes):
    m = modes.get(task.name, {}).get(par)
    if m is None:
        return None
    return any("W" in y or y in ("ACC", "?") for y in m)


def check_tiles(x, dims, fl, tasks, modes):
    """(kind, message) of the first rule the tasks break."""
    zero, skip = noop(x, fl)
    if not tasks:
        if skip:
            return None
        return "nothing", "submits no task%s" % (
            " when " + ", ".join("%s %s %s" % (k[2], "==" if v else "!=", k[1])
                                 for k, v in fl.items()) if fl else "")
    groups = {}
    for t in tasks:
        ops = frozenset(X for _, (_, X, _) in t.handles())
        groups.setdefault(ops, []).append(t)
    for ops, ts in groups.items():
        seen = {}
        ls, want = expected(x, dims, ops)
        for t in ts:
            co, bad = coords(x, dims, t)
            if co is None:
                X, d, cs, other = bad
                return "mismatch %s/%s" % tuple(sorted((X, other[1]))), (
                    "combines tile %s of %s with tile %s of %s along "
                    "dimensions %d and %d, which hold different index ranges"
                    % (list(cs), X, other[0], other[1], d, other[2]))
            key = tuple(tuple(sorted(co[l].items())) for l in ls)
            if key in seen:
                return "twice", "submits two tasks %s for the same tiles %s" \
                    % (t.name, tiles(t))
            seen[key] = t
        miss = want - set(seen)
        if miss:
            m = sorted(miss)[0]
            return "missing %s" % "/".join(sorted(ops)), (
                "submits no task for the combination of tiles %s of %s" % (
                    ", ".join("%s=%s" % (l, [i for _, i in k])
                              for l, k in zip(ls, m)), "/".join(sorted(ops))))
    touched = set().union(*groups)
    for X in x.op.operands:
        if X not in touched and X in x.c["out"]:
            return "untouched " + X, "never touches its output %s" % X
        if (x.op.name, X) in TEMPORARY:
            continue
        if X not in touched and not zero and X in x.labels:
            return "unused " + X, "never uses its operand %s" % X
    for X in x.c["out"]:
        w = [written(t, par, modes) for t in tasks
             for par, (_, Y, _) in t.handles() if Y == X]
        if w and not any(v is not False for v in w):
            return "unwritten " + X, "never writes its output %s" % X
    return None


def tiles(t):
    return ", ".join("%s%s" % (X, list(c)) for _, (_, X, c) in t.handles())


def spec_tilings(x, N):
    return list(tilings(x.op, x.c))


def outcomes(Rp, x, what):
    """Expansions of one context: (tiling, float conditions, tasks)."""
    dims = None
    try:
        for dims in tilings(x.op, x.c):
            for fl, flow, tasks, g in expand(x.ps, dims):
                Rp.count("tilings")
                Rp.count("tasks", len(tasks))
                yield dims, fl, tasks
    except Unknown as e:
        Rp.undecided("%s (%s): %s" % (x.op.title, cshow(x.c), str(e)[:80]))
        Rp.count("contexts not expanded")
    except Outside as e:
        if what:
            Rp.ob(False)
            Rp.violation("%s/outside" % x.op.key(),
                         "%s addresses a tile outside the grid: %s (%s; tiles "
                         "per dimension %s)" % (x.op.title, e, cshow(x.c),
                                                dshow(dims)),
                         where(x.op.L.ws, x.op.f))


def c09(Rp):
    ws, Ls = layers(Rp)
    modes = submit_modes(ws)
    Rp.rule("tiles", "the tasks an operation submits combine exactly the "
            "tiles that hold the same index range, each combination once")
    Rp.rule("complete", "every operand takes part, every tile of every output "
            "is written; nothing is submitted only if alpha is zero and beta "
            "one")
    Rp.rule("inside", "tile indices are inside the grid")
    for x in contexts(Rp, Ls, bound(Rp)):
        with Rp.guard(x.op.title):
            Rp.count("rank contexts")
            for dims, fl, tasks in outcomes(Rp, x, True):
                r = check_tiles(x, dims, fl, tasks, modes)
                Rp.ob(r is None)
                if r is not None:
                    Rp.violation(
                        "%s/%s" % (x.op.key(), r[0]), "%s %s (%s; tiles per "
                        "dimension %s)" % (x.op.title, r[1], cshow(x.c),
                                           dshow(dims)), where(ws, x.op.f))
            Rp.sample("%s (%s): %d tilings" % (
                x.op.title, cshow(x.c), Rp.counts.get("tilings", 0)))
    Rp.require("operations", 40)
    Rp.require("tilings", 2000)
    return "other", (
        "Abstract interpretation of each tile and tensor operation (concrete ranks up "
        "to %d, symbolic extents, loops summarised) yields a tree of loops "
        "and task insertions with symbolic tile indices; the tree is expanded "
        "for tilings with 1 to 3 tiles per dimension in all dimensions "
        "independently and the resulting tile combinations are compared with "
        "the index correspondence that defines the operation." % bound(Rp))


# ---------------------------------------------------------------------------
# C10
def coefficient(t, par, X, modes, fl, scal):
    """What a task does with the old contents of the tile: 'user' (multiplies
    by the caller's coefficient), 'zero', 'one', or text."""
    zero = {k[2] for k, v in fl.items() if v and k[0] == "feq" and k[1] == "0"}
    one = {k[2] for k, v in fl.items() if v and k[0] == "feq" and k[1] == "1"}
    b = t.get("beta")
    if b is None and t.name == "scal_inplace" and "beta" in scal:
        b = t.get("alpha")
    if b is not None:
        if b == ("sc", "beta", None) or isinstance(b, tuple) and \
                b[0] == "sc" and b[1] == "beta":
            return "user"
        v = None
        if isinstance(b, int):
            v = b
        elif b[0] == "sc":
            v = b[2]
            if v is None:
                try:
                    v = float(b[1])
                except ValueError:
                    v = None
        if v == 0:
            return "user" if "beta" in zero else "zero"
        if v == 1:
            return "user" if "beta" in one else "one"
        return str(b[1]) if isinstance(b, tuple) else str(b)
    m = modes.get(t.name, {}).get(par)
    if m == {"W"}:
        return "user" if "beta" in zero else "zero"
    return "one"


def c10(Rp):
    ws, Ls = layers(Rp)
    modes = submit_modes(ws)
    Rp.rule("once", "of the tasks that update one tile of the output, the "
            "first and no other applies the caller's coefficient")
    Rp.rule("accumulate", "all further tasks keep the tile's contents with "
            "coefficient one")
    Rp.rule("complete", "a task that only reads a tile the operation "
            "accumulates into is submitted after all contributions to it")
    Rp.rule("clear", "an operation that defines its output alone overwrites "
            "it first; one that accumulates never does")
    for x in contexts(Rp, Ls, bound(Rp)):
        with Rp.guard(x.op.title):
            Rp.count("rank contexts")
            op = x.op
            has = "beta" in x.scal
            for dims, fl, tasks in outcomes(Rp, x, False):
                zero, skip = noop(x, fl)
                one = any(k[1] == "1" and k[2] == "beta" and v
                          for k, v in fl.items())
                r = early(tasks, modes)
                Rp.ob(r is None)
                if r is not None:
                    Rp.violation(
                        "%s/early %s" % (op.key(), r[0]), "%s %s (%s; tiles per "
                        "dimension %s)" % (op.title, r[1], cshow(x.c),
                                           dshow(dims)), where(ws, op.f))
                for X in x.c["out"]:
                    seqs = {}
                    for t in tasks:
                        for par, (_, Y, cs) in t.handles():
                            if Y == X and written(t, par, modes) is not False:
                                seqs.setdefault(cs, []).append((t, par))
                    for cs, q in sorted(seqs.items()):
                        ks = [coefficient(t, par, X, modes, fl, x.scal)
                              for t, par in q]
                        Rp.count("output tiles")
                        r = judge(op, has, one, ks)
                        Rp.ob(r is None)
                        if len(q) > 1:
                            Rp.count("output tiles with several contributions")
                            Rp.sample("%s: coefficients of successive tasks on "
                                      "%s%s: %s" % (op.title, X, list(cs),
                                                    ", ".join(ks)))
                        if r is not None:
                            Rp.violation(
                                "%s/%s %s" % (op.key(), X, r[0]),
                                "%s: %s (tile %s of %s, coefficients of its tasks "
                                "in order: %s; %s; tiles per dimension %s)" % (
                                    op.title, r[1], list(cs), X, ", ".join(ks),
                                    cshow(x.c), dshow(dims)), where(ws, op.f))
    Rp.require("operations", 40)
    Rp.require("output tiles with several contributions", 2000)
    return "other", (
        "The task trees found by abstract interpretation are expanded for "
        "tilings with 1 to 3 tiles per dimension; per tile of the output the "
        "ordered coefficients of its previous contents are read off the "
        "arguments and access modes of the tasks.")


def early(tasks, modes):
    """A task that reads a tile between tasks accumulating into it."""
    acc, got = {}, {}
    for n, t in enumerate(tasks):
        for par, (_, X, cs) in t.handles():
            m = modes.get(t.name, {}).get(par)
            if m is None:
                continue
            k = X, tuple(cs)
            if m & {"RW", "ACC"}:
                acc[k] = t
                if k in got:
                    r, first = got[k]
                    if first:
                        return X, "reads tile %s%s by task %s before task %s " \
                            "adds to it" % (X, list(cs), r.name, t.name)
            elif m == {"R"}:
                got.setdefault(k, (t, k in acc))
    return None


def judge(op, has, one, ks):
    if has:
        if one and "user" not in ks:
            # the caller's coefficient is known to be one here
            ks = ["user"] + ks[1:] if ks[0] == "one" else ks
        n = ks.count("user")
        if n == 0:
            return "lost", "the caller's coefficient is never applied"
        if n > 1:
            return "repeated", "the caller's coefficient is applied %d times" \
                % n
        if ks[0] != "user":
            return "late", "the caller's coefficient is not applied by the " \
                "first task but to partial results"
    if any(k == "zero" for k in ks[1:]):
        return "dropped", "a later task overwrites earlier contributions"
    if op.key() in SCALED and len(ks) == 2:
        ks = ks[:1]
    if any(k not in ("one", "user", "zero") for k in ks):
        return "scaled", "partial results are scaled by %s" % [
            k for k in ks if k not in ("one", "user", "zero")][0]
    if {op.name, op.key()} & OVERWRITES and ks[0] != "zero":
        return "not cleared", "the output is not cleared first"
    if {op.name, op.key()} & ACCUMULATES and ks[0] == "zero":
        return "cleared", "previous contents of the output are lost"
    return None


CHECKS = {"C09": c09, "C10": c10}
