"""What the tile and tensor operations are defined on: for every operation and
every combination of ranks (up to a bound) either the correspondence between
the dimensions of its operands, or the statement that the combination has to be
rejected.

A context is a dict:
  ranks   operand -> number of dimensions
  ints    integer parameter -> value        (axis, batch_ndim, ndim, ...)
  lens    index vector parameter -> length
  trans   transposition parameter -> 0/1
  bad     reason why the operation must throw, or None
  labels  operand -> list of labels, one per dimension; equal labels mean
          "same extent, same tile extent, same index"
          "#n"   a dimension of extent n in a single tile
          "l!"   label l, single tile
  out     operands the operation updates
  acc     labels of reduced dimensions are those not in the output
  req     further requirements ("eq"/"ge"/"mod", ...)
The correspondences are the mathematical definitions given in the headers."""
import itertools


def dims(p, n):
    return ["%s%d" % (p, i) for i in range(n)]


def ctx(ranks, labels=None, bad=None, ints=None, trans=None, lens=None,
        req=(), out=(), nolink=(), **kw):
    d = dict(ranks=ranks, labels=labels, bad=bad, ints=ints or {},
             trans=trans or {}, lens=lens or {}, req=list(req),
             out=list(out), nolink=set(nolink))
    d.update(kw)
    return d


def same(*ops, out=None, extra=(), **kw):
    """All operands have the same shape; `extra` operands are scalars."""
    def gen(layer, N):
        for r in range(0, N + 1):
            rk = {o: r for o in ops}
            rk.update({e: 0 for e in extra})
            lb = {o: dims("d", r) for o in ops}
            lb.update({e: [] for e in extra})
            yield ctx(rk, lb, out=[out or ops[-1]], **kw)
        for r, s in ((1, 2), (2, 1), (0, 1), (2, 3)):
            for i in range(len(ops) if len(ops) > 1 else 0):
                rk = {o: r for o in ops}
                rk[ops[i]] = s
                rk.update({e: 0 for e in extra})
                yield ctx(rk, bad="the operands have different numbers of "
                          "dimensions")
        for e in extra:
            rk = {o: 1 for o in ops}
            rk.update({x: 0 for x in extra})
            rk[e] = 1
            yield ctx(rk, bad="%s is not a scalar" % e)
    return gen


def ins(ls, i, x):
    return ls[:i] + [x] + ls[i:]


def slices(full, part, out):
    """`part` operands lack the dimension `axis` of the `full` ones."""
    def gen(layer, N):
        for r in range(1, N + 1):
            for ax in range(r):
                ls = dims("d", r)
                rk = {o: r for o in full}
                rk.update({o: r - 1 for o in part})
                lb = {o: ls for o in full}
                lb.update({o: ls[:ax] + ls[ax + 1:] for o in part})
                yield ctx(rk, lb, ints={"axis": ax}, out=[out])
            for ax in (-1, r):
                rk = {o: r for o in full}
                rk.update({o: r - 1 for o in part})
                yield ctx(rk, bad="axis is out of range", ints={"axis": ax})
        for o in list(full) + list(part):
            for d in (1, -1):
                rk = {x: 2 for x in full}
                rk.update({x: 1 for x in part})
                rk[o] += d
                yield ctx(rk, bad="wrong number of dimensions",
                          ints={"axis": 0})
    return gen


def fibers(full, fib, out, batch=True):
    """`fib` operands have the dimension `axis` of the `full` ones followed
    by their last batch_ndim dimensions."""
    def gen(layer, N):
        for r in range(1, N + 1):
            for b in range(0, (min(2, r - 1) if batch else 0) + 1):
                for ax in range(r - b):
                    ls = dims("d", r)
                    rk = {o: r for o in full}
                    rk.update({o: b + 1 for o in fib})
                    lb = {o: ls for o in full}
                    lb.update({o: [ls[ax]] + ls[r - b:] for o in fib})
                    it = {"axis": ax}
                    if batch:
                        it["batch_ndim"] = b
                    yield ctx(rk, lb, ints=it, out=[out])
                for ax in (-1, r - b):
                    rk = {o: r for o in full}
                    rk.update({o: b + 1 for o in fib})
                    it = {"axis": ax}
                    if batch:
                        it["batch_ndim"] = b
                    yield ctx(rk, bad="axis is out of range", ints=it)
        it = {"axis": 0}
        if batch:
            it["batch_ndim"] = 0
            for r, f, b in ((2, 0, -1), (1, 0, -1)):
                rk = {o: r for o in full}
                rk.update({o: f for o in fib})
                yield ctx(rk, bad="batch_ndim is negative",
                          ints={"axis": 0, "batch_ndim": b})
            rk = {o: 1 for o in full}
            rk.update({o: 2 for o in fib})
            yield ctx(rk, bad="more batch dimensions than the operand has",
                      ints={"axis": 0, "batch_ndim": 1})
        for o in fib:
            for d in (1, -1):
                rk = {x: 2 for x in full}
                rk.update({x: 1 for x in fib})
                rk[o] += d
                yield ctx(rk, bad="wrong number of dimensions", ints=it)
        if len(full) > 1:
            for o in full:
                for d in (1, -1):
                    rk = {x: 2 for x in full}
                    rk.update({x: 1 for x in fib})
                    rk[o] += d
                    yield ctx(rk, bad="wrong number of dimensions", ints=it)
    return gen


def stats(full, part, out, extra=None):
    """`part` holds two statistics (dimension 0) per slice along `axis`."""
    def gen(layer, N):
        for r in range(1, N + 1):
            for ax in range(r):
                ls = dims("d", r)
                rk = {o: r for o in full}
                rk[part] = r
                lb = {o: ls for o in full}
                lb[part] = ["#2"] + ls[:ax] + ls[ax + 1:]
                if extra:
                    rk[extra] = 1
                    lb[extra] = ["#2"]
                yield ctx(rk, lb, ints={"axis": ax}, out=[out])
            for ax in (-1, r):
                rk = {o: r for o in full}
                rk[part] = r
                if extra:
                    rk[extra] = 1
                yield ctx(rk, bad="axis is out of range", ints={"axis": ax})
        for o in list(full) + [part] + ([extra] if extra else []):
            for d in (1, -1):
                rk = {x: 2 for x in full}
                rk[part] = 2
                if extra:
                    rk[extra] = 1
                rk[o] += d
                yield ctx(rk, bad="wrong number of dimensions",
                          ints={"axis": 0})
    return gen


def gemm(layer, N):
    M = min(N, 2)
    for k, nm, nn, b in itertools.product(range(0, 3), range(0, M + 1),
                                          range(0, M + 1), range(0, 2)):
        if k == 0 and layer == "tile":
            continue
        if k + nm + nn + b > 5 or k == 0 and (nm > 1 or nn > 1):
            continue
        for ta, tb in itertools.product((0, 1), repeat=2):
            K, Mm, Nn, B = dims("k", k), dims("m", nm), dims("n", nn), \
                dims("b", b)
            lb = {"A": (K + Mm if ta else Mm + K) + B,
                  "B": (Nn + K if tb else K + Nn) + B,
                  "C": Mm + Nn + B}
            yield ctx({o: len(x) for o, x in lb.items()}, lb,
                      ints={"ndim": k, "batch_ndim": b},
                      trans={"transA": ta, "transB": tb}, out=["C"])
    t = {"transA": 0, "transB": 0}
    bads = [((1, 1, 2), -1, 0, "ndim is negative"),
            ((2, 2, 2), 2, -1, "batch_ndim is negative"),
            ((2, 2, 3), 1, 0, "wrong number of dimensions of C"),
            ((2, 2, 1), 1, 0, "wrong number of dimensions of C"),
            ((1, 3, 0), 2, 0, "A has fewer dimensions than are contracted"),
            ((3, 1, 0), 2, 0, "B has fewer dimensions than are contracted"),
            ((1, 4, 2), 1, 1, "A has too few dimensions"),
            ((4, 1, 2), 1, 1, "B has too few dimensions")]
    for (a, b, c), k, bt, why in bads:
        for ta, tb in itertools.product((0, 1), repeat=2):
            yield ctx({"A": a, "B": b, "C": c}, bad=why,
                      ints={"ndim": k, "batch_ndim": bt},
                      trans={"transA": ta, "transB": tb})


def one(op, **kw):
    def gen(layer, N):
        for r in range(0, N + 1):
            yield ctx({op: r}, {op: dims("d", r)}, out=[op], **kw)
    return gen


def nrm2(layer, N):
    if layer == "tile":
        for r in range(0, N + 1):
            yield ctx({"src": r, "dst": 0, "tmp": 0},
                      {"src": dims("d", r), "dst": [], "tmp": []},
                      out=["dst"])
        yield ctx({"src": 1, "dst": 1, "tmp": 0}, bad="dst is not a scalar")
        yield ctx({"src": 1, "dst": 0, "tmp": 1}, bad="tmp is not a scalar")
        return
    for r in range(0, N + 1):
        yield ctx({"src": r, "dst": 0, "tmp": r},
                  {"src": dims("d", r), "dst": [], "tmp": dims("d", r)},
                  nolink=["tmp"], out=["dst"], tile_of={"tmp": "src"},
                  req=[("eq", "tmp.shape", d, "src.grid.shape", d)
                       for d in range(r)] +
                      [("const", "tmp.basetile_shape", d, 1)
                       for d in range(r)])
    yield ctx({"src": 1, "dst": 1, "tmp": 1}, bad="dst is not a scalar")
    yield ctx({"src": 1, "dst": 0, "tmp": 2},
              bad="tmp has another number of dimensions than src")
    yield ctx({"src": 2, "dst": 0, "tmp": 1},
              bad="tmp has another number of dimensions than src")


def mask_scalar(layer, N):
    if layer == "tile":
        for r in range(1, N + 1):
            yield ctx({"mask": r - 1, "A": r},
                      {"A": dims("d", r), "mask": dims("d", r)[:-1]},
                      out=["A"])
        for m, a in ((1, 1), (0, 2), (2, 2), (1, 0), (0, 0)):
            yield ctx({"mask": m, "A": a}, bad="the mask does not have one "
                      "dimension less than the masked tile")
        return
    for r in range(0, N + 1):
        for b in range(0, min(r, 2) + 1):
            yield ctx({"mask": r - b, "A": r},
                      {"A": dims("d", r), "mask": dims("d", r - b)},
                      ints={"batch_ndim": b}, out=["A"])
    for m, a, b in ((2, 2, 1), (1, 3, 1), (0, 2, 1)):
        yield ctx({"mask": m, "A": a}, ints={"batch_ndim": b},
                  bad="the mask has the wrong number of dimensions")
    yield ctx({"mask": 2, "A": 1}, ints={"batch_ndim": -1},
              bad="batch_ndim is negative")


def logsumexp(layer, N):
    for r in range(0, N + 1):
        ls = dims("d", r)
        yield ctx({"src": r + 1, "dst": r}, {"src": ["#2"] + ls, "dst": ls},
                  out=["dst"])
    for s, d in ((1, 1), (2, 2), (3, 1), (0, 0), (1, 2)):
        yield ctx({"src": s, "dst": d}, bad="wrong number of dimensions")


def total_sum_accum(layer, N):
    for r in range(0, N):
        ls = dims("d", r)
        yield ctx({"logsumexp": r, "src": r + 1, "labels": r, "val": 0},
                  {"logsumexp": ls, "src": ["c!"] + ls, "labels": ls,
                   "val": []}, out=["val"])
    base = {"logsumexp": 1, "src": 2, "labels": 1, "val": 0}
    for o in base:
        for d in (1, -1):
            rk = dict(base)
            rk[o] += d
            if rk[o] >= 0:
                yield ctx(rk, bad="wrong number of dimensions of " + o)


def subtract_indexed_outputs(layer, N):
    for r in range(0, N):
        ls = dims("d", r)
        yield ctx({"labels": r, "dst": r + 1},
                  {"labels": ls, "dst": ["c!"] + ls}, out=["dst"])
    for a, b in ((1, 1), (2, 2), (1, 3), (0, 0), (0, 2)):
        yield ctx({"labels": a, "dst": b}, bad="wrong number of dimensions")


def transpose(layer, N):
    for r in range(2, N + 1):
        for k in range(1, r):
            ls = dims("d", r)
            yield ctx({"src": r, "dst": r},
                      {"src": ls, "dst": ls[k:] + ls[:k]},
                      ints={"ndim": k}, out=["dst"])
    for r, k in ((2, 0), (2, 2), (2, -1), (3, 3), (1, 1), (0, 0)):
        yield ctx({"src": r, "dst": r}, ints={"ndim": k},
                  bad="ndim is out of range")
    for a, b in ((2, 3), (3, 2), (2, 1)):
        yield ctx({"src": a, "dst": b}, ints={"ndim": 1},
                  bad="different numbers of dimensions")


def gather(single):
    def gen(layer, N):
        for r in range(0, N + 1):
            ls = dims("d", r)
            other = {"src": "dst", "dst": "src"}[single]
            yield ctx({"src": r, "dst": r}, {"src": ls, "dst": ls},
                      nolink=[single], out=["dst"],
                      req=[("eq", "src.shape", d, "dst.shape", d)
                           for d in range(r)] +
                          [("single", single, d) for d in range(r)])
        for a, b in ((1, 2), (2, 1), (0, 1)):
            yield ctx({"src": a, "dst": b},
                      bad="different numbers of dimensions")
    return gen


def embedding(layer, N):
    for r in range(0, N):
        for ax in range(0, r + 1):
            ls = dims("d", r)
            yield ctx({"index": r, "vocab": 2, "embed": r + 1},
                      {"index": ls, "vocab": ["e", "v!"],
                       "embed": ins(ls, ax, "e")}, ints={"axis": ax},
                      nolink=["vocab"], out=["embed"],
                      req=[("eq", "vocab.shape", 0, "embed.shape", ax),
                           ("mod", "embed.basetile_shape", ax,
                            "vocab.basetile_shape", 0)])
        for ax in (-1, r + 1):
            yield ctx({"index": r, "vocab": 2, "embed": r + 1},
                      bad="axis is out of range", ints={"axis": ax})
    for i, v, e in ((1, 2, 1), (1, 2, 3), (1, 1, 2), (1, 3, 2), (2, 2, 2)):
        yield ctx({"index": i, "vocab": v, "embed": e},
                  bad="wrong number of dimensions", ints={"axis": 0})


def embedding_backward(layer, N):
    for c in embedding(layer, N):
        c["out"] = ["vocab"]
        yield c


def randn(layer, N):
    for r in range(0, N + 1):
        yield ctx({"dst": r}, {"dst": dims("d", r)}, out=["dst"],
                  lens={"start": r, "underlying_shape": r},
                  req=[("ge", ("start", d, 1)) for d in range(r)] +
                      [("ge", ("underlying_shape", d, 1), ("start", d, -1),
                        ("dst.shape", d, -1)) for d in range(r)])
    for s, u in ((1, 2), (3, 2), (2, 1), (2, 3)):
        yield ctx({"dst": 2}, lens={"start": s, "underlying_shape": u},
                  bad="an index has the wrong length")


def copy_intersection(layer, N):
    x = {"scratch": 1} if layer == "tile" else {}
    for r in range(0, min(N, 3)):
        yield ctx(dict({"src": r, "dst": r}, **x), None,
                  lens={"src_offset": r, "dst_offset": r}, out=["dst"],
                  req=[("ge", ("scratch.shape", 0, 1), (None, 0, -2 * r))]
                  if x and r else [], partial=True)
    for a, b, s, d in ((1, 2, 1, 2), (2, 1, 2, 1), (2, 2, 1, 2),
                       (2, 2, 2, 1), (1, 1, 2, 1), (1, 1, 1, 2)):
        yield ctx(dict({"src": a, "dst": b}, **x),
                  lens={"src_offset": s, "dst_offset": d},
                  bad="dimensions of tensors or offsets differ")
    if x:
        for s in (0, 2):
            yield ctx({"src": 1, "dst": 1, "scratch": s},
                      lens={"src_offset": 1, "dst_offset": 1},
                      bad="scratch is not one-dimensional")


FLASH = {
    "flash_maxsumexp": ("Q K mask maxsumexp tmp", ["maxsumexp"]),
    "flash_softmax_gemm": ("Q K V mask maxsumexp dst tmp", ["dst"]),
    "flash_softmax_gemm_backward": (
        "Q dQ K dK V dV mask maxsumexp dst_grad tmp tmp_grad "
        "tmp_sumprod_slice", ["dQ", "dK", "dV"]),
}


def flash(op):
    """Attention of sequences in equal tiles: (head, sequence, batch, heads),
    the mask has the keys in its first dimension."""
    names, out = FLASH[op]
    names = names.split()
    one = {"Q": "q", "dQ": "q", "dst": "q", "dst_grad": "q"}
    lb = {}
    for X in names:
        lb[X] = ["h!", one.get(X, "k"), "b", "n"]
    lb["mask"] = ["k", "q"]
    lb["maxsumexp"] = ["#2", "q", "b", "n"]
    for X in ("tmp", "tmp_grad"):
        if X in lb:
            lb[X] = ["k", "q", "b", "n"]
    if "tmp_sumprod_slice" in lb:
        lb["tmp_sumprod_slice"] = ["q", "b", "n"]

    def gen(layer, N):
        rk = {X: len(l) for X, l in lb.items()}
        req = [("eq", "Q.basetile_shape", 1, "K.basetile_shape", 1)]
        if "dQ" in lb:
            req.append(("eq", "Q.shape", 1, "K.shape", 1))
        req += [("mod", "Q.shape", d, "Q.basetile_shape", d)
                for d in (1, 2, 3)]
        req += [("mod", "K.shape", 1, "K.basetile_shape", 1)]
        yield ctx(rk, lb, out=out, req=req)
        for X in names:
            for d in (1, -1):
                r = dict(rk)
                r[X] += d
                yield ctx(r, bad="wrong number of dimensions of " + X)
    return gen


def normalize(layer, N):
    src = "sumnorm" if layer == "tile" else "src"
    return stats(["dst"], src, "dst", "gamma_beta")(layer, N)


SPEC = {
    "add_slice": slices(["dst"], ["src"], "dst"),
    "add_slice3": slices(["src2", "dst"], ["src1"], "dst"),
    "add_fiber": fibers(["dst"], ["src"], "dst"),
    "prod_slice": slices(["dst"], ["src"], "dst"),
    "prod_fiber": fibers(["dst"], ["src"], "dst", batch=False),
    "prod_fiber3": fibers(["src2", "dst"], ["src1"], "dst", batch=False),
    "sum_slice": slices(["src"], ["dst"], "dst"),
    "norm_slice": slices(["src"], ["dst"], "dst"),
    "sumprod_slice": slices(["src1", "src2"], ["dst"], "dst"),
    "sum_fiber": fibers(["src"], ["dst"], "dst"),
    "sumprod_fiber": fibers(["src1", "src2"], ["dst"], "dst", batch=False),
    "sumnorm": stats(["src"], "dst", "dst"),
    "maxsumexp": stats(["src"], "dst", "dst"),
    "softmax": stats(["src", "dst"], "maxsumexp", "dst"),
    "softmax_inplace": stats(["dst"], "maxsumexp", "dst"),
    "normalize": normalize,
    "gemm": gemm,
    "gemm_ex": gemm,
    "copy": same("src", "dst"),
    "prod": same("src", "dst"),
    "sqrt": same("src", "dst"),
    "maximum": same("src", "dst"),
    "gelutanh": same("src", "dst"),
    "relu_forward": same("src", "dst"),
    "fp32_to_fp16": same("src", "dst"),
    "fp16_to_fp32": same("src", "dst"),
    "scal": same("src", "dst"),
    "add": same("src", "dst"),
    "hypot": same("src", "dst"),
    "gelu_backward": same("x", "dy", "dx"),
    "gelutanh_backward": same("x", "dy", "dx"),
    "relu_backward": same("x", "dy", "dx"),
    "addcdiv": same("nom", "denom", "src"),
    "adam_step": same("grad", "first_moment", "second_moment", "p"),
    "adamw_step": same("grad", "first_moment", "second_moment", "p"),
    "nrm2": nrm2,
    "mask_scalar": mask_scalar,
    "logsumexp": logsumexp,
    "total_sum_accum": total_sum_accum,
    "subtract_indexed_outputs": subtract_indexed_outputs,
    "transpose": transpose,
    "gather": gather("dst"),
    "scatter": gather("src"),
    "embedding": embedding,
    "embedding_backward": embedding_backward,
    "randn": randn,
    "copy_intersection": copy_intersection,
}
for _op in FLASH:
    SPEC[_op] = flash(_op)
for _op in ("dgelu", "dgelutanh", "drelu", "gelu", "relu",
            "gelutanh_inplace", "sqrt_inplace", "fill", "pow"):
    SPEC[_op] = one("A")
for _op in ("add_scalar", "hypot_scalar_inverse"):
    SPEC[_op] = one("dst")
SPEC["scal_inplace"] = one("data")


def spec_of(op, params, layer):
    """Contexts of one operation given its (name, is operand) parameters."""
    names = [n for n, _ in params]
    opnd = [n for n, o in params if o]
    if op == "axpy":
        if "alpha" in opnd:
            return same("src", "dst", extra=("alpha",))
        return same("src", "dst")
    if op == "clear":
        return one(opnd[0]) if opnd else None
    g = SPEC.get(op)
    return g
