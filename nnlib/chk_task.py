"""Checks of the task layer (src/starpu on src/kernel): C01 C02 C03 C04 C12 C13
C15 C16 C17 C27."""
import re

from .build import Workspace, AnalysisBroken, pmap
from .tasks import (TaskLayer, FnModel, walk, strip, base_kind, const_off, cval,
                    buffer_of, buffer_interface, includes_of, Ctx, dump_keep)
from .effects import bindings, leaves, fact_value, reach_avoiding
from .poly import Poly
from .report import short

R, W, RW, SCRATCH, REDUX = 1, 2, 3, 4, 8


def layer():
    ws = Workspace()
    T = TaskLayer(ws)
    return ws, T


def need(R_, T):
    """Anchors every task check relies on."""
    R_.count("translation units", len(T.ops))
    R_.count("codelets", len(T.codelets))
    R_.count("task functions analysed", len(T.dumps))
    R_.require("translation units", 45)
    R_.require("codelets", 120)


def get_bindings(Rp, T):
    bs, missing = bindings(T)
    for op, fm, s in missing:
        Rp.undecided("%s: task inserted with a codelet that is not resolved "
                     "statically" % fm.name)
    Rp.count("task insertion x implementation scenarios", len(bs))
    Rp.require("task insertion x implementation scenarios", 180)
    return bs


def role(b, buf):
    """Name of the submit parameter bound to buffer buf."""
    if buf < len(b.site.bufs):
        p = b.site.bufs[buf][1]
        if p is not None:
            return b.param_name(p)
    return "buffer %d" % buf


def opname(b):
    return re.sub(r"^src/starpu/|\.cc(\.in)?$", "", b.op.path)


def key(b, *more):
    return "/".join([opname(b), b.codelet.name or b.codelet.var] + list(more))


# ---------------------------------------------------------------------------
def c01(Rp):
    ws, T = layer()
    need(Rp, T)
    bs = get_bindings(Rp, T)
    Rp.rule("read", "a buffer the implementation reads before writing it is "
            "inserted with a mode that includes STARPU_R (or as reduction)")
    Rp.rule("write", "a buffer the implementation writes is inserted with a "
            "mode that includes STARPU_W, SCRATCH or REDUX")
    Rp.rule("count", "the task is inserted with as many handles as its "
            "implementation uses, and each used buffer has one")
    for b in bs:
        with Rp.guard(key(b)):
            im = b.impl
            for a, why in im.unknown:
                Rp.undecided("%s: %s (%s)" % (b.describe(), why, short(a.get("loc"))))
            for buf in im.bufs:
                Rp.count("buffers of scenarios")
                acc = im.of(buf, ("r", "r?", "w"))
                if buf >= len(b.site.bufs):
                    Rp.ob(False)
                    Rp.violation(key(b, "buffer%d" % buf, "unbound"),
                                 "task %s uses buffer %d but only %d handles are "
                                 "passed to it" % (b.describe(), buf,
                                                   len(b.site.bufs)), acc[0].loc)
                    continue
                mode = b.site.bufs[buf][0]
                if mode is None:
                    Rp.undecided("%s: access mode of %s is chosen by the caller"
                                 % (b.describe(), role(b, buf)))
                    continue
                m = mode & 15
                rd = [a for a in im.of(buf, ("r", "r?"))
                      if not (a.kind == "r?" and b.beta_zero(a))]
                wr = im.of(buf, ("w",))
                if rd:
                    bad = []
                    if not (m & R or m & REDUX):
                        bad = im.reads_first(buf, b.beta_zero)
                    Rp.ob(not bad)
                    if bad:
                        Rp.violation(
                            key(b, role(b, buf), "read"),
                            "task %s is inserted at %s without read access to '%s' "
                            "but its implementation reads it" % (
                                b.describe(), short(b.site.loc), role(b, buf)),
                            bad[0].loc)
                if wr:
                    ok = bool(m & (W | REDUX | SCRATCH))
                    Rp.ob(ok)
                    if not ok:
                        Rp.violation(
                            key(b, role(b, buf), "write"),
                            "task %s is inserted at %s without write access to "
                            "'%s' but its implementation modifies it" % (
                                b.describe(), short(b.site.loc), role(b, buf)),
                            wr[0].loc)
                Rp.sample("%s: %s mode %d, %d reads, %d writes" % (
                    b.describe(), role(b, buf), mode, len(rd), len(wr)))
    # codelets with fixed modes: the declared modes are the ones used at insertion
    for c in T.codelets.values():
        with Rp.guard(c.var):
            for i, m in c.modes.items():
                for b in bs:
                    if b.codelet is c and i < len(b.site.bufs):
                        m2 = b.site.bufs[i][0]
                        if m2 is None:
                            continue
                        ok = (m2 & 15) == (m & 15)
                        Rp.ob(ok)
                        if not ok:
                            Rp.violation(key(b, "modes%d" % i),
                                         "codelet %s declares mode %d for buffer %d "
                                         "but the task is inserted with %d" % (
                                             c.name, m, i, m2), b.site.loc)
    Rp.require("buffers of scenarios", 500)
    return "other", (
        "Per task insertion site and consistent scenario of its scalar "
        "arguments, the read and write sets of the implementation (LLVM IR of "
        "src/starpu+src/kernel after inlining, scalar-evolution access "
        "functions, CBLAS contracts) are compared with the access modes in the "
        "starpu_task_insert argument list.")


def c02(Rp):
    ws, T = layer()
    need(Rp, T)
    bs = get_bindings(Rp, T)
    Rp.rule("complete", "an implementation writes every element of a buffer "
            "inserted with STARPU_W, on every path")
    Rp.rule("unread", "it reads no element of such a buffer (or of a scratch "
            "buffer) before writing it")
    for b in bs:
        with Rp.guard(key(b)):
            im = b.impl
            for buf in range(len(b.site.bufs)):
                mode = b.site.bufs[buf][0]
                if mode is None:
                    continue
                m = mode & 15
                if m == W or m == SCRATCH:
                    bad = im.reads_first(buf, b.beta_zero)
                    Rp.ob(not bad)
                    if bad:
                        Rp.violation(
                            key(b, role(b, buf), "stale"),
                            "task %s takes '%s' as write-only or scratch but its "
                            "implementation uses the previous contents" % (
                                b.describe(), role(b, buf)), bad[0].loc)
                if m == W:
                    Rp.count("write-only outputs")
                    u = im.uncovered(buf)
                    Rp.ob(not u)
                    for why, loc in u:
                        Rp.violation(
                            key(b, role(b, buf), "partial"),
                            "task %s takes '%s' as write-only but %s"
                            % (b.describe(), role(b, buf), why), loc or b.site.loc)
                    Rp.sample("%s: '%s' written completely" % (
                        b.describe(), role(b, buf)))
    Rp.require("write-only outputs", 70)
    return "other", (
        "Same model as C01: for every handle inserted with STARPU_W, the write "
        "accesses of the implementation are checked for paths that skip the "
        "write, byte gaps of the affine access functions, a first element left "
        "out, and reads that no write precedes.")


# ---------------------------------------------------------------------------
# Failures are negative codes, whichever of them it is
CODES = (-19, -22, -12, -1, -2, -5, -16, -38, -110, -(2 ** 31))


def ret_paths(fm, site):
    """Is a normal return reachable after the insertion failed?  Evaluates the
    branches that depend on its result for an error code."""
    p = None
    for code in CODES:
        p = p or error_paths(fm, site.inst["id"], site.block, code)
    if p is None and site.build:
        # a task that could not be built is a null pointer
        p = error_paths(fm, site.build[0]["id"], site.build[1], 0)
    return p


def error_paths(fm, call, block, ERR):

    def ev(v, depth=0):
        v = fm.ctx.resolve(v)
        if v is None or depth > 20:
            return None
        if v.get("id") == call and v.get("k") == "call":
            return ERR
        k = v.get("k")
        if k == "ci":
            return v.get("v")
        if k == "null":
            return 0
        if k == "cast":
            return ev(v["a"], depth + 1)
        if k == "phi":
            xs = [ev(x["v"], depth + 1) for x in v["in"]]
            if any(x == ERR for x in xs):
                return ERR
            return xs[0] if len(set(xs)) == 1 else None
        if k == "cmp":
            a, c = ev(v["a"], depth + 1), ev(v["b"], depth + 1)
            if a is None or c is None:
                return None
            p = v["p"]
            u = lambda x: x & 0xffffffff
            t = {"eq": a == c, "ne": a != c, "slt": a < c, "sle": a <= c,
                 "sgt": a > c, "sge": a >= c, "ult": u(a) < u(c),
                 "ule": u(a) <= u(c), "ugt": u(a) > u(c),
                 "uge": u(a) >= u(c)}.get(p)
            return None if t is None else (1 if t else 0)
        if k == "op":
            a = [ev(x, depth + 1) for x in v["a"]]
            if v["op"] == "or" and any(x for x in a if x):
                return next(x for x in a if x)
            if v["op"] == "and" and any(x == 0 for x in a if x is not None):
                return 0
            if v["op"] == "xor" and None not in a:
                return a[0] ^ a[1]
            if v["op"] in ("add", "sub") and None not in a:
                return a[0] + a[1] if v["op"] == "add" else a[0] - a[1]
            if v["op"] == "select":
                c = a[0]
                if c is not None:
                    return a[1] if c else a[2]
        return None

    def depends(v, depth=0, seen=None):
        seen = seen if seen is not None else set()
        v = fm.ctx.resolve(v)
        if v is None or depth > 30:
            return False
        i = v.get("id")
        if i is not None:
            if i in seen:
                return False
            seen.add(i)
        if i == call:
            return True
        for kk in ("a", "b"):
            x = v.get(kk)
            for y in (x if isinstance(x, list) else [x]):
                if isinstance(y, dict) and depends(y, depth + 1, seen):
                    return True
        return any(depends(x["v"], depth + 1, seen) for x in v.get("in", []))
    seen, st = {block: None}, [block]
    guarded = False
    while st:
        x = st.pop()
        blk = fm.blocks[x]
        last = blk["is"][-1] if blk["is"] else None
        if last and last["k"] == "ret":
            # the function may hand the code back instead of throwing
            p = []
            while x is not None:
                p.append(x)
                x = seen[x]
            return p[::-1]
        succ = blk["succ"]
        if last and last["k"] == "br" and last.get("c") is not None \
                and len(succ) == 2:
            t = ev(last["c"])
            if t is not None:
                succ = [succ[0] if t else succ[1]]
            elif depends(last["c"]):
                # not evaluated: assume the failing side is taken
                dead = [s for s in succ if s in fm.dead_ends()]
                if dead:
                    succ = dead
        elif last and last["k"] == "switch" and depends(last["c"]):
            dead = [s for s in succ if s in fm.dead_ends()]
            if dead:
                succ = dead
        for s in succ:
            if s not in seen:
                seen[s] = x
                st.append(s)
    return None


def unwinds(i):
    """A call on the failing path that may legitimately end it."""
    return i.get("m") in ("__cxa_throw", "abort", "_ZSt9terminatev")


def c04(Rp):
    ws, T = layer()
    need(Rp, T)
    Rp.rule("checked", "after starpu_task_insert returned an error code no path "
            "reaches a normal return of the submitting function")
    Rp.rule("propagates", "no submitting function is noexcept and no layer "
            "swallows the exception")
    for op in T.ops:
        for f in op.submits():
            with Rp.guard(op.path):
                if f.get("noexc"):
                    Rp.violation("%s/noexcept" % f["q"], "%s is noexcept: a refused "
                                 "task cannot be reported" % f["q"],
                                 "%s:%d" % (op.path, f["l"]))
                for fm in T.scenarios(f["m"]):
                    for s in T.sites(fm):
                        Rp.count("task insertion sites x scenarios")
                        p = ret_paths(fm, s)
                        Rp.ob(p is None)
                        if p is not None:
                            Rp.violation(
                                "%s/%s" % (f["q"], (s.codelet or "?")),
                                "%s returns normally although "
                                "starpu_task_insert failed" % f["q"], s.loc)
                        Rp.sample("%s: error result of the insertion leads to a "
                                  "throw only" % f["q"])
    # exceptions swallowed on the way up
    for lay in ("starpu", "tile", "tensor"):
        us = ws.units(lay)
        for u, a in ws.asts(us).items():
            with Rp.guard(str(u)):
                for f in a["functions"]:
                    if f["file"] != str(u):
                        continue
                    Rp.count("functions searched for exception handlers")
                    if lay != "starpu" and f.get("noexc") and any(
                            x.get("k") == "call" and "submit" in (x.get("f") or "")
                            for x in walk(f.get("body"))):
                        Rp.violation("%s/noexcept" % f["q"],
                                     "%s is noexcept but submits tasks" % f["q"],
                                     "%s:%d" % (ws.display(u), f["l"]))
                    for x in walk(f.get("body")):
                        if x.get("k") == "try":
                            for h in x.get("h", []):
                                if not any(y.get("k") == "throw" for y in walk(h)):
                                    sub = any(
                                        y.get("k") == "call" and
                                        ("submit" in (y.get("f") or "") or
                                         "_async" in (y.get("f") or ""))
                                        for y in walk(x["b"]))
                                    Rp.ob(not sub)
                                    if sub:
                                        Rp.violation(
                                            "%s/swallow" % f["q"],
                                            "%s catches and drops the exception "
                                            "of a failed submission" % f["q"],
                                            "%s:%d" % (ws.display(u), x["l"]))
    Rp.require("task insertion sites x scenarios", 130)
    return "other", (
        "Control-flow graph of each submitting function after inlining: from "
        "every starpu_task_insert, branches on its result are evaluated for an "
        "error code; a reachable return is a violation.")


# ---------------------------------------------------------------------------
def elem(t):
    t = (t or "").replace("nntile::", "").strip()
    return t


def c12(Rp):
    ws, T = layer()
    need(Rp, T)
    bs = get_bindings(Rp, T)
    Rp.rule("instance", "submit<T> inserts a codelet whose CPU implementation is "
            "the instance for the same T")
    Rp.rule("width", "the implementation behind submit<double> accesses no "
            "single precision buffer element or argument and vice versa")
    for b in bs:
        with Rp.guard(key(b)):
            f = b.sub.ast
            ta = [x for x in (f.get("ta") or [])]
            if not ta:
                continue
            Rp.count("typed bindings")
            impl = b.op.fns.get(b.impl_name)
            it = (impl or {}).get("ta") or []
            if it:
                ok = set(it) <= set(ta) or set(ta) <= set(it)
                # conversions name two types; compare what both name
                Rp.ob(ok)
                if not ok:
                    Rp.violation(
                        key(b, "instance"),
                        "%s<%s> inserts codelet %s whose implementation is the "
                        "instance for %s" % (f["q"], ",".join(ta),
                                             b.codelet.name, ",".join(it)),
                        b.site.loc)
                else:
                    Rp.sample("%s<%s> -> %s -> <%s>" % (
                        f["q"], ",".join(ta), b.codelet.name, ",".join(it)))
            single = any(x in ("float",) for x in ta)
            double = any(x in ("double",) for x in ta)
            if single != double:
                wrong = "float" if double else "double"
                for a in b.impl.acc:
                    bad = a.ty == wrong or (a.what or "").startswith(
                        "cblas_" + ("s" if double else "d"))
                    if a.ty in ("float", "double") or (a.what or "").startswith("cblas_"):
                        Rp.ob(not bad)
                    if bad:
                        Rp.violation(
                            key(b, role(b, a.buf), "width"),
                            "%s<%s> runs code that accesses '%s' as %s" % (
                                f["q"], ",".join(ta), role(b, a.buf), wrong), a.loc)
    # whatever codelet the submission may pick, it is one of its own type
    Rp.rule("choice", "every codelet a submission of type T can pick is named "
            "after T")
    tok = {"float": "fp32", "double": "fp64", "nntile::fp16_t": "fp16"}
    for op in T.ops:
        for f in op.submits():
            with Rp.guard(op.path):
                if len(f.get("ta") or []) < 1 or f["ta"][0] not in tok:
                    continue
                want = tok[f["ta"][0]]
                for fm in T.scenarios(f["m"]):
                    for s in T.sites(fm):
                        for c in resolved_codelets(T, s):
                            m = re.findall(r"fp16|fp32|fp64", c.var.split("::")[-1])
                            Rp.count("codelet choices")
                            ok = not m or want in m
                            Rp.ob(ok)
                            if not ok:
                                Rp.violation(
                                    "%s<%s>/%s" % (f["q"], f["ta"][0], c.var),
                                    "%s<%s> may insert codelet %s" % (
                                        f["q"], f["ta"][0], c.var), s.loc)
    # every codelet name announces its type consistently
    for c in T.codelets.values():
        with Rp.guard(c.var):
            m = re.search(r"(fp16|fp32|fp64|bf16)(?!.*(?:fp16|fp32|fp64))", c.name or "")
            q = re.search(r"(fp16|fp32|fp64|bf16)(?!.*(?:fp16|fp32|fp64))", c.var or "")
            if m and q and m.group(1) != q.group(1):
                Rp.violation("%s/name" % c.var, "codelet %s is registered as %s"
                             % (c.var, c.name), c.loc)
    Rp.require("typed bindings", 150)
    # tile and tensor layers call the instance of their own element type
    Rp.rule("call", "an instantiation f<T> of a tile or tensor operation calls "
            "operations of the layers below only as instances for T")
    for lay in ("tile", "tensor"):
        us = ws.units(lay)
        for u, a in ws.asts(us).items():
            with Rp.guard(str(u)):
                for f in a["functions"]:
                    if f["file"] != str(u) or not f.get("ta"):
                        continue
                    ta = set(f["ta"])
                    for x in walk(f.get("body")):
                        if x.get("k") == "call" and x.get("ta") and \
                                re.match(r"nntile::(starpu|tile|tensor|kernel)::",
                                         x.get("f") or "") and \
                                "Tensor<" not in x["f"] and "Tile<" not in x["f"]:
                            ca = {y for y in x["ta"] if not re.match(r"^-?\d+$", y)}
                            Rp.count("typed calls in tile and tensor layers")
                            ok = ca <= ta or not ca
                            Rp.ob(ok)
                            if not ok:
                                Rp.violation(
                                    "%s<%s>/%s" % (f["q"], ",".join(f["ta"]), x["f"]),
                                    "%s<%s> calls %s<%s>" % (
                                        f["q"], ",".join(f["ta"]), x["f"],
                                        ",".join(x["ta"])),
                                    "%s:%d" % (ws.display(u), x["l"]))
    Rp.require("typed calls in tile and tensor layers", 250)
    return "other", (
        "Type-checked AST: template arguments of the submitting instance, the "
        "codelet it inserts and the implementation registered in it; LLVM IR: "
        "element widths of every buffer access and BLAS routine reached.")


# ---------------------------------------------------------------------------
def param_of(v):
    """(submit parameter index, pure) of a stored value: pure if only
    same-kind casts were applied."""
    cast = []
    while v is not None and v.get("k") == "cast":
        cast.append((v["op"], v.get("st"), v.get("t")))
        v = v["a"]
    if v is None:
        return None, cast
    if v.get("k") == "param":
        return v["i"], cast
    if v.get("k") == "load":
        b = v["p"]["base"]
        if b.get("k") == "param" and const_off(v["p"]["off"]) == 0:
            return b["i"], cast
    return None, cast


def arg_loads(fm):
    """Loads from the argument block: (offset, size, type, loc)."""
    out = []
    for b, n, i in fm.insts():
        if i["k"] == "load":
            base = strip(i["p"]["base"])
            if base and base.get("k") == "param" and base["i"] == 1:
                o = const_off(i["p"]["off"])
                if o is not None and i.get("used", True):
                    out.append((o, i["sz"], i["t"], i["loc"]))
    return out


def unwrap(e):
    """AST expression without casts, address-of, subscripts of 0, copies."""
    while e:
        k = e.get("k")
        if k == "cast":
            e = e["a"]
        elif k == "un" and e.get("op") in ("&", "*"):
            e = e["a"]
        elif k == "idx":
            e = e["b"]
        elif k == "ctor" and len(e.get("a", [])) == 1:
            e = e["a"][0]
        elif k == "call" and e.get("f", "").endswith("::data") and e.get("o"):
            e = e["o"]
        elif k == "call" and e.get("oc", "").startswith("vector") and \
                "operator[]" in e.get("f", ""):
            e = e["o"]
        else:
            return e
    return e


def ename(e):
    e = unwrap(e)
    if not e:
        return None
    if e["k"] in ("var", "mem"):
        return e["n"]
    if e["k"] == "call" and "operator _starpu_data_state" in e.get("f", ""):
        return ename(e["o"])
    return None


def type_kind(t):
    t = t or ""
    if t.startswith("i"):
        return "i"
    if t in ("float", "double", "half"):
        return "f"
    return t


def starts(v):
    return v[0] if v else None


def crossing(Rp, ws):
    """Arguments of calls inside the library whose names say that they were
    exchanged."""
    Rp.rule("names", "no call of a function of the library's headers passes the "
            "variable named like parameter q in the place of a different "
            "parameter while q itself receives something else")
    known = set()
    for h in (ws.repo / "include" / "nntile").rglob("*.hh"):
        known.update(re.findall(r"\b\w+\b", h.read_text(errors="replace")))
    for lay in ("kernel", "starpu", "tile", "tensor"):
        us = ws.units(lay)
        for u, a in ws.asts(us).items():
            with Rp.guard(str(u)):
                for f in a["functions"]:
                    if f["file"] != str(u):
                        continue
                    for x in walk(f.get("body")):
                        if x.get("k") != "call" or "pn" not in x or \
                                not (x.get("f") or "").startswith("nntile"):
                            continue
                        pn = x["pn"]
                        # helpers of one file name their parameters freely
                        if len(set(pn)) != len(pn) or \
                                x["f"].split("::")[-1].split("<")[0] \
                                not in known:
                            continue
                        Rp.count("library call sites")
                        args = [ename(e) for e in x["a"]]
                        bad = None
                        for i, ai in enumerate(args):
                            if ai and i < len(pn) and ai != pn[i] and ai in pn:
                                j = pn.index(ai)
                                if j < len(args) and args[j] != pn[j]:
                                    bad = (ai, pn[i], pn[j], args[j])
                                    break
                        Rp.ob(bad is None)
                        if bad:
                            Rp.violation(
                                "%s/%s/%s" % (f["q"], x["f"], bad[0]),
                                "%s passes '%s' to parameter '%s' of %s" % (
                                    f["q"], bad[0], bad[1], x["f"]),
                                "%s:%d" % (ws.display(u), x["l"]))
    Rp.require("library call sites", 2000)


def packed_values(Rp, ws, T):
    """STARPU_VALUE arguments are unpacked in the order they were packed."""
    Rp.rule("packing", "an implementation that unpacks its arguments reads them "
            "in the order, and with the types, in which the submission packed "
            "them")
    V = T.K["STARPU_VALUE"]
    for op in T.ops:
        un = {}
        for f in op.own:
            with Rp.guard(op.path):
                for x in walk(f.get("body")):
                    if x.get("k") == "call" and "unpack_args" in (x.get("f") or ""):
                        un[f["m"]] = (f, x)
        if not un:
            continue
        for f in op.submits():
            with Rp.guard(op.path):
                for x in walk(f.get("body")):
                    if x.get("k") != "call" or x.get("f") != "starpu_task_insert":
                        continue
                    a = x["a"]
                    packed = []
                    for j, e in enumerate(a[:-2]):
                        if e.get("k") == "int" and e.get("v") == V:
                            packed.append((ename(a[j + 1]), a[j + 1].get("t")))
                    cands = [y for y in walk(a[0]) if y.get("k") in ("call", "var")]
                    cl = codelets_of(op, a[0])
                    for c in cl:
                        for m in c.cpu + ([c.footprint] if c.footprint else []):
                            if m not in un:
                                continue
                            g, y = un[m]
                            Rp.count("packed argument lists")
                            got = [(re.sub(r"_ptr$", "", ename(e) or ""),
                                    unwrap(e).get("t")) for e in y["a"][1:]]
                            ok = len(got) <= len(packed)
                            why = "unpacks %d values but %d are packed" % (
                                len(got), len(packed))
                            names = [p[0] for p in packed]
                            for i, (n, t) in enumerate(got):
                                if not ok:
                                    break
                                if n != names[i] and n in names:
                                    ok = False
                                    why = "value %d is packed from '%s' but " \
                                        "unpacked as '%s'" % (i + 1, names[i], n)
                                def norm(t):
                                    return re.sub(r"\bconst\b|\s|&|\*", "", t or "")
                                if ok and norm(t) != norm(packed[i][1]):
                                    ok = False
                                    why = "value %d ('%s') has type %s when packed " \
                                        "and %s when unpacked" % (
                                            i + 1, n, norm(packed[i][1]), norm(t))
                            Rp.ob(ok)
                            if not ok:
                                Rp.violation("%s/%s/packing" % (f["q"], g["n"]),
                                             "%s: %s" % (g["q"], why),
                                             "%s:%d" % (op.path, y["l"]))


def codelets_of(op, e):
    """Codelets an AST expression may denote (through codelet<T>())."""
    out = []
    for y in walk(e):
        if y.get("k") == "call" and y.get("m") in op.fns:
            for z in walk(op.fns[y["m"]].get("body")):
                if z.get("k") == "var" and z.get("q") in op.codelets:
                    out.append(op.codelets[z["q"]])
        elif y.get("k") == "var" and y.get("q") in op.codelets:
            out.append(op.codelets[y["q"]])
    return out


def resolved_codelets(T, s):
    """All codelets the first argument of an insertion may denote."""
    if s.codelet in T.codelets:
        return [T.codelets[s.codelet]]
    out = []
    for x in walk(s.codelet_v):
        if x.get("k") == "global" and x.get("n") in T.codelets:
            out.append(T.codelets[x["n"]])
    return out


def c03(Rp):
    ws, T = layer()
    need(Rp, T)
    D = dump_keep(T)
    Rp.rule("set", "every field of the argument block that an implementation or "
            "footprint reads is stored, with the same size and kind, on every "
            "path to the insertion of the task")
    Rp.rule("size", "the argument block handed over is at least as large as what "
            "is read from it; it is heap memory that is neither modified nor "
            "freed after the insertion")
    Rp.rule("exact", "a field that is a copy of a parameter keeps its width (no "
            "truncation, no float to integer conversion)")
    Rp.rule("role", "a kernel parameter named like a parameter of the submitting "
            "function receives exactly that parameter; pointers receive the "
            "buffer that was bound to the handle of the same name")
    Rp.rule("varargs", "the variadic argument list of the insertion is well "
            "formed: keys with their values, sizes as size_t, FLOPS as double")
    for op in T.ops:
        for f in op.submits():
            with Rp.guard(op.path):
                if f["m"] not in D:
                    continue
                fm = D[f["m"]][1]
                names = [p["n"] for p in f["ps"]]
                for s in T.sites(fm):
                    Rp.count("task insertion sites")
                    Rp.ob(s.malformed is None)
                    if s.malformed:
                        Rp.violation("%s/varargs" % f["q"], "%s: %s" % (
                            f["q"], s.malformed), s.loc)
                        continue
                    cl = resolved_codelets(T, s)
                    if not cl:
                        Rp.undecided("%s: codelet not resolved" % f["q"])
                        continue
                    site_block(Rp, T, op, f, fm, s)
                    if s.flops is not None:
                        v = strip(s.flops)
                        t = s.flops.get("t") if s.flops.get("k") in ("cast", "op",
                                                                     "load") else None
                        bad = v.get("k") == "ci" or (t or "double") != "double"
                        Rp.ob(not bad)
                        if bad:
                            Rp.violation("%s/flops" % f["q"], "%s passes STARPU_FLOPS "
                                         "a value that is not a double" % f["q"],
                                         s.loc)
                    same = cl[0].var.rsplit("::", 1)[0] == f["q"].rsplit("::", 1)[0]
                    for c in cl:
                        for m in c.cpu + ([c.footprint] if c.footprint else []):
                            if m not in D or (m == c.footprint):
                                continue
                            im = D[m][1]
                            loads_ok(Rp, op, f, s, c, im)
                            if same:
                                roles(Rp, op, f, names, s, c, im)
    crossing(Rp, ws)
    packed_values(Rp, ws, T)
    members(Rp, ws, T)
    Rp.require("task insertion sites", 70)
    Rp.require("argument block fields read", 240)
    Rp.require("kernel arguments bound", 300)
    return "other", (
        "LLVM IR of every submitting function and implementation (helpers "
        "inlined, kernel calls kept): the stores into the argument block, the "
        "variadic argument list of starpu_task_insert, the loads of the "
        "implementation and its kernel call are composed into a map from "
        "submit parameters to kernel parameters; call sites of all layers are "
        "checked on the type-resolved AST for exchanged arguments.")


def site_block(Rp, T, op, f, fm, s):
    if s.args is None:
        return
    ok = s.args[0] in ("heap", "call", "param") or s.args_nfree
    bad = s.args[0] == "alloca"
    Rp.ob(not bad)
    if bad:
        Rp.violation("%s/stack" % f["q"], "%s hands the runtime an argument "
                     "block on its own stack" % f["q"], s.loc)
    if s.args[0] != "heap":
        return
    aid = s.args[1]
    # later writes and frees on a path that returns normally
    after = set()
    st = [x for x in fm.blocks[s.block]["succ"]]
    while st:
        x = st.pop()
        if x in after or x in fm.dead_ends():
            continue
        after.add(x)
        st.extend(fm.blocks[x]["succ"])
    for b, n, i in fm.insts():
        late = (b["id"] == s.block and n > s.idx) or \
            (b["id"] in after and b["id"] != s.block)
        if not late:
            continue
        if i["k"] == "store":
            bk = base_kind(i["p"]["base"])
            if bk[0] == "heap" and bk[1] == aid:
                Rp.violation("%s/late" % f["q"], "%s modifies the argument block "
                             "after the task was inserted" % f["q"], i["loc"])
        elif i["k"] in ("call", "invoke") and i.get("m") in (
                "free", "_ZdlPv", "_ZdlPvm", "_ZdaPv"):
            p = i["s"][0]
            bk = base_kind(p["base"]) if p and "base" in p else ("?",)
            if bk[0] == "heap" and bk[1] == aid:
                Rp.violation("%s/freed" % f["q"], "%s frees the argument block it "
                             "handed to the runtime" % f["q"], i["loc"])
    # exact copies
    names = [p["n"] for p in f["ps"]]
    for o, (sz, v, t, loc, dom) in s.fields.items():
        p, casts = param_of(v)
        if p is None:
            continue
        bad = [c for c in casts if c[0] in ("trunc", "fptosi", "fptoui")]
        Rp.ob(not bad)
        if bad:
            Rp.violation("%s/%s/exact" % (f["q"], names[p]),
                         "%s stores parameter '%s' as a narrower %s" % (
                             f["q"], names[p], bad[0][2]), loc)


def loads_ok(Rp, op, f, s, c, im):
    ld = arg_loads(im)
    if s.args is None:
        if ld and not s.values:
            Rp.violation("%s/noargs" % f["q"], "%s passes no argument block but "
                         "%s reads one" % (f["q"], c.name), s.loc)
        return
    if s.args[0] != "heap":
        return
    # stores through memcpy hide the fields
    hidden = any(i["k"] in ("call", "invoke") and
                 (i.get("m") or "").startswith(("llvm.memcpy", "memcpy"))
                 and i["s"][0] and "base" in i["s"][0]
                 and base_kind(i["s"][0]["base"])[:2] == s.args[:2]
                 for b, n, i in s.fn.insts())
    for o, sz, t, loc in ld:
        Rp.count("argument block fields read")
        if s.args_size is not None:
            ok = o + sz <= s.args_size
            Rp.ob(ok)
            if not ok:
                Rp.violation("%s/%s/size" % (f["q"], c.name),
                             "%s hands over %d bytes of arguments but %s reads "
                             "bytes %d..%d" % (f["q"], s.args_size, c.name, o,
                                               o + sz - 1), s.loc)
        fl = s.fields.get(o)
        if fl is None:
            # part of a wider store?
            wide = [x for x in s.fields if x < o and x + s.fields[x][0] >= o + sz]
            if wide or hidden:
                continue
            Rp.ob(False)
            Rp.violation("%s/%s/unset%d" % (f["q"], c.name, o),
                         "%s reads %d bytes at offset %d of its argument block "
                         "that %s never stores" % (c.name, sz, o, f["q"]), loc)
            continue
        ok = fl[0] == sz and (type_kind(fl[2]) == type_kind(t) or
                              type_kind(fl[2]) not in ("i", "f"))
        # integers may legitimately be stored in pieces or as wider moves
        Rp.ob(ok)
        if not ok and not (fl[0] >= sz and type_kind(fl[2]) == "i" and
                           type_kind(t) == "i"):
            Rp.violation("%s/%s/type%d" % (f["q"], c.name, o),
                         "%s stores %s (%d bytes) at offset %d of the argument "
                         "block, %s reads it as %s (%d bytes)" % (
                             f["q"], fl[2], fl[0], o, c.name, t, sz), loc)
        if not fl[4] and not stored_on_all_paths(s, o):
            Rp.violation("%s/%s/path%d" % (f["q"], c.name, o),
                         "%s stores the field at offset %d only on some paths "
                         "to the insertion" % (f["q"], o), fl[3])


def stored_on_all_paths(s, o):
    fm = s.fn
    aid = s.args[1]
    bl = set()
    for b, n, st in fm.insts():
        if st["k"] == "store":
            bk = base_kind(st["p"]["base"])
            if bk[0] == "heap" and bk[1] == aid and \
                    const_off(st["p"]["off"]) == o and b["id"] != s.block:
                bl.add(b["id"])
            if bk[0] == "heap" and bk[1] == aid and b["id"] == s.block \
                    and const_off(st["p"]["off"]) == o and n < s.idx:
                return True
    return reach_avoiding(fm, fm.entry, {s.block}, bl) is None


def roles(Rp, op, f, names, s, c, im):
    for b, n, i in im.insts():
        if i["k"] not in ("call", "invoke") or \
                "nntile::kernel::" not in (i.get("f") or ""):
            continue
        kn = re.sub(r"^.*nntile::kernel::(\w+)::.*$", r"\1", i["f"].split("(")[0])
        for q, a in zip(i.get("an", []), i["a"]):
            v = strip(a)
            what = None
            if v is None:
                continue
            bi = buffer_of(a)
            if bi is not None:
                Rp.count("kernel arguments bound")
                p = s.bufs[bi][1] if bi < len(s.bufs) else None
                if p is None:
                    continue
                what = names[p]
                ok = what == q or q not in names
                Rp.ob(ok)
                if not ok:
                    Rp.violation(
                        "%s/%s/%s" % (f["q"], c.name, q),
                        "parameter '%s' of kernel %s receives the buffer of "
                        "handle '%s' of %s" % (q, kn, what, f["q"]), i["loc"])
                continue
            if v.get("k") == "load" and v["p"]["base"].get("k") == "param" and \
                    v["p"]["base"]["i"] == 1:
                o = const_off(v["p"]["off"])
                fl = s.fields.get(o)
                if fl is None:
                    continue
                p, casts = param_of(fl[1])
                Rp.count("kernel arguments bound")
                if p is not None:
                    what = names[p]
                elif strip(fl[1]).get("k") in ("ci", "cf"):
                    what = "constant %s" % strip(fl[1])["v"]
                elif strip(fl[1]).get("k") == "op":
                    what = "a computed value"
                if q in names and what is not None:
                    ok = what == q
                    Rp.ob(ok)
                    if not ok:
                        Rp.violation(
                            "%s/%s/%s" % (f["q"], c.name, q),
                            "parameter '%s' of kernel %s receives %s instead of "
                            "parameter '%s' of %s" % (q, kn, "'%s'" % what,
                                                      q, f["q"]), i["loc"])
                continue
            if q in names and s.args is not None and v.get("k") in ("ci", "cf"):
                Rp.ob(False)
                Rp.violation(
                    "%s/%s/%s" % (f["q"], c.name, q),
                    "parameter '%s' of kernel %s receives the constant %s "
                    "instead of parameter '%s' of %s" % (q, kn, v["v"], q,
                                                         f["q"]), i["loc"])
            elif q in names and s.args is not None and v.get("k") == "op" and \
                    v.get("op") in ("add", "sub", "mul", "sdiv", "fadd", "fsub",
                                    "fmul", "fdiv", "fneg", "shl"):
                Rp.ob(False)
                Rp.violation(
                    "%s/%s/%s" % (f["q"], c.name, q),
                    "parameter '%s' of kernel %s receives a computed value "
                    "instead of parameter '%s' of %s" % (q, kn, q, f["q"]),
                    i["loc"])


def members(Rp, ws, T):
    """Fields of argument blocks named after a parameter receive it."""
    Rp.rule("fields", "a field of an argument block named like a parameter of "
            "the submitting function is not given a different parameter that "
            "has a field of its own")
    for op in T.ops:
        recs = {r["t"]: [x["n"] for x in r["fields"]]
                for r in op.ast["records"]}
        for f in op.submits():
            with Rp.guard(op.path):
                ps = {p["n"] for p in f["ps"]}
                pairs = []
                for x in walk(f.get("body")):
                    if x.get("k") == "asg" and x.get("op") == "=" and \
                            x["a"].get("k") == "mem" and x["a"].get("ar"):
                        pairs.append((x["a"]["n"], ename(x["b"]), x["l"],
                                      recs.get(re.sub(r" \*$", "", x["a"]["b"].get(
                                          "t", "")) if x["a"].get("b") else "", [])))
                    elif x.get("k") == "il" and x.get("t") in recs:
                        fl = recs[x["t"]]
                        for n, e in zip(fl, x["a"]):
                            pairs.append((n, ename(e), x["l"], fl))
                for n, v, l, fl in pairs:
                    if v is None:
                        continue
                    Rp.count("argument block assignments")
                    ok = n == v or n not in ps or v not in ps
                    Rp.ob(ok)
                    if not ok:
                        Rp.violation("%s/%s/field" % (f["q"], n),
                                     "%s stores parameter '%s' in field '%s' although "
                                     "it has a parameter of that name" % (f["q"], v, n),
                                     "%s:%d" % (op.path, l))

# ---------------------------------------------------------------------------
def arg_offs(t, out):
    """Offsets of the 64 bit integer argument fields below a dumped value."""
    for x in walk(t):
        if x.get("k") == "load" and x.get("t") == "i64":
            b = strip(x["p"]["base"])
            if b.get("k") == "param" and b["i"] == 1:
                o = const_off(x["p"]["off"])
                if o is not None:
                    out.add(o)


def work_sizes(fm):
    """Argument fields that bound loops or are dimensions of library calls."""
    s = set()
    for l in fm.loops.values():
        for e in fm.live_exiting(l):
            arg_offs(l["ec"].get(str(e)), s)
            last = fm.blocks[e]["is"][-1]
            if last.get("c") is not None:
                c = fm.ctx.resolve(last["c"])
                if c.get("k") == "cmp":
                    for side in ("a", "b"):
                        arg_offs(c[side] if strip(c[side]).get("k") == "load"
                                 else None, s)
    for b, n, i in fm.insts():
        if i["k"] in ("call", "invoke") and (i.get("m") or "").startswith(
                ("cblas_", "llvm.memset", "llvm.memcpy", "memset", "memcpy")):
            for a, sc in zip(i["a"], i["s"]):
                if isinstance(sc, dict) and "base" in sc:
                    continue
                arg_offs(a, s)
                arg_offs(sc, s)
    return s


def hashed(fm):
    """Calls that contribute to the returned footprint, as (name, offset in the
    argument block or None, size or None)."""
    ids, seen = [], set()

    def go(v):
        v = fm.ctx.resolve(strip(v))
        if v is None or (v.get("id") is not None and v["id"] in seen):
            return
        seen.add(v.get("id"))
        if v["k"] == "call":
            ids.append(v["id"])
            for a in v.get("a", [])[1:]:
                go(a)
        elif v["k"] == "op":
            for a in v["a"]:
                go(a)
        elif v["k"] == "phi":
            for x in v["in"]:
                go(x["v"])
        elif v["k"] == "load":
            vals.append(v)
    vals = []
    for b, n, i in fm.insts():
        if i["k"] == "ret" and i.get("v"):
            go(i["v"])
    res = []
    for b, n, i in fm.insts():
        if i["k"] in ("call", "invoke") and i["id"] in ids:
            p = i["s"][0] if i["s"] else None
            off = None
            if isinstance(p, dict) and "base" in p:
                bb = strip(p["base"])
                # the argument block is a pointer loaded from the task
                if bb and bb.get("k") == "load":
                    if base_kind(bb["p"]["base"])[0] == "param":
                        off = const_off(p["off"])
                elif bb and bb.get("k") == "alloca":
                    # a local copy of fields: what was stored there
                    off = "local"
                    for _, _, st in fm.insts():
                        if st["k"] == "store" and base_kind(
                                st["p"]["base"])[:2] == ("alloca", bb["id"]):
                            z = strip(st["v"])
                            if z.get("k") == "load":
                                o = const_off(z["p"]["off"])
                                if o is not None:
                                    res.append((i["m"], o, z.get("sz", 8)))
            res.append((i["m"], off, cval(i["a"][1]) if len(i["a"]) > 1 else None))
    for v in vals:
        o = const_off(v["p"]["off"])
        if o is not None:
            res.append(("value", o, v.get("sz", 8)))
    # hashing by value
    for b, n, i in fm.insts():
        if i["k"] in ("call", "invoke") and i["id"] in ids:
            for a in i["a"]:
                z = strip(a)
                if z and z.get("k") == "load" and "p" in z and \
                        (z.get("t") or "").startswith("i"):
                    o = const_off(z["p"]["off"])
                    if o is not None:
                        res.append((i["m"], o, z.get("sz", 8)))
    return res


def extent_vector(im, buf, offs):
    """Exponents of the size fields in the leading monomial of the extent of a
    buffer, or None."""
    fm = im.fm
    best = None
    for a in im.of(buf, ("r", "w", "r?")):
        if a.off is None:
            continue
        p = a.off
        sub = {}
        for at in p.atoms():
            if at[0] == "i" and at[1:].isdigit():
                t = fm.trips(int(at[1:]), a.block)
                if t is None:
                    return None
                sub[at] = t
        p = p.subst(sub) if sub else p
        if a.count is not None:
            p = p + a.count
        for mono, c in p.t.items():
            d = sum(e for _, e in mono) if mono and isinstance(mono[0], tuple) \
                else len(mono)
            if best is None or d > best[0]:
                best = (d, mono)
    if best is None:
        return None
    vec = {}
    for x in best[1]:
        at, e = x if isinstance(x, tuple) else (x, 1)
        vec[at] = vec.get(at, 0) + e
    return [vec.get("a%d" % o, 0) for o in offs]


def rank(rows):
    from fractions import Fraction
    m = [[Fraction(x) for x in r] for r in rows]
    r = 0
    n = len(m[0]) if m else 0
    for c in range(n):
        p = next((i for i in range(r, len(m)) if m[i][c]), None)
        if p is None:
            continue
        m[r], m[p] = m[p], m[r]
        for i in range(len(m)):
            if i != r and m[i][c]:
                f = m[i][c] / m[r][c]
                m[i] = [x - f * y for x, y in zip(m[i], m[r])]
        r += 1
    return r


def c13(Rp):
    ws, T = layer()
    need(Rp, T)
    Rp.rule("covered", "the value a footprint function returns depends, through "
            "the chain of hash calls, on every size field of the argument block "
            "that bounds a loop or is a dimension of a library call in the "
            "implementation")
    Rp.rule("determined", "where a codelet has no footprint function (the "
            "runtime then hashes the buffer sizes), the sizes of the buffers "
            "determine all those fields")
    Rp.rule("perfmodel", "no two codelets share the name of their performance "
            "model")
    imcache = {}
    from .effects import Impl
    for c in sorted(T.codelets.values(), key=lambda c: c.var):
        with Rp.guard(c.var):
            S, ims = set(), []
            for m in c.cpu:
                if m not in T.dumps:
                    continue
                for fm in T.scenarios(m):
                    ims.append(fm)
                    S |= work_sizes(fm)
            if not ims:
                continue
            Rp.count("codelets with an implementation")
            opn = c.var.split("::")[-2]
            if c.footprint:
                h = hashed(T.scenarios(c.footprint)[0]) if c.footprint in T.dumps \
                    else []
                if not h:
                    # nothing of the arguments reaches the footprint
                    Rp.ob(not S)
                    if S:
                        Rp.violation("%s/footprint" % c.var, "the footprint of %s "
                                     "does not depend on its arguments" % c.name,
                                     c.loc)
                    continue
                opaque = [x for x in h if x[1] is None or x[2] is None]
                uses_values = any(s for s in S) and opaque and \
                    not any(x[1] is not None for x in h)
                if uses_values:
                    Rp.undecided("%s: which bytes are hashed" % c.name)
                    continue
                for o in sorted(S):
                    Rp.count("size fields")
                    ok = any(x[1] is not None and x[1] != "local" and x[2] is not None
                             and x[1] <= o and o + 8 <= x[1] + x[2] for x in h)
                    ok = ok or any(x[1] is None for x in h)
                    Rp.ob(ok)
                    if not ok:
                        Rp.violation(
                            "%s/size%d" % (c.var, o), "the footprint of %s ignores "
                            "the size at offset %d of its arguments, which "
                            "determines the amount of work" % (c.name, o), c.loc)
                Rp.sample("%s: sizes at %s, footprint over %s" % (
                    c.name, sorted(S), sorted((x[1], x[2]) for x in h
                                              if x[1] is not None)))
            else:
                offs = sorted(S)
                for o in offs:
                    Rp.count("size fields")
                if len(offs) == 0:
                    continue
                worst = None
                for fm in ims:
                    im = Impl(fm)
                    rows = [extent_vector(im, b, offs) for b in im.bufs]
                    nb = len(rows)
                    rows = [r for r in rows if r is not None]
                    r = rank(rows) if rows else 0
                    r += nb - len(rows)          # unknown ones may help
                    worst = r if worst is None else max(worst, r)
                ok = worst >= len(offs)
                Rp.ob(ok)
                if not ok:
                    Rp.violation(
                        "%s/footprint" % c.var, "%s has no footprint function but "
                        "its %d sizes (at %s) are not determined by the sizes of "
                        "its buffers" % (c.name, len(offs), offs), c.loc)
    Rp.require("size fields", 130)
    return "other", (
        "LLVM IR of every footprint function: the returned value is followed "
        "back through the seed arguments of the hash calls to the hashed "
        "bytes of the argument block; these are compared with the fields that "
        "occur in trip counts and library-call dimensions of the "
        "implementations. Codelets without a footprint: rank of the exponent "
        "matrix of their buffer extents.")


# ---------------------------------------------------------------------------
INT_MIN, INT_MAX = -(1 << 31), (1 << 31) - 1


def truncs(fm, v, out, depth=0):
    """Operands of the 64 to 32 bit truncations a value may come from."""
    v = fm.ctx.resolve(v)
    if v is None or depth > 12:
        return
    k = v.get("k")
    if k == "cast":
        if v["op"] == "trunc" and v.get("st") == "i64":
            out.append(v)
        else:
            truncs(fm, v["a"], out, depth + 1)
    elif k == "phi":
        for x in v["in"]:
            truncs(fm, x["v"], out, depth + 1)
    elif k == "op":
        for x in v["a"]:
            truncs(fm, x, out, depth + 1)


def c15(Rp):
    ws, T = layer()
    need(Rp, T)
    bs = get_bindings(Rp, T)
    Rp.rule("fits", "every 64 bit size that an implementation narrows to the "
            "integer type of a CBLAS argument has been compared with its "
            "narrowed value before the task was inserted: its value range at "
            "starpu_task_insert lies within that type")
    for b in bs:
        with Rp.guard(key(b)):
            fm = b.impl.fm
            fits = {i["id"]: i.get("fits") for _, _, i in fm.insts()
                    if i["k"] == "trunc"}
            pr = b.site.inst.get("pr", {})
            done = set()
            for blk, n, i in fm.insts():
                if i["k"] not in ("call", "invoke") or \
                        not (i.get("m") or "").startswith("cblas_"):
                    continue
                for a in i["a"]:
                    ts = []
                    truncs(fm, a, ts)
                    for t in ts:
                        if fits.get(t.get("id")):
                            continue
                        p = fm.ctx.val(t["a"])
                        if p is None:
                            Rp.undecided("%s: narrowed size not understood"
                                         % b.describe())
                            continue
                        if p in done:
                            continue
                        done.add(p)
                        Rp.count("narrowed sizes")
                        lo = hi = 0
                        names = []
                        for mono, c in p.t.items():
                            l, h = c, c
                            for x in mono:
                                at, e = x if isinstance(x, tuple) else (x, 1)
                                r = rng(b, at, pr, names)
                                for _ in range(e):
                                    ps = [l * r[0], l * r[1], h * r[0], h * r[1]]
                                    l, h = min(ps), max(ps)
                            lo, hi = lo + l, hi + h
                        ok = INT_MIN <= lo and hi <= INT_MAX
                        Rp.ob(ok)
                        if not ok:
                            Rp.violation(
                                key(b, "*".join(names) or "size"),
                                "%s narrows '%s' to int for %s but %s inserts the "
                                "task without rejecting values that do not fit" % (
                                    b.codelet.name, "*".join(names) or "a size",
                                    i["m"], b.sub.ast["q"]), b.site.loc)
                        else:
                            Rp.sample("%s: '%s' in [%d, %d] at the insertion" % (
                                b.codelet.name, "*".join(names), lo, hi))
    Rp.require("narrowed sizes", 20)
    return "other", (
        "Truncations reaching CBLAS arguments (LLVM IR) are traced to the "
        "argument block fields and from there to the submit parameters; lazy "
        "value information gives the parameters' ranges at the insertion of the "
        "task, after the rejecting branches.")


def rng(b, at, pr, names):
    full = (-(1 << 63), (1 << 63) - 1)
    if not re.match(r"^a\d+$", at):
        return full
    o = int(at[1:])
    p = b.field_param(o)
    if p is None:
        f = b.site.fields.get(o)
        c = cval(f[1]) if f else None
        return (c, c) if c is not None else full
    names.append(b.param_name(p))
    r = pr.get(str(p))
    return (r[0], r[1]) if r else full


# ---------------------------------------------------------------------------
DENY = re.compile(
    r"^(rand|srand|random|srandom|drand48|lrand48|rand_r|time|clock|"
    r"gettimeofday|clock_gettime|getenv|setenv|getpid|printf|puts|putchar|"
    r"fopen|fwrite|usleep|sleep|nanosleep|strtok|localtime|gmtime|setlocale|"
    r"signal|system|exit|longjmp)$|"
    r"^starpu_(task|data|mpi|malloc|free|worker|timing|bus|insert|iteration|"
    r"shutdown|pause|resume)|^_ZNSt6chrono|random_device|^pthread_|^_ZNSt6thread")
PURE = re.compile(
    r"^(cblas_\w+|__cxa_\w+|_Zn[wa]\w+|_Zd[la]\w+|malloc|free|calloc|llvm\..*|"
    r"_ZSt9terminatev|_ZNSt\w*runtime_error\w*|_ZN?S?t?\w*_error\w*|memcpy|"
    r"memset|memmove|(exp|log|sqrt|pow|erf|erfc|tanh|cosh|sinh|sin|cos|tan|"
    r"hypot|fabs|floor|ceil|round|trunc|exp2|log1p|expm1|fma|fmax|fmin|atan|"
    r"atan2|cbrt|ldexp|frexp|fmod|copysign|lround|nearbyint|rint|"
    r"logb|scalbn|remainder)[fl]?|__\w+_finite|starpu_hash_\w+|"
    r"starpu_codelet_unpack_\w+|starpu_cpu_\w*|abort|_Unwind_Resume|"
    r"_ZN6nntile.*|_ZNSt6vector.*|_ZNKSt.*|_ZSt\d+__throw\w*)$")


def c16(Rp):
    ws, T = layer()
    need(Rp, T)
    Rp.rule("calls", "an implementation calls no function that reads a clock, a "
            "shared generator or the environment, performs output, or submits, "
            "waits for or manages runtime data")
    Rp.rule("globals", "it stores to no static or global object, except the "
            "guarded initialisation of a constant with a value that does not "
            "depend on the arguments, and reads no mutable one")
    Rp.rule("locals", "it keeps no mutable function-local static or thread-local "
            "state")
    Rp.rule("exceptions", "no exception leaves an implementation: it is noexcept "
            "or contains no throwing path")
    Rp.rule("arguments", "it does not modify its argument block")
    impls = {}
    for op in T.ops:
        for c in op.codelets.values():
            with Rp.guard(c.var):
                for m in c.cpu:
                    impls.setdefault(m, (op, c))
    known_globals = set()
    for m, (op, c) in sorted(impls.items()):
        with Rp.guard(m):
            if m not in T.dumps:
                continue
            Rp.count("implementations")
            f = op.fns.get(m)
            fms = T.scenarios(m)
            for fm in fms:
                guarded = set()
                for b, n, i in fm.insts():
                    if i["k"] in ("call", "invoke") and \
                            i.get("m") == "__cxa_guard_acquire":
                        g = base_kind(i["s"][0]["base"])
                        guarded.add(re.sub(r"^guard variable for ", "", g[1] or ""))
                throws = False
                for b, n, i in fm.insts():
                    k = i["k"]
                    if k in ("call", "invoke"):
                        mm = i.get("m")
                        if mm is None:
                            if strip(i.get("ce") or {}).get("k") != "asm":
                                Rp.undecided("%s: indirect call" % c.name)
                            continue
                        Rp.count("calls in implementations")
                        bad = bool(DENY.search(mm))
                        Rp.ob(not bad)
                        if bad:
                            Rp.violation(
                                "%s/call/%s" % (c.var, mm),
                                "the implementation of %s calls %s" % (c.name, mm),
                                i["loc"])
                        elif not PURE.match(mm) and not i.get("intr") and \
                                not i.get("rn"):
                            Rp.undecided("%s: effects of %s unknown" % (c.name, mm))
                        if mm == "__cxa_throw" or mm == "__cxa_rethrow":
                            throws = True
                    if k in ("load", "store", "atomic"):
                        bk = base_kind(i["p"]["base"])
                        if bk[0] == "global":
                            name, const = bk[1], bk[2]
                            if k == "load":
                                ok = const or name in guarded or \
                                    name.startswith("guard variable") or \
                                    name.startswith("vtable") or \
                                    never_written(ws, T, name)
                                Rp.ob(ok)
                                if not ok:
                                    Rp.violation(
                                        "%s/global/%s" % (c.var, name),
                                        "the implementation of %s reads the mutable "
                                        "global %s" % (c.name, name), i["loc"])
                            else:
                                ok = name in guarded
                                if ok:
                                    ks = set()
                                    leaves(fm, i["v"], ks, set())
                                    if ks & {"data", "size", "scalar", "index"}:
                                        ok = False
                                Rp.ob(ok)
                                if not ok:
                                    Rp.violation(
                                        "%s/global/%s" % (c.var, name),
                                        "the implementation of %s modifies the "
                                        "global or static object %s" % (c.name, name),
                                        i["loc"])
                        elif bk[0] == "param" and bk[1] == 1 and k != "load":
                            # StarPU may hand the same block to several executions
                            Rp.ob(False)
                            Rp.violation("%s/arguments" % c.var,
                                         "the implementation of %s modifies its "
                                         "argument block" % c.name, i["loc"])
                    if k == "resume":
                        throws = True
                if throws and not (f and f.get("noexc")):
                    Rp.violation("%s/throws" % c.var, "an exception may leave the "
                                 "implementation of %s" % c.name,
                                 "%s:%d" % (op.path, f["l"] if f else 0))
                else:
                    Rp.ob()
    # statics with mutable type
    for lay in ("kernel", "starpu"):
        us = ws.units(lay)
        for u, a in ws.asts(us).items():
            with Rp.guard(str(u)):
                for f in a["functions"]:
                    if f["file"] != str(u):
                        continue
                    Rp.count("functions searched for static state")
                    for x in walk(f.get("body")):
                        if x.get("k") != "decl":
                            continue
                        for d in x.get("d", []):
                            if d.get("st") and not re.search(
                                    r"\bconst\b", d.get("t", "")) and \
                                    not d.get("ce") and written(f, d):
                                if f["n"].startswith(("init", "submit", "codelet",
                                                      "restrict", "restore")):
                                    continue
                                Rp.ob(False)
                                Rp.violation(
                                    "%s/static/%s" % (f["q"], d["n"]),
                                    "%s keeps state in the static variable '%s'"
                                    % (f["q"], d["n"]), "%s:%d" % (
                                        ws.display(u), x["l"]))
    Rp.require("implementations", 90)
    return "other", (
        "LLVM IR of every task implementation with all library helpers inlined: "
        "every remaining call and every load or store whose base is a global is "
        "classified; static locals are checked on the AST.")


_written = {}


def never_written(ws, T, name):
    """The global is initialised once and no analysed task writes it."""
    if not _written:
        for m in T.dumps:
            for fm in T.scenarios(m):
                for b, n, i in fm.insts():
                    if i["k"] in ("store", "atomic"):
                        bk = base_kind(i["p"]["base"])
                        if bk[0] == "global":
                            _written[bk[1]] = True
        for lay in ("kernel", "starpu", "tile", "tensor"):
            for u, a in ws.asts(ws.units(lay)).items():
                for f in a["functions"]:
                    for x in walk(f.get("body")):
                        t = None
                        if x.get("k") == "asg":
                            t = x["a"]
                        elif x.get("k") == "un" and x.get("op") in ("++", "--"):
                            t = x["a"]
                        while t and t.get("k") in ("idx", "mem", "cast"):
                            t = t.get("b") if t["k"] != "cast" else t["a"]
                        if t and t.get("k") == "var" and t.get("q") and \
                                t.get("s") == "g":
                            _written[t["q"]] = True
        _written[""] = True
    return name not in _written


def written(f, d):
    """The static variable d of function f is modified after initialisation."""
    for x in walk(f.get("body")):
        t = None
        if x.get("k") == "asg":
            t = x["a"]
        elif x.get("k") == "un" and x.get("op") in ("++", "--", "&"):
            t = x["a"]
        elif x.get("k") == "call" and x.get("o") and not (
                x.get("ft") or "").endswith("const"):
            t = x["o"]
        while t and t.get("k") in ("idx", "mem", "cast"):
            t = t.get("b") if t["k"] != "cast" else t["a"]
        if t and t.get("k") == "var" and t.get("id") == d["id"]:
            return True
    return False


# ---------------------------------------------------------------------------
def c17(Rp):
    ws, T = layer()
    need(Rp, T)
    bs = get_bindings(Rp, T)
    Rp.rule("unit", "a buffer inserted with STARPU_REDUX or STARPU_COMMUTE is "
            "read and updated, and every coefficient from the argument block "
            "that multiplies its old contents equals one in that scenario")
    Rp.rule("methods", "the reduction methods of a tensor pair the accumulation "
            "codelet of its own element type with the clearing codelet")
    COMM = T.K["STARPU_COMMUTE"]
    for b in bs:
        with Rp.guard(key(b)):
            for buf, x in enumerate(b.site.bufs):
                mode = x[0]
                if mode is None or not (mode & REDUX or mode & COMM):
                    continue
                Rp.count("reduction accesses")
                im = b.impl
                rd = im.of(buf, ("r", "r?"))
                rd = [a for a in rd if not (a.kind == "r?" and b.beta_zero(a))]
                ok = bool(rd)
                Rp.ob(ok)
                if not ok and im.of(buf, ("w",)):
                    Rp.violation(key(b, role(b, buf), "overwrite"),
                                 "task %s declares '%s' as a reduction but its "
                                 "implementation overwrites it" % (
                                     b.describe(), role(b, buf)), b.site.loc)
                    continue
                bad = coefficient(b, buf)
                Rp.ob(not bad)
                if bad:
                    Rp.violation(key(b, role(b, buf), "coefficient"),
                                 "task %s declares '%s' as a reduction but scales "
                                 "its old contents by %s" % (
                                     b.describe(), role(b, buf), bad[0]), bad[1])
                else:
                    Rp.sample("%s: '%s' accumulates with unit coefficient" % (
                        b.describe(), role(b, buf)))
    from . import chk_core
    chk_core.reduction_methods(Rp)
    from . import chk_model
    chk_model.reductions(Rp)
    Rp.require("reduction accesses", 20)
    return "other", (
        "For each reduction or commutative access in each scenario, the "
        "multiplications of the destination's old contents (IR) and the beta "
        "argument of CBLAS calls are evaluated under the scenario's facts.")


def coefficient(b, buf):
    """A coefficient other than one applied to the old contents."""
    fm = b.impl.fm

    def fact(v):
        v = strip(fm.ctx.resolve(strip(v)))
        if v is None:
            return "?", None
        c = fact_value(v)
        if c is not None:
            return c, "the constant %s" % c
        if v.get("k") == "load":
            bb = v["p"]["base"]
            if bb.get("k") == "param" and bb["i"] == 1:
                o = const_off(v["p"]["off"])
                p = b.field_param(o)
                n = "'%s'" % b.param_name(p) if p is not None else "an argument"
                return b.field_fact(o), n
        return "?", None
    old = set()
    for blk, n, i in fm.insts():
        if i["k"] == "load" and base_kind(i["p"]["base"]) == ("buf", buf):
            old.add(i["id"])
    for vid, v in fm.defs.items():
        if v.get("k") == "op" and v.get("op") == "fmul":
            for x, y in (v["a"], v["a"][::-1]):
                z = strip(x)
                if z is not None and z.get("id") in old:
                    c, n = fact(y)
                    if c == "?" or n is None:
                        continue
                    if c != "1":
                        return n, b.site.loc
    for a in b.impl.of(buf, ("r", "r?")):
        if (a.what or "").startswith("cblas_") and "gemm" in a.what:
            c, n = fact(a.val)
            if n is not None and c != "1":
                return n, a.loc
        if (a.what or "").startswith("cblas_") and "scal" in a.what:
            return "a factor", a.loc
    return None


# ---------------------------------------------------------------------------
def c27(Rp):
    ws, T = layer()
    need(Rp, T)
    Rp.rule("task", "no implementation or submission of a double precision "
            "instance converts a double to float or to an integer, or extends "
            "a float to double, and none calls a single precision library "
            "routine")
    Rp.rule("call", "no double precision instance of a tile or tensor operation "
            "converts a floating value to a narrower type")
    F32 = re.compile(r"^(exp|log|sqrt|pow|erf|erfc|tanh|cosh|sinh|sin|cos|hypot|"
                     r"fabs|fma|fmax|fmin|log1p|expm1|cbrt|exp2|atan)f$|^cblas_s|"
                     r"^llvm\.(sqrt|exp|log|pow|fabs|fma|fmuladd|sin|cos|maxnum|"
                     r"minnum|floor|ceil)\.f32")
    todo = {}
    for op in T.ops:
        for f in op.submits():
            with Rp.guard(op.path):
                if "double" in (f.get("ta") or []) and "float" not in f["ta"]:
                    todo[f["m"]] = (op, f["q"])
        for c in op.codelets.values():
            for m in c.cpu:
                f = op.fns.get(m)
                if f and "double" in (f.get("ta") or []) and \
                        "float" not in f["ta"]:
                    todo[m] = (op, f["q"])
    for m, (op, q) in sorted(todo.items()):
        with Rp.guard(m):
            if m not in T.dumps:
                continue
            Rp.count("double precision functions")
            for fm in T.scenarios(m):
                for b, n, i in fm.insts():
                    bad = None
                    if i["k"] == "fptrunc" and i["st"] == "double":
                        bad = "rounds a double to %s" % i["t"]
                    elif i["k"] == "fpext" and i["t"] == "double":
                        bad = "uses a single precision value as double"
                    elif i["k"] == "fptoint" and i["st"] == "double":
                        bad = "converts a double to an integer"
                    elif i["k"] in ("call", "invoke") and i.get("used", True) and \
                            F32.match(i.get("m") or ""):
                        # (a folded call whose result is unused is a leftover of
                        # the constant folder, which may have narrowed it)
                        bad = "calls the single precision routine %s" % i["m"]
                    if i["k"] in ("fptrunc", "fpext", "fptoint", "load", "store",
                                  "call"):
                        Rp.count("instructions checked")
                    Rp.ob(bad is None)
                    if bad:
                        Rp.violation("%s/%s" % (q, bad), "the double precision "
                                     "instance of %s %s" % (q, bad), i["loc"])
    for lay in ("tile", "tensor"):
        for u, a in ws.asts(ws.units(lay)).items():
            with Rp.guard(str(u)):
                for f in a["functions"]:
                    if f["file"] != str(u) or "double" not in (f.get("ta") or []) \
                            or "float" in f["ta"]:
                        continue
                    Rp.count("double precision operations")
                    for x in walk(f.get("body")):
                        if x.get("k") == "cast" and x.get("st") in (
                                "double", "const double") and x.get("t") in (
                                    "float", "int", "long", "unsigned int"):
                            Rp.ob(False)
                            Rp.violation("%s/cast" % f["q"], "the double precision "
                                         "instance of %s converts a double to %s" % (
                                             f["q"], x["t"]),
                                         "%s:%d" % (ws.display(u), x["l"]))
                        elif x.get("k") == "decl":
                            for d in x.get("d", []):
                                if re.fullmatch(r"(const )?float", d.get("t") or ""):
                                    Rp.violation(
                                        "%s/%s" % (f["q"], d["n"]),
                                        "the double precision instance of %s keeps "
                                        "'%s' in single precision" % (f["q"], d["n"]),
                                        "%s:%d" % (ws.display(u), x["l"]))
    Rp.require("double precision functions", 90)
    Rp.require("double precision operations", 100)
    return "other", (
        "Every conversion instruction in the LLVM IR of the double precision "
        "implementations and submissions (helpers inlined), and every cast in "
        "the double precision instances of tile and tensor operations.")


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C12": c12,
          "C13": c13, "C15": c15, "C16": c16, "C17": c17, "C27": c27}
