"""Checks of the Python package and its bindings."""
import ast
import itertools
import re

from .bindings import Bindings, UNIT
from .build import AnalysisBroken, Workspace
from .pyinterp import (Arr, Bound, Cls, Fn, GiveUp, Inst, Mod, NFn, Opaque,
                       Package, Py, PyRaise, Sym, Tag, Tensor, Traits, TransV,
                       paths)

DT = {"fp64": "double", "fp32": "float", "fp16": "nntile::fp16_t",
      "int64": "long", "bool": "bool"}
CLS = {v: "Tensor_" + k for k, v in DT.items()}
_CTX = {}


class Ctx:
    def __init__(self):
        self.ws = Workspace()
        self.b = Bindings(self.ws)
        self.root = self.ws.repo / "wrappers/python/nntile"
        if not self.root.is_dir():
            raise AnalysisBroken("no Python package")
        self.pkg = Package(self.root, self.ws.display, self.b.for_interp())


def ctx():
    if not _CTX:
        _CTX["c"] = Ctx()
    return _CTX["c"]


def base(x):
    return (x or "").split("::")[-1]


def name_of(d):
    """(operation, async?, element type) a binding's name states."""
    m = re.match(r"^(.*?)(_async)?_(fp64|fp32|fp16|int64|bool)$", d["name"])
    if m and not re.match(r"^fp\d+_to$", m.group(1)):
        return m.group(1), bool(m.group(2)), m.group(3)
    m = re.match(r"^(.*?)(_async)?$", d["name"])
    return m.group(1), bool(m.group(2)), None


def by_op(b):
    """(operation, element type) -> bindings of the asynchronous form."""
    out = {}
    for path, ds in b.functions.items():
        if not path.startswith("tensor."):
            continue
        for d in ds:
            op, asyn, t = name_of(d)
            if asyn and t:
                out.setdefault(op, {}).setdefault(t, []).append(d)
    return out


# -- C20 ------------------------------------------------------------------------
FUSED = {"fused_adam_step": "adam_step", "fused_adamw_step": "adamw_step"}
FUSED_ARGS = ["num_iter", "beta1", "beta2", "eps", "lr", "weight_decay",
              "grad", "first_moment", "second_moment", "p"]
# parameters which only one element type has a use for
TYPED_FLAG = {"fp32_fast_tf32": "fp32"}


def mk_tensor(P, t, name):
    c = P.pkg.ncls("tensor.Tensor_" + t)
    x = Tensor(len(P.tensors), c, Traits([4, 6], [2, 3]), [0] * 4, Tag(()),
               None, name)
    P.tensors.append(x)
    return x


def c20(R):
    c = ctx()
    R.rule("own-type", "called with operands of element type T, every path "
           "of the Python operation calls the compiled operation of the same "
           "name for T exactly once")
    R.rule("args", "the compiled operation receives the operation's own "
           "parameters, each in its place, with the documented defaults")
    R.rule("all-types", "every element type with a compiled asynchronous "
           "form is dispatched")
    R.rule("reject", "operands of an element type without compiled form, or "
           "of differing element types, raise an error before anything is "
           "called")
    ops = by_op(c.b)
    P0 = Py(c.pkg)
    P0.resolve("nntile")
    mod = P0.mods["nntile.tensor"]
    fns = {n: f for n, f in mod.ns.items()
           if isinstance(f, Fn) and not n.startswith("_")
           and f.node.args.vararg is None}
    done = set()
    for n, f in sorted(fns.items()):
        with R.guard(n):
            op = FUSED.get(n) or (n[:-6] if n.endswith("_async") else None)
            if op is None or op not in ops:
                continue
            done.add(op)
            R.count("Python operations")
            check_wrapper(R, c, n, op, ops[op], f)
    R.require("Python operations", 40)
    # names other modules import must not alias another operation
    for n, v in sorted(mod.ns.items()):
        with R.guard(n):
            if isinstance(v, NFn):
                R.ob(v.name == n)
                if v.name != n:
                    R.violation("alias:" + n, "%s is another operation: %s"
                                % (n, v.path), mod.path)
    return ("static-analysis", "Every operation of tensor.py interpreted for "
            "each combination of operand element types; the compiled "
            "functions are those of the binding definitions.")


def sub_type(t, a, b):
    return re.sub(r"Tensor<%s>" % re.escape(a), "Tensor<%s>" % b, t)


def c20_params(f):
    a = f.node.args
    ns = [x.arg for x in a.posonlyargs + a.args]
    return ns, len(ns) - len(f.defaults)


def check_wrapper(R, c, n, op, sigs, f):
    where = "%s:%d" % (c.ws.display(c.root / "tensor.py"), f.node.lineno)
    for t, ds in sorted(sigs.items()):
        for d in ds:
            if d["params"] is None:
                R.undecided("%s: parameters of %s unknown" % (n, d["name"]))
                continue
            combos(R, c, n, op, t, d, f, sigs, where)
    # element types without a compiled form
    t0 = "fp32" if "fp32" in sigs else sorted(sigs)[0]
    for t in DT:
        if t in sigs:
            continue
        for d in sigs[t0]:
            ps = [sub_type(p, DT[t0], DT[t]) for p in d["params"]]
            if ps == d["params"]:
                continue
            run(R, c, n, op, f, d, ps, None, where,
                "operands of type " + t)


def combos(R, c, n, op, t, d, f, sigs, where):
    run(R, c, n, op, f, d, d["params"], t, where, "operands of type " + t)
    tens = [i for i, p in enumerate(d["params"]) if "Tensor<" in p]
    valid = {tuple(p for p in x["params"] if "Tensor<" in p) for ds in sigs.values() for x in ds
             if x["params"]}
    for i in tens:
        for u in DT:
            ps = list(d["params"])
            q = "nntile::tensor::Tensor<%s>" % DT[u]
            if q == ps[i]:
                continue
            ps[i] = q
            if tuple(p for p in ps if "Tensor<" in p) in valid:
                continue
            run(R, c, n, op, f, d, ps, None, where,
                "operand %d of type %s among %s" % (i, u, t))


def run(R, c, n, op, f, d, params, t, where, what):
    names, need = c20_params(f)
    fused = n in FUSED
    if fused:
        perm = []
        for i in range(len(params)):
            perm.append(FUSED_ARGS[i] if i < len(FUSED_ARGS) else None)
        missing = [x for x in perm if x not in names]
        if missing or len(params) != len(FUSED_ARGS):
            R.undecided("%s: parameters renamed" % n)
            return
    else:
        if len(names) < len(params) or need > len(params):
            R.ob(False)
            R.violation("arity:%s" % n, "%s takes %d arguments, the compiled "
                        "operation %d" % (n, len(names), len(params)), where)
            return
        perm = names[:len(params)]
    for full in ((True, False) if need < len(names) else (True,)):
        vals = {}

        def body(P):
            P.resolve("nntile")
            g = P.mods["nntile.tensor"].ns[n]
            for x, p in zip(perm, params):
                e = c.pkg.tensor_class(p)
                if e is not None:
                    vals[x] = mk_tensor(P, e[7:], x)
                elif p.startswith("std::vector"):
                    vals[x] = [Sym(("arg", x, 0)), Sym(("arg", x, 1))]
                elif p.endswith("TransOp"):
                    vals[x] = TransV(len(vals) % 2 == 0)
                else:
                    vals[x] = Sym(("arg", x))
                    P.symtypes[("arg", x)] = "float" if p in (
                        "float", "double") else "int"
            args = [vals[x] for x in (names if full else names[:need])
                    if x in vals]
            P.events = []
            P.call(g, args, {})
            return None
        try:
            res = paths(c.pkg, body)
        except GiveUp as e:
            R.undecided("%s: %s" % (n, e))
            return
        for P, r in res:
            R.count("dispatched calls")
            core = [e for e in P.events if e.kind == "core"]
            if isinstance(r, PyRaise):
                if r.kind in ("NameError", "AttributeError",
                              "ImportError", "UnboundLocalError"):
                    R.ob(False)
                    R.violation("name:%s" % n, "%s with %s fails: %s"
                                % (n, what, r), r.where or where)
                    continue
                if core:
                    R.ob(False)
                    R.violation("late:%s" % n, "%s with %s raises after "
                                "calling %s" % (n, what, core[0].name), where)
                    continue
                ok = t is None
                R.ob(ok)
                if not ok:
                    R.violation("type:%s:%s" % (n, t), "%s rejects %s, "
                                "although the compiled form %s exists (%s)"
                                % (n, what, d["name"], r), where)
                continue
            if t is None:
                R.ob(False)
                R.violation("reject:%s" % n, "%s accepts %s %s" % (
                    n, what, "and calls " + core[0].name if core
                    else "and silently does nothing"), where)
                continue
            want = "%s_async_%s" % (op, t)
            ok = len(core) == 1 and core[0].name == want
            R.ob(ok)
            if not ok:
                R.violation("call:%s:%s" % (n, t), "%s with %s calls %s "
                            "instead of %s" % (n, what, ", ".join(
                                e.name for e in core) or "nothing", want),
                            core[0].where if core else where)
                continue
            got = core[0].args
            # the overload must be the one of these operands
            for i, x in enumerate(perm):
                w = vals[x]
                if not full and x in names[need:]:
                    j = names.index(x) - need
                    w = f.defaults[j]
                ok = same_value(got[i], w)
                if not ok and x in TYPED_FLAG and t != TYPED_FLAG[x]:
                    ok = got[i] == 0
                R.ob(ok)
                if not ok:
                    R.violation("arg:%s:%d" % (n, i), "%s passes %r as "
                                "argument %d of %s instead of %s"
                                % (n, got[i], i, want, x), core[0].where)
            if len(R.samples) < 8:
                R.sample("%s(%s) -> %s" % (n, what, want))


def same_value(a, b):
    if isinstance(b, list):
        return isinstance(a, (list, tuple)) and len(a) == len(b) and all(
            same_value(x, y) for x, y in zip(a, b))
    if isinstance(b, (Sym,)):
        return a == b
    if isinstance(b, (Tensor, TransV)):
        return a is b
    return type(a) is type(b) and a == b


# -- C21 ------------------------------------------------------------------------
NS = {"tensor": "nntile::tensor::", "tile": "nntile::tile::"}
SPECIAL = {           # names whose C++ function has another name
    ("Tensor", "invalidate_submit"): {"wont_use", "invalidate_submit"},
    ("Tensor", "from_array"): {"tensor_from_array"},
    ("Tensor", "to_array"): {"tensor_to_array"},
    ("Tile", "from_array"): {"tile_from_array"},
    ("Tile", "to_array"): {"tile_to_array"},
}
FIELD = {"distribution": "tile_distr"}
WORKER = {"restrict_cuda": "STARPU_CUDA", "restrict_cpu": "STARPU_CPU"}


def walk(n):
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            st.extend(v for v in x.values() if isinstance(v, (dict, list)))
        elif isinstance(x, list):
            st.extend(v for v in x if isinstance(v, (dict, list)))


def tensor_of(t):
    m = re.match(r"^nntile::(tensor|tile)::(Tensor|Tile)<(.*)>$", t or "")
    return (m.group(2), m.group(3)) if m else (None, None)


def c21(R):
    c = ctx()
    b = c.b
    R.rule("function", "a binding OP[_async]_T of the tensor module is bound "
           "to nntile::tensor::OP[_async] instantiated for T, and its tensor "
           "parameters have that element type")
    R.rule("class", "Tensor_T and Tile_T are bound to the C++ class for T; "
           "methods and fields to the member of the same name")
    R.rule("runtime", "the runtime functions do what they are named for")
    R.rule("constant", "trans and notrans are the enumerators of that name")
    R.rule("unique", "no overload is registered twice (the first would hide "
           "the second)")
    for path, ds in sorted(b.functions.items()):
        seen = {}
        for d in ds:
            with R.guard(str(path)):
                loc = "%s:%s" % (UNIT, d["line"])
                R.count("functions")
                k = tuple(d["params"] or ())
                ok = k not in seen or d["params"] is None
                R.ob(ok)
                if not ok:
                    R.violation("twice:" + path, "%s is registered twice for the "
                                "same parameters" % path, loc)
                seen[k] = d
                top = path.split(".")[0]
                if top in NS and d["q"] is not None:
                    c21_function(R, path, d, top, loc)
    for path, k in sorted(b.classes.items()):
        with R.guard(str(path)):
            R.count("classes")
            c21_class(R, path, k)
    for n, e in (("trans", "Trans"), ("notrans", "NoTrans")):
        v = b.attrs.get(n)
        ok = v == [e]
        R.ob(ok)
        if not ok:
            R.violation("const:" + n, "constant %s is %s" % (n, v), UNIT)
    c21_starpu(R, b)
    R.require("functions", 250)
    R.require("classes", 8)
    R.sample("; ".join("%s = %s" % (d["path"], d.get("display"))
                       for d in b.defs[60:62]))
    return ("static-analysis", "Every def of the module definition, with the "
            "C++ function the compiler resolved for it.")


def c21_function(R, path, d, top, loc):
    op, asyn, t = name_of(d)
    ta = d["targs"]
    q = d["q"]
    want = NS[top] + op + ("_async" if asyn else "")
    if t is None:
        # overloads for every class, or an operation of fixed types
        ok = q in (d["name"], want) or base(q) == d["name"]
        R.ob(ok)
        if not ok:
            R.violation("name:" + path, "%s is bound to %s"
                        % (path, d.get("display")), loc)
        m = re.match(r"^(fp\d+)_to_(fp\d+)$", op)
        if m and d["params"]:
            ts = [tensor_of(p)[1] for p in d["params"]]
            ok = ts == [DT[m.group(1)], DT[m.group(2)]]
            R.ob(ok)
            if not ok:
                R.violation("types:" + path, "%s takes %s" % (
                    path, d.get("display")), loc)
        return
    ok = q == want
    R.ob(ok)
    if not ok:
        R.violation("name:" + path, "%s is bound to %s" % (
            path, d.get("display")), loc)
    ok = bool(ta) and ta[0] == DT[t] or not ta and any(
        tensor_of(p)[1] == DT[t] for p in d["params"] or ())
    R.ob(ok)
    if not ok:
        R.violation("type:" + path, "%s is bound to %s" % (
            path, d.get("display")), loc)
        return
    types = {tensor_of(p)[1] for p in d["params"] or ()} - {None}
    ok = types <= {DT[t], "long", "bool"} and DT[t] in types
    R.ob(ok)
    if not ok:
        R.violation("params:" + path, "%s takes %s" % (
            path, d.get("display")), loc)


def c21_class(R, path, k):
    n = path.split(".")[-1]
    loc = "%s:%s" % (UNIT, k["line"])
    m = re.match(r"^(Tensor|Tile)_(\w+)$", n)
    kind = None
    if m:
        kind, t = tensor_of(k["ctype"])
        ok = kind == m.group(1) and t == DT.get(m.group(2))
        R.ob(ok)
        if not ok:
            R.violation("class:" + path, "%s is bound to %s"
                        % (path, k["ctype"]), loc)
    else:
        ok = base(k["ctype"]) == n
        R.ob(ok)
        if not ok:
            R.violation("class:" + path, "%s is bound to %s"
                        % (path, k["ctype"]), loc)
    for name, q in sorted(k["methods"].items()):
        with R.guard(name):
            if q.startswith("lambda:"):
                continue
            d = k["raw"][name]
            R.count("methods")
            ok = base(q) in SPECIAL.get((kind, name), {name})
            R.ob(ok)
            if not ok:
                R.violation("method:%s.%s" % (path, name), "%s.%s is bound to %s"
                            % (path, name, q), "%s:%s" % (UNIT, d["line"]))
            if m and d["targs"]:
                ok = d["targs"][0] == DT.get(m.group(2))
                R.ob(ok)
                if not ok:
                    R.violation("method:%s.%s" % (path, name), "%s.%s is bound "
                                "to %s" % (path, name, d.get("display")),
                                "%s:%s" % (UNIT, d["line"]))
    for name, v in sorted(k["fields"].items()):
        with R.guard(name):
            R.count("fields")
            ok = isinstance(v, tuple) and v[0] == "field" and \
                v[1] == FIELD.get(name, name)
            R.ob(ok)
            if not ok:
                R.violation("field:%s.%s" % (path, name), "%s.%s is %s"
                            % (path, name, v), loc)


def c21_starpu(R, b):
    for path, ds in sorted(b.functions.items()):
        if not path.startswith("starpu."):
            continue
        n = path.split(".")[-1]
        for d in ds:
            with R.guard(str(path)):
                R.count("runtime functions")
                loc = "%s:%s" % (UNIT, d["line"])
                body = d["lambda"]["body"] if d["lambda"] else None
                q = d["fn"].q if d["fn"] else None
                calls = [(x.get("f"), x) for x in walk(body)
                         if x.get("k") == "call"] if body else []
                ns = [f for f, x in calls]
                ok = None
                if n == "init":
                    ok = q == "nntile::starpu::init" or \
                        "nntile::starpu::init" in ns
                elif n in ("pause", "resume"):
                    ok = q == "starpu_" + n or "starpu_" + n in ns
                elif n in WORKER:
                    tgt = [x for f, x in calls
                           if f == "nntile::starpu::restrict_where"]
                    ok = len(tgt) == 1 and where_mask(tgt[0]["a"][0]) == \
                        ctx().ws.constants(sorted(WORKER.values()))[WORKER[n]]
                elif n == "restrict_restore":
                    ok = q == "nntile::starpu::restore_where" or \
                        "nntile::starpu::restore_where" in ns
                elif n == "wait_for_all":
                    ok = waits(body) if body else q in (
                        "starpu_task_wait_for_all",
                        "nntile::starpu_mpi_wait_for_all")
                elif n in ("profiling_enable", "profiling_disable"):
                    w = "start" if n.endswith("enable") else "stop"
                    other = "stop" if w == "start" else "start"
                    ok = not any(other in (f or "") for f in ns)
                if ok is None:
                    continue
                R.ob(ok)
                if not ok:
                    R.violation("runtime:" + n, "starpu.%s does not do what it "
                                "is named for (%s)" % (n, q or ", ".join(
                                    str(f) for f in ns)), loc)


def where_mask(e):
    """Value of a constant integer expression."""
    k = e.get("k")
    if k == "int":
        return e["v"] if isinstance(e["v"], int) else int(e["v"])
    if k in ("cast", "paren"):
        a = e["a"]
        return where_mask(a[0] if isinstance(a, list) else a)
    if k == "bin":
        a, b = where_mask(e["a"]), where_mask(e["b"])
        if a is None or b is None:
            return None
        return {"<<": a << b if e["op"] == "<<" else 0, "|": a | b,
                "+": a + b, "&": a & b}.get(e["op"])
    return None


WAIT = {"starpu_task_wait_for_all", "starpu_task_wait_for_no_ready"}


def waits(body):
    """Every normal way out passes a point where no task is left."""
    return exits(body, False, None) is not False


def exits(s, done, counts):
    """True/False: tasks known finished after s; None: does not fall
    through.  A return before is a failure (False everywhere)."""
    if s is None:
        return done
    k = s.get("k")
    if k == "block":
        env = dict(counts or {})
        for x in s["b"]:
            done = exits(x, done, env)
            if done is None or done == "bad":
                return done
        return done
    if k == "decl":
        for d in s["d"]:
            if d.get("i") is not None and counts is not None and any(
                    x.get("f") == "starpu_task_nsubmitted"
                    for x in walk(d["i"])):
                counts[d["id"]] = True
        return done
    if k == "expr":
        if any(x.get("f") in WAIT for x in walk(s["e"])):
            return True
        return done
    if k == "if":
        e = s.get("c")
        z = zero_test(e, counts)
        t = exits(s.get("t"), done or z is True, counts)
        f = exits(s.get("e"), done or z is False, counts)
        rs = [x for x in (t, f) if x is not None]
        return None if not rs else all(x is True for x in rs) \
            if not any(x == "bad" for x in rs) else "bad"
    if k in ("while", "do", "for"):
        out = []
        c = s.get("c")
        collect_breaks(s.get("b"), done, dict(counts or {}), out)
        inf = c is None or (c.get("k") in ("bool", "int") and c.get("v"))
        if not inf:
            z = zero_test(c, counts)
            out.append(done or z is False)
        return all(out) if out else None
    if k == "ret":
        return None if done else "bad"
    if k in ("throw", "break", "cont"):
        return None
    return done


def collect_breaks(s, done, counts, out):
    if s is None:
        return done
    k = s.get("k")
    if k == "block":
        for x in s["b"]:
            done = collect_breaks(x, done, counts, out)
            if done is None:
                return None
        return done
    if k == "break":
        out.append(bool(done))
        return None
    if k == "ret":
        out.append(bool(done))
        return None
    if k == "if":
        z = zero_test(s.get("c"), counts)
        t = collect_breaks(s.get("t"), done or z is True, counts, out)
        f = collect_breaks(s.get("e"), done or z is False, counts, out)
        rs = [x for x in (t, f) if x is not None]
        return None if not rs else all(rs)
    return exits(s, done, counts)


def zero_test(e, counts):
    """True if the condition holds only with no task left, False if it fails
    only then."""
    if e is None:
        return None
    k = e.get("k")
    if k in ("cast", "paren"):
        a = e["a"]
        return zero_test(a[0] if isinstance(a, list) else a, counts)
    if k == "un" and e.get("op") == "!":
        z = zero_test(e["a"], counts)
        if z is None and is_count(e["a"], counts):
            return True
        return None if z is None else not z
    if is_count(e, counts):
        return False
    if k == "bin":
        if e["op"] == "&&":
            return True if True in (zero_test(e["a"], counts),
                                    zero_test(e["b"], counts)) else None
        if e["op"] == "||":
            return False if False in (zero_test(e["a"], counts),
                                      zero_test(e["b"], counts)) else None
        for x, y in ((e["a"], e["b"]), (e["b"], e["a"])):
            if is_count(x, counts) and where_mask(y) == 0:
                return {"==": True, "!=": False,
                        "<=": True if x is e["a"] else None,
                        ">": False if x is e["a"] else None,
                        ">=": None if x is e["a"] else True,
                        "<": None if x is e["a"] else False}.get(e["op"])
    return None


def is_count(e, counts):
    while isinstance(e, dict) and e.get("k") in ("cast", "paren"):
        e = e["a"][0] if isinstance(e["a"], list) else e["a"]
    if not isinstance(e, dict):
        return False
    if e.get("k") == "var":
        return bool(counts and counts.get(e.get("id")))
    return e.get("k") == "call" and e.get("f") == "starpu_task_nsubmitted"


CHECKS = {"C20": c20, "C21": c21}
