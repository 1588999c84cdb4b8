"""Checks of the layers, losses, optimizers, models and the pipeline."""
from . import model as M
from . import talg
from .chk_py import ctx
from .refs import Fold, Missing
from .model import Builder, Trace, all_moments, attr, is_moments, nm
from .pyinterp import (Arr, GiveUp, Inst, Opaque, PyRaise, Sym, Tag, Tensor,
                       paths)
from .talg import E, Unsupported

LY = "nntile.layer."
NAMES = ("NameError", "AttributeError", "ImportError", "UnboundLocalError",
         "TypeError", "ModuleNotFoundError", "KeyError")


class Case:
    def __init__(self, name, make, dtype="fp32", rejects=False, **kw):
        self.name, self.make, self.dtype = name, make, dtype
        self.opt = kw


class Out:
    """What the analysis of one path of a case found."""

    def __init__(self, case):
        self.case = case
        self.found = []         # (rule, key, message, where)
        self.good = {}          # rule -> obligations that hold
        self.und = []
        self.raised = None
        self.obj = None
        self.P = None
        self.B = None
        self.ret_tag = None
        self.ops = 0

    def report(self, rule, key, msg, where, ok=False):
        if ok:
            self.good[rule or "value"] = self.good.get(rule or "value", 0) + 1
            return
        if rule is not None:
            self.found.append((rule, key, msg, where))


# -- layers --------------------------------------------------------------------
def D(B, sh, names=None):
    return sh


def layer_cases(thorough):
    out = []

    def add(name, f, **kw):
        out.append(Case(name, f, **kw))

    # element-wise activations
    for fn in ("relu", "gelu", "gelutanh"):
        add("Act(%s)" % fn, lambda B, fn=fn: (
            B.make(LY + "act", "Act", B.moments("x", [16, 64], [8, 16]), fn,
                   B.tag)), fref=lambda F, f=fn: F.act(F.x("x"), f))
    add("Act(relu) without input gradient", lambda B: (
        B.make(LY + "act", "Act", B.moments("x", [16, 64], [8, 16],
                                            grad=False, required=False),
               "relu", B.tag)), fref=lambda F: F.act(F.x("x"), "relu"))
    add("Act(gelutanh), input gradient not required", lambda B: (
        B.make(LY + "act", "Act", B.moments("x", [16, 64], [8, 16],
                                            required=False),
               "gelutanh", B.tag)),
        fref=lambda F: F.act(F.x("x"), "gelutanh"))
    add("Add", lambda B: add_case(B),
        fref=lambda F: F.plus(F.x("x"), F.x("y")))
    for axis in (0, 1, 2):
        for redux in (False, True):
            add("AddSlice(axis %d, redux %d)" % (axis, redux),
                lambda B, a=axis, r=redux: addslice_case(B, a, r),
                fref=lambda F, a=axis: F.add_slice(F.x("x"), F.x("y"), a))
    for axis in (0, 1, 2):
        for redux in (False, True):
            add("LayerNorm(axis %d, redux %d)" % (axis, redux),
                lambda B, a=axis, r=redux: B.make(
                    LY + "layer_norm", "LayerNorm", B.moments(
                        "x", [16, 64, 256], [8, 16, 64]), a, 2.0 ** -10,
                    B.tag, r), fref=lambda F, a=axis: F.norm(
                        F.x("x"), a, 2.0 ** -10))
    add("LayerNorm of a vector", lambda B: B.make(
        LY + "layer_norm", "LayerNorm", B.moments("x", [16], [4]), 0,
        2.0 ** -10, B.tag), fref=lambda F: F.norm(F.x("x"), 0, 2.0 ** -10))
    for side in "LR":
        for tr in (False, True):
            for nd in (1, 2):
                for bias in (False, True):
                    for mode in ("", "tf32", "fp16", "redux"):
                        if mode and not (bias or mode == "fp16"):
                            continue
                        if nd == 2 and mode == "redux" and not thorough:
                            continue
                        add("Linear(side %s, trans %d, %d features%s%s)" % (
                            side, tr, nd, ", bias" if bias else "",
                            ", " + mode if mode else ""),
                            lambda B, s=side, t=tr, n=nd, b=bias, m=mode:
                            linear_case(B, s, t, n, b, m),
                            fref=lambda F, s=side, t=tr, n=nd, b=bias:
                            F.linear(F.x("x"), s, t, n, b))
    for side in "LR":
        add("Linear(side %s) without input gradient" % side,
            lambda B, s=side: linear_case(B, s, False, 1, True, "", False),
            fref=lambda F, s=side: F.linear(F.x("x"), s))
        add("Linear(side %s), input gradient not required" % side,
            lambda B, s=side: linear_case(B, s, False, 1, True, "", True,
                                          required=False),
            fref=lambda F, s=side: F.linear(F.x("x"), s))
        add("Linear(side %s), two output features" % side,
            lambda B, s=side: linear_case(B, s, False, 1, False, "",
                                          out=([256, 1024], [64, 512])),
            fref=lambda F, s=side: F.linear(F.x("x"), s, bias=False))
    for axis in (0, 1, 2):
        add("Embedding(axis %d)" % axis, lambda B, a=axis: emb_case(B, a),
            fref=lambda F, a=axis: F.emb(F.user("x"), a))
    add("Linear, blocking passes", lambda B: linear_case(
        B, "R", False, 1, True, ""), blocking=True,
        fref=lambda F: F.linear(F.x("x"), "R"))
    add("Act, blocking passes", lambda B: B.make(LY + "act", "Act", B.moments(
        "x", [16, 64], [8, 16]), "relu", B.tag), blocking=True,
        fref=lambda F: F.act(F.x("x"), "relu"))
    add("GAP", lambda B: B.make(LY + "mixer", "GAP", B.moments(
        "x", [16, 64, 256], [8, 16, 64]), B.tag),
        fref=lambda F: F.gap(F.x("x")))
    for side in "LR":
        add("MixerMlp(side %s)" % side, lambda B, s=side: B.make(
            LY + "mixer", "MixerMlp", B.moments(
                "x", [4, 16, 64], [4, 8, 64]), s, B.tag),
            fref=lambda F, s=side: F.mixer_mlp(F.x("x"), s))
    add("Mixer", lambda B: B.make(LY + "mixer", "Mixer", B.moments(
        "x", [4, 16, 64], [4, 8, 64]), B.tag),
        fref=lambda F: F.mixer(F.x("x")))
    add("FP32_to_FP16", lambda B: B.make(
        LY + "fp32_to_fp16", "FP32_to_FP16",
        B.moments("x", [16, 64], [8, 16]), B.tag),
        fref=lambda F: F.fold(F.x("x"), "conversion"))
    add("FP16_to_FP32", lambda B: B.make(
        LY + "fp16_to_fp32", "FP16_to_FP32",
        B.moments("x", [16, 64], [8, 16], "fp16"), B.tag),
        fref=lambda F: F.fold(F.x("x"), "conversion"))
    for cls, mod in (("Attention", "attention"),
                     ("FlashAttention", "flash_attention")):
        for bias in (False, True):
            for mask in (False, True):
                if cls == "FlashAttention" and not mask:
                    continue
                for mode in ("", "redux", "tf32", "self", "sizes", "norq",
                             "norqkv"):
                    if mode in ("redux", "tf32", "norq", "norqkv") and not (
                            bias and mask):
                        continue
                    add("%s(%s%s%s)" % (cls, "bias " if bias else "",
                                        "mask " if mask else "", mode),
                        lambda B, c=cls, m=mod, b=bias, k=mask, o=mode:
                        att_case(B, c, m, b, k, o),
                        fref=lambda F, c=cls, b=bias, k=mask, o=mode:
                        F.att(F.x("x_q"), F.x("x_k"), F.x("x_v"),
                              F.x("mask") if k else None, c, b)
                        if o != "self" else
                        F.att(F.x("x"), F.x("x"), F.x("x"),
                              F.x("mask") if k else None, c, b))
    out += [Case(c.name + " fp64", c.make, "fp64", **c.opt) for c in out
            if not any(x in c.name for x in ("FP16", "fp16", "tf32"))
            and (thorough or "redux" not in c.name)]
    return out


def add_case(B):
    x = B.moments("x", [16, 64], [8, 16])
    y = B.moments("y", [16, 64], [8, 16])
    return B.make(LY + "add", "Add", x, y, B.tag)


def addslice_case(B, axis, redux):
    sh, ti = [16, 64, 256], [8, 16, 64]
    x = B.moments("x", sh, ti)
    y = B.moments("y", sh[:axis] + sh[axis + 1:], ti[:axis] + ti[axis + 1:])
    return B.make(LY + "add_slice", "AddSlice", x, y, axis, B.tag, redux)


def linear_case(B, side, tr, nd, bias, mode, grad=True, out=None,
                required=True):
    x = B.moments("x", [4, 16, 64], [2, 8, 16], grad=grad,
                  required=grad and required)
    f = B.fn("nntile.tensor", "trans" if tr else "notrans")
    sh, ti = out or ([256], [64])
    return B.make(LY + "linear", "Linear", x, side, f, nd, sh, ti, B.tag,
                  bias, fp32_fast_tf32=mode == "tf32",
                  fp32_convert_fp16=mode == "fp16", redux=mode == "redux")


def emb_case(B, axis):
    x = B.tensor("x", [16, 64], [8, 16], "int64")
    return B.make(LY + "embedding", "Embedding", x, B.cls(), axis, 1024, 256,
                  128, 64, B.tag)


def att_case(B, cls, mod, bias, mask, mode):
    ne, ns, nb, nh = 64, 16, 4, 16
    sh, ti = [ne, ns, nb], [16, 8, 2]
    if mode == "self":
        q = k = v = B.moments("x", sh, ti)
    else:
        ex = {"k": 4, "v": 1} if mode == "sizes" else {}
        off = mode[3:] if mode.startswith("nor") else ""
        q, k, v = [B.moments(
            "x_" + s, [ne * ex.get(s, 1)] + sh[1:], ti, required=s not in off)
            for s in "qkv"]
    m = None
    if mask:
        m = B.tensor("mask", [ns, ns], [8, 8], "bool")
    return B.make(LY + mod, cls, q, k, v, nh, 8, B.tag, bias, m,
                  mode == "redux", **({"fp32_fast_tf32": True}
                                      if mode == "tf32" else {}))


def has(P, o, name):
    try:
        P.getattr(o, name)
        return True
    except PyRaise:
        return False


def layer_body(case, rec):
    def body(P):
        B = Builder(P, case.dtype)
        rec["B"] = B
        r = case.make(B)
        obj, tag = r if isinstance(r, tuple) and len(r) == 2 else (r, None)
        rec["obj"], rec["tag"] = obj, tag
        M.name_tensors(obj, B.user)
        B.mark("built")
        if has(P, obj, "clear_gradients"):
            B.call(obj, "clear_gradients")
        B.mark("cleared")
        form = "" if case.opt.get("blocking") else "_async"
        B.call(obj, "forward" + form)
        B.mark("forward")
        B.call(obj, "backward" + form)
        B.mark("backward")
        B.call(obj, "unregister")
        B.mark("end")
        return obj
    return body


class LayerTrace(Trace):
    def __init__(self, P, obj, B, rep, und, phase_targets):
        super().__init__(P, rep, und)
        self.obj, self.B = obj, B
        self.phase = phase_targets
        self.case = None
        self.keep = []
        self.params = []

    def at_mark(self, e):
        if e.name == "built":
            self.start()
        elif e.name == "cleared":
            self.old_grads()
        elif e.name == "forward":
            self.check_unchanged(self.keep, "forward pass")
            self.check_function()
            self.seeds()
        elif e.name == "backward":
            self.check_sources("after the backward pass")
            self.check_unchanged(self.keep, "backward pass")

    def start(self):
        ms = all_moments(self.obj)
        self.know(ms)
        user = {t.n for t in self.B.user}
        for t in self.phase.values():
            if t.n not in user:
                self.S.val.pop(t.n, None)
        for m in ms:
            v, g = attr(m, "value"), attr(m, "grad")
            if not isinstance(v, Tensor) or v.n in self.phase:
                continue
            if v.n in user or isinstance(g, Tensor):
                self.source(v, nm(v))
                self.keep.append((v, self.S.val[v.n]))
                if v.n not in user:
                    self.params.append(m)
        for t in self.B.user:
            if t.n not in self.version and t.n not in self.grads:
                kind = {"Tensor_bool": "mask"}.get(t.ncls.name, "leaf")
                self.source(t, nm(t), kind)
                self.keep.append((t, self.S.val[t.n]))

    def old_grads(self):
        for n, v in self.src.items():
            m = self.moments.get(v.n)
            g = attr(m, "grad") if m is not None else None
            if isinstance(g, Tensor):
                self.S.leaf(g, "old " + nm(g))
                self.init[g.n] = self.S.val[g.n]

    def check_function(self):
        ref = self.case.opt.get("fref")
        if ref is None:
            return
        out = [m for m in self.outputs(self.obj)
               if isinstance(attr(m, "value"), Tensor)]
        if not out:
            return
        v = attr(out[0], "value")
        got = self.S.raw(v)
        if not isinstance(got, E):
            return
        name = self.case.name.split("(")[0].split(" ")[0]
        F = Fold(self, self.obj)
        try:
            want = ref(F)
        except Missing as x:
            self.report("function", "layer:%s" % name, "%s: no layer for the "
                        "%s is left" % (name, x), None)
            return
        except Unsupported as x:
            if not F.lost:
                self.undecided("reference of %s: %s" % (self.case.name, x))
                return
            want = None
        bad = want is None or talg.difference(got, want) \
            if want is None or want.shape == got.shape else True
        self.report(None, None, None, None, ok=not bad)
        if not bad:
            return
        w = self.where_of(v)
        if F.lost:
            self.report("function", "fun:%s:%s" % (name, F.lost[0]),
                        "%s: nothing computes the %s of its function" % (
                            nm(v), F.lost[0]), w)
        elif want.shape != got.shape:
            self.report("function", "shape:%s" % name, "%s has extents %s "
                        "instead of %s" % (nm(v), got.shape, want.shape), w)
        else:
            m, x, y = bad[0]
            self.report("function", "fun:%s" % name, "%s is not the function "
                        "of its inputs: the term %s has coefficient %.6g "
                        "instead of %.6g" % (nm(v), talg.show_mono(m), x, y),
                        w)

    def seeds(self):
        for m in self.outputs(self.obj):
            v, g = attr(m, "value"), attr(m, "grad")
            if not isinstance(v, Tensor) or not isinstance(g, Tensor):
                continue
            x = self.S.raw(v)
            if not isinstance(x, E):
                self.undecided("value of %s" % nm(v))
                continue
            if v.n not in self.version:
                # nothing computed the output
                self.report("gradient", "out:%s" % nm(v), "no operation "
                            "computes %s" % nm(v), None)
                continue
            a = self.version[v.n]
            dy = talg.leaf("seed of %s#%d" % (nm(v), a.n), a.nd)
            dy.name = "d" + nm(v)
            L = E([])
            fr = [talg.fresh() for _ in range(a.nd)]
            L.add([(a.n, 1, tuple(fr)), (dy.n, 1, tuple(fr))], 1.0)
            self.seed.append((a, L))
            self.S.val[g.n] = talg.of_atom(dy, g.traits.shape)


def run_case(c, case, body, trace):
    """All paths of a case: [Out]."""
    outs = []
    recs = []

    def wrap(P):
        rec = {}
        recs.append(rec)
        rec["P"] = P
        return body(case, rec)(P)
    try:
        res = paths(c.pkg, wrap, 64)
    except GiveUp as e:
        o = Out(case)
        o.und.append("%s: %s" % (case.name, e))
        return [o]
    for (P, r), rec in zip(res, recs):
        o = Out(case)
        outs.append(o)
        o.P, o.B, o.obj = P, rec.get("B"), rec.get("obj")
        o.ret_tag = rec.get("tag")
        o.rec = rec
        if isinstance(r, PyRaise):
            o.raised = r
            if "obj" not in rec:
                continue
        talg.reset()
        try:
            t = trace(o, rec)
            o.trace = t
            o.ops = t.ops
        except Unsupported as e:
            o.und.append("%s: %s" % (case.name, e))
    return outs


def layer_trace(o, rec):
    P, B, obj = rec["P"], rec["B"], rec["obj"]
    ev = P.events
    i0 = next(i for i, e in enumerate(ev) if e.kind == "mark"
              and e.name == "built") if any(
        e.kind == "mark" and e.name == "built" for e in ev) else len(ev)
    tr = LayerTrace(P, obj, B, o.report, o.und.append, {})
    tr.case = o.case
    tr.phase = {t.n: t for e in ev[i0:] if e.kind == "core"
                for t in tr.targets(e)}
    tr.run(ev)
    return tr


# -- losses --------------------------------------------------------------------
def loss_cases(thorough):
    out = []
    for redux in (False, True):
        for req in (True, False):
            for sc in (1.0, 0.25):
                out.append(Case("CrossEntropy(redux %d, scale %g%s)" % (
                    redux, sc, "" if req else ", no gradient"),
                    lambda B, r=redux, q=req, s=sc: B.make(
                        "nntile.loss.crossentropy", "CrossEntropy",
                        B.moments("x", [16, 64, 256], [16, 16, 64],
                                  required=q), B.tag, r, s),
                    ref=lambda S, o, s=sc: xent(S, o, s)))
    out.append(Case("CrossEntropy of a matrix", lambda B: B.make(
        "nntile.loss.crossentropy", "CrossEntropy", B.moments(
            "x", [16, 64], [16, 16]), B.tag),
        ref=lambda S, o: xent(S, o, 1.0)))
    for sh, ti in (([16, 64], [8, 16]), ([4, 16, 64], [2, 8, 32])):
        out.append(Case("Frob of %d dimensions" % len(sh), lambda B, a=sh,
                        b=ti: B.make("nntile.loss.frob", "Frob", B.moments(
                            "x", a, b), B.tag), ref=frob))
    out += [Case(c.name + " fp64", c.make, "fp64", **c.opt) for c in out]
    return out


def xent(S, o, scale):
    x = S.raw(attr(attr(o, "model_output"), "value"))
    y = attr(o, "y")
    from .tops import onehot
    n = x.nd
    l = talg.of_atom(talg.lse_atom(x, 0), x.shape[1:]).sum_over(
        list(range(n - 1)), [], {})
    h = talg.of_atom(onehot(S, y, n - 1), x.shape)
    return l.plus(x.times(h).sum_over(list(range(n)), [], {})
                  .scale(-1.0)).scale(scale)


def frob(S, o):
    x = S.raw(attr(attr(o, "x"), "value"))
    d = x.plus(S.raw(attr(o, "y")).scale(-1.0))
    return d.times(d).sum_over(list(range(d.nd)), [], {}).scale(0.5)


def loss_body(case, rec):
    def body(P):
        B = Builder(P, case.dtype)
        rec["B"] = B
        r = case.make(B)
        obj, tag = r
        rec["obj"], rec["tag"] = obj, tag
        M.name_tensors(obj, B.user)
        B.mark("built")
        B.mark("calculate")
        B.call(obj, "calc_async")
        B.mark("calc")
        B.call(obj, "unregister")
        B.mark("end")
        return obj
    return body


class LossTrace(Trace):
    def __init__(self, P, obj, B, rep, und, phase, ref):
        super().__init__(P, rep, und)
        self.obj, self.B, self.phase, self.ref = obj, B, phase, ref

    def at_mark(self, e):
        if e.name == "built":
            user = {t.n for t in self.B.user}
            for t in self.phase.values():
                self.S.val.pop(t.n, None)
            for m in all_moments(self.obj):
                v, g = attr(m, "value"), attr(m, "grad")
                self.x, self.g, self.m = v, g, m
                self.a = self.leaf(v, nm(v))
                self.S.leaf(g, "old " + nm(g))
                self.g0 = self.S.val[g.n]
            y = attr(self.obj, "y")
            self.leaf(y, nm(y))
            self.y0 = self.S.val[y.n]
            self.val = attr(self.obj, "val")
            self.S.leaf(self.val, "old val")
            self.v0 = self.S.val[self.val.n]
            self.xv = self.S.val[self.x.n]
        elif e.name == "calc":
            self.check()

    def check(self):
        S = self.S
        self.check_unchanged([(self.x, self.xv), (attr(self.obj, "y"),
                                                  self.y0)], "loss")
        L = self.ref(S, self.obj)
        v = S.raw(self.val)
        if isinstance(v, E):
            ok = not talg.difference(v, L) or not talg.difference(
                v, L.plus(self.v0))
            self.report(None, None, None, None, ok=ok)
            if not ok:
                d = talg.difference(v, L.plus(self.v0))[0]
                self.report("value", "value:%s" % self.obj.cls.name,
                            "the value is not the one of the loss: the term "
                            "%s has coefficient %.6g instead of %.6g" % (
                                talg.show_mono(d[0]), d[1], d[2]),
                            self.where_of(self.val))
        g = S.raw(self.g)
        if isinstance(g, E) and attr(self.m, "grad_required"):
            w = talg.derivative(L, self.a, self.x.traits.shape)
            if talg.difference(g, w) and not talg.difference(
                    g, w.plus(self.g0)):
                w = w.plus(self.g0)
            self.compare(self.g, self.x, g, w, None, "after the loss")


def loss_trace(o, rec):
    P, B, obj = rec["P"], rec["B"], rec["obj"]
    tr = LossTrace(P, obj, B, o.report, o.und.append,
                   phase_targets(P.events, "built"), o.case.opt["ref"])
    tr.run(P.events)
    return tr


def phase_targets(ev, mark):
    out = {}
    on = False
    for e in ev:
        if e.kind == "mark" and e.name == mark:
            on = True
        if on and e.kind == "core":
            for t in Trace.targets(None, e):
                out[t.n] = t
    return out


# -- optimizers ----------------------------------------------------------------
HYP = dict(lr=2.0 ** -4, beta1=0.75, beta2=0.875, eps=2.0 ** -10)
OTHER = dict(lr=2.0 ** -6, beta1=0.5, beta2=0.25, eps=2.0 ** -3)


def adam_ref(h, decoupled, amsgrad):
    """Textbook update; the state is (m, root of v, root of largest v)."""
    def step(t, p, g, st):
        b1, b2, wd = h["beta1"], h["beta2"], h.get("weight_decay", 0.0)
        lr = h["lr"]
        if h.get("full_lr_iter") and h.get("start_lr") is not None and \
                t < h["full_lr_iter"]:
            lr = h["start_lr"] + (lr - h["start_lr"]) / (
                h["full_lr_iter"] - 1) * (t - 1)
        if wd and decoupled:
            p = p.scale(1 - lr * wd)
        elif wd:
            g = g.plus(p.scale(wd))
        z = E(p.shape)
        m, v, x = st or (z, z, z)
        m = m.scale(b1).plus(g.scale(1 - b1))
        v = talg.power(v.times(v).scale(b2).plus(g.times(g).scale(1 - b2)),
                       0.5)
        d = v
        if amsgrad:
            d = x = talg.maximum(v, x)
        d = d.scale((1 - b2 ** t) ** -0.5).plus(talg.const(p.shape,
                                                           h["eps"]))
        p = p.plus(m.times(talg.power(d, -1)).scale(-lr / (1 - b1 ** t)))
        return p, (m, v, x)
    return step


def sgd_ref(h):
    def step(t, p, g, st):
        mom = h.get("momentum", 0.0)
        g = g.plus(p.scale(h.get("weight_decay", 0.0)))
        if mom:
            b = g if st is None else st.scale(mom).plus(
                g.scale(1 - h.get("damping", 0.0)))
            st = b
            g = g.plus(b.scale(mom)) if h.get("nesterov") else b
        return p.plus(g.scale(-h["lr"])), st
    return step


def opt_cases(thorough):
    out = []
    for wd in (0.0, 2.0 ** -5):
        for ams in (False, True):
            h = dict(HYP, weight_decay=wd)
            out.append(Case("Adam(weight decay %g%s)" % (
                wd, ", amsgrad" if ams else ""), None,
                mod="adam", cls="Adam", kw=dict(h, amsgrad=ams),
                other=dict(OTHER, weight_decay=2.0 ** -2, amsgrad=ams),
                ref=adam_ref(h, False, ams)))
        for cls, mod in (("FusedAdam", "adam"), ("FusedAdamW", "adamw")):
            for full in (None, 3, 5):
                h = dict(HYP, weight_decay=wd)
                if full:
                    h.update(start_lr=2.0 ** -9, full_lr_iter=full)
                out.append(Case("%s(weight decay %g%s)" % (
                    cls, wd, ", warm-up of %d" % full if full else ""), None,
                    mod=mod, cls=cls, kw=h,
                    other=dict(OTHER, weight_decay=2.0 ** -2),
                    ref=adam_ref(h, cls == "FusedAdamW", False)))
        for mom, nes in ((0.0, False), (0.5, False), (0.5, True)):
            for damp in (0.0, 0.25):
                h = dict(lr=2.0 ** -4, momentum=mom, nesterov=nes,
                         weight_decay=wd, damping=damp)
                out.append(Case("SGD(weight decay %g, momentum %g%s, damping "
                                "%g)" % (wd, mom, ", Nesterov" if nes else "",
                                         damp), None, mod="sgd", cls="SGD",
                                kw=h, other=dict(lr=2.0 ** -6),
                                ref=sgd_ref(h)))
    out.append(Case("Empty", None, mod="empty", cls="Empty", kw={}, other={},
                    ref=lambda t, p, g, st: (p, st)))
    return out


def opt_params(B, o=""):
    return [B.moments("p%d%s" % (i, o), s, t) for i, (s, t) in enumerate(
        (([16, 64], [8, 16]), ([256], [64]), ([4, 4], [2, 4])))]


def opt_body(case, rec):
    def body(P):
        B = Builder(P, case.dtype)
        rec["B"] = B
        c = case.opt
        ps = opt_params(B)
        rec["ps"] = ps
        args = [ps]
        kw = dict(c["kw"])
        if "lr" in kw:
            args.append(kw.pop("lr"))
        args.append(B.tag)
        mod = "nntile.optimizer." + c["mod"]
        o = B.new(mod, c["cls"], *args, **kw)
        rec["obj"], rec["tag"] = o, P.getattr(o, "next_tag")
        if has(P, o, "get_next_tag"):
            rec["tag2"] = B.call(o, "get_next_tag")
        M.name_tensors(o, B.user)
        rec["own"] = [t for t in P.tensors if t not in B.user]
        B.mark("built")
        for i in range(case.opt.get("steps", 4)):
            B.mark("before")
            B.call(o, "step")
            B.mark("after")
            if case.opt.get("save") is not None and i == 1:
                B.call(o, "save_state", "state", *case.opt["save"])
                kw = dict(c["other"])
                args = [ps]
                if "lr" in kw:
                    args.append(kw.pop("lr"))
                args.append(rec["tag"])
                o2 = B.new(mod, c["cls"], *args, **kw)
                B.call(o, "unregister")
                rec["obj2"] = o2
                M.name_tensors(o2, B.user + rec["own"])
                if c.get("used"):
                    B.call(o2, "step")
                B.call(o2, "load_state", "state")
                B.mark("loaded")
                o = o2
        B.call(o, "unregister")
        B.mark("end")
        return o
    return body


class OptTrace(Trace):
    def __init__(self, P, obj, rec, rep, und, ref):
        super().__init__(P, rep, und, cut=False)
        self.obj, self.rec, self.ref = obj, rec, ref
        self.t = 0
        self.st = {}
        self.arr = {}
        self.deps, self.names = [], {}

    def at_mark(self, e):
        if e.name == "built":
            for t in self.rec["own"]:
                pass
        elif e.name == "before":
            self.t += 1
            self.pat, self.gat = {}, {}
            for m in self.rec["ps"]:
                v, g = attr(m, "value"), attr(m, "grad")
                self.pat[v.n] = self.leaf(v, nm(v)).n
                self.gat[v.n] = self.leaf(g, "gradient of %s" % nm(v)).n
                self.names[self.pat[v.n]] = nm(v)
                self.names[self.gat[v.n]] = "gradient of " + nm(v)
            self.want = {}
            for m in self.rec["ps"]:
                v, g = attr(m, "value"), attr(m, "grad")
                try:
                    p, st = self.ref(self.t, self.S.val[v.n],
                                     self.S.val[g.n], self.st.get(v.n))
                except Unsupported as x:
                    self.undecided("reference update: %s" % x)
                    continue
                self.st[v.n] = st
                self.want[v.n] = p
        elif e.name == "after":
            for m in self.rec["ps"]:
                v = attr(m, "value")
                got = self.S.raw(v)
                if isinstance(got, E):
                    self.deps.append((self.t, v, got.atoms(), self.gat[v.n], {
                        a for n, a in list(self.gat.items())
                        + list(self.pat.items()) if n != v.n}))
                if v.n not in self.want or not isinstance(got, E):
                    continue
                bad = talg.difference(got, self.want[v.n])
                self.report(None, None, None, None, ok=not bad)
                if not bad:
                    continue
                gb = self.bad_garbage(got)
                w = self.where_of(v) or self.writers.get(
                    v.n) and self.writers[v.n].where
                if gb:
                    self.report("update", "old:%s" % self.obj.cls.name,
                                "step %d: the new %s depends on %s, which "
                                "nothing has set" % (self.t, nm(v), ", ".join(
                                    sorted(gb))), w)
                else:
                    a, x, y = bad[0]
                    self.report("update", "step:%s" % self.obj.cls.name,
                                "step %d: the new %s is not that of the "
                                "update rule: the term %s has coefficient "
                                "%.6g instead of %.6g" % (
                                    self.t, nm(v), talg.show_mono(a), x, y),
                                w)
                return

    def method(self, e):
        if e.name == "to_array":
            t = e.args[0]
            self.arr[t.n] = self.S.raw(t)
        elif e.name == "from_array":
            t = e.args[0]
            n = origin(getattr(e, "content", None))
            if n is None:
                raise Unsupported("origin of the data loaded to %s" % nm(t))
            v = self.arr.get(n)
            if v is None or isinstance(v, Unsupported):
                raise Unsupported("data of tensor %d" % n)
            if v.shape != t.traits.shape:
                self.report("restore", "shape:%s" % nm(t), "%s is loaded with "
                            "data of another shape" % nm(t), e.where)
                return
            self.S.val[t.n] = v
            return
        super().method(e)


def origin(c):
    """Tensor number an array's data comes from (copies and conversions)."""
    while True:
        if not isinstance(c, tuple) or not c:
            return None
        if c[0] == "tensor" and len(c) == 2:
            return c[1]
        nxt = [x for x in c[1:] if isinstance(x, tuple) and x
               and isinstance(x[0], str)]
        if c[0] in ("copy", "astype", "to", "cast", "float", "clone",
                    "tensor", "array", "from_numpy", "numpy") and \
                len(nxt) == 1:
            c = nxt[0]
            continue
        return None


def opt_trace(o, rec):
    P, obj = rec["P"], rec["obj"]
    tr = OptTrace(P, obj, rec, o.report, o.und.append, o.case.opt["ref"])
    tr.run(P.events)
    return tr


def save_cases(thorough):
    out = []
    for c in opt_cases(thorough):
        o = c.opt
        if o["cls"] in ("SGD", "Empty"):
            continue
        forms = [()] if o["cls"] == "Adam" else [
            (), ("fp32",), ("fp16",), ("bf16",)]
        for f in forms:
            out.append(Case("%s, saved and loaded%s" % (
                c.name, " as " + f[0] if f else ""), None,
                **dict(o, save=list(f))))
        # the optimizer loaded into has other parameters, and a history
        other = dict(o["other"])
        if o["cls"] != "Adam":
            other.update(start_lr=2.0 ** -3, full_lr_iter=7)
        out.append(Case("%s, loaded into another optimizer in use" % c.name,
                        None, **dict(o, save=[], other=other, used=True)))
    return out


# -- models --------------------------------------------------------------------
MD = "nntile.model."


def gpt_config(B, **kw):
    d = dict(vocab_size=1024, vocab_embed_dim_tile=16, embed_dim=64,
             embed_dim_tile=32, max_position_embeddings=256, inner_dim=256,
             inner_dim_tile=128, layer_norm_epsilon=2.0 ** -10,
             num_hidden_layers=1, n_head=16, n_head_tile=8,
             activation_function="gelutanh", flashattention=False,
             use_redux=False)
    d.update(kw)
    return B.new(MD + "gpt2", "GPT2Config", **d)


def gpt2(B, tf32=False, **kw):
    ids = B.moments("input_ids", [4, 16], [2, 8], "int64", False, False)
    pos = B.moments("positional_ids", [4], [2], "int64", False, False)
    return B.new(MD + "gpt2", "GPT2Model", ids, pos, gpt_config(B, **kw),
                 B.tag, tf32)


def gpt2mlp(B, tf32=False, **kw):
    x = B.moments("x", [64, 4, 16], [32, 2, 8])
    return B.new(MD + "gpt2", "GPT2MLP", x, gpt_config(B, **kw), B.tag, tf32)


def deep(B, cls, side, nd, n, nl, grad=True, **kw):
    sh, ti = [4, 16, 64], [2, 8, 32]
    x = B.moments("x", sh, ti, grad=grad, required=grad)
    mod = {"DeepLinear": "deep_linear", "DeepReLU": "deep_relu",
           "DeepReLU_mp": "deep_relu_mp"}[cls]
    args = [x, side, nd, 256, 128, nl]
    if cls != "DeepLinear":
        args.append(n)
    return B.new(MD + mod, cls, *args, B.tag, **kw)


def appended(B):
    m = gpt2mlp(B)
    a = B.P.getattr(m, "activations")
    l, tag = B.make(LY + "act", "Act", a[-1], "relu",
                    B.P.getattr(m, "next_tag"))
    B.call(m, "append", l)
    m.attrs["next_tag"] = tag
    return m


def model_cases(thorough):
    out = []

    def add(name, f, fref, **kw):
        out.append(Case(name, f, fref=fref, **kw))
    for side in "LR":
        for nl in (2, 3, 4) if thorough else (2, 3):
            # the last layer restores the features: one dimension
            add("DeepLinear(side %s, %d layers)" % (side, nl),
                lambda B, s=side, n=nl: deep(B, "DeepLinear", s, 1, 0, n),
                lambda F, s=side, n=nl: F.deep(F.x("x"), s, 1, n, False, True))
            for bias in (False, True):
                add("DeepReLU(side %s, %d layers, bias %d)" % (
                    side, nl, bias), lambda B, s=side, n=nl, b=bias:
                    deep(B, "DeepReLU", s, 1, 1024, n, bias=b),
                    lambda F, s=side, n=nl, b=bias: F.deep(
                        F.x("x"), s, 1, n, True, b))
            add("DeepReLU_mp(side %s, %d layers)" % (side, nl),
                lambda B, s=side, n=nl: deep(B, "DeepReLU_mp", s, 1, 1024, n),
                lambda F, s=side, n=nl: F.deep(F.x("x"), s, 1, n, True, True))
        add("DeepReLU(side %s, 2 features, tf32)" % side,
            lambda B, s=side: deep(B, "DeepReLU", s, 2, 1024, 3, bias=True,
                                   fp32_fast_tf32=True),
            lambda F, s=side: F.deep(F.x("x"), s, 2, 3, True, True))
        add("DeepReLU(side %s, no input gradient)" % side,
            lambda B, s=side: deep(B, "DeepReLU", s, 1, 1024, 3, grad=False),
            lambda F, s=side: F.deep(F.x("x"), s, 1, 3, True, False))
    for fn in ("relu", "gelu", "gelutanh"):
        add("GPT2MLP(%s)" % fn, lambda B, f=fn: gpt2mlp(
            B, activation_function=f), lambda F, f=fn: F.mlp(F.x("x"), f))
    mlp = lambda F: F.mlp(F.x("x"), "gelutanh")         # noqa: E731
    add("GPT2MLP, layer appended", appended,
        lambda F: F.act(F.mlp(F.x("x"), "gelutanh"), "relu"))
    add("GPT2MLP(redux)", lambda B: gpt2mlp(B, use_redux=True), mlp)
    add("GPT2MLP(tf32)", lambda B: gpt2mlp(B, tf32=True), mlp)

    def gpt(F, n, cls, fn="gelutanh"):
        return F.gpt2(F.user("input_ids"), F.user("positional_ids"),
                      F.mask(), n, cls, fn, 2.0 ** -10)
    for nl in (1, 2, 3) if thorough else (1, 2):
        for fl in (False, True):
            add("GPT2Model(%d layers%s)" % (nl, ", flash" if fl else ""),
                lambda B, n=nl, f=fl: gpt2(B, num_hidden_layers=n,
                                           flashattention=f),
                lambda F, n=nl, f=fl: gpt(F, n, "FlashAttention" if f else
                                          "Attention"))
    for fn in ("relu", "gelu"):
        add("GPT2Model(%s)" % fn, lambda B, f=fn: gpt2(
            B, activation_function=f), lambda F, f=fn: gpt(
                F, 1, "Attention", f))
    for fl in (False, True):
        c = "FlashAttention" if fl else "Attention"
        add("GPT2Model(redux%s)" % (", flash" if fl else ""),
            lambda B, f=fl: gpt2(B, use_redux=True, flashattention=f),
            lambda F, c=c: gpt(F, 1, c))
        add("GPT2Model(tf32%s)" % (", flash" if fl else ""),
            lambda B, f=fl: gpt2(B, tf32=True, flashattention=f),
            lambda F, c=c: gpt(F, 1, c))
    for nl in (1, 2, 3) if thorough else (1, 2):
        add("MlpMixer(%d layers)" % nl, lambda B, n=nl: B.new(
            MD + "mlp_mixer", "MlpMixer", B.moments(
                "x", [4, 16, 64], [4, 8, 32]), 256, n, 1024, B.tag),
            lambda F, n=nl: F.mlp_mixer(F.x("x"), n))
    return out


def model_body(case, rec):
    def body(P):
        B = Builder(P, case.dtype)
        rec["B"] = B
        obj = case.make(B)
        rec["obj"], rec["tag"] = obj, P.getattr(obj, "next_tag")
        M.name_tensors(obj, B.user)
        B.mark("built")
        B.call(obj, "clear_gradients")
        B.mark("clearednow")
        B.call(obj, "forward_async")
        B.mark("forward")
        B.call(obj, "backward_async")
        B.mark("backward")
        B.call(obj, "unregister")
        B.mark("end")
        return obj
    return body


class ModelTrace(LayerTrace):
    """Gradients start from what clear_gradients left."""

    def outputs(self, o):
        if o is self.obj:
            a = attr(o, "activations")
            return [a[-1]] if isinstance(a, list) and a and \
                is_moments(a[-1]) else []
        return super().outputs(o)


def model_trace(o, rec):
    P, B, obj = rec["P"], rec["B"], rec["obj"]
    tr = ModelTrace(P, obj, B, o.report, o.und.append,
                    phase_targets(P.events, "built"))
    tr.case = o.case
    tr.run(P.events)
    return tr


# -- the training pipeline -----------------------------------------------------
def pipe_cases(thorough):
    out = []
    for loss in ("CrossEntropy", "Frob"):
        for nb, nm_, ne in ((1, 1, 1), (2, 2, 1), (2, 3, 2)):
            out.append(Case("Pipeline(%d batches of %d, %d epochs, %s)" % (
                nb, nm_, ne, loss), None, loss=loss, nb=nb, nm=nm_, ne=ne))
        out.append(Case("Pipeline(1 batches of 2, 1 epochs, %s, fp64)" % loss,
                        None, dtype="fp64", loss=loss, nb=1, nm=2, ne=1))
    return out


def pipe_body(case, rec):
    def body(P):
        B = Builder(P, case.dtype)
        rec["B"] = B
        o = case.opt
        sh, ti = [16, 64], [16, 16]
        x = B.moments("x", sh, ti, grad=False, required=False)
        model = B.new(MD + "deep_relu", "DeepReLU", x, "R", 1, 256, 128, 2,
                      16, B.tag, bias=True)
        tag = P.getattr(model, "next_tag")
        out = P.getattr(model, "activations")[-1]
        lm = {"CrossEntropy": "crossentropy", "Frob": "frob"}[o["loss"]]
        loss, tag = B.make("nntile.loss." + lm, o["loss"], out, tag)
        opt = B.new("nntile.optimizer.sgd", "SGD",
                    P.getattr(model, "parameters"), 2.0 ** -4, tag)
        B.tag = P.getattr(opt, "next_tag")
        M.name_tensors({"model": model, "loss": loss, "opt": opt}, B.user)
        y = P.getattr(loss, "y")
        xs = [[B.tensor("x[%d][%d]" % (i, j), sh, ti) for j in range(o["nm"])]
              for i in range(o["nb"])]
        ys = [[B.tensor("y[%d][%d]" % (i, j), y.traits.shape,
                        y.traits.basetile, y.ncls.name[7:])
               for j in range(o["nm"])] for i in range(o["nb"])]
        rec.update(model=model, loss=loss, opt=opt, xs=xs, ys=ys)
        pipe = B.new("nntile.pipeline", "Pipeline", xs, ys, model, opt, loss,
                     o["ne"])
        rec["obj"], rec["tag"] = pipe, B.tag
        B.mark("built")
        B.mark("train")
        B.call(pipe, "train_async")
        B.mark("trained")
        return pipe
    return body


class PipeTrace(Trace):
    def __init__(self, P, rec, rep, und, o):
        super().__init__(P, rep, und)
        self.rec, self.o = rec, o
        self.batch, self.steps = [], 0
        self.lossref = {"CrossEntropy": lambda S, l: xent(S, l, 1.0),
                        "Frob": frob}[o["loss"]]
        self.data = {}
        self.back = 0

    def outputs(self, o):
        return super().outputs(o)

    def at_mark(self, e):
        r = self.rec
        if e.name == "built":
            for t in phase_targets(self.P.events, "built").values():
                self.S.val.pop(t.n, None)
            for o in (r["model"], r["loss"], r["opt"]):
                self.know(all_moments(o))
            for i, b in enumerate(r["xs"]):
                for j, t in enumerate(b):
                    self.data[self.leaf(t, nm(t)).n] = ("x", i, j)
            for i, b in enumerate(r["ys"]):
                for j, t in enumerate(b):
                    self.data[self.leaf(t, nm(t)).n] = ("y", i, j)
            self.params = attr(r["model"], "parameters")
            for m in self.params:
                v = attr(m, "value")
                self.source(v, nm(v))
        elif e.name == "trained":
            n = self.o["nb"] * self.o["ne"]
            self.fact(self.steps == n, "steps", "the optimizer is applied %d "
                      "times instead of %d" % (self.steps, n), e.where)
            self.fact(not self.batch, "left", "gradients of %d minibatches "
                      "are never applied" % len(self.batch), e.where)

    def fact(self, ok, key, msg, where):
        self.report(None, None, None, None, ok=ok)
        if not ok:
            self.report("phase", key, msg, where)

    def origins(self, e):
        """Minibatches an expression is computed from."""
        out, todo, seen = set(), set(e.atoms()), set()
        ex = {b.n: x for b, x, t in self.cuts}
        while todo:
            a = todo.pop()
            if a in seen:
                continue
            seen.add(a)
            if a in self.data:
                out.add(self.data[a])
            elif a in ex:
                todo |= ex[a].atoms()
        return out

    def leave_loss(self, e, o):
        x = attr(o, "model_output") or attr(o, "x")
        y = attr(o, "y")
        v, g = attr(x, "value"), attr(x, "grad")
        if not isinstance(self.S.raw(v), E) or not isinstance(
                self.S.raw(y), E) or v.n not in self.version:
            self.report("phase", "loss", "the loss is evaluated before its "
                        "operands are computed", e.where)
            return
        L = self.lossref(self.S, o)
        w = talg.derivative(L, self.version[v.n], v.traits.shape)
        got = self.S.raw(g)
        if isinstance(got, E):
            self.compare(g, v, got, w, e.where, "after the loss")
        d = self.origins(self.S.val[v.n]) | self.origins(self.S.val[y.n])
        self.batch.append(frozenset(d))
        a = self.version[v.n]
        dy = talg.leaf("loss gradient#%d" % a.n, a.nd)
        s = E([])
        fr = [talg.fresh() for _ in range(a.nd)]
        s.add([(a.n, 1, tuple(fr)), (dy.n, 1, tuple(fr))], 1.0)
        self.seed.append((a, s))
        self.S.val[g.n] = talg.of_atom(dy, g.traits.shape)

    def enter_step(self, e):
        k = self.steps % self.o["nb"]
        want = {frozenset({("x", k, j), ("y", k, j)})
                for j in range(self.o["nm"])}
        ok = len(self.batch) == len(want) and set(self.batch) == want
        self.fact(ok, "fed", "step %d of the optimizer comes after %s instead "
                  "of each minibatch of batch %d once" % (
                      self.steps + 1, self.show(), k), e.where)
        self.check_sources("when the optimizer is applied")
        self.batch, self.seed, self.cuts = [], [], []
        self.steps += 1
        self.before = []
        for m in self.params:
            v, g = attr(m, "value"), attr(m, "grad")
            self.leaf(v, nm(v))
            self.leaf(g, "gradient of " + nm(v))
            self.before.append((v, self.S.val[v.n], self.S.val[g.n]))

    def leave_step(self, e, o):
        for v, p, g in self.before:
            got = self.S.raw(v)
            if isinstance(got, E):
                self.fact(not talg.difference(got, p.plus(g.scale(
                    -2.0 ** -4))), "step:%s" % nm(v), "%s is not updated by "
                    "its gradient" % nm(v), e.where)
        self.src = {n: t for n, t in self.src.items() if t.n not in {
            v.n for v, p, g in self.before}}
        self.cuts, self.seed = [], []
        for v, p, g in self.before:
            self.source(v, nm(v))

    def show(self):
        return "; ".join(" and ".join("%s[%d][%d]" % d for d in sorted(s))
                         for s in self.batch) or "no minibatch"


def pipe_trace(o, rec):
    tr = PipeTrace(rec["P"], rec, o.report, o.und.append, o.case.opt)
    tr.run(rec["P"].events)
    return tr


# -- checks --------------------------------------------------------------------
FAMILIES = {
    "layer": (layer_cases, layer_body, layer_trace),
    "loss": (loss_cases, loss_body, loss_trace),
    "optimizer": (opt_cases, opt_body, opt_trace),
    "saved optimizer": (save_cases, opt_body, opt_trace),
    "model": (model_cases, model_body, model_trace),
    "pipeline": (pipe_cases, pipe_body, pipe_trace),
}
_DONE = {}
_SEEN = set()


def outcomes(R, families):
    c = ctx()
    t = R.tier == "thorough"
    for f in families:
        if (f, t) not in _DONE:
            mk, body, trace = FAMILIES[f]
            _DONE[f, t] = [(x, run_case(c, x, body, trace)) for x in mk(t)]
        for case, outs in _DONE[f, t]:
            first = (id(R), f, case.name) not in _SEEN
            _SEEN.add((id(R), f, case.name))
            if first:
                R.count("%s cases" % f)
            for o in outs:
                if first:
                    R.count("paths")
                    R.count("operations evaluated", o.ops)
                yield f, case, o


def label(case):
    return case.name.split("(")[0].split(",")[0].split(" ")[0]


def stage(o):
    """What the harness was doing when a case raised."""
    for e in reversed(o.rec["P"].events):
        if e.kind == "mark" and e.name in M.AFTER:
            return M.AFTER[e.name]
    return "build"


def routed(R, families, rules, least, raises=True, value=True):
    """Report the findings of the given rules."""
    for f, case, o in outcomes(R, families):
        for u in o.und:
            R.undecided("%s: %s" % (case.name, u))
        n = sum(o.good.values())
        for _ in range(n):
            R.ob()
        bad = [x for x in o.found if x[0] in rules]
        for rule, key, msg, where in bad:
            R.ob(False)
            R.violation("%s:%s:%s" % (label(case), rule, key), "%s: %s" % (
                case.name, msg), where)
        if o.raised is not None:
            if "broken " + stage(o) in rules:
                R.ob(False)
                R.violation("%s:raise:%s" % (label(case), str(o.raised)[:60]),
                            "%s: %s" % (case.name, o.raised), o.raised.where)
            else:
                R.undecided("%s: raises %r" % (case.name, o.raised))
        elif not bad and n:
            R.sample("%s: %d operations, %d obligations hold" % (
                case.name, o.ops, n))
    for f in families:
        R.require("%s cases" % f, least)
    R.require("operations evaluated", 50)


GRAD = ("gradient", "missing", "fresh", "accumulate")
TEXT = ("Abstract interpretation of the Python source of %s for each listed "
        "configuration (nothing is executed): every tensor operation "
        "submitted is evaluated in an algebra of index expressions "
        "(polynomials with sums, element-wise functions, softmax and "
        "log-sum-exp as symbols) over symbolic tensor contents; extents are "
        "distinct powers of 4, so operands exchanged by mistake do not fit. ")


def c43(R):
    R.rule("derivative", "After the backward pass each gradient a layer or "
           "loss is responsible for holds its previous contents plus exactly "
           "the derivative of the forward expression, times the adjoint of "
           "the output.")
    routed(R, ("layer", "loss", "model"), (
        "gradient", "missing", "fresh", "broken backward", "broken calc"), 5)
    R.require("layer cases", 100)
    R.require("model cases", 20)
    return "other", TEXT % "layers, losses and models" + (
        "The derivative is computed symbolically from the forward "
        "expression and compared term by term.")


def c31(R):
    R.rule("accumulate", "The previous contents of a required gradient enter "
           "the new ones with coefficient one; every required gradient is "
           "added to; gradients which are not required keep their contents.")
    routed(R, ("layer", "model"), ("accumulate", "missing",
                                   "broken backward"), 20)
    R.require("layer cases", 100)
    return "other", TEXT % "layers and models" + (
        "Compared: coefficient of the previous contents of every gradient.")


def c30(R):
    R.rule("phases", "Forward passes see the inputs and the outputs of the "
           "layers before them, backward passes the complete adjoint of their "
           "outputs; nothing depends on data of an earlier step; each "
           "minibatch of a batch is fed once; the optimizer is applied once "
           "per batch to the sum of its gradients.")
    routed(R, ("model", "pipeline"), GRAD + (
        "modify", "phase", "use", "broken train", "broken clear",
        "broken forward", "broken backward"), 5)
    R.require("model cases", 20)
    # a layer may not rely on what an earlier step left
    routed(R, ("layer", "loss"), ("fresh", "modify"), 5)
    return "other", TEXT % "models and the training pipeline" + (
        "Whole training runs of up to two batches of three minibatches and "
        "two epochs are followed.")


def c45(R):
    R.rule("builds", "Building and running each configuration raises no "
           "error.")
    R.rule("accepts", "The extents and tiles of the operands satisfy what "
           "each operation requires.")
    for f, case, o in outcomes(R, FAMILIES):
        with R.guard(str(case)[:80]):
            for u in o.und:
                R.undecided("%s: %s" % (case.name, u))
            ok = o.raised is None
            R.ob(ok)
            if not ok:
                e = o.raised
                R.violation("%s:raise:%s" % (label(case), str(e)[:60]),
                            "%s: %s" % (case.name, e), e.where)
            for rule, key, msg, where in o.found:
                if rule == "accept":
                    R.ob(False)
                    R.violation("%s:accept:%s" % (label(case), key), "%s: %s" % (
                        case.name, msg), where)
            for _ in range(o.ops):
                R.ob()
            if ok:
                R.sample("%s: runs, %d operations accepted" % (case.name, o.ops))
    R.require("layer cases", 100)
    R.require("optimizer cases", 15)
    R.require("paths", 150)
    return "other", TEXT % "all layers, losses, optimizers, models and the "\
        "pipeline" + "Decided: no name, attribute, type or argument error on "\
        "any path, and agreement of operand extents and tiles."


def c46(R):
    R.rule("update", "After each of four steps every parameter equals the "
           "value the documented update rule gives for its previous values "
           "and gradients.")
    routed(R, ("optimizer",), (
        "update", "fresh", "use", "broken build", "broken step"), 15)
    return "other", TEXT % "the optimizers" + (
        "Parameters after steps 1 to 4 are compared with the textbook rule "
        "evaluated in the same algebra, hyperparameters being powers of two.")


def c25(R):
    R.rule("restore", "A new optimizer with other hyperparameters, loaded "
           "from the state saved after two steps, continues with exactly the "
           "parameters the saved one would have had.")
    routed(R, ("saved optimizer",), (
        "update", "restore", "fresh", "use", "broken build", "broken step",
        "broken save"), 10)
    return "other", TEXT % "the optimizers" + (
        "Saved data is followed through arrays, dictionary keys and "
        "conversions to the tensors it is loaded into.")


def c47(R):
    R.rule("function", "The output expression of a layer, loss or model "
           "equals the documented function of its inputs and parameters.")
    routed(R, ("layer", "loss", "model"), (
        "function", "value", "fresh", "modify", "broken build",
        "broken forward", "broken calc"), 5)
    for f, case, o in outcomes(R, ("layer", "model")):
        with R.guard(str(case)[:80]):
            if case.opt.get("fref") is not None:
                R.count("reference functions")
    R.require("reference functions", 120)
    return "other", TEXT % "layers, losses and models" + (
        "The reference functions are written down independently "
        "(nnlib/refs.py) and evaluated in the same algebra.")


def c22(R):
    R.rule("released", "Each tensor created while building or running an "
           "object is unregistered by the object's unregister operation "
           "(outputs of a layer belong to the caller).")
    R.rule("own", "No tensor of another owner is unregistered.")
    R.rule("use", "No operation uses a tensor after it was unregistered.")
    for f, case, o in outcomes(R, ("layer", "loss", "optimizer",
                                   "saved optimizer", "model")):
        with R.guard(str(case)[:80]):
            if o.raised is not None or o.obj is None:
                R.undecided("%s: does not run" % case.name)
                continue
            user = {t.n for t in o.B.user}
            may = set()
            if f == "layer":
                for m in attr(o.obj, "activations_output") or []:
                    for k in ("value", "grad"):
                        if isinstance(attr(m, k), Tensor):
                            may.add(attr(m, k).n)
            if f == "model":
                # its first activations are the caller's, handed over to it
                for m in attr(o.obj, "activations") or []:
                    for k in ("value", "grad"):
                        if isinstance(attr(m, k), Tensor):
                            may.add(attr(m, k).n)
            for t in o.P.tensors:
                R.count("tensors")
                if t.n in user:
                    ok = not t.unregistered or t.n in may
                    R.ob(ok)
                    if not ok:
                        R.violation("%s:foreign:%s" % (label(case), nm(t)),
                                    "%s: unregisters %s, which the caller owns"
                                    % (case.name, nm(t)), t.where)
                    continue
                ok = t.unregistered > 0 or t.n in may and f == "layer"
                R.ob(ok)
                if not ok:
                    R.violation("%s:leak:%s" % (label(case), nm(t)),
                                "%s: %s is created but never unregistered" % (
                                    case.name, nm(t)), t.where)
            for rule, key, msg, where in o.found:
                if rule == "use":
                    R.violation("%s:%s" % (label(case), key), "%s: %s" % (
                        case.name, msg), where)
            R.sample("%s: %d tensors" % (case.name, len(o.P.tensors)))
    R.require("tensors", 1500)
    return "other", TEXT % "layers, losses, optimizers and models" + (
        "Creation and unregistration of every tensor are recorded on every "
        "path.")


def c24(R):
    R.rule("distinct", "Of two tensors created, one gets a tag beyond those "
           "of the other.")
    R.rule("returned", "The tag returned lies beyond the tags of everything "
           "created.")
    for f, case, o in outcomes(R, FAMILIES):
        with R.guard(str(case)[:80]):
            if o.raised is not None or o.P is None:
                R.undecided("%s: does not run" % case.name)
                continue
            ts = o.P.tensors
            known = [t for t in ts if isinstance(t.tag, Tag)]
            if len(known) < len(ts):
                t = next(t for t in ts if not isinstance(t.tag, Tag))
                R.undecided("%s: tag of %s" % (case.name, nm(t)))
            clash = None
            for i, a in enumerate(known):
                for b in known[i + 1:]:
                    ok = a.n in b.tag.used or b.n in a.tag.used
                    R.ob(ok)
                    R.count("pairs of tensors")
                    if not ok:
                        clash = b
                        R.violation("%s:clash:%s" % (label(case), nm(b)),
                                    "%s: %s may get the tag of %s" % (
                                        case.name, nm(b), nm(a)), b.where)
                        break
            for key in ("tag", "tag2"):
                tag = o.rec.get(key)
                if tag is None:
                    continue
                if not isinstance(tag, Tag):
                    R.undecided("%s: returned tag %r" % (case.name, tag))
                    continue
                own = o.rec.get("own")
                # tensors made after the tag was taken are not meant
                n = len(ts) if own is None else max(
                    [x.n for x in own] + [-1]) + 1
                if f == "pipeline":
                    continue
                miss = [t for t in ts[:n] if t.n not in tag.used
                        and t not in o.B.user]
                R.ob(not miss)
                R.count("returned tags")
                if miss:
                    R.violation("%s:return:%s" % (label(case), nm(miss[0])),
                                "%s: the tag returned does not lie beyond that of "
                                "%s" % (case.name, nm(miss[0])), miss[0].where)
    R.require("returned tags", 100)
    R.require("pairs of tensors", 5000)
    return "other", TEXT % "layers, losses, optimizers and models" + (
        "A tag is abstracted to the set of tensors whose tags lie below it.")


def c26(R):
    R.rule("listed", "A value with a gradient which an object creates and "
           "which its passes read but do not compute is in its list of "
           "parameters, once.")
    R.rule("own", "An optimizer step changes each parameter using its own "
           "gradient and no gradient or value of another one.")
    for f, case, o in outcomes(R, ("layer", "model")):
        with R.guard(str(case)[:80]):
            if o.raised is not None or not hasattr(o, "trace"):
                R.undecided("%s: does not run" % case.name)
                continue
            ps = attr(o.obj, "parameters")
            if not isinstance(ps, list):
                R.undecided("%s: list of parameters" % case.name)
                continue
            listed = {}
            for m in ps:
                v = attr(m, "value")
                if isinstance(v, Tensor):
                    listed[v.n] = listed.get(v.n, 0) + 1
            for m in o.trace.params:
                v = attr(m, "value")
                ok = listed.get(v.n, 0) == 1
                R.ob(ok)
                R.count("parameters")
                if not ok:
                    R.violation("%s:listed:%s" % (label(case), nm(v)),
                                "%s: %s is listed %d times among the parameters"
                                % (case.name, nm(v), listed.get(v.n, 0)), v.where)
            own = {attr(m, "value").n for m in o.trace.params}
            for m in ps:
                v, g = attr(m, "value"), attr(m, "grad")
                if not isinstance(v, Tensor) or v.n in own:
                    continue
                R.violation("%s:extra:%s" % (label(case), nm(v)), "%s: %s is "
                            "listed as a parameter but is not one" % (
                                case.name, nm(v)), v.where)
    for f, case, o in outcomes(R, ("optimizer",)):
        with R.guard(str(case)[:80]):
            if o.raised is not None or not hasattr(o, "trace") or \
                    case.name == "Empty":
                continue
            for t, v, ats, mine, others in o.trace.deps:
                R.count("updates")
                ok = mine in ats
                bad = ats & others
                R.ob(ok and not bad)
                if not ok:
                    R.violation("%s:skip:%s" % (label(case), nm(v)),
                                "%s: step %d does not apply the gradient of %s"
                                % (case.name, t, nm(v)), None)
                elif bad:
                    R.violation("%s:mixed:%s" % (label(case), nm(v)),
                                "%s: step %d updates %s with %s" % (
                                    case.name, t, nm(v), ", ".join(
                                        o.trace.names[x] for x in bad)), None)
    R.require("parameters", 200)
    R.require("updates", 100)
    return "other", TEXT % "layers, models and optimizers" + (
        "Parameters are recognised by their role in the passes.")


# outputs an operation may update as reductions, and the kind they need
REDUX = {"gemm": (6,), "gemm_ex": (6,), "norm_slice": (3,), "maxsumexp": (1,),
         "sumprod_fiber": (4,), "sum_fiber": (3,), "sumprod_slice": (4,),
         "sum_slice": (3,), "embedding_backward": (2,),
         "flash_maxsumexp": (3,), "flash_softmax_gemm": (5,),
         "flash_softmax_gemm_backward": (1, 3, 5, 11)}
RKIND = {"norm_slice": "hypot", "maxsumexp": "maxsumexp",
         "flash_maxsumexp": "maxsumexp"}


def reductions(R):
    """C17, the Python side: methods set before an update as a reduction."""
    R.rule("set", "Before a layer, loss or model submits an operation with "
           "the reduction option, the destination has been given the "
           "reduction method of that operation (sum, Euclidean norm, maximum "
           "and sum of exponents).")
    for f, case, o in outcomes(R, FAMILIES):
        if o.P is None:
            continue
        have = {}
        for e in o.P.events:
            if e.kind == "method" and e.name.startswith("set_reduction_"):
                have.setdefault(e.args[0].n, []).append(e.name[14:])
            if e.kind != "core":
                continue
            op = M.opname(e.name)
            if op not in REDUX or len(e.args) <= REDUX[op][-1]:
                continue
            rx = e.args[-2 if op.startswith("flash") else -1]
            if isinstance(rx, (Tensor, Sym, Opaque)) or not rx:
                continue
            want = RKIND.get(op, "add")
            for i in REDUX[op]:
                t = e.args[i]
                got = have.get(t.n, [])
                ok = bool(got) and got[-1] == want
                R.ob(ok)
                R.count("reduction updates by Python objects")
                if not ok:
                    R.violation(
                        "%s:%s:%s" % (label(case), op, nm(t)), "%s: %s "
                        "updates %s as a reduction, %s" % (
                            case.name, e.name, nm(t), "which has no reduction "
                            "methods" if not got else "whose reduction method "
                            "is '%s'" % got[-1]), e.where)
    R.require("reduction updates by Python objects", 200)


CHECKS = {"C22": c22, "C24": c24, "C25": c25, "C26": c26, "C30": c30,
          "C31": c31, "C43": c43, "C45": c45, "C46": c46, "C47": c47}
