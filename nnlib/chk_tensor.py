"""Checks of the tile and tensor layers: C06 C07 C08 C09 C10 C14."""
import os
import re

from .build import Workspace, AnalysisBroken
from . import sym
from .ops import Layer, Op, cshow, short as tshort, is_operand, where
from .poly import Poly
from .report import short
from .sym import (C, GiveUp, Facts, atom, ATOM, Hnd, Obj, Sc, Vec, Snap,
                  LoopNode, Event, Interp, cstr, uncast, same, Unk)
from .tasks import walk


def bound(Rp):
    return 4 if Rp.tier == "thorough" else 3


def layers(Rp):
    ws = Workspace()
    Ls = [Layer(ws, "tensor"), Layer(ws, "tile")]
    for L in Ls:
        Rp.count("%s operations" % L.layer, len(L.representatives()))
        Rp.require("%s operations" % L.layer, 40)
    return ws, Ls


# ---------------------------------------------------------------------------
# C08
def vec_el(layer, name, d):
    """Atom of an element: 'X.shape', 'X.grid.shape', 'X.basetile_shape' or
    an index vector parameter."""
    return atom("el", name, C(d))


def requirements(op, c):
    """(text, predicate over Facts -> True/False) for a valid context."""
    tensor = op.layer == "tensor"
    out = []

    def eq(a, b):
        return lambda f: f.decide_eq(a - b) is True

    def add_eq(x, d, y, e):
        a, b = vec_el(op.layer, x, d), vec_el(op.layer, y, e)
        out.append(("%s[%d] == %s[%d]" % (x, d, y, e), eq(a, b)))

    def single(X, d):
        s, b, g = (vec_el(op.layer, X + "." + k, d) for k in
                   ("shape", "basetile_shape", "grid.shape"))
        r = c["ranks"][X]
        allg = C(1)
        for i in range(r):
            allg = allg * vec_el(op.layer, X + ".grid.shape", i)

        def pred(f):
            return f.decide_eq(s - b) is True or \
                f.decide_eq(g - C(1)) is True or \
                f.decide_eq(allg - C(1)) is True
        out.append(("%s has a single tile along dimension %d" % (X, d), pred))
    seen = {}
    for X, ls in sorted((c["labels"] or {}).items()):
        for d, l in enumerate(ls):
            if l.startswith("#"):
                n = int(l[1:])
                s, b = vec_el(op.layer, X + ".shape", d), \
                    vec_el(op.layer, X + ".basetile_shape", d)
                out.append(("%s.shape[%d] == %d" % (X, d, n), eq(s, C(n))))
                if tensor:
                    g = vec_el(op.layer, X + ".grid.shape", d)
                    r = c["ranks"][X]
                    allg = C(1)
                    for i in range(r):
                        allg = allg * vec_el(op.layer, X + ".grid.shape", i)

                    def two(f, b=b, g=g, n=n, allg=allg):
                        return f.decide_eq(b - C(n)) is True or \
                            f.decide_eq(g - C(1)) is True or \
                            f.decide_eq(allg - C(1)) is True
                    out.append(("%s.basetile_shape[%d] == %d" % (X, d, n),
                                two))
                continue
            if l.endswith("!") and tensor:
                single(X, d)
            l = l.rstrip("!")
            if X in c["nolink"]:
                continue
            if l in seen:
                Y, e = seen[l]
                add_eq(X + ".shape", d, Y + ".shape", e)
                if tensor:
                    add_eq(X + ".basetile_shape", d, Y + ".basetile_shape", e)
            else:
                seen[l] = (X, d)
    for r in c["req"]:
        if r[0] == "eq":
            add_eq(*r[1:])
        elif r[0] == "const":
            a = vec_el(op.layer, r[1], r[2])
            out.append(("%s[%d] == %d" % r[1:], eq(a, C(r[3]))))
        elif r[0] == "single":
            single(r[1], r[2])
        elif r[0] == "mod":
            a, b = vec_el(op.layer, r[1], r[2]), vec_el(op.layer, r[3], r[4])

            def divides(f, a=a, b=b):
                a, b = f.norm(a), f.norm(b)
                if a == b:
                    return True
                m = atom("mod", str(a), str(b))
                ATOM[str(m)] = ("mod", a, b)
                if f.decide_eq(m) is True:
                    return True
                for k, v in f.sub.items():
                    q = ATOM.get(k)
                    if q and q[0] == "mod" and f.norm(q[1]) == a and \
                            f.norm(q[2]) == b and f.norm(v).is_zero():
                        return True
                return False
            out.append(("%s[%d] is a multiple of %s[%d]" % r[1:], divides))
        elif r[0] == "ge":
            p = C(0)
            txt = []
            for x, d, k in r[1:]:
                if x is None:
                    p = p + C(k)
                    txt.append("%+d" % k)
                else:
                    p = p + vec_el(op.layer, x, d) * C(k)
                    txt.append("%+d*%s[%d]" % (k, x, d))
            out.append((" ".join(txt) + " >= 0",
                        lambda f, p=p: f.prove_ge(p)))
    return out


def unit_key(op):
    return op.key()


def c08(Rp):
    ws, Ls = layers(Rp)
    N = bound(Rp)
    Rp.rule("reject", "in a rank context in which the operation is not "
            "defined every path through its asynchronous function throws")
    Rp.rule("require", "in a rank context in which it is defined, every path "
            "that does not throw has established each required equality of "
            "extents and tile extents")
    for L in Ls:
        for op in L.representatives():
            cs = op.contexts(N)
            if cs is None:
                Rp.undecided("%s: operation without a specification"
                             % op.title)
                continue
            Rp.count("operations")
            for c in cs:
                with Rp.guard(op.title):
                    Rp.count("rank contexts")
                    if not set(c["ranks"]) <= set(op.operands):
                        Rp.undecided("%s: operands renamed" % op.title)
                        break
                    try:
                        I, ps = op.interp(c)
                    except (GiveUp, RecursionError, KeyError, TypeError,
                            AttributeError, IndexError) as e:
                        Rp.undecided("%s (%s): %s" % (op.title, cshow(c), e))
                        continue
                    live = [p for p in ps if p.flow != "throw"]
                    loc = "%s:%s" % (ws.display(op.f["file"]), op.f["l"])
                    if c["bad"]:
                        hard = [p for p in live if not p.st.facts.unk]
                        if live and not hard:
                            Rp.undecided("%s (%s): guard not understood: %s" % (
                                op.title, cshow(c), live[0].st.facts.unk[:2]))
                            continue
                        Rp.ob(not hard)
                        if hard:
                            Rp.violation(
                                "%s/accepts %s" % (op.key(), c["bad"]),
                                "%s accepts %s although %s" % (
                                    op.title, cshow(c), c["bad"]), loc)
                        continue
                    if not live:
                        # an operation must accept what it is defined on
                        Rp.ob(False)
                        Rp.violation(
                            "%s/rejects valid ranks" % op.key(),
                            "%s throws for every argument although it is defined "
                            "for %s" % (op.title, cshow(c)), loc)
                        continue
                    for txt, pred in requirements(op, c):
                        bad = [p for p in live if not pred(p.st.facts)]
                        if bad and any(undecidable(p, txt) for p in bad):
                            Rp.undecided("%s (%s): %s" % (op.title, cshow(c), txt))
                            continue
                        Rp.count("requirements")
                        Rp.ob(not bad)
                        if bad:
                            Rp.violation(
                                "%s/%s" % (op.key(), generic(txt)),
                                "%s does not reject operands that violate %s (%s)"
                                % (op.title, txt, cshow(c)), loc)
                        else:
                            Rp.sample("%s: %s [%s]" % (op.title, txt, cshow(c)))
    Rp.require("operations", 70)
    Rp.require("requirements", 1500)
    return "other", (
        "Abstract interpretation of each operation's asynchronous function "
        "for every combination of operand ranks up to %d (and axis, batch and "
        "transposition arguments): rank combinations outside the definition "
        "have to throw on every path, and on the remaining paths the guards "
        "passed must imply the equalities of the definition." % N)


def generic(txt):
    return re.sub(r"\d+", "N", txt)


def undecidable(p, txt):
    return bool(p.st.facts.unk)


# ---------------------------------------------------------------------------
# C06
def c06(Rp):
    ws, Ls = layers(Rp)
    Rp.rule("forward", "every normal path of a blocking operation calls its "
            "own asynchronous operation, for the same element type, exactly "
            "once and passes its own parameters in order")
    Rp.rule("wait", "on every normal path a wait for all submitted tasks "
            "follows the last submission")
    for L in Ls:
        for u, f in L.sync:
            with Rp.guard(f["n"]):
                own = [o for o in L.ops if o.unit == u and
                       o.f["n"] == f["n"] + "_async"]
                if not own:
                    continue
                title = "%s::%s<%s>" % (L.layer, f["n"], ", ".join(
                    tshort(x) for x in f.get("ta") or []))
                key = "%s/%s" % (L.layer, f["n"])
                loc = where(ws, f)
                mine = {o.f["m"] for o in own
                        if o.ta == tuple(f.get("ta") or ()) and
                        [t for _, t in o.params] ==
                        [is_operand(p["t"]) for p in f["ps"]]}
                Rp.count("blocking operations")
                I = Interp(L.fns, u, L.layer)
                I.keep = lambda n, e: re.sub(r"<.*>$", "", n).endswith("_async")
                try:
                    ps = I.run(f)
                except (GiveUp, RecursionError, KeyError, TypeError,
                        AttributeError, IndexError) as e:
                    Rp.undecided("%s: %s" % (title, e))
                    continue
                st0 = sym.State()
                J = Interp(L.fns, u, L.layer)
                want = [J.freeze(J.param(p, st0, {}), st0) for p in f["ps"]]
                for p in ps:
                    if p.flow == "throw":
                        continue
                    ev = list(flat(p.st.trace))
                    calls = [e for e in ev if e.kind == "call"]
                    subs = [e for e in ev if e.kind in ("submit", "async")]
                    last = [i for i, e in enumerate(ev) if e.kind != "wait"
                            and e.kind in ("call", "submit", "async")]
                    waits = [i for i, e in enumerate(ev) if e.kind == "wait"]
                    Rp.count("paths")
                    if last:
                        ok = bool(waits) and waits[-1] > last[-1]
                        Rp.ob(ok)
                        if not ok:
                            Rp.violation(
                                key + "/wait", "%s returns without waiting for "
                                "the tasks it submitted" % title, loc)
                    else:
                        Rp.ob(False)
                        Rp.violation(
                            key + "/skip", "%s has a path that returns without "
                            "performing %s_async" % (title, f["n"]), loc)
                        continue
                    if not calls or any(isinstance(n, LoopNode)
                                        for n in p.st.trace):
                        Rp.undecided("%s: submits tasks itself" % title)
                        continue
                    own_calls = [e for e in calls if e.callee in mine]
                    foreign = [e for e in calls if e.callee not in mine]
                    ok = len(own_calls) == 1 and not foreign and not subs
                    if len(own_calls) == 1 and (foreign or subs):
                        Rp.undecided("%s: performs further operations" % title)
                    else:
                        Rp.ob(ok)
                    if not own_calls:
                        Rp.violation(
                            key + "/other", "%s performs %s instead of %s_async "
                            "of its own element type" % (
                                title, foreign[0].name, f["n"]), loc)
                        continue
                    if len(own_calls) > 1:
                        Rp.violation(
                            key + "/twice", "%s performs the asynchronous "
                            "operation %d times" % (title, len(own_calls)), loc)
                        continue
                    args = own_calls[0].args
                    for i, (n, v) in enumerate(args):
                        if i >= len(want):
                            break
                        if isinstance(v, Unk) or isinstance(v, Poly) and any(
                                a.startswith("?") for a in v.atoms()):
                            Rp.undecided("%s: argument %s" % (title, n))
                            continue
                        ok = same(v, want[i])
                        Rp.count("arguments")
                        Rp.ob(ok)
                        if not ok:
                            Rp.violation(
                                "%s/argument %s" % (key, n),
                                "%s passes %s for parameter %s of %s_async" % (
                                    title, v, n, f["n"]), loc)
                    Rp.sample("%s: %d arguments forwarded, then wait" % (
                        title, len(args)))
    Rp.require("blocking operations", 150)
    Rp.require("arguments", 500)
    return "other", (
        "Abstract interpretation of every instance of every blocking tile "
        "and tensor operation: on each normal path exactly one call of the "
        "asynchronous operation of the same name and element type, with the "
        "operation's own parameters in order, followed by a wait for all "
        "tasks.")


def flat(tr):
    for n in tr:
        if isinstance(n, LoopNode):
            for a in n.alts:
                yield from flat(a[2])
        else:
            yield n


# ---------------------------------------------------------------------------
# C07
SUBMIT = re.compile(r"(^|::)(submit\w*|starpu_\w*insert\w*|starpu_data_cpy"
                    r"|starpu_task_submit)$")


class Order:
    """May a task have been submitted when control reaches a throw?"""

    def __init__(self, L, unit, title, Rp, ws, key):
        self.L, self.unit, self.title = L, unit, title
        self.Rp, self.ws, self.key = Rp, ws, key
        self.throws = 0
        self.bad = []
        self.cond = []
        self.rt = [set()]        # variables holding a runtime call's result
        self.stack = []

    def callees(self, e):
        n = re.sub(r"<.*>$", "", e.get("f") or "")
        return n

    def expr(self, e, s):
        """State after evaluating an expression."""
        for x in walk(e):
            if x.get("k") != "call":
                continue
            n = self.callees(x)
            if SUBMIT.search(n) or re.sub(r".*::", "", n).endswith("_async"):
                s = True
            else:
                g = self.L.fns.get(x.get("m"))
                if g is not None and g.get("body") and \
                        x["m"] not in self.stack and len(self.stack) < 8 \
                        and not g.get("cls"):
                    self.stack.append(x["m"])
                    self.rt.append(set())
                    r = self.stmt(g["body"], s)
                    self.rt.pop()
                    self.stack.pop()
                    s = r if r is not None else s
        return s

    def isrt(self, e):
        for x in walk(e):
            if x.get("k") == "call":
                n = self.callees(x)
                if re.search(r"(^|::)(_?starpu_\w+|acquire)$", n):
                    return True
            if x.get("k") == "var" and x.get("id") in self.rt[-1]:
                return True
        return False

    def stmt(self, s, sub):
        """State after the statement; None when it never completes."""
        if s is None or sub is None:
            return sub
        k = s["k"]
        if k == "block":
            for x in s["b"]:
                sub = self.stmt(x, sub)
                if sub is None:
                    return None
            return sub
        if k == "decl":
            for d in s["d"]:
                if d.get("i"):
                    sub = self.expr(d["i"], sub)
                    if self.isrt(d["i"]):
                        self.rt[-1].add(d["id"])
            return sub
        if k == "expr":
            e = uncast(s["e"])
            if any(x.get("k") == "throw" for x in walk(e)):
                return self.stmt({"k": "throw", "l": e.get("l", s.get("l"))},
                                 sub)
            if e.get("k") == "asg" and self.isrt(e.get("b")) and \
                    uncast(e["a"]).get("k") == "var":
                self.rt[-1].add(uncast(e["a"])["id"])
            return self.expr(s["e"], sub)
        if k == "throw":
            self.throws += 1
            if sub and not any(self.cond):
                self.bad.append(s.get("l"))
            return None
        if k == "ret":
            if s.get("a"):
                self.expr(s["a"], sub)
            return None
        if k in ("break", "cont", "continue"):
            return None
        if k == "if":
            if s.get("in"):
                sub = self.stmt(s["in"], sub)
            if s.get("c"):
                sub = self.expr(s["c"], sub)
            self.cond.append(self.isrt(s.get("c")))
            a = self.stmt(s["t"], sub)
            b = self.stmt(s["f"], sub) if s.get("f") else sub
            self.cond.pop()
            return b if a is None else a if b is None else a or b
        if k in ("for", "while", "do", "rfor"):
            if s.get("in"):
                sub = self.stmt(s["in"], sub)
            for x in ("c", "r"):
                if isinstance(s.get(x), dict):
                    sub = self.expr(s[x], sub)
            out = sub
            for _ in range(2):
                # a break or continue reaches the next iteration as well
                r = self.stmt(s["b"], out)
                out = bool(out) or bool(r) or self.submits(s["b"])
                if s.get("s"):
                    out = self.expr(s["s"], out)
            return out
        if k == "switch":
            sub = self.expr(s["c"], sub)
            self.cond.append(self.isrt(s["c"]))
            body = s["b"]
            items = body["b"] if body.get("k") == "block" else [body]
            cur, out = None, sub
            for it in items:
                while it is not None and it.get("k") in ("case", "default"):
                    cur = sub or bool(cur)
                    it = it.get("b") or it.get("s")
                if it is not None:
                    out = out or self.submits(it)
                    cur = self.stmt(it, cur)
            self.cond.pop()
            return out
        if k == "try":
            a = self.stmt(s["b"], sub)
            return a
        for v in s.values():
            if isinstance(v, dict) and "k" in v:
                sub = self.expr(v, sub)
        return sub

    def submits(self, b):
        for x in walk(b):
            if x.get("k") == "call":
                n = self.callees(x)
                if SUBMIT.search(n) or \
                        re.sub(r".*::", "", n).endswith("_async"):
                    return True
                g = self.L.fns.get(x.get("m"))
                if g is not None and not g.get("cls") and \
                        len(self.stack) < 8 and x["m"] not in self.stack:
                    self.stack.append(x["m"])
                    r = self.submits(g.get("body"))
                    self.stack.pop()
                    if r:
                        return True
        return False


def c07(Rp):
    ws, Ls = layers(Rp)
    Rp.rule("order", "no throw statement of an operation is reachable after "
            "a task may have been submitted, except one that reports the "
            "failure of a runtime call")
    for L in Ls:
        for op in L.representatives():
            with Rp.guard(op.title):
                O = Order(L, op.unit, op.title, Rp, ws, op.key())
                sub = O.stmt(op.f["body"], False)
                Rp.count("operations")
                Rp.count("throw statements", O.throws)
                if not O.submits(op.f["body"]) and \
                        not op.name.startswith("flash_"):
                    Rp.undecided("%s: no task insertion found" % op.title)
                    continue
                Rp.ob(not O.bad)
                Rp.sample("%s: %d throw statements precede the first task" % (
                    op.title, O.throws))
                for l in O.bad:
                    Rp.violation(
                        op.key() + "/late validation",
                        "%s can throw after it has submitted tasks" % op.title,
                        where(ws, op.f, l))
    Rp.require("operations", 80)
    Rp.require("throw statements", 400)
    return "other", (
        "Forward may-analysis over the statements of each asynchronous "
        "operation (and the helpers it calls) with the state 'a task may "
        "have been submitted'; loops are taken twice, so a throw that can "
        "follow a submission of an earlier iteration is found.")


CHECKS = {"C06": c06, "C07": c07, "C08": c08}
