"""Rounding errors of the additions of a long sum.

Every addition whose result is as large as an accumulator gets a symbolic
rounding error.  In terms of these, what an iteration of the loop hands to the
next one is an affine map of the accumulators and their compensation terms:

    s' = A_p s + sum over the additions of B_p,d * d + data     (path p)

An error of one iteration is still there j iterations later as A...A B d.  The
sum is compensated if what is left of it then does not reach the result: the
rounding error of the result does not grow with the number of terms."""
from .kalg import DESC, NoForm, ONE, Rat, ZERO, atom, kind, rat_atom, subst
from .kform import facts_of

ETA = ("eta",)


def linear(r, V):
    """({atom: coefficient}, rest) of an expression linear in V."""
    if any(a in V for a in Rat(dict(r.d)).atoms()):
        raise NoForm("accumulator in a divisor")
    co, rest = {}, {}
    for m, c in r.n.items():
        mine = [(a, e) for a, e in m if a in V]
        other = tuple((a, e) for a, e in m if a not in V)
        if any(v in V for a, _ in other for v in rat_atom(a).atoms()):
            raise NoForm("accumulator in a function")
        if not mine:
            rest[m] = c
        elif len(mine) == 1 and mine[0][1] == 1:
            co.setdefault(mine[0][0], {})[other] = c
        else:
            raise NoForm("not linear in the accumulator")
    d = Rat({(): 1}, dict(r.d))
    return {a: Rat(n) * d for a, n in co.items()}, Rat(rest) * d


def feasible(K, bps):
    return [b for b in bps if not facts_of(b.lits, K).infeasible]


def accumulators(K, ctxs):
    """P atoms of values that grow by a term on some path."""
    acc = set()
    for L, e, bps in ctxs:
        for b in feasible(K, bps):
            nx = K.nexts(L, b)
            for h in K.phis(L):
                P = atom(("P", L, h))
                if P in K.zero:
                    continue
                try:
                    r = subst(nx[atom(("R", L, h))], K.zsub)
                    co, rest = linear(r, {P})
                except NoForm:
                    continue
                if P in co and not rest.is_zero():
                    acc.add(P)
    # handed to a loop inside that adds to it
    more = True
    while more:
        more = False
        for L, e, bps in ctxs:
            for b in feasible(K, bps):
                for M, en in b.entry.items():
                    ini = K.init(M, en)
                    for g in K.phis(M):
                        if atom(("P", M, g)) not in acc:
                            continue
                        for a in ini[atom(("R", M, g))].atoms():
                            if kind(a) == "P" and DESC[a][1] == L and \
                                    a not in K.zero and a not in acc:
                                acc.add(a)
                                more = True
    return acc


def inner_loop(K, L, b, V):
    """The loop inside a body that takes the loop's accumulators on:
    (loop, {its phi: {phi: coefficient}}), or None."""
    out = None
    for M, en in b.entry.items():
        ini = K.init(M, en)
        m = {}
        for g in K.phis(M):
            co, _ = linear(ini[atom(("R", M, g))], set(V))
            if co:
                m[g] = {V[a]: c for a, c in co.items()}
        if not m:
            continue
        if out is not None:
            raise NoForm("accumulator carried through two loops")
        out = M, m
    return out


def analyse(pr):
    """(shown, violations, undecided): additions and paths that follow them;
    (where, text)."""
    K, S = pr.K, pr.S
    shown, bad, opened, loops = 0, [], [], 0
    seen = set()
    for p in pr.paths:
        pr.signs()
        K.acc = set()
        K.zero, K.zsub = p.zero, p.zsub
        if facts_of(p.lits, K).infeasible or not p.entry:
            continue
        try:
            K.acc = accumulators(K, K.contexts(p))
            if not K.acc:
                continue
            n, b, o = path(K, p, seen)
            shown += n
            loops += 1
            bad += b
            opened += o
        except NoForm as x:
            opened.append(str(x))
        finally:
            K.acc = set()
    return shown, bad, opened, loops


class Map:
    """One way through a body: A, the errors B it adds, and what it adds."""

    def __init__(self, A, B, b, adds, K):
        self.A, self.B, self.b, self.adds = A, B, b, adds
        x = b
        while isinstance(x, tuple):
            x = x[1]
        # chosen by the magnitudes of what is added: differences may be exact
        self.compares = any(a in K.acc for l in x.own
                            if l.k in ("ge0", "gt0") for a in l.d.atoms())

    def idle(self):
        """Adds nothing and changes nothing."""
        return not self.adds and all(
            not r or r.keys() == {h} and r[h].key() == ONE.key()
            for h, r in self.A.items())


def combine(rows):
    out = {}
    for c, r in rows:
        for h, x in r.items():
            y = out.get(h, ZERO) + c * x
            out[h] = y
    return {h: x for h, x in out.items() if not x.is_zero()}


def path(K, p, seen):
    ctxs = {L: (e, feasible(K, bps)) for L, e, bps in K.contexts(p)}
    vs = {L: {atom(("P", L, h)): h for h in K.phis(L)
              if atom(("P", L, h)) in K.acc or atom(("P", L, h)) in K.zero}
          for L in ctxs}
    maps = {}

    def build(L):
        """Maps of the paths of a loop body, of the loops inside first."""
        if L in maps:
            return maps[L]
        maps[L] = ms = []
        V = vs[L]
        for b in ctxs[L][1]:
            for M in b.entry:
                build(M)
            inner = inner_loop(K, L, b, V)
            nx = K.nexts(L, b)
            A, B, R = {}, {}, {}
            for a, h in V.items():
                r = nx[atom(("R", L, h))]
                rs = {x for x in r.atoms() if kind(x) == "R" and inner and
                      DESC[x][1] == inner[0]}
                co, rest = linear(r, set(V) | rs)
                A[h] = {V[x]: c for x, c in co.items() if x in V}
                R[h] = {DESC[x][2]: c for x, c in co.items() if x in rs}
                dc, _ = linear(rest, {x for x in rest.atoms()
                                      if kind(x) == "dl"})
                for x, c in dc.items():
                    B.setdefault(x, {})[h] = c
            if inner is None:
                ms.append(Map(A, B, b, bool(B), K))
                continue
            M, init = inner
            for q in maps[M]:
                A2 = {h: combine([(ONE, A[h])] + [
                    (c * x, init.get(k, {})) for g, c in R[h].items()
                    for k, x in q.A.get(g, {}).items()]) for h in A}
                B2 = dict(B)
                for d, v in q.B.items():
                    w = {h: sum((c * v[g] for g, c in R[h].items()
                                 if g in v), ZERO) for h in R}
                    B2[d] = {h: x for h, x in w.items() if not x.is_zero()}
                ms.append(Map(A2, B2, (b, q.b), bool(B) or q.adds, K))
        return ms

    for L in ctxs:
        build(L)
    n, bad, opened = 0, [], []
    for L in p.entry:
        judge(K, p, L, maps, ctxs, seen, bad, opened)
    n = sum(len(x.B) * len(ms) for ms in maps.values() for x in ms)
    if not n:
        raise NoForm("no addition to an accumulator found")
    return n, bad, opened


def judge(K, p, L, maps, ctxs, seen, bad, opened):
    """Errors left over by the iterations of a loop and of those inside it;
    p is the path that follows the loop."""
    for m in maps.get(L, ()):
        for d, v in m.B.items():
            for m2 in maps[L]:
                if m2.idle():
                    continue
                r = follow(K, p, L, v, m2.A)
                where = (L, d, r, m2.b == m.b)
                if r[0] == "ok" or where in seen:
                    continue
                seen.add(where)
                if r[0] == "bad" and m2.b == m.b and not DESC[d][2] and \
                        not m.compares:
                    bad.append((DESC[d][1], r[1]))
                else:
                    opened.append("error of the addition in loop %d: %s"
                                  % (L, r[1]))
    for b in ctxs[L][1] if L in ctxs else ():
        for M in b.entry:
            judge(K, After(K, p, L, b), M, maps, ctxs, seen, bad, opened)


class After:
    """The values a loop body hands on, as outputs of a loop inside it."""

    def __init__(self, K, p, L, b):
        self.p, self.L = p, L
        self.mem = {(L, h): K.nexts(L, b)[atom(("R", L, h))]
                    for h in K.phis(L)}

    def names(self, hit):
        eta = rat_atom(atom(ETA))
        out = []
        for _, h in hit:
            a = atom(("R", self.L, h))
            m = {a: rat_atom(a) + eta}
            out += [k for k, r in sorted(self.p.mem.items())
                    if not (subst(r, m) - r).is_zero()]
        return self.p.names(out) if isinstance(self.p, After) else out


def apply(A, v):
    out = {}
    for h, row in A.items():
        x = ZERO
        for g, c in row.items():
            if g in v:
                x = x + c * v[g]
        if not x.is_zero():
            out[h] = x
    return out


def reaches(K, p, L, v):
    """The outputs that depend on an error v of the values of the loop."""
    eta = rat_atom(atom(ETA))
    m = {}
    for h, c in v.items():
        a = atom(("R", L, h))
        m[a] = rat_atom(a) + eta * c
    hit = [key for key, r in sorted(p.mem.items())
           if not (subst(r, m) - r).is_zero()]
    return p.names(hit) if isinstance(p, After) else hit


def follow(K, p, L, v, A):
    """What becomes of an error in later iterations."""
    x = apply(A, v)
    for _ in range(3):
        if not x:
            return "ok", ""
        y = apply(A, x)
        hit = reaches(K, p, L, x)
        if y.keys() == x.keys() and all((y[h] - x[h]).is_zero() for h in x):
            return ("bad", hit[0]) if hit else ("ok", "")
        x = y
    hit = reaches(K, p, L, x) if x else None
    if hit == []:
        return "open", "the error changes from iteration to iteration"
    return ("bad", hit[0]) if hit else ("ok", "")
