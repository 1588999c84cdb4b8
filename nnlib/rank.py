"""Interpretation of one operation for fixed ranks of its operands.

Loops over dimensions have constant bounds then and are executed iteration by
iteration; extents stay symbolic and loops over tiles stay summarised."""
from .poly import Poly
from . import sym
from .sym import (Interp, Obj, Vec, LV, Snap, Hnd, Path, atom, C, AT, GiveUp,
                  Unk, ATOM)


def el(owner, d):
    return atom("el", owner + ".shape", C(d))


class RInterp(Interp):
    def __init__(self, fns, unit, layer, ranks):
        super().__init__(fns, unit, layer)
        self.ranks = ranks

    def rank_of(self, b):
        n = b.tensor if b.tensor else b.n
        return self.ranks.get(n)

    def prod(self, owner, a, b):
        r = C(1)
        for d in range(a, b):
            r = r * el(owner, d)
        return r

    def member(self, b, n, e, st):
        if isinstance(b, Obj) and b.kind in ("tensor", "tile", "grid"):
            r = self.rank_of(b)
            if r is not None:
                if n == "ndim":
                    return C(r)
                if n == "nelems":
                    return self.prod(b.n, 0, r)
                if n == "matrix_shape":
                    return ("ms", b.n, C(r))
                role = {"shape": "shape", "basetile_shape": "basetile",
                        "leftover_shape": "leftover",
                        "stride": "stride"}.get(n)
                if role:
                    return Vec(b.n + "." + n, C(r), b.n, role)
        return super().member(b, n, e, st)

    def elem(self, v, i):
        if v.role == "stride" and i.is_const():
            return self.prod(v.owner, 0, i.cval())
        return super().elem(v, i)

    def at(self, b, i, e, st):
        if isinstance(b, tuple) and b and b[0] == "ms1" and \
                isinstance(i, Poly) and i.is_const() and \
                isinstance(b[3], Poly):
            j = st.facts.norm(b[3])
            if j.is_const() and b[2].is_const():
                j, nd = j.cval(), b[2].cval()
                if 0 <= j <= nd:
                    return self.prod(b[1], 0, j) if i.cval() == 0 \
                        else self.prod(b[1], j, nd)
                return Unk("matrix_shape index out of range")
        return super().at(b, i, e, st)

    def segments(self, name, vid, lo, hi, enter, step, body, st, s, delta):
        lo, hi = st.facts.norm(lo), st.facts.norm(hi)
        if not (lo.is_const() and hi.is_const()) or \
                hi.cval() - lo.cval() > 12:
            return super().segments(name, vid, lo, hi, enter, step, body, st,
                                    s, delta)
        vs = list(range(lo.cval(), hi.cval()))
        if delta < 0:
            vs.reverse()
        paths, done = [Path("n", st)], []
        for v in vs:
            nxt = []
            for p in paths:
                for q in self.iterate(enter, C(v), step, body, p.st):
                    (nxt if q.flow == "n" else done).append(q)
            paths = nxt
            if len(paths) > 32:
                raise GiveUp("too many loop paths")
        for p in paths:
            if vid > 0:
                p.st.env[vid] = hi if delta > 0 else lo - C(1)
        for p in done:
            if p.flow == "break":
                p.flow = "n"
        return paths + done

    def arith(self, op, a, b, st):
        if op == "%" and isinstance(a, Poly) and isinstance(b, Poly):
            a, b = st.facts.norm(a), st.facts.norm(b)
            if a.is_const() and b.is_const() and b.cval() > 0 and \
                    a.cval() >= 0:
                return C(a.cval() % b.cval())
        return super().arith(op, a, b, st)

    def compare(self, op, a, b, st):
        # extents are positive: equal matrix shapes mean equal shapes
        if isinstance(a, tuple) and a and a[0] == "ms" and \
                isinstance(b, tuple) and b and b[0] == "ms":
            a = Vec(a[1] + ".shape", a[2], a[1], "shape")
            b = Vec(b[1] + ".shape", b[2], b[1], "shape")
        r = super().compare(op, a, b, st)
        if r[0] in ("veq", "vne"):
            la, lb = self.length(a, st), self.length(b, st)
            if la is not None and lb is not None:
                la, lb = st.facts.norm(la), st.facts.norm(lb)
                if la.is_const() and lb.is_const():
                    if la != lb:
                        return ("const", r[0] == "vne")
                    cs = []
                    for i in range(la.cval()):
                        x, y = self.index(a, C(i), st), self.index(b, C(i), st)
                        if not (isinstance(x, Poly) and isinstance(y, Poly)):
                            return r
                        cs.append(("eq", x - y))
                    if not cs:
                        return ("const", r[0] == "veq")
                    q = ("and", cs) if len(cs) > 1 else cs[0]
                    return q if r[0] == "veq" else sym.neg(q)
        return r
