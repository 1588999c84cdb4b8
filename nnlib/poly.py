"""Multivariate polynomials with integer coefficients over named atoms."""


class Poly:
    __slots__ = ("t",)

    def __init__(self, t=None):
        self.t = {k: v for k, v in (t or {}).items() if v != 0}

    @staticmethod
    def const(c):
        return Poly({(): c})

    @staticmethod
    def atom(a):
        return Poly({(a,): 1})

    def __add__(self, o):
        t = dict(self.t)
        for k, v in o.t.items():
            t[k] = t.get(k, 0) + v
        return Poly(t)

    def __sub__(self, o):
        return self + o * Poly.const(-1)

    def __mul__(self, o):
        t = {}
        for k, v in self.t.items():
            for l, w in o.t.items():
                m = tuple(sorted(k + l))
                t[m] = t.get(m, 0) + v * w
        return Poly(t)

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __hash__(self):
        return hash(frozenset(self.t.items()))

    def is_const(self):
        return all(k == () for k in self.t)

    def cval(self):
        return self.t.get((), 0)

    def is_zero(self):
        return not self.t

    def atoms(self):
        return {a for k in self.t for a in k}

    def monomial(self):
        """(coef, atoms) if a single term."""
        if len(self.t) != 1:
            return None
        (k, v), = self.t.items()
        return v, k

    def degree(self, a):
        return max((k.count(a) for k in self.t), default=0)

    def coeff(self, a):
        """(coefficient of a^1, rest) for polynomials at most linear in a."""
        c, r = {}, {}
        for k, v in self.t.items():
            n = k.count(a)
            if n == 0:
                r[k] = v
            elif n == 1:
                kk = list(k)
                kk.remove(a)
                c[tuple(kk)] = v
            else:
                return None, None
        return Poly(c), Poly(r)

    def subst(self, m):
        r = Poly()
        for k, v in self.t.items():
            x = Poly.const(v)
            for a in k:
                x = x * (m[a] if a in m else Poly.atom(a))
            r = r + x
        return r

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for k, v in sorted(self.t.items(), key=lambda kv: (-len(kv[0]), str(kv[0]))):
            s = "*".join(str(a) for a in k)
            if not s:
                out.append(str(v))
            elif v == 1:
                out.append(s)
            else:
                out.append("%d*%s" % (v, s))
        return " + ".join(out).replace("+ -", "- ")
