"""The operations of the tile and tensor layers and their interpretation in
the rank contexts of their specification."""
import concurrent.futures
import re

from .build import AnalysisBroken
from .sym import Obj, Vec, C, GiveUp, Interp, IDX, TILES
from .rank import RInterp
from .spec import spec_of


def is_operand(t):
    return bool(re.search(r"tensor::Tensor<|tile::Tile<|TensorTraits|"
                          r"TileTraits", t))


class Op:
    """One asynchronous operation function."""

    def __init__(self, L, unit, f):
        self.L, self.unit, self.f = L, unit, f
        self.layer = L.layer
        self.name = f["n"][:-len("_async")]
        self.ta = tuple(f.get("ta") or ())
        self.params = [(p["n"], is_operand(p["t"])) for p in f["ps"]]
        self.operands = [n for n, o in self.params if o]

    @property
    def title(self):
        return "%s::%s_async%s" % (
            self.layer, self.name,
            "<%s>" % ", ".join(short(x) for x in self.ta) if self.ta else "")

    def key(self):
        k = "%s/%s" % (self.layer, self.name)
        if self.name == "axpy" and "alpha" in self.operands:
            k += "_tensor"
        return k

    def contexts(self, N):
        g = spec_of(self.name, self.params, self.layer)
        if g is None:
            return None
        return list(g(self.layer, N))

    def interp(self, c, keep=None):
        bind = {}
        for p in self.f["ps"]:
            n = p["n"]
            if "TransOp" in p["t"]:
                o = Obj(n, "transop")
                o.n = str(c["trans"].get(n, 0))
                o.param = n
                bind[n] = o
            elif n in c["ints"]:
                bind[n] = C(c["ints"][n])
            elif n in c["lens"]:
                bind[n] = Vec(n, C(c["lens"][n]))
        I = RInterp(self.L.fns, self.unit, self.layer, c["ranks"])
        I.keep = keep
        ps = I.run(self.f, bind)
        return I, ps


def short(t):
    return t.replace("nntile::", "")


class Layer:
    def __init__(self, ws, layer):
        self.ws, self.layer = ws, layer
        self.fns = {}
        self.units = ws.units(layer)
        self.asts = ws.asts(self.units)
        self.ops, self.sync = [], []
        for u, a in self.asts.items():
            for f in a["functions"]:
                if f["file"] == str(u):
                    self.fns[f["m"]] = f
                elif not f.get("cls") or not re.search(
                        r"Tensor|Tile|Handle|Codelet|Config", f["cls"]):
                    # helpers in headers are analysed like those of the unit
                    self.fns.setdefault(f["m"], f)
        for u, a in self.asts.items():
            for f in a["functions"]:
                if f["file"] != str(u) or f.get("cls") or f.get("static"):
                    continue
                if not any(is_operand(p["t"]) for p in f["ps"]):
                    continue
                if f["n"].endswith("_async"):
                    self.ops.append(Op(self, u, f))
                elif f.get("rt", "void") == "void":
                    self.sync.append((u, f))

    def representatives(self):
        """One instantiation per operation: they share one template body."""
        seen = {}
        for o in self.ops:
            k = (o.unit, o.name, tuple(o.params))
            if k not in seen or rank_ta(o.ta) < rank_ta(seen[k].ta):
                seen[k] = o
        return sorted(seen.values(), key=lambda o: o.key())


def rank_ta(ta):
    pref = ["float", "double", "long"]
    return [pref.index(t) if t in pref else 9 for t in ta]


def where(ws, f, line=None):
    return "%s:%s" % (ws.display(f["file"]), line or f.get("l"))


def cshow(c):
    """Describe a context."""
    s = []
    s += ["%s has %d dimensions" % kv for kv in c["ranks"].items()]
    s += ["%s=%d" % kv for kv in c["ints"].items()]
    s += ["%s has %d entries" % kv for kv in c["lens"].items()]
    s += ["%s=%s" % (k, "T" if v else "N") for k, v in c["trans"].items()]
    return ", ".join(s)
