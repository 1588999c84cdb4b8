"""Abstract interpreter for the C++ core classes (handles, traits, tiles,
tensors, runtime start-up, NumPy exchange), over the type-resolved syntax tree.

Objects are tracked precisely (constructors, copies, destructors of locals,
members, temporaries, also while an exception propagates); integers are
polynomials over symbolic atoms with facts; a condition the facts do not
decide is followed both ways.  Calls that leave the analysed sources are
events.  Nothing is executed."""
import re

from . import limit as limits
from .poly import Poly
from .sym import Facts

C = Poly.const


DIV = {}    # quotient atoms: numerator and denominator


class GiveUp(Exception):
    pass


class CFacts(Facts):
    def __init__(self, o=None):
        super().__init__(o)
        self.pos = set(o.pos) if o else set()
        self.nn = set(o.nn) if o else set()

    def prove_ge(self, p, depth=4):
        if super().prove_ge(p, depth):
            return True
        # p >= -1 and p != -1
        q = self.norm(p + C(1))
        for x in self.ne:
            x = self.norm(x)
            if x == q or x == q * C(-1):
                return super().prove_ge(q, depth)
        return False

    def nonneg_atom(self, a):
        return a in self.nn or a in self.pos

    def pos_atom(self, a):
        return a in self.pos


class CxxThrow(Exception):
    def __init__(self, what, line=None):
        self.what, self.line = what, line


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Brk(Exception):
    pass


class _Cont(Exception):
    pass


class _More(Exception):
    """The decision list ended: both ways have to be followed."""


class Cell:
    __slots__ = ("v", "dead")

    def __init__(self, v=None):
        self.v = v
        self.dead = False


class Struct:
    def __init__(self, cls, lazy=None):
        self.cls = cls
        self.f = {}
        self.lazy = lazy      # name of an unknown object
        self.zeroed = False   # memory was cleared
        self.dead = False

    def __repr__(self):
        return "<%s %s>" % (self.cls, {k[1]: c.v for k, c in self.f.items()})


class Vect:
    def __init__(self, et, items=()):
        self.et = et
        self.items = list(items)
        self.dead = False

    def __repr__(self):
        return "[%s]" % ", ".join(repr(c.v) for c in self.items)


class Mem(Vect):
    """A buffer of unknown size, addressed by polynomials; its elements are
    symbols."""

    class Elem:
        def __init__(self, mem, off):
            self.mem, self.off = mem, off

        def __repr__(self):
            return "%s[%s]" % (self.mem.name, self.off)

    def __init__(self, name):
        super().__init__("?")
        self.name, self.cells, self.first = name, {}, {}

    def cell(self, off):
        k = str(off)
        if k not in self.cells:
            v = self.Elem(self, off)
            self.cells[k], self.first[k] = Cell(v), v
        return self.cells[k]

    def __repr__(self):
        return self.name


class Flt:
    """A floating-point expression: (operator, operands...)."""

    def __init__(self, op, *a):
        self.op, self.a = op, a

    def __repr__(self):
        return "%s(%s)" % (self.op, ", ".join(map(repr, self.a)))


class Ctrl:
    def __init__(self, ptr, deleter):
        self.ptr, self.deleter, self.count = ptr, deleter, 1


class Shared:
    def __init__(self, ctrl=None):
        self.ctrl = ctrl

    def __repr__(self):
        return "shared(%s)" % (self.ctrl and self.ctrl.ptr)


class Ptr:
    """Pointer to a cell, or to an element of an array."""

    def __init__(self, cell, vec=None, i=None):
        self.cell, self.vec, self.i = cell, vec, i


class Fn:
    def __init__(self, m, q):
        self.m, self.q = m, q

    def __repr__(self):
        return "fn " + self.q

    def __eq__(self, o):
        return isinstance(o, Fn) and o.m == self.m

    def __hash__(self):
        return hash(self.m)


class Lam:
    def __init__(self, node, frame):
        self.node, self.frame = node, frame


class Tok:
    """An opaque value (handle, pointer or object of a library class)."""

    def __init__(self, name, t="", **kw):
        self.name, self.t = name, t
        self.info = kw
        self.memo = {}

    def __repr__(self):
        return self.name


class Str:
    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return repr(self.v)

    def __eq__(self, o):
        return isinstance(o, Str) and o.v == self.v

    def __hash__(self):
        return hash(self.v)


class Null:
    def __repr__(self):
        return "null"


NULL = Null()


class Unk:
    def __init__(self, why=""):
        self.why = why

    def __repr__(self):
        return "?" + self.why


class Event:
    def __init__(self, name, args, line, fn, res=None):
        self.name, self.args, self.line, self.fn, self.res = \
            name, args, line, fn, res

    @property
    def at(self):
        return self.fn["q"] if self.fn else "?"

    def __repr__(self):
        return "%s(%s)" % (self.name, ", ".join(map(repr, self.args)))


class Path:
    def __init__(self, kind, val, it):
        self.kind, self.val = kind, val      # ret | throw
        self.events, self.facts = it.events, it.facts
        self.oob = it.oob
        self.it = it


INTS = re.compile(r"^(const )?(volatile )?(unsigned |signed )?(char|short|int|"
                  r"long|long long|bool|unsigned|__int128)( int)?$|"
                  r"^(const )?(u?int\d+_t|size_t|.*starpu_data_access_mode)$")
WIDTH = {"char": 8, "signed char": 8, "unsigned char": 8, "short": 16,
         "unsigned short": 16, "int": 32, "unsigned int": 32, "long": 64,
         "unsigned long": 64, "long long": 64, "unsigned long long": 64,
         "bool": 1}


def bare(t):
    """Type without reference and top-level qualifiers."""
    t = (t or "").strip()
    while True:
        n = re.sub(r"\s*&&?$", "", t).strip()
        n = re.sub(r"\s+const$", "", n)
        n = re.sub(r"^(const|volatile)\s+", "", n) if not n.endswith("*") \
            else n
        if n == t:
            return t
        t = n


def is_ref(t):
    return (t or "").rstrip().endswith("&")


def targs(t):
    """Template arguments of a type name."""
    i = t.find("<")
    if i < 0:
        return []
    out, d, cur = [], 0, ""
    for ch in t[i + 1:t.rfind(">")]:
        if ch in "<(":
            d += 1
        elif ch in ">)":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    out.append(cur.strip())
    return out


SIZES = {"float": 4, "double": 8, "int": 4, "unsigned int": 4, "long": 8,
         "unsigned long": 8, "long long": 8, "unsigned long long": 8,
         "bool": 1, "nntile::fp16_t": 2, "char": 1, "short": 2, "unsigned char": 1}


class Code:
    """The functions and records of the analysed translation units."""

    def __init__(self, asts):
        self.fns, self.recs, self.globals = {}, {}, {}
        self.byq = {}
        for a in asts:
            for f in a["functions"]:
                if f["m"] not in self.fns:
                    self.fns[f["m"]] = f
                    self.byq.setdefault(f["q"], []).append(f)
            for r in a["records"]:
                self.recs.setdefault(bare(r["t"]), r)
            for g in a["globals"]:
                self.globals.setdefault(g["q"], g)
        self.dtors = {}
        self.ctors = {}
        for f in self.fns.values():
            c = f.get("clst") or f.get("cls")
            if not c:
                continue
            if f["n"].startswith("~"):
                self.dtors[bare(c)] = f
            elif "inits" in f:
                self.ctors.setdefault(bare(c), []).append(f)

    def rec(self, cls):
        return self.recs.get(bare(cls))

    def bases(self, cls):
        r = self.rec(cls)
        return [bare(b) for b in r["bases"]] if r else []

    def closure(self, cls):
        out = [bare(cls)]
        for b in self.bases(cls):
            out += self.closure(b)
        return out


def rname(cls):
    """Unqualified record name, as members carry it."""
    c = bare(cls).split("<")[0]
    return c.rsplit("::", 1)[-1]


class Interp:
    LOOP = 80
    DEPTH = 60
    floats = False           # keep floating-point expressions (Flt)

    def __init__(self, code, decisions=(), facts=None, world=None):
        self.code = code
        self.dec = list(decisions)
        self.used = 0
        self.facts = facts or CFacts()
        self.events = []
        self.oob = []
        self.n = 0
        self.depth = 0
        self.steps = 0
        self.stack = []          # functions being interpreted
        self.frame = {}
        self.temps = []
        self.globals = {}
        self.world = world       # model of external calls
        self.this = None
        self.alive = []          # structs whose destructor has not run yet

    # -- decisions ---------------------------------------------------------
    def choose(self, label):
        if self.used < len(self.dec):
            r = self.dec[self.used]
            self.used += 1
            return r
        raise _More()

    def test(self, kind, p, line=None):
        """Truth of p >= 0 (ge) or p == 0 (eq)."""
        d = self.facts.decide_ge(p) if kind == "ge" else \
            self.facts.decide_eq(p)
        if d is not None:
            return d
        r = self.choose((kind, p, line))
        q = self.facts.norm(p)
        if kind == "ge":
            self.facts.add_ge(q if r else q * C(-1) - C(1))
        elif r:
            self.facts.add_eq(q)
        else:
            self.facts.ne.append(q)
        return r

    def fresh(self, hint):
        self.n += 1
        return Poly.atom("%s#%d" % (hint, self.n))

    # -- values ------------------------------------------------------------
    def unknown(self, t, name):
        """Some value of type t."""
        b = bare(t)
        if INTS.match(b) or b in WIDTH:
            if b == "bool":
                p = Poly.atom(name)
                self.facts.add_ge(p)
                self.facts.add_ge(C(1) - p)
                return p
            p = Poly.atom(name)
            if b.startswith("unsigned") or b == "size_t":
                self.facts.add_ge(p)
                self.facts.nn.add(name)
            return p
        if b.startswith("std::shared_ptr<"):
            return Shared(Ctrl(Tok(name + ".ptr"), None))
        if self.code.rec(b):
            return Struct(b, lazy=name)
        if b.endswith("*"):
            inner = bare(b[:-1])
            if self.code.rec(inner):
                return Ptr(Cell(Struct(inner, lazy="*" + name)))
            return Tok(name, b)
        return Tok(name, b)

    def zero(self, t):
        b = bare(t)
        if b in WIDTH or INTS.match(b):
            return C(0)
        if b.endswith("*") or "(*)" in b:
            return NULL
        if b.startswith("std::shared_ptr<"):
            return Shared()
        m = re.match(r"^(.*\(\*)\[(\d+)\](\).*)$", b)
        if m:
            return Vect(m.group(1) + m.group(3),
                        [Cell(NULL) for _ in range(int(m.group(2)))])
        m = re.match(r"^(.*)\[(\d+)\]$", b)
        if m:
            return Vect(m.group(1).strip(), [Cell(self.zero(m.group(1)))
                                             for _ in range(int(m.group(2)))])
        if b.startswith("std::array<"):
            a = targs(b)
            n = int(re.match(r"\d+", a[1]).group(0))
            return Vect(a[0], [Cell(self.zero(a[0])) for _ in range(n)])
        if b.startswith("std::vector<"):
            return Vect(targs(b)[0])
        if self.code.rec(b):
            return self.default(b)
        return Unk(b)

    def default(self, cls):
        """Default-initialised object of a class of the repository."""
        cls = bare(cls)
        for k in self.code.ctors.get(cls, []):
            if not k["ps"]:
                s = Struct(cls)
                self.construct(s, cls, k, [])
                return s
        s = Struct(cls)
        self.default_into(s, cls)
        return s

    def default_into(self, s, cls):
        for b in self.code.bases(cls):
            ks = [k for k in self.code.ctors.get(b, []) if not k["ps"]]
            if ks:
                self.construct(s, b, ks[0], [])
            else:
                self.default_into(s, b)
        r = self.code.rec(cls)
        for f in (r["fields"] if r else ()):
            s.f[(rname(cls), f["n"])] = Cell(self.zero(f["t"]))

    def copyval(self, v, t=None):
        if isinstance(v, Shared):
            if v.ctrl:
                v.ctrl.count += 1
            return Shared(v.ctrl)
        if isinstance(v, Vect):
            if v.dead:
                self.event("use after destruction", [v], None)
            return Vect(v.et, [Cell(self.copyval(c.v)) for c in v.items])
        if isinstance(v, Struct):
            if v.dead:
                self.event("use after destruction", [v], None)
            cls = v.cls
            if t and self.code.rec(bare(t)) and bare(t) != cls \
                    and bare(t) in self.code.closure(cls):
                cls = bare(t)
            if v.lazy:
                self.explicit(v, cls)
            s = Struct(cls, v.lazy)
            s.zeroed = v.zeroed
            names = {rname(c) for c in self.code.closure(cls)}
            for k, c in v.f.items():
                if cls == v.cls or k[0] in names:
                    s.f[k] = Cell(self.copyval(c.v))
            self.alive.append(s)
            return s
        return v

    def drop(self, v, cls=None):
        """End of the lifetime of a value."""
        if isinstance(v, Cell):
            v = v.v
        if isinstance(v, Shared):
            c, v.ctrl = v.ctrl, None
            if c:
                c.count -= 1
                if c.count == 0:
                    self.release_ctrl(c)
        elif isinstance(v, Vect):
            if not v.dead:
                v.dead = True
                for c in v.items:
                    self.drop(c)
        elif isinstance(v, Struct):
            if v.dead:
                return
            self.destroy(v, cls or v.cls)
            v.dead = True
            if v in self.alive:
                self.alive.remove(v)

    def destroy(self, s, cls):
        d = self.code.dtors.get(bare(cls))
        if d and not s.lazy:
            self.invoke(d, Cell(s), [])
        self.destroy_fields(s, cls)
        for b in reversed(self.code.bases(cls)):
            self.destroy(s, b)

    def destroy_fields(self, s, cls):
        r = self.code.rec(cls)
        for f in reversed(r["fields"] if r else ()):
            c = s.f.get((rname(cls), f["n"]))
            if c is not None:
                self.drop(c)

    def release_ctrl(self, c):
        if c.deleter is None:
            self.event("delete", [c.ptr], None)
            return
        self.callv(c.deleter, [c.ptr], None)

    def temp(self, v):
        if isinstance(v, (Struct, Shared, Vect)):
            self.temps.append(v)
        return v

    def own(self, v, t=None):
        """Take over a temporary, or copy something that has an owner."""
        for i in range(len(self.temps) - 1, -1, -1):
            if self.temps[i] is v:
                if isinstance(v, Struct) and t and self.code.rec(bare(t)) \
                        and bare(t) != v.cls \
                        and bare(t) in self.code.closure(v.cls):
                    return self.copyval(v, t)    # sliced; source dies later
                del self.temps[i]
                return v
        return self.copyval(v, t)

    def full(self, fn):
        """Evaluate a full expression; its temporaries die at the end."""
        old, self.temps = self.temps, []
        try:
            return fn()
        finally:
            ts, self.temps = self.temps, old
            for v in reversed(ts):
                self.drop(v)

    def event(self, name, args, line, res=None):
        e = Event(name, args, line, self.stack[-1] if self.stack else None, res)
        self.events.append(e)
        return e

    # -- functions ---------------------------------------------------------
    def run(self, f, this=None, args=()):
        return self.invoke(f, this, list(args))

    def invoke(self, f, this, args):
        """args: values (by value, owned) or cells (references)."""
        if self.depth > self.DEPTH:
            raise GiveUp("recursion in " + f["q"])
        self.depth += 1
        sv = self.frame, self.this, self.temps
        self.stack.append(f)
        self.frame, self.this, self.temps = {}, this, []
        mine = []
        try:
            for p, a in zip(f["ps"], args):
                if is_ref(p["t"]):
                    self.frame[p["id"]] = a if isinstance(a, Cell) else Cell(a)
                else:
                    c = Cell(a)
                    self.frame[p["id"]] = c
                    mine.append(c)
            try:
                self.stmt(f["body"])
                r = None
            except _Ret as e:
                r = e.v
            if r is None and (f["rt"] or "void") != "void" and f["n"] != "main":
                r = Unk("no value")
            return r
        finally:
            for c in reversed(mine):
                self.drop(c)
            self.frame, self.this, self.temps = sv
            self.stack.pop()
            self.depth -= 1

    def construct(self, s, cls, k, args):
        """Run constructor k for the subobject cls of s."""
        if self.depth > self.DEPTH:
            raise GiveUp("recursion in " + k["q"])
        self.depth += 1
        sv = self.frame, self.this, self.temps
        self.stack.append(k)
        self.frame, self.this, self.temps = {}, Cell(s), []
        done, mine = [], []
        cls = bare(cls)
        try:
            for p, a in zip(k["ps"], args):
                if is_ref(p["t"]):
                    self.frame[p["id"]] = a if isinstance(a, Cell) else Cell(a)
                else:
                    c = Cell(a)
                    self.frame[p["id"]] = c
                    mine.append(c)
            try:
                rec = self.code.rec(cls)
                ftypes = {f["n"]: f["t"] for f in rec["fields"]} if rec else {}
                for i in k["inits"]:
                    if "base" in i:
                        b = bare(i["base"])
                        self.full(lambda: self.init_base(s, b, i["i"]))
                        done.append(("base", b))
                    elif "f" in i:
                        key = (rname(cls), i["f"])
                        t = ftypes.get(i["f"], "")
                        if is_ref(t):
                            s.f[key] = self.lv(i["i"])
                        else:
                            s.f[key] = Cell(self.full(
                                lambda: self.init(i["i"], t)))
                        done.append(("field", key))
                    else:      # delegating constructor
                        self.full(lambda: self.init_base(s, cls, i["i"]))
                        done.append(("base", cls))
                for n, t in ftypes.items():
                    if (rname(cls), n) not in s.f:
                        s.f[(rname(cls), n)] = Cell(
                            self.zero(t) if not (INTS.match(bare(t))
                                                 or bare(t) in WIDTH)
                            else Unk("uninitialised " + n))
                        done.append(("field", (rname(cls), n)))
                try:
                    self.stmt(k["body"])
                except _Ret:
                    pass
            except CxxThrow:
                for kind, x in reversed(done):
                    if kind == "field":
                        self.drop(s.f[x])
                    else:
                        self.destroy(s, x)
                raise
        finally:
            for c in reversed(mine):
                self.drop(c)
            self.frame, self.this, self.temps = sv
            self.stack.pop()
            self.depth -= 1

    def init_base(self, s, b, e):
        if e is None:
            return self.default_into(s, b)
        if e["k"] == "ctor":
            k = self.code.fns.get(e["m"])
            if k is not None:
                return self.construct(s, b, k, self.args(k, e["a"]))
            if self.code.rec(b):
                if e["a"]:
                    v = self.obj(self.ev(e["a"][0]))
                    return self.copy_base(s, b, v)
                return self.default_into(s, b)
            return None
        if e["k"] in ("il", "zero"):
            return self.default_into(s, b)
        v = self.ev(e)
        v = self.obj(v)
        self.copy_base(s, b, v)

    def copy_base(self, s, b, v):
        if not isinstance(v, Struct):
            raise GiveUp("copy of a base from %r" % (v,))
        names = {rname(c) for c in self.code.closure(b)}
        if v.lazy:
            self.explicit(v, b)
        for k, c in v.f.items():
            if k[0] in names:
                s.f[k] = Cell(self.copyval(c.v))

    def explicit(self, v, cls):
        """Name the fields of an unknown object."""
        for c in self.code.closure(cls):
            r = self.code.rec(c)
            for f in (r["fields"] if r else ()):
                self.field(v, rname(c), f["n"], f["t"])

    def args(self, f, es):
        out = []
        ps = f["ps"]
        for i, e in enumerate(es):
            t = ps[i]["t"] if i < len(ps) else ""
            if is_ref(t):
                c = self.lv(e)
                out.append(c)
            else:
                out.append(self.init(e, t))
        return out

    def init(self, e, t=None):
        """Value an object of type t is initialised with."""
        if e is None:
            return self.zero(t)
        b = bare(t)
        v = self.ev(e, b)
        return self.own(v, t)

    # -- statements --------------------------------------------------------
    def stmt(self, s):
        if s is None:
            return
        self.steps += 1
        if self.steps > 400000:
            raise GiveUp("too many steps")
        k = s["k"]
        m = getattr(self, "s_" + k, None)
        if m is None:
            raise GiveUp("statement %s" % (s.get("cls") or k))
        m(s)

    def scope(self, fn):
        """Run fn; the variables it declares die at its end."""
        old = getattr(self, "locals", None)
        self.locals = []
        try:
            fn()
        finally:
            ls, self.locals = self.locals, old
            for c in reversed(ls):
                self.drop(c)
                c.dead = True

    def s_block(self, s):
        def go():
            for x in s["b"]:
                self.stmt(x)
        self.scope(go)

    def s_decl(self, s):
        for d in s["d"]:
            if "bindings" in d:
                raise GiveUp("structured binding")
            self.declare(d)

    def declare(self, d, val=None):
        t = d["t"]
        if d.get("st"):
            key = (self.stack[-1].get("m"), d["id"])
            c = self.globals.get(key)
            if c is None:
                c = self.globals[key] = Cell(
                    self.full(lambda: self.init(d.get("i"), t)))
            self.frame[d["id"]] = c
            return
        if is_ref(t):
            if d.get("i") is None:
                raise GiveUp("reference without initialiser")
            # a temporary bound to a reference lives as long as it
            old, self.temps = self.temps, []
            try:
                c = self.lv(d["i"])
            except BaseException:
                ts, self.temps = self.temps, old
                for v in reversed(ts):
                    self.drop(v)
                raise
            ts, self.temps = self.temps, old
            for v in reversed(ts):
                if v is c.v:
                    self.locals.append(c)
                else:
                    self.drop(v)
            self.frame[d["id"]] = c
            return
        if d.get("i") is None and (bare(t) in WIDTH or INTS.match(bare(t))
                                   or bare(t).endswith("*")):
            v = Unk("uninitialised " + d["n"])
        else:
            v = self.full(lambda: self.init(d.get("i"), t))
        c = Cell(v)
        self.frame[d["id"]] = c
        self.locals.append(c)

    def s_expr(self, s):
        self.full(lambda: self.ev(s["e"]))

    def s_nop(self, s):
        pass

    def truth(self, e):
        return self.full(lambda: self.bool(self.ev(e), e))

    def s_if(self, s):
        def go():
            if s.get("in"):
                self.stmt(s["in"])
            if s.get("cv"):
                self.declare(s["cv"])
            if self.truth(s["c"]):
                self.stmt(s["t"])
            elif s.get("f"):
                self.stmt(s["f"])
        self.scope(go)

    def body(self, b):
        """Loop body; False when left by break."""
        try:
            self.stmt(b)
        except _Cont:
            pass
        except _Brk:
            return False
        return True

    def s_for(self, s):
        def go():
            self.stmt(s.get("in"))
            for _ in range(self.LOOP):
                if s.get("c") is not None and not self.truth(s["c"]):
                    return
                if not self.body(s["b"]):
                    return
                if s.get("s") is not None:
                    self.full(lambda: self.ev(s["s"]))
            raise GiveUp("loop not bounded")
        self.scope(go)

    def s_while(self, s):
        for _ in range(self.LOOP):
            if not self.truth(s["c"]):
                return
            if not self.body(s["b"]):
                return
        raise GiveUp("loop not bounded")

    def s_do(self, s):
        for _ in range(self.LOOP):
            if not self.body(s["b"]):
                return
            if not self.truth(s["c"]):
                return
        raise GiveUp("loop not bounded")

    def s_rfor(self, s):
        def go():
            c = self.lv(s["r"])
            v = self.obj(c.v)
            if not isinstance(v, Vect):
                raise GiveUp("range of %r" % (v,))
            for it in list(v.items):
                def one():
                    if is_ref(s["v"]["t"]):
                        self.frame[s["v"]["id"]] = it
                    else:
                        c2 = Cell(self.copyval(it.v))
                        self.frame[s["v"]["id"]] = c2
                        self.locals.append(c2)
                    try:
                        self.stmt(s["b"])
                    except _Cont:
                        pass
                try:
                    self.scope(one)
                except _Brk:
                    return
        old, self.temps = self.temps, []
        try:
            self.scope(go)
        finally:
            ts, self.temps = self.temps, old
            for v in reversed(ts):
                self.drop(v)

    def s_ret(self, s):
        f = self.stack[-1]
        if s.get("a") is None:
            raise _Ret(None)
        if is_ref(f["rt"]):
            raise _Ret(self.full(lambda: self.lv(s["a"])))
        raise _Ret(self.full(lambda: self.init(s["a"], f["rt"])))

    def s_break(self, s):
        raise _Brk()

    def s_cont(self, s):
        raise _Cont()

    def s_switch(self, s):
        v = self.full(lambda: self.ev(s["c"]))
        if not isinstance(v, Poly):
            raise GiveUp("switch on %r" % (v,))
        body = s["b"]["b"] if s["b"]["k"] == "block" else [s["b"]]
        flat = []         # (labels, statement)
        for x in body:
            labels = []
            while x is not None and x["k"] in ("case", "default"):
                labels.append(self.ev(x["v"]) if x["k"] == "case" else None)
                x = x["b"]
            flat.append((labels, x))
        start = None
        for i, (ls, x) in enumerate(flat):
            for l in ls:
                if l is not None and self.test("eq", v - l):
                    start = i
                    break
            if start is not None:
                break
        if start is None:
            for i, (ls, x) in enumerate(flat):
                if None in ls:
                    start = i
        if start is None:
            return

        def go():
            try:
                for ls, x in flat[start:]:
                    self.stmt(x)
            except _Brk:
                pass
        self.scope(go)

    def s_try(self, s):
        try:
            self.stmt(s["b"])
        except CxxThrow as e:
            h = s["h"][0] if s["h"] else None
            if h is None:
                raise
            try:
                self.caught = getattr(self, "caught", []) + [e]
                self.stmt(h["b"])
            finally:
                self.caught = self.caught[:-1]

    # -- lvalues -----------------------------------------------------------
    def lv(self, e):
        """Cell an expression designates (a new one for a temporary)."""
        k = e["k"]
        if k == "var":
            return self.var(e)
        if k == "mem":
            return self.member(e)
        if k == "idx":
            return self.index(e)
        if k == "un" and e["op"] == "*":
            v = self.ev(e["a"])
            return self.deref(v, e)
        if k == "un" and e["op"] in ("++", "--"):
            self.ev(e)
            return self.lv(e["a"])
        if k == "asg":
            self.ev(e)
            return self.lv(e["a"])
        if k == "cast" and e.get("cn") in ("NoOp", "DerivedToBase",
                                           "UncheckedDerivedToBase",
                                           "BaseToDerived"):
            return self.lv(e["a"])
        if k == "cond":
            return self.lv(e["a"] if self.bool(self.ev(e["c"]), e) else e["b"])
        if k == "call":
            r = self.call(e)
            if isinstance(r, Cell):
                return r
            return Cell(r)
        v = self.ev(e)
        return v if isinstance(v, Cell) else Cell(v)

    def var(self, e):
        c = self.frame.get(e["id"])
        if c is not None:
            if c.dead:
                self.event("use after scope", [Str(e["n"])], e.get("l"))
            return c
        if e.get("s") == "g":
            q = e["q"]
            c = self.globals.get(q)
            if c is None:
                t = e.get("t", "")
                if self.code.rec(bare(t)):
                    v = self.default(bare(t))
                    v.name = q
                else:
                    v = self.unknown(t, q)
                c = self.globals[q] = Cell(v)
            return c
        raise GiveUp("variable " + e["n"])

    def obj(self, v):
        """Object behind a pointer, reference or smart pointer."""
        for _ in range(6):
            if isinstance(v, Cell):
                v = v.v
            elif isinstance(v, Ptr):
                v = v.cell.v if v.cell else v
                if isinstance(v, Ptr):
                    return v
            else:
                break
        return v

    def field(self, s, c, n, t):
        key = (c, n)
        if s.dead:
            self.event("use after destruction", [s, Str(n)], None)
        x = s.f.get(key)
        if x is None:
            v = self.unknown(t, "%s.%s" % (s.lazy or "?", n)) if s.lazy \
                else self.zero(t) if s.zeroed else Unk("field " + n)
            x = s.f[key] = Cell(v)
        return x

    def member(self, e):
        b = self.obj(self.ev(e["b"]) if e.get("ar") else self.lv(e["b"]))
        if isinstance(b, Tok):
            k = "." + e["n"]
            if k not in b.memo:
                b.memo[k] = Cell(self.unknown(e["t"], b.name + k))
            return b.memo[k]
        if isinstance(b, Shared):
            b = self.obj(b.ctrl.ptr) if b.ctrl else NULL
        if not isinstance(b, Struct):
            if isinstance(b, Unk):
                return Cell(Unk(e["n"]))
            raise GiveUp("member %s of %r" % (e["n"], b))
        return self.field(b, e.get("c", ""), e["n"], e["t"])

    def inrange(self, i, n, e, what):
        """0 <= i < n?  Records an obligation."""
        lo = self.facts.decide_ge(i)
        hi = self.facts.decide_ge(C(n) - C(1) - i)
        ok = bool(lo) and bool(hi)
        self.oob.append((ok, what, e.get("l"),
                         self.stack[-1]["q"] if self.stack else None, i, n))
        return ok

    def index(self, e):
        b = self.obj(self.lv(e["b"]))
        i = self.ev(e["i"])
        if isinstance(i, Cell):
            i = i.v
        if isinstance(b, Ptr) and b.vec is not None:
            return self.at(b.vec, b.i + i, e)
        if isinstance(b, Vect):
            if b.dead:
                self.event("use after destruction", [b], e.get("l"))
            return self.at(b, i, e)
        if isinstance(b, Tok):
            k = "[%s]" % (i,)
            if k not in b.memo:
                b.memo[k] = Cell(self.unknown(e["t"], b.name + k))
            self.event("index", [b, i], e.get("l"))
            return b.memo[k]
        if isinstance(b, (Unk, Str)):
            return Cell(Unk("element"))
        if isinstance(b, Ptr):
            if isinstance(i, Poly) and i.is_zero():
                return b.cell
        if isinstance(b, Null):
            self.event("null access", [], e.get("l"))
            return Cell(Unk("null"))
        raise GiveUp("index of %r" % (b,))

    def at(self, b, i, e):
        if not isinstance(i, Poly):
            raise GiveUp("index %r" % (i,))
        i = self.facts.norm(i)
        if isinstance(b, Mem):
            return b.cell(i)
        n = len(b.items)
        what = "index %s of %d elements" % (i, n)
        if i.is_const():
            self.inrange(i, n, e, what)
            if 0 <= i.cval() < n:
                return b.items[i.cval()]
            return Cell(Unk("outside"))
        if not self.inrange(i, n, e, what):
            return Cell(Unk("outside"))
        for j in range(n):
            if j == n - 1 or self.test("eq", i - C(j)):
                self.facts.add_eq(i - C(j))
                return b.items[j]

    def deref(self, v, e):
        if isinstance(v, Cell):
            v = v.v
        if isinstance(v, Ptr):
            if v.vec is not None:
                return self.at(v.vec, v.i, e)
            return v.cell
        if isinstance(v, Shared):
            v = v.ctrl.ptr if v.ctrl else NULL
            if isinstance(v, Ptr):
                return v.cell
        if isinstance(v, Tok):
            if "*" not in v.memo:
                t = e.get("t", "")
                v.memo["*"] = Cell(self.unknown(t, "*" + v.name))
            return v.memo["*"]
        if isinstance(v, Struct):
            return Cell(v)
        if isinstance(v, Unk):
            return Cell(Unk("*"))
        if isinstance(v, Null):
            self.event("null access", [], e.get("l"))
            return Cell(Unk("null"))
        raise GiveUp("dereference of %r" % (v,))

    # -- expressions -------------------------------------------------------
    def ev(self, e, t=None):
        k = e["k"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            if k == "?":
                for a in e.get("a", []):
                    self.ev(a)
                return Unk(e.get("cls", ""))
            raise GiveUp("expression " + k)
        if k == "il":
            v = self.e_il(e, t)
        else:
            v = m(e)
        return v

    def rd(self, v):
        return v.v if isinstance(v, Cell) else v

    def e_int(self, e):
        v = e["v"]
        return C(int(v))

    def e_flt(self, e):
        if self.floats and e.get("v") is not None:
            return Flt("num", float(e["v"]))
        return Unk("float")

    def e_str(self, e):
        return Str(e.get("v", ""))

    def e_null(self, e):
        return NULL

    def e_zero(self, e):
        return self.zero(e.get("t"))

    def e_sizeof(self, e):
        return C(SIZES.get(bare(e["of"]), 0)) if bare(e["of"]) in SIZES \
            else Poly.atom("sizeof(%s)" % bare(e["of"]))

    def e_fn(self, e):
        return Fn(e["m"], e["f"])

    def e_ref(self, e):
        return Unk(e["n"])

    def e_lambda(self, e):
        return Lam(e, dict(self.frame))

    def e_var(self, e):
        return self.var(e).v

    def e_mem(self, e):
        return self.member(e).v

    def e_idx(self, e):
        return self.index(e).v

    def e_this(self, e):
        return Ptr(self.this)

    def e_il(self, e, t=None):
        t = bare(e.get("t") or t or "")
        rec = self.code.rec(t)
        if rec:
            s = Struct(t)
            for f, a in zip(rec["fields"], e["a"]):
                s.f[(rname(t), f["n"])] = Cell(self.init(a, f["t"]))
            for f in rec["fields"][len(e["a"]):]:
                s.f[(rname(t), f["n"])] = Cell(self.zero(f["t"]))
            return self.temp(s)
        if t in WIDTH or INTS.match(t) or t.endswith("*"):
            return self.ev(e["a"][0]) if e["a"] else self.zero(t)
        if not e["a"] and t.startswith(("std::plus<", "std::minus<",
                                        "std::multiplies<")):
            return Tok(t, t)
        et = ""
        m = re.match(r"^(.*?)\s*\[\d*\]$", t)
        if m:
            et = m.group(1)
        elif targs(t):
            et = targs(t)[0]
        items = [Cell(self.init(a, et)) for a in e["a"]]
        # an array wrapped in a class (std::array)
        if t.startswith("std::array<") and len(items) == 1 \
                and isinstance(items[0].v, Vect) \
                and not targs(t)[0].startswith(("std::array", "std::vector")):
            items = items[0].v.items
        mm = re.match(r"^.*\[(\d+)\]$", t)
        n = int(mm.group(1)) if mm else None
        if t.startswith("std::array<"):
            n = int(re.match(r"\d+", targs(t)[1]).group(0))
        while n is not None and len(items) < n:
            items.append(Cell(self.zero(et)))
        return self.temp(Vect(et, items))

    def e_cast(self, e):
        t, st = bare(e["t"]), bare(e.get("st"))
        v = self.rd(self.ev(e["a"]))
        cn = e.get("cn", "")
        if cn in ("IntegralToBoolean", "PointerToBoolean"):
            return self.boolv(self.bool(v, e))
        if cn == "NullToPointer":
            return NULL
        if cn == "IntegralCast" and isinstance(v, Poly):
            return self.narrow(v, t, st)
        if cn in ("IntegralToFloating", "FloatingCast"):
            if isinstance(v, Flt):
                return v
            if self.floats and isinstance(v, Poly):
                return Flt("int", v)
            return Unk("float")
        if cn == "FloatingToIntegral":
            return self.fresh("round")
        if cn == "ToVoid":
            return None
        return v

    def boolv(self, b):
        return C(1 if b else 0)

    def narrow(self, p, t, st):
        w, sw = WIDTH.get(t), WIDTH.get(st)
        if w is None or sw is None:
            return p
        uns = t.startswith("unsigned")
        suns = st.startswith("unsigned") or st == "bool"
        q = self.facts.norm(p)
        if q.is_const():
            c = q.cval()
            if uns:
                return C(c % (1 << w))
            c %= 1 << w
            return C(c - (1 << w) if c >= 1 << (w - 1) else c)
        if w < sw and t != "bool":
            self.events.append(Event("narrow", [q, Str(t)], None,
                                     self.stack[-1] if self.stack else None))
            hi = (1 << (w if uns else w - 1)) - 1
            lo = 0 if uns else -(1 << (w - 1))
            if self.facts.prove_ge(C(hi) - q) and \
                    self.facts.prove_ge(q - C(lo)):
                return p
            return self.fresh("trunc")
        if uns and not suns:
            # a negative value wraps around
            if self.test("ge", q):
                return p
            w_ = self.fresh("wrap")
            self.facts.add_ge(w_ - C(1 << (w - 1)))
            return w_
        return p

    def bool(self, v, e=None):
        v = self.rd(v)
        if isinstance(v, bool):
            return v
        if isinstance(v, Poly):
            return not self.test("eq", v, e.get("l") if e else None)
        if isinstance(v, Null):
            return False
        if isinstance(v, Shared):
            return v.ctrl is not None
        if isinstance(v, (Ptr, Fn, Str, Struct, Lam)):
            return True
        if isinstance(v, Tok):
            if "bool" not in v.memo:
                v.memo["bool"] = self.choose(("null?", v, e))
            return v.memo["bool"]
        if v is None:
            raise GiveUp("void condition")
        return self.choose(("unknown", v, e))

    def e_cond(self, e):
        if self.bool(self.ev(e["c"]), e):
            return self.ev(e["a"])
        return self.ev(e["b"])

    def e_throw(self, e):
        what = None
        if e.get("a") is not None:
            what = self.ev(e["a"])
        elif getattr(self, "caught", None):
            raise self.caught[-1]
        raise CxxThrow(what, e.get("l"))

    def e_new(self, e):
        v = self.init(e["a"][0], bare(e["t"])[:-1]) if e["a"] \
            else self.zero(bare(e["t"])[:-1])
        self.event("new", [v], e.get("l"))
        return Ptr(Cell(v))

    def e_delete(self, e):
        v = self.rd(self.ev(e["a"]))
        self.event("delete", [v], e.get("l"))
        if isinstance(v, Ptr):
            self.drop(v.cell)
        return None

    def same(self, a, b):
        """Equality of two non-integer values, None if not known."""
        def core(x):
            if isinstance(x, Shared):
                return x.ctrl.ptr if x.ctrl else NULL
            return x
        a, b = core(a), core(b)
        if a is b:
            return True
        if isinstance(a, Null) or isinstance(b, Null):
            o = b if isinstance(a, Null) else a
            if isinstance(o, (Ptr, Fn, Str)):
                return False
            if isinstance(o, Null):
                return True
            if isinstance(o, Tok):
                if "bool" not in o.memo:
                    o.memo["bool"] = self.choose(("null?", o, None))
                return not o.memo["bool"]
            return None
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.vec is not None and a.vec is b.vec:
                return self.test("eq", a.i - b.i)
            return a.cell is b.cell and a.vec is None
        if isinstance(a, (Fn, Str)) and isinstance(b, (Fn, Str)):
            return a == b
        if isinstance(a, Vect) and isinstance(b, Vect):
            if len(a.items) != len(b.items):
                return False
            for x, y in zip(a.items, b.items):
                if not self.equal(x.v, y.v):
                    return False
            return True
        return None

    def equal(self, a, b):
        if isinstance(a, Poly) and isinstance(b, Poly):
            return self.test("eq", a - b)
        r = self.same(a, b)
        if r is None:
            r = self.choose(("eq", a, b))
        return r

    def e_bin(self, e):
        op = e["op"]
        if op == "&&":
            return self.boolv(self.bool(self.ev(e["a"]), e)
                              and self.bool(self.ev(e["b"]), e))
        if op == "||":
            return self.boolv(self.bool(self.ev(e["a"]), e)
                              or self.bool(self.ev(e["b"]), e))
        if op == ",":
            self.ev(e["a"])
            return self.ev(e["b"])
        a = self.rd(self.ev(e["a"]))
        b = self.rd(self.ev(e["b"]))
        return self.binop(op, a, b, e)

    def binop(self, op, a, b, e):
        l = e.get("l")
        if isinstance(a, Poly) and isinstance(b, Poly):
            if op == "==":
                return self.boolv(self.test("eq", a - b, l))
            if op == "!=":
                return self.boolv(not self.test("eq", a - b, l))
            if op == ">=":
                return self.boolv(self.test("ge", a - b, l))
            if op == "<=":
                return self.boolv(self.test("ge", b - a, l))
            if op == "<":
                return self.boolv(not self.test("ge", a - b, l))
            if op == ">":
                return self.boolv(not self.test("ge", b - a, l))
            r = self.arith(op, a, b, e)
            if op in "+-*<<" and r.is_const() and bare(e.get("t")) in (
                    "unsigned long", "unsigned long long"):
                return C(r.cval() % (1 << 64))
            return r
        if isinstance(a, Flt) and isinstance(b, Flt):
            if op in ("<", ">", "<=", ">=", "==", "!="):
                r = self.world.float_test(op, a, b) if hasattr(
                    self.world, "float_test") else None
                if r is None:
                    r = self.choose((op, a, b))
                self.event("float test", [op, a, b, r], l)
                return self.boolv(r)
            return Flt(op, a, b)
        if op in ("==", "!="):
            r = self.equal(a, b)
            return self.boolv(r if op == "==" else not r)
        if isinstance(a, Ptr) and isinstance(b, Poly) and op in "+-" \
                and a.vec is not None:
            return Ptr(None, a.vec, a.i + b if op == "+" else a.i - b)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.vec is not None \
                and a.vec is b.vec:
            return self.binop(op, a.i, b.i, e)
        if isinstance(a, Tok) and op in "+-":
            return Tok("%s%s%s" % (a, op, b), a.t, base=a,
                       off=b if op == "+" else None)
        if op in ("<", ">", "<=", ">="):
            return self.boolv(self.choose((op, a, b)))
        if op in ("<<", ">>"):
            return a
        return Unk(op)

    def arith(self, op, a, b, e):
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        a, b = self.facts.norm(a), self.facts.norm(b)
        if op == "/":
            return self.div(a, b, e)
        if op == "%":
            if a.is_const() and b.is_const() and b.cval():
                x, y = a.cval(), b.cval()
                return C(x - y * int(x / y))
            return a - b * self.div(a, b, e)
        if a.is_const() and b.is_const():
            x, y = a.cval(), b.cval()
            return C({"&": lambda: x & y, "|": lambda: x | y,
                      "^": lambda: x ^ y, "<<": lambda: x << y,
                      ">>": lambda: x >> y}[op]())
        if op == "&" and (a.is_zero() or b.is_zero()):
            return C(0)
        if op == "|" and a.is_zero():
            return b
        if op == "|" and b.is_zero():
            return a
        return Poly.atom("(%s%s%s)" % (a, op, b))

    def div(self, a, b, e):
        if b.is_const():
            if b.cval() == 0:
                self.event("division by zero", [], e.get("l"))
                return self.fresh("div0")
            if b.cval() == 1:
                return a
            if a.is_const():
                return C(int(a.cval() / b.cval()))
        elif self.facts.decide_ge(b - C(1)) is not True:
            self.event("division", [b], e.get("l"))
        if self.facts.prove_ge(a) and self.facts.prove_ge(b - a - C(1)):
            return C(0)
        # a = b*q + r with terms of a that are multiples of b
        q, r = C(0), a
        bm = b.t if len(b.t) == 1 else None
        if bm:
            (bk, bc), = bm.items()
            q, r = {}, {}
            for k, v in a.t.items():
                rest = list(k)
                okk = v % bc == 0
                for x in bk:
                    if x in rest:
                        rest.remove(x)
                    else:
                        okk = False
                if okk:
                    q[tuple(rest)] = q.get(tuple(rest), 0) + v // bc
                else:
                    r[k] = v
            q, r = Poly(q), Poly(r)
        if r.is_zero():
            return q
        f = self.facts
        if f.prove_ge(r) and f.prove_ge(b - r - C(1)) and \
                (f.prove_ge(q) or True):
            if f.prove_ge(a):
                return q
        if not q.is_zero() and f.prove_ge(a) and f.prove_ge(r + b) and \
                f.prove_ge(r * C(-1) - C(1)):
            return q - C(1)
        if f.prove_ge(a) and f.prove_ge(r) and \
                f.prove_ge(b + b - r - C(1)):
            return q + C(1) if self.test("ge", r - b, e.get("l")) else q
        # unknown quotient, defined by its bounds
        if not f.prove_ge(a) or not f.prove_ge(b - C(1)):
            return self.fresh("quot")
        name = "div(%s,%s)" % (a, b)
        z = Poly.atom(name)
        DIV[name] = (a, b)
        if name not in f.nn:
            f.nn.add(name)
            f.add_ge(z)
            f.add_ge(a - b * z)
            f.add_ge(b * z + b - C(1) - a)
            f.add_ge(a - z)
            # a <= b*c - 1  =>  z <= c - 1
            for g in list(f.ge):
                # facts  M - 1 - a >= 0 with M a multiple of b
                s = f.norm(g) + a
                for add in (C(1), C(0)):
                    m = s + add
                    if bm and not m.is_zero():
                        kk = self.exact(m, bk, bc)
                        if kk is not None:
                            f.add_ge(kk - C(1) - z if add.cval() == 1
                                     else kk - z)
        return z

    @staticmethod
    def exact(p, bk, bc):
        out = {}
        for k, v in p.t.items():
            rest = list(k)
            for x in bk:
                if x not in rest:
                    return None
                rest.remove(x)
            if v % bc:
                return None
            out[tuple(rest)] = out.get(tuple(rest), 0) + v // bc
        return Poly(out)

    def e_un(self, e):
        op = e["op"]
        if op == "&":
            a = e["a"]
            if a["k"] == "idx":
                b = self.obj(self.lv(a["b"]))
                if isinstance(b, Vect):
                    return Ptr(None, b, self.rd(self.ev(a["i"])))
                if isinstance(b, Ptr) and b.vec is not None:
                    return Ptr(None, b.vec, b.i + self.rd(self.ev(a["i"])))
            if a["k"] == "fn":
                return Fn(a["m"], a["f"])
            return Ptr(self.lv(a))
        if op == "*":
            if e.get("ov") and e["t"].startswith("?"):
                return self.ev(e["a"])
            v = self.rd(self.ev(e["a"]))
            if e.get("ov") and isinstance(v, Shared):
                return v          # operator-> of a smart pointer
            return self.deref(v, e).v
        if op == "!":
            return self.boolv(not self.bool(self.ev(e["a"]), e))
        if op in ("++", "--", "p++", "p--"):
            c = self.lv(e["a"])
            old = c.v
            d = C(1) if "+" in op else C(-1)
            if isinstance(old, Poly):
                c.v = old + d
            elif isinstance(old, Ptr) and old.vec is not None:
                c.v = Ptr(None, old.vec, old.i + d)
            else:
                c.v = Unk("incremented")
            return old if op[0] == "p" else c.v
        v = self.rd(self.ev(e["a"]))
        if op == "-" and isinstance(v, Poly):
            return v * C(-1)
        if op == "-" and isinstance(v, Flt):
            return Flt("neg", v)
        if op == "+":
            return v
        if op == "~" and isinstance(v, Poly):
            if v.is_const():
                return C(~v.cval())
            return Poly.atom("~(%s)" % v)
        return Unk(op)

    def e_asg(self, e):
        op = e["op"]
        if op == "=":
            v = self.init(e["b"], e.get("t"))
            c = self.lv(e["a"])
            old = c.v
            if isinstance(old, Struct) and isinstance(v, Struct) \
                    and v.cls != old.cls:
                # assignment to a base subobject
                self.copy_base(old, v.cls, v)
                self.drop(v)
                return old
            c.v = v
            if isinstance(old, (Struct, Shared, Vect)) and old is not v:
                if isinstance(old, Struct):
                    # members are assigned; no destructor runs
                    for x in old.f.values():
                        if isinstance(x.v, (Struct, Shared, Vect)):
                            self.drop(x)
                    old.dead = True
                    if old in self.alive:
                        self.alive.remove(old)
                else:
                    self.drop(old)
            return v
        b = self.rd(self.ev(e["b"]))
        c = self.lv(e["a"])
        c.v = self.binop(op[:-1], c.v, b, e)
        return c.v

    # -- construction ------------------------------------------------------
    def e_ctor(self, e):
        t = bare(e["t"])
        k = self.code.fns.get(e["m"])
        if k is not None:
            a = self.args(k, e["a"])
            s = Struct(t)
            self.construct(s, t, k, a)
            self.alive.append(s)
            return self.temp(s)
        if self.code.rec(t):
            if e["a"]:
                return self.temp(self.copyval(self.obj(self.ev(e["a"][0]))))
            s = self.default(t)
            self.alive.append(s)
            return self.temp(s)
        c = e["c"]
        if c == "std::vector":
            return self.temp(self.make_vector(targs(t)[0], e["a"]))
        if c == "std::shared_ptr":
            a = [self.rd(self.ev(x)) for x in e["a"]]
            if not a or isinstance(a[0], Null):
                return self.temp(Shared())
            if isinstance(a[0], Shared):
                return self.temp(self.copyval(a[0]))
            return self.temp(Shared(Ctrl(a[0], a[1] if len(a) > 1 else None)))
        if c.startswith("std::allocator"):
            return Tok(c, "allocator")
        if c in ("std::array",):
            return self.temp(self.zero(t))
        a = [self.rd(self.ev(x)) for x in e["a"]]
        if c.endswith("exception") or c.endswith("_error") or \
                c.endswith("error_already_set"):
            return Tok(c, t, args=a)
        if c.endswith("basic_string"):
            return a[0] if a and isinstance(a[0], Str) else Unk("string")
        if c == "std::initializer_list":
            return a[0] if a else Vect("")
        if c in ("std::unique_lock", "std::lock_guard", "std::scoped_lock"):
            return Tok(c, t)
        if self.world is not None:
            r = self.world.ctor(self, c, a, e)
            if r is not NotImplemented:
                return r
        self.event("new " + c, a, e.get("l"))
        return Tok("%s@%s" % (c, e.get("l")), t, args=a)

    def make_vector(self, et, es):
        if not es:
            return Vect(et)
        a = [self.rd(self.ev(x)) for x in es]
        if isinstance(a[0], Vect):
            v = self.own(a[0])
            v.et = et
            return v
        if isinstance(a[0], Poly):
            n = self.facts.norm(a[0])
            if not n.is_const():
                raise GiveUp("vector of symbolic length %s" % n)
            if n.cval() < 0 or n.cval() > 5000:
                raise GiveUp("vector of length %s" % n)
            if len(a) > 1 and not (isinstance(a[1], Tok)
                                   and "allocator" in a[1].t):
                return Vect(et, [Cell(self.copyval(a[1]))
                                 for _ in range(n.cval())])
            return Vect(et, [Cell(self.zero(et)) for _ in range(n.cval())])
        if len(a) >= 2 and isinstance(a[0], Ptr) and isinstance(a[1], Ptr) \
                and a[0].vec is not None and a[0].vec is a[1].vec:
            i, j = self.facts.norm(a[0].i), self.facts.norm(a[1].i)
            if i.is_const() and j.is_const():
                return Vect(et, [Cell(self.copyval(c.v)) for c in
                                 a[0].vec.items[i.cval():j.cval()]])
        raise GiveUp("vector from %r" % (a,))

    def build(self, t, es):
        """Object of type t from constructor arguments (emplace)."""
        b = bare(t)
        if not self.code.rec(b):
            if len(es) == 1:
                return self.init(es[0], t)
            if b.startswith("std::vector<"):
                return self.make_vector(targs(b)[0], es)
            if not es:
                return self.zero(t)
            raise GiveUp("emplace of " + t)
        cs = [self.lv(x) for x in es]
        best = []
        for k in self.code.ctors.get(b, []):
            if len(k["ps"]) == len(cs) and all(
                    self.fits(c.v, p["t"]) for c, p in zip(cs, k["ps"])):
                best.append(k)
        if len(best) == 1:
            k = best[0]
            s = Struct(b)
            a = [c if is_ref(p["t"]) else self.own(c.v, p["t"])
                 for c, p in zip(cs, k["ps"])]
            self.construct(s, b, k, a)
            self.alive.append(s)
            return s
        if len(cs) == 1 and isinstance(cs[0].v, Struct):
            return self.own(cs[0].v, t)
        raise GiveUp("constructor of %s" % b)

    def fits(self, v, t):
        b = bare(t)
        if isinstance(v, Poly):
            return b in WIDTH or bool(INTS.match(b)) or "starpu_" in b \
                and not b.endswith("*")
        if isinstance(v, Vect):
            return b.startswith(("std::vector", "std::initializer", "std::array"))
        if isinstance(v, Struct):
            return b in self.code.closure(v.cls)
        if isinstance(v, Shared):
            return b.startswith("std::shared_ptr")
        return b.endswith("*") or not (b in WIDTH)

    # -- calls -------------------------------------------------------------
    def e_call(self, e):
        return self.rd(self.call(e))

    def callv(self, f, args, line):
        """Call a function value."""
        f = self.rd(f)
        if isinstance(f, Fn):
            k = self.code.fns.get(f.m)
            if k:
                return self.invoke(k, None, args)
            return self.external(f.q, args, {"l": line, "t": "void"})
        if isinstance(f, Lam):
            return self.lam(f, args)
        if isinstance(f, Ptr):
            return self.callv(f.cell.v, args, line)
        if isinstance(f, Tok) and len(args) == 2:
            for op, g in (("multiplies", lambda x, y: x * y),
                          ("plus", lambda x, y: x + y),
                          ("minus", lambda x, y: x - y)):
                if "std::%s<" % op in f.t:
                    return g(*[self.rd(x) for x in args])
            raise GiveUp("call of %r" % (f,))
        if isinstance(f, (Tok, Unk)):
            # deleter whose body is not visible
            return self.external(repr(f), args, {"l": line, "t": "void"})
        raise GiveUp("call of %r" % (f,))

    def lam(self, f, args):
        n = f.node
        fake = {"q": "lambda", "ps": n["ps"], "body": n["body"], "rt": "auto",
                "n": "operator()"}
        self.depth += 1
        if self.depth > self.DEPTH:
            raise GiveUp("recursion")
        sv, st = self.frame, self.temps
        self.frame, self.temps = dict(f.frame), []
        self.stack.append(fake)
        try:
            for p, a in zip(n["ps"], args):
                self.frame[p["id"]] = a if isinstance(a, Cell) and \
                    is_ref(p["t"]) else Cell(self.rd(a))
            try:
                self.stmt(n["body"])
            except _Ret as r:
                return r.v
            return None
        finally:
            self.stack.pop()
            self.frame, self.temps = sv, st
            self.depth -= 1

    def call(self, e):
        name = e.get("f", "")
        k = self.code.fns.get(e.get("m")) if e.get("m") else None
        if not name and e.get("ce") is not None:
            f = self.rd(self.ev(e["ce"]))
            a = [self.rd(self.ev(x)) for x in e["a"]]
            if isinstance(f, (Fn, Lam)):
                return self.callv(f, a, e.get("l"))
            return self.external("indirect", [f] + a, e)
        o = None
        if e.get("o") is not None:
            oe = e["o"]
            o = self.lv(oe)
            if isinstance(o.v, Ptr) and o.v.vec is None:
                o = o.v.cell
            if isinstance(o.v, Lam) and name.endswith("operator()"):
                a = []
                for p, x in zip(o.v.node["ps"], e["a"]):
                    a.append(self.lv(x) if is_ref(p["t"])
                             else self.init(x, p["t"]))
                return self.lam(o.v, a)
            if isinstance(o.v, Shared) and k is not None:
                # through operator->
                if o.v.ctrl is None:
                    raise GiveUp("null pointer")
                o = self.deref(o.v, e)
        if k is not None:
            r0 = self.world.intercept(self, k, o, e) if self.world \
                else NotImplemented
            if r0 is not NotImplemented:
                return r0
            a = self.args(k, e["a"])
            if o is not None and isinstance(o.v, Struct) and o.v.dead:
                self.event("use after destruction", [o.v], e.get("l"))
            r = self.invoke(k, o, a)
            if is_ref(k["rt"]):
                return r
            return self.temp(r)
        if o is not None:
            ov = o.v
            r = self.std_method(ov, o, name.rsplit("::", 1)[-1], e)
            if r is not NotImplemented:
                return r
            a = [self.rd(self.ev(x)) for x in e["a"]]
            return self.opaque_method(ov, name, a, e)
        r = self.std_function(name, e)
        if r is not NotImplemented:
            return r
        a = [self.rd(self.ev(x)) for x in e["a"]]
        return self.external(name, a, e)

    def external(self, name, args, e):
        if self.world is not None:
            r = self.world.call(self, name, args, e)
            if r is not NotImplemented:
                return r
        if name.rsplit("::", 1)[-1] in COPIES and len(args) == 3 and \
                isinstance(args[0], Ptr) and isinstance(args[0].vec, Vect):
            return self.copy_bytes(args, e)
        ev = self.event(name, args, e.get("l"))
        t = e.get("t", "void")
        if t == "void" or not t:
            return None
        ev.res = self.unknown(t, "%s#%d" % (name, self.count()))
        return ev.res

    def copy_bytes(self, a, e):
        """memcpy to the elements of a container."""
        z = self.e_sizeof({"of": a[0].vec.et})
        src, n = a[1], self.facts.norm(a[2])
        if not (isinstance(src, Ptr) and isinstance(src.vec, Vect)
                and src.vec.et == a[0].vec.et and isinstance(z, Poly)
                and z.is_const() and z.cval() > 0 and n.is_const()
                and n.cval() % z.cval() == 0):
            raise GiveUp("bytes copied to a container")
        k = n.cval() // z.cval()
        vs = [self.copyval(self.at(src.vec, src.i + C(j), e).v)
              for j in range(k)]
        for j, v in enumerate(vs):
            self.at(a[0].vec, a[0].i + C(j), e).v = v
        return a[0]

    def count(self):
        self.n += 1
        return self.n

    def opaque_method(self, o, name, a, e):
        n = name.rsplit("::", 1)[-1]
        if self.world is not None:
            r = self.world.method(self, o, n, a, e)
            if r is not NotImplemented:
                return r
        if isinstance(o, Tok):
            key = "%s(%s)" % (n, ", ".join(map(repr, a)))
            self.event("." + n, [o] + a, e.get("l"))
            if key not in o.memo:
                o.memo[key] = self.unknown(e.get("t", ""),
                                           "%s.%s" % (o.name, key))
            return o.memo[key]
        if isinstance(o, (Unk, Str)):
            return Unk(n)
        raise GiveUp("method %s of %r" % (name, o))

    def std_method(self, v, cell, n, e):
        es = e["a"]
        if isinstance(v, Shared):
            if n == "get":
                return v.ctrl.ptr if v.ctrl else NULL
            if n == "reset":
                a = [self.rd(self.ev(x)) for x in es]
                old = Shared(v.ctrl)
                v.ctrl = Ctrl(a[0], a[1] if len(a) > 1 else None) \
                    if a and not isinstance(a[0], Null) else None
                self.drop(old)
                return None
            if n == "use_count":
                return C(v.ctrl.count if v.ctrl else 0)
            if n == "operator bool":
                return self.boolv(v.ctrl is not None)
            if n == "swap":
                o = self.lv(es[0]).v
                v.ctrl, o.ctrl = o.ctrl, v.ctrl
                return None
            return NotImplemented
        if isinstance(v, Vect):
            if v.dead:
                self.event("use after destruction", [v], e.get("l"))
            if n in ("size", "length"):
                return C(len(v.items))
            if n == "empty":
                return self.boolv(not v.items)
            if n in ("reserve", "shrink_to_fit"):
                for x in es:
                    self.ev(x)
                return None
            if n in ("push_back", "emplace_back"):
                if n == "push_back":
                    x = self.init(es[0], v.et)
                else:
                    x = self.build(v.et, es)
                v.items.append(Cell(x))
                return v.items[-1]
            if n == "pop_back":
                if not v.items:
                    self.oob.append((False, "pop_back of nothing", e.get("l"),
                                     self.stack[-1]["q"], None, None))
                    return None
                self.drop(v.items.pop())
                return None
            if n == "clear":
                for c in v.items:
                    self.drop(c)
                v.items = []
                return None
            if n == "at":
                i = self.facts.norm(self.rd(self.ev(es[0])))
                nn = len(v.items)
                if not self.test("ge", i) or \
                        not self.test("ge", C(nn - 1) - i):
                    raise CxxThrow(Str("out_of_range"), e.get("l"))
                return self.at(v, i, e)
            if n in ("begin", "cbegin", "data"):
                return Ptr(None, v, C(0))
            if n in ("end", "cend"):
                return Ptr(None, v, C(len(v.items)))
            if n in ("front", "back"):
                i = 0 if n == "front" else len(v.items) - 1
                return self.at(v, C(i), e)
            if n == "resize":
                m = self.facts.norm(self.rd(self.ev(es[0])))
                if not m.is_const():
                    raise GiveUp("resize to %s" % m)
                fill = self.rd(self.ev(es[1])) if len(es) > 1 else None
                while len(v.items) > m.cval():
                    self.drop(v.items.pop())
                while len(v.items) < m.cval():
                    v.items.append(Cell(
                        self.copyval(fill) if fill is not None
                        else self.zero(v.et)))
                return None
            if n in ("assign", "fill"):
                a = [self.rd(self.ev(x)) for x in es]
                if n == "fill":
                    for c in v.items:
                        c.v = self.copyval(a[0])
                    return None
                if isinstance(a[0], Poly) and a[0].is_const():
                    v.items = [Cell(self.copyval(a[1]))
                               for _ in range(a[0].cval())]
                    return None
                if len(a) == 2 and isinstance(a[0], Ptr):
                    v.items = [Cell(self.copyval(c.v))
                               for c in self.seq(a[0], a[1])]
                    return None
                if len(a) == 1 and isinstance(a[0], Vect):
                    v.items = [Cell(self.copyval(c.v)) for c in a[0].items]
                    return None
                raise GiveUp("vector " + n)
            if n == "swap":
                o = self.lv(es[0]).v
                v.items, o.items = o.items, v.items
                return None
            if n == "erase" or n == "insert":
                a = [self.rd(self.ev(x)) for x in es]
                i = self.facts.norm(a[0].i) if isinstance(a[0], Ptr) \
                    and a[0].vec is v else None
                if i is None or not i.is_const() or \
                        not 0 <= i.cval() <= len(v.items):
                    raise GiveUp("vector " + n)
                i = i.cval()
                if n == "insert" and len(a) == 2 and \
                        not isinstance(a[1], (Ptr, Vect)):
                    v.items.insert(i, Cell(self.copyval(a[1])))
                elif n == "insert" and len(a) == 3 and isinstance(a[1], Ptr):
                    v.items[i:i] = [Cell(self.copyval(c.v))
                                    for c in self.seq(a[1], a[2])]
                elif n == "erase" and len(a) == 1 and i < len(v.items):
                    self.drop(v.items.pop(i))
                else:
                    raise GiveUp("vector " + n)
                return Ptr(None, v, C(i))
            return NotImplemented
        return NotImplemented

    def seq(self, a, b):
        """Cells of an iterator range."""
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.vec is not None \
                and a.vec is b.vec:
            i, j = self.facts.norm(a.i), self.facts.norm(b.i)
            if isinstance(a.vec, Mem) and (j - i).is_const():
                return [a.vec.cell(i + C(k))
                        for k in range((j - i).cval())]
            if i.is_const() and j.is_const():
                n = len(a.vec.items)
                if 0 <= i.cval() <= j.cval() <= n:
                    return a.vec.items[i.cval():j.cval()]
        raise GiveUp("iterator range")

    def std_function(self, name, e):
        es = e["a"]
        if not name.startswith("std::"):
            if name in ("memset", "__builtin_memset") and es:
                return self.memset(es, e)
            return NotImplemented
        n = name[5:]
        if n in ("move", "forward", "as_const", "ref", "cref", "addressof"):
            if len(es) == 1:
                c = self.lv(es[0])
                return Ptr(c) if n == "addressof" else c
        if n == "memset":
            return self.memset(es, e)
        if n in ("min", "max") and len(es) == 2:
            a, b = self.rd(self.ev(es[0])), self.rd(self.ev(es[1]))
            if isinstance(a, Poly) and isinstance(b, Poly):
                ge = self.test("ge", a - b)
                return (b if ge else a) if n == "min" else (a if ge else b)
            if isinstance(a, Flt) and isinstance(b, Flt):
                return Flt(n, a, b)
            return Unk(n)
        if n == "swap" and len(es) == 2:
            a, b = self.lv(es[0]), self.lv(es[1])
            a.v, b.v = b.v, a.v
            return None
        if n in ("accumulate", "reduce"):
            a = [self.rd(self.ev(x)) for x in es]
            cs = self.seq(a[0], a[1])
            r = a[2]
            for c in cs:
                if len(a) > 3:
                    if isinstance(a[3], Lam):
                        r = self.lam(a[3], [r, c.v])
                    elif isinstance(a[3], Tok) and "multiplies" in a[3].t:
                        r = r * c.v
                    elif isinstance(a[3], Tok) and "plus" in a[3].t:
                        r = r + c.v
                    else:
                        raise GiveUp("accumulate")
                else:
                    r = r + c.v
            return r
        if n == "partial_sum":
            a = [self.rd(self.ev(x)) for x in es]
            cs = self.seq(a[0], a[1])
            r = None
            for j, c in enumerate(cs):
                if r is None:
                    r = c.v
                elif len(a) > 3 and isinstance(a[3], Tok) and \
                        "multiplies" in a[3].t:
                    r = r * c.v
                elif len(a) > 3 and isinstance(a[3], Lam):
                    r = self.lam(a[3], [r, c.v])
                elif len(a) == 3:
                    r = r + c.v
                else:
                    raise GiveUp("partial_sum")
                self.at(a[2].vec, a[2].i + C(j), e).v = r
            return Ptr(None, a[2].vec, a[2].i + C(len(cs)))
        if n in ("fill", "fill_n", "iota"):
            a = [self.rd(self.ev(x)) for x in es]
            if n == "fill_n" and isinstance(a[0], Ptr):
                cs = self.seq(a[0], Ptr(None, a[0].vec, a[0].i + a[1]))
            else:
                cs = self.seq(a[0], a[1])
            for j, c in enumerate(cs):
                c.v = a[2] + C(j) if n == "iota" else self.copyval(a[2])
            return None
        if n in ("copy", "copy_n") and len(es) == 3:
            a = [self.rd(self.ev(x)) for x in es]
            if isinstance(a[0], Tok) and isinstance(a[2], Tok):
                cnt = a[1]
                if n == "copy":
                    cnt = cnt.info.get("off") if isinstance(cnt, Tok) and \
                        cnt.info.get("base") is a[0] else None
                t = bare(a[0].t)
                size = self.e_sizeof({"of": bare(t[:-1])}) \
                    if t.endswith("*") and bare(t[:-1]) != "void" else None
                if isinstance(cnt, Poly) and size is not None:
                    return self.external("memcpy", [a[2], a[0], cnt * size],
                                         {"l": e.get("l"), "t": "void"})
                raise GiveUp("copy of unknown extent")
            if n == "copy_n" and isinstance(a[0], Ptr):
                a[1] = Ptr(None, a[0].vec, a[0].i + a[1])
            cs = self.seq(a[0], a[1])
            if isinstance(a[2], Ptr) and a[2].vec is not None:
                for j, c in enumerate(cs):
                    self.at(a[2].vec, a[2].i + C(j), e).v = self.copyval(c.v)
                return None
            raise GiveUp(n)
        if n == "transform" and len(es) == 4:
            a = [self.rd(self.ev(x)) for x in es]
            cs = self.seq(a[0], a[1])
            if isinstance(a[2], Ptr) and a[2].vec is not None:
                for j, c in enumerate(cs):
                    v = self.callv(a[3], [c.v], None)
                    self.at(a[2].vec, a[2].i + C(j), e).v = self.copyval(v)
                return None
            raise GiveUp(n)
        if n == "transform" and len(es) == 5:
            a = [self.rd(self.ev(x)) for x in es]
            cs = self.seq(a[0], a[1])
            if all(isinstance(x, Ptr) and x.vec is not None for x in a[2:4]):
                for j, c in enumerate(cs):
                    v = self.callv(a[4], [
                        c.v, self.at(a[2].vec, a[2].i + C(j), e).v], None)
                    self.at(a[3].vec, a[3].i + C(j), e).v = self.copyval(v)
                return Ptr(None, a[3].vec, a[3].i + C(len(cs)))
            raise GiveUp(n)
        if n == "for_each" and len(es) == 3:
            a = [self.rd(self.ev(x)) for x in es]
            for c in self.seq(a[0], a[1]):
                self.callv(a[2], [c], e.get("l"))
            return a[2]
        if n == "inner_product" and len(es) == 4:
            a = [self.rd(self.ev(x)) for x in es]
            r = a[3]
            for j, c in enumerate(self.seq(a[0], a[1])):
                r = r + c.v * self.at(a[2].vec, a[2].i + C(j), e).v
            return r
        if n in ("all_of", "any_of", "none_of"):
            a = [self.rd(self.ev(x)) for x in es]
            for c in self.seq(a[0], a[1]):
                t = self.bool(self.callv(a[2], [c], e.get("l")))
                if t and n == "any_of":
                    return C(1)
                if t and n == "none_of":
                    return C(0)
                if not t and n == "all_of":
                    return C(0)
            return C(0 if n == "any_of" else 1)
        if n == "equal":
            a = [self.rd(self.ev(x)) for x in es]
            x = self.seq(a[0], a[1])
            y = self.seq(a[2], a[3] if len(a) > 3 else
                         Ptr(None, a[2].vec, a[2].i + C(len(x))))
            return self.boolv(len(x) == len(y) and all(
                self.equal(p.v, q.v) for p, q in zip(x, y)))
        if n in ("begin", "end", "cbegin", "cend", "data", "size"):
            v = self.obj(self.lv(es[0]))
            if isinstance(v, Vect):
                if n == "size":
                    return C(len(v.items))
                return Ptr(None, v, C(len(v.items) if "end" in n else 0))
        if n in ("next", "advance"):
            a = [self.rd(self.ev(x)) for x in es]
            if isinstance(a[0], Ptr) and a[0].vec is not None:
                return Ptr(None, a[0].vec,
                           a[0].i + (a[1] if len(a) > 1 else C(1)))
        if n.startswith("make_shared"):
            t = targs(bare(e["t"]))[0]
            v = self.build(t, es)
            return self.temp(Shared(Ctrl(Ptr(Cell(v)), None)))
        if n in ("endl", "flush"):
            return Unk(n)
        if n == "to_string":
            for x in es:
                self.ev(x)
            return Unk("string")
        if not n.startswith("operator"):
            # may change what its arguments refer to
            a = [self.rd(self.ev(x)) for x in es]
            if any(isinstance(x, (Vect, Mem, Struct)) or
                   isinstance(x, Ptr) and (x.vec is not None or
                                           x.cell is not None) for x in a):
                raise GiveUp("std::%s" % n)
            return self.external(name, a, e)
        return NotImplemented

    def memset(self, es, e):
        p = self.rd(self.ev(es[0]))
        self.event("memset", [p], e.get("l"))
        if isinstance(p, Ptr) and isinstance(p.vec, Vect):
            a = [self.facts.norm(self.rd(self.ev(x))) for x in es[1:]]
            z = self.e_sizeof({"of": p.vec.et})
            if isinstance(p.vec, Mem) or not all(
                    isinstance(x, Poly) and x.is_const() for x in a + [z]) \
                    or a[0].cval() != 0 or a[1].cval() % max(z.cval(), 1):
                raise GiveUp("memset of elements")
            for j in range(a[1].cval() // z.cval()):
                self.at(p.vec, p.i + C(j), es[0]).v = self.zero(p.vec.et)
            return p
        o = self.obj(p)
        if isinstance(o, Struct):
            o.f = {}
            o.zeroed = True
            o.lazy = None
            for c in self.code.closure(o.cls):
                r = self.code.rec(c)
                for f in (r["fields"] if r else ()):
                    o.f[(rname(c), f["n"])] = Cell(self.zero(f["t"]))
        return p


SECONDS = 40
COPIES = ("memcpy", "memmove", "__builtin_memcpy", "__builtin_memmove")


def paths(code, scenario, limit=400, world=None):
    """All paths of scenario(interp) -> value.  A scenario prepares objects
    and calls functions of the analysed code."""
    try:
        with limits.item(SECONDS):
            return _paths(code, scenario, limit, world)
    except limits.ItemTimeUp as e:
        raise GiveUp(str(e))


def _paths(code, scenario, limit, world):
    todo, out = [[]], []
    while todo:
        d = todo.pop()
        it = Interp(code, d, world=world() if world else None)
        it.locals = []
        try:
            try:
                v = scenario(it)
                p = Path("ret", v, it)
            except CxxThrow as t:
                p = Path("throw", t, it)
            except (KeyError, AttributeError, TypeError, IndexError,
                    ValueError, RecursionError) as x:
                raise GiveUp("not modelled: %r" % x)
            except GiveUp as g:
                if all(o[0] for o in it.oob):
                    raise
                # goes on with what an element outside its container holds
                p = Path("stuck", g, it)
        except _More:
            todo.append(d + [False])
            todo.append(d + [True])
            if len(todo) > limit:
                raise GiveUp("too many paths")
            continue
        out.append(p)
        if len(out) > limit:
            raise GiveUp("too many paths")
    return out
