"""Abstract interpreter for the Python package.

Interprets the syntax trees of /repo/wrappers/python/nntile.  Nothing of the
package (or of numpy, torch, StarPU) is imported or executed: tensors have
shapes, tilings, an element type and a tag but no data; arrays only record
where their contents come from; calls into the compiled module are recorded as
events after being matched against the C++ signatures of the bindings.
Conditions over unknown values fork the path."""
import ast
import itertools
import math

from .build import AnalysisBroken


class GiveUp(Exception):
    """The interpreter cannot follow the code."""


class PyRaise(Exception):
    """An exception of the interpreted program."""

    def __init__(self, kind, msg="", where=None):
        super().__init__("%s: %s" % (kind, msg))
        self.kind, self.msg, self.where = kind, msg, where


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Sym:
    """Unknown scalar, identified by the expression that yields it."""

    def __init__(self, key):
        self.key = key

    def __eq__(self, o):
        return isinstance(o, Sym) and o.key == self.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return show(self.key)


def show(k):
    if isinstance(k, tuple):
        return "%s(%s)" % (k[0], ", ".join(show(x) for x in k[1:]))
    return str(k)


class Ext:
    """Something of a module outside the package."""

    def __init__(self, path):
        self.path = path

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(self.path)

    def __repr__(self):
        return self.path


class NCls:
    """A class of the compiled module."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


class NFn:
    """A function of the compiled module."""

    def __init__(self, name, path):
        self.name, self.path = name, path

    def __repr__(self):
        return self.path


class NMod:
    def __init__(self, path):
        self.path = path


class TransV:
    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "trans" if self.t else "notrans"


class Grid:
    """TileTraits"""
    cls = "TileTraits"

    def __init__(self, shape):
        self.shape = list(shape)
        self.nelems = 1
        self.stride = []
        for d in self.shape:
            self.stride.append(self.nelems)
            self.nelems *= d


class Traits(Grid):
    cls = "TensorTraits"

    def __init__(self, shape, basetile):
        Grid.__init__(self, shape)
        self.basetile = list(basetile)
        self.grid = Grid([(s - 1) // b + 1
                          for s, b in zip(self.shape, self.basetile)])

    def same_tiling(self, o):
        return self.shape == o.shape and self.basetile == o.basetile


class Tensor:
    def __init__(self, n, ncls, traits, distr, tag, where, name):
        self.n, self.ncls, self.traits, self.distr = n, ncls, traits, distr
        self.tag, self.where, self.name = tag, where, name
        # tags in use after this tensor
        self.next_tag = Tag(tag.used | {n}) if isinstance(tag, Tag) else tag
        self.unregistered = 0
        self.redux = set()

    def __repr__(self):
        return self.name or "tensor#%d" % self.n


class Tag:
    """A data tag: the tensors whose tags all lie below it."""

    def __init__(self, used):
        self.used = frozenset(used)

    def __repr__(self):
        return "tag(%s)" % ",".join(str(x) for x in sorted(self.used))


class Arr:
    """A numpy array or torch tensor; content says where its data is from."""

    def __init__(self, kind, shape, dtype, content):
        self.kind, self.shape, self.dtype = kind, shape, dtype
        self.content = content

    def __repr__(self):
        return "%s<%s>" % (self.kind, show(self.content))


class File:
    def __init__(self, path):
        self.path = path


class Opaque:
    def __init__(self, key):
        self.key = key

    def __repr__(self):
        return "opaque:" + show(self.key)


class Cls:
    def __init__(self, name, bases, ns, mod):
        self.name, self.bases, self.ns, self.mod = name, bases, ns, mod

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.ns:
                return c.ns[name], c
        return None, None

    def __repr__(self):
        return self.name


class Inst:
    def __init__(self, cls):
        self.cls, self.attrs, self.items = cls, {}, {}

    def __repr__(self):
        return "<%s>" % self.cls.name


class Fn:
    def __init__(self, node, env, mod, name, cls=None):
        self.node, self.env, self.mod, self.name = node, env, mod, name
        self.cls = cls
        self.defaults, self.kwdefaults = [], {}

    def __repr__(self):
        return self.name


class Static:
    def __init__(self, fn, kind):
        self.fn, self.kind = fn, kind


class Bound:
    def __init__(self, self_, fn):
        self.self_, self.fn = self_, fn


class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return self.name


class Super:
    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls


class Mod:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.ns = {}
        self.done = False


class Env:
    def __init__(self, parent, mod, cls=None, self_=None):
        self.vars, self.parent, self.mod = {}, parent, mod
        self.cls, self.self_ = cls, self_
        self.globals_ = set()
        self.nonlocal_ = set()


class Event:
    def __init__(self, kind, name, args, where, stack):
        self.kind, self.name, self.args = kind, name, args
        self.where, self.stack = where, stack

    def __repr__(self):
        return "%s %s(%s)" % (self.kind, self.name,
                              ", ".join(repr(a) for a in self.args))


# methods whose extent is marked in the events
PHASES = {"forward_async", "backward_async", "calc_async", "step"}
NUM = (int, float)
EXC = ("BaseException", "Exception", "ValueError", "TypeError",
       "RuntimeError", "KeyError", "IndexError", "AttributeError",
       "NotImplementedError", "NameError", "AssertionError", "ImportError",
       "ZeroDivisionError", "ArithmeticError", "LookupError", "OSError",
       "IOError", "FileNotFoundError", "StopIteration", "OverflowError")
PARENT = {"KeyError": "LookupError", "IndexError": "LookupError",
          "NotImplementedError": "RuntimeError", "Exception": "BaseException",
          "ZeroDivisionError": "ArithmeticError",
          "OverflowError": "ArithmeticError", "FileNotFoundError": "OSError"}


def is_a(kind, want):
    while kind:
        if kind == want:
            return True
        kind = PARENT.get(kind, None if kind == "BaseException" else
                          "Exception" if kind != "Exception"
                          else "BaseException")
    return False


class Py:
    """One path of the interpreted program."""

    MAXSTEP = 400000

    def __init__(self, pkg, script=()):
        self.pkg = pkg                      # Package
        self.script = list(script)          # decisions to replay
        self.taken = []                     # decisions of this path
        self.assume = {}
        self.mods = {}
        self.events = []
        self.tensors = []
        self.store = {}
        self.stack = []
        self.steps = 0
        self.line = None
        self.file = None
        self.fresh = 0
        self.symtypes = {}                  # types of unknown scalars

    # -- decisions ---------------------------------------------------------
    def decide(self, key):
        if key in self.assume:
            return self.assume[key]
        if isinstance(key, tuple) and key[0] == "not":
            return not self.decide(key[1])
        if isinstance(key, tuple) and key[0] == "eq" \
                and isinstance(key[1], Sym):
            for k, v in self.assume.items():
                if isinstance(k, tuple) and k[0] == "eq" and k[1] == key[1] \
                        and v and k[2] != key[2]:
                    return False
        i = len(self.taken)
        v = self.script[i] if i < len(self.script) else True
        self.taken.append(v)
        self.assume[key] = v
        return v

    def truth(self, v):
        if isinstance(v, Sym):
            return self.decide(("true", v.key) if not (
                isinstance(v.key, tuple) and v.key[0] in
                ("eq", "lt", "le", "not", "is", "in")) else v.key)
        if isinstance(v, Opaque):
            return self.decide(("true", v.key))
        if isinstance(v, Inst):
            f, c = v.cls.find("__bool__")
            if f is not None:
                return self.truth(self.call(Bound(v, f), [], {}))
            f, c = v.cls.find("__len__")
            if f is not None:
                return self.truth(self.call(Bound(v, f), [], {}))
            return True if not v.items else True
        if isinstance(v, (list, tuple, dict, str, set, bool, int, float,
                          type(None), range)):
            return bool(v)
        if isinstance(v, Arr):
            return self.decide(("true", v.content))
        return True

    def where(self):
        return "%s:%s" % (self.file, self.line)

    def emit(self, kind, name, args):
        self.events.append(Event(kind, name, list(args), self.where(),
                                 list(self.stack)))

    def newid(self):
        self.fresh += 1
        return self.fresh

    # -- modules -------------------------------------------------------------
    def module(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        src = self.pkg.source(name)
        if src is None:
            return None
        path, tree, ispkg = src
        m = Mod(name, path)
        m.ispkg = ispkg
        self.mods[name] = m
        m.ns["__name__"] = name
        env = Env(None, m)
        env.vars = m.ns
        save = self.file, self.line
        self.file = path
        self.block(tree.body, env)
        self.file, self.line = save
        m.done = True
        return m

    def resolve(self, name):
        """Import by absolute name."""
        top = name.split(".")[0]
        if name == self.pkg.core or name.startswith(self.pkg.core + "."):
            return self.native(name[len(self.pkg.core) + 1:])
        if top == self.pkg.name:
            parts = name.split(".")
            if name in self.mods:
                return self.mods[name]
            # parents are imported first
            if len(parts) > 1:
                self.resolve(".".join(parts[:-1]))
            m = self.module(name)
            if m is None:
                raise PyRaise("ImportError", "no module " + name)
            if len(parts) > 1:
                par = self.mods[".".join(parts[:-1])]
                par.ns[parts[-1]] = m
            return m
        return Ext(name)

    def native(self, path):
        if not path:
            return NMod("")
        b = self.pkg.bindings
        if path in b["modules"]:
            return NMod(path)
        if path in b["classes"]:
            return self.pkg.ncls(path)
        if path in b["functions"]:
            return NFn(path.split(".")[-1], path)
        if path in b["attrs"]:
            e = b["attrs"][path]
            return TransV(e[0] == "Trans") if len(e) == 1 and \
                e[0] in ("Trans", "NoTrans") else Opaque(("native", path))
        return None

    # -- statements ----------------------------------------------------------
    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.steps += 1
        if self.steps > self.MAXSTEP:
            raise GiveUp("too many steps")
        self.line = s.lineno
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise GiveUp("%s: statement %s" % (self.where(),
                                               type(s).__name__))
        m(s, env)

    def s_Expr(self, s, env):
        self.ev(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Global(self, s, env):
        env.globals_ |= set(s.names)

    def s_Nonlocal(self, s, env):
        env.nonlocal_ |= set(s.names)

    def s_Import(self, s, env):
        for a in s.names:
            if a.name == self.pkg.name or \
                    a.name.startswith(self.pkg.name + "."):
                m = self.resolve(a.name)
                env.vars[a.asname or self.pkg.name] = m if a.asname \
                    else self.mods[self.pkg.name]
            else:
                env.vars[a.asname or a.name.split(".")[0]] = Ext(
                    a.name if a.asname else a.name.split(".")[0])

    def s_ImportFrom(self, s, env):
        name = s.module or ""
        if s.level:
            base = env.mod.name.split(".")
            n = s.level - (1 if getattr(env.mod, "ispkg", False) else 0)
            base = base[:len(base) - n] if n else base
            name = ".".join(base + ([name] if name else []))
        m = self.resolve(name)
        for a in s.names:
            if a.name == "*":
                if isinstance(m, Mod):
                    for k, v in m.ns.items():
                        if not k.startswith("_"):
                            env.vars[k] = v
                    continue
                raise GiveUp("import *")
            v = self.member(m, a.name)
            if v is None and isinstance(m, Mod):
                try:
                    v = self.resolve(name + "." + a.name)
                except PyRaise:
                    v = None
                if v is None:
                    raise PyRaise("ImportError", "cannot import name %s from "
                                  "%s" % (a.name, name), self.where())
            if v is None and isinstance(m, NMod):
                raise PyRaise("ImportError", "cannot import name %s from %s"
                              % (a.name, name), self.where())
            env.vars[a.asname or a.name] = v

    def member(self, m, name):
        if isinstance(m, Mod):
            if name in m.ns:
                v = m.ns[name]
                return v if v is not None else NoneBox
            return None
        if isinstance(m, NMod):
            return self.native((m.path + "." if m.path else "") + name)
        if isinstance(m, Ext):
            return Ext(m.path + "." + name)
        raise GiveUp("import from %r" % (m,))

    def s_FunctionDef(self, s, env):
        f = Fn(s, env, env.mod, s.name)
        f.defaults = [self.ev(d, env) for d in s.args.defaults]
        f.kwdefaults = {a.arg: self.ev(d, env) for a, d in
                        zip(s.args.kwonlyargs, s.args.kw_defaults)
                        if d is not None}
        v = f
        for d in reversed(s.decorator_list):
            n = d.id if isinstance(d, ast.Name) else None
            if n in ("staticmethod", "classmethod", "property"):
                v = Static(v, n)
            else:
                dv = self.ev(d, env)
                if not isinstance(dv, (Ext, Opaque)):
                    v = self.call(dv, [v], {})
        env.vars[s.name] = v

    def s_ClassDef(self, s, env):
        bases = [self.ev(b, env) for b in s.bases]
        c = Cls(s.name, bases, {}, env.mod)
        e = Env(env, env.mod)
        e.vars = c.ns
        e.isclass = True
        self.block(s.body, e)
        for v in c.ns.values():
            if isinstance(v, Fn) and v.cls is None:
                v.cls = c
            if isinstance(v, Static) and v.fn.cls is None:
                v.fn.cls = c
        env.vars[s.name] = c

    def s_Return(self, s, env):
        raise _Return(self.ev(s.value, env) if s.value else None)

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                k = self.index(self.ev(t.slice, env))
                if isinstance(o, (list, dict)):
                    del o[k]
                else:
                    raise GiveUp("del")
            else:
                o = self.ev(t.value, env)
                if isinstance(o, Inst):
                    o.attrs.pop(t.attr, None)

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            o = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), env)
        elif isinstance(t, ast.Attribute):
            o = self.getattr(self.ev(t.value, env), t.attr)
        else:
            o = self.ev(ast.copy_location(
                ast.Subscript(t.value, t.slice, ast.Load()), t), env)
        v = self.ev(s.value, env)
        if isinstance(o, list) and isinstance(s.op, ast.Add):
            o.extend(self.iterate(v))
            v = o
        else:
            v = self.binop(s.op, o, v)
        self.assign(t, v, env)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            if t.id in env.globals_:
                env.mod.ns[t.id] = v
                return
            e = env
            if t.id in env.nonlocal_:
                e = env.parent
                while e is not None and t.id not in e.vars:
                    e = e.parent
            (e or env).vars[t.id] = v
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            if isinstance(o, Inst):
                o.attrs[t.attr] = v
                if isinstance(v, Tensor) and not v.name:
                    v.name = t.attr
            elif isinstance(o, Cls):
                o.ns[t.attr] = v
            elif isinstance(o, (Opaque, Ext, Arr)):
                self.emit("setattr", t.attr, [o, v])
            elif isinstance(o, Mod):
                o.ns[t.attr] = v
            elif isinstance(o, (Tensor, Grid)):
                raise PyRaise("AttributeError", "can't set attribute "
                              + t.attr, self.where())
            else:
                raise GiveUp("attribute of %r" % (o,))
        elif isinstance(t, (ast.Tuple, ast.List)):
            xs = self.iterate(v)
            st = [i for i, x in enumerate(t.elts)
                  if isinstance(x, ast.Starred)]
            if st:
                i = st[0]
                k = len(t.elts) - i - 1
                if len(xs) < len(t.elts) - 1:
                    raise PyRaise("ValueError", "not enough values to unpack",
                                  self.where())
                parts = xs[:i] + [xs[i:len(xs) - k]] + xs[len(xs) - k:]
            else:
                parts = xs
                if len(xs) != len(t.elts):
                    raise PyRaise("ValueError", "cannot unpack %d values into"
                                  " %d" % (len(xs), len(t.elts)),
                                  self.where())
            for x, y in zip(t.elts, parts):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y,
                            env)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            if isinstance(t.slice, ast.Slice) and isinstance(o, list):
                sl = self.slice(t.slice, env)
                o[sl] = self.iterate(v)
                return
            k = self.index(self.ev(t.slice, env))
            if isinstance(o, list):
                try:
                    o[k] = v
                except IndexError:
                    raise PyRaise("IndexError", "list assignment",
                                  self.where())
            elif isinstance(o, dict):
                o[k] = v
            elif isinstance(o, Inst):
                f, c = o.cls.find("__setitem__")
                if f is not None:
                    self.call(Bound(o, f), [k, v], {})
                else:
                    o.items[k] = v
            elif isinstance(o, Arr):
                o.content = ("updated", o.content, self.key(k), self.key(v))
            elif isinstance(o, Opaque):
                self.emit("setitem", show(o.key), [k, v])
            else:
                raise GiveUp("assignment to an element of %r" % (o,))
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        else:
            raise GiveUp("assignment target")

    def s_If(self, s, env):
        self.block(s.body if self.truth(self.ev(s.test, env)) else s.orelse,
                   env)

    def s_For(self, s, env):
        it = self.iterate(self.ev(s.iter, env))
        for v in it:
            self.assign(s.target, v, env)
            try:
                self.block(s.body, env)
            except _Break:
                return
            except _Continue:
                continue
        self.block(s.orelse, env)

    def s_Match(self, s, env):
        v = self.ev(s.subject, env)
        for c in s.cases:
            if self.match_pattern(c.pattern, v, env) and (
                    c.guard is None or self.truth(self.ev(c.guard, env))):
                self.block(c.body, env)
                return

    def match_pattern(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare(ast.Eq(), v,
                                           self.ev(p.value, env)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.compare(
                ast.Is(), v, p.value))
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match_pattern(p.pattern, v, env):
                return False
            if p.name is not None:
                env.vars[p.name] = v
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match_pattern(q, v, env) for q in p.patterns)
        if isinstance(p, ast.MatchSequence) and not any(
                isinstance(q, ast.MatchStar) for q in p.patterns):
            if not isinstance(v, (list, tuple)):
                if isinstance(v, (Sym, Opaque)):
                    raise GiveUp("%s: match" % self.where())
                return False
            return len(v) == len(p.patterns) and all(
                self.match_pattern(q, x, env) for q, x in zip(p.patterns, v))
        if isinstance(p, ast.MatchClass) and not p.patterns and \
                not p.kwd_patterns:
            return self.truth(isinst(self, v, self.ev(p.cls, env)))
        raise GiveUp("%s: match pattern" % self.where())

    def s_While(self, s, env):
        n = 0
        while self.truth(self.ev(s.test, env)):
            n += 1
            if n > 2000:
                raise GiveUp("long loop")
            try:
                self.block(s.body, env)
            except _Break:
                return
            except _Continue:
                continue
        self.block(s.orelse, env)

    def s_Break(self, s, env):
        raise _Break()

    def s_Continue(self, s, env):
        raise _Continue()

    def s_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)):
            raise PyRaise("AssertionError", ast.unparse(s.test),
                          self.where())

    def s_Raise(self, s, env):
        if s.exc is None:
            cur = getattr(self, "handling", None)
            raise cur or GiveUp("raise")
        v = self.ev(s.exc, env)
        w = self.where()
        if isinstance(v, Ext):
            raise PyRaise(v.path, "", w)
        if isinstance(v, Exc):
            raise PyRaise(v.kind, v.msg, w)
        if isinstance(v, Builtin):
            raise PyRaise(v.name, "", w)
        if isinstance(v, Inst):
            raise PyRaise(v.cls.name, "", w)
        raise PyRaise("Exception", "", w)

    def s_Try(self, s, env):
        try:
            try:
                self.block(s.body, env)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        t = self.ev(h.type, env)
                        ts = t if isinstance(t, tuple) else (t,)
                        ok = any(is_a(e.kind, getattr(x, "name", "?"))
                                 for x in ts)
                    if ok:
                        if h.name:
                            env.vars[h.name] = Exc(e.kind, e.msg)
                        save = getattr(self, "handling", None)
                        self.handling = e
                        self.block(h.body, env)
                        self.handling = save
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env)
        finally:
            self.block(s.finalbody, env)

    def s_With(self, s, env):
        for i in s.items:
            v = self.ev(i.context_expr, env)
            if isinstance(v, Inst):
                f, c = v.cls.find("__enter__")
                r = self.call(Bound(v, f), [], {}) if f is not None else v
            else:
                r = v
            if i.optional_vars is not None:
                self.assign(i.optional_vars, r, env)
        self.block(s.body, env)

    # -- expressions -----------------------------------------------------------
    def ev(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise GiveUp("%s: expression %s" % (self.where(),
                                                type(e).__name__))
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        x = env
        first = True
        while x is not None:
            if e.id in x.vars and (first or not getattr(x, "isclass", False)):
                v = x.vars[e.id]
                return None if v is NoneBox else v
            first = False
            x = x.parent
        if e.id in env.mod.ns:
            v = env.mod.ns[e.id]
            return None if v is NoneBox else v
        v = BUILTINS.get(e.id)
        if v is not None:
            return v
        if e.id in EXC:
            return ExcCls(e.id)
        if e.id == "__file__":
            return env.mod.path
        raise PyRaise("NameError", "name '%s' is not defined" % e.id,
                      self.where())

    def e_Attribute(self, e, env):
        return self.getattr(self.ev(e.value, env), e.attr)

    def e_Tuple(self, e, env):
        return tuple(self.elements(e.elts, env))

    def e_List(self, e, env):
        return self.elements(e.elts, env)

    def e_Set(self, e, env):
        return set(self.elements(e.elts, env))

    def elements(self, xs, env):
        out = []
        for x in xs:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value, env)))
            else:
                out.append(self.ev(x, env))
        return out

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, env))
            else:
                d[self.index(self.ev(k, env))] = self.ev(v, env)
        return d

    def e_JoinedStr(self, e, env):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(str(v.value))
            else:
                x = self.ev(v.value, env)
                if not isinstance(x, (str, int, float)):
                    return Opaque(("fstring", e.lineno))
                spec = self.ev(v.format_spec, env) if v.format_spec else ""
                if not isinstance(spec, str):
                    return Opaque(("fstring", e.lineno))
                x = repr(x) if v.conversion == 114 else str(x) \
                    if v.conversion == 115 else x
                try:
                    out.append(format(x, spec))
                except ValueError:
                    return Opaque(("fstring", e.lineno))
        return "".join(out)

    def e_IfExp(self, e, env):
        return self.ev(e.body if self.truth(self.ev(e.test, env))
                       else e.orelse, env)

    def e_Lambda(self, e, env):
        f = Fn(e, env, env.mod, "<lambda>")
        f.defaults = [self.ev(d, env) for d in e.args.defaults]
        return f

    def e_Yield(self, e, env):
        env.vars[YIELDED].append(
            self.ev(e.value, env) if e.value is not None else None)
        return None

    def e_YieldFrom(self, e, env):
        env.vars[YIELDED].extend(self.iterate(self.ev(e.value, env)))
        return None

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env)
        return v

    def comp(self, gens, env, leaf):
        out = []

        def go(i, env):
            if i == len(gens):
                out.append(leaf(env))
                return
            g = gens[i]
            for v in self.iterate(self.ev(g.iter, env)):
                self.assign(g.target, v, env)
                if all(self.truth(self.ev(c, env)) for c in g.ifs):
                    go(i + 1, env)
        e = Env(env, env.mod, env.cls, env.self_)
        go(0, e)
        return out

    def e_ListComp(self, e, env):
        return self.comp(e.generators, env, lambda x: self.ev(e.elt, x))

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, env):
        return set(self.e_ListComp(e, env))

    def e_DictComp(self, e, env):
        return dict(self.comp(e.generators, env, lambda x: (
            self.index(self.ev(e.key, x)), self.ev(e.value, x))))

    def e_BoolOp(self, e, env):
        v = None
        for x in e.values:
            v = self.ev(x, env)
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return v if not isinstance(v, (Sym, Opaque)) else False
            if isinstance(e.op, ast.Or) and t:
                return v if not isinstance(v, (Sym, Opaque)) else True
        return v

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(v, NUM):
            return -v if isinstance(e.op, ast.USub) else +v if isinstance(
                e.op, ast.UAdd) else ~v
        if isinstance(v, Arr):
            return Arr(v.kind, v.shape, v.dtype,
                       (type(e.op).__name__, v.content))
        return Sym((type(e.op).__name__, self.key(v)))

    def e_BinOp(self, e, env):
        return self.binop(e.op, self.ev(e.left, env), self.ev(e.right, env))

    def binop(self, op, a, b):
        k = type(op).__name__
        if isinstance(a, NUM) and isinstance(b, NUM):
            try:
                return ARITH[k](a, b)
            except ZeroDivisionError:
                raise PyRaise("ZeroDivisionError", "", self.where())
            except (TypeError, OverflowError, ValueError) as x:
                raise PyRaise("TypeError", str(x), self.where())
        if k == "Add" and isinstance(a, (list, tuple)) \
                and isinstance(b, (list, tuple)):
            if type(a) is not type(b):
                raise PyRaise("TypeError", "can only concatenate %s (not %s)"
                              % (type(a).__name__, type(b).__name__),
                              self.where())
            return a + b
        if k == "Add" and isinstance(a, str) and isinstance(b, str):
            return a + b
        if k == "Mult" and isinstance(a, (list, tuple, str)) \
                and isinstance(b, int):
            return a * b
        if k == "Mult" and isinstance(b, (list, tuple, str)) \
                and isinstance(a, int):
            return a * b
        if k == "Mod" and isinstance(a, str):
            if plain(b):
                try:
                    return a % b
                except (TypeError, ValueError) as e:
                    raise PyRaise(type(e).__name__, str(e), self.where())
            return Opaque(("format", a))
        if isinstance(a, Arr) or isinstance(b, Arr):
            r = a if isinstance(a, Arr) else b
            return Arr(r.kind, r.shape, r.dtype, (k, self.key(a),
                                                  self.key(b)))
        if isinstance(a, (Sym, Opaque)) or isinstance(b, (Sym, Opaque)):
            return Sym((k, self.key(a), self.key(b)))
        if isinstance(a, (set, dict)) and type(a) is type(b):
            return ARITH[k](a, b)
        if isinstance(a, Ext) or isinstance(b, Ext):
            return Opaque((k, self.key(a), self.key(b)))
        raise PyRaise("TypeError", "unsupported operand type(s) for %s: %r "
                      "and %r" % (k, a, b), self.where())

    def e_Compare(self, e, env):
        a = self.ev(e.left, env)
        for op, x in zip(e.ops, e.comparators):
            b = self.ev(x, env)
            r = self.compare(op, a, b)
            if not self.truth(r):
                return r if len(e.ops) == 1 and not isinstance(r, Sym) \
                    else False
            a = b
        return True

    def compare(self, op, a, b):
        k = type(op).__name__
        if k in ("Is", "IsNot"):
            if isinstance(a, (Sym, Opaque)) or isinstance(b, (Sym, Opaque)):
                if a is b or (isinstance(a, Sym) and a == b):
                    r = True
                elif a is None or b is None:
                    # an unknown value is not None
                    r = False
                else:
                    s = Sym(("is", self.key(a), self.key(b)))
                    return s if k == "Is" else Sym(("not", s.key))
            elif isinstance(a, (Ext, NFn, int, bool, str)):
                r = type(a) is type(b) and self.same(a, b)
            else:
                r = a is b
            return r if k == "Is" else not r
        if k in ("In", "NotIn"):
            if isinstance(b, (list, tuple, set, str)):
                if isinstance(a, Sym):
                    r = any(self.truth(self.compare(ast.Eq(), a, x))
                            for x in b)
                elif isinstance(b, str):
                    r = a in b
                else:
                    r = any(self.truth(self.compare(ast.Eq(), a, x))
                            for x in b)
            elif isinstance(b, dict):
                r = self.index(a) in b
            elif isinstance(b, Inst):
                r = self.index(a) in b.items
            else:
                return Sym((k, self.key(a), self.key(b)))
            return r if k == "In" else not r
        if k in ("Eq", "NotEq"):
            if isinstance(a, Sym) or isinstance(b, Sym) or \
                    isinstance(a, (Opaque, Arr)) or \
                    isinstance(b, (Opaque, Arr)):
                if not isinstance(a, Sym):
                    a, b = b, a
                if self.key(a) == self.key(b):
                    r = True
                else:
                    s = Sym(("eq", a if isinstance(a, Sym) else self.key(a),
                             self.key(b)))
                    return s if k == "Eq" else Sym(("not", s.key))
            elif isinstance(a, TransV) and isinstance(b, TransV):
                # the class defines no comparison: identity of the constants
                r = a.t == b.t
            else:
                r = self.same(a, b)
            return r if k == "Eq" else not r
        if isinstance(a, NUM) and isinstance(b, NUM):
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b,
                    "GtE": a >= b}[k]
        if isinstance(a, (Sym, Opaque, Arr)) or \
                isinstance(b, (Sym, Opaque, Arr)):
            if k == "Gt":
                return Sym(("lt", self.key(b), self.key(a)))
            if k == "Lt":
                return Sym(("lt", self.key(a), self.key(b)))
            if k == "LtE":
                return Sym(("not", ("lt", self.key(b), self.key(a))))
            return Sym(("not", ("lt", self.key(a), self.key(b))))
        if isinstance(a, (list, tuple, str)) and type(a) is type(b):
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b,
                    "GtE": a >= b}[k]
        raise PyRaise("TypeError", "'%s' not supported between %r and %r"
                      % (k, a, b), self.where())

    def same(self, a, b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return type(a) is type(b) and len(a) == len(b) and all(
                self.truth(self.compare(ast.Eq(), x, y))
                for x, y in zip(a, b))
        if isinstance(a, NUM) and isinstance(b, NUM):
            return a == b
        if isinstance(a, (str, Ext, dict, set, frozenset)) and \
                type(a) is type(b):
            return a == b
        if isinstance(a, NFn) and isinstance(b, NFn):
            return a.path == b.path
        return a is b

    def key(self, v):
        """Hashable description of a value."""
        if isinstance(v, Sym):
            return v.key
        if isinstance(v, Opaque):
            return v.key
        if isinstance(v, Arr):
            return v.content
        if isinstance(v, (int, float, str, bool, type(None))):
            return v
        if isinstance(v, (list, tuple)):
            return ("seq",) + tuple(self.key(x) for x in v)
        if isinstance(v, Tensor):
            return ("tensor", v.n)
        if isinstance(v, slice):
            return ("slice", self.key(v.start), self.key(v.stop),
                    self.key(v.step))
        if isinstance(v, Ext):
            return ("ext", v.path)
        return ("obj", id(v))

    def index(self, k):
        if isinstance(k, (Sym, Opaque)):
            return k
        if isinstance(k, bool):
            return int(k)
        return k

    def slice(self, s, env):
        f = [self.ev(x, env) if x is not None else None
             for x in (s.lower, s.upper, s.step)]
        if any(isinstance(x, (Sym, Opaque)) for x in f):
            raise GiveUp("%s: slice with an unknown bound" % self.where())
        return slice(*f)

    def e_Slice(self, e, env):
        f = [self.ev(x, env) if x is not None else None
             for x in (e.lower, e.upper, e.step)]
        return slice(*f)

    def e_Subscript(self, e, env):
        o = self.ev(e.value, env)
        if isinstance(o, (Ext, Cls, NCls)):
            return o                    # generic alias
        if isinstance(e.slice, ast.Slice) and isinstance(
                o, (list, tuple, str)):
            return o[self.slice(e.slice, env)]
        k = self.index(self.ev(e.slice, env))
        return self.getitem(o, k)

    def getitem(self, o, k):
        if isinstance(o, (list, tuple, str)):
            if isinstance(k, (Sym, Opaque)):
                raise GiveUp("%s: unknown index" % self.where())
            if not isinstance(k, (int, slice)):
                raise PyRaise("TypeError", "list indices must be integers",
                              self.where())
            try:
                return o[k]
            except IndexError:
                raise PyRaise("IndexError", "list index out of range",
                              self.where())
        if isinstance(o, dict):
            if k not in o:
                raise PyRaise("KeyError", repr(k), self.where())
            return o[k]
        if isinstance(o, Inst):
            f, c = o.cls.find("__getitem__")
            if f is not None:
                return self.call(Bound(o, f), [k], {})
            if k in o.items:
                return o.items[k]
            raise PyRaise("KeyError", repr(k), self.where())
        if isinstance(o, Arr):
            return Arr(o.kind, None, o.dtype,
                       ("item", o.content, self.key(k)))
        if isinstance(o, (Opaque, Sym)):
            return Opaque(("item", o.key, self.key(k)))
        if isinstance(o, Builtin):
            return o
        if isinstance(o, range):
            return o[k]
        raise PyRaise("TypeError", "%r is not subscriptable" % (o,),
                      self.where())

    def iterate(self, v):
        if isinstance(v, Iter):
            r, v.xs = v.xs, []
            return r
        if isinstance(v, (list, tuple, str, range, set)):
            return list(v)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, Inst) and v.items:
            return list(v.items)
        if isinstance(v, (Opaque, Sym, Arr, Ext)):
            h = self.pkg.iterators.get(self.key(v))
            if h is not None:
                return list(h)
            raise GiveUp("%s: iteration over %r" % (self.where(), v))
        raise PyRaise("TypeError", "%r is not iterable" % (v,), self.where())

    # -- attributes -------------------------------------------------------------
    def getattr(self, o, name, default=KeyError):
        v = self.attr(o, name)
        if v is MISSING:
            if default is not KeyError:
                return default
            if name.startswith("__") and name.endswith("__"):
                if name == "__class__":
                    return typeof(self, o)
                raise GiveUp("%s: attribute %s" % (self.where(), name))
            raise PyRaise("AttributeError", "%r has no attribute '%s'"
                          % (o, name), self.where())
        return v

    def attr(self, o, name):
        if isinstance(o, Inst):
            if name in o.attrs:
                return o.attrs[name]
            v, c = o.cls.find(name)
            if c is not None:
                return self.bind(v, o, o.cls)
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return o.attrs
            f, c = o.cls.find("__getattr__")
            if f is not None:
                return self.call(Bound(o, f), [name], {})
            if name in ("get", "keys", "values", "items", "update"):
                return self.attr(o.items, name)
            return MISSING
        if isinstance(o, Cls):
            if name == "__name__":
                return o.name
            v, c = o.find(name)
            if c is None:
                return MISSING
            if isinstance(v, Static):
                return v.fn if v.kind == "staticmethod" else Bound(o, v.fn) \
                    if v.kind == "classmethod" else v
            return v
        if isinstance(o, Super):
            m = o.obj.cls.mro() if isinstance(o.obj, Inst) else o.obj.mro()
            rest = m[m.index(o.cls) + 1:]
            for c in rest:
                if name in c.ns:
                    return self.bind(c.ns[name], o.obj, c)
            if name == "__init__":
                return Builtin("object.__init__", lambda P, a, k: None)
            return MISSING
        if isinstance(o, Mod):
            if name in o.ns:
                v = o.ns[name]
                return None if v is NoneBox else v
            return MISSING
        if isinstance(o, NMod):
            v = self.native((o.path + "." if o.path else "") + name)
            return MISSING if v is None else v
        if isinstance(o, Ext):
            return ext_attr(self, o, name)
        if isinstance(o, Tensor):
            return self.tensor_attr(o, name)
        if isinstance(o, Grid):
            return self.traits_attr(o, name)
        if isinstance(o, NCls):
            if name == "__name__":
                return o.name
            return NFn(name, o.name + "." + name)
        if isinstance(o, Arr):
            return arr_attr(self, o, name)
        if isinstance(o, (Opaque, Sym)):
            return Opaque(("attr", o.key, name))
        if isinstance(o, File):
            return Builtin("file." + name, lambda P, a, k: Opaque(
                ("file", name)))
        if isinstance(o, (list, dict, str, tuple, set)):
            return value_method(self, o, name)
        if isinstance(o, Fn):
            if name == "__name__":
                return o.name
        if isinstance(o, NUM):
            if name == "dtype":
                return Opaque(("dtype",))
            if name in ("real",):
                return o
        if o is None:
            return MISSING
        return MISSING

    def bind(self, v, obj, cls):
        if isinstance(v, Fn):
            return Bound(obj, v)
        if isinstance(v, Static):
            if v.kind == "staticmethod":
                return v.fn
            if v.kind == "classmethod":
                return Bound(obj.cls if isinstance(obj, Inst) else obj, v.fn)
            return self.call(Bound(obj, v.fn), [], {})
        return None if v is NoneBox else v

    def traits_attr(self, o, name):
        if name == "shape":
            return list(o.shape)
        if name == "stride":
            return list(o.stride)
        if name == "ndim":
            return len(o.shape)
        if name == "nelems":
            return o.nelems
        if name == "linear_to_index":
            def f(P, a, k):
                n, out = a[0], []
                if not isinstance(n, int):
                    raise GiveUp("linear_to_index of an unknown number")
                if n < 0 or n >= o.nelems:
                    raise PyRaise("RuntimeError", "index out of bounds",
                                  P.where())
                for d in o.shape:
                    out.append(n % d)
                    n //= d
                return out
            return Builtin(name, f)
        if name == "index_to_linear":
            def f(P, a, k):
                ix = list(a[0])
                if len(ix) != len(o.shape):
                    raise PyRaise("RuntimeError", "wrong dimensionality",
                                  P.where())
                for i, d in zip(ix, o.shape):
                    if not isinstance(i, int):
                        raise GiveUp("index_to_linear of an unknown index")
                    if i < 0 or i >= d:
                        raise PyRaise("RuntimeError", "index out of bounds",
                                      P.where())
                return sum(i * s for i, s in zip(ix, o.stride))
            return Builtin(name, f)
        if isinstance(o, Traits):
            if name == "basetile_shape":
                return list(o.basetile)
            if name == "grid":
                return o.grid
            if name == "get_grid_shape":
                return Builtin(name, lambda P, a, k: list(o.grid.shape))
            if name == "get_tile_shape":
                return Builtin(name, lambda P, a, k: Opaque(("tile_shape",)))
        return MISSING

    def tensor_attr(self, o, name):
        if name == "distribution":
            return list(o.distr)
        if name == "next_tag":
            return o.next_tag
        ms = self.pkg.methods(o.ncls.name)
        if name in ms:
            return Bound(o, NFn(name, ms[name]))
        v = self.traits_attr(o.traits, name)
        return v

    # -- calls ------------------------------------------------------------------
    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            return self.make_super(e, env)
        f = self.ev(e.func, env)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.ev(a.value, env)))
            else:
                args.append(self.ev(a, env))
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, env)
                kw.update(d.items if isinstance(d, Inst) else d)
            else:
                kw[k.arg] = self.ev(k.value, env)
        self.line = e.lineno
        return self.call(f, args, kw)

    def make_super(self, e, env):
        if e.args:
            c = self.ev(e.args[0], env)
            o = self.ev(e.args[1], env)
            return Super(o, c)
        x = env
        while x is not None and x.cls is None:
            x = x.parent
        if x is None:
            raise PyRaise("RuntimeError", "super(): no arguments",
                          self.where())
        return Super(x.self_, x.cls)

    def call(self, f, args, kw):
        if isinstance(f, Bound):
            if isinstance(f.fn, NFn):
                return self.tensor_method(f.self_, f.fn, args, kw)
            if isinstance(f.fn, Fn):
                return self.call_fn(f.fn, [f.self_] + args, kw)
            if isinstance(f.fn, Builtin):
                return f.fn.fn(self, [f.self_] + args, kw)
            return self.call(f.fn, [f.self_] + args, kw)
        if isinstance(f, Fn):
            return self.call_fn(f, args, kw)
        if isinstance(f, Static):
            return self.call(f.fn, args, kw)
        if isinstance(f, Cls):
            return self.construct(f, args, kw)
        if isinstance(f, NCls):
            return self.nconstruct(f, args, kw)
        if isinstance(f, NFn):
            return self.ncall(f, args, kw)
        if isinstance(f, Builtin):
            if kw and f.name in BUILTINS and BUILTINS[f.name] is f and \
                    f.name not in KEYWORDS and not isinstance(f, ExcCls):
                raise GiveUp("%s: keyword arguments of %s"
                             % (self.where(), f.name))
            return f.fn(self, args, kw)
        if isinstance(f, ExcCls):
            return Exc(f.name, " ".join(str(a) for a in args))
        if isinstance(f, Ext):
            return ext_call(self, f, args, kw)
        if isinstance(f, (Opaque, Sym)):
            if live(args) or live(list(kw.values())):
                raise GiveUp("%s: call of %s" % (self.where(), show(f.key)))
            self.emit("opaque", show(f.key), args)
            return Opaque(("call", f.key) + tuple(
                self.key(a) for a in args))
        if isinstance(f, Inst):
            g, c = f.cls.find("__call__")
            if g is not None:
                return self.call(Bound(f, g), args, kw)
        raise PyRaise("TypeError", "%r is not callable" % (f,), self.where())

    def call_fn(self, f, args, kw):
        if len(self.stack) > 60:
            raise GiveUp("recursion")
        a = f.node.args
        env = Env(f.env if f.env is not None and not getattr(
            f.env, "isclass", False) and f.env.vars is not f.mod.ns else None,
            f.mod, f.cls, args[0] if args else None)
        names = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        v = env.vars
        if len(args) > len(names) and a.vararg is None:
            raise PyRaise("TypeError", "%s() takes %d positional arguments "
                          "but %d were given" % (f.name, len(names),
                                                 len(args)), self.where())
        for n, x in zip(names, args):
            v[n] = x
        if a.vararg is not None:
            v[a.vararg.arg] = tuple(args[len(names):])
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n in kw:
                if n in v:
                    raise PyRaise("TypeError", "%s() got multiple values for "
                                  "argument '%s'" % (f.name, n),
                                  self.where())
                v[n] = kw.pop(n)
            elif n not in v:
                j = i - (len(names) - nd)
                if j < 0:
                    raise PyRaise("TypeError", "%s() missing argument '%s'"
                                  % (f.name, n), self.where())
                v[n] = f.defaults[j]
        for x in a.kwonlyargs:
            if x.arg in kw:
                v[x.arg] = kw.pop(x.arg)
            elif x.arg in f.kwdefaults:
                v[x.arg] = f.kwdefaults[x.arg]
            else:
                raise PyRaise("TypeError", "%s() missing argument '%s'"
                              % (f.name, x.arg), self.where())
        if a.kwarg is not None:
            v[a.kwarg.arg] = kw
        elif kw:
            raise PyRaise("TypeError", "%s() got an unexpected keyword "
                          "argument '%s'" % (f.name, sorted(kw)[0]),
                          self.where())
        if isinstance(f.node, ast.Lambda):
            return self.ev(f.node.body, env)
        save = self.file, self.line
        mark = f.name in PHASES and args and isinstance(args[0], Inst)
        if mark:
            self.emit("enter", f.name, [args[0]])
        self.stack.append((f.name, self.where()))
        self.file = f.mod.path
        try:
            if is_generator(f.node):
                # run to its end at once: only if that cannot be told apart
                env.vars[YIELDED] = out = []
                n = len(self.events)
                try:
                    self.block(f.node.body, env)
                except _Return:
                    pass
                if len(self.events) != n:
                    raise GiveUp("%s: generator with effects" % self.where())
                raise _Return(Iter(out))
            self.block(f.node.body, env)
            r = None
            if mark:
                self.emit("leave", f.name, [args[0]])
        except _Return as x:
            r = x.v
            if mark:
                self.emit("leave", f.name, [args[0]])
        finally:
            self.stack.pop()
            self.file, self.line = save
        return r

    def construct(self, c, args, kw):
        o = Inst(c)
        f, k = c.find("__init__")
        if f is not None:
            self.call(Bound(o, f), args, kw)
        elif args or kw:
            if any(isinstance(b, ExcCls) for x in c.mro() for b in x.bases):
                return o
            if not any(isinstance(b, Ext) for x in c.mro() for b in x.bases):
                raise PyRaise("TypeError", "%s() takes no arguments" % c.name,
                              self.where())
        return o

    # -- the compiled module ------------------------------------------------------
    def ints(self, v):
        if not isinstance(v, (list, tuple)):
            raise PyRaise("TypeError", "incompatible constructor arguments",
                          self.where())
        for x in v:
            if isinstance(x, (Sym, Opaque)):
                raise GiveUp("%s: unknown extent" % self.where())
            if not isinstance(x, int):
                raise PyRaise("TypeError", "incompatible constructor "
                              "arguments", self.where())
        return list(v)

    def nconstruct(self, c, args, kw):
        if kw:
            raise PyRaise("TypeError", "keyword arguments", self.where())
        if c.name == "TileTraits":
            s = self.ints(args[0])
            if any(x <= 0 for x in s):
                raise PyRaise("RuntimeError", "invalid shape", self.where())
            return Grid(s)
        if c.name == "TensorTraits":
            if len(args) != 2:
                raise PyRaise("TypeError", "incompatible constructor "
                              "arguments", self.where())
            s, b = self.ints(args[0]), self.ints(args[1])
            if any(x <= 0 for x in s) or len(s) != len(b) \
                    or any(x <= 0 for x in b):
                raise PyRaise("RuntimeError", "invalid shape %s or tile %s"
                              % (s, b), self.where())
            return Traits(s, b)
        if c.name.startswith("Tensor_"):
            if len(args) != 3 or not isinstance(args[0], Traits) \
                    or not isinstance(args[1], (list, tuple)):
                raise PyRaise("TypeError", "incompatible constructor "
                              "arguments", self.where())
            t, d, tag = args
            if len(d) != t.grid.nelems:
                raise PyRaise("RuntimeError", "distribution of %d tiles for a"
                              " grid of %d" % (len(d), t.grid.nelems),
                              self.where())
            if isinstance(tag, int):
                tag = Tag(())
            if not isinstance(tag, Tag):
                raise PyRaise("TypeError", "tag", self.where())
            x = Tensor(len(self.tensors), c, t, list(d), tag, self.where(),
                       None)
            x.stack = list(self.stack)
            self.tensors.append(x)
            return x
        if c.name == "Config":
            return Opaque(("Config",))
        if c.name.startswith("Tile_"):
            return Opaque((c.name,))
        raise GiveUp("constructor of " + c.name)

    def matches(self, t, v):
        """Does pybind11 accept value v for a parameter of C++ type t?"""
        t = t.replace("const ", "").replace("&", "").strip()
        e = self.pkg.tensor_class(t)
        if e is not None:
            return isinstance(v, Tensor) and v.ncls.name == e
        if t in ("double", "float"):
            return isinstance(v, NUM) or isinstance(v, (Sym, Opaque)) or (
                isinstance(v, Arr) and v.shape in ((), None))
        if t in ("long", "int", "unsigned long", "unsigned long long",
                 "long long", "unsigned int", "nntile::Index", "bool",
                 "starpu_mpi_tag_t", "int64_t"):
            return (isinstance(v, int) or isinstance(v, (Sym, Opaque, Tag)))
        if t.startswith("std::vector<"):
            return isinstance(v, (list, tuple)) and all(
                isinstance(x, (int, Sym, Opaque)) for x in v)
        if t.endswith("TransOp"):
            return isinstance(v, TransV)
        if "py::array" in t or "pybind11::array" in t:
            return isinstance(v, (Arr, Opaque))
        return True

    def ncall(self, f, args, kw):
        sigs = self.pkg.bindings["functions"].get(f.path)
        if sigs is None:
            raise GiveUp("call of " + f.path)
        if kw:
            raise PyRaise("TypeError", "%s(): keyword arguments" % f.name,
                          self.where())
        for s in sigs:
            ts = s["params"]
            if ts is None:
                self.emit("native", f.path, args)
                return Opaque(("call", f.path))
            if len(ts) == len(args) and all(
                    self.matches(t, a) for t, a in zip(ts, args)):
                self.emit("core", f.name, args)
                self.events[-1].sig = s
                return None if s["ret"] == "void" else Opaque(
                    ("call", f.path))
        raise PyRaise("TypeError", "%s(): incompatible function arguments "
                      "(%s)" % (f.name, ", ".join(
                          a.ncls.name if isinstance(a, Tensor)
                          else type(a).__name__ for a in args)),
                      self.where())

    def tensor_method(self, t, f, args, kw):
        if not isinstance(t, Tensor):
            raise GiveUp("method %s of %r" % (f.name, t))
        impl = f.path                 # C++ function behind the binding
        if impl.endswith("unregister"):
            t.unregistered += 1
            self.emit("method", "unregister", [t])
        elif "to_array" in impl:
            if len(args) != 1 or not isinstance(args[0], (Arr, Opaque)):
                raise PyRaise("TypeError", f.name, self.where())
            self.emit("method", "to_array", [t, args[0]])
            a = args[0]
            if isinstance(a, Arr):
                d = dtype_name(a.dtype)
                want = ELEM.get(t.ncls.name)
                if a.kind == "np" and d and want and d != want:
                    # A converted copy would be filled instead of the array,
                    # the binding rejects it
                    raise PyRaise("TypeError", "to_array() of %s into an "
                                  "array of %s" % (t.ncls.name, d),
                                  self.where())
                if a.shape is not None and isinstance(a.shape, list) and \
                        a.shape != (t.traits.shape or [1]):
                    raise PyRaise("RuntimeError", "array.shape != "
                                  "tensor.shape", self.where())
                a.content = ("tensor", t.n)
        elif "from_array" in impl:
            if len(args) != 1 or not isinstance(args[0], (Arr, Opaque,
                                                          list)):
                raise PyRaise("TypeError", f.name, self.where())
            a = args[0]
            if isinstance(a, Arr) and isinstance(a.shape, list) and \
                    a.shape != (t.traits.shape or [1]):
                raise PyRaise("RuntimeError", "array.shape != tensor.shape",
                              self.where())
            self.emit("method", "from_array", [t, a])
            if isinstance(a, Arr):
                self.events[-1].content = a.content
        elif "set_reduction" in impl:
            t.redux.add(impl.split("set_reduction_")[-1])
            self.emit("method", impl.split("::")[-1], [t])
        elif impl.endswith("get_tile"):
            self.emit("method", "get_tile", [t])
            return Opaque(("tile", t.n))
        else:
            self.emit("method", impl.split("::")[-1], [t] + args)
        return None


class _NoneBox:
    pass


NoneBox = _NoneBox()


class _Missing:
    pass


MISSING = _Missing()


class Exc:
    def __init__(self, kind, msg):
        self.kind, self.msg = kind, msg


class ExcCls(Builtin):
    def __init__(self, name):
        self.name = name
        self.fn = lambda P, a, k: Exc(name, " ".join(str(x) for x in a))


ARITH = {"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b,
         "Mult": lambda a, b: a * b, "Div": lambda a, b: a / b,
         "FloorDiv": lambda a, b: a // b, "Mod": lambda a, b: a % b,
         "Pow": lambda a, b: a ** b, "BitAnd": lambda a, b: a & b,
         "BitOr": lambda a, b: a | b, "BitXor": lambda a, b: a ^ b,
         "LShift": lambda a, b: a << b, "RShift": lambda a, b: a >> b}


# -- values of the host language --------------------------------------------
def value_method(P, o, name):
    if isinstance(o, list):
        def f(P, a, k):
            if name == "append":
                o.append(a[0])
            elif name == "extend":
                o.extend(P.iterate(a[0]))
            elif name == "insert":
                if not isinstance(a[0], int):
                    raise GiveUp("insert at an unknown place")
                o.insert(a[0], a[1])
            elif name == "copy":
                return list(o)
            elif name == "pop":
                try:
                    return o.pop(*a)
                except IndexError:
                    raise PyRaise("IndexError", "pop", P.where())
            elif name == "reverse":
                o.reverse()
            elif name == "clear":
                o.clear()
            elif name == "index":
                for i, x in enumerate(o):
                    if P.truth(P.compare(ast.Eq(), x, a[0])):
                        return i
                raise PyRaise("ValueError", "not in list", P.where())
            elif name == "count":
                return sum(1 for x in o if P.truth(
                    P.compare(ast.Eq(), x, a[0])))
            elif name == "remove":
                for i, x in enumerate(o):
                    if P.truth(P.compare(ast.Eq(), x, a[0])):
                        del o[i]
                        return None
                raise PyRaise("ValueError", "not in list", P.where())
            elif name == "sort":
                o.sort()
            return None
        if name in ("append", "extend", "insert", "copy", "pop", "reverse",
                    "clear", "index", "count", "remove", "sort"):
            return Builtin("list." + name, f)
        return MISSING
    if isinstance(o, dict):
        def f(P, a, k):
            if name == "get":
                return o.get(a[0], a[1] if len(a) > 1 else None)
            if name == "keys":
                return list(o)
            if name == "values":
                return list(o.values())
            if name == "items":
                return [(k, v) for k, v in o.items()]
            if name == "update":
                for d in a:
                    o.update(d)
                o.update(k)
                return None
            if name == "pop":
                return o.pop(*a)
            if name == "setdefault":
                return o.setdefault(*a)
            if name == "copy":
                return dict(o)
        if name in ("get", "keys", "values", "items", "update", "pop",
                    "setdefault", "copy"):
            return Builtin("dict." + name, f)
        return MISSING
    if isinstance(o, str):
        if hasattr(o, name):
            def f(P, a, k):
                if name == "join" and len(a) == 1:
                    xs = P.iterate(a[0])
                    if all(isinstance(x, str) for x in xs):
                        return o.join(xs)
                if all(plain(x) for x in a) and all(
                        plain(x) for x in k.values()):
                    try:
                        return getattr(o, name)(*a, **k)
                    except (TypeError, ValueError, IndexError,
                            KeyError) as e:
                        raise PyRaise(type(e).__name__, str(e), P.where())
                return Opaque(("str", name))
            return Builtin("str." + name, f)
        return MISSING
    if isinstance(o, set):
        def f(P, a, k):
            return getattr(o, name)(*a)
        if name in ("add", "update", "discard", "union", "remove"):
            return Builtin("set." + name, f)
        return MISSING
    if isinstance(o, tuple) and name in ("index", "count"):
        return Builtin("tuple." + name, lambda P, a, k: getattr(o, name)(*a))
    return MISSING


YIELDED = "<yielded>"


def is_generator(node):
    r = getattr(node, "_isgen", None)
    if r is None:
        r = False
        todo = list(node.body)
        while todo and not r:
            n = todo.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
            elif not isinstance(n, (ast.FunctionDef, ast.Lambda,
                                    ast.ClassDef)):
                todo.extend(ast.iter_child_nodes(n))
        node._isgen = r
    return r


def plain(x):
    """A value that is the same object in Python."""
    if isinstance(x, (tuple, list)):
        return all(plain(y) for y in x)
    return x is None or type(x) in (str, int, float, bool)


class Iter:
    """An iterator over known values."""

    def __init__(self, xs):
        self.xs = list(xs)

    def __repr__(self):
        return "iterator"


def live(x, depth=0):
    """Does a value contain something an unknown function could act on?"""
    if isinstance(x, (list, tuple, set)):
        return depth < 4 and any(live(y, depth + 1) for y in x)
    if isinstance(x, dict):
        return depth < 4 and any(live(y, depth + 1) for y in x.values())
    return isinstance(x, (Tensor, Fn, Bound, NFn, Inst, Builtin, Static,
                          Cls, NCls))


def isinst(P, v, c):
    if isinstance(c, (tuple, list)):
        return any(isinst(P, v, x) for x in c)
    if isinstance(c, Cls):
        return isinstance(v, Inst) and c in v.cls.mro()
    if isinstance(c, NCls):
        if isinstance(v, Tensor):
            return v.ncls is c
        return isinstance(v, Grid) and v.cls == c.name
    if isinstance(c, Builtin) and isinstance(v, Sym) and \
            v.key in P.symtypes:
        return c.name in (P.symtypes[v.key], "object")
    if isinstance(c, Builtin):
        return {"int": isinstance(v, int), "float": isinstance(v, float),
                "str": isinstance(v, str), "bool": isinstance(v, bool),
                "list": isinstance(v, list), "tuple": isinstance(v, tuple),
                "dict": isinstance(v, dict), "object": True}.get(c.name,
                                                                False)
    return Sym(("isinstance", P.key(v), P.key(c)))


def typeof(P, v):
    if isinstance(v, Inst):
        return v.cls
    if isinstance(v, Tensor):
        return v.ncls
    if isinstance(v, Grid):
        return P.pkg.ncls("tensor." + v.cls) if isinstance(v, Traits) \
            else P.pkg.ncls("tile." + v.cls)
    if v is None:
        return BUILTINS["NoneType"]
    for n, t in (("bool", bool), ("int", int), ("float", float),
                 ("str", str), ("list", list), ("tuple", tuple),
                 ("dict", dict), ("set", set)):
        if type(v) is t:
            return BUILTINS[n]
    if isinstance(v, Sym) and v.key in P.symtypes:
        return BUILTINS[P.symtypes[v.key]]
    return Opaque(("type", P.key(v)))


def conv(name, fn):
    def f(P, a, k):
        if not a:
            return dict(k) if name == "dict" else fn()
        if isinstance(a[0], (Sym, Opaque, Arr, Tag)):
            if name == "bool":
                return P.truth(a[0])
            return Sym((name, P.key(a[0])))
        if name in ("list", "tuple", "set"):
            return fn(P.iterate(a[0]))
        if name == "bool":
            return P.truth(a[0])
        if name == "str" and not isinstance(a[0], (str, int, float)):
            return Opaque(("str", P.key(a[0])))
        if name == "dict":
            d = {}
            if isinstance(a[0], dict):
                d.update(a[0])
            else:
                for x in P.iterate(a[0]):
                    kk, vv = P.iterate(x)
                    d[kk] = vv
            d.update(k)
            return d
        try:
            return fn(*a)
        except (TypeError, ValueError) as e:
            raise PyRaise(type(e).__name__, str(e), P.where())
    return Builtin(name, f)


def _len(P, a, k):
    v = a[0]
    if isinstance(v, (list, tuple, dict, str, set, range)):
        return len(v)
    if isinstance(v, Inst):
        f, c = v.cls.find("__len__")
        if f is not None:
            return P.call(Bound(v, f), [], {})
        return len(v.items)
    if isinstance(v, (Opaque, Sym, Arr)):
        h = P.pkg.iterators.get(P.key(v))
        if h is not None:
            return len(h)
        return Sym(("len", P.key(v)))
    raise PyRaise("TypeError", "len()", P.where())


def _range(P, a, k):
    if any(not isinstance(x, int) for x in a):
        if any(isinstance(x, (Sym, Opaque)) for x in a):
            raise GiveUp("%s: range of an unknown length" % P.where())
        raise PyRaise("TypeError", "range()", P.where())
    return range(*a)


def _minmax(name):
    def f(P, a, k):
        xs = P.iterate(a[0]) if len(a) == 1 else a
        if all(isinstance(x, NUM) for x in xs):
            return (min if name == "min" else max)(xs)
        return Sym((name,) + tuple(P.key(x) for x in xs))
    return Builtin(name, f)


def named(P, x):
    if not isinstance(x, str):
        raise GiveUp("%s: attribute name is not known" % P.where())
    return x


def _getattr(P, a, k):
    named(P, a[1])
    return P.getattr(a[0], a[1], a[2] if len(a) > 2 else KeyError)


def _hasattr(P, a, k):
    named(P, a[1])
    return P.attr(a[0], a[1]) is not MISSING


def _setattr(P, a, k):
    named(P, a[1])
    if not isinstance(a[0], Inst):
        raise GiveUp("setattr")
    a[0].attrs[a[1]] = a[2]


def _open(P, a, k):
    return File(P.key(a[0]))


def _sum(P, a, k):
    xs = P.iterate(a[0])
    acc = a[1] if len(a) > 1 else k.get("start", 0)
    for x in xs:
        acc = P.binop(ast.Add(), acc, x)
    return acc


def _sorted(P, a, k):
    xs = P.iterate(a[0])
    if k or not all(isinstance(x, (int, float, str)) for x in xs):
        raise GiveUp("sorted")
    return sorted(xs)


def _map(P, a, k):
    return [P.call(a[0], list(x), {})
            for x in zip(*[P.iterate(y) for y in a[1:]])]


def _filter(P, a, k):
    return [x for x in P.iterate(a[1]) if P.truth(P.call(a[0], [x], {}))]


def _enumerate(P, a, k):
    s = a[1] if len(a) > 1 else k.get("start", 0)
    return [(i + s, x) for i, x in enumerate(P.iterate(a[0]))]


def _any(P, a, k):
    return any(P.truth(x) for x in P.iterate(a[0]))


def _all(P, a, k):
    return all(P.truth(x) for x in P.iterate(a[0]))


def _abs(P, a, k):
    return abs(a[0]) if isinstance(a[0], NUM) else Sym(("abs", P.key(a[0])))


def _next(P, a, k):
    if isinstance(a[0], Iter):
        if a[0].xs:
            return a[0].xs.pop(0)
        if len(a) > 1:
            return a[1]
        raise PyRaise("StopIteration", "", P.where())
    raise GiveUp("next()")


BUILTINS = {}
KEYWORDS = ("dict", "enumerate", "print", "sorted", "open", "super",
            "sum")
for _n, _f in (("len", _len), ("range", _range), ("getattr", _getattr),
               ("hasattr", _hasattr), ("setattr", _setattr), ("open", _open),
               ("sum", _sum), ("sorted", _sorted), ("map", _map),
               ("filter", _filter), ("enumerate", _enumerate),
               ("any", _any), ("all", _all), ("abs", _abs), ("next", _next),
               ("iter", lambda P, a, k: a[0] if isinstance(a[0], Iter)
                else Iter(P.iterate(a[0]))),
               ("zip", lambda P, a, k: list(zip(*[P.iterate(x)
                                                  for x in a]))),
               ("reversed", lambda P, a, k: list(reversed(
                   P.iterate(a[0])))),
               ("print", lambda P, a, k: None),
               ("id", lambda P, a, k: id(a[0])),
               ("repr", lambda P, a, k: Opaque(("repr", P.key(a[0])))),
               ("callable", lambda P, a, k: isinstance(
                   a[0], (Fn, Bound, NFn, Builtin, Cls))),
               ("isinstance", lambda P, a, k: isinst(P, a[0], a[1])),
               ("issubclass", lambda P, a, k: isinstance(a[0], Cls)
                and a[1] in a[0].mro()),
               ("divmod", lambda P, a, k: divmod(*a)
                if all(isinstance(x, NUM) for x in a) else (
                    Sym(("div", P.key(a[0]), P.key(a[1]))),
                    Sym(("mod", P.key(a[0]), P.key(a[1]))))),
               ("round", lambda P, a, k: round(*a) if all(
                   isinstance(x, NUM) for x in a)
                else Sym(("round", P.key(a[0])))),
               ("pow", lambda P, a, k: P.binop(ast.Pow(), a[0], a[1]))):
    BUILTINS[_n] = Builtin(_n, _f)
for _n, _f in (("int", int), ("float", float), ("str", str), ("bool", bool),
               ("list", list), ("tuple", tuple), ("dict", dict),
               ("set", set)):
    BUILTINS[_n] = conv(_n, _f)
BUILTINS["type"] = Builtin("type", lambda P, a, k: typeof(P, a[0]))
BUILTINS["min"] = _minmax("min")
BUILTINS["max"] = _minmax("max")
BUILTINS["object"] = Builtin("object", lambda P, a, k: Opaque(
    ("object", P.newid())))
BUILTINS["NoneType"] = Builtin("NoneType", lambda P, a, k: None)
BUILTINS["NotImplemented"] = Opaque(("NotImplemented",))
BUILTINS["Ellipsis"] = Opaque(("Ellipsis",))
BUILTINS["slice"] = Builtin("slice", lambda P, a, k: slice(*a))


# -- numpy, torch, pickle ------------------------------------------------------
CONST = {"numpy.inf": math.inf, "math.inf": math.inf, "numpy.pi": math.pi,
         "math.pi": math.pi, "numpy.Inf": math.inf}
FUN = {"sqrt": math.sqrt, "exp": math.exp, "log": math.log, "abs": abs,
       "power": lambda a, b: a ** b, "pow": lambda a, b: a ** b,
       "square": lambda a: a * a}


def ext_attr(P, o, name):
    p = o.path + "." + name
    if p in CONST:
        return CONST[p]
    return Ext(p)


def _shape(v):
    if isinstance(v, int):
        return [v]
    if isinstance(v, (list, tuple)) and all(isinstance(x, int) for x in v):
        return list(v)
    return None


ELEM = {"Tensor_fp32": "float32", "Tensor_fp64": "float64",
        "Tensor_int64": "int64"}


def dtype_name(d):
    """Name of a NumPy element type, None if unknown."""
    if isinstance(d, Ext) and d.path.startswith("numpy."):
        d = d.path[6:]
    elif isinstance(d, Builtin) and d.name in ("float", "int"):
        d = d.name + "64"
    if not isinstance(d, str):
        return None
    d = {"single": "float32", "double": "float64", "float_": "float64",
         "half": "float16", "int_": "int64", "longlong": "int64"}.get(d, d)
    return d if d in ("float16", "float32", "float64", "int64", "int32",
                      "bool", "bool_") else None


def ext_call(P, f, args, kw):
    p = f.path
    mod, _, name = p.rpartition(".")
    top = p.split(".")[0]
    if top in ("numpy", "math"):
        if name in ("float32", "float64", "float16", "int64", "int32",
                    "bool_", "int_"):
            if args and isinstance(args[0], NUM):
                # rounding is not modelled
                return args[0]
            if args and isinstance(args[0], Arr):
                return args[0]
            return Sym((p, P.key(args[0]) if args else 0))
        if name in FUN and all(isinstance(a, NUM) for a in args):
            try:
                return FUN[name](*args)
            except (ValueError, OverflowError, ZeroDivisionError):
                return Sym((p,) + tuple(P.key(a) for a in args))
        if name in ("zeros", "ones", "empty", "full"):
            P.emit("array", name, args)
            d = kw.get("dtype", args[1] if len(args) > 1 and
                       name != "full" else None)
            if d is None and name != "full":
                d = Ext("numpy.float64")
            return Arr("np", _shape(args[0]), d,
                       (name, P.newid()))
        if name in ("zeros_like", "ones_like", "empty_like"):
            a = args[0]
            return Arr("np", a.shape if isinstance(a, Arr) else None,
                       kw.get("dtype"), (name, P.newid()))
        if name in ("array", "asarray", "asfortranarray",
                    "ascontiguousarray", "copy"):
            a = args[0]
            if isinstance(a, Arr):
                return Arr("np", a.shape, kw.get("dtype", a.dtype), a.content)
            return Arr("np", None, kw.get("dtype"), (name, P.key(a)))
        if name in ("prod", "sum") and isinstance(args[0], (list, tuple)) \
                and all(isinstance(x, int) for x in args[0]):
            return math.prod(args[0]) if name == "prod" else sum(args[0])
        if any(isinstance(a, Arr) for a in args):
            a = [x for x in args if isinstance(x, Arr)][0]
            return Arr("np", a.shape if name in ("triu", "tril", "sqrt",
                                                 "abs") else None,
                       a.dtype, (p,) + tuple(P.key(x) for x in args))
        return Sym((p,) + tuple(P.key(a) for a in args))
    if top == "torch":
        if name in ("tensor", "from_numpy", "as_tensor", "Tensor") and args:
            a = args[0]
            if isinstance(a, Arr):
                return Arr("torch", a.shape, kw.get("dtype", a.dtype),
                           a.content)
            return Arr("torch", None, kw.get("dtype"), (p, P.key(a)))
        if name in ("save",):
            P.store[P.key(args[1])] = snapshot(args[0], {})
            P.emit("save", p, args)
            return None
        if name in ("load",):
            k = P.key(args[0])
            if k not in P.store:
                return Opaque(("loaded", k))
            return snapshot(P.store[k], {})
        return Opaque((p,) + tuple(P.key(a) for a in args))
    if top in ("pickle", "joblib", "dill", "json"):
        if name == "dump":
            k = args[1].path if isinstance(args[1], File) else P.key(args[1])
            P.store[k] = snapshot(args[0], {})
            P.emit("save", p, args)
            return None
        if name == "load":
            k = args[0].path if isinstance(args[0], File) else P.key(args[0])
            if k not in P.store:
                return Opaque(("loaded", k))
            return snapshot(P.store[k], {})
        if name == "dumps":
            return Opaque(("dumps", P.key(args[0])))
    if top in ("copy",) and name in ("copy", "deepcopy"):
        return snapshot(args[0], {}) if name == "deepcopy" else (
            list(args[0]) if isinstance(args[0], list) else
            dict(args[0]) if isinstance(args[0], dict) else args[0])
    if top == "itertools":
        if name == "chain":
            return [x for a in args for x in P.iterate(a)]
        if name == "product":
            return list(itertools.product(*[P.iterate(a) for a in args]))
        if name == "repeat" and len(args) == 2 and isinstance(args[1], int):
            return [args[0]] * args[1]
        if name == "starmap":
            return [P.call(args[0], P.iterate(x), {})
                    for x in P.iterate(args[1])]
        if name == "accumulate" and len(args) == 1:
            out = []
            for x in P.iterate(args[0]):
                out.append(x if not out else P.binop(ast.Add(), out[-1], x))
            return out
        if name == "islice" and all(isinstance(x, int) or x is None
                                    for x in args[1:]):
            return list(itertools.islice(P.iterate(args[0]), *args[1:]))
    if p == "itertools.chain.from_iterable":
        return [x for a in P.iterate(args[0]) for x in P.iterate(a)]
    if top == "functools":
        if name == "partial":
            fn, pre, pk = args[0], list(args[1:]), dict(kw)
            return Builtin("partial", lambda P, a, k: P.call(
                fn, pre + list(a), dict(pk, **k)))
        if name == "reduce":
            xs = P.iterate(args[1])
            if len(args) > 2:
                xs = [args[2]] + xs
            if not xs:
                raise PyRaise("TypeError", "reduce()", P.where())
            acc = xs[0]
            for x in xs[1:]:
                acc = P.call(args[0], [acc, x], {})
            return acc
        if name in ("wraps", "lru_cache", "cache"):
            if name == "cache":
                return args[0]
            return Builtin(name, lambda P, a, k: a[0])
    if top == "operator":
        if name == "attrgetter" and all(isinstance(a, str) for a in args):
            def get(P, a, k):
                out = []
                for path in args:
                    x = a[0]
                    for n in path.split("."):
                        x = P.getattr(x, n)
                    out.append(x)
                return out[0] if len(out) == 1 else tuple(out)
            return Builtin(name, get)
        if name == "itemgetter":
            return Builtin(name, lambda P, a, k: P.getitem(a[0], args[0])
                           if len(args) == 1 else tuple(
                               P.getitem(a[0], x) for x in args))
        if name == "methodcaller" and args and isinstance(args[0], str):
            return Builtin(name, lambda P, a, k: P.call(
                P.getattr(a[0], args[0]), list(args[1:]), dict(kw)))
        ops = {"add": ast.Add, "mul": ast.Mult, "sub": ast.Sub,
               "truediv": ast.Div, "floordiv": ast.FloorDiv, "mod": ast.Mod}
        if name in ops and len(args) == 2:
            return P.binop(ops[name](), args[0], args[1])
    if live(list(args)) or live(list(kw.values())):
        raise GiveUp("%s: call of %s" % (P.where(), p))
    P.emit("external", p, args)
    return Opaque((p,) + tuple(P.key(a) for a in args))


def snapshot(v, memo):
    """Value after writing to and reading from a file."""
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, list):
        memo[id(v)] = o = []
        o.extend(snapshot(x, memo) for x in v)
        return o
    if isinstance(v, dict):
        memo[id(v)] = o = {}
        o.update((k, snapshot(x, memo)) for k, x in v.items())
        return o
    if isinstance(v, tuple):
        return tuple(snapshot(x, memo) for x in v)
    if isinstance(v, Arr):
        return Arr(v.kind, v.shape, v.dtype, v.content)
    if isinstance(v, Tensor):
        raise PyRaise("TypeError", "cannot pickle a tensor")
    return v


NPM = ("copy", "reshape", "transpose", "astype", "flatten", "squeeze", "ravel",
       "sum", "mean", "max", "min", "item", "tolist", "view", "fill", "any",
       "all")
TM = ("to", "cpu", "cuda", "detach", "numpy", "clone", "float", "half",
      "bfloat16", "double", "reshape", "view", "permute", "transpose", "t",
      "contiguous", "item", "copy_", "size", "requires_grad_", "squeeze",
      "unsqueeze", "flatten", "type", "sum", "mean")


def arr_attr(P, o, name):
    if name == "T":
        return Arr(o.kind, o.shape[::-1] if o.shape else None, o.dtype,
                   ("T", o.content))
    if name == "shape":
        return list(o.shape) if o.shape is not None else Opaque(
            ("shape", o.content))
    if name == "dtype":
        return o.dtype if o.dtype is not None else Opaque(
            ("dtype", o.content))
    if name == "ndim":
        return len(o.shape) if o.shape is not None else Sym(
            ("ndim", o.content))
    if name in ("data", "grad") and o.kind == "torch":
        return Arr("torch", o.shape, o.dtype, o.content)
    if name not in (NPM if o.kind == "np" else TM):
        if name in ("size", "nbytes", "flags", "device", "requires_grad"):
            return Opaque((name, o.content))
        return MISSING

    def f(P, a, k):
        if name in ("copy", "astype", "to", "cpu", "detach", "clone", "float",
                    "half", "bfloat16", "double", "contiguous", "cuda",
                    "type", "requires_grad_"):
            return Arr(o.kind, o.shape, a[0] if a and name in (
                "astype", "to") else o.dtype, o.content)
        if name == "numpy":
            return Arr("np", o.shape, o.dtype, o.content)
        if name == "copy_":
            o.content = P.key(a[0])
            P.emit("copy_", "copy_", [o, a[0]])
            return o
        if name == "fill":
            o.content = ("full", P.key(a[0]))
            return None
        if name == "reshape":
            s = a[0] if len(a) == 1 and isinstance(a[0], (list, tuple)) else a
            return Arr(o.kind, _shape(s), o.dtype,
                       ("reshape", o.content, P.key(list(s))))
        return Arr(o.kind, None, o.dtype,
                   (name, o.content) + tuple(P.key(x) for x in a))
    return Builtin(name, f)


# -- package and paths ------------------------------------------------------------
class Package:
    """Sources of the Python package and the bindings of its compiled part."""

    def __init__(self, root, display, bindings, name="nntile"):
        self.root, self.name = root, name
        self.core = name + "." + name + "_core"
        self.bindings = bindings
        self.display = display
        self.iterators = {}
        self._src, self._ncls = {}, {}

    def source(self, mod):
        if mod not in self._src:
            rel = mod.split(".")[1:]
            p = self.root.joinpath(*rel)
            f = None
            if (p / "__init__.py").exists():
                f = p / "__init__.py"
            elif p.with_suffix(".py").exists() and rel:
                f = p.with_suffix(".py")
            if f is None:
                self._src[mod] = None
            else:
                try:
                    t = ast.parse(f.read_text(), str(f))
                except SyntaxError as e:
                    raise AnalysisBroken("cannot parse %s: %s" % (f, e))
                self._src[mod] = (self.display(f), t,
                                  f.name == "__init__.py")
        return self._src[mod]

    def ncls(self, path):
        n = path.split(".")[-1]
        if n not in self._ncls:
            self._ncls[n] = NCls(n)
        return self._ncls[n]

    def methods(self, cls):
        for p, c in self.bindings["classes"].items():
            if p.split(".")[-1] == cls:
                return c["methods"]
        return {}

    def tensor_class(self, ctype):
        """Python class bound to a C++ tensor type."""
        n = self.bindings["types"].get(ctype)
        return n if n and n.startswith("Tensor_") else None


def paths(pkg, fn, limit=512):
    """All paths of fn(P), as (P, value or PyRaise)."""
    todo = [()]
    out = []
    while todo:
        s = todo.pop()
        P = Py(pkg, s)
        try:
            r = fn(P)
        except PyRaise as e:
            r = e
        out.append((P, r))
        if len(out) > limit:
            raise GiveUp("too many paths")
        for i in range(len(s), len(P.taken)):
            if P.taken[i] is True:
                todo.append(tuple(P.taken[:i]) + (False,))
    return out
