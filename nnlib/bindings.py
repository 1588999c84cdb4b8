"""What the Python extension module exports, read from the syntax tree of
wrappers/python/nntile/nntile_core.cc: modules, classes with their methods,
functions with the C++ function behind each and its parameter types."""
import glob
import re
import subprocess
import sys

from .build import AnalysisBroken

sys.setrecursionlimit(20000)
UNIT = "wrappers/python/nntile/nntile_core.cc"


class MVal:
    def __init__(self, path):
        self.path = path


class FVal:
    """A C++ function given to a binding."""

    def __init__(self, q, m, line):
        self.q, self.m, self.line = q, m, line


class CVal:
    def __init__(self, path, ctype):
        self.path, self.ctype = path, ctype


def split_args(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<([":
            d += 1
        if ch in ">)]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def norm_type(t):
    t = re.sub(r"\bconst\b", "", t).replace("&", "")
    t = re.sub(r",\s*std::allocator<[^<>]*>\s*", "", t)
    return re.sub(r"\s+", " ", t).strip()


def demangle(ms):
    p = subprocess.run(["c++filt"], input="\n".join(ms),
                       capture_output=True, text=True)
    if p.returncode:
        raise AnalysisBroken("c++filt failed")
    return dict(zip(ms, p.stdout.split("\n")))


def parse_demangled(s):
    """(qualified name without template arguments, template args, params)"""
    s = s.strip()
    s = re.sub(r"\s*\[clone[^\]]*\]", "", s)
    s = re.sub(r"\)\s*(const)?\s*(&|&&)?$", ")", s)
    # last top-level parenthesis
    d = 0
    i = len(s) - 1
    if not s.endswith(")"):
        return s, [], []
    while i >= 0:
        if s[i] in ")>":
            d += 1
        elif s[i] in "(<":
            d -= 1
            if d == 0:
                break
        i -= 1
    params = split_args(s[i + 1:-1])
    head = s[:i]
    ta = []
    if head.endswith(">"):
        d = 0
        j = len(head) - 1
        while j >= 0:
            if head[j] == ">":
                d += 1
            elif head[j] == "<":
                d -= 1
                if d == 0:
                    break
            j -= 1
        ta = [norm_type(x) for x in split_args(head[j + 1:-1])]
        head = head[:j]
    # drop the return type of a template instance
    d = 0
    for j in range(len(head) - 1, -1, -1):
        if head[j] == ">":
            d += 1
        elif head[j] == "<":
            d -= 1
        elif head[j] == " " and d == 0:
            head = head[j + 1:]
            break
    return head, ta, [norm_type(p) for p in params if p != "void"]


class Bindings:
    def __init__(self, ws):
        inc = sorted(glob.glob("/usr/include/python3.*"))
        if not inc:
            raise AnalysisBroken("no Python headers")
        self.ws = ws
        self.unit = ws.repo / UNIT
        if not self.unit.exists():
            raise AnalysisBroken("no " + UNIT)
        self.tree = ws.ast(self.unit, ["-I" + inc[-1]])
        self.fns = {}
        for f in self.tree["functions"]:
            if f.get("m"):
                self.fns[f["m"]] = f
        self.modules = {""}
        self.classes = {}          # path -> {"ctype", "methods", "init"}
        self.functions = {}        # path -> [FVal-based dict]
        self.attrs = {}
        self.types = {}
        self.defs = []             # every def in order
        self.unknown = []
        entry = [f for f in self.tree["functions"]
                 if f["n"].startswith("pybind11_init_")]
        if len(entry) != 1:
            raise AnalysisBroken("%d module entry points" % len(entry))
        f = entry[0]
        self.run(f, {f["ps"][0]["id"]: MVal("")}, 0)
        self.finish()

    # -- evaluation of the registration code -------------------------------
    def run(self, f, env, depth):
        if depth > 12:
            raise AnalysisBroken("recursive registration")
        self.stmts(f.get("body"), env, depth)

    def stmts(self, s, env, depth):
        if s is None:
            return
        k = s.get("k")
        if k == "block":
            for x in s["b"]:
                self.stmts(x, env, depth)
        elif k == "decl":
            for d in s["d"]:
                if "i" in d and d["i"] is not None:
                    env[d["id"]] = self.ev(d["i"], env, depth)
        elif k == "expr":
            self.ev(s["e"], env, depth)
        elif k in ("return", "null", "empty"):
            if s.get("e"):
                self.ev(s["e"], env, depth)
        elif k is not None:
            # anything else must not register
            self.unknown.append((s.get("l"), k))
            for x in s.values():
                if isinstance(x, dict):
                    if "k" in x:
                        self.ev(x, env, depth) if x["k"] in (
                            "call", "ctor") else self.stmts(x, env, depth)

    def strip(self, e):
        while isinstance(e, dict):
            if e.get("k") in ("cast", "paren", "tmp", "bind", "exprclean") \
                    and "a" in e and isinstance(e["a"], dict):
                e = e["a"]
            elif e.get("k") == "cast" and isinstance(e.get("a"), list) \
                    and len(e["a"]) == 1:
                e = e["a"][0]
            elif e.get("k") == "ctor" and len(e.get("a", [])) == 1 and \
                    "pybind11::" in e.get("c", "") and \
                    "class_" not in e.get("c", ""):
                e = e["a"][0]
            else:
                break
        return e

    def ev(self, e, env, depth):
        e = self.strip(e)
        if not isinstance(e, dict):
            return None
        k = e.get("k")
        if k == "str":
            return e["v"]
        if k == "var":
            return env.get(e.get("id"))
        if k == "fn":
            return FVal(e.get("f"), e.get("m"), e.get("l"))
        if k == "un" and e.get("op") in ("&", "*", "+"):
            a = self.strip(e["a"])
            if a.get("k") == "ref":
                return ("field", a.get("n"))
            return self.ev(a, env, depth)
        if k == "lambda":
            return ("lambda", e)
        if k == "ctor":
            c = e.get("c", "")
            if c == "pybind11::class_" or c.startswith("pybind11::class_<"):
                args = [self.ev(a, env, depth) for a in e["a"]]
                if isinstance(args[0], MVal) and isinstance(args[1], str):
                    t = re.match(r"pybind11::class_<(.*)>$", e["t"])
                    ts = split_args(t.group(1)) if t else ["?"]
                    path = self.join(args[0].path, args[1])
                    self.classes[path] = {"ctype": ts[0], "bases": ts[1:],
                                          "methods": {}, "init": [],
                                          "line": e["l"], "fields": {},
                                          "raw": {}}
                    self.types[ts[0]] = args[1]
                    return CVal(path, ts[0])
                raise AnalysisBroken("%s:%s: class binding not understood"
                                     % (UNIT, e.get("l")))
            xs = e.get("a", [])
            if len(xs) == 1:
                return self.ev(xs[0], env, depth)
            return None
        if k == "asg":
            l = self.ev(e["a"], env, depth)
            if isinstance(l, tuple) and l[0] == "attr" and \
                    isinstance(l[1], MVal):
                self.attrs[self.join(l[1].path, l[2])] = \
                    self.enumerators(e["b"])
            return l
        if k == "call":
            return self.call(e, env, depth)
        return None

    def join(self, a, b):
        return a + "." + b if a else b

    def call(self, e, env, depth):
        f = e.get("f") or ""
        base = f.split("::")[-1]
        o = self.ev(e["o"], env, depth) if e.get("o") else None
        args = e.get("a", [])
        if f == "pybind11::module_::def_submodule":
            n = self.ev(args[0], env, depth)
            p = self.join(o.path, n)
            self.modules.add(p)
            return MVal(p)
        if f == "pybind11::module_::def":
            self.define(o, e, env, depth, False)
            return o
        if f.startswith("pybind11::class_<") and isinstance(o, CVal):
            if base == "def":
                self.define(o, e, env, depth, True)
            elif base in ("def_readonly", "def_readwrite", "def_property",
                          "def_property_readonly", "def_static"):
                n = self.ev(args[0], env, depth)
                v = self.ev(args[1], env, depth)
                self.classes[o.path]["fields"][n] = v
            return o
        if base == "operator()" and "overload_cast" in f:
            return self.ev(args[0], env, depth)
        if base in ("attr",):
            n = self.ev(args[0], env, depth)
            return ("attr", o, n)
        callee = self.fns.get(e.get("m"))
        if callee is not None and callee.get("body"):
            vals = [self.ev(a, env, depth) for a in args]
            if any(isinstance(v, (MVal, CVal)) for v in vals):
                env2 = {p["id"]: v for p, v in zip(callee["ps"], vals)}
                self.run(callee, env2, depth + 1)
                return None
        if base in ("move", "forward", "cast", "as_const"):
            return self.ev(args[0], env, depth) if args else None
        return ("call", f, e)

    def enumerators(self, e):
        """Enumerators of TransOp in an expression."""
        out = []

        def go(x):
            if isinstance(x, dict):
                if x.get("n") and "TransOp" in x.get("t", "") and \
                        x.get("k") == "int":
                    out.append(x["n"])
                for v in x.values():
                    go(v)
            elif isinstance(x, list):
                for v in x:
                    go(v)
        go(e)
        return out

    def define(self, o, e, env, depth, is_class):
        args = e.get("a", [])
        vals = [self.ev(a, env, depth) for a in args]
        line = e.get("l")
        first = self.strip(args[0]) if args else None
        if isinstance(first, dict) and first.get("l"):
            line = first["l"]
        if is_class and vals and isinstance(vals[0], tuple) and \
                vals[0][0] == "call" and vals[0][1] == "pybind11::init":
            ts = vals[0][2].get("ta") or ["<>"]
            self.classes[o.path]["init"].append(
                [norm_type(t) for t in split_args(ts[0].strip("<>")
                                                  if len(ts) == 1 else
                                                  ",".join(ts))])
            return
        if len(vals) < 2 or not isinstance(vals[0], str) or o is None:
            raise AnalysisBroken("%s:%s: binding not understood"
                                 % (UNIT, line))
        v = vals[1]
        d = {"path": self.join(o.path, vals[0]), "name": vals[0],
             "line": line, "class": o.path if is_class else None,
             "extra": args[2:], "fn": v if isinstance(v, FVal) else None,
             "lambda": v[1] if isinstance(v, tuple) and v[0] == "lambda"
             else None}
        if d["fn"] is None and d["lambda"] is None:
            raise AnalysisBroken("%s:%s: what %s is bound to is not "
                                 "understood" % (UNIT, line, vals[0]))
        self.defs.append(d)
        if is_class:
            c = self.classes[o.path]
            c["methods"][vals[0]] = d["fn"].q if d["fn"] else \
                "lambda:" + vals[0]
            c["raw"][vals[0]] = d
        else:
            self.functions.setdefault(d["path"], []).append(d)

    def finish(self):
        ms = sorted({d["fn"].m for d in self.defs if d["fn"] is not None
                     and d["fn"].m})
        dm = demangle(ms)
        for d in self.defs:
            d["q"], d["targs"], d["params"] = None, [], None
            d["ret"] = None
            if d["fn"] is not None:
                s = dm.get(d["fn"].m, "")
                if s.startswith("_Z") or "(" not in s:
                    # C linkage or unknown
                    d["q"] = d["fn"].q
                    continue
                d["q"], d["targs"], d["params"] = parse_demangled(s)
                f = self.fns.get(d["fn"].m)
                d["ret"] = "void"
                if s.split(" ")[0] not in ("void",) and not s.startswith(
                        d["q"]):
                    d["ret"] = s.split(" ")[0]
                if f is not None and f.get("rt") and f["rt"] != "void":
                    d["ret"] = f["rt"]
                d["display"] = s
        if len(self.defs) < 150:
            raise AnalysisBroken("only %d bindings found" % len(self.defs))

    def for_interp(self):
        return {"modules": self.modules,
                "classes": self.classes,
                "functions": self.functions,
                "attrs": self.attrs,
                "types": {norm_type(k): v for k, v in self.types.items()}}
