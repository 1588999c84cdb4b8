"""Model of the task layer (src/starpu + src/kernel) extracted from LLVM IR.

For every task-submitting function and every scenario of its scalar arguments:
which codelet is inserted, with which access modes on which handles and which
argument block; and for every codelet implementation and scenario: which memory
of which buffer is read and written, as affine access functions of the loop
nest (LLVM scalar evolution)."""
import re
import subprocess

from . import build
from .build import AnalysisBroken
from .poly import Poly


# ---------------------------------------------------------------------------
# constants of the StarPU headers
# ---------------------------------------------------------------------------
_NAMES = ["STARPU_R", "STARPU_W", "STARPU_RW", "STARPU_SCRATCH", "STARPU_REDUX",
          "STARPU_COMMUTE", "STARPU_VALUE", "STARPU_CL_ARGS", "STARPU_FLOPS",
          "STARPU_CL_ARGS_NFREE", "STARPU_EXECUTE_ON_NODE", "STARPU_PRIORITY",
          "STARPU_EXECUTE_ON_DATA", "STARPU_TASK_FILE", "STARPU_TASK_LINE",
          "STARPU_NAME", "STARPU_TASK_COLOR", "STARPU_CALLBACK",
          "STARPU_CALLBACK_ARG", "STARPU_TAG", "STARPU_TAG_ONLY",
          "STARPU_TASK_SYNCHRONOUS"]


def starpu_constants():
    src = "#include <starpu.h>\n" + "\n".join(
        "long long nnv_%s = (long long)(%s);" % (n, n) for n in _NAMES)
    p = subprocess.run([build.CXX, "-w", "-I/usr/include/starpu/1.4",
                        "-I/usr/include/starpu/1.3", "-x", "c++", "-S",
                        "-emit-llvm", "-o", "-", "-"], input=src,
                       capture_output=True, text=True)
    out = {}
    for m in re.finditer(r"@nnv_(\w+) = .*?global i64 (-?\d+)", p.stdout):
        out[m.group(1)] = int(m.group(2))
    if len(out) != len(_NAMES):
        raise AnalysisBroken("cannot evaluate StarPU constants")
    return out


# ---------------------------------------------------------------------------
# AST walking helpers
# ---------------------------------------------------------------------------
def walk(n):
    """All dict nodes below n (n included)."""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            st.extend(x.values())
        elif isinstance(x, list):
            st.extend(x)


def includes_of(ws, unit):
    """Kernel units reachable through includes of nntile/kernel/..."""
    seen, todo = set(), [unit]
    out = []
    listed = {u.parent.name: u for u in ws.units("kernel")
              if u.parent.name != "kernel"}
    while todo:
        u = todo.pop()
        txt = u.read_text(errors="replace")
        for m in re.finditer(r'#\s*include\s*[<"]nntile/kernel/(\w+)', txt):
            k = m.group(1)
            if k in listed and k not in seen:
                seen.add(k)
                out.append(listed[k])
                todo.append(listed[k])
        for m in re.finditer(r"kernel::(\w+)::", txt):
            k = m.group(1)
            if k in listed and k not in seen:
                seen.add(k)
                out.append(listed[k])
                todo.append(listed[k])
    return sorted(out)


# ---------------------------------------------------------------------------
# classification of dumped IR values
# ---------------------------------------------------------------------------
def const_off(s):
    if s and s.get("k") == "c":
        return s["v"]
    if s and s.get("k") == "poly" and s["p"].is_const():
        return s["p"].cval()
    return None


def strip(v):
    while v and v.get("k") == "cast":
        v = v["a"]
    return v


def buffer_interface(v):
    """Index b if v is buffers[b] (the interface pointer)."""
    v = strip(v)
    if v and v.get("k") == "load":
        b = v["p"]["base"]
        if b.get("k") == "param" and b["i"] == 0:
            o = const_off(v["p"]["off"])
            if o is not None and o % 8 == 0:
                return o // 8
    return None


def buffer_of(v):
    """Index b if v is the data pointer of buffers[b]."""
    v = strip(v)
    if v and v.get("k") == "load":
        b = buffer_interface(v["p"]["base"])
        if b is not None and const_off(v["p"]["off"]) == PTR_OFF:
            return b
    return None


PTR_OFF = 8        # starpu_variable_interface::ptr
ELEMSIZE_OFF = 32  # starpu_variable_interface::elemsize


def set_interface_offsets(rec):
    global PTR_OFF, ELEMSIZE_OFF
    PTR_OFF, ELEMSIZE_OFF = rec


def interface_offsets():
    src = ("#include <starpu.h>\n#include <cstddef>\n"
           "long long nnv_a = offsetof(starpu_variable_interface, ptr);\n"
           "long long nnv_b = offsetof(starpu_variable_interface, elemsize);\n")
    p = subprocess.run([build.CXX, "-w", "-I/usr/include/starpu/1.4",
                        "-I/usr/include/starpu/1.3", "-x", "c++", "-S",
                        "-emit-llvm", "-o", "-", "-"], input=src,
                       capture_output=True, text=True)
    out = dict(re.findall(r"@nnv_(\w) = .*?global i64 (-?\d+)", p.stdout))
    if len(out) != 2:
        raise AnalysisBroken("cannot evaluate interface offsets")
    return int(out["a"]), int(out["b"])


_TASK = {}


def task_offsets():
    """Offsets of the fields of a task that carry the argument block."""
    if not _TASK:
        names = ("cl_arg", "cl_arg_size")
        src = "#include <starpu.h>\n#include <cstddef>\n" + "".join(
            "long long nnv_%s = offsetof(starpu_task, %s);\n" % (n, n)
            for n in names)
        p = subprocess.run([build.CXX, "-w", "-I/usr/include/starpu/1.4",
                            "-I/usr/include/starpu/1.3", "-x", "c++", "-S",
                            "-emit-llvm", "-o", "-", "-"], input=src,
                           capture_output=True, text=True)
        out = dict(re.findall(r"@nnv_(\w+) = .*?global i64 (-?\d+)", p.stdout))
        if len(out) != len(names):
            raise AnalysisBroken("cannot evaluate task field offsets")
        _TASK.update((k, int(v)) for k, v in out.items())
    return _TASK


def is_result(v, cid, depth=0):
    """Is the value the result of the call with this id?"""
    v = strip(v)
    if v is None or depth > 6:
        return False
    if v.get("k") in ("call", "invoke"):
        return v.get("id") == cid
    if v.get("k") == "ptr":
        return is_result(v["p"]["base"], cid, depth + 1)
    if v.get("k") == "gep":
        return is_result(v["a"], cid, depth + 1)
    return False


def base_kind(v):
    """('buf', b) | ('args',) | ('alloca', id) | ('global', name) | ('heap', id)
    | ('param', i) | ('?',)"""
    v = strip(v)
    if v is None:
        return ("?",)
    b = buffer_of(v)
    if b is not None:
        return ("buf", b)
    k = v.get("k")
    if k == "param":
        return ("param", v["i"])
    if k == "alloca":
        return ("alloca", v["id"], v.get("n"))
    if k == "global":
        return ("global", v["n"], v.get("const"))
    if k == "gep":
        return base_kind(v["a"])
    if k == "call":
        m = v.get("m") or ""
        if m in ("malloc", "calloc", "_Znwm", "_Znam", "aligned_alloc"):
            return ("heap", v["id"], m)
        return ("call", m)
    if k == "load":
        bi = base_kind(v["p"]["base"])
        if bi[0] == "param" and bi[1] == 0 and buffer_interface(v) is not None:
            return ("iface", buffer_interface(v))
        return ("ptrload",) + (bi,)
    if k == "ptr":
        return base_kind(v["p"]["base"])
    if k in ("phi", "op"):
        # union of possible bases (select, phi)
        ks = set()
        for x in (v.get("in") or []):
            ks.add(base_kind(x["v"]))
        if v.get("op") == "select":
            for x in v["a"][1:]:
                ks.add(base_kind(x))
        if len(ks) == 1:
            return ks.pop()
        if ks:
            return ("multi", frozenset(ks))
    return ("?",)


ONE = Poly.const(1)


class Ctx:
    """Conversion of scalar-evolution trees to polynomials.

    Atoms: 'a<off>' integer field of the argument block, 'p<i>' integer
    parameter, 'i<loop>' iteration number of a loop, 'e<b>' elemsize of buffer
    b, 'x<id>' anything else (opaque)."""

    def __init__(self, fm=None):
        self.opaque = {}
        self.narrow = False
        self.fm = fm
        self._walk = {}
        self._busy = set()

    # -- induction variables LLVM leaves opaque (walking pointers/offsets) ----
    def resolve(self, v):
        """Full form of a value that was dumped by reference only."""
        if v is not None and v.get("k") == "deep" and self.fm is not None:
            return self.fm.defs.get(v["id"], v)
        return v

    def walk_phi(self, v):
        """Polynomial of a loop phi that advances by a loop-invariant amount
        per iteration, the amount possibly accumulated by an inner loop."""
        fm = self.fm
        if fm is None or v.get("blk") is None:
            return None
        vid = v["id"]
        if vid in self._walk:
            return self._walk[vid]
        if vid in self._busy:
            return None
        self._busy.add(vid)
        try:
            r = None
            v = fm.defs.get(vid, v)
            L = next((l for l in fm.loops.values() if l["header"] == v["blk"]), None)
            if L is not None and len(v["in"]) == 2:
                ini = [x["v"] for x in v["in"] if x["b"] not in L["blocks"]]
                back = [x["v"] for x in v["in"] if x["b"] in L["blocks"]]
                if len(ini) == 1 and len(back) == 1:
                    d = self.delta(back[0], vid, 0)
                    a = self.val(ini[0])
                    if d is not None and a is not None and \
                            ("i%d" % L["id"]) not in d.atoms():
                        r = a + d * Poly.atom("i%d" % L["id"])
            self._walk[vid] = r
            return r
        finally:
            self._busy.discard(vid)

    def delta(self, v, target, depth):
        """v - target as a polynomial, or None."""
        fm = self.fm
        if depth > 12:
            return None
        if v.get("id") == target and v.get("k") not in ("ci", "param"):
            return Poly()
        v = self.resolve(v)
        if v.get("k") == "op" and v.get("op") == "add":
            for x, y in (v["a"], v["a"][::-1]):
                d = self.delta(x, target, depth + 1)
                if d is not None:
                    z = self.val(y)
                    return None if z is None else d + z
            return None
        if v.get("k") == "phi":
            L = next((l for l in fm.loops.values() if l["header"] == v["blk"]), None)
            if L is None:
                ds = [self.delta(x["v"], target, depth + 1) for x in v["in"]]
                if all(d is not None for d in ds) and len(set(ds)) == 1:
                    return ds[0]
                return None
            ini = [x["v"] for x in v["in"] if x["b"] not in L["blocks"]]
            back = [x["v"] for x in v["in"] if x["b"] in L["blocks"]]
            if len(ini) != 1 or len(back) != 1:
                return None
            step = self.delta(back[0], v["id"], depth + 1)
            d0 = self.delta(ini[0], target, depth + 1)
            n = fm.trips(L["id"], L["latch"]) if L.get("latch") is not None else None
            if step is None or d0 is None or n is None \
                    or ("i%d" % L["id"]) in step.atoms():
                return None
            return d0 + step * n
        return None

    def val(self, v):
        v0 = strip(self.resolve(strip(v)))
        if v0 is None:
            return None
        if v0["k"] == "phi":
            w = self.walk_phi(v0)
            if w is not None:
                return w
        if v0["k"] == "op" and v0.get("op") in ("add", "sub", "mul") \
                and (v0.get("t") or "").startswith("i") and self.fm is not None:
            a, b = self.val(v0["a"][0]), self.val(v0["a"][1])
            if a is not None and b is not None:
                return {"add": a + b, "sub": a - b, "mul": a * b}[v0["op"]]
        if v0["k"] == "ci":
            return Poly.const(v0["v"])
        if v0["k"] == "param":
            return Poly.atom("p%d" % v0["i"])
        if v0["k"] == "load":
            b = v0["p"]["base"]
            o = const_off(v0["p"]["off"])
            if b.get("k") == "param" and o is not None:
                if b["i"] == 1:
                    return Poly.atom("a%d" % o)
                return Poly.atom("p%d.%d" % (b["i"], o))
            bi = buffer_interface(b)
            if bi is not None and o == ELEMSIZE_OFF:
                return Poly.atom("e%d" % bi)
            bk = base_kind(b)
            if bk[0] == "buf":
                a = "d%d.%s" % (bk[1], v0["id"])
                self.opaque[a] = v0
                return Poly.atom(a)
        a = "x%s" % v0.get("id")
        self.opaque[a] = v0
        return Poly.atom(a)

    def scev(self, s):
        if s is None:
            return None
        k = s["k"]
        if k == "c":
            return Poly.const(s["v"])
        if k == "poly":
            return s["p"]
        if k == "+":
            r = Poly()
            for x in s["a"]:
                y = self.scev(x)
                if y is None:
                    return None
                r = r + y
            return r
        if k == "*":
            r = Poly.const(1)
            for x in s["a"]:
                y = self.scev(x)
                if y is None:
                    return None
                r = r * y
            return r
        if k == "rec":
            if len(s["a"]) != 2:
                return None
            a, b = self.scev(s["a"][0]), self.scev(s["a"][1])
            if a is None or b is None:
                return None
            return a + b * Poly.atom("i%d" % s["loop"])
        if k in ("sext", "zext"):
            return self.scev(s["a"][0])
        if k == "trunc" and self.narrow:
            return self.scev(s["a"][0])
        if k == "u":
            return self.val(s["v"])
        if k == "smax" or k == "umax":
            # trip counts: max(0, n); sizes are positive
            xs = [self.scev(x) for x in s["a"]]
            if any(x is None for x in xs):
                return None
            nz = [x for x in xs if not (x.is_const() and x.cval() <= 1)]
            if len(nz) == 1:
                return nz[0]
            return None
        if k in ("smin", "umin"):
            xs = [self.scev(x) for x in s["a"]]
            if any(x is None for x in xs):
                return None
            cs = [x.cval() for x in xs if x.is_const()]
            if len(cs) == 1 and len(xs) == 2 and cs[0] <= 0:
                return Poly.const(cs[0])
            return None
        if k == "udiv":
            a, b = self.scev(s["a"][0]), self.scev(s["a"][1])
            if a is None or b is None:
                return None
            if b.is_const() and b.cval() > 0:
                at = a.atoms()
                if len(at) == 1 and list(at)[0][0] == "e":
                    # number of elements in a buffer of known element size
                    return Poly.atom("%s/%d" % (list(at)[0], b.cval()))
                if all(v % b.cval() == 0 for v in a.t.values()):
                    return Poly({kk: v // b.cval() for kk, v in a.t.items()})
            return None
        return None


class Access:
    # virt: iteration of a library routine as (name, extent, stride) tuples
    __slots__ = ("kind", "buf", "off", "size", "block", "idx", "loc", "loop",
                 "val", "id", "count", "ty", "what", "virt")

    def __init__(self, **kw):
        for k in self.__slots__:
            setattr(self, k, kw.get(k))


# BLAS routines: argument positions of (pointer, extent, access)
def blas_accesses(name, args, ctx, scevs):
    """Accesses of a CBLAS call as (arg position, kind, extent poly in
    elements, dense, condition).  None if the routine is not modelled."""
    def num(i):
        if scevs[i] is not None:
            ctx.narrow = True
            r = ctx.scev(scevs[i])
            ctx.narrow = False
            if r is not None:
                return r
        return ctx.val(args[i])

    def cf(i):
        v = strip(args[i])
        if v.get("k") == "cf":
            return v["v"]
        return None
    base = re.sub(r"^cblas_[sd]", "", name)
    virt = {}
    if base == "gemm":
        # layout, ta, tb, m, n, k, alpha, A, lda, B, ldb, beta, C, ldc
        m, n, k = num(3), num(4), num(5)
        lda, ldb, ldc = num(8), num(10), num(13)
        if strip(args[0]).get("v") != 102:
            return None
        ta, tb = strip(args[1]).get("v"), strip(args[2]).get("v")
        out = []

        def mat(pos, rows, cols, ld, kind, rn, cn):
            if None not in (rows, cols, ld):
                virt[pos] = [(rn, rows, ONE), (cn, cols, ld)]
            # extent (cols-1)*ld + rows; equals cols*ld when ld == rows
            if ld == rows:
                out.append((pos, kind, rows * cols, True))
            elif ld is not None and cols is not None and rows is not None:
                out.append((pos, kind, (cols - Poly.const(1)) * ld + rows, False))
            else:
                out.append((pos, kind, None, False))
        if ta is None or tb is None:
            # transposition not constant: only the total sizes are known
            out.append((7, "r", m * k, None))
            out.append((9, "r", k * n, None))
        else:
            mat(7, m if ta == 111 else k, k if ta == 111 else m, lda, "r",
                *("mk" if ta == 111 else "km"))
            mat(9, k if tb == 111 else n, n if tb == 111 else k, ldb, "r",
                *("kn" if tb == 111 else "nk"))
        beta = cf(11)
        if beta == "0":
            mat(12, m, n, ldc, "w", "m", "n")
        else:
            mat(12, m, n, ldc, "rw" if beta is not None else "rw?", "m", "n")
        return out, virt
    if base == "axpy":
        n = num(0)
        if cval(args[3]) != 1 or cval(args[5]) != 1:
            return None
        return [(2, "r", n, True), (4, "rw", n, True)], {
            2: [("n", n, ONE)], 4: [("n", n, ONE)]}
    if base == "scal":
        n = num(0)
        if cval(args[3]) != 1:
            return None
        return [(2, "rw", n, True)], {2: [("n", n, ONE)]}
    if base == "nrm2":
        n = num(0)
        if cval(args[2]) != 1:
            return None
        return [(1, "r", n, True)], {1: [("n", n, ONE)]}
    return None


def cval(v):
    v = strip(v)
    return v.get("v") if v and v.get("k") == "ci" else None


class FnModel:
    """One function dump (one scenario)."""

    def __init__(self, name, facts, fn):
        self.name = name
        self.facts = {(f["param"], f["off"]): f["v"] for f in facts}
        self.fn = fn
        self.blocks = {b["id"]: b for b in fn["blocks"]}
        self.loops = {l["id"]: l for l in fn["loops"]}
        self.defs = {int(k): v for k, v in fn.get("defs", {}).items()}
        self.ctx = Ctx(self)
        self.entry = 0
        self._dom = None
        self.preds = {b: [] for b in self.blocks}
        for b in self.blocks.values():
            for s in b["succ"]:
                self.preds[s].append(b["id"])
        # blocks that end normally
        self.exits = [b["id"] for b in self.blocks.values()
                      if b["is"] and b["is"][-1]["k"] == "ret"]
        self._walk_pointers()

    # -- pointers advanced by loops ------------------------------------------
    def _walk_pointers(self):
        """Accesses relative to a pointer that loops advance are expressed
        relative to the pointer it starts from."""
        heads = {l["header"]: l for l in self.loops.values()}
        memo, busy = {}, set()

        def full(v):
            return strip(self.ctx.resolve(strip(v)))

        def root(v, blk, depth=0):
            """(pointer it starts from, offset), used in block blk."""
            v = full(v)
            if v is None or depth > 12:
                return None
            if v.get("k") == "ptr":
                r = root(v["p"]["base"], blk, depth + 1)
                o = self.ctx.scev(v["p"]["off"])
                return None if r is None or o is None else (r[0], r[1] + o)
            if v.get("k") != "phi":
                return (v, Poly()) if v.get("k") in (
                    "param", "alloca", "global", "load", "call") else None
            L = heads.get(v.get("blk"))
            if L is None or L.get("latch") is None:
                return None
            key = v["id"]
            if key not in memo:
                if key in busy:
                    return None
                busy.add(key)
                memo[key] = None
                d = self.defs.get(key, v)
                ini = [x for x in d["in"] if x["b"] not in L["blocks"]]
                back = [x for x in d["in"] if x["b"] in L["blocks"]]
                if len(ini) == 1 and len(back) == 1:
                    a = root(ini[0]["v"], ini[0]["b"], depth + 1)
                    st = delta(back[0]["v"], key, depth + 1)
                    if a is not None and st is None:
                        c = "i%d" % L["id"]
                        nx = root(back[0]["v"], back[0]["b"], depth + 1)
                        if nx is not None and nx[0] == a[0] and \
                                nx[1].subst({c: Poly.const(-1)}) == a[1]:
                            st = nx[1].subst({c: Poly.const(0)}) - a[1]
                            if a[1] + st * Poly.atom(c) + st != nx[1]:
                                st = None
                    if a is not None and st is not None and \
                            ("i%d" % L["id"]) not in st.atoms():
                        memo[key] = (a, st)
                busy.discard(key)
            if memo[key] is None:
                return None
            (r, a), st = memo[key]
            if blk in L["blocks"]:
                return r, a + st * Poly.atom("i%d" % L["id"])
            n = self.trips(L["id"], L["latch"])
            if n is None or L["exiting"] != [L["header"]]:
                return None
            return r, a + st * n

        def delta(v, target, depth):
            if depth > 12:
                return None
            if v.get("id") == target:
                return Poly()
            v = full(v)
            if v.get("k") == "ptr":
                r = delta(v["p"]["base"], target, depth + 1)
                o = self.ctx.scev(v["p"]["off"])
                return None if r is None or o is None else r + o
            if v.get("k") != "phi":
                return None
            L = heads.get(v.get("blk"))
            d = self.defs.get(v["id"], v)
            if L is None:
                ds = [delta(x["v"], target, depth + 1) for x in d["in"]]
                return ds[0] if None not in ds and len(set(ds)) == 1 else None
            ini = [x["v"] for x in d["in"] if x["b"] not in L["blocks"]]
            back = [x["v"] for x in d["in"] if x["b"] in L["blocks"]]
            if len(ini) != 1 or len(back) != 1 or L.get("latch") is None or \
                    L["exiting"] != [L["header"]]:
                return None
            c = "i%d" % L["id"]
            st = delta(back[0], v["id"], depth + 1)
            d0 = delta(ini[0], target, depth + 1)
            n = self.trips(L["id"], L["latch"])
            if d0 is None or n is None:
                return None
            if st is None:
                # given for each iteration relative to the target
                nx = delta(back[0], target, depth + 1)
                if nx is None or nx.subst({c: Poly.const(-1)}) != d0:
                    return None
                return nx.subst({c: n - Poly.const(1)})
            if c in st.atoms():
                return None
            return d0 + st * n

        def fix(p, blk):
            b = full(p.get("base"))
            if b is None or b.get("k") not in ("phi", "ptr"):
                return
            r = root(p["base"], blk)
            o = self.ctx.scev(p.get("off"))
            if r is not None and o is not None:
                p["base"] = r[0]
                p["off"] = {"k": "poly", "p": r[1] + o}
        if not heads or not any(
                d.get("k") == "phi" and d.get("blk") in heads and
                any(full(x["v"]).get("k") in ("ptr", "param") or
                    full(x["v"]).get("t") == "ptr" for x in d["in"]
                    if full(x["v"])) for d in self.defs.values()):
            return
        for b in self.blocks.values():
            for i in b["is"]:
                if i.get("p"):
                    fix(i["p"], b["id"])
                for x in i.get("s") or ():
                    if x and x.get("base"):
                        fix(x, b["id"])
        for d in self.defs.values():
            if d.get("k") == "load" and d.get("p"):
                fix(d["p"], d.get("bb"))

    def dom(self):
        if self._dom is None:
            order, seen = [], set()
            st = [(self.entry, iter(self.blocks[self.entry]["succ"]))]
            seen.add(self.entry)
            while st:
                n, it = st[-1]
                for x in it:
                    if x not in seen:
                        seen.add(x)
                        st.append((x, iter(self.blocks[x]["succ"])))
                        break
                else:
                    order.append(n)
                    st.pop()
            rpo = order[::-1]
            num = {x: i for i, x in enumerate(rpo)}
            idom = {self.entry: self.entry}
            changed = True
            while changed:
                changed = False
                for x in rpo:
                    if x == self.entry:
                        continue
                    new = None
                    for p in self.preds[x]:
                        if p in idom:
                            if new is None:
                                new = p
                                continue
                            a, c = p, new
                            while a != c:
                                while num[a] > num[c]:
                                    a = idom[a]
                                while num[c] > num[a]:
                                    c = idom[c]
                            new = a
                    if new is not None and idom.get(x) != new:
                        idom[x] = new
                        changed = True
            self._dom = idom
        return self._dom

    def dominates(self, a, b):
        d = self.dom()
        if b not in d:
            return True
        while True:
            if a == b:
                return True
            n = d.get(b)
            if n is None or n == b:
                return False
            b = n

    def loop_chain(self, l):
        out = []
        while l != -1:
            out.append(l)
            l = self.loops[l]["parent"]
        return out  # innermost first

    def dead_ends(self):
        """Blocks from which the function cannot return normally."""
        if not hasattr(self, "_dead"):
            live, todo = set(self.exits), list(self.exits)
            while todo:
                for p in self.preds[todo.pop()]:
                    if p not in live:
                        live.add(p)
                        todo.append(p)
            self._dead = set(self.blocks) - live
        return self._dead

    def live_exiting(self, L):
        """Exiting blocks of a loop, apart from exits that never return."""
        out = []
        for e in L["exiting"]:
            if any(s not in L["blocks"] and s not in self.dead_ends()
                   for s in self.blocks[e]["succ"]):
                out.append(e)
        return out

    def trips(self, loop, block):
        """Number of executions of `block` per entry of `loop` when it runs
        unconditionally in every iteration (polynomial or None)."""
        L = self.loops[loop]
        ex = self.live_exiting(L)
        if len(ex) != 1:
            return None
        e = ex[0]
        key = (loop, e)
        if not hasattr(self, "_btc"):
            self._btc = {}
        if key not in self._btc:
            r = self.ctx.scev(L["ec"].get(str(e)))
            self._btc[key] = r
        btc = self._btc[key]
        if btc is None:
            return None
        if e == L["header"]:
            return btc if block != e else btc + Poly.const(1)
        if block == e or self.dominates(block, e):
            return btc + Poly.const(1)
        return btc

    def insts(self):
        for b in self.fn["blocks"]:
            for n, i in enumerate(b["is"]):
                yield b, n, i

    # -- accesses -----------------------------------------------------------
    def accesses(self):
        """All accesses to codelet buffers, and a list of problems (calls whose
        effects are unknown)."""
        out, unknown = [], []
        for b, n, i in self.insts():
            k = i["k"]
            if k in ("load", "store", "atomic"):
                bk = base_kind(i["p"]["base"])
                bufs = []
                if bk[0] == "buf":
                    bufs = [bk[1]]
                elif bk[0] == "multi":
                    bufs = [x[1] for x in bk[1] if x[0] == "buf"]
                    if any(x[0] == "?" for x in bk[1]):
                        unknown.append((i, "pointer of unknown origin"))
                elif bk[0] == "?" or bk[0] == "call":
                    unknown.append((i, "pointer of unknown origin"))
                for x in bufs:
                    off = self.ctx.scev(i["p"]["off"]) if bk[0] == "buf" else None
                    kinds = {"load": ["r"], "store": ["w"], "atomic": ["r", "w"]}[k]
                    if k == "load" and not i.get("used", True):
                        continue
                    for kk in kinds:
                        out.append(Access(kind=kk, buf=x, off=off, size=i.get("sz", 0),
                                          block=b["id"], idx=n, loc=i["loc"],
                                          loop=b["loop"], val=i.get("v"),
                                          id=i.get("id"), ty=i.get("t"),
                                          what=k))
            elif k in ("call", "invoke"):
                self._call(b, n, i, out, unknown)
        return out, unknown

    def _call(self, b, n, i, out, unknown):
        m = i.get("m", "")
        ptrs = []
        for j, p in enumerate(i["s"]):
            if p and "base" in p:
                bk = base_kind(p["base"])
                if bk[0] == "buf":
                    ptrs.append((j, bk[1], self.ctx.scev(p["off"])))
                elif bk[0] == "multi":
                    for x in bk[1]:
                        if x[0] == "buf":
                            ptrs.append((j, x[1], None))
        if not ptrs:
            return
        if m.startswith("llvm.memset") or m == "memset":
            ln = self.ctx.scev(i["s"][2]) if i["s"][2] else self.ctx.val(i["a"][2])
            for j, buf, off in ptrs:
                out.append(Access(kind="w", buf=buf, off=off, size=1, count=ln,
                                  block=b["id"], idx=n, loc=i["loc"],
                                  loop=b["loop"], what="memset"))
            return
        if m.startswith("llvm.memcpy") or m.startswith("llvm.memmove") \
                or m in ("memcpy", "memmove"):
            ln = self.ctx.scev(i["s"][2]) if i["s"][2] else self.ctx.val(i["a"][2])
            for j, buf, off in ptrs:
                out.append(Access(kind="w" if j == 0 else "r", buf=buf, off=off,
                                  size=1, count=ln, block=b["id"], idx=n,
                                  loc=i["loc"], loop=b["loop"], what="memcpy"))
            return
        if m.startswith("cblas_"):
            acc = blas_accesses(m, i["a"], self.ctx, i["s"])
            if acc is not None:
                es = 8 if m.startswith("cblas_d") else 4
                acc, virt = acc
                for pos, kind, ext, dense in acc:
                    for j, buf, off in ptrs:
                        if j != pos:
                            continue
                        ks = {"r": ["r"], "w": ["w"], "rw": ["r", "w"],
                              "rw?": ["r?", "w"]}[kind]
                        for kk in ks:
                            out.append(Access(
                                kind=kk, buf=buf, off=off, size=es,
                                count=ext, block=b["id"], idx=n, loc=i["loc"],
                                loop=b["loop"], what=m,
                                virt=virt.get(pos),
                                val=(i["a"][11] if "gemm" in m else None)))
                return
        ro = i.get("ro") or i.get("rn")
        for j, buf, off in ptrs:
            if ro:
                out.append(Access(kind="r", buf=buf, off=None, size=0,
                                  block=b["id"], idx=n, loc=i["loc"],
                                  loop=b["loop"], what=m))
            else:
                unknown.append((i, "call of %s with a buffer pointer" % m))


# ---------------------------------------------------------------------------
# task layer of one unit
# ---------------------------------------------------------------------------
class Codelet:
    def __init__(self):
        self.var = None      # qualified name of the Codelet variable
        self.unit = None
        self.name = None
        self.footprint = None
        self.cpu = []        # mangled names of implementations
        self.nbuffers = None
        self.modes = {}
        self.loc = None


class OpUnit:
    def __init__(self, ws, unit, ast):
        self.ws = ws
        self.unit = unit
        self.path = ws.display(unit)
        self.ast = ast
        self.fns = {f["m"]: f for f in ast["functions"]}
        self.own = [f for f in ast["functions"] if f["file"] == str(unit)]
        self.codelets = {}
        self.entries = set()
        self._find_codelets()

    def _find_codelets(self):
        for f in self.own:
            for x in walk(f.get("body")):
                if x.get("k") == "call" and x.get("f", "").endswith("Codelet::init") \
                        and x.get("oc") == "Codelet":
                    o = x.get("o") or {}
                    if o.get("k") != "var" or not o.get("q"):
                        continue
                    c = Codelet()
                    c.var = o["q"]
                    c.unit = self
                    c.loc = "%s:%d" % (self.path, x["l"])
                    a = x["a"]
                    c.name = a[0].get("v") if a[0].get("k") == "str" else None
                    if a[1].get("k") == "fn":
                        c.footprint = a[1]["m"]
                    elif a[1].get("k") in ("null", "int", "cast"):
                        c.footprint = None
                    c.cpu = [y["m"] for y in walk(a[2]) if y.get("k") == "fn"]
                    c.init_fn = f["m"]
                    if c.var in self.codelets:
                        self.codelets[c.var].dup = True
                    self.codelets[c.var] = c
        for f in self.own:
            for x in walk(f.get("body")):
                if x.get("k") == "asg" and x.get("op") == "=":
                    a = x["a"]
                    if a.get("k") == "mem" and a.get("n") == "nbuffers" \
                            and a["b"].get("q") in self.codelets \
                            and x["b"].get("k") == "int":
                        self.codelets[a["b"]["q"]].nbuffers = x["b"]["v"]
                    if a.get("k") == "idx" and a["b"].get("k") == "mem" \
                            and a["b"].get("n") == "modes" \
                            and a["b"]["b"].get("q") in self.codelets:
                        y = x["b"]
                        while y.get("k") == "cast":
                            y = y["a"]
                        if a["i"].get("k") == "int" and y.get("k") == "int":
                            self.codelets[a["b"]["b"]["q"]].modes[a["i"]["v"]] = y["v"]

    def calls_task_insert(self):
        """Own functions that reach starpu_task_insert through calls."""
        names = {f["m"]: f for f in self.ast["functions"]}
        reach = set()
        changed = True
        while changed:
            changed = False
            for m, f in names.items():
                if m in reach:
                    continue
                for x in walk(f.get("body")):
                    if x.get("k") == "call" and (
                            x.get("f") in ("starpu_task_insert", "starpu_task_submit",
                                           "_starpu_task_submit", "starpu_insert_task",
                                           "starpu_task_build")
                            or x.get("m") in reach):
                        reach.add(m)
                        changed = True
                        break
        return reach

    def submits(self):
        r = self.calls_task_insert()
        out = []
        for f in self.own:
            if f["m"] in r and f["n"].startswith("submit"):
                out.append(f)
        return out


class Site:
    """One starpu_task_insert in one scenario of one submitting function."""

    def __init__(self):
        self.fn = None
        self.scenario = None
        self.codelet = None   # qualified variable name
        self.bufs = []        # (mode or None, handle param index or None)
        self.args = None      # ('heap', id, alloc) ...
        self.args_size = None
        self.fields = {}      # offset -> (size, value, type)
        self.values = []      # STARPU_VALUE (pointer value, size)
        self.flops = None
        self.loc = None
        self.block = None
        self.idx = None
        self.inst = None
        self.build = None
        self.raw = []


def handle_param(v):
    v = strip(v)
    if v and v.get("k") == "load":
        b = v["p"]["base"]
        if b.get("k") == "param":
            return b["i"]
    if v and v.get("k") == "param":
        return v["i"]
    return None


class TaskLayer:
    def __init__(self, ws, only=None):
        self.ws = ws
        self.K = starpu_constants()
        set_interface_offsets(interface_offsets())
        units = ws.units("starpu")
        if only:
            units = [u for u in units if u.stem.replace(".cc", "") in only]
        asts = ws.asts(units)
        self.ops = [OpUnit(ws, u, asts[u]) for u in units]
        kbcs = sorted({k for u in units for k in includes_of(ws, u)})
        self.bcs = ws.bitcodes(list(units) + kbcs)
        build.build_tool("irdump")
        self.dumps = {}
        res = build.pmap(self._dump, self.ops)
        for op, r in zip(self.ops, res):
            op.dump = r
            self.dumps.update(r)
        self.codelets = {}
        for op in self.ops:
            self.codelets.update(op.codelets)

    def _dump(self, op):
        ents = set()
        for f in op.submits():
            ents.add(f["m"])
        for c in op.codelets.values():
            ents.update(c.cpu)
            if c.footprint:
                ents.add(c.footprint)
        op.entries = ents
        bcs = [self.bcs[op.unit]] + [self.bcs[k] for k in includes_of(self.ws, op.unit)]
        d = self.ws.ir(bcs, ents)
        # implementations that live in another unit are not found here
        return d

    def scenarios(self, m):
        if m not in self.dumps:
            return []
        d = self.dumps[m]
        return [FnModel(d["name"], s["facts"], s["fn"]) for s in d["scenarios"]]

    # -- submitting functions -------------------------------------------------
    def sites(self, fm):
        """starpu_task_insert sites of one scenario of a submitting function."""
        out = []
        for b, n, i in fm.insts():
            if i["k"] in ("call", "invoke") and i.get("m") in (
                    "starpu_task_insert", "starpu_insert_task"):
                out.append(self._site(fm, b, n, i))
            elif i["k"] in ("call", "invoke") and \
                    i.get("m") == "starpu_task_build":
                out.append(self._built(fm, b, n, i))
        return out

    def _built(self, fm, b, n, i):
        """A task built first and submitted in a second step."""
        sub = None
        for bb, nn, c in fm.insts():
            if c["k"] in ("call", "invoke") and c.get("m") in (
                    "starpu_task_submit", "_starpu_task_submit") and \
                    is_result(c["a"][0], i["id"]):
                sub = (bb, nn, c)
        if sub is None:
            s = self._site(fm, b, n, i)
            s.malformed = s.malformed or "the task that is built is not " \
                "submitted"
            return s
        fld = task_offsets()
        given = {}
        for bb, nn, st in fm.insts():
            if st["k"] == "store" and is_result(st["p"]["base"], i["id"]):
                o = const_off(st["p"]["off"])
                for k, v in fld.items():
                    if v == o:
                        given[k] = st["v"]
        s = self._site(fm, sub[0], sub[1], i, given)
        s.inst = sub[2]
        s.build = (i, b["id"])
        return s

    def _site(self, fm, b, n, i, given=None):
        K = self.K
        s = Site()
        s.fn = fm
        s.inst = i
        s.loc = i["loc"]
        s.block, s.idx = b["id"], n
        a = i["a"]
        v = strip(a[0])
        off = 0
        while v and v.get("k") in ("gep", "ptr"):
            v = v["a"] if v["k"] == "gep" else v["p"]["base"]
        s.codelet = v["n"] if v and v.get("k") == "global" else None
        s.codelet_v = v
        j = 1
        s.malformed = None
        while j < len(a):
            k = strip(a[j])
            kv = k.get("v") if k.get("k") == "ci" else None
            if kv == 0 and k.get("k") == "ci":
                break
            if kv == K["STARPU_CL_ARGS"] or kv == K["STARPU_CL_ARGS_NFREE"]:
                s.args_v = a[j + 1]
                s.args = base_kind(a[j + 1])
                s.args_nfree = kv == K["STARPU_CL_ARGS_NFREE"]
                s.args_size = cval(a[j + 2])
                j += 3
            elif kv == K["STARPU_VALUE"]:
                s.values.append((a[j + 1], i["s"][j + 1], a[j + 2], i["s"][j + 2]))
                j += 3
            elif kv == K["STARPU_FLOPS"]:
                s.flops = a[j + 1]
                j += 2
            elif kv is not None and kv in [K[x] for x in _NAMES[8:]]:
                j += 2
            elif kv is None or kv < (1 << 17):
                if j + 1 >= len(a):
                    s.malformed = "argument list ends after an access mode"
                    break
                s.bufs.append((kv, handle_param(a[j + 1]), k, a[j + 1]))
                j += 2
            else:
                s.malformed = "unknown key %s" % kv
                break
        else:
            s.malformed = "argument list is not terminated"
        # argument block
        if given and "cl_arg" in given:
            s.args_v = given["cl_arg"]
            s.args = base_kind(given["cl_arg"])
            s.args_nfree = cval(given.get("cl_arg_free")) == 0
            s.args_size = cval(given["cl_arg_size"]) \
                if "cl_arg_size" in given else None
        if s.args is not None and s.args[0] in ("heap", "alloca"):
            aid = s.args[1]
            for bb, nn, st in fm.insts():
                if st["k"] == "store":
                    bk = base_kind(st["p"]["base"])
                    if bk[0] in ("heap", "alloca") and bk[1] == aid:
                        o = const_off(st["p"]["off"])
                        dom = fm.dominates(bb["id"], b["id"]) and not (
                            bb["id"] == b["id"] and nn > n)
                        if o is not None:
                            s.fields[o] = (st["sz"], st["v"], st["t"], st["loc"], dom)
        return s


def dump_keep(T):
    """The same entry points with calls of nntile::kernel::* left as calls and
    without scenario specialisation: mangled -> (OpUnit, FnModel)."""
    def one(op):
        bcs = [T.bcs[op.unit]] + [T.bcs[k] for k in includes_of(T.ws, op.unit)]
        return T.ws.ir(bcs, op.entries, scenarios=False,
                       keep=("nntile::kernel::",))
    out = {}
    for op, d in zip(T.ops, build.pmap(one, T.ops)):
        for m, x in d.items():
            s = x["scenarios"][0]
            fm = FnModel(x["name"], s["facts"], s["fn"])
            fm.mangled = m
            out[m] = (op, fm)
    return out
