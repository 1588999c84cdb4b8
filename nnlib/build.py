"""Front end: configure the repository's generated sources, build the two
dumpers and run them over the translation units of /repo's working tree.

Everything is derived from the current contents of /repo on every run.  Results
are memoised under /verif/.cache keyed by the hash of everything they are
computed from (the translation unit, all headers, the dumper, the flags)."""
import concurrent.futures
import gzip
import hashlib
import json
import os
import pathlib
import re
import shutil
import subprocess
import sys
import tempfile
import threading

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("NNV_REPO", "/repo"))
CACHE = pathlib.Path(os.environ.get("NNV_CACHE", str(VERIF / ".cache")))
LLVM = "/usr/lib/llvm-18"
CXX = "clang++-18"
JOBS = os.cpu_count() or 4


class AnalysisBroken(Exception):
    """The analysis cannot give an answer (vanished anchor, build failure)."""


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(hashlib.sha256(p).digest())
    return h.hexdigest()[:32]


def _atomic_write(path, data):
    path.parent.mkdir(parents=True, exist_ok=True)
    fd, tmp = tempfile.mkstemp(dir=str(path.parent))
    with os.fdopen(fd, "wb") as f:
        f.write(data)
    os.replace(tmp, path)


_TOOLS = threading.Lock()


def build_tool(name):
    with _TOOLS:
        return _build_tool(name)


def _build_tool(name):
    """Compile a dumper from /verif/engine unless an up-to-date one exists."""
    src = VERIF / "engine" / (name + ".cc")
    key = sha(src.read_bytes())
    out = CACHE / "tools" / ("%s-%s" % (name, key))
    if out.exists():
        return out, key
    out.parent.mkdir(parents=True, exist_ok=True)
    tmp = str(out) + ".%d" % os.getpid()
    libs = ["-L%s/lib" % LLVM, "-lLLVM-18"]
    if name == "astdump":
        cl = None
        for c in ("/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18.1",
                  "/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18",
                  LLVM + "/lib/libclang-cpp.so.18.1"):
            if os.path.exists(c):
                cl = c
                break
        if cl is None:
            raise AnalysisBroken("libclang-cpp 18 not found")
        libs = [cl] + libs
    cmd = [CXX, "-O0", "-std=c++17", "-fno-rtti", "-w",
           "-I%s/include" % LLVM, str(src), "-o", tmp] + libs
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        raise AnalysisBroken("cannot build %s: %s" % (name, p.stderr[-2000:]))
    os.replace(tmp, out)
    return out, key


class Workspace:
    """The analysed translation units of the current working tree."""

    def __init__(self):
        self.repo = REPO
        self.gen = None
        self._lock = threading.Lock()
        self._headers_hash = None
        self._configure()

    # -- generated sources -------------------------------------------------
    def _configure(self):
        """What CMake's configure_file does for this repository."""
        ins = sorted((self.repo / "src").rglob("*.in")) + \
            sorted((self.repo / "include").rglob("*.in"))
        if not ins:
            raise AnalysisBroken("no .in sources found")
        subst = {"CBLAS_H_NAME": "cblas.h", "CBLAS_INT_TYPE": "int"}
        outs = {}
        for f in ins:
            rel = f.relative_to(self.repo).with_suffix("")
            txt = f.read_text()
            txt = re.sub(r"@([A-Z_]+)@",
                         lambda m: subst.get(m.group(1), m.group(0)), txt)
            lines = []
            for ln in txt.split("\n"):
                m = re.match(r"\s*#\s*cmakedefine\s+(\w+)", ln)
                if m:
                    ln = "#define NNTILE_USE_CBLAS" \
                        if m.group(1) == "NNTILE_USE_CBLAS" \
                        else "/* #undef %s */" % m.group(1)
                lines.append(ln)
            outs[str(rel)] = "\n".join(lines)
        key = sha(*[k + "\0" + v for k, v in sorted(outs.items())])
        self.gen = CACHE / "gen" / key
        if not self.gen.exists():
            tmp = pathlib.Path(str(self.gen) + ".%d" % os.getpid())
            for k, v in outs.items():
                p = tmp / k
                p.parent.mkdir(parents=True, exist_ok=True)
                p.write_text(v)
            try:
                os.replace(tmp, self.gen)
            except OSError:
                shutil.rmtree(tmp, ignore_errors=True)
        self.generated = sorted(outs)

    @property
    def headers_hash(self):
        if self._headers_hash is None:
            h = hashlib.sha256()
            for d in ("include", "external"):
                for f in sorted((self.repo / d).rglob("*")):
                    if f.is_file() and f.suffix in (".h", ".hh", ".hpp") \
                            and "googletest" not in f.parts \
                            and "nvbench" not in f.parts:
                        h.update(str(f.relative_to(self.repo)).encode())
                        h.update(f.read_bytes())
            # headers may also live beside the sources
            for f in sorted((self.repo / "src").rglob("*")):
                if f.is_file() and f.suffix in (".h", ".hh", ".hpp", ".inc"):
                    h.update(str(f.relative_to(self.repo)).encode())
                    h.update(f.read_bytes())
            for f in sorted(self.gen.rglob("*.h")):
                h.update(f.read_bytes())
            self._headers_hash = h.hexdigest()
        return self._headers_hash

    def flags(self):
        return ["-w", "-I%s/include" % self.repo, "-I%s/include" % self.gen,
                "-I/usr/include/starpu/1.4", "-I/usr/include/starpu/1.3",
                "-I%s/external" % self.repo, "-include", "cmath",
                "-std=gnu++17", "-DNDEBUG"]

    # -- lists of translation units -----------------------------------------
    def units(self, layer):
        """Translation units of one layer (kernel, starpu, tile, tensor) that
        the CPU build compiles, as src/CMakeLists.txt lists them."""
        if not hasattr(self, "_listed"):
            txt = (self.repo / "src" / "CMakeLists.txt").read_text()
            txt = re.sub(r"#[^\n]*", "", txt)
            # drop what only a CUDA build compiles
            txt = re.sub(r"if\s*\(\s*NNTILE_USE_CUDA\s*\).*?endif\s*\(\s*\)",
                         "", txt, flags=re.S)
            seen = []
            for m in re.finditer(r'"([^"]+\.cc)"', txt):
                f = m.group(1)
                f = f.replace("${CMAKE_CURRENT_BINARY_DIR}",
                              str(self.gen / "src"))
                f = f.replace("${PROJECT_BINARY_DIR}", str(self.gen))
                q = pathlib.Path(f)
                if not q.is_absolute():
                    q = self.repo / "src" / q
                if q.exists() and q not in seen:
                    seen.append(q)
            self._listed = seen
        src = str(self.repo / "src") + "/" + layer + "/"
        gsrc = str(self.gen / "src") + "/" + layer + "/"
        us = [u for u in self._listed
              if str(u).startswith(src) or str(u).startswith(gsrc)]
        if len(us) < 40:
            raise AnalysisBroken("only %d %s units listed" % (len(us), layer))
        return us

    def display(self, path):
        """Path of a source as the repository names it."""
        p = str(path)
        g = str(self.gen)
        if p.startswith(g):
            return p[len(g) + 1:] + ".in"
        r = str(self.repo)
        if p.startswith(r + "/"):
            return p[len(r) + 1:]
        return p

    # -- AST ----------------------------------------------------------------
    def ast(self, unit, extra=()):
        tool, tkey = build_tool("astdump")
        flags = self.flags() + list(extra)
        key = sha("ast", tkey, unit.read_bytes(), str(unit), self.headers_hash,
                  " ".join(flags))
        out = CACHE / "ast" / (key + ".json.gz")
        if out.exists():
            return json.loads(gzip.decompress(out.read_bytes()))
        fd, tmp = tempfile.mkstemp(suffix=".json")
        os.close(fd)
        try:
            cmd = [str(tool), tmp, "%s:%s" % (self.repo, self.gen), str(unit)] \
                + flags + ["-resource-dir", LLVM + "/lib/clang/18"]
            p = subprocess.run(cmd, capture_output=True, text=True)
            data = open(tmp, "rb").read()
            if p.returncode != 0 or not data:
                raise AnalysisBroken("cannot parse %s: %s" % (
                    self.display(unit), p.stderr[-1500:]))
            _atomic_write(out, gzip.compress(data, 1))
        finally:
            os.unlink(tmp)
        return json.loads(data)

    def asts(self, units):
        build_tool("astdump")
        self.headers_hash
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            return dict(zip(units, ex.map(self.ast, units)))

    def constants(self, names, header="starpu.h"):
        """Values of integer constants of an installed header."""
        src = "#include <%s>\n" % header + "".join(
            "extern const long long nnv_%d; const long long nnv_%d = %s;\n"
            % (i, i, n) for i, n in enumerate(names))
        key = sha("const", src, " ".join(self.flags()))
        out = CACHE / "const" / (key + ".json")
        if out.exists():
            return json.loads(out.read_text())
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, "c.cc")
            open(f, "w").write(src)
            p = subprocess.run([CXX] + self.flags() + ["-S", "-emit-llvm",
                                                       "-o", "-", f],
                               capture_output=True, text=True)
        v = {}
        for i, n in enumerate(names):
            m = re.search(r"@nnv_%d = .*?constant i64 (-?\d+)" % i, p.stdout)
            if m:
                v[n] = int(m.group(1))
        if p.returncode != 0 or len(v) != len(names):
            raise AnalysisBroken("constants of %s: %s" % (
                header, p.stderr[-500:]))
        _atomic_write(out, json.dumps(v).encode())
        return v

    # -- IR -----------------------------------------------------------------
    def bitcode(self, unit):
        key = sha("bc-ul", unit.read_bytes(), str(unit), self.headers_hash,
                  " ".join(self.flags()))
        out = CACHE / "bc" / (key + ".bc")
        if out.exists():
            return out
        out.parent.mkdir(parents=True, exist_ok=True)
        tmp = str(out) + ".%d.%d" % (os.getpid(), threading.get_ident())
        cmd = [CXX] + self.flags() + [
            "-O1", "-funroll-loops", "-Xclang", "-disable-llvm-passes",
            "-gline-tables-only",
            "-ffp-contract=off", "-fno-discard-value-names", "-emit-llvm",
            "-c", str(unit), "-o", tmp]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode != 0:
            raise AnalysisBroken("cannot compile %s: %s" % (
                self.display(unit), p.stderr[-1500:]))
        os.replace(tmp, out)
        return out

    def bitcodes(self, units):
        self.headers_hash
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            return dict(zip(units, ex.map(self.bitcode, units)))

    def ir(self, bcs, entries, scenarios=True, keep=()):
        tool, tkey = build_tool("irdump")
        spec = json.dumps({"entries": sorted(entries), "scenarios": scenarios,
                           "keep": sorted(keep)})
        key = sha("ir", tkey, spec, *[b.name for b in bcs])
        out = CACHE / "ir" / (key + ".json.gz")
        if out.exists():
            return json.loads(gzip.decompress(out.read_bytes()))
        with tempfile.TemporaryDirectory() as d:
            sp = os.path.join(d, "spec.json")
            op = os.path.join(d, "out.json")
            open(sp, "w").write(spec)
            p = subprocess.run([str(tool), op, sp] + [str(b) for b in bcs],
                               capture_output=True, text=True)
            if p.returncode != 0:
                raise AnalysisBroken("irdump failed: " + p.stderr[-1500:])
            data = open(op, "rb").read()
        _atomic_write(out, gzip.compress(data, 1))
        return json.loads(data)


def pmap(fn, xs):
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(fn, xs))


if __name__ == "__main__":
    # setup: build the dumpers
    for t in ("astdump", "irdump"):
        print(build_tool(t)[0])
