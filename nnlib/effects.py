"""Memory effects of task implementations on their buffers: which buffers are
read, written, read before being written, and whether a buffer is certainly
left partly unwritten."""
from .poly import Poly
from .tasks import strip, base_kind, const_off, cval

ONE = Poly.const(1)


def reach_avoiding(fm, start, goals, avoid, region=None, latch_of=None):
    """A path (list of blocks) from start to a goal that avoids `avoid`;
    None if there is none.  start itself may be in avoid."""
    if start in avoid:
        return None
    seen, st = {start: None}, [start]
    while st:
        x = st.pop()
        if x in goals:
            p = []
            while x is not None:
                p.append(x)
                x = seen[x]
            return p[::-1]
        for s in fm.blocks[x]["succ"]:
            if s in seen or s in avoid or (region is not None and s not in region):
                continue
            if s in fm.dead_ends():
                continue
            seen[s] = x
            st.append(s)
    return None


def leaves(fm, v, out, seen, depth=0):
    """Kinds of the leaves a value is computed from: 'data' (buffer
    contents), 'size' (integer argument), 'scalar' (floating argument),
    'index' (loop counter), 'call', '?'."""
    v = strip(v)
    if v is None or depth > 40:
        return
    if v.get("k") == "deep":
        v = fm.defs.get(v["id"], v)
        v = strip(v)
    i = v.get("id")
    if i is not None and i in seen:
        return
    if i is not None:
        seen.add(i)
    k = v.get("k")
    if k == "load":
        b = v["p"]["base"]
        bk = base_kind(b)
        if bk[0] == "buf":
            out.add("data")
        elif bk[0] == "param":
            out.add("size" if (v.get("t") or "").startswith("i") else "scalar")
        elif bk[0] == "iface":
            out.add("size")
        else:
            out.add("?")
    elif k == "phi":
        out.add("index")
        for x in v.get("in", []):
            leaves(fm, x["v"], out, seen, depth + 1)
    elif k == "op":
        for x in v["a"]:
            leaves(fm, x, out, seen, depth + 1)
    elif k == "cmp":
        leaves(fm, v["a"], out, seen, depth + 1)
        leaves(fm, v["b"], out, seen, depth + 1)
    elif k == "call":
        for x in v.get("a", []):
            leaves(fm, x, out, seen, depth + 1)
    elif k == "param":
        out.add("size" if (v.get("t") or "").startswith("i") else "scalar")
    elif k in ("ci", "cf", "fn", "null", "undef", "global"):
        pass
    else:
        out.add("?")


class Impl:
    """Effects of one scenario of one task implementation."""

    def __init__(self, fm):
        self.fm = fm
        self.acc, self.unknown = fm.accesses()
        for a in self.acc:
            a.off = self._clean(a)
        self.bufs = sorted({a.buf for a in self.acc})

    def _clean(self, a):
        """Offset with unit-trip loops removed; None if it depends on a loop
        the access is not in."""
        if a.off is None:
            return None
        fm = self.fm
        chain = fm.loop_chain(a.loop)
        sub = {}
        for at in a.off.atoms():
            if at[0] == "i" and at[1:].isdigit():
                l = int(at[1:])
                if l not in chain:
                    return None
                if fm.trips(l, a.block) == ONE:
                    sub[at] = Poly()
        return a.off.subst(sub) if sub else a.off

    def of(self, buf, kinds):
        return [a for a in self.acc if a.buf == buf and a.kind in kinds]

    # -- order ------------------------------------------------------------
    def precedes(self, w, r):
        """The write certainly (for non-empty loops) executes before the read
        can first execute, in an earlier statement."""
        fm = self.fm
        if w.block == r.block:
            return w.idx <= r.idx
        if fm.dominates(w.block, r.block):
            return True
        # the write sits in a loop nest that is completed before the read
        cw, cr = fm.loop_chain(w.loop), fm.loop_chain(r.loop)
        outer = [l for l in cw if l not in cr]
        for l in outer:
            h = fm.loops[l]["header"]
            if r.block not in fm.loops[l]["blocks"] and \
                    fm.dominates(h, r.block):
                return True
        return False

    def before_some(self, w, r):
        """The write may execute before the read."""
        fm = self.fm
        if w.block == r.block and w.idx <= r.idx:
            return True
        return reach_avoiding(fm, w.block, {r.block}, set()) is not None

    def reads_first(self, buf, beta_zero=lambda a: False):
        """Reads of `buf` that are not preceded by any write of it."""
        out = []
        ws = self.of(buf, ("w",))
        for r in self.of(buf, ("r", "r?")):
            if r.kind == "r?" and beta_zero(r):
                continue
            if r.loc and False:
                continue
            ok = False
            for w in ws:
                if r.what == w.what and r.block == w.block and r.idx == w.idx \
                        and r.what not in ("load", "store"):
                    continue        # read and written by the same call
                if self.precedes(w, r):
                    if w.loop == r.loop and w.off is not None and \
                            r.off is not None and w.off != r.off:
                        continue
                    ok = True
                    break
            if not ok:
                # a loop-carried or conditional earlier write: not certain
                same = [w for w in ws if w.block != r.block or w.idx < r.idx]
                alt = [w for w in same if self.before_some(w, r)
                       and (w.off is None or r.off is None or
                            (w.off == r.off and not self._later(w, r)))]
                if alt and not self._plain_rmw(r, ws):
                    continue
                out.append(r)
        return out

    def _later(self, w, r):
        """w follows r inside the same iteration of their innermost loop."""
        fm = self.fm
        if w.block == r.block:
            return w.idx > r.idx
        return fm.dominates(r.block, w.block)

    def _plain_rmw(self, r, ws):
        """r is only ever followed, not preceded, by writes of its element in
        the same iteration."""
        return all(self._later(w, r) for w in ws)

    # -- completeness -------------------------------------------------------
    def must_blocks(self, blocks, assume_trips=True):
        """Blocks and loop headers that execute whenever one of the outermost
        regions around `blocks` does: lift a set of blocks to the top level.
        Returns (lifted blocks at top level, deviating branch blocks)."""
        fm = self.fm
        cur = set(blocks)
        deviations = []
        changed = True
        while changed:
            changed = False
            loops = {}
            for b in cur:
                l = fm.blocks[b]["loop"]
                # a header stands for its loop in the parent
                if l != -1 and fm.loops[l]["header"] == b and b in self._lifted:
                    l = fm.loops[l]["parent"]
                if l != -1:
                    loops.setdefault(l, set()).add(b)
            if not loops:
                break
            l = max(loops, key=lambda x: len(fm.loop_chain(x)))
            L = fm.loops[l]
            bs = loops[l]
            latch = L.get("latch")
            starts = [s for s in fm.blocks[L["header"]]["succ"]
                      if s in L["blocks"]] \
                if L["header"] in fm.live_exiting(L) else [L["header"]]
            path = None
            for s in starts:
                path = reach_avoiding(fm, s, {latch}, bs, set(L["blocks"]))
                if path:
                    break
            if path is not None:
                deviations.append((l, path, bs))
            cur -= bs
            cur.add(L["header"])
            self._lifted.add(L["header"])
            changed = True
        return cur, deviations

    def uncovered(self, buf):
        """Reasons why part of the buffer certainly stays unwritten."""
        fm = self.fm
        ws = self.of(buf, ("w",))
        if not ws:
            if any("pointer of unknown" in u[1] and u[0]["k"] != "load"
                   for u in self.unknown) or \
                    any("call of" in u[1] for u in self.unknown):
                return []
            return [("it is never written", None)]
        out = []
        # (i) a path without any write
        self._lifted = set()
        top, dev = self.must_blocks({w.block for w in ws})
        p = reach_avoiding(fm, fm.entry, set(fm.exits), top)
        if p is not None:
            k = self.branch_kinds(p, top)
            if k and not k <= {"size", "index"}:
                out.append(("a path leaves it unwritten depending on %s"
                            % "/".join(sorted(k)), ws[0].loc))
        for l, path, bs in dev:
            k = self.branch_kinds(path, bs, fm.loops[l])
            if k & {"data", "scalar"} and "?" not in k:
                out.append(("elements are skipped depending on %s"
                            % "/".join(sorted(k)), ws[0].loc))
            elif k and k <= {"index", "size"} and "index" in k and \
                    len({w.off for w in ws}) == 1:
                out.append(("elements are skipped depending on their index",
                            ws[0].loc))
        # (ii) first element, (iii) gaps
        if all(w.off is not None for w in ws):
            mins = []
            for w in ws:
                c = w.off.subst({a: Poly() for a in w.off.atoms()
                                 if a[0] == "i" and a[1:].isdigit()})
                mins.append(c)
            if all(c.is_const() and c.cval() > 0 for c in mins):
                out.append(("the first element is never written", ws[0].loc))
            else:
                out += self._gaps(ws)
        return out

    def _gaps(self, ws):
        fm = self.fm
        import math
        g = 0
        for w in ws:
            for mono, c in w.off.t.items():
                if mono:
                    g = math.gcd(g, abs(c))
            if w.count is not None:
                if w.count.is_const():
                    pass
                else:
                    return []
        if g == 0:
            return []
        covered = set()
        for w in ws:
            n = w.count.cval() if w.count is not None else 1
            base = w.off.cval() % g
            for x in range(w.size * n):
                covered.add((base + x) % g)
        if len(covered) < g:
            return [("only %d of every %d bytes are written"
                     % (len(covered), g), ws[0].loc)]
        return []

    def branch_kinds(self, path, targets, L=None):
        """Kinds of the conditions at which `path` turns away from targets."""
        fm = self.fm
        kinds = set()
        for n, b in enumerate(path[:-1]):
            succ = fm.blocks[b]["succ"]
            if len(succ) < 2:
                continue
            others = [s for s in succ if s != path[n + 1]]
            region = set(L["blocks"]) if L else None
            for o in others:
                if o in fm.dead_ends() or (region is not None and o not in region):
                    continue
                if o in targets or reach_avoiding(
                        fm, o, set(targets), set(), region):
                    last = fm.blocks[b]["is"][-1]
                    ks = set()
                    if last.get("c") is not None:
                        leaves(fm, last["c"], ks, set())
                    kinds |= ks or {"?"}
                    break
        return kinds


def fact_value(v):
    """Scalar constant of an IR value as scenario facts spell it."""
    v = strip(v)
    if v is None:
        return None
    if v.get("k") == "ci":
        return str(v["v"])
    if v.get("k") == "cf":
        s = v["v"]
        return s
    return None


class Binding:
    """One task insertion in one scenario, bound to one implementation
    scenario that is consistent with it."""

    def __init__(self, op, sub, site, codelet, impl_name, impl):
        self.op, self.sub, self.site = op, sub, site
        self.codelet, self.impl_name, self.impl = codelet, impl_name, impl

    def field_param(self, off):
        """Submit parameter stored at argument offset off (through casts)."""
        f = self.site.fields.get(off)
        if f is None:
            return None
        v = strip(f[1])
        if v is not None and v.get("k") == "param":
            return v["i"]
        return None

    def field_fact(self, off):
        """What the scenario says about the argument at off: a constant, '*'
        (differs from the constants compared with) or None."""
        f = self.site.fields.get(off)
        if f is None:
            return None
        c = fact_value(f[1])
        if c is not None:
            return c
        p = self.field_param(off)
        if p is not None:
            return self.sub.facts.get((p, -1))
        p = self.field_ref(off)
        if p is not None:
            return self.sub.facts.get(p)
        return None

    def field_ref(self, off):
        """(parameter, offset) of a reference parameter whose target is
        stored at argument offset off."""
        f = self.site.fields.get(off)
        v = strip(f[1]) if f is not None else None
        if v is not None and v.get("k") == "load":
            b = strip(v["p"]["base"])
            o = const_off(v["p"]["off"])
            if b is not None and b.get("k") == "param" and o is not None:
                return (b["i"], o)
        return None

    def beta_zero(self, a):
        """The old destination contents are not used because the coefficient
        passed to the library routine is zero in this scenario."""
        v = strip(a.val)
        if v is None:
            return False
        if fact_value(v) == "0":
            return True
        if v.get("k") == "load":
            b = v["p"]["base"]
            if b.get("k") == "param" and b["i"] == 1:
                return self.field_fact(const_off(v["p"]["off"])) == "0"
        return False

    def describe(self):
        f = ", ".join("%s%s" % (self.param_name(k[0]), {
            "*": " other"}.get(v, "=" + v)) for k, v in sorted(self.sub.facts.items()))
        return "%s%s" % (self.codelet.name or self.codelet.var,
                         " (%s)" % f if f else "")

    def param_name(self, i):
        ps = self.op.fn_params.get(self.sub.mangled, [])
        return ps[i] if i < len(ps) else "argument %d" % i


def consistent(b, kconsts):
    """Is the implementation scenario possible in the submission scenario?"""
    for (p, off), v in b.impl.fm.facts.items():
        if p != 1:
            continue
        s = b.field_fact(off)
        if s is None:
            continue
        ks = kconsts.get(off, set())
        if s == "*":
            # differs from every constant the submission compares with
            pi = b.field_param(off)
            key = (pi, -1) if pi is not None else b.field_ref(off)
            sc = b.sub.all_consts.get(key, set())
            if v != "*" and v in sc:
                return False
        elif v == "*":
            if s in ks:
                return False
        elif v != s:
            return False
    return True


def bindings(T):
    """All consistent (submission scenario, implementation scenario) pairs."""
    out = []
    cache = {}
    missing = []
    for op in T.ops:
        op.fn_params = {f["m"]: [p["n"] for p in f["ps"]] for f in op.own}
        for f in op.submits():
            fms = T.scenarios(f["m"])
            consts = {}
            for fm in fms:
                for k, v in fm.facts.items():
                    if v != "*":
                        consts.setdefault(k, set()).add(v)
            for fm in fms:
                fm.mangled = f["m"]
                fm.ast = f
                fm.all_consts = consts
                for s in T.sites(fm):
                    c = T.codelets.get(s.codelet)
                    if c is None:
                        missing.append((op, fm, s))
                        continue
                    for m in c.cpu:
                        if m not in T.dumps:
                            continue
                        if m not in cache:
                            cache[m] = [Impl(x) for x in T.scenarios(m)]
                        kc = {}
                        for im in cache[m]:
                            for (p, off), v in im.fm.facts.items():
                                if p == 1 and v != "*":
                                    kc.setdefault(off, set()).add(v)
                        for im in cache[m]:
                            b = Binding(op, fm, s, c, m, im)
                            if consistent(b, kc):
                                out.append(b)
    return out, missing
