"""Outcome of one check: violations, known findings, evidence."""
import contextlib
import json
import os
import pathlib
import re
import time
import traceback

from .build import AnalysisBroken, VERIF
from .limit import ItemTimeUp

KNOWN = VERIF / "known_findings.jsonl"
EVID = pathlib.Path(os.environ.get("NNV_EVIDENCE", str(VERIF / "evidence")))


def load_known():
    out = {}
    if KNOWN.exists():
        for ln in KNOWN.read_text().splitlines():
            ln = ln.strip()
            if not ln or ln.startswith("#") or ln.startswith("fixed:"):
                continue
            d = json.loads(ln)
            out.setdefault(d["property"], {})[d["key"]] = d["what"]
    return out


class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.viol = {}
        self.counts = {}
        self.rules = {}
        self.samples = []
        self.undec = []
        self.assumptions = []
        self.obligations = 0
        self.discharged = 0

    def rule(self, name, text):
        self.rules[name] = text

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def ob(self, ok=True):
        """One obligation (instance of a rule at a construct)."""
        self.obligations += 1
        if ok:
            self.discharged += 1

    def undecided(self, what):
        if what not in self.undec:
            self.undec.append(what)

    @contextlib.contextmanager
    def guard(self, what):
        """One item of a check: what the analysis cannot follow is undecided."""
        try:
            yield
        except AnalysisBroken:
            raise
        except ItemTimeUp as e:
            self.undecided("%s: %s" % (what, e))
        except Exception as e:
            if os.environ.get("NNV_DEBUG"):
                traceback.print_exc()
            self.undecided("%s: cannot be followed (%s: %s)"
                           % (what, type(e).__name__, e))

    def sample(self, s, n=12):
        if len(self.samples) < n:
            self.samples.append(s)

    def violation(self, key, msg, loc=None):
        """key identifies the construct independently of line numbers."""
        self.viol.setdefault(key, (msg, loc))

    def require(self, name, least):
        n = self.counts.get(name, 0)
        if n and n < least and self.undec:
            # what is missing is listed as undecided
            self.undecided("only %d %s (usually at least %d)"
                           % (n, name, least))
        elif n < least:
            raise AnalysisBroken("%s: only %d (at least %d expected)"
                                 % (name, n, least))

    def finish(self, level, explanation):
        known = load_known().get(self.prop, {})
        bad = {k: v for k, v in self.viol.items() if k not in known}
        for k, v in sorted(self.viol.items()):
            if k in known:
                print("KNOWN-FINDING: property=%s %s [%s]"
                      % (self.prop, known[k], k))
        cov = {"explanation": explanation, "rules": self.rules,
               "analysed": self.counts,
               "obligations": self.obligations, "discharged": self.discharged,
               "undecided": len(self.undec),
               "undecided_list": self.undec[:40], "samples": self.samples}
        ev = {"property": self.prop, "tier": self.tier,
              "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
              "level": level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2),
              "violations": [{"key": k, "what": v[0], "where": v[1]}
                             for k, v in sorted(bad.items())],
              "known_findings": sorted(k for k in self.viol if k in known),
              "assumptions": self.assumptions}
        EVID.mkdir(parents=True, exist_ok=True)
        (EVID / (self.prop + ".json")).write_text(json.dumps(ev, indent=1))
        rp = EVID / (self.prop + ".violations.txt")
        if bad:
            lines = []
            for k, (m, l) in sorted(bad.items()):
                lines.append("%s\n  at %s\n  [%s]" % (m, l, k))
            rp.write_text("\n".join(lines) + "\n")
            for x in lines[:30]:
                print(x)
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        if rp.exists():
            rp.unlink()
        print("%s: held on %d obligations (%s)%s" % (
            self.prop, self.obligations,
            ", ".join("%d %s" % (v, k) for k, v in self.counts.items()),
            "; %d undecided" % len(self.undec) if self.undec else ""))
        return 0


def short(loc):
    if not loc:
        return loc
    loc = re.sub(r"^.*/gen/[0-9a-f]+/", "", loc)
    return loc.replace("/repo/", "")
