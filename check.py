#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property on the
current working tree of /repo."""
import importlib
import os
import pathlib
import sys
import traceback

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
sys.setrecursionlimit(20000)
from nnlib.build import AnalysisBroken          # noqa: E402
from nnlib import limit                         # noqa: E402
from nnlib.report import Report                 # noqa: E402

MODULES = ["nnlib.chk_task", "nnlib.chk_tensor", "nnlib.chk_grid", "nnlib.chk_extent", "nnlib.chk_core",
           "nnlib.chk_py", "nnlib.chk_model", "nnlib.chk_kernel", "nnlib.chk_range", "nnlib.chk_body",
           "nnlib.chk_box"]


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    for m in MODULES:
        try:
            mod = importlib.import_module(m)
        except ModuleNotFoundError as e:
            if e.name == m:
                continue
            raise
        fn = mod.CHECKS.get(prop)
        if fn is not None:
            break
    else:
        print("unknown property", prop)
        return 2
    R = Report(prop, tier)
    try:
        limit.start(840 if tier == "thorough" else 720)
        try:
            level, text = fn(R)
        finally:
            limit.stop()
        return R.finish(level, text)
    except limit.TimeUp:
        R.undecided("the time of the check was used up")
        return R.finish("other", "incomplete: the time was used up")
    except AnalysisBroken as e:
        # a violation already established is still reported
        if R.viol:
            try:
                return R.finish("other", "incomplete: %s" % e)
            except Exception:
                traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s %s" % (prop, e))
        return 2
    except Exception as e:
        traceback.print_exc()
        if R.viol:
            try:
                return R.finish("other", "incomplete: %s" % e)
            except Exception:
                traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error %r" % (prop, e))
        return 2


if __name__ == "__main__":
    sys.exit(main())
