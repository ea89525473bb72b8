#!/usr/bin/env python3
"""Run the static check of one property: ``python3 check.py C01``.

Exit 0: the property holds on everything analysed.  Exit 1: a violation, with
a line ``VIOLATION property=<id> replay=<path>``.  Exit 2: the analysis could
not give an answer (a vanished anchor, an unparsable file).
"""
import importlib
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True

from sa.loader import AnalysisError, Program  # noqa: E402
from sa.report import finish  # noqa: E402


def main(argv):
    if len(argv) != 2:
        print("usage: check.py <property>")
        return 2
    prop = argv[1]
    t0 = time.time()
    try:
        mod = importlib.import_module("sa.checks." + prop.lower())
        prog = Program()
        findings, coverage = mod.check(prog)
        coverage.setdefault("explanation", (mod.__doc__ or "").strip())
        coverage["modules"] = len(prog.modules)
        coverage["source_digest"] = prog.digest()
        if os.environ.get("VERIF_TIER") == "thorough" and hasattr(mod, "sensitivity"):
            coverage["sensitivity"] = mod.sensitivity()
        low = [f"{k}={coverage.get(k)} (expected at least {v})" for k, v in getattr(mod, "FLOORS", {}).items()
               if coverage.get(k, 0) < v]
        if low and not findings:
            raise AnalysisError("the analysis matched too little: " + ", ".join(low))
        return finish(prop, findings, coverage, t0, getattr(mod, "ASSUMPTIONS", []))
    except AnalysisError as e:
        print(f"{prop}: ANALYSIS-BROKEN {e}")
        return 2
    except Exception:  # an internal error of the analysis is not a verdict
        traceback.print_exc()
        print(f"{prop}: ANALYSIS-BROKEN internal error")
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv))
