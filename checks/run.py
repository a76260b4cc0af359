#!/usr/bin/env python3
"""Entry point of every registered check:  run.py <property> [--tier quick|thorough]"""
import sys, os, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(os.path.dirname(HERE), "lib"), HERE]
sys.setrecursionlimit(20000)
import common

def main():
    prop = sys.argv[1]
    import registry
    spec = registry.CHECKS[prop]
    rep = common.Report(prop, spec.get("level", "other"), spec["technique"])
    rep.assumptions = list(spec.get("assumptions", ()))
    rep.cov["explanation"] = spec["explanation"]
    try:
        mod, fn = spec["run"].split(":")
        getattr(importlib.import_module(mod), fn)(rep, common.tier(), *spec.get("args", ()), **spec.get("kwargs", {}))
    except common.AnalysisError as e:
        # the current tree cannot be analysed by the rule: neither a pass nor a violation
        print("ANALYSIS-BROKEN property=%s the rule cannot be established on this tree: %s" % (prop, str(e)[:1500]))
        return 2
    return rep.finish()

if __name__ == "__main__":
    sys.exit(main())
