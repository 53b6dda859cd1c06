#!/usr/bin/env python3
"""check.py <property> : decide one property on the current tree of /repo."""
import importlib, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sa"))
sys.dont_write_bytecode = True
import core, ir  # noqa: E402

MODULES = ["rules_enc", "rules_data", "rules_expr", "rules_sym", "rules_diag", "rules_ctl", "rules_cli", "rules_out", "rules_hex", "rules_file", "rules_symfile", "rules_image", "rules_table", "rules_init", "rules_mem", "rules_det", "rules_null", "rules_div", "rules_text"]


def find(prop):
    for mn in MODULES:
        if not os.path.exists(os.path.join(HERE, "sa", mn + ".py")):
            continue
        m = importlib.import_module(mn)
        if prop in m.CHECKS:
            return m.CHECKS[prop]
    return None


def main(props):
    rc = 0
    mod = None
    for p in props:
        t0 = time.time()
        c = find(p)
        if c is None:
            print("no check for", p)
            return 2
        fn, level, assumptions = c
        R = core.Report(p)
        try:
            mod = mod or ir.load()
            fn(mod, R)
            r = core.finish(R, level, t0, mod, TRUSTED, assumptions)
        except ir.AnalysisBroken as e:
            # what was decided before the analysis lost its footing still counts
            print("ANALYSIS-BROKEN property=%s: %s" % (p, e))
            if R.failed:
                r = core.finish(R, level, t0, mod, TRUSTED, assumptions)
            else:
                r = 2
        except Exception:
            traceback.print_exc()
            r = 2
        rc = max(rc, r)
    return rc


TRUSTED = ["clang++-18/llvm-link/opt-18 (front end, mem2reg; no optimisation)", "sa/ir.py (IR reader)",
           "sa/ai.py (abstract interpreter)", "the rule's oracle in sa/"]

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
