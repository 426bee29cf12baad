#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--only HARNESS] [--replay FILE] [--jobs N]"""
import argparse
import importlib
import json
import os
import sys
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = "/opt/venv/bin/python"
sys.path.insert(0, HERE)
# z3 lives in the tooling venv; append so that the project's own numpy/scipy win
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("NUMBA_NUM_THREADS", "1")
sys.setrecursionlimit(50000)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int)
    a = ap.parse_args()
    warnings.simplefilter("ignore")
    # the code under test is the working tree, whatever is installed
    src = os.environ.get("HALOMOD_SRC", "/repo/src")
    if src not in sys.path:
        sys.path.insert(0, src)
    if a.selftest:
        import z3
        import halomod

        x = z3.Real("x")
        so = z3.Solver()
        so.add(x * x < 0)
        assert so.check() == z3.unsat
        print("symx: z3", z3.get_version_string(), "halomod from", halomod.__file__)
        return 0
    mod = importlib.import_module(f"props.{a.prop.lower()}")
    from symx import harness

    hs = mod.harnesses(a.tier)
    if a.replay:
        d = json.load(open(a.replay))
        h = next(x for x in mod.harnesses("thorough") if x.name == d["harness"])
        st, fails, n, env = harness.run_concrete(h, d["inputs"])
        print(f"replay {d['harness']}: {st}")
        for f in fails:
            print("  ", f[0], "--", f[1])
        return 1 if st == "fail" else 0
    return harness.main(a.prop, hs, a.tier, a.seed, workers=a.jobs, only=a.only)


if __name__ == "__main__":
    sys.exit(main())
