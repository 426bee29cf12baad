"""Make a planted bug: python3 tools/plant.py SPEC.py ID  (scratch copies under /tmp/wt).

SPEC.py defines BUGS = {id: dict(property=, file=, edits=[(old,new),...] , needs=, breaks=, demo=)}.
A bug is kept (written to seeded/ID) only when the changed lines are original ones, the stable tests pass
with it, and its demonstration passes without it and fails with it.
"""
import json
import os
import pathlib
import shutil
import subprocess
import sys

V = pathlib.Path(__file__).resolve().parent.parent
BASE = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--reverse"], capture_output=True, text=True).stdout.split()[0]
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
           OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", NUMBA_NUM_THREADS="1",
           PATH="/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")


def run(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


def main(spec, bid):
    ns = {}
    exec(pathlib.Path(spec).read_text(), ns)
    b = ns["BUGS"][bid]
    wt = pathlib.Path(f"/tmp/wt/{bid}")
    if wt.exists():
        shutil.rmtree(wt)
    wt.parent.mkdir(exist_ok=True)
    shutil.copytree("/repo", wt, symlinks=True)
    run(["git", "checkout", "--", "."], cwd=wt)
    try:
        for f, old, new in b["edits"]:
            p = wt / "src/halomod" / f
            s = p.read_text()
            assert s.count(old) == 1, (bid, f, s.count(old), old)
            p.write_text(s.replace(old, new))
        diff = run(["git", "diff"], cwd=wt).stdout
        # removed lines must be lines of the base commit
        for f in {e[0] for e in b["edits"]}:
            bl = run(["git", "-C", "/repo", "diff", BASE, "HEAD", "--", f"src/halomod/{f}"]).stdout
            added = {l[1:] for l in bl.splitlines() if l.startswith("+") and l[1:].strip()}
            for l in diff.splitlines():
                if l.startswith("-") and not l.startswith("---") and l[1:] in added:
                    return print(bid, "REJECT: line of a fix:", l)
        d = V / "seeded" / bid
        if d.exists():
            shutil.rmtree(d)
        d.mkdir(parents=True)
        (d / "patch.diff").write_text(diff)
        (d / "demo.py").write_text('import os, sys\nsys.path.insert(0, os.path.join(os.getcwd(), "src"))\n'
                                   'import warnings\nwarnings.simplefilter("ignore")\nimport numpy as np\n' + b["demo"].strip() + "\n")
        (d / "demo.sh").write_text('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1\n'
                                   'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        (d / "meta.json").write_text(json.dumps({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, indent=1) + "\n")
        ok = run(["bash", str(d / "demo.sh")], cwd="/repo", env=ENV)
        bad = run(["bash", str(d / "demo.sh")], cwd=wt, env=ENV)
        print(bid, "demo clean", ok.returncode, "planted", bad.returncode, (ok.stdout + ok.stderr)[-300:] if ok.returncode else "", bad.stdout[-200:] + bad.stderr.strip()[-200:])
        if ok.returncode or not bad.returncode:
            shutil.rmtree(d)
            return print(bid, "REJECT demo")
        if "--notest" in sys.argv:
            return
        out = wt / "t.json"
        sh = pathlib.Path("/opt/vp/test.sh").read_text().replace("cd /repo", f"cd {wt}; export PYTHONPATH={wt}/src")
        run(["bash", "-c", sh, "test.sh", str(out)], env=ENV)
        t = json.loads(out.read_text())
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        miss = set(stable) - set(t["passed"])
        print(bid, "tests missing", len(miss), list(miss)[:4])
        if miss:
            shutil.rmtree(d)
            return print(bid, "REJECT tests")
        print(bid, "KEPT")
    finally:
        shutil.rmtree(wt)


main(sys.argv[1], sys.argv[2])
