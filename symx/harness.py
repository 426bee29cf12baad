"""Runs the harnesses of one property, decides, replays, and writes evidence."""
from __future__ import annotations

import fnmatch
import json
import math
import multiprocessing as mp
import os
import random
import re
import signal
import sys
import time
import traceback
import warnings
from fractions import Fraction
from pathlib import Path

import mpmath
import numpy as np

from . import explore, shim, smt
from . import terms as T
from .explore import AssumptionFailed, ConcCtx, Explorer, sample

VERIF = Path(__file__).resolve().parent.parent
REPO_SRC = os.environ.get("HALOMOD_SRC", "/repo/src")


class H:
    """One harness instance."""

    def __init__(self, name, fn, max_paths=64, timeout=4000, concrete_ok=True, modules=None, bounds="", budget=60, extra=None, probes=12, witness=2, grid=9, logthin=False):
        self.logthin = logthin
        self.grid = grid
        self.name, self.fn = name, fn
        self.max_paths, self.timeout, self.concrete_ok = max_paths, timeout, concrete_ok
        self.modules, self.bounds, self.budget, self.extra = modules, bounds, budget, extra
        self.probes, self.witness = probes, witness


class FnTracker:
    """Which halomod functions did the symbolic run execute (sys.monitoring, one hit each)."""

    TOOL = 3

    def __init__(self):
        self.seen = set()

    def __enter__(self):
        m = sys.monitoring
        try:
            m.use_tool_id(self.TOOL, "symx")
        except ValueError:
            self.on = False
            return self
        self.on = True
        m.register_callback(self.TOOL, m.events.PY_START, self._hit)
        m.set_events(self.TOOL, m.events.PY_START)
        m.restart_events()
        return self

    def _hit(self, code, off):
        if "/halomod/" in code.co_filename:
            self.seen.add(f"{Path(code.co_filename).stem}.{code.co_qualname}")
        return sys.monitoring.DISABLE

    def __exit__(self, *a):
        if self.on:
            m = sys.monitoring
            m.set_events(self.TOOL, 0)
            m.register_callback(self.TOOL, m.events.PY_START, None)
            m.free_tool_id(self.TOOL)


def harness_fault(e):
    """Whether an exception says that a stub or a private name of the harness no longer fits the code
    (a renamed helper, an argument passed in another way), which is no verdict on the code."""
    frames = traceback.extract_tb(e.__traceback__)
    inside = any(str(f.filename).startswith(str(REPO_SRC)) for f in frames)
    if isinstance(e, (NameError, ImportError, AssertionError)) and frames and str(frames[-1].filename).startswith(str(VERIF)):
        return True
    if isinstance(e, AttributeError):
        o = getattr(e, "obj", None)
        if o is not None:
            k = o if isinstance(o, type) else type(o)
            if not getattr(k, "_is_fake", False) and (k.__module__.startswith("props") or k.__name__ == "SimpleNamespace" or k is object):
                return True
            if not inside and (str(getattr(e, "name", "")).startswith("_") or isinstance(o, type(sys))):
                return True
        return False
    if isinstance(e, TypeError):
        m = re.match(r"(\w+)[\w.<>]*\(\) (got|missing|takes)", str(e))
        if m:
            return not inside or any(
                str(getattr(vars(x).get(m.group(1)), "__module__", "")).startswith("props") for n, x in list(sys.modules.items()) if n.startswith("props")
            )
    return False


def run_concrete(h: H, env, rng=None):
    """Returns (status, fails, n, env) ; status in ok/fail/skip."""
    ctx = explore.CTX[0] = ConcCtx(dict(env), rng)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            h.fn(ctx)
        except AssumptionFailed:
            return "skip", [], ctx.n, ctx.env
        except T.Unsupported as e:  # engine leaked into a concrete run
            return "skip", [("engine", str(e))], ctx.n, ctx.env
        except Exception as e:
            if harness_fault(e):
                return "skip", [("harness", str(e))], ctx.n, ctx.env
            tb = traceback.extract_tb(e.__traceback__)
            where = [f"{Path(f.filename).name}:{f.lineno}" for f in tb if "halomod" in f.filename]
            ctx.fails.append((f"raises {type(e).__name__}: {str(e)[:160]}", " > ".join(where[-3:])))
            return "fail", ctx.fails, ctx.n, ctx.env
    return ("fail" if ctx.fails else "ok"), ctx.fails, ctx.n, ctx.env


def _jenv(env):
    return {k: (int(v) if isinstance(v, (int, np.integer)) else float(v)) for k, v in env.items()}


def run_one(h: H, seed: int, tier: str):
    """Decide one harness. Returns a JSON-able result."""
    sys.setrecursionlimit(50000)
    t0 = time.time()
    rng = random.Random((seed * 1000003 + sum(map(ord, h.name))) & 0xFFFFFFFF)
    budget = h.budget * (1 if tier == "quick" else 4)
    ex = Explorer(
        h.fn, h.name, seed,
        max_paths=h.max_paths * (1 if tier == "quick" else 4),
        timeout=h.timeout * (1 if tier == "quick" else 4),
        deadline=t0 + budget,
        shim=shim.shim(h.modules, h.extra),
    )
    tr = FnTracker()
    shim.THINNED.clear()
    smt.STUCK[0] = 0
    shim.GRID_CAP[0] = h.grid
    shim.LOGTHIN[0] = h.logthin
    with warnings.catch_warnings(), np.errstate(all="ignore"), tr:
        warnings.simplefilter("ignore")
        try:
            ex.run_symbolic()
        except T.Unsupported as e:
            ex.unsupported.append(f"unsupported outside a path: {e}")
        except HardLimit as e:
            ex.unsupported.append(str(e))
            explore.CUR[0] = None
            signal.alarm(60)  # the replays and witness runs still have to happen
        except Exception as e:
            ex.unsupported.append(f"engine error {type(e).__name__}: {e}")
            if os.environ.get("SYMX_DEBUG"):
                traceback.print_exc()
    res = {
        "name": h.name, "bounds": h.bounds, "paths": ex.paths, "infeasible": ex.aborted,
        "claims": len(ex.claims), "proved": 0, "undecided": [], "violations": [],
        "functions": sorted(tr.seen), "thinned": sorted(shim.THINNED), "unsupported": ex.unsupported[:6],
    }
    refuted = []
    for c in ex.claims:
        if c.status == "proved":
            res["proved"] += 1
        elif c.status == "refuted":
            refuted.append(c)
        else:
            res["undecided"].append(f"{c.label}: {c.detail}"[:300])
    for u in ex.unsupported:
        res["undecided"].append(u[:300])

    def violation(env, fails, how, claim=None):
        res["violations"].append({
            "harness": h.name, "inputs": _jenv(env), "fails": [list(map(str, f)) for f in fails[:4]], "how": how,
            "claim": claim.label if claim else "", "counterexample": claim.detail if claim else "",
        })

    done_labels: set = set()
    for c in refuted:
        key = c.label.split("[")[0]
        if key in done_labels or len(res["violations"]) >= (6 if _ENOUGH is None or _ENOUGH.value < 10 else 1):
            continue
        cands = []
        if c.env:
            cands.append(c.env)
        confirmed = False
        tried = 0
        for i in range(1 + 40):
            if i < len(cands):
                env = cands[i]
                st, fails, n, env = run_concrete(h, env, None)
            else:
                # other points of the refuted region: solver's discrete choices, fresh reals
                env = {}
                for n_, (lo, hi, kind) in ex.vars.items():
                    if kind == "int" and c.env and n_ in c.env and i % 4:
                        env[n_] = int(c.env[n_])
                    else:
                        env[n_] = sample(lo, hi, kind, rng)
                st, fails, n, env = run_concrete(h, env, rng)
            if st == "skip":
                continue
            tried += 1
            if st == "fail":
                violation(env, fails, "solver counterexample, replayed on the real code", c)
                for f in fails:
                    done_labels.add(f[0].split("[")[0])
                done_labels.add(key)
                confirmed = True
                break
            if tried >= 14:
                break
        if not confirmed:
            done_labels.add(key)
            res["undecided"].append(f"{c.label}: solver counterexample did not reproduce on the real code ({c.detail[:160]})")
    res["refuted"] = len(refuted)

    # witnesses: reachability + validation of the symbolic execution against the real code
    res["witness_runs"] = 0
    res["witness_claims"] = 0
    nwit = h.witness if not res["undecided"] else max(h.witness, h.probes)
    tries = 0
    samples = []
    while h.concrete_ok and res["witness_runs"] < nwit and tries < 6 * nwit + 10:
        tries += 1
        env = {n_: sample(lo, hi, kind, rng) for n_, (lo, hi, kind) in ex.vars.items()}
        st, fails, n, env = run_concrete(h, env, rng)
        if st == "skip":
            continue
        res["witness_runs"] += 1
        res["witness_claims"] += n
        if len(samples) < 1:
            samples.append(_jenv(env))
        if st == "fail":
            new = [f for f in fails if f[0].split("[")[0] not in done_labels]
            if new:
                violation(env, new, "witness input of the harness fails on the real code")
                for f in new:
                    done_labels.add(f[0].split("[")[0])
                if len(res["violations"]) > 5:
                    break
    res["sample"] = samples[0] if samples else None
    res["queries"] = ex.solver.queries
    res["q_unsat"], res["q_sat"], res["q_unknown"] = ex.solver.unsat, ex.solver.sat, ex.solver.unknown
    res["normal_only"] = ex.solver.normal_only
    res["repeated"] = ex.solver.repeated
    res["solver_s"] = round(ex.solver.time, 3)
    res["wall_s"] = round(time.time() - t0, 3)
    if h.concrete_ok and res["witness_runs"] == 0:
        res["undecided"].append("vacuity: no concrete input satisfied the assumptions")
    if ex.paths == 0:
        res["undecided"].append("vacuity: no feasible path")
    return res


_HS: list = []
_ENOUGH = None  # unlisted violations so far, over all harnesses: further ones are not looked for after a while


class HardLimit(BaseException):
    pass


def _alarm(*a):
    raise HardLimit("hard time limit of the harness")


def _task(args):
    i, seed, tier, prop = args
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int((1.5 * _HS[i].budget + 20) * (1 if tier == "quick" else 4)))
    try:
        if _ENOUGH is not None and _ENOUGH.value >= 24:
            raise HardLimit("not run: enough violations reported already")
        res = run_one(_HS[i], seed, tier)
        if _ENOUGH is not None and res["violations"]:
            known = load_known()
            with _ENOUGH.get_lock():
                _ENOUGH.value += sum(match_known(prop, v, known) is None for v in res["violations"])
        return res
    except BaseException as e:  # noqa: BLE001
        return {
            "name": _HS[i].name, "bounds": "", "paths": 0, "infeasible": 0, "claims": 0, "proved": 0, "refuted": 0,
            "undecided": [str(e) if isinstance(e, HardLimit) else f"harness crashed: {type(e).__name__}: {e} {traceback.format_exc()[-400:]}"], "violations": [], "functions": [], "thinned": [],
            "unsupported": [], "queries": 0, "q_unsat": 0, "q_sat": 0, "q_unknown": 0, "solver_s": 0, "wall_s": 0,
            "witness_runs": 0, "witness_claims": 0, "sample": None,
        }
    finally:
        signal.alarm(0)


def load_known():
    p = VERIF / "known_findings.json"
    if not p.exists():
        return []
    return json.loads(p.read_text())["findings"]


def match_known(prop, v, known):
    """A violation is known only if every failing claim is listed for this harness."""
    ents = [k for k in known if k["property"] == prop and k.get("status", "known") == "known" and fnmatch.fnmatchcase(v["harness"], k["harness"])]
    if not ents:
        return None
    hits = []
    for lab, _ in v["fails"]:
        e = next((k for k in ents if fnmatch.fnmatchcase(lab, k["claim"])), None)
        if e is None:
            return None
        hits.append(e)
    return hits[0]


def main(prop, harnesses, tier, seed, workers=None, only=None):
    global _HS, _ENOUGH
    t0 = time.time()
    hs = [h for h in harnesses if only is None or fnmatch.fnmatchcase(h.name, only)]
    _HS = hs
    workers = workers or min(int(os.environ.get("SYMX_JOBS", "8")), max(1, len(hs)))
    args = [(i, seed, tier, prop) for i in range(len(hs))]
    _ENOUGH = mp.get_context("fork").Value("i", 0)
    if workers > 1:
        with mp.get_context("fork").Pool(workers, maxtasksperchild=8) as pool:
            results = pool.map(_task, args, chunksize=1)
    else:
        results = [_task(a) for a in args]
    known = load_known()
    viol, knownhits = [], []
    for r in results:
        for v in r["violations"]:
            k = match_known(prop, v, known)
            (knownhits if k else viol).append((v, k))
    tot = lambda k: sum(r[k] for r in results)
    undecided = [(r["name"], u) for r in results for u in r["undecided"]]
    oblig = tot("claims") + sum(len(r["unsupported"]) for r in results)
    funcs = sorted({f for r in results for f in r["functions"]})
    replay_dir = VERIF / "evidence" / "replay"
    replay_dir.mkdir(parents=True, exist_ok=True)
    for old in replay_dir.glob(f"{prop}-*.json"):
        old.unlink()
    for v, k in knownhits:
        pass
    shown = set()
    for v, k in knownhits:
        if k["id"] not in shown:
            shown.add(k["id"])
            print(f"KNOWN-FINDING: property={prop} {k['id']}: {k['what']}")
    for n, (v, _) in enumerate(viol):
        path = replay_dir / f"{prop}-{n}.json"
        path.write_text(json.dumps({"property": prop, **v}, indent=1))
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  harness {v['harness']}: {v['fails'][0][0]} -- {v['fails'][0][1][:300]}")
        print(f"  inputs {json.dumps(v['inputs'])[:400]}  ({v['how']})")
    for n, u in undecided:
        print(f"UNDECIDED {n}: {u}")
    # no answer only when nothing at all could be decided
    status = 1 if viol else (0 if tot("proved") else 2)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"),
            "transitions": tot("queries"),
            "traces_validated_against_impl": tot("witness_runs"),
            "samples": [{"harness": r["name"], "inputs": r["sample"], "paths": r["paths"], "proved": r["proved"]} for r in results if r["sample"] is not None][:12],
            "harnesses": len(results),
            "obligations": oblig,
            "discharged": tot("proved"),
            "refuted": tot("refuted"),
            "undecided": [f"{n}: {u}" for n, u in undecided][:60],
            "solver_queries": {"total": tot("queries"), "unsat": tot("q_unsat"), "sat": tot("q_sat"), "unknown": tot("q_unknown"), "claims_settled_by_an_identical_query": sum(r.get("repeated", 0) for r in results), "identities_by_normal_form_only": sum(r.get("normal_only", 0) for r in results)},
            "solver_seconds": round(sum(r["solver_s"] for r in results), 2),
            "functions_encoded": funcs,
            "bounds": sorted({r["bounds"] for r in results if r["bounds"]}),
            "grid_thinning": sorted({t for r in results for t in r["thinned"]}),
            "infeasible_paths": tot("infeasible"),
            "witness_claims_checked": tot("witness_claims"),
            "known_findings_hit": sorted({k["id"] for _, k in knownhits}),
            "explanation": "states = symbolic paths of the real functions executed to their claims; transitions = SMT queries discharged; obligations are claims (path ∧ assumptions ⇒ claim) decided by z3; traces = harness runs of the unpatched code on concrete inputs of the same harness.",
        },
        "assumptions": [
            "floating point is read as exact real arithmetic (replays use a tolerance)",
            "literals are read as the decimal or closed form they denote",
            "scipy quadrature/spline/special-function contracts as listed in DESIGN.md",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1))
    print(
        f"{prop} [{tier}] harnesses={len(results)} paths={tot('paths')} claims={tot('claims')} proved={tot('proved')} refuted={tot('refuted')} "
        f"undecided={len(undecided)} queries={tot('queries')} solver={sum(r['solver_s'] for r in results):.1f}s wall={time.time()-t0:.1f}s -> exit {status}"
    )
    if os.environ.get("SYMX_TIMES"):
        for r in sorted(results, key=lambda r: -r["wall_s"])[:10]:
            print("   ", r["wall_s"], r["name"], "paths", r["paths"], "claims", r["claims"])
    return status
