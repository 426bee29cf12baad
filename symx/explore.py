"""Path exploration and the harness context.

A harness ``h(ctx)`` is one Python function run in two modes:

* symbolic: inputs are terms, the real halomod functions run on them, every branch on a
  symbolic condition is explored (decision prefix re-execution), and each ``ctx.eq`` /
  ``ctx.true`` is an SMT query  path ∧ assumptions ∧ ¬claim;
* concrete: inputs are floats (a model of such a query, or a witness), the *unpatched* code runs,
  and the same claims are compared within a floating-point tolerance.
"""
from __future__ import annotations

import math
import random
import time
import traceback
from fractions import Fraction

import mpmath
import numpy as np

from . import terms as T
from .norm import Norm, Rat
from .smt import Solver
from .terms import B, R, Unsupported, const, lift

CUR = [None]  # current symbolic run
CTX = [None]  # context of the harness being run, of either mode


class PathAbort(BaseException):
    """Path is infeasible or out of bounds."""


class Budget(BaseException):
    pass


def decide(b) -> bool:
    run = CUR[0]
    if run is None:
        raise Unsupported("boolean decision outside a symbolic run: " + T.bshort(b))
    return run.decide(b)


def concretise_int(t) -> int:
    run = CUR[0]
    if run is None:
        raise Unsupported("int() outside a symbolic run")
    if not T.is_int(t):
        t = T.trunc(t)
        if t.op == "c":
            return int(t.args[0])
    for _ in range(64):
        v = run.some_value(t)
        if v is None:
            raise PathAbort()
        v = int(v)
        if run.decide(T.cmp("eq", t, const(v))):
            return v
    raise Unsupported("int() with too many values")


class Run:
    """One symbolic execution along a decision prefix."""

    def __init__(self, ex, prefix):
        self.ex = ex
        self.prefix = prefix
        self.taken = []  # list of bool
        self.alts = []  # indices where the alternative is open
        self.pc = []  # list of B
        self.known = {}
        self.assumed = []
        self.N = ex.N
        self.notes = []

    # facts = assumptions + path condition
    def facts(self):
        return self.assumed + self.pc

    def assume(self, b):
        if isinstance(b, (bool, np.bool_)):
            if not b:
                raise PathAbort()
            return
        self.assumed.append(b)
        self.known[b.id] = True
        n = T.bnot(b)
        self.known[n.id] = False

    def quick(self, b):
        """Cheap syntactic decision of a comparison; None if not decided."""
        if b.op not in ("lt", "le", "eq"):
            return None
        N = self.N
        d = N.radd(N.norm(b.args[0]), N.norm(b.args[1]), -1)
        if not d.num:
            return b.op != "lt"
        for pid in d.fac:
            if d.fac[pid] % 2 and not N.poly_positive(pid):
                return None
        ok = all(N.atoms[a].pos or (isinstance(e, int) and e % 2 == 0 and e > 0 and False) for m in d.num for a, e in m)
        if not ok:
            return None
        if all(c > 0 for c in d.num.values()):
            return False
        if all(c < 0 for c in d.num.values()):
            return b.op != "eq"
        return None

    def decide(self, b):
        if isinstance(b, (bool, np.bool_)):
            return bool(b)
        if b.op == "not":
            return not self.decide(b.args[0])
        if b.op == "and":
            return all(self.decide(a) for a in b.args)
        if b.op == "or":
            return any(self.decide(a) for a in b.args)
        k = self.known.get(b.id)
        if k is not None:
            return k
        q = self.quick(b)
        if q is not None:
            self.known[b.id] = q
            return q
        nb = T.bnot(b)
        ck = (b.id, tuple(x.id for x in self.pc), tuple(x.id for x in self.assumed))
        cached = self.ex.feas.get(ck)
        if cached is None:
            t1 = self.ex.feasible(self.facts() + [b])
            t2 = self.ex.feasible(self.facts() + [nb]) if t1 else True
            cached = (t1, t2)
            self.ex.feas[ck] = cached
        t1, t2 = cached
        if not t1 and not t2:
            raise PathAbort()
        if t1 and not t2:
            self.known[b.id] = True
            self.known[nb.id] = False
            return True
        if t2 and not t1:
            self.known[b.id] = False
            self.known[nb.id] = True
            return False
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            if i >= self.ex.max_depth:
                raise Budget("decision depth")
            v = True
            self.alts.append(i)
        self.taken.append(v)
        self.pc.append(b if v else nb)
        self.known[b.id] = v
        self.known[nb.id] = not v
        return v

    def some_value(self, t):
        # a feasible integer value of t under the facts
        N = self.N
        probe = T.var(f"_probe{t.id}")
        # first with the facts about t's own inputs only (others merely prune)
        fv = set(T.free_vars(t))
        near = [b for b in self.facts() if set(T.free_vars(b)) <= fv]
        st, env = "unknown", None
        for fs in (near, self.facts()):
            st, env = self.ex.solver.check(N, fs + [T.cmp("eq", probe, t)], want_model=True, timeout=3000)
            if st != "unknown":
                break
        if st != "sat":
            if st == "unsat":
                return None
            raise Unsupported("int value unknown")
        return env.get(f"_probe{t.id}")


class Claim:
    __slots__ = ("label", "kind", "status", "detail", "env", "path")

    def __init__(self, label, kind, status, detail="", env=None, path=""):
        self.label, self.kind, self.status, self.detail, self.env, self.path = label, kind, status, detail, env, path


class Explorer:
    def __init__(self, harness, name, seed=1, max_paths=64, max_depth=60, timeout=4000, deadline=None, shim=None):
        self.h = harness
        self.name = name
        self.seed = seed
        self.max_paths = max_paths
        self.max_depth = max_depth
        self.timeout = timeout
        self.deadline = deadline
        self.solver = Solver()
        self.feas: dict = {}
        self.vars: dict = {}
        self.claims: list[Claim] = []
        self.paths = 0
        self.aborted = 0
        self.unsupported: list[str] = []
        self.shim = shim
        self.N = None
        self.pcs = []
        self.reached: set = set()
        self._oracle_depth = 0

    # -------------------------------------------------------------- helpers
    def feasible(self, bools):
        st, _ = self.solver.check(self.N, bools, timeout=800)
        return st != "unsat"

    def _oracle(self, rat):
        """Is this normal form provably positive from the base assumptions?"""
        if self._oracle_depth > 2:
            return False
        self._oracle_depth += 1
        try:
            from .smt import Encoder, _guarded
            import z3

            run = CUR[0]
            if run is None:
                return False
            E = Encoder(self.N)
            E.scan(rat)
            facts = run.assumed + run.pc
            from .smt import Query

            Q = Query(self.N)
            diffs = {}
            for b in facts:
                Q.collect(b, diffs)
            for d in diffs.values():
                E.scan(d)
            E.build()
            pos, _ = E.sign_cond(rat)
            s = z3.SolverFor("QF_NRA")
            s.set("timeout", 500)
            s.add(*E.axioms)
            s.add(*[Q.encode(b, E, diffs) for b in facts])
            s.add(z3.Not(pos))
            self.solver.queries += 1
            return _guarded(s, 500, E, facts, Q, diffs, pos) == z3.unsat
        except (Unsupported, RecursionError):
            return False
        finally:
            self._oracle_depth -= 1

    # -------------------------------------------------------------- symbolic
    def run_symbolic(self):
        stack = [[]]
        t0 = time.time()
        while stack:
            prefix = stack.pop()
            if self.paths >= self.max_paths or (self.deadline and time.time() > self.deadline):
                self.unsupported.append(f"path budget exhausted ({self.paths} paths done)")
                break
            self.N = Norm(positive_oracle=self._oracle)
            run = Run(self, prefix)
            CUR[0] = run
            ctx = CTX[0] = SymCtx(self, run)
            try:
                if self.shim is not None:
                    with self.shim():
                        self.h(ctx)
                else:
                    self.h(ctx)
                self.paths += 1
                self.pcs.append((list(run.assumed), list(run.pc)))
                for lab in ctx.labels:
                    self.reached.add(lab)
            except PathAbort:
                self.aborted += 1
            except Budget as e:
                self.unsupported.append(f"budget: {e}")
            except Unsupported as e:
                self.paths += 1
                self.unsupported.append(f"unsupported: {e} @ {_where()}")
            except RecursionError:
                self.paths += 1
                self.unsupported.append("recursion limit")
            except Exception as e:
                # an exception of the code under test: a claim of its own
                self.paths += 1
                tb = traceback.format_exc().strip().splitlines()
                self._exception(run, ctx, e, tb)
            finally:
                CUR[0] = None
            for i in run.alts:
                stack.append(run.taken[:i] + [not run.taken[i]])
        self.sym_time = time.time() - t0

    def _exception(self, run, ctx, e, tb):
        st, env = self.solver.check(self.N, run.facts(), want_model=True, timeout=3000)
        if st == "unsat":
            return
        self.claims.append(
            Claim(f"raises {type(e).__name__}: {str(e)[:160]}", "exception", "refuted" if st == "sat" else "unknown", " | ".join(tb[-4:]), ctx.full_env(env), T.short(const(0)))
        )


def _where():
    import sys

    tb = sys.exc_info()[2]
    last = ""
    while tb is not None:
        f = tb.tb_frame.f_code
        if "halomod" in f.co_filename or "hmf" in f.co_filename or "/props/" in f.co_filename:
            last = f"{f.co_filename.split('/')[-1]}:{tb.tb_lineno}"
        tb = tb.tb_next
    return last


class BaseCtx:
    sym = False

    def arr(self, items):
        raise NotImplementedError


class SymCtx(BaseCtx):
    sym = True

    def __init__(self, ex: Explorer, run: Run):
        self.ex = ex
        self.run = run
        self.labels = []
        self.env_names = []

    # inputs
    def real(self, name, lo=None, hi=None, strict=True):
        v = T.var(name)
        self.ex.vars[name] = (lo, hi, "real")
        if lo is not None and lo >= 0 and (lo > 0 or strict):
            self.run.N.posvars.add(name)
        self.env_names.append(name)
        if lo is not None:
            self.run.assume(T.cmp("lt" if strict else "le", lift(lo), v))
        if hi is not None:
            self.run.assume(T.cmp("lt" if strict else "le", v, lift(hi)))
        return v

    def int(self, name, lo, hi):
        v = T.var(name, "int")
        self.ex.vars[name] = (lo, hi, "int")
        self.env_names.append(name)
        self.run.assume(T.cmp("le", const(lo), v))
        self.run.assume(T.cmp("le", v, const(hi)))
        return v

    def choice(self, name, options):
        """Nondeterministic choice among concrete options (forks)."""
        v = self.int(name, 0, len(options) - 1)
        return options[concretise_int(v)]

    def reals(self, name, n, lo=None, hi=None):
        return self.arr([self.real(f"{name}{i}", lo, hi) for i in range(n)])

    def increasing(self, name, n, lo, hi):
        xs = [self.real(f"{name}{i}", lo, hi) for i in range(n)]
        for a, b in zip(xs, xs[1:]):
            self.assume(a < b)
        return self.arr(xs)

    def arr(self, items):
        from . import shim

        return shim.mkarr(items)

    def c(self, x):
        """A number of the specification (exact in the symbolic run)."""
        if isinstance(x, dict):
            return {k: self.c(v) for k, v in x.items()}
        return lift(x)

    def assume(self, b):
        if isinstance(b, (np.ndarray,)):
            for x in b.ravel():
                self.assume(x)
            return
        self.run.assume(b)

    def full_env(self, env):
        out = {}
        for n in self.env_names:
            lo, hi, kind = self.ex.vars[n]
            v = (env or {}).get(n)
            if v is None:
                v = Fraction(_default(lo, hi, kind)).limit_denominator(10**6)
            out[n] = v
        return out

    # claims
    def eq(self, label, lhs, rhs, rtol=1e-7, atol=0.0):
        L, Rr = _flat(lhs), _flat(rhs)
        if np.shape(_as(lhs)) != np.shape(_as(rhs)) and len(Rr) != 1 and len(L) != len(Rr):
            self._shape(label, lhs, rhs)
            return
        if len(L) != len(Rr):
            if len(L) == 1:
                L = L * len(Rr)
            elif len(Rr) == 1:
                Rr = Rr * len(L)
            else:
                self._shape(label, lhs, rhs)
                return
        for i, (a, b) in enumerate(zip(L, Rr)):
            self._eq1(label if len(L) == 1 else f"{label}[{i}]", a, b)

    def _shape(self, label, lhs, rhs):
        self.ex.claims.append(Claim(label, "shape", "refuted", f"shape {np.shape(_as(lhs))} vs {np.shape(_as(rhs))}", self._model()))
        self.labels.append(label)

    def _model(self, extra=()):
        st, env = self.ex.solver.check(self.run.N, self.run.facts() + list(extra), want_model=True)
        return self.full_env(env if st == "sat" else None)

    def _eq1(self, label, a, b):
        self.labels.append(label)
        ex, run = self.ex, self.run
        a, b = lift(a), lift(b)
        if isinstance(a, float) or isinstance(b, float):
            fa, fb = (a if isinstance(a, float) else None), (b if isinstance(b, float) else None)
            ok = fa is not None and fb is not None and fa == fb
            self._done(label, "eq", "proved" if ok else "refuted", f"{T.short(a)} vs {T.short(b)}", None if ok else self._model())
            return
        if a.op == "c" and b.op == "c" and a is not b and abs(a.args[0] - b.args[0]) <= Fraction(1, 10**12) * abs(b.args[0]):
            b = a  # two numbers computed in floating point, equal up to its rounding
        try:
            eqs = _pinned(run.pc)
            if eqs:
                a, b = T.subst(a, eqs), T.subst(b, eqs)
            r, s = run.N.norm(a), run.N.norm(b)
            if run.N.req(r, s):
                # formally equal: z3 confirms the polynomial identity over the atoms
                if ex.solver.identity(run.N, r, s) != "unsat":
                    ex.solver.normal_only += 1
                st, env = "unsat", None
            else:
                st, env = ex.solver.check(run.N, run.facts(), neq=(r, s), want_model=True, timeout=ex.timeout)
                if st == "unknown":
                    env = self._numeric_refute(a, b)
                    if env is not None:
                        st = "sat"
                    else:
                        st, env = ex.solver.check(run.N, run.facts(), neq=(r, s), want_model=True, rich=True, timeout=2 * ex.timeout)
                if st == "sat" and not self._differs(a, b, env):
                    # spurious or below tolerance: look for a genuine point, else leave open
                    env2 = self._numeric_refute(a, b)
                    if env2 is not None:
                        env = env2
                    else:
                        st2, env2 = ex.solver.check(run.N, run.facts(), neq=(r, s), want_model=True, rich=True, timeout=ex.timeout)
                        if st2 == "unsat":
                            st = "unsat"
        except Unsupported as e:
            self._done(label, "eq", "unknown", f"encoding: {e}", None)
            return
        except T.DomainError as e:  # pragma: no cover
            self._done(label, "eq", "unknown", f"domain: {e}", None)
            return
        if st == "unsat":
            self._done(label, "eq", "proved", "", None)
        elif st == "sat":
            self._done(label, "eq", "refuted", f"{T.short(a)}  !=  {T.short(b)}"[:400], self.full_env(env))
        else:
            self._done(label, "eq", "unknown", "solver: unknown", None)

    def _differs(self, a, b, env):
        env = self.full_env(env)
        try:
            if not all(T.evalb(x, env) for x in self.run.facts()):
                return False
            x, y = T.evalf(a, env), T.evalf(b, env)
            return bool(abs(x - y) > 1e-10 * (abs(x) + abs(y)))
        except (Unsupported, ValueError, ZeroDivisionError, TypeError, KeyError, OverflowError):
            return True

    def _numeric_refute(self, a, b, tries=60):
        rng = random.Random(7 + len(self.labels))
        for _ in range(tries):
            env = {n: sample(*self.ex.vars[n], rng) for n in self.env_names}
            try:
                if not all(T.evalb(x, env) for x in self.run.facts()):
                    continue
                x, y = T.evalf(a, env), T.evalf(b, env)
                if abs(x - y) > 1e-10 * (abs(x) + abs(y)):
                    return env
                return None
            except (Unsupported, ValueError, ZeroDivisionError, TypeError, KeyError, OverflowError):
                return None
        return None

    def pos(self, label, x):
        for i, v in enumerate(_flat(x)):
            self.true(f"{label}[{i}]" if i else label, T.cmp("lt", const(0), lift(v)))

    def _done(self, label, kind, status, detail, env):
        self.ex.claims.append(Claim(label, kind, status, detail, env, path=len(self.run.pc)))

    def true(self, label, cond, detail=""):
        """cond: B/bool (or array) that must hold; proved when its negation is unsat."""
        if isinstance(cond, np.ndarray):
            for i, c in enumerate(cond.ravel()):
                self.true(f"{label}[{i}]", c)
            return
        self.labels.append(label)
        if isinstance(cond, (bool, np.bool_)):
            self._done(label, "bool", "proved" if cond else "refuted", detail, None if cond else self._model())
            return
        ex, run = self.ex, self.run
        try:
            neg = T.bnot(cond)
            st, env = ex.solver.check(run.N, run.facts() + [neg], want_model=True, timeout=ex.timeout)
            if st != "unsat":
                st2, env2 = ex.solver.check(run.N, run.facts() + [neg], rich=True, want_model=True, timeout=2 * ex.timeout)
                if st2 != "unknown":
                    st, env = st2, env2
        except Unsupported as e:
            self._done(label, "bool", "unknown", f"encoding: {e}", None)
            return
        if st == "unsat":
            self._done(label, "bool", "proved", "", None)
        elif st == "sat":
            self._done(label, "bool", "refuted", T.bshort(cond)[:300] + " " + detail, self.full_env(env))
        else:
            self._done(label, "bool", "unknown", "solver: unknown", None)

    def le(self, label, a, b, rtol=1e-9, atol=0.0):
        for i, (x, y) in enumerate(_pairs(a, b)):
            self.true(f"{label}[{i}]" if i else label, T.cmp("le", lift(x), lift(y)))

    def lt(self, label, a, b):
        for i, (x, y) in enumerate(_pairs(a, b)):
            self.true(f"{label}[{i}]" if i else label, T.cmp("lt", lift(x), lift(y)))

    def same_shape(self, label, a, b):
        self.labels.append(label)
        ok = np.shape(_as(a)) == (tuple(b) if isinstance(b, (tuple, list)) else np.shape(_as(b)))
        self._done(label, "shape", "proved" if ok else "refuted", "" if ok else f"{np.shape(_as(a))} vs {b if isinstance(b, tuple) else np.shape(_as(b))}", None if ok else self._model())

    def deriv(self, label, f, at, expect, rtol=2e-5, atol=0.0):
        """d f / d at == expect, everything else fixed (at: a symbolic input)."""
        if not (isinstance(at, R) and at.op == "v"):
            raise TypeError("deriv needs a symbolic input")
        y = f(at)
        for i, (u, w) in enumerate(_pairs(y, expect)):
            u = lift(u)
            try:
                if isinstance(u, float):
                    raise Unsupported("non-finite value")
                d = T.diff(u, at)
            except Unsupported as e:
                self.labels.append(label)
                self._done(label, "deriv", "unknown", str(e), None)
                continue
            self._eq1(f"{label}[{i}]" if i else label, d, w)

    def limit0(self, label, f, at, expect, small=1e-3, atol=1e-3, to=None):
        """The limit of f as its argument (a symbolic input) goes to 0 (or to ``to``)."""
        y = f(at)
        for i, (u, w) in enumerate(_pairs(y, expect)):
            try:
                v = T.subst(T.cancel(lift(u)), {at: T.const(0) if to is None else lift(to)})
            except Unsupported as e:
                self.labels.append(label)
                self._done(label, "limit", "unknown", str(e), None)
                continue
            self._eq1(f"{label}[{i}]" if i else label, v, w)

    def integral(self, f, lo, hi):
        """The exact integral of f (an oracle, no code under test inside)."""
        from . import shim

        return shim.f_quad(f, lo, hi)[0]

    def possible(self, b):
        """Is there an input of this path for which b holds?"""
        if isinstance(b, (bool, np.bool_)):
            return bool(b)
        return self.ex.solver.check(self.run.N, self.run.facts() + [b])[0] != "unsat"

    def note(self, s):
        self.run.notes.append(s)

    def uf(self, name, deriv=None, numeric=None):
        return lambda *a: T.fn(name, *a)

    def is_nan(self, x):
        return isinstance(x, float) and math.isnan(x)


def _pinned(pc):
    """Inputs the path condition fixes to a number."""
    out = {}
    for b in pc:
        if b.op == "eq":
            x, y = b.args
            if x.op == "v" and y.op == "c":
                out[x] = y
            elif y.op == "v" and x.op == "c":
                out[y] = x
    return out


def _as(x):
    if isinstance(x, (R, B)):
        return x
    if isinstance(x, np.ndarray):
        return x
    return np.asarray(x, dtype=object) if isinstance(x, (list, tuple)) else x


def _flat(x):
    if isinstance(x, (R, B, int, float, Fraction, np.number, np.bool_)):
        return [x]
    return list(np.asarray(x, dtype=object).ravel())


def _pairs(a, b):
    A, Bb = _flat(a), _flat(b)
    if len(A) == 1:
        A = A * len(Bb)
    if len(Bb) == 1:
        Bb = Bb * len(A)
    if len(A) != len(Bb):
        raise ValueError(f"claim on different shapes {len(A)} vs {len(Bb)}")
    return list(zip(A, Bb))


def _default(lo, hi, kind="real"):
    if kind == "int":
        return lo
    if lo is None and hi is None:
        return 1.0
    if lo is None:
        return hi - 1
    if hi is None:
        return lo + 1
    return (lo + hi) / 2 if lo <= 0 else math.sqrt(lo * hi)


class ConcCtx(BaseCtx):
    """Concrete replay: same harness, real code, floats."""

    sym = False

    def __init__(self, env, rng=None):
        self.env = env
        self.rng = rng
        self.fails = []
        self.n = 0
        self.values = {}

    def real(self, name, lo=None, hi=None, strict=True):
        if name not in self.env:
            self.env[name] = sample(lo, hi, "real", self.rng or random.Random(0))
        v = float(self.env[name])
        # keep inside the stated box despite rounding
        if lo is not None and v < lo:
            v = float(lo)
        if hi is not None and v > hi:
            v = float(hi)
        return v

    def int(self, name, lo, hi):
        if name not in self.env:
            self.env[name] = sample(lo, hi, "int", self.rng or random.Random(0))
        return int(self.env[name])

    def choice(self, name, options):
        return options[self.int(name, 0, len(options) - 1)]

    def reals(self, name, n, lo=None, hi=None):
        return self.arr([self.real(f"{name}{i}", lo, hi) for i in range(n)])

    def increasing(self, name, n, lo, hi):
        xs = [self.real(f"{name}{i}", lo, hi) for i in range(n)]
        for a, b in zip(xs, xs[1:]):
            if not a < b:
                if self.rng is not None:
                    xs = sorted(xs)
                    for i, x in enumerate(xs):
                        self.env[f"{name}{i}"] = x
                    break
                raise AssumptionFailed()
        return self.arr(xs)

    def arr(self, items):
        return np.array([float(x) for x in items])

    def c(self, x):
        return x

    def assume(self, b):
        if not np.all(b):
            raise AssumptionFailed()

    def _rec(self, label, ok, detail):
        self.n += 1
        if not ok:
            self.fails.append((label, detail))

    def eq(self, label, lhs, rhs, rtol=1e-7, atol=0.0):
        a, b = np.asarray(lhs), np.asarray(rhs)
        try:
            a = a.astype(float)
            b = b.astype(float)
        except (TypeError, ValueError):
            ok = np.shape(a) == np.shape(b) and bool(np.all(a == b))
            self._rec(label, ok, f"{lhs} vs {rhs}")
            return
        if a.shape != b.shape and b.size != 1 and a.size != b.size:
            self._rec(label, False, f"shape {a.shape} vs {b.shape}")
            return
        with np.errstate(all="ignore"):
            aa, bb = (a.ravel(), b.ravel()) if a.size == b.size else (a, b)
            ok = np.isclose(aa, bb, rtol=rtol, atol=atol, equal_nan=False) | ((aa == bb))
        self._rec(label, bool(np.all(ok)), f"{_fmt(a)} vs expected {_fmt(b)}")

    def true(self, label, cond, detail=""):
        self._rec(label, bool(np.all(cond)), detail or str(cond))

    def le(self, label, a, b, rtol=1e-9, atol=0.0):
        a, b = np.asarray(a, float), np.asarray(b, float)
        tol = rtol * np.maximum(np.abs(a), np.abs(b)) + atol
        self._rec(label, bool(np.all(a <= b + tol)), f"{_fmt(a)} <= {_fmt(b)}")

    def lt(self, label, a, b):
        self.le(label, a, b)

    def same_shape(self, label, a, b):
        sh = tuple(b) if isinstance(b, (tuple, list)) else np.shape(b)
        self._rec(label, np.shape(a) == sh, f"shape {np.shape(a)} vs {sh}")

    def deriv(self, label, f, at, expect, rtol=2e-5, atol=0.0):
        best = None
        # Ridders-like Richardson over shrinking steps
        h = 0.02 * abs(at) if at else 0.02
        rows = []
        err = np.inf
        for i in range(7):
            d = (np.asarray(f(at + h), float) - np.asarray(f(at - h), float)) / (2 * h)
            row = [d]
            for j in range(i):
                row.append((4 ** (j + 1) * row[j] - rows[i - 1][j]) / (4 ** (j + 1) - 1))
            rows.append(row)
            if i:
                e = np.max(np.abs(row[-1] - rows[i - 1][-1]))
                if e < err:
                    err, best = e, row[-1]
            h /= 2
        ex = np.asarray(expect, float)
        scale = np.maximum(np.abs(ex), np.abs(best))
        ok = np.all(np.abs(best - ex) <= rtol * scale + atol + 20 * err)
        self._rec(label, bool(ok), f"numerical derivative {_fmt(best)} (±{err:.1e}) vs expected {_fmt(ex)}")

    def limit0(self, label, f, at, expect, small=1e-3, atol=1e-3, to=None):
        a = np.asarray(f(small * at if to is None else to + small * 1e-4 * (at - to)), float)
        ex = np.asarray(expect, float)
        self._rec(label, bool(np.all(np.abs(a - ex) <= atol * np.maximum(1.0, np.abs(ex)))), f"{_fmt(a)} near 0 vs limit {_fmt(ex)}")

    def integral(self, f, lo, hi):
        import scipy.integrate

        g = lambda x: float(np.asarray(f(x), float).ravel()[0])
        n = 1
        return scipy.integrate.quad(g, float(lo), float(hi), limit=400, epsabs=0, epsrel=1e-9)[0]

    def pos(self, label, x):
        x = np.asarray(x, float)
        self._rec(label, bool(np.all(x >= 0)), _fmt(x))

    def uf(self, name, deriv=None, numeric=None):
        return lambda *a: numeric(*a)

    def note(self, s):
        pass

    def is_nan(self, x):
        return bool(np.any(np.isnan(x)))


def _fmt(a):
    a = np.asarray(a)
    return np.array2string(a, precision=10, threshold=12)


class AssumptionFailed(Exception):
    pass


def sample(lo, hi, kind, rng):
    if kind == "int":
        return rng.randint(lo, hi)
    if lo is None:
        lo = -3.0 if hi is None else hi - 6.0
    if hi is None:
        hi = lo + 6.0
    lo, hi = float(lo), float(hi)
    if lo > 0 and hi / lo > 100:
        v = math.exp(rng.uniform(math.log(lo), math.log(hi)))
    else:
        v = rng.uniform(lo + 1e-3 * (hi - lo), hi - 1e-3 * (hi - lo))
    return v
