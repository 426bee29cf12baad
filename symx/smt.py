"""Translation of normal forms to z3 and the queries."""
from __future__ import annotations

import _thread
import math
import time
from fractions import Fraction

import mpmath
import z3

from . import terms as T
from .norm import Norm, Rat
from .terms import Unsupported

z3.set_param("parallel.enable", False)


def zq(fr: Fraction):
    return z3.RealVal(f"{fr.numerator}/{fr.denominator}") if fr.denominator != 1 else z3.RealVal(fr.numerator)


def true_value(N, aid):
    """The value of an atom that depends on no input (mpmath), else None."""
    memo = N.__dict__.setdefault("_true", {})
    if aid in memo:
        return memo[aid]
    memo[aid] = None
    a = N.atoms[aid]
    v = None
    try:
        with mpmath.workdps(30):
            if a.kind == "pi":
                v = +mpmath.pi
            elif a.kind == "poly":
                v = _true_poly(N, N.polys[a.data])
            elif a.kind == "log" and a.data[0] == "n":
                v = mpmath.log(mpmath.mpf(a.data[1].numerator) / a.data[1].denominator if isinstance(a.data[1], Fraction) else a.data[1])
            elif a.kind in ("exp", "log", "sin", "cos") and a.extra is not None:
                x = _true_rat(N, a.extra)
                if x is not None:
                    v = getattr(mpmath, a.kind)(x)
            elif a.kind == "fn":
                xs = [_true_rat(N, r) for r in a.data[1]]
                if all(x is not None for x in xs):
                    v = xs[0] ** _mpq(Fraction(a.data[0][4:-1])) if a.data[0].startswith("pow[") else T._mp_fn(a.data[0], xs)
        if v is not None and (not mpmath.isfinite(v) or isinstance(v, mpmath.mpc)):
            v = None
    except (Unsupported, ValueError, TypeError, ZeroDivisionError, OverflowError):
        v = None
    memo[aid] = v
    return v


def _mpq(q):
    q = Fraction(q)
    return mpmath.mpf(q.numerator) / q.denominator


def _true_poly(N, p):
    acc = mpmath.mpf(0)
    for m, c in p.items():
        e = _mpq(c)
        for aid, k in m:
            x = true_value(N, aid)
            if x is None:
                return None
            e *= x ** _mpq(k)
        acc += e
    return acc


def _true_rat(N, r):
    v = _true_poly(N, r.num)
    for pid, e in r.fac.items():
        x = _true_poly(N, N.polys[pid])
        if v is None or x is None:
            return None
        v *= x ** _mpq(e)
    return v


def enclose(x, v):
    """x within 1e-12 (relative) of the number v."""
    if v == 0:
        return []
    f = Fraction(str(mpmath.nstr(abs(v), 25)))
    if not Fraction(1, 10**60) < f < 10**60:
        return []
    d = f * Fraction(1, 10**12)
    lo, hi = (f - d, f + d) if v > 0 else (-f - d, -f + d)
    return [x > zq(lo), x < zq(hi)]


LCAP = 12  # roots of higher order are opaque monotone powers


class Encoder:
    """One query: maps the atoms that occur in it to z3 reals and collects axioms."""

    def __init__(self, N: Norm, rich=False):
        self.N = N
        self.rich = rich
        self.L: dict = {}
        self.zv: dict = {}
        self.axioms: list = []
        self.done: set = set()
        self.intvars: dict = {}
        self.powers: dict = {}

    # -- pass 1: exponents
    def scan_poly(self, p):
        for m in p:
            for a, e in m:
                self.scan_atom(a)
                if isinstance(e, Fraction):
                    self.L[a] = math.lcm(self.L.get(a, 1), e.denominator)

    def scan(self, r: Rat):
        self.scan_poly(r.num)
        for pid in r.fac:
            self.scan_poly(self.N.polys[pid])

    def scan_atom(self, aid):
        if aid in self.done:
            return
        self.done.add(aid)
        a = self.N.atoms[aid]
        self.L.setdefault(aid, 1)
        if a.kind == "poly":
            self.scan_poly(self.N.polys[a.data])
        if a.kind == "sin":
            self.scan_atom(a.data[1])
        if a.kind == "cos":
            self.scan_atom(a.data[0])
        if self.rich and a.kind in ("exp", "log") and a.extra is not None:
            self.scan(a.extra)
        if a.kind == "fn" and (a.data[0] == "floor" or self.rich and a.data[0] in MONO):
            for r in a.data[1]:
                self.scan(r)

    # -- pass 2: variables + axioms
    def build(self):
        changed = True
        built = set()
        while changed:
            changed = False
            for aid in list(self.done):
                if aid not in built:
                    built.add(aid)
                    changed = True
                    self._decl(aid)
        for aid in list(self.done):
            self._axiom(aid)
        if self.rich:
            self._pair_axioms()

    def _decl(self, aid):
        a = self.N.atoms[aid]
        L = self.L.get(aid, 1)
        base = z3.Real(f"a{aid}_{a.name}")
        if L > LCAP:
            self.zv[aid] = (base, base)
            self.powers.setdefault(aid, {})
        elif L == 1:
            self.zv[aid] = (base, base)
        else:
            root = z3.Real(f"a{aid}_{a.name}^(1/{L})")
            self.zv[aid] = (base, root)

    def val(self, aid):
        return self.zv[aid][0]

    def _axiom(self, aid):
        a = self.N.atoms[aid]
        x, root = self.zv[aid]
        L = self.L.get(aid, 1)
        ax = self.axioms
        if 1 < L <= LCAP:
            prod = root
            for _ in range(L - 1):
                prod = prod * root
            ax.append(prod == x)
            ax.append(root >= 0)
            ax.append(x >= 0)
            if a.pos:
                ax.append(root > 0)
            if a.kind in ("v",) and a.pos and self.rich:
                ax.append((root > 1) == (x > 1))
        if a.kind == "v" and a.data[1] == "int":
            n = z3.Int(f"n{aid}")
            self.intvars[aid] = n
            ax.append(x == z3.ToReal(n))
        if a.pos and a.kind != "poly":
            ax.append(x > 0)
        if a.kind not in ("v", "pi"):
            v = true_value(self.N, aid)
            if v is not None:
                ax += enclose(x, v)
                if L > 1 and v > 0 and aid not in self.powers:
                    ax += enclose(root, v ** (mpmath.mpf(1) / L))
        if a.kind == "poly":
            ax.append(x == self.poly(self.N.polys[a.data]))
            ax.append(x > 0)
        elif a.kind == "pi":
            ax += [x > z3.Q(314159265, 10**8), x < z3.Q(314159266, 10**8)]
        elif a.kind == "log" and a.data[0] == "n":
            v = math.log(a.data[1])
            lo, hi = Fraction(v) - Fraction(1, 10**9), Fraction(v) + Fraction(1, 10**9)
            ax += [x > zq(lo.limit_denominator(10**10)), x < zq(hi.limit_denominator(10**10))]
        elif a.kind == "sin":
            s, c = x, self.val(a.data[1])
            ax.append(s * s + c * c == 1)
            ax += [s <= 1, s >= -1, c <= 1, c >= -1]
        elif a.kind == "fn":
            name, args = a.data
            if name == "floor":
                v = self.rat(args[0])
                n = z3.Int(f"n{aid}")
                self.intvars[aid] = n
                ax.append(x == z3.ToReal(n))
                if v is not None:
                    num, den = v
                    if den is None:
                        ax += [x <= num, num < x + 1]
                    else:
                        ax.append(z3.Or(z3.And(den > 0, x * den <= num, num < (x + 1) * den), z3.And(den < 0, x * den >= num, num > (x + 1) * den)))
            elif name == "erf":
                ax += [x > -1, x < 1]
            elif name == "gammainc":
                ax += [x >= 0, x <= 1]
            elif name == "atan":
                ax += [x > z3.Q(-157079633, 10**8), x < z3.Q(157079633, 10**8)]
            if self.rich and name in ("erf", "atan"):
                v = self.rat(args[0])
                if v is not None:
                    num, den = v
                    sg = num if den is None else num * den
                    ax += [(x > 0) == (sg > 0), (x < 0) == (sg < 0)]
        if self.rich and a.kind == "exp" and a.extra is not None:
            v = self.rat(a.extra)
            num, den = v
            if den is None:
                ax += [x >= 1 + num, z3.Implies(num < 1, x * (1 - num) <= 1), (x > 1) == (num > 0), (x < 1) == (num < 0)]
            else:
                ax += [(x > 1) == (num * den > 0), (x < 1) == (num * den < 0)]
        if self.rich and a.kind == "log" and a.data[0] != "n" and a.extra is not None:
            v = self.rat(a.extra)
            num, den = v
            if den is None:
                ax += [
                    z3.Implies(num > 0, z3.And(x <= num - 1, x * num >= num - 1)),
                    z3.Implies(z3.And(num > 0, num != 1), z3.And(x < num - 1, x * num > num - 1)),
                    z3.Implies(num > 0, (x > 0) == (num > 1)),
                    z3.Implies(num > 0, (x < 0) == (num < 1)),
                ]

    def _pair_axioms(self):
        """Monotonicity between atoms of the same increasing function."""
        by: dict = {}
        for aid in self.done:
            a = self.N.atoms[aid]
            if a.kind == "exp":
                by.setdefault("exp", []).append((aid, a.extra))
            elif a.kind == "log" and a.data[0] != "n":
                by.setdefault("log", []).append((aid, a.extra))
            elif a.kind == "fn" and a.data[0] in MONO:
                by.setdefault(a.data[0], []).append((aid, a.data[1][-1]))
        for name, lst in by.items():
            for i in range(len(lst)):
                for j in range(i):
                    d = self.N.radd(lst[i][1], lst[j][1], -1)
                    try:
                        c = self.sign_cond(d)
                    except KeyError:
                        continue
                    if c is None:
                        continue
                    pos, neg = c
                    x, y = self.val(lst[i][0]), self.val(lst[j][0])
                    self.axioms += [z3.Implies(pos, x > y), z3.Implies(neg, x < y)]

    def power(self, aid, f):
        """x**f for a fraction f in (0,1) whose root is not worth an algebraic definition."""
        d = self.powers[aid]
        if f not in d:
            x = self.zv[aid][0]
            y = d[f] = z3.Real(f"a{aid}^{f}")
            v = true_value(self.N, aid)
            if v is not None and v > 0:
                self.axioms += enclose(y, v ** _mpq(f))
            self.axioms += [x > 0, y > 0, (y > 1) == (x > 1), (y < 1) == (x < 1), (y < x) == (x > 1), (y > x) == (x < 1)]
            for g, w in d.items():
                if g != f:
                    self.axioms.append((y > w) == (x > 1) if f > g else (y < w) == (x > 1))
                    self.axioms.append((y < w) == (x < 1) if f > g else (y > w) == (x < 1))
        return d[f]

    # -- expressions
    def mono(self, m, c):
        e = None
        for aid, k in m:
            x, root = self.zv[aid]
            if aid in self.powers:
                n = math.floor(k)
                f = k - n
                if n < 0:
                    raise Unsupported("negative exponent in polynomial")
                for _ in range(n):
                    e = x if e is None else e * x
                if f:
                    y = self.power(aid, Fraction(f))
                    e = y if e is None else e * y
                continue
            n = k * self.L.get(aid, 1)
            n = int(n)
            b = root
            if n < 0:
                raise Unsupported("negative exponent in polynomial")
            if n > 400:
                raise Unsupported("huge exponent")
            for _ in range(n):
                e = b if e is None else e * b
        if e is None:
            return zq(c)
        return e if c == 1 else zq(c) * e

    def poly(self, p):
        if not p:
            return z3.RealVal(0)
        # clear negative exponents is the caller's job
        ts = [self.mono(m, c) for m, c in sorted(p.items(), key=lambda x: repr(x[0]))]
        return ts[0] if len(ts) == 1 else z3.Sum(ts)

    def clear(self, p):
        """p = q / mono ; returns (q, mono) with q free of negative exponents."""
        neg: dict = {}
        for m in p:
            for a, e in m:
                if e < 0:
                    neg[a] = max(neg.get(a, 0), -e)
        if not neg:
            return p, ()
        g = tuple(sorted(neg.items()))
        q = {}
        for m, c in p.items():
            d = dict(m)
            for a, e in g:
                v = d.get(a, 0) + e
                if isinstance(v, Fraction) and v.denominator == 1:
                    v = int(v)
                if v == 0:
                    d.pop(a, None)
                else:
                    d[a] = v
            q[tuple(sorted(d.items()))] = c
        return q, g

    def rat(self, r: Rat):
        """(num, den) z3 expressions (den None = 1)."""
        q, g = self.clear(r.num)
        num = self.poly(q)
        den = None

        def times(a, b):
            return b if a is None else a * b

        if g:
            den = times(den, self.mono(g, 1))
        for pid, e in r.fac.items():
            f = self.poly_any(pid)
            for _ in range(abs(e)):
                if e > 0:
                    num = num * f
                else:
                    den = times(den, f)
        return num, den

    def poly_any(self, pid):
        p = self.N.polys[pid]
        q, g = self.clear(p)
        if g:
            raise Unsupported("Laurent factor")
        return self.poly(q)

    def sign_cond(self, d: Rat):
        """(d>0, d<0) as z3 conditions, division free; adds non-zero denominators."""
        if not d.num:
            return (z3.BoolVal(False), z3.BoolVal(False))
        q, g = self.clear(d.num)
        num = self.poly(q)
        extra = []
        for a, e in g:
            n = int(e * self.L.get(a, 1)) if a not in self.powers else int(e)
            if n % 2 and not self.N.atoms[a].pos:
                num = num * self.zv[a][1]
            if not self.N.atoms[a].pos:
                extra.append(self.zv[a][0] != 0)
        for pid, e in d.fac.items():
            if self.N.poly_positive_cached(pid):
                continue
            f = self.poly_any(pid)
            if e % 2:
                num = num * f
            extra.append(f != 0)
        for x in extra:
            if not any(x.eq(y) for y in self.axioms):
                self.axioms.append(x)
        return num > 0, num < 0


MONO = {"erf", "atan"}


def poly_positive_cached(self, pid):
    v = self.polypos.get(pid)
    return self.poly_positive(pid) if v is None else v


Norm.poly_positive_cached = poly_positive_cached


class Query:
    """A conjunction of boolean terms, checked by z3."""

    def __init__(self, N: Norm):
        self.N = N

    def collect(self, b, out):
        if isinstance(b, bool):
            return
        if b.op in ("lt", "le", "eq"):
            d = self.N.radd(self.N.norm(b.args[0]), self.N.norm(b.args[1]), -1)
            out[b.id] = d
        else:
            for a in b.args:
                self.collect(a, out)

    def encode(self, b, E, diffs):
        if isinstance(b, bool):
            return z3.BoolVal(b)
        if b.op in ("lt", "le", "eq"):
            pos, neg = E.sign_cond(diffs[b.id])
            if b.op == "lt":
                return neg
            if b.op == "le":
                return z3.Not(pos)
            return z3.And(z3.Not(pos), z3.Not(neg))
        xs = [self.encode(a, E, diffs) for a in b.args]
        if b.op == "not":
            return z3.Not(xs[0])
        return z3.And(*xs) if b.op == "and" else z3.Or(*xs)


_ABANDONED: list = []  # what stuck queries still use
STUCK = [0]  # in this harness


def _guarded(sol, timeout, *uses):
    """sol.check() in a thread: z3 does not always honour its timeout. A stuck query is abandoned as unknown."""
    if STUCK[0] >= 3:
        raise Unsupported("z3 stuck in several queries")
    out, done = [], _thread.allocate_lock()
    done.acquire()

    def run():
        try:
            out.append(sol.check())
        except z3.Z3Exception:
            out.append(z3.unknown)
        finally:
            done.release()

    try:
        _thread.start_new_thread(run, ())
        if done.acquire(timeout=2 * timeout / 1000 + 3):
            return out[0]
        sol.ctx.interrupt()
        if done.acquire(timeout=2):
            return out[0]
    except BaseException:
        _abandon(sol, *uses)
        raise
    _abandon(sol, *uses)
    return z3.unknown


def _abandon(*uses):
    _ABANDONED.append((*uses, z3.main_ctx()))
    z3.z3._main_ctx = z3.Context()
    STUCK[0] += 1


class Solver:
    """Runs queries, keeps statistics."""

    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.unknown = 0
        self.unsat = 0
        self.sat = 0
        self.normal_only = 0
        self.repeated = 0
        self.known = {}

    def identity(self, N, r, s, timeout=1500):
        """r == s as formal expressions: z3 on N1*D2 != N2*D1 over the atoms (trig relation only)."""
        t0 = time.time()
        key = tuple((frozenset(q.num.items()), frozenset(q.fac.items())) for q in (r, s))
        if self.known.get(key) is N:  # the very same query was discharged for another claim
            self.repeated += 1
            return "unsat"
        try:
            E = Encoder(N)
            E.scan(r)
            E.scan(s)
            if max(E.L.values(), default=1) > 12:
                return "large"
            E.build()
            try:
                n1, d1 = E.rat(r)
                n2, d2 = E.rat(s)
            except Unsupported:
                return "large"
            lhs = n1 if d2 is None else n1 * d2
            rhs = n2 if d1 is None else n2 * d1
            sol = z3.SolverFor("QF_NRA")
            sol.set("timeout", timeout)
            sol.add(lhs != rhs)
            self.queries += 1
            v = _guarded(sol, timeout, E, n1, d1, n2, d2, lhs, rhs)
            if v != z3.unsat:
                ax = [a for aid in E.done if N.atoms[aid].kind in ("sin", "poly") for a in self._ax1(E, aid)]
                if ax:
                    sol.add(*ax)
                    self.queries += 1
                    v = _guarded(sol, timeout, E, n1, d1, n2, d2, lhs, rhs)
            if v == z3.unsat:
                self.unsat += 1
                self.known[key] = N
                return "unsat"
            self.unknown += 1
            return "unknown"
        finally:
            self.time += time.time() - t0

    def _ax1(self, E, aid):
        keep, E.axioms = E.axioms, []
        E._axiom(aid)
        out, E.axioms = E.axioms, keep
        return out

    def check(self, N, bools, neq=None, rich=False, timeout=4000, want_model=False):
        """bools: list of B/bool (conjunction). neq: optional (Rat lhs, Rat rhs) asserted different.

        Returns (verdict, model_env or None); verdict in {'sat','unsat','unknown'}.
        """
        t0 = time.time()
        try:
            return self._check(N, bools, neq, rich, timeout, want_model)
        finally:
            self.time += time.time() - t0

    def _check(self, N, bools, neq, rich, timeout, want_model):
        Q = Query(N)
        diffs: dict = {}
        for b in bools:
            if b is False:
                self.queries += 1
                self.unsat += 1
                return "unsat", None
            Q.collect(b, diffs)
        E = Encoder(N, rich)
        for d in diffs.values():
            E.scan(d)
        if neq is not None:
            E.scan(neq[0])
            E.scan(neq[1])
        # variables constrained only by ranges still matter for models
        E.build()
        conj = [Q.encode(b, E, diffs) for b in bools]
        lhs_rhs = None
        if neq is not None:
            n1, d1 = E.rat(neq[0])
            n2, d2 = E.rat(neq[1])
            lhs = n1 if d2 is None else n1 * d2
            rhs = n2 if d1 is None else n2 * d1
            lhs_rhs = (n1, d1, n2, d2, lhs, rhs)
            conj.append(lhs != rhs)
            for d in (d1, d2):
                if d is not None:
                    conj.append(d != 0)
        self.queries += 1
        if E.intvars:
            s = z3.Solver()
        else:
            s = z3.SolverFor("QF_NRA")
        s.set("timeout", int(timeout))
        s.add(*E.axioms)
        s.add(*conj)
        keep = (E, conj, Q, diffs, lhs_rhs)
        stuck = len(_ABANDONED)
        r = _guarded(s, timeout, *keep)
        if r == z3.unknown and not E.intvars and stuck == len(_ABANDONED):
            s2 = z3.Solver()
            s2.set("timeout", int(timeout))
            s2.add(*E.axioms)
            s2.add(*conj)
            r2 = _guarded(s2, timeout, *keep)
            if r2 != z3.unknown:
                r, s = r2, s2
        if r == z3.unsat:
            self.unsat += 1
            return "unsat", None
        if r == z3.unknown:
            self.unknown += 1
            return "unknown", None
        self.sat += 1
        env = None
        if want_model:
            m = s.model()
            env = {}
            for aid in E.done:
                a = N.atoms[aid]
                if a.kind == "v":
                    v = m.eval(E.zv[aid][0], model_completion=True)
                    env[a.data[0]] = _zfrac(v)
        return "sat", env


def _zfrac(v):
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return Fraction(1)
