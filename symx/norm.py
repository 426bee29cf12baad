"""Normal form of terms: sums of Laurent monomials (rational exponents) over *atoms*,
times integer powers of polynomial factors.

Atoms are variables and transcendental values (exp/log/sin/si/... of a normalised argument,
formal antiderivatives of integrals, uninterpreted stubs).  The normal form only uses identities
valid for real numbers (exp(a+b)=exp(a)exp(b), log|ab|=log|a|+log|b|, angle addition, parity,
linearity and additivity of the integral).  The verdict on an equality or inequality of two
normal forms is left to z3 (see smt.py), where atoms become real variables constrained by axioms.
"""
from __future__ import annotations

import math
import random
from fractions import Fraction

from . import terms as T
from .terms import Unsupported

F0, F1 = Fraction(0), Fraction(1)
MAXTERMS = 6000


def _ex(e):
    if isinstance(e, Fraction) and e.denominator == 1:
        return int(e)
    return e


class Atom:
    __slots__ = ("id", "kind", "data", "pos", "val", "term", "name", "extra")

    def __repr__(self):
        return self.name


class Rat:
    __slots__ = ("num", "fac", "_v")

    def __init__(self, num, fac=None):
        self.num = num
        self.fac = fac or {}
        self._v = None


class TooBig(Unsupported):
    pass


class Norm:
    def __init__(self, posvars=(), positive_oracle=None):
        self.atoms: list[Atom] = []
        self.index: dict = {}
        self.byfn: dict = {}
        self.posvars = set(posvars)
        self.polys: list[dict] = []
        self.polyindex: dict = {}
        self.polyval: list[float] = []
        self.polypos: dict = {}
        self.memo: dict = {}
        self.rng = random.Random(12345)
        self.positive_oracle = positive_oracle
        self.bvnames: set = set()

    # ------------------------------------------------------------------ atoms
    def _new(self, kind, data, name, pos=False, val=None, term=None):
        a = Atom()
        a.id = len(self.atoms)
        a.kind, a.data, a.name, a.pos, a.term = kind, data, name, pos, term
        a.val = val if val is not None else self.rng.uniform(0.3, 1.9)
        a.extra = None
        self.atoms.append(a)
        return a

    def var_atom(self, name, kind="real"):
        key = ("v", name)
        a = self.index.get(key)
        if a is None:
            a = self._new("v", (name, kind), name, pos=name in self.posvars or name.startswith("_bv"))
            self.index[key] = a
        return a

    def pi_atom(self):
        a = self.index.get("pi")
        if a is None:
            a = self._new("pi", None, "PI", pos=True, val=math.pi)
            self.index["pi"] = a
        return a

    def fn_atom(self, name, args, pos=False):
        """Generic function atom; unified with an existing one when arguments are equal."""
        fp = tuple(self.rval(r) for r in args)
        tab = self.byfn.setdefault((name, len(args)), {})
        size = math.fsum(map(abs, fp))
        b = round(math.log(size) * 1e5) if 0 < size < math.inf else None
        for fp2, args2, a in (x for k in ((b - 1, b, b + 1) if b is not None else (None,)) for x in tab.get(k, ())):
            if all(abs(x - y) <= 1e-7 * (abs(x) + abs(y)) + 1e-300 for x, y in zip(fp, fp2)):
                if all(self.req(r, s) for r, s in zip(args, args2)):
                    return a
        a = self._new("fn", (name, args), f"{name}#{len(self.atoms)}", pos=pos)
        tab.setdefault(b, []).append((fp, args, a))
        return a

    # ------------------------------------------------------------------ values (fingerprints)
    def mono_val(self, m):
        v = 1.0
        for aid, e in m:
            x = self.atoms[aid].val
            v *= (abs(x) ** float(e)) if not isinstance(e, int) else x**e
        return v

    def poly_val(self, p):
        return math.fsum(float(c) * self.mono_val(m) for m, c in p.items())

    def rval(self, r: Rat):
        if r._v is None:
            v = self.poly_val(r.num)
            for pid, e in r.fac.items():
                v *= self.polyval[pid] ** e
            r._v = v
        return r._v

    # ------------------------------------------------------------------ polynomials
    def pconst(self, c):
        return {(): Fraction(c)} if c else {}

    def padd(self, p, q, s=1):
        out = dict(p)
        for m, c in q.items():
            v = out.get(m, 0) + s * c
            if v:
                out[m] = v
            else:
                out.pop(m, None)
        return out

    def pscale(self, p, c):
        return {m: v * c for m, v in p.items()} if c else {}

    def mmul(self, a, b):
        """Merge two monomials -> (monomial, [special atoms needing reduction])."""
        if not a:
            return b, None
        if not b:
            return a, None
        d = dict(a)
        special = None
        for aid, e in b:
            v = _ex(d.get(aid, 0) + e)
            if v == 0:
                d.pop(aid, None)
                continue
            d[aid] = v
            k = self.atoms[aid].kind
            if k == "sin" and isinstance(v, int) and v >= 2:
                special = (special or []) + [aid]
            elif k == "poly" and (v >= 1 or v < 0):
                special = (special or []) + [aid]
        return tuple(sorted(d.items())), special

    def _reduce_mono(self, m, special):
        """Monomial with reducible atoms -> polynomial (possibly with factors dropped in)."""
        d = dict(m)
        out = None
        for aid in special:
            if aid not in d:
                continue
            a = self.atoms[aid]
            e = d.pop(aid)
            if a.kind == "sin":
                q, r = divmod(e, 2)
                if r:
                    d[aid] = 1
                cos = a.data[1]
                base = {(): F1, ((cos, 2),): -F1}
                p = self.ppow(base, q)
            else:
                fl = math.floor(e)
                fr = _ex(e - fl)
                if fr:
                    d[aid] = fr
                if fl < 0:
                    raise TooBig("negative fractional polynomial power in a sum")
                p = self.ppow(self.polys[a.data], fl)
            out = p if out is None else self.pmul(out, p)
        rest = {tuple(sorted(d.items())): F1}
        return self.pmul(out, rest) if out is not None else rest

    def pmul(self, p, q):
        if not p or not q:
            return {}
        if len(p) > len(q):
            p, q = q, p
        if len(p) * len(q) > 60 * MAXTERMS:
            raise TooBig(f"polynomial product {len(p)}x{len(q)}")
        out: dict = {}
        extra = []
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m, sp = self.mmul(m1, m2)
                c = c1 * c2
                if sp:
                    extra.append((m, sp, c))
                    continue
                v = out.get(m, 0) + c
                if v:
                    out[m] = v
                else:
                    out.pop(m, None)
        for m, sp, c in extra:
            out = self.padd(out, self.pscale(self._reduce_mono(m, sp), c))
        if len(out) > MAXTERMS:
            raise TooBig(f"{len(out)} terms")
        return out

    def ppow(self, p, n):
        r = {(): F1}
        b = p
        while n:
            if n & 1:
                r = self.pmul(r, b)
            n >>= 1
            if n:
                b = self.pmul(b, b)
        return r

    def primitive(self, p):
        """p = content * monomial * primitive; primitive has min exponents 0, leading coeff>0."""
        ms = list(p)
        if len(ms) == 1:
            return p[ms[0]], ms[0], None
        mins: dict = {}
        first = True
        for m in ms:
            d = dict(m)
            if first:
                mins = {k: v for k, v in d.items()}
                first = False
            else:
                for k in list(mins):
                    mins[k] = min(mins[k], d.get(k, 0))
                for k in d:
                    if k not in mins:
                        mins[k] = min(0, d[k])
        g = tuple(sorted((k, _ex(v)) for k, v in mins.items() if v != 0))
        num = 0
        den = 1
        for c in p.values():
            num = math.gcd(num, c.numerator)
            den = den * c.denominator // math.gcd(den, c.denominator)
        content = Fraction(num, den)
        lead = p[max(p, key=_mono_key)]
        if lead < 0:
            content = -content
        inv = tuple((k, _ex(-v)) for k, v in g)
        q = {}
        for m, c in p.items():
            mm, sp = self.mmul(m, inv)
            q[mm] = c / content
        return content, g, q

    def poly_id(self, q):
        key = frozenset(q.items())
        i = self.polyindex.get(key)
        if i is None:
            i = len(self.polys)
            self.polys.append(q)
            self.polyval.append(self.poly_val(q))
            self.polyindex[key] = i
        return i

    def factor(self, q):
        """Factor a primitive polynomial -> list of (polyid, exp).  Uses sympy when small."""
        key = ("fac", frozenset(q.items()))
        r = self.memo.get(key)
        if r is not None:
            return r
        r = [(self.poly_id(q), 1)]
        ints = all(isinstance(e, int) and e >= 0 for m in q for _, e in m)
        deg = max((sum(e for _, e in m) for m in q), default=0) if ints else 0
        if ints and 3 <= len(q) <= 40 and 2 <= deg <= 12:
            fl = self._sympy_factor(q)
            if fl is not None:
                r = fl
        self.memo[key] = r
        return r

    def _sympy_factor(self, q):
        import sympy

        ids = sorted({a for m in q for a, _ in m})
        if len(ids) > 6:
            return None
        syms = [sympy.Symbol(f"a{i}") for i in ids]
        pos = {a: n for n, a in enumerate(ids)}
        d = {}
        for m, c in q.items():
            ex = [0] * len(ids)
            for a, e in m:
                ex[pos[a]] = e
            d[tuple(ex)] = sympy.Rational(c.numerator, c.denominator)
        try:
            P = sympy.Poly.from_dict(d, *syms)
            coeff, facs = P.factor_list()
        except Exception:
            return None
        if len(facs) == 1 and facs[0][1] == 1:
            return None
        out = []
        tot = Fraction(int(coeff.p), int(coeff.q))
        for f, e in facs:
            pd = {}
            for ex, c in f.as_dict().items():
                m = tuple((ids[i], int(k)) for i, k in enumerate(ex) if k)
                pd[m] = Fraction(int(c.p), int(c.q))
            cc, g, pr = self.primitive(pd)
            if pr is None:
                return None
            tot *= cc**e
            out.append((self.poly_id(pr), int(e)))
        if tot != 1:
            # overall sign: reject (caller falls back to the unfactored polynomial)
            return None
        return out

    # ------------------------------------------------------------------ rationals
    def rconst(self, c):
        return Rat(self.pconst(c))

    def ratom(self, a, e=1):
        return Rat({((a.id, _ex(e)),): F1})

    def radd(self, r, s, sg=1):
        if not s.num:
            return r
        if not r.num:
            return Rat(self.pscale(s.num, sg), dict(s.fac))
        fac = {}
        p, q = r.num, s.num
        for pid in set(r.fac) | set(s.fac):
            a, b = r.fac.get(pid, 0), s.fac.get(pid, 0)
            m = min(a, b)
            if m:
                fac[pid] = m
            if a > m:
                p = self.pmul(p, self.ppow(self.polys[pid], a - m))
            if b > m:
                q = self.pmul(q, self.ppow(self.polys[pid], b - m))
        return Rat(self.padd(p, q, sg), fac)

    def rmul(self, r, s):
        if not r.num or not s.num:
            return Rat({})
        fac = dict(r.fac)
        for pid, e in s.fac.items():
            v = fac.get(pid, 0) + e
            if v:
                fac[pid] = v
            else:
                fac.pop(pid, None)
        return Rat(self.pmul(r.num, s.num), fac)

    def rscale(self, r, c):
        return Rat(self.pscale(r.num, Fraction(c)), dict(r.fac) if c else {})

    def rinv(self, r):
        if not r.num:
            raise T.DomainError("division by zero")
        c, g, q = self.primitive(r.num)
        num = {tuple((k, _ex(-v)) for k, v in g): 1 / c}
        num = self._fix_mono(num)
        fac = {pid: -e for pid, e in r.fac.items()}
        if q is not None:
            for pid, e in self.factor(q):
                v = fac.get(pid, 0) - e
                if v:
                    fac[pid] = v
                else:
                    fac.pop(pid, None)
        return self._fix_rat(Rat(num, fac))

    def _fix_mono(self, num):
        return num

    def _fix_rat(self, r):
        """Move integer parts of 'poly' atoms in a single-monomial numerator into factors."""
        if len(r.num) != 1:
            return r
        (m, c), = r.num.items()
        d = dict(m)
        fac = None
        for aid, e in m:
            a = self.atoms[aid]
            if a.kind == "poly" and (e < 0 or e >= 1):
                fl = math.floor(e)
                fr = _ex(e - fl)
                if fac is None:
                    fac = dict(r.fac)
                pl = self.polys[a.data]
                if len(pl) == 1 and () in pl:
                    c = c * pl[()] ** fl
                else:
                    fac[a.data] = fac.get(a.data, 0) + fl
                    if not fac[a.data]:
                        del fac[a.data]
                if fr:
                    d[aid] = fr
                else:
                    del d[aid]
        if fac is None:
            return r
        return Rat({tuple(sorted(d.items())): c}, fac)

    def rpow(self, r, n: int):
        if n == 0:
            return self.rconst(1)
        if n < 0:
            return self.rpow(self.rinv(r), -n)
        if n == 1:
            return r
        if not r.num:
            return r
        # keep polynomials factored
        if len(r.num) > 1:
            c, g, q = self.primitive(r.num)
            fac = {pid: e * n for pid, e in r.fac.items()}
            for pid, e in self.factor(q):
                v = fac.get(pid, 0) + e * n
                if v:
                    fac[pid] = v
                else:
                    fac.pop(pid, None)
            num = {(): c**n}
            base = {g: F1}
            for _ in range(n):
                num = self.pmul(num, base)
            return Rat(num, fac)
        out = Rat(self.ppow(r.num, n), {pid: e * n for pid, e in r.fac.items()})
        return self._fix_rat(out)

    def expand(self, r):
        """Multiply positive factors into the numerator; returns (poly, {pid: negative exp})."""
        p = r.num
        den = {}
        for pid, e in r.fac.items():
            if e > 0:
                p = self.pmul(p, self.ppow(self.polys[pid], e))
            else:
                den[pid] = e
        return p, den

    def req(self, r, s):
        d = self.radd(r, s, -1)
        return not d.num

    # ------------------------------------------------------------------ sign knowledge
    def poly_positive(self, pid):
        v = self.polypos.get(pid)
        if v is None:
            q = self.polys[pid]
            v = all(c > 0 for c in q.values()) and all(
                self.atoms[a].pos or (isinstance(e, int) and e % 2 == 0) for m in q for a, e in m
            )
            if not v and self.positive_oracle is not None:
                v = bool(self.positive_oracle(Rat(dict(q))))
            self.polypos[pid] = v
        return v

    def atom_pos(self, aid):
        a = self.atoms[aid]
        if a.pos:
            return True
        if self.positive_oracle is not None:
            key = ("apos", aid)
            if key not in self.memo:
                self.memo[key] = bool(self.positive_oracle(Rat({((aid, 1),): F1})))
            return self.memo[key]
        return False

    def negated(self, pid):
        """The polynomial -q for a q that is known to be negative, else None."""
        key = ("neg", pid)
        if key not in self.memo:
            r = None
            if not self.poly_positive(pid):
                n = self.poly_id({m: -c for m, c in self.polys[pid].items()})
                if self.poly_positive(n):
                    r = n
                    self.memo["negof", n] = pid
            self.memo[key] = r
        return self.memo[key]

    # ------------------------------------------------------------------ powers
    def poly_atom(self, pid):
        key = ("poly", pid)
        a = self.index.get(key)
        if a is None:
            a = self._new("poly", pid, f"P{pid}", pos=True, val=abs(self.polyval[pid]))
            self.index[key] = a
        return a

    def rpowfrac(self, r, q: Fraction):
        """r ** q for rational non-integer q (r > 0 assumed: that is the domain)."""
        if not r.num:
            return r
        c, g, p = self.primitive(r.num)
        if p is None and not r.fac and len(g) == 0:
            if c < 0:
                raise Unsupported("fractional power of negative number")
            return self.const_pow(c, q)
        facs = dict(r.fac)
        if p is not None:
            for pid, e in self.factor(p):
                facs[pid] = facs.get(pid, 0) + e
        if c < 0:
            # one negative factor makes the sign good; otherwise it must come from elsewhere: keep opaque
            odd = [pid for pid, e in facs.items() if e % 2 and self.negated(pid) is not None]
            if len(odd) != 1:
                return self.opaque_pow(r, q)
            n, c = self.negated(odd[0]), -c
            facs[n] = facs.pop(odd[0])
        parts = []
        for aid, e in g:
            parts.append(("a", aid, e))
        for pid, e in facs.items():
            if e:
                parts.append(("p", pid, e))
        unknown = [x for x in parts if not (self.atom_pos(x[1]) if x[0] == "a" else self.poly_positive(x[1]))]
        if len(unknown) > 1 or (unknown and unknown[0][2] != 1 and unknown[0][2] % 2 == 0):
            return self.opaque_pow(r, q)
        out = self.const_pow(c, q)
        for kind, i, e in parts:
            ee = Fraction(e) * q
            if kind == "a":
                out = self.rmul(out, self._fix_rat(Rat({((i, _ex(ee)),): F1})))
            else:
                fl = math.floor(ee)
                fr = ee - fl
                if fl:
                    out = self.rmul(out, self.polypow(i, fl))
                if fr:
                    out = self.rmul(out, self.ratom(self.poly_atom(i), fr))
        return out

    def polypow(self, pid, n):
        """Integer power of a polynomial, on its canonical sign."""
        m = self.memo.get(("negof", pid))
        if m is None:
            return Rat({(): F1}, {pid: n})
        return Rat({(): F1 if n % 2 == 0 else -F1}, {m: n})

    def opaque_pow(self, r, q):
        a = self.fn_atom(f"pow[{q}]", [r], pos=True)
        return self.ratom(a)

    def const_pow(self, c: Fraction, q: Fraction):
        """c**q for a positive rational via prime atoms."""
        if c == 1:
            return self.rconst(1)
        out = self.rconst(1)
        for base, sgn in ((c.numerator, 1), (c.denominator, -1)):
            for p, e in _factorint(base).items():
                ee = q * e * sgn
                fl = math.floor(ee)
                fr = ee - fl
                out = self.rscale(out, Fraction(p) ** fl)
                if fr:
                    out = self.rmul(out, self.ratom(self.prime_atom(p), fr))
        return self._fix_prime(out)

    def prime_atom(self, p):
        """Constant polynomial p as a 'poly' atom so that fractional powers reduce."""
        pid = self.poly_id({(): Fraction(p)})
        self.polypos[pid] = True
        return self.poly_atom(pid)

    def _fix_prime(self, r):
        return self._fix_rat(r)

    # ------------------------------------------------------------------ exp / log
    def log_atom(self, key, rat, gt1=None):
        a = self.index.get(("log", key))
        if a is None:
            # unify with equal-valued polynomial up to representation is by key (canonical)
            a = self._new("log", key, f"log[{key}]")
            if key[0] == "n":
                a.val = math.log(key[1])
                a.pos = True
            a.extra = rat
            self.index[("log", key)] = a
        return a

    def log_rat(self, r):
        if not r.num:
            raise T.DomainError("log 0")
        c, g, p = self.primitive(r.num)
        facs = dict(r.fac)
        if p is not None:
            for pid, e in self.factor(p):
                facs[pid] = facs.get(pid, 0) + e
        out = self.rconst(0)
        c = abs(c)
        for base, sgn in ((c.numerator, 1), (c.denominator, -1)):
            for q, e in _factorint(base).items():
                a = self.log_atom(("n", q), self.rconst(q))
                out = self.radd(out, self.rscale(self.ratom(a), e * sgn))
        for aid, e in g:
            a = self.atoms[aid]
            if a.kind == "exp":
                out = self.radd(out, self.rscale(a.extra, e))
            elif a.kind == "poly":
                out = self.radd(out, self.rscale(self.log_poly(a.data), e))
            else:
                la = self.log_atom(("a", aid), self.ratom(a))
                out = self.radd(out, self.rscale(self.ratom(la), e))
        for pid, e in facs.items():
            if e:
                out = self.radd(out, self.rscale(self.log_poly(pid), e))
        return out

    def log_poly(self, pid):
        q = self.polys[pid]
        if len(q) == 1 and () in q:  # a constant (prime) stored as polynomial
            return self.log_rat(Rat({(): q[()]}))
        n = self.negated(pid)
        if n is not None:
            pid = n
        return self.ratom(self.log_atom(("p", pid), Rat(dict(self.polys[pid]))))

    def exp_atom(self, mono, den, scale=F1):
        """exp of the unit  scale * mono * Π den ."""
        key = ("exp", mono, tuple(sorted(den.items()))) + ((scale,) if scale != 1 else ())
        a = self.index.get(key)
        if a is None:
            unit = Rat({mono: scale}, dict(den))
            v = self.rval(unit)
            a = self._new("exp", key, f"exp[{len(self.atoms)}]", pos=True)
            a.val = math.exp(max(-30, min(30, v)))
            a.extra = unit
            self.index[key] = a
        return a

    def reduce(self, r):
        """Cancel numerator factors against denominator factors."""
        if len(r.num) < 2 or not any(e < 0 for e in r.fac.values()):
            return r
        c, g, q = self.primitive(r.num)
        if q is None:
            return r
        fac = dict(r.fac)
        hit = False
        rest = []
        for pid, e in self.factor(q):
            if fac.get(pid, 0) < 0:
                hit = True
            rest.append((pid, e))
        if not hit:
            return r
        num = {g: c}
        for pid, e in rest:
            v = fac.get(pid, 0) + e
            if v > 0:
                num = self.pmul(num, self.ppow(self.polys[pid], v))
                fac.pop(pid, None)
            elif v:
                fac[pid] = v
            else:
                fac.pop(pid, None)
        return Rat(num, fac)

    def exp_rat(self, r):
        if not r.num:
            return self.rconst(1)
        r = self.reduce(r)
        p, den = self.expand(r)
        out = self.rconst(1)
        for m, c in p.items():
            if not den and len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]].kind == "log":
                la = self.atoms[m[0][0]]
                k = la.data
                if k[0] == "n":
                    fl = math.floor(c)
                    out = self.rscale(out, Fraction(k[1]) ** fl)
                    if c - fl:
                        out = self.rmul(out, self.ratom(self.prime_atom(k[1]), c - fl))
                    continue
                base_ok = self.atom_pos(k[1]) if k[0] == "a" else self.poly_positive(k[1])
                if base_ok or c.denominator == 1 and c % 2 == 0:
                    if k[0] == "a":
                        out = self.rmul(out, self._fix_rat(Rat({((k[1], _ex(c)),): F1})))
                    else:
                        fl = math.floor(c)
                        if fl:
                            out = self.rmul(out, self.polypow(k[1], fl))
                        if c - fl:
                            out = self.rmul(out, self.ratom(self.poly_atom(k[1]), c - fl))
                    continue
            big = abs(c) if abs(c) > 64 or c.denominator > 64 else F1
            a = self.exp_atom(m, den, big)
            out = self.rmul(out, Rat({((a.id, _ex(c / big)),): F1}))
        return out

    # ------------------------------------------------------------------ trig
    def trig_atoms(self, mono, den, scale: Fraction):
        key = ("trig", mono, tuple(sorted(den.items())), scale)
        pr = self.index.get(key)
        if pr is None:
            ang = self.rng.uniform(0.2, 1.3)
            unit = Rat({mono: scale}, dict(den))
            c = self._new("cos", None, f"cos[{len(self.atoms)}]", val=math.cos(ang))
            s = self._new("sin", (None, c.id), f"sin[{len(self.atoms)}]", val=math.sin(ang))
            c.extra = s.extra = unit
            c.data = (s.id,)
            pr = (s, c)
            self.index[key] = pr
        return pr

    def cs(self, r):
        """(cos r, sin r) as Rats."""
        if not r.num:
            return self.rconst(1), self.rconst(0)
        p, den = self.expand(r)
        C, S = self.rconst(1), self.rconst(0)
        for m, c in p.items():
            # quarter-angle base so that literal factors such as 0.75 share a base angle
            base = Fraction(1, 4)
            if (c / base).denominator != 1:
                base = Fraction(1, c.denominator)
            n = int(c / base)
            if abs(n) > 40:
                base = abs(c)
                n = 1 if c > 0 else -1
            if len(m) == 1 and self.atoms[m[0][0]].kind == "pi" and not den and m[0][1] == 1:
                q = (c * 2) % 4
                if q.denominator == 1:
                    cc, ss = [(1, 0), (0, 1), (-1, 0), (0, -1)][int(q)]
                    c1, s1 = self.rconst(cc), self.rconst(ss)
                    C, S = self.radd(self.rmul(C, c1), self.rmul(S, s1), -1), self.radd(self.rmul(S, c1), self.rmul(C, s1))
                    continue
            s_a, c_a = self.trig_atoms(m, den, base)
            c1, s1 = self.ratom(c_a), self.ratom(s_a)
            if n < 0:
                s1 = self.rscale(s1, -1)
            cn, sn = self.rconst(1), self.rconst(0)
            k = abs(n)
            bc, bs = c1, s1
            while k:
                if k & 1:
                    cn, sn = self.radd(self.rmul(cn, bc), self.rmul(sn, bs), -1), self.radd(self.rmul(sn, bc), self.rmul(cn, bs))
                k >>= 1
                if k:
                    bc, bs = self.radd(self.rmul(bc, bc), self.rmul(bs, bs), -1), self.rscale(self.rmul(bc, bs), 2)
            C, S = self.radd(self.rmul(C, cn), self.rmul(S, sn), -1), self.radd(self.rmul(S, cn), self.rmul(C, sn))
        return C, S

    def _canon_sign(self, r):
        """(sign, r') with r' having a positive fingerprint-independent leading coefficient."""
        if not r.num:
            return 1, r
        p, den = self.expand(r)
        lead = p[max(p, key=_mono_key)]
        if lead < 0:
            return -1, self.rscale(r, -1)
        return 1, r

    # ------------------------------------------------------------------ main
    def norm(self, t) -> Rat:
        if isinstance(t, float):
            raise Unsupported(f"non-finite value {t} in an obligation")
        r = self.memo.get(t.id)
        if r is not None:
            return r
        # iterative post-order to avoid recursion limits
        stack = [(t, False)]
        while stack:
            x, done = stack.pop()
            if x.id in self.memo:
                continue
            if not done:
                stack.append((x, True))
                for a in x.args:
                    if isinstance(a, T.R) and a.id not in self.memo and x.op != "int":
                        stack.append((a, False))
            else:
                self.memo[x.id] = self._norm1(x)
        return self.memo[t.id]

    def _norm1(self, t):
        op = t.op
        if op == "c":
            return self.rconst(t.args[0])
        if op == "v":
            return self.ratom(self.var_atom(*t.args))
        g = lambda i: self.memo[t.args[i].id]
        if op == "add":
            return self.radd(g(0), g(1))
        if op == "mul":
            return self.rmul(g(0), g(1))
        if op == "pow":
            b, e = g(0), t.args[1]
            if e.op == "c":
                q = e.args[0]
                if q.denominator == 1:
                    return self.rpow(b, int(q))
                return self.rpowfrac(b, q)
            if not b.num:
                # 0 ** e, e>0
                return b
            er = g(1)
            return self.exp_rat(self.rmul(er, self.log_rat(b)))
        if op == "fn":
            return self._fn(t)
        if op == "int":
            return self._int(t)
        raise Unsupported(op)

    def _fn(self, t):
        name = t.args[0]
        if name == "pi":
            return self.ratom(self.pi_atom())
        args = [self.memo[a.id] for a in t.args[1:]]
        if name == "exp":
            return self.exp_rat(args[0])
        if name == "log":
            return self.log_rat(args[0])
        if name == "sin":
            return self.cs(args[0])[1]
        if name == "cos":
            return self.cs(args[0])[0]
        if name == "erfc":
            s, a = self._canon_sign(args[0])
            e = self.ratom(self.fn_atom("erf", [a]))
            return self.radd(self.rconst(1), self.rscale(e, -s))
        if name == "gammainc" and not args[1].num:
            return self.rconst(0)
        if name == "gammaincc":
            e = self.ratom(self.fn_atom("gammainc", args))
            return self.radd(self.rconst(1), e, -1)
        if name == "gamma":
            # shift integer offsets: gamma(x+n) -> canonical residue
            return self._gamma(args[0])
        if name in ("atan", "si", "erf", "asin"):
            if not args[0].num:
                return self.rconst(0)
            s, a = self._canon_sign(args[0])
            if name == "si" or name == "erf" or name == "atan":
                return self.rscale(self.ratom(self.fn_atom(name, [a])), s)
        if name == "ci":
            s, a = self._canon_sign(args[0])
            return self.ratom(self.fn_atom("ci", [a]))
        pos = name in POSFN or name.endswith("+")
        return self.ratom(self.fn_atom(name, args, pos=pos))

    def _gamma(self, r):
        # r = n + rest with rational constant offset; Gamma(x+1) = x Gamma(x)
        if not r.fac and () in r.num:
            c = r.num[()]
            fl = math.floor(c) - 1
            if fl and abs(fl) <= 20:
                base = self.radd(r, self.rconst(fl), -1)
                out = self.ratom(self.fn_atom("gamma", [base], pos=True))
                if fl > 0:
                    x = base
                    for _ in range(fl):
                        out = self.rmul(out, x)
                        x = self.radd(x, self.rconst(1))
                else:
                    x = base
                    for _ in range(-fl):
                        x = self.radd(x, self.rconst(1), -1)
                        out = self.rmul(out, self.rinv(x))
                return out
        return self.ratom(self.fn_atom("gamma", [r]))

    def _depends(self, aid, bvid):
        if aid == bvid:
            return True
        key = ("dep", aid, bvid)
        v = self.memo.get(key)
        if v is None:
            a = self.atoms[aid]
            if a.kind in ("v", "pi"):
                v = False
            elif a.kind == "poly":
                v = self._pdepends(a.data, bvid)
            elif a.kind == "fn":
                v = any(self._rdepends(r, bvid) for r in a.data[1])
            elif a.kind == "anti":
                v = self._rdepends(a.data[1], bvid)  # limit only; body has its own bv
                v = v or self._rdepends(a.data[0], bvid) and a.data[2] != bvid
            else:
                v = self._rdepends(a.extra, bvid) if a.extra is not None else False
            self.memo[key] = v
        return v

    def _pdepends(self, pid, bvid):
        return any(self._depends(a, bvid) for m in self.polys[pid] for a, _ in m)

    def _rdepends(self, r, bvid):
        if r is None:
            return False
        return any(self._depends(a, bvid) for m in r.num for a, _ in m) or any(self._pdepends(p, bvid) for p in r.fac)

    def _int(self, t):
        bv, body, lo, hi = t.args
        b = self.norm(body)
        bva = self.var_atom(*bv.args)
        if not b.num:
            return b
        fd = {p: e for p, e in b.fac.items() if self._pdepends(p, bva.id)}
        fi = {p: e for p, e in b.fac.items() if p not in fd}
        # expand positive dependent factors
        num = b.num
        for p in list(fd):
            if fd[p] > 0:
                num = self.pmul(num, self.ppow(self.polys[p], fd.pop(p)))
        groups: dict = {}
        for m, c in num.items():
            dep = tuple((a, e) for a, e in m if self._depends(a, bva.id))
            ind = tuple((a, e) for a, e in m if not self._depends(a, bva.id))
            groups.setdefault(dep, {})[ind] = c
        out = Rat({})
        for dep, indp in groups.items():
            val = self._int1(dep, fd, bva, hi)
            val = self.radd(val, self._int1(dep, fd, bva, lo), -1)
            out = self.radd(out, self.rmul(Rat(indp, dict(fi)), val))
        return out

    def _int1(self, dep, fd, bva, lim):
        """Formal antiderivative in the bound variable of (dep*Πfd) evaluated at lim."""
        isinf = lim.op == "fn" and lim.args[0] in ("inf", "ninf")
        # elementary powers are integrated exactly
        if not isinf and not fd and all(a == bva.id for a, _ in dep):
            e = dep[0][1] if dep else 0
            if e != -1:
                L = self.norm(lim)
                n = e + 1
                if not L.num and n > 0:
                    return Rat({})
                if isinstance(n, int):
                    return self.rscale(self.rpow(L, n), Fraction(1, 1) / n)
                return self.rscale(self.rpowfrac(L, n), 1 / Fraction(n))
        L = self.rconst(0) if isinf else self.norm(lim)
        key = ("anti", dep, tuple(sorted(fd.items())), bva.id, lim.args[0] if isinf else None)
        lst = self.index.setdefault(key, [])
        fp = self.rval(L)
        for fp2, L2, a in lst:
            if abs(fp - fp2) <= 1e-7 * (abs(fp) + abs(fp2)) + 1e-300 and self.req(L, L2):
                return self.ratom(a)
        unit = Rat({dep: F1}, dict(fd))
        a = self._new("anti", (unit, L, bva.id, lim.args[0] if isinf else None), f"anti[{len(self.atoms)}]")
        lst.append((fp, L, a))
        return self.ratom(a)


POSFN: set = set()


def _mono_key(m):
    return tuple(sorted(((-float(e), a) for a, e in m), key=lambda x: x[1])) , m


_FI: dict = {}


def _factorint(n):
    n = int(n)
    if n == 1:
        return {}
    if n in _FI:
        return _FI[n]
    out = {}
    m = n
    p = 2
    while p * p <= m and p < 20000:
        while m % p == 0:
            out[p] = out.get(p, 0) + 1
            m //= p
        p += 1 if p == 2 else 2
    if m > 1:
        out[m] = 1  # possibly composite: consistent enough for canonical use
    _FI[n] = out
    return out
