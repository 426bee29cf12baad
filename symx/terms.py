"""Symbolic real terms ``R`` and boolean terms ``B``.

Terms are hash-consed DAG nodes.  The real Python code of halomod runs on them by operator
overloading; every ``bool(B)`` is a path decision taken by the explorer (see explore.py).
"""
from __future__ import annotations

import math
from fractions import Fraction

import mpmath
import numpy as np


class Unsupported(BaseException):
    """The code did something the symbolic domain does not model.

    Derives from BaseException on purpose: code under test must not swallow it.
    """


# --------------------------------------------------------------------------- constants
_PI2 = [
    ("pi", 1), ("pi", 2), ("pi", -1), ("pi", -2), ("pi", 3),
    ("pi", Fraction(1, 2)), ("pi", Fraction(-1, 2)), ("pi", Fraction(3, 2)), ("pi", Fraction(-3, 2)),
]
_CONST = [(math.pi ** float(e), ("pi", e)) for _, e in _PI2]
for _n in (2, 3, 5, 6):
    _CONST.append((math.sqrt(_n), ("root", _n, Fraction(1, 2))))
_CONST.append((math.log(10), ("ln", 10, 1)))
_CONST.append((1 / math.log(10), ("ln", 10, -1)))
_CONST.append((math.log(2), ("ln", 2, 1)))
_CONST.append((math.sqrt(2 * math.pi), ("sq2pi", 1)))
_CONST.append((1 / math.sqrt(2 * math.pi), ("sq2pi", -1)))
_CONST.append((math.sqrt(2 / math.pi), ("sq2overpi", 1)))
_CONST.append((2 ** (1 / 3), ("root", 2, Fraction(1, 3))))
_CONST.append((10 ** 0.5, ("root", 10, Fraction(1, 2))))


def _simplest(f: float, ulps: float = 3.0):
    """Simplest fraction within a few ulp of f."""
    x = Fraction(f)
    tol = abs(x) * Fraction(int(ulps * 4), 4) / 2**52
    lo, hi = x - tol, x + tol
    if lo <= 0 <= hi:
        return Fraction(0)
    neg = hi < 0
    if neg:
        lo, hi = -hi, -lo

    def simp(lo, hi):
        fl = lo.numerator // lo.denominator
        if fl == lo:
            return Fraction(fl)
        if fl + 1 <= hi:
            return Fraction(fl + 1)
        return fl + 1 / simp(1 / (hi - fl), 1 / (lo - fl))

    r = simp(lo, hi)
    return -r if neg else r


def _bits(fr: Fraction):
    return fr.numerator.bit_length() + fr.denominator.bit_length()


_RAT_CACHE: dict = {}


def rationalise(f: float):
    """Return ('q', Fraction) or ('c', Fraction, spec): exact reading of a float constant."""
    if f in _RAT_CACHE:
        return _RAT_CACHE[f]
    out = _rationalise(f)
    _RAT_CACHE[f] = out
    return out


def _rationalise(f: float):
    if f == int(f) and abs(f) < 2**53:
        return ("q", Fraction(int(f)))
    r = _simplest(f)
    if _bits(r) <= 30:
        return ("q", r)
    if 1e-300 < abs(f) < 1e300:
        for val, spec in _CONST:
            s = _simplest(f / val, 4.0)
            if _bits(s) <= 24:
                return ("c", s, spec)
    s = repr(f)
    mant = s.split("e")[0].replace(".", "").replace("-", "").lstrip("0")
    if len(mant) <= 14:
        return ("q", Fraction(s))
    if _bits(r) <= 42:
        return ("q", r)
    return ("q", Fraction(f))


# --------------------------------------------------------------------------- terms
_TABLE: dict = {}
_COUNTER = [0]


def _mk(op, args):
    key = (op,) + tuple(a.id if isinstance(a, (R, B)) else a for a in args)
    t = _TABLE.get((op, key))
    if t is None:
        t = object.__new__(R)
        t.op = op
        t.args = tuple(args)
        _COUNTER[0] += 1
        t.id = _COUNTER[0]
        _TABLE[(op, key)] = t
    return t


def reset():
    _TABLE.clear()


class R:
    """A real-valued symbolic term."""

    __slots__ = ("op", "args", "id", "__weakref__")
    __array_priority__ = 1e6

    # numpy protocols are attached by shim.py (``__array_ufunc__``...)

    # attributes code expects from numpy scalars
    ndim = 0
    shape = ()
    size = 1
    dtype = np.dtype(object)

    def __hash__(self):
        return self.id

    @property
    def const(self):
        return self.args[0] if self.op == "c" else None

    # --- arithmetic
    def _bin(self, o, f, rev=False):
        if isinstance(o, np.ndarray):
            return NotImplemented
        try:
            o2 = lift(o)
        except TypeError:
            return NotImplemented
        if isinstance(o2, float):
            return f(o2, self) if rev else f(self, o2)
        return f(o2, self) if rev else f(self, o2)

    def __add__(self, o):
        return self._bin(o, add)

    def __radd__(self, o):
        return self._bin(o, add, True)

    def __sub__(self, o):
        return self._bin(o, sub)

    def __rsub__(self, o):
        return self._bin(o, sub, True)

    def __mul__(self, o):
        return self._bin(o, mul)

    def __rmul__(self, o):
        return self._bin(o, mul, True)

    def __truediv__(self, o):
        return self._bin(o, div)

    def __rtruediv__(self, o):
        return self._bin(o, div, True)

    def __pow__(self, o):
        return self._bin(o, power)

    def __rpow__(self, o):
        return self._bin(o, power, True)

    def __neg__(self):
        return mul(const(-1), self)

    def __pos__(self):
        return self

    def __abs__(self):
        return absval(self)

    def __floordiv__(self, o):
        return self._bin(o, floordiv)

    def __rfloordiv__(self, o):
        return self._bin(o, floordiv, True)

    def __mod__(self, o):
        return self._bin(o, mod)

    def __rmod__(self, o):
        return self._bin(o, mod, True)

    # --- comparison
    def __lt__(self, o):
        return self._bin(o, lambda a, b: cmp("lt", a, b))

    def __le__(self, o):
        return self._bin(o, lambda a, b: cmp("le", a, b))

    def __gt__(self, o):
        return self._bin(o, lambda a, b: cmp("lt", b, a))

    def __ge__(self, o):
        return self._bin(o, lambda a, b: cmp("le", b, a))

    def __eq__(self, o):
        if o is self:
            return True
        if o is None or isinstance(o, str):
            return False
        return self._bin(o, lambda a, b: cmp("eq", a, b))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return bnot(r)

    def __bool__(self):
        if self.op == "c":
            return self.args[0] != 0
        return bool(bnot(cmp("eq", self, const(0))))

    # --- conversions
    def __float__(self):
        if self.op == "c":
            return float(self.args[0])
        v = closed_value(self)
        if v is not None:
            return v
        raise Unsupported(f"float() of a symbolic value: {short(self)}")

    def __int__(self):
        if self.op == "c":
            return int(self.args[0])
        from . import explore

        return explore.concretise_int(self)

    def __index__(self):
        if self.op == "c" and self.args[0].denominator == 1:
            return int(self.args[0])
        from . import explore

        if is_int(self):
            return explore.concretise_int(self)
        raise Unsupported("index() of a symbolic value")

    def __complex__(self):
        raise Unsupported("complex() of a symbolic value")

    def __round__(self, n=None):
        raise Unsupported("round() of a symbolic value")

    def __floor__(self):
        return fn("floor", self)

    def __ceil__(self):
        return -fn("floor", -self)

    def __repr__(self):
        return short(self)

    __str__ = __repr__

    def __format__(self, spec):
        return short(self)

    # numpy scalar look-alikes
    def __getitem__(self, k):
        if k == () or k is Ellipsis:
            return self
        raise IndexError("invalid index to scalar variable.")

    def item(self):
        return self

    def tolist(self):
        return self

    def ravel(self, *a, **k):
        from . import shim

        return shim.mkarr([self])

    flatten = ravel

    def reshape(self, *s, **k):
        return self.ravel().reshape(*s)

    def copy(self):
        return self

    def astype(self, t, *a, **k):
        return astype(self, t)

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    def sum(self, *a, **k):
        return self

    def max(self, *a, **k):
        return self

    def min(self, *a, **k):
        return self

    def squeeze(self, *a, **k):
        return self

    def mean(self, *a, **k):
        return self

    @property
    def value(self):  # looks like a unitful quantity with trivial unit
        return self

    # elementwise methods numpy's object loops look for
    def sqrt(self):
        return power(self, const(Fraction(1, 2)))

    def exp(self):
        return fn("exp", self)

    def log(self):
        return fn("log", self)

    def log10(self):
        return div(fn("log", self), fn("log", const(10)))

    def log2(self):
        return div(fn("log", self), fn("log", const(2)))

    def log1p(self):
        return fn("log", add(const(1), self))

    def expm1(self):
        return sub(fn("exp", self), const(1))

    def sin(self):
        return fn("sin", self)

    def cos(self):
        return fn("cos", self)

    def tan(self):
        return div(fn("sin", self), fn("cos", self))

    def arctan(self):
        return fn("atan", self)

    def sinh(self):
        e = fn("exp", self)
        return div(sub(e, div(const(1), e)), const(2))

    def cosh(self):
        e = fn("exp", self)
        return div(add(e, div(const(1), e)), const(2))

    def tanh(self):
        return div(self.sinh(), self.cosh())

    def floor(self):
        return fn("floor", self)

    def ceil(self):
        return -fn("floor", -self)

    def conjugate(self):
        return self

    def square(self):
        return mul(self, self)

    def reciprocal(self):
        return div(const(1), self)


def closed_value(t):
    """Float value of a variable-free term (e.g. pi*4), else None."""
    if free_vars(t):
        return None
    try:
        return float(evalf(t, {}))
    except Exception:
        return None


def astype(x, t):
    dt = np.dtype(t)
    if dt.kind in "fO":
        return x
    if dt.kind in "iu":
        if is_int(x):
            return x
        return trunc(x)
    if dt.kind == "b":
        return bool(x)
    raise Unsupported(f"astype({dt})")


def trunc(x):
    x = lift(x)
    if x.op == "c":
        return const(int(x.args[0]))
    if bool(cmp("le", const(0), x)):
        return fn("floor", x)
    return -fn("floor", -x)


INTFN = {"floor"}


def is_int(t):
    if t.op == "c":
        return t.args[0].denominator == 1
    if t.op == "v":
        return t.args[1] == "int"
    if t.op in ("add", "mul"):
        return all(is_int(a) for a in t.args)
    if t.op == "fn":
        return t.args[0] in INTFN
    return False


def const(x):
    return _mk("c", (Fraction(x),))


def var(name, kind="real"):
    return _mk("v", (name, kind))


PI = None


def pi():
    return _mk("fn", ("pi",))


def _spec_term(q, spec):
    if spec[0] == "pi":
        t = power(pi(), const(spec[1]))
    elif spec[0] == "root":
        t = power(const(spec[1]), const(spec[2]))
    elif spec[0] == "ln":
        t = power(fn("log", const(spec[1])), const(spec[2]))
    elif spec[0] == "sq2pi":
        t = power(mul(const(2), pi()), const(Fraction(spec[1], 2)))
    elif spec[0] == "sq2overpi":
        t = power(div(const(2), pi()), const(Fraction(1, 2)))
    return mul(const(q), t)


def lift(x):
    """Python/numpy number -> R.  inf/nan come back as Python floats."""
    if isinstance(x, R):
        return x
    if isinstance(x, B):
        return const(1) if bool(x) else const(0)
    if isinstance(x, (bool, np.bool_)):
        return const(int(x))
    if isinstance(x, (int, np.integer)):
        return const(int(x))
    if isinstance(x, Fraction):
        return const(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isinf(x) or math.isnan(x):
            return x
        r = rationalise(x)
        if r[0] == "q":
            return const(r[1])
        return _spec_term(r[1], r[2])
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    if isinstance(x, complex):
        raise Unsupported("complex number")
    raise TypeError(f"cannot lift {type(x)}")


def _inf_guard(name, a, b):
    """Arithmetic where one operand is a float inf/nan."""
    av, bv = isinstance(a, float), isinstance(b, float)
    if (av and math.isnan(a)) or (bv and math.isnan(b)):
        return float("nan")
    if name == "add":
        if av and bv:
            return a + b
        return a if av else b
    if name == "sub":
        if av and bv:
            return a - b
        return a if av else -b
    if name in ("mul", "div"):
        if name == "div" and bv and not av:
            return const(0)
        inf, oth = (a, b) if av else (b, a)
        if isinstance(oth, float):
            return a * b if name == "mul" else float("nan")
        if bool(cmp("lt", const(0), oth)):
            return inf
        if bool(cmp("lt", oth, const(0))):
            return -inf
        return float("nan")
    raise Unsupported(f"{name} with inf")


def add(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return _inf_guard("add", a, b)
    if a.op == "c" and b.op == "c":
        return const(a.args[0] + b.args[0])
    if a.op == "c" and a.args[0] == 0:
        return b
    if b.op == "c" and b.args[0] == 0:
        return a
    if b.op == "c":
        a, b = b, a
    return _mk("add", (a, b))


def sub(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return _inf_guard("sub", a, b)
    return add(a, mul(const(-1), b))


def mul(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return _inf_guard("mul", a, b)
    if a.op == "c" and b.op == "c":
        return const(a.args[0] * b.args[0])
    if b.op == "c":
        a, b = b, a
    if a.op == "c":
        if a.args[0] == 0:
            return a
        if a.args[0] == 1:
            return b
        if b.op == "mul" and b.args[0].op == "c":
            return mul(const(a.args[0] * b.args[0].args[0]), b.args[1])
    return _mk("mul", (a, b))


class DomainError(Unsupported):
    pass


def div(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return _inf_guard("div", a, b)
    if b.op == "c":
        if b.args[0] == 0:
            # IEEE semantics: x/0
            if a.op == "c" and a.args[0] == 0:
                return float("nan")
            if bool(cmp("lt", const(0), a)):
                return float("inf")
            if bool(cmp("lt", a, const(0))):
                return float("-inf")
            return float("nan")
        return mul(a, const(1 / b.args[0]))
    return mul(a, power(b, const(-1)))


def power(a, b):
    if isinstance(a, float) or isinstance(b, float):
        raise Unsupported("power with inf/nan")
    if b.op == "c":
        e = b.args[0]
        if e == 0:
            return const(1)
        if e == 1:
            return a
        if a.op == "c":
            v = a.args[0]
            if v == 1:
                return a
            if v == 0:
                if e > 0:
                    return a
                return float("inf")
            if e.denominator == 1 and abs(e) < 200:
                return const(v ** int(e))
            # exact roots
            if v > 0:
                n, d = v.numerator, v.denominator
                L = e.denominator
                rn, rd = _iroot(n, L), _iroot(d, L)
                if rn is not None and rd is not None:
                    return const(Fraction(rn, rd) ** int(e.numerator))
            else:
                raise Unsupported("fractional power of a negative constant")
        if a.op == "pow" and a.args[1].op == "c" and e.denominator == 1:
            # (x^p)^n = x^(pn) for integer n
            return power(a.args[0], const(a.args[1].args[0] * e))
    elif a.op == "c" and a.args[0] == 1:
        return a
    elif a.op == "fn" and a.args[0] == "exp" and a.args[1] is const(1):
        return fn("exp", b)
    return _mk("pow", (a, b))


def _iroot(n, L):
    if n == 0:
        return 0
    r = round(n ** (1.0 / L)) if n < 10**15 else int(mpmath.nint(mpmath.root(n, L)))
    for k in (r - 1, r, r + 1):
        if k >= 0 and k**L == n:
            return k
    return None


ODD = {"sin", "atan", "si", "erf", "asin"}
EVEN = {"cos", "ci", "abs"}


def fn(name, *args):
    args = [lift(a) for a in args]
    if any(isinstance(a, float) for a in args):
        a = args[0]
        if name == "exp":
            return const(0) if a < 0 else a
        if name == "erf":
            return const(1 if a > 0 else -1)
        if name == "log" and a > 0:
            return a
        raise Unsupported(f"{name} of inf/nan")
    if all(a.op == "c" for a in args):
        v = args[0].args[0]
        if name == "exp" and v == 0:
            return const(1)
        if name == "log":
            if v == 1:
                return const(0)
            if v == 0:
                return float("-inf")
            if v < 0:
                return float("nan")
        if name in ODD and v == 0:
            return const(0)
        if name == "cos" and v == 0:
            return const(1)
        if name == "ci" and v == 0:
            return float("-inf")
        if name == "erfc" and v == 0:
            return const(1)
        if name == "floor":
            return const(v.numerator // v.denominator)
        if name == "gamma" and v.denominator == 1 and v > 0 and v < 30:
            return const(math.factorial(int(v) - 1))
    if name == "floor" and is_int(args[0]):
        return args[0]
    if name == "gammainc" and args[1].op == "c" and args[1].args[0] == 0:
        return const(0)
    if name == "gammaincc" and args[1].op == "c" and args[1].args[0] == 0:
        return const(1)
    return _mk("fn", (name, *args))


def absval(a):
    a = lift(a)
    if isinstance(a, float):
        return abs(a)
    if a.op == "c":
        return const(abs(a.args[0]))
    if bool(cmp("le", const(0), a)):
        return a
    return -a


def floordiv(a, b):
    q = div(a, b)
    if isinstance(q, float):
        return q
    return fn("floor", q)


def mod(a, b):
    if isinstance(b, float):
        raise Unsupported("mod inf")
    return sub(a, mul(b, fn("floor", div(a, b))))


# integral terms: ∫_{lo}^{hi} body d(bv)
_BV = [0]


def fresh_bv():
    _BV[0] += 1
    return var(f"_t{_BV[0]}")


def integral(bv, body, lo, hi):
    lo, hi = lift(lo), lift(hi)
    body = lift(body)
    if isinstance(lo, R) and isinstance(hi, R) and lo is hi:
        return const(0)
    # canonical bound variable: makes identical integrands hash-cons together
    cname = var("_bv%d" % _depth(body))
    if bv is not cname:
        body = subst(body, {bv: cname})
    return _mk("int", (cname, body, _inft(lo), _inft(hi)))


def _inft(x):
    if isinstance(x, float):
        return _mk("fn", ("inf",)) if x > 0 else _mk("fn", ("ninf",))
    return x


def _depth(t, memo=None):
    memo = {} if memo is None else memo
    if t.id in memo:
        return memo[t.id]
    d = 0
    for a in t.args:
        if isinstance(a, R):
            d = max(d, _depth(a, memo))
    if t.op == "int":
        d += 1
    memo[t.id] = d
    return d


# --------------------------------------------------------------------------- booleans
class B:
    __slots__ = ("op", "args", "id")
    __array_priority__ = 1e6
    ndim = 0
    shape = ()
    size = 1

    def __bool__(self):
        from . import explore

        return explore.decide(self)

    def __and__(self, o):
        return band(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return bor(self, o)

    __ror__ = __or__

    def __invert__(self):
        return bnot(self)

    def __hash__(self):
        return hash((self.op,) + tuple(getattr(a, "id", a) for a in self.args))

    def __eq__(self, o):
        if isinstance(o, B) and o is self:
            return True
        return bool(self) == bool(o)

    def any(self, *a, **k):
        return bool(self)

    def all(self, *a, **k):
        return bool(self)

    def __repr__(self):
        return bshort(self)

    # arithmetic on truth values
    def __mul__(self, o):
        return lift(int(bool(self))) * o

    __rmul__ = __mul__

    def __add__(self, o):
        return lift(int(bool(self))) + o

    __radd__ = __add__

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))


def _mkb(op, *args):
    b = object.__new__(B)
    b.op = op
    b.args = args
    b.id = (op,) + tuple(getattr(a, "id", a) for a in args)
    return b


def cmp(op, a, b):
    if isinstance(a, float) or isinstance(b, float):
        fa = a if isinstance(a, float) else 0.0
        fb = b if isinstance(b, float) else 0.0
        if op == "lt":
            return fa < fb
        if op == "le":
            return fa <= fb
        return fa == fb if (isinstance(a, float) and isinstance(b, float)) else False
    if a.op == "c" and b.op == "c":
        x, y = a.args[0], b.args[0]
        return {"lt": x < y, "le": x <= y, "eq": x == y}[op]
    if a is b:
        return op != "lt"
    return _mkb(op, a, b)


def bnot(b):
    if isinstance(b, (bool, np.bool_)):
        return not b
    if b.op == "lt":
        return _mkb("le", b.args[1], b.args[0])
    if b.op == "le":
        return _mkb("lt", b.args[1], b.args[0])
    if b.op == "not":
        return b.args[0]
    return _mkb("not", b)


def band(*bs):
    out = []
    for b in bs:
        if isinstance(b, (bool, np.bool_)):
            if not b:
                return False
        else:
            out.append(b)
    if not out:
        return True
    return out[0] if len(out) == 1 else _mkb("and", *out)


def bor(*bs):
    out = []
    for b in bs:
        if isinstance(b, (bool, np.bool_)):
            if b:
                return True
        else:
            out.append(b)
    if not out:
        return False
    return out[0] if len(out) == 1 else _mkb("or", *out)


# --------------------------------------------------------------------------- utilities
def free_vars(t, memo=None):
    memo = {} if memo is None else memo
    if isinstance(t, (bool, float, np.bool_)):
        return frozenset()
    key = t.id
    if key in memo:
        return memo[key]
    if isinstance(t, R) and t.op == "v":
        s = frozenset([t])
    else:
        s = frozenset()
        for a in t.args:
            if isinstance(a, (R, B)):
                s |= free_vars(a, memo)
        if isinstance(t, R) and t.op == "int":
            s = (free_vars(t.args[1], memo) - {t.args[0]}) | free_vars(t.args[2], memo) | free_vars(t.args[3], memo)
    memo[key] = s
    return s


def subst(t, mp, memo=None):
    memo = {} if memo is None else memo
    if isinstance(t, (bool, float)):
        return t
    if t in mp:
        return mp[t]
    if t.id in memo:
        return memo[t.id]
    if isinstance(t, B):
        args = [subst(a, mp, memo) if isinstance(a, (R, B)) else a for a in t.args]
        if t.op in ("lt", "le", "eq"):
            r = cmp(t.op, *args)
        elif t.op == "not":
            r = bnot(args[0])
        elif t.op == "and":
            r = band(*args)
        else:
            r = bor(*args)
    elif t.op in ("c", "v"):
        r = t
    elif t.op == "add":
        r = add(subst(t.args[0], mp, memo), subst(t.args[1], mp, memo))
    elif t.op == "mul":
        r = mul(subst(t.args[0], mp, memo), subst(t.args[1], mp, memo))
    elif t.op == "pow":
        r = power(subst(t.args[0], mp, memo), subst(t.args[1], mp, memo))
    elif t.op == "fn":
        if len(t.args) == 1:
            r = t
        else:
            r = fn(t.args[0], *[subst(a, mp, memo) for a in t.args[1:]])
    elif t.op == "int":
        bv, body, lo, hi = t.args
        r = integral(bv, subst(body, {k: v for k, v in mp.items() if k is not bv}), subst(lo, mp, memo), subst(hi, mp, memo))
    else:
        raise Unsupported(f"subst {t.op}")
    memo[t.id] = r
    return r


# UF derivative registry: name -> list of partial derivative builders
DERIV: dict = {}
UF_EVAL: dict = {}  # name -> python callable for numeric evaluation


def diff(t, v, memo=None):
    """d t / d v, symbolic."""
    memo = {} if memo is None else memo
    if isinstance(t, (int, float)):
        return const(0)
    if t.id in memo:
        return memo[t.id]
    if v not in free_vars(t):
        r = const(0)
    elif t is v:
        r = const(1)
    elif t.op == "add":
        r = add(diff(t.args[0], v, memo), diff(t.args[1], v, memo))
    elif t.op == "mul":
        a, b = t.args
        r = add(mul(diff(a, v, memo), b), mul(a, diff(b, v, memo)))
    elif t.op == "pow":
        a, e = t.args
        if e.op == "c":
            r = mul(mul(e, power(a, const(e.args[0] - 1))), diff(a, v, memo))
        else:
            # a^e (e' log a + e a'/a)
            r = mul(t, add(mul(diff(e, v, memo), fn("log", a)), mul(e, div(diff(a, v, memo), a))))
    elif t.op == "fn":
        name, args = t.args[0], t.args[1:]
        r = const(0)
        for i, a in enumerate(args):
            da = diff(a, v, memo)
            if da.op == "c" and da.args[0] == 0:
                continue
            r = add(r, mul(_dfn(name, args, i), da))
    elif t.op == "int":
        bv, body, lo, hi = t.args
        r = integral(bv, diff(body, v), lo, hi)
        for lim, sgn in ((hi, 1), (lo, -1)):
            dl = diff(lim, v, memo)
            if not (dl.op == "c" and dl.args[0] == 0):
                r = add(r, mul(mul(const(sgn), subst(body, {bv: lim})), dl))
    else:
        raise Unsupported(f"diff {t.op}")
    memo[t.id] = r
    return r


def _dfn(name, args, i):
    a = args[0]
    if name == "exp":
        return fn("exp", a)
    if name == "log":
        return power(a, const(-1))
    if name == "sin":
        return fn("cos", a)
    if name == "cos":
        return -fn("sin", a)
    if name == "atan":
        return power(add(const(1), mul(a, a)), const(-1))
    if name == "si":
        return div(fn("sin", a), a)
    if name == "ci":
        return div(fn("cos", a), a)
    if name == "erf":
        return mul(mul(const(2), power(pi(), const(Fraction(-1, 2)))), fn("exp", -(a * a)))
    if name == "erfc":
        return -mul(mul(const(2), power(pi(), const(Fraction(-1, 2)))), fn("exp", -(a * a)))
    if name == "gammainc" and i == 1:
        s, x = args
        return mul(mul(power(x, sub(s, const(1))), fn("exp", -x)), power(fn("gamma", s), const(-1)))
    if name == "gammaincc" and i == 1:
        s, x = args
        return -mul(mul(power(x, sub(s, const(1))), fn("exp", -x)), power(fn("gamma", s), const(-1)))
    if name in DERIV:
        return DERIV[name](args, i)
    raise Unsupported(f"derivative of {name} in argument {i}")


def short(t, depth=6):
    if isinstance(t, (float, bool, int)):
        return str(t)
    if isinstance(t, B):
        return bshort(t)
    if t.op == "c":
        f = t.args[0]
        return str(f) if _bits(f) < 40 else repr(float(f))
    if t.op == "v":
        return t.args[0]
    if depth == 0:
        return "…"
    if t.op == "add":
        return "(" + " + ".join(short(a, depth - 1) for a in t.args) + ")"
    if t.op == "mul":
        return "*".join(short(a, depth - 1) for a in t.args)
    if t.op == "pow":
        return f"{short(t.args[0], depth - 1)}^({short(t.args[1], depth - 1)})"
    if t.op == "fn":
        return t.args[0] + ("(" + ",".join(short(a, depth - 1) for a in t.args[1:]) + ")" if len(t.args) > 1 else "")
    if t.op == "int":
        return f"∫[{short(t.args[2], depth-1)},{short(t.args[3], depth-1)}]{short(t.args[1], depth-1)}"
    return t.op


def bshort(b, depth=4):
    if isinstance(b, (bool, np.bool_)):
        return str(bool(b))
    s = {"lt": "<", "le": "<=", "eq": "=="}
    if b.op in s:
        return f"{short(b.args[0], depth)} {s[b.op]} {short(b.args[1], depth)}"
    if b.op == "not":
        return f"!({bshort(b.args[0])})"
    return "(" + f" {b.op} ".join(bshort(a) for a in b.args) + ")"


# --------------------------------------------------------------------------- numeric evaluation
def _mp_fn(name, vals):
    m = mpmath
    if name == "pi":
        return +m.pi
    if name == "inf":
        return m.inf
    if name == "ninf":
        return -m.inf
    if name == "exp":
        return m.exp(vals[0])
    if name == "log":
        return m.log(vals[0])
    if name == "sin":
        return m.sin(vals[0])
    if name == "cos":
        return m.cos(vals[0])
    if name in ("sinh+", "cosh+", "tanh+"):
        return getattr(m, name[:-1])(vals[0])
    if name == "atan":
        return m.atan(vals[0])
    if name == "asin":
        return m.asin(vals[0])
    if name == "si":
        return m.si(vals[0])
    if name == "ci":
        return m.ci(abs(vals[0]))
    if name == "erf":
        return m.erf(vals[0])
    if name == "erfc":
        return m.erfc(vals[0])
    if name == "gamma":
        return m.gamma(vals[0])
    if name == "gammainc":
        return m.gammainc(vals[0], 0, vals[1], regularized=True)
    if name == "gammaincc":
        return m.gammainc(vals[0], vals[1], m.inf, regularized=True)
    if name == "floor":
        return m.floor(vals[0])
    if name == "besselj":
        return m.besselj(vals[0], vals[1])
    if name in UF_EVAL:
        return m.mpf(UF_EVAL[name](*vals))
    raise Unsupported(f"no numeric meaning for {name}")


def evalf(t, env, memo=None):
    """Numeric value (mpmath) of a term under env: name -> number."""
    memo = {} if memo is None else memo
    if isinstance(t, (int, float)):
        return mpmath.mpf(t)
    if t.id in memo:
        return memo[t.id]
    if t.op == "c":
        r = mpmath.mpf(t.args[0].numerator) / t.args[0].denominator
    elif t.op == "v":
        x = env[t.args[0]]
        r = mpmath.mpf(x.numerator) / x.denominator if isinstance(x, Fraction) else mpmath.mpf(x)
    elif t.op == "add":
        r = evalf(t.args[0], env, memo) + evalf(t.args[1], env, memo)
    elif t.op == "mul":
        r = evalf(t.args[0], env, memo) * evalf(t.args[1], env, memo)
    elif t.op == "pow":
        a, b = evalf(t.args[0], env, memo), evalf(t.args[1], env, memo)
        r = mpmath.power(a, b)
    elif t.op == "fn":
        r = _mp_fn(t.args[0], [evalf(a, env, memo) for a in t.args[1:]])
    elif t.op == "int":
        bv, body, lo, hi = t.args
        lo, hi = evalf(lo, env, memo), evalf(hi, env, memo)
        with mpmath.workdps(15):
            r = mpmath.quad(lambda x: evalf(body, {**env, bv.args[0]: x}), [lo, hi])
    else:
        raise Unsupported(f"evalf {t.op}")
    memo[t.id] = r
    return r


def evalb(b, env, memo=None):
    memo = {} if memo is None else memo
    if isinstance(b, (bool, np.bool_)):
        return bool(b)
    if b.op in ("lt", "le", "eq"):
        x, y = evalf(b.args[0], env, memo), evalf(b.args[1], env, memo)
        return bool({"lt": x < y, "le": x <= y, "eq": mpmath.almosteq(x, y, 1e-20, 1e-20)}[b.op])
    if b.op == "not":
        return not evalb(b.args[0], env, memo)
    if b.op == "and":
        return all(evalb(a, env, memo) for a in b.args)
    return any(evalb(a, env, memo) for a in b.args)


def cancel(t, memo=None):
    """Rewrite products so that equal factors cancel: a * b^-1 * a^-1 -> b^-1 (a, b non-zero)."""
    memo = {} if memo is None else memo
    if not isinstance(t, R) or t.op in ("c", "v", "fn", "int"):
        return t
    if t.id in memo:
        return memo[t.id]
    if t.op == "add":
        fa, fb = {}, {}
        pa, pb = _prodform(cancel(t.args[0], memo), 1, fa), _prodform(cancel(t.args[1], memo), 1, fb)
        # common factors out of a two-term sum
        com = {b: e for b, e in fa.items() if fb.get(b) == e and e < 0}
        r = add(_rebuild(pa, {b: e for b, e in fa.items() if b not in com}), _rebuild(pb, {b: e for b, e in fb.items() if b not in com}))
        if com:
            r = mul(r, _rebuild(Fraction(1), com))
    else:
        f = {}
        c = _prodform(t, 1, f, memo)
        r = _rebuild(c, f)
    memo[t.id] = r
    return r


def _prodform(t, e, f, memo=None):
    """Multiply t**e into the factor table f; returns the rational constant."""
    if t.op == "c" and (e == 1 or (isinstance(e, int) or e.denominator == 1)):
        return t.args[0] ** int(e)
    if t.op == "mul":
        return _prodform(t.args[0], e, f, memo) * _prodform(t.args[1], e, f, memo)
    if t.op == "pow" and t.args[1].op == "c" and t.args[1].args[0].denominator == 1:
        return _prodform(t.args[0], e * t.args[1].args[0], f, memo)
    if t.op == "add" and memo is not None:
        t2 = cancel(t, memo)
        if t2 is not t:
            return _prodform(t2, e, f, memo)
    f[t] = f.get(t, 0) + e
    if not f[t]:
        del f[t]
    return Fraction(1)


def _rebuild(c, f):
    r = const(c)
    for b, e in sorted(f.items(), key=lambda kv: kv[0].id):
        r = mul(r, power(b, const(e)))
    return r
