"""numpy/scipy on symbolic terms.

``SymArray`` is an object-dtype ndarray whose ufuncs act elementwise on terms.  ``patched()``
replaces, for the duration of one symbolic run, the numpy / scipy / numba objects referenced by the
halomod modules by look-alikes that fall back to the originals on concrete arguments.
"""
from __future__ import annotations

import contextlib
import functools
import math
import sys
import types
from fractions import Fraction

import numpy as np
import scipy
import scipy.integrate
import scipy.interpolate
import scipy.special as sps

from . import explore
from . import terms as T
from .terms import B, R, Unsupported, const, lift

GRID_CAP = [9]  # linspace/logspace/arange grids longer than this are thinned (a stated bound)
THINNED: set = set()


# --------------------------------------------------------------------------- arrays
class SymArray(np.ndarray):
    __array_priority__ = 1e7

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        return do_ufunc(ufunc, method, inputs, out, kw)

    def __array_function__(self, func, types_, args, kwargs):
        return do_function(func, args, kwargs)

    def __array_finalize__(self, obj):
        pass

    def astype(self, dtype, *a, **k):
        dt = np.dtype(dtype)
        if dt.kind in "fO":
            return self.copy()
        if dt.kind == "b":
            return np.array([bool(x) for x in self.ravel()], dtype=bool).reshape(self.shape)
        if dt.kind in "iu":
            return mkarr([T.astype(lift(x), dt) for x in self.ravel()]).reshape(self.shape)
        raise Unsupported(f"astype {dt}")

    def __getitem__(self, k):
        r = np.ndarray.__getitem__(self, _idx(k))
        return r

    def __setitem__(self, k, v):
        if isinstance(v, np.ndarray) and v.dtype != object:
            v = v.astype(object)
        np.ndarray.__setitem__(self, _idx(k), v)

    # reductions go through do_ufunc
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return do_ufunc(np.add, "reduce", (self,), None, {"axis": axis, "keepdims": keepdims})

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return do_ufunc(np.multiply, "reduce", (self,), None, {"axis": axis, "keepdims": keepdims})

    def max(self, axis=None, out=None, keepdims=False, **kw):
        return do_ufunc(np.maximum, "reduce", (self,), None, {"axis": axis, "keepdims": keepdims})

    def min(self, axis=None, out=None, keepdims=False, **kw):
        return do_ufunc(np.minimum, "reduce", (self,), None, {"axis": axis, "keepdims": keepdims})

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        n = self.size if axis is None else self.shape[axis]
        return self.sum(axis=axis, keepdims=keepdims) / n

    def cumsum(self, axis=None, *a, **k):
        x = self.ravel() if axis is None else self
        return np.add.accumulate(np.asarray(x, dtype=object), axis=axis or 0).view(SymArray)

    def any(self, axis=None, *a, **k):
        return self.astype(bool).any(axis)

    def all(self, axis=None, *a, **k):
        return self.astype(bool).all(axis)

    def __contains__(self, x):
        return any(bool(lift(y) == x) for y in self.ravel())

    @property
    def real(self):
        return self

    @property
    def value(self):
        return self


def _idx(k):
    if isinstance(k, tuple):
        return tuple(_idx(x) for x in k)
    if isinstance(k, SymArray):
        els = [x for x in k.ravel()]
        if all(isinstance(x, (bool, np.bool_, B)) for x in els):
            return np.array([bool(x) for x in els], dtype=bool).reshape(k.shape)
        return np.array([int(x) for x in els], dtype=int).reshape(k.shape)
    if isinstance(k, B):
        return bool(k)
    if isinstance(k, R):
        return int(k)
    return k


def mkarr(items):
    """SymArray from nested lists/arrays of terms and numbers."""
    a = np.array(items, dtype=object) if not isinstance(items, np.ndarray) else items.astype(object)
    out = np.empty(a.shape, dtype=object)
    of, af = out.ravel(), a.ravel()
    for i, x in enumerate(af):
        of[i] = lift(x)
    return of.reshape(a.shape).view(SymArray)


def is_sym(x):
    if isinstance(x, (R, B, SymArray)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(is_sym(y) for y in x)
    return False


def _obj(x):
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if isinstance(x, np.ndarray):
        return x.astype(object) if x.dtype != object else x
    if isinstance(x, (list, tuple)):
        return np.asarray(mkarr(x)).view(np.ndarray)
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def wrap(r):
    if isinstance(r, np.ndarray):
        if r.dtype == object:
            if r.ndim == 0:
                return r[()] if not isinstance(r[()], np.ndarray) else wrap(r[()])
            return r.view(SymArray)
        return r
    if isinstance(r, tuple):
        return tuple(wrap(x) for x in r)
    if isinstance(r, list):
        return [wrap(x) for x in r]
    return r


# --------------------------------------------------------------------------- scalar operations
def L1(f):
    return lambda a: f(lift(a))


def _fl(f, g):
    """f on terms, g on non-finite floats."""

    def h(a):
        a = lift(a)
        if isinstance(a, float):
            return g(a)
        return f(a)

    return h


def s_sqrt(a):
    a = lift(a)
    return T.power(a, const(Fraction(1, 2))) if not isinstance(a, float) else a


def s_pow(a, b):
    return T.power(lift(a), lift(b))


def s_max(a, b):
    a, b = lift(a), lift(b)
    return a if bool(T.cmp("le", b, a)) else b


def s_min(a, b):
    a, b = lift(a), lift(b)
    return a if bool(T.cmp("le", a, b)) else b


def s_sign(a):
    a = lift(a)
    if bool(T.cmp("lt", const(0), a)):
        return const(1)
    if bool(T.cmp("lt", a, const(0))):
        return const(-1)
    return const(0)


def s_sici(x):
    return T.fn("si", x), T.fn("ci", x)


def _log10(a):
    a = lift(a)
    if isinstance(a, float):
        return a
    v = T.fn("log", a)
    return v if isinstance(v, float) else T.div(v, T.fn("log", 10))


def _nan(a):
    return isinstance(a, float) and math.isnan(a)


def _fin(a):
    return not (isinstance(a, float) and (math.isnan(a) or math.isinf(a)))


def _cmp(op, sw=False):
    def f(a, b):
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            return (a == b)
        a, b = lift(a), lift(b)
        r = T.cmp(op, b, a) if sw else T.cmp(op, a, b)
        return bool(r)

    return f


def _expm(a):
    r = T.fn("exp", a)
    return r


def _gammaln(a):
    return T.fn("log", T.fn("gamma", a))


def _expit(a):
    a = lift(a)
    return T.div(const(1), const(1) + T.fn("exp", -a))


def _heaviside(a, h):
    a = lift(a)
    if bool(T.cmp("lt", const(0), a)):
        return const(1)
    if bool(T.cmp("lt", a, const(0))):
        return const(0)
    return lift(h)


def _ndtr(x):
    x = lift(x)
    return T.mul(const(Fraction(1, 2)), T.const(1) + T.fn("erf", T.div(x, s_sqrt(2))))


UF: dict = {
    np.add: lambda a, b: T.add(lift(a), lift(b)),
    np.subtract: lambda a, b: T.sub(lift(a), lift(b)),
    np.multiply: lambda a, b: T.mul(lift(a), lift(b)),
    np.divide: lambda a, b: T.div(lift(a), lift(b)),
    np.power: s_pow,
    np.float_power: s_pow,
    np.negative: lambda a: T.mul(const(-1), lift(a)),
    np.positive: lambda a: lift(a),
    np.absolute: T.absval,
    np.fabs: T.absval,
    np.sqrt: s_sqrt,
    np.cbrt: lambda a: T.power(lift(a), const(Fraction(1, 3))),
    np.square: lambda a: T.mul(lift(a), lift(a)),
    np.reciprocal: lambda a: T.div(const(1), lift(a)),
    np.exp: _expm,
    np.exp2: lambda a: T.power(const(2), lift(a)),
    np.log: lambda a: T.fn("log", a),
    np.log10: _log10,
    np.log2: lambda a: T.div(T.fn("log", a), T.fn("log", 2)),
    np.log1p: lambda a: T.fn("log", T.add(const(1), lift(a))),
    np.expm1: lambda a: T.sub(T.fn("exp", a), const(1)),
    np.sin: lambda a: T.fn("sin", a),
    np.cos: lambda a: T.fn("cos", a),
    np.tan: lambda a: lift(a).tan(),
    np.arctan: lambda a: T.fn("atan", a),
    np.arcsin: lambda a: T.fn("asin", a),
    np.arccos: lambda a: T.sub(T.mul(T.pi(), const(Fraction(1, 2))), T.fn("asin", a)),
    np.sinh: lambda a: T.fn("sinh+", a) if HYP[0] else lift(a).sinh(),
    np.cosh: lambda a: T.fn("cosh+", a) if HYP[0] else lift(a).cosh(),
    np.tanh: lambda a: T.fn("tanh+", a) if HYP[0] else lift(a).tanh(),
    np.floor: lambda a: T.fn("floor", a),
    np.ceil: lambda a: -T.fn("floor", -lift(a)),
    np.trunc: lambda a: T.trunc(a),
    np.rint: lambda a: T.fn("floor", lift(a) + const(Fraction(1, 2))),
    np.floor_divide: lambda a, b: T.floordiv(lift(a), lift(b)),
    np.remainder: lambda a, b: T.mod(lift(a), lift(b)),
    np.maximum: s_max,
    np.minimum: s_min,
    np.fmax: s_max,
    np.fmin: s_min,
    np.sign: s_sign,
    np.hypot: lambda a, b: s_sqrt(lift(a) * lift(a) + lift(b) * lift(b)),
    np.conjugate: lambda a: lift(a),
    np.deg2rad: lambda a: lift(a) * T.pi() / 180,
    np.radians: lambda a: lift(a) * T.pi() / 180,
    np.rad2deg: lambda a: lift(a) * 180 / T.pi(),
    np.degrees: lambda a: lift(a) * 180 / T.pi(),
    np.logaddexp: lambda a, b: T.fn("log", T.fn("exp", a) + T.fn("exp", b)),
    np.heaviside: _heaviside,
    np.copysign: lambda a, b: T.absval(a) * s_sign(b),
    sps.sici: s_sici,
    sps.erf: lambda a: T.fn("erf", a),
    sps.erfc: lambda a: T.fn("erfc", a),
    sps.gamma: lambda a: T.fn("gamma", a),
    sps.gammaln: _gammaln,
    sps.loggamma: _gammaln,
    sps.gammainc: lambda a, x: T.fn("gammainc", a, x),
    sps.gammaincc: lambda a, x: T.fn("gammaincc", a, x),
    sps.expit: _expit,
    sps.ndtr: _ndtr,
    sps.cbrt: lambda a: T.power(lift(a), const(Fraction(1, 3))),
    sps.exp10: lambda a: T.power(const(10), lift(a)),
    sps.exp2: lambda a: T.power(const(2), lift(a)),
    sps.expm1: lambda a: T.sub(T.fn("exp", a), const(1)),
    sps.log1p: lambda a: T.fn("log", T.add(const(1), lift(a))),
    sps.xlogy: lambda a, b: lift(a) * T.fn("log", b),
    sps.jv: lambda n, x: T.fn("besselj", n, x),
    sps.hyp2f1: lambda a, b, c, x: T.fn("hyp2f1", a, b, c, x),
    sps.beta: lambda a, b: T.fn("gamma", a) * T.fn("gamma", b) / T.fn("gamma", lift(a) + lift(b)),
    sps.j0: lambda x: T.fn("besselj", 0, x),
    sps.j1: lambda x: T.fn("besselj", 1, x),
}
_clip = getattr(np._core.umath, "clip", None) if hasattr(np, "_core") else None
if _clip is not None:
    UF[_clip] = lambda a, lo, hi: s_min(s_max(a, lo), hi)
BOOLUF = {
    np.less: _cmp("lt"),
    np.less_equal: _cmp("le"),
    np.greater: _cmp("lt", True),
    np.greater_equal: _cmp("le", True),
    np.equal: _cmp("eq"),
    np.not_equal: lambda a, b: not _cmp("eq")(a, b),
    np.isnan: _nan,
    np.isfinite: _fin,
    np.isinf: lambda a: isinstance(a, float) and math.isinf(a),
    np.signbit: lambda a: bool(T.cmp("lt", lift(a), const(0))),
    np.logical_and: lambda a, b: bool(a) and bool(b),
    np.logical_or: lambda a, b: bool(a) or bool(b),
    np.logical_not: lambda a: not bool(a),
    np.logical_xor: lambda a, b: bool(a) != bool(b),
    np.bitwise_and: lambda a, b: bool(a) and bool(b),
    np.bitwise_or: lambda a, b: bool(a) or bool(b),
    np.invert: lambda a: not bool(a),
}


def do_ufunc(ufunc, method, inputs, out, kw):
    boolean = ufunc in BOOLUF
    f = BOOLUF.get(ufunc) or UF.get(ufunc)
    if f is None:
        if ufunc in (np.matmul,):
            return wrap(np.dot(_obj(inputs[0]), _obj(inputs[1])))
        raise Unsupported(f"ufunc {ufunc.__name__}")
    where = kw.pop("where", True)
    kw.pop("dtype", None)
    kw.pop("casting", None)
    kw.pop("order", None)
    kw.pop("subok", None)
    nout = 2 if ufunc is sps.sici else 1
    if method == "__call__":
        ins = [_obj(x) for x in inputs]
        if where is True or where is np._NoValue:
            pf = np.frompyfunc(f, len(ins), nout)
            res = pf(*ins)
        else:
            w = np.asarray(where)
            if w.dtype == object:
                w = w.astype(bool)
            bc = np.broadcast_arrays(*ins, w)
            res = np.empty(bc[0].shape, dtype=object)
            o = None
            if out is not None and out[0] is not None:
                o = _obj(out[0])
            for ix in np.ndindex(*bc[0].shape):
                if bc[-1][ix]:
                    res[ix] = f(*[b[ix] for b in bc[:-1]])
                else:
                    res[ix] = o[ix] if o is not None else float("nan")
    elif method == "outer":
        a, b = [_obj(x) for x in inputs]
        res = np.frompyfunc(f, 2, 1).outer(a, b)
    elif method == "reduce":
        a = _obj(inputs[0])
        axis = kw.get("axis", 0)
        keep = kw.get("keepdims", False)
        init = kw.get("initial", np._NoValue)
        if where is not True and where is not np._NoValue:
            raise Unsupported("reduce with where")
        if ufunc in (np.add, np.multiply, np.maximum, np.minimum, np.fmax, np.fmin, np.logical_and, np.logical_or):
            ident = {np.add: const(0), np.multiply: const(1), np.logical_and: True, np.logical_or: False}.get(ufunc)
            if init is not np._NoValue and init is not None:
                ident = lift(init)
            res = _reduce(f, a, axis, bool(keep), ident, ufunc)
        else:
            raise Unsupported(f"{ufunc.__name__}.reduce")
    elif method == "accumulate":
        res = np.frompyfunc(f, 2, 1).accumulate(_obj(inputs[0]), axis=kw.get("axis", 0), dtype=object)
    elif method == "at":
        a = inputs[0]
        if not isinstance(a, SymArray):
            raise Unsupported("ufunc.at on a concrete array")
        idx = np.atleast_1d(_idx(inputs[1]))
        vals = _obj(inputs[2]) if len(inputs) > 2 else None
        if vals is not None:
            vals = np.broadcast_to(vals, idx.shape)
        for n, i in enumerate(idx):
            a[i] = f(a[i], vals[n]) if vals is not None else f(a[i])
        return None
    elif method == "reduceat":
        a = _obj(inputs[0])
        idx = list(np.asarray(inputs[1]))
        outl = []
        for n, i in enumerate(idx):
            j = idx[n + 1] if n + 1 < len(idx) else len(a)
            seg = a[i:j] if j > i else a[i : i + 1]
            outl.append(functools.reduce(f, list(seg)))
        res = np.array(outl, dtype=object)
    else:
        raise Unsupported(f"ufunc method {method}")
    if boolean:
        if isinstance(res, np.ndarray):
            res = res.astype(bool)
        else:
            return bool(res)
        if out is not None and out[0] is not None:
            out[0][...] = res
            return out[0]
        return res if res.ndim else res[()]
    if out is not None and out[0] is not None:
        o = out[0]
        if not isinstance(o, SymArray) and o.dtype != object:
            # real numpy would store floats: emulate only when all values are constants
            if isinstance(res, np.ndarray) and all(lift(x).op == "c" for x in res.ravel() if not isinstance(x, float)):
                o[...] = np.array([float(x) for x in res.ravel()]).reshape(res.shape)
                return o
            raise Unsupported("in-place update of a concrete array with symbolic values")
        if isinstance(res, np.ndarray) and res.shape != o.shape:
            res = np.broadcast_to(res, o.shape) if res.size <= o.size and _can_bc(res.shape, o.shape) else _bad_out(res, o)
        np.ndarray.__setitem__(o, Ellipsis, res if isinstance(res, np.ndarray) else _obj(res))
        return o
    if nout == 2:
        return tuple(wrap(np.asarray(x, dtype=object)) if isinstance(x, np.ndarray) else x for x in res)
    return wrap(res) if isinstance(res, np.ndarray) else res


def _can_bc(s, t):
    try:
        return np.broadcast_shapes(s, t) == tuple(t)
    except ValueError:
        return False


def _bad_out(res, o):
    raise ValueError(f"non-broadcastable output operand with shape {o.shape} doesn't match the broadcast shape {res.shape}")


def _reduce(f, a, axis, keep, ident, ufunc):
    if axis is None:
        axes = tuple(range(a.ndim))
    elif isinstance(axis, tuple):
        axes = tuple(x % a.ndim for x in axis)
    else:
        if a.ndim == 0:
            return a[()]
        if not -a.ndim <= axis < a.ndim:
            raise np.exceptions.AxisError(axis, a.ndim)
        axes = (axis % a.ndim,)
    rest = [i for i in range(a.ndim) if i not in axes]
    b = np.transpose(a, rest + list(axes)).reshape([a.shape[i] for i in rest] + [-1])
    out = np.empty(b.shape[:-1], dtype=object)
    for ix in np.ndindex(*b.shape[:-1]):
        xs = list(b[ix])
        if not xs:
            if ident is None:
                raise ValueError("zero-size array to reduction operation which has no identity")
            out[ix] = ident
            continue
        acc = lift(xs[0]) if ufunc not in (np.logical_and, np.logical_or) else xs[0]
        for x in xs[1:]:
            acc = f(acc, x)
        out[ix] = acc
    if keep:
        out = out.reshape([1 if i in axes else a.shape[i] for i in range(a.ndim)])
    return out


# --------------------------------------------------------------------------- array functions
def _f_where(cond, *xy):
    if isinstance(cond, np.ndarray) and cond.dtype == object:
        cond = np.asarray([bool(x) for x in cond.ravel()]).reshape(cond.shape)
    elif isinstance(cond, (B, R)):
        cond = bool(cond)
    if not xy:
        return np.where(np.asarray(cond))
    x, y = xy
    return wrap(np.where(np.asarray(cond), _obj(x), _obj(y)))


def _f_interp(x, xp, fp, left=None, right=None, period=None):
    xp, fp = list(_obj(xp).ravel()), list(_obj(fp).ravel())

    def one(v):
        v = lift(v)
        if bool(T.cmp("lt", v, lift(xp[0]))):
            return lift(fp[0] if left is None else left)
        if bool(T.cmp("lt", lift(xp[-1]), v)):
            return lift(fp[-1] if right is None else right)
        for i in range(len(xp) - 1):
            if bool(T.cmp("le", v, lift(xp[i + 1]))):
                a, b = lift(xp[i]), lift(xp[i + 1])
                fa, fb = lift(fp[i]), lift(fp[i + 1])
                return fa + (fb - fa) * (v - a) / (b - a)
        return lift(fp[-1])

    X = _obj(x)
    r = np.empty(X.shape, dtype=object)
    for ix in np.ndindex(*X.shape):
        r[ix] = one(X[ix])
    return wrap(r)


def _f_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def one(x, y):
        x, y = lift(x), lift(y)
        if isinstance(x, float) or isinstance(y, float):
            return isinstance(x, float) and isinstance(y, float) and x == y
        d, at, rt = x - y, lift(atol), lift(rtol)
        if not (rt.op == "c" and rt.args[0] == 0):
            p, n = at + rt * y, at - rt * y  # |y| is the larger of y and -y
            return bool(T.band(*(T.bor(T.cmp("le", e, p), T.cmp("le", e, n)) for e in (d, -d))))
        return bool(T.band(T.cmp("le", d, at), T.cmp("le", -d, at)))

    r = np.frompyfunc(one, 2, 1)(_obj(a), _obj(b))
    return np.asarray(r, dtype=bool) if isinstance(r, np.ndarray) else bool(r)


def _f_norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2):
        raise Unsupported("norm ord")
    x = _obj(x).view(SymArray)
    return np.sqrt((x * x).sum(axis=axis, keepdims=keepdims))


def _f_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    def one(v):
        v = lift(v)
        if isinstance(v, float):
            return lift(nan) if math.isnan(v) else lift(posinf if v > 0 else neginf)
        return v

    r = np.frompyfunc(one, 1, 1)(_obj(x))
    return wrap(r)


def _f_argred(cmpop):
    def f(a, axis=None, **kw):
        A = _obj(a)
        if axis is not None and A.ndim > 1:
            raise Unsupported("arg reduction with axis")
        best = 0
        xs = list(A.ravel())
        for i in range(1, len(xs)):
            if bool(T.cmp("lt", lift(xs[i]), lift(xs[best])) if cmpop == "min" else T.cmp("lt", lift(xs[best]), lift(xs[i]))):
                best = i
        return best

    return f


def _order(a):
    xs = list(_obj(a).ravel())

    def c(i, j):
        if bool(T.cmp("lt", lift(xs[i]), lift(xs[j]))):
            return -1
        if bool(T.cmp("lt", lift(xs[j]), lift(xs[i]))):
            return 1
        return 0

    return sorted(range(len(xs)), key=functools.cmp_to_key(c))


def _f_argsort(a, axis=-1, **kw):
    A = _obj(a)
    if A.ndim != 1:
        raise Unsupported("argsort of nd symbolic array")
    return np.array(_order(A), dtype=int)


def _f_sort(a, axis=-1, **kw):
    A = _obj(a)
    if A.ndim == 1:
        return A[_order(A)].view(SymArray)
    out = A.copy()
    for ix in np.ndindex(*A.shape[:-1]):
        out[ix] = A[ix][_order(A[ix])]
    return out.view(SymArray)


def _f_round(a, decimals=0, out=None):
    s = const(Fraction(10) ** int(decimals))
    r = np.frompyfunc(lambda v: T.fn("floor", lift(v) * s + const(Fraction(1, 2))) / s, 1, 1)(_obj(a))
    return wrap(r) if isinstance(r, np.ndarray) else r


def _f_sinc(x):
    def one(v):
        v = lift(v)
        if bool(T.cmp("eq", v, const(0))):
            return const(1)
        return T.fn("sin", v * T.pi()) / (v * T.pi())

    r = np.frompyfunc(one, 1, 1)(_obj(x))
    return wrap(r) if isinstance(r, np.ndarray) else r


def _weights_trap(xs):
    n = len(xs)
    w = [const(0)] * n
    for i in range(n - 1):
        h = (xs[i + 1] - xs[i]) * const(Fraction(1, 2))
        w[i] = w[i] + h
        w[i + 1] = w[i + 1] + h
    return w


def _apply_w(y, w, axis):
    Y = np.moveaxis(_obj(y), axis, -1)
    if Y.shape[-1] != len(w):
        raise ValueError("If given, length of x along axis must be the same as y.")
    out = np.empty(Y.shape[:-1], dtype=object)
    for ix in np.ndindex(*Y.shape[:-1]):
        acc = const(0)
        for a, b in zip(Y[ix], w):
            acc = acc + lift(a) * b
        out[ix] = acc
    return wrap(out)


def _grid(y, x, dx, axis):
    n = np.shape(_obj(y))[axis]
    if x is None:
        d = lift(dx)
        return [d * i for i in range(n)]
    X = _obj(x)
    if X.ndim != 1:
        # broadcastable identical rows are not tracked
        raise Unsupported("integration over an nd grid")
    return [lift(v) for v in X]


def f_trapezoid(y, x=None, dx=1.0, axis=-1):
    if not (is_sym(y) or is_sym(x) or is_sym(dx)):
        return np.trapezoid(y, x=x, dx=dx, axis=axis)
    if isinstance(y, LinCont):
        return _cont_int(y, x, dx)
    X = x
    if X is not None and _obj(X).ndim > 1:
        Y, XX = np.moveaxis(_obj(y), axis, -1), np.moveaxis(np.broadcast_to(_obj(X), np.shape(_obj(y))), axis, -1)
        out = np.empty(Y.shape[:-1], dtype=object)
        for ix in np.ndindex(*Y.shape[:-1]):
            out[ix] = f_trapezoid(Y[ix].view(SymArray), XX[ix].view(SymArray))
        return wrap(out)
    return _apply_w(y, _weights_trap(_grid(y, x, dx, axis)), axis)


def _weights_simpson(xs):
    n = len(xs)
    if n == 1:
        return [const(0)]
    if n == 2:
        return _weights_trap(xs)
    h = [xs[i + 1] - xs[i] for i in range(n - 1)]
    w = [const(0)] * n
    last = n if n % 2 else n - 1
    for i in range(0, last - 2, 2):
        a, b = h[i], h[i + 1]
        s = (a + b) / const(6)
        w[i] = w[i] + s * (const(2) - b / a)
        w[i + 1] = w[i + 1] + s * (a + b) * (a + b) / (a * b)
        w[i + 2] = w[i + 2] + s * (const(2) - a / b)
    if n % 2 == 0:
        # Cartwright correction for the last interval
        h0, h1 = h[-2], h[-1]
        alpha = (const(2) * h1 * h1 + const(3) * h0 * h1) / (const(6) * (h1 + h0))
        beta = (h1 * h1 + const(3) * h0 * h1) / (const(6) * h0)
        eta = (h1 * h1 * h1) / (const(6) * h0 * (h0 + h1))
        w[-1] = w[-1] + alpha
        w[-2] = w[-2] + beta
        w[-3] = w[-3] - eta
    return w


def f_simpson(y, x=None, dx=1.0, axis=-1, **kw):
    if not (is_sym(y) or is_sym(x) or is_sym(dx)):
        return ORIG["simpson"](y, x=x, dx=dx, axis=axis)
    if isinstance(y, LinCont):
        return _cont_int(y, x, dx)
    X = x
    if X is not None and _obj(X).ndim > 1:
        Y, XX = np.moveaxis(_obj(y), axis, -1), np.moveaxis(np.broadcast_to(_obj(X), np.shape(_obj(y))), axis, -1)
        out = np.empty(Y.shape[:-1], dtype=object)
        for ix in np.ndindex(*Y.shape[:-1]):
            out[ix] = f_simpson(Y[ix].view(SymArray), XX[ix].view(SymArray))
        return wrap(out)
    return _apply_w(y, _weights_simpson(_grid(y, x, dx, axis)), axis)


def f_cumtrapz(y, x=None, dx=1.0, axis=-1, initial=None):
    if not (is_sym(y) or is_sym(x) or is_sym(dx)):
        return ORIG["cumulative_trapezoid"](y, x=x, dx=dx, axis=axis, initial=initial)
    xs = _grid(y, x, dx, axis)
    Y = np.moveaxis(_obj(y), axis, -1)
    n = Y.shape[-1]
    out = np.empty(Y.shape[:-1] + (n - 1,), dtype=object)
    for ix in np.ndindex(*Y.shape[:-1]):
        acc = const(0)
        for i in range(n - 1):
            acc = acc + (xs[i + 1] - xs[i]) * (lift(Y[ix][i]) + lift(Y[ix][i + 1])) / const(2)
            out[ix + (i,)] = acc
    if initial is not None:
        pad = np.empty(Y.shape[:-1] + (1,), dtype=object)
        pad[...] = lift(initial)
        out = np.concatenate([pad, out], axis=-1)
    return wrap(np.moveaxis(out, -1, axis))


def f_cumsimpson(y, *, x=None, dx=1.0, axis=-1, initial=None):
    """Contract used in the continuum mode only; on an explicit grid: Simpson weights per prefix."""
    if not (is_sym(y) or is_sym(x) or is_sym(dx)):
        return ORIG["cumulative_simpson"](y, x=x, dx=dx, axis=axis, initial=initial)
    if isinstance(y, LinCont):
        full, plain = _cont_int(y, x, dx), y.integral()
        if x is not None and full is not plain:
            raise Unsupported("running continuum integral in another variable")
        return LinCumul(y) if full is plain else LinCumul(y * (lift(dx) / y.info["st"]))
    # exact linear weights from scipy itself (uniform concrete-index grid, symbolic dx)
    if x is not None:
        raise Unsupported("cumulative_simpson on a symbolic grid")
    Y = np.moveaxis(_obj(y), axis, -1)
    n = Y.shape[-1]
    W = ORIG["cumulative_simpson"](np.eye(n), dx=1.0, axis=0)
    d = lift(dx)
    out = np.empty(Y.shape[:-1] + (n - 1,), dtype=object)
    for ix in np.ndindex(*Y.shape[:-1]):
        for j in range(n - 1):
            acc = const(0)
            for i in range(n):
                if W[j, i] != 0:
                    acc = acc + lift(float(W[j, i])) * lift(Y[ix][i])
            out[ix + (j,)] = acc * d
    if initial is not None:
        pad = np.empty(Y.shape[:-1] + (1,), dtype=object)
        pad[...] = lift(initial)
        out = np.concatenate([pad, out], axis=-1)
    return wrap(np.moveaxis(out, -1, axis))


HANDLED: dict = {
    np.where: _f_where,
    np.interp: _f_interp,
    np.isclose: _f_isclose,
    np.allclose: lambda a, b, **k: bool(np.all(_f_isclose(a, b, **k))),
    np.linalg.norm: _f_norm,
    np.nan_to_num: _f_nan_to_num,
    np.argmin: _f_argred("min"),
    np.argmax: _f_argred("max"),
    np.argsort: _f_argsort,
    np.sort: _f_sort,
    np.round: _f_round,
    np.around: _f_round,
    np.sinc: _f_sinc,
    np.trapezoid: f_trapezoid,
    np.isscalar: lambda x: isinstance(x, R) or np.isscalar(x),
    np.sum: lambda a, axis=None, dtype=None, out=None, keepdims=False, **k: do_ufunc(np.add, "reduce", (a,), None, {"axis": axis, "keepdims": keepdims}),
    np.prod: lambda a, axis=None, dtype=None, out=None, keepdims=False, **k: do_ufunc(np.multiply, "reduce", (a,), None, {"axis": axis, "keepdims": keepdims}),
    np.max: lambda a, axis=None, out=None, keepdims=False, **k: do_ufunc(np.maximum, "reduce", (a,), None, {"axis": axis, "keepdims": keepdims}),
    np.min: lambda a, axis=None, out=None, keepdims=False, **k: do_ufunc(np.minimum, "reduce", (a,), None, {"axis": axis, "keepdims": keepdims}),
    np.mean: lambda a, axis=None, **k: _obj(a).view(SymArray).mean(axis=axis),
    np.average: lambda a, axis=None, weights=None, **k: _avg(a, axis, weights),
    np.cumsum: lambda a, axis=None, **k: _obj(a).view(SymArray).cumsum(axis),
    np.iscomplexobj: lambda x: False,
    np.isrealobj: lambda x: True,
    np.real: lambda x: x,
    np.any: lambda a, axis=None, **k: _tobool(a).any(axis=axis),
    np.all: lambda a, axis=None, **k: _tobool(a).all(axis=axis),
    np.count_nonzero: lambda a, axis=None, **k: np.count_nonzero(_tobool(a), axis=axis),
    np.clip: lambda a, lo=None, hi=None, out=None, **k: _into(out, _clip_f(a, lo, hi)),
    np.fmax: None,
}
HANDLED = {k: v for k, v in HANDLED.items() if v is not None}
HANDLED[np.amax] = HANDLED[np.max]
HANDLED[np.amin] = HANDLED[np.min]
HANDLED[np.nansum] = lambda a, axis=None, **k: do_ufunc(np.add, "reduce", (_f_nan_to_num(a),), None, {"axis": axis})


def _tobool(a):
    A = _obj(a)
    return np.array([bool(x) for x in A.ravel()], dtype=bool).reshape(A.shape)


def _into(out, r):
    if out is None:
        return r
    out[...] = r
    return out


def _clip_f(a, lo, hi):
    A = a
    if lo is not None:
        A = do_ufunc(np.maximum, "__call__", (A, lo), None, {})
    if hi is not None:
        A = do_ufunc(np.minimum, "__call__", (A, hi), None, {})
    return A


def _avg(a, axis, weights):
    A = _obj(a).view(SymArray)
    if weights is None:
        return A.mean(axis=axis)
    W = _obj(weights).view(SymArray)
    return (A * W).sum(axis=axis) / W.sum(axis=axis)


def _conv(x):
    if isinstance(x, (R, B)):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if isinstance(x, list):
        return [_conv(y) for y in x]
    if isinstance(x, tuple):
        return tuple(_conv(y) for y in x)
    return x


SAFE_NATIVE = {
    "atleast_1d", "atleast_2d", "atleast_3d", "squeeze", "reshape", "ravel", "transpose", "swapaxes",
    "moveaxis", "rollaxis", "expand_dims", "broadcast_to", "broadcast_arrays", "concatenate", "stack",
    "hstack", "vstack", "dstack", "column_stack", "append", "insert", "delete", "repeat", "tile", "flip",
    "flipud", "fliplr", "roll", "rot90", "take", "take_along_axis", "diag", "diagonal", "meshgrid", "copy", "split",
    "array_split", "zeros_like", "ones_like", "empty_like", "full_like", "shape", "ndim", "size", "outer",
    "kron", "dot", "inner", "vdot", "tensordot", "einsum", "diff", "ediff1d", "trace", "copyto",
    "put", "place", "putmask", "compress", "extract", "select", "choose", "piecewise", "result_type",
    "may_share_memory", "shares_memory", "triu", "tril", "cross", "matmul", "nonzero", "flatnonzero",
    "argwhere", "searchsorted", "gradient", "ix_", "array_equal", "cumprod", "ptp", "convolve", "unstack",
    "polyval", "apply_along_axis", "vander", "can_cast", "min_scalar_type", "array2string", "array_repr",
    "array_str", "block", "permute_dims", "median", "var", "std", "pad", "resize", "trim_zeros", "unique",
}


def do_function(func, args, kwargs):
    h = HANDLED.get(func)
    if h is not None:
        return h(*args, **kwargs)
    name = func.__name__
    if name in ("diff", "gradient", "outer", "dot", "inner", "tensordot", "einsum", "cross", "kron", "cumprod", "var", "std", "ptp"):
        # computed with R operators on object arrays
        a = [_conv_lift(x) for x in args]
        k = {q: _conv_lift(x) for q, x in kwargs.items()}
        return wrap(func(*a, **k))
    if name not in SAFE_NATIVE:
        raise Unsupported(f"numpy function {name}")
    a = [_conv(x) for x in args]
    k = {q: _conv(x) for q, x in kwargs.items()}
    if name == "copyto" or name in ("put", "place", "putmask"):
        func(*a, **k)
        return None
    if name == "array_equal":
        x, y = _obj(args[0]), _obj(args[1])
        return x.shape == y.shape and all(bool(lift(u) == v) for u, v in zip(x.ravel(), y.ravel()))
    return wrap(func(*a, **k))


def _conv_lift(x):
    if isinstance(x, (R, SymArray)) or (isinstance(x, np.ndarray) and x.dtype.kind in "fiuO"):
        o = _obj(x)
        r = np.empty(o.shape, dtype=object)
        for ix in np.ndindex(*o.shape):
            r[ix] = lift(o[ix])
        return r
    if isinstance(x, (list, tuple)) and is_sym(x):
        return mkarr(x).view(np.ndarray)
    return x


def _r_ufunc(self, ufunc, method, *inputs, out=None, **kw):
    return do_ufunc(ufunc, method, inputs, out, kw)


def _r_function(self, func, types_, args, kwargs):
    return do_function(func, args, kwargs)


R.__array_ufunc__ = _r_ufunc
R.__array_function__ = _r_function
B.__array_ufunc__ = _r_ufunc
B.__array_function__ = _r_function


# --------------------------------------------------------------------------- continuum grids
class LinCont(SymArray):
    """A dense integration grid read as the continuum: one generic point t in (lo, hi).

    Created for long ``linspace``/``arange``-like grids with symbolic limits.  Elementwise results
    keep the marker, quadrature over it is the exact integral (contract: quadrature converged).
    """

    def __new__(cls, val, info):
        a = np.empty((1,), dtype=object)
        a[0] = val
        a = a.view(cls)
        a.info = info
        return a

    def __array_finalize__(self, obj):
        self.info = getattr(obj, "info", None)

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        infos = [x.info for x in inputs if isinstance(x, LinCont)]
        for x in inputs:
            if isinstance(x, np.ndarray) and not isinstance(x, LinCont) and x.size > 1:
                raise Unsupported("continuum grid combined with another array")
        if method != "__call__":
            raise Unsupported(f"{ufunc.__name__}.{method} over a continuum grid")
        if out is not None:
            out = tuple(o.view(SymArray) if isinstance(o, LinCont) else o for o in out)
        ins = [x.view(SymArray) if isinstance(x, LinCont) else x for x in inputs]
        r = do_ufunc(ufunc, method, ins, out, kw)
        if isinstance(r, tuple):
            return tuple(LinCont(x.ravel()[0], infos[0]) for x in r)
        if isinstance(r, SymArray):
            return LinCont(r.ravel()[0], infos[0])
        return r

    def __array_function__(self, func, types_, args, kwargs):
        if func in (np.max, np.amax):
            if self[0] is self.info["t"]:
                return self.info["hi"]
        if func in (np.min, np.amin):
            if self[0] is self.info["t"]:
                return self.info["lo"]
        if func in (np.zeros_like, np.ones_like):
            return LinCont(const(0 if func is np.zeros_like else 1), self.info)
        if func is np.trapezoid:
            return _cont_int(*args, **kwargs)
        if func in (np.atleast_1d, np.squeeze, np.copy):
            return self
        raise Unsupported(f"{func.__name__} over a continuum grid")

    def integral(self, upto=None):
        i = self.info
        return T.integral(i["t"], lift(self[0]), i["lo"], i["hi"] if upto is None else upto)


def _cont_int(y, x=None, dx=1.0, axis=-1, **kw):
    """Quadrature over a continuum grid, in the measure given."""
    i = y.info
    if x is not None:
        if not isinstance(x, LinCont) or x.info is not i:
            raise Unsupported("continuum integrand against another grid")
        d = T.diff(lift(x[0]), i["t"])
        return y.integral() if d is const(1) else LinCont(lift(y[0]) * d, i).integral()
    if "st" not in i:
        return y.integral()
    if lift(dx) is i["st"]:
        return y.integral()
    return y.integral() * (lift(dx) / i["st"])


class LinCumul:
    """Running integral of a continuum integrand."""

    def __init__(self, y):
        self.y = y

    def __getitem__(self, k):
        if k == -1:
            return self.y.integral()
        if k == 0:
            return const(0)
        raise Unsupported("index into a continuum running integral")


class _SplineOfCumul:
    def __init__(self, x, cum):
        self.cum = cum

    def __call__(self, xq, *a, **k):
        X = _obj(xq)
        r = np.empty(X.shape, dtype=object)
        for ix in np.ndindex(*X.shape):
            r[ix] = self.cum.y.integral(upto=lift(X[ix]))
        return wrap(r)


# --------------------------------------------------------------------------- creation functions
def _is_floaty(dtype):
    return dtype is None or np.dtype(dtype).kind in "fO"


def c_zeros(shape, dtype=None, **k):
    if not _is_floaty(dtype):
        return np.zeros(shape, dtype=dtype)
    return c_full(shape, 0)


def c_ones(shape, dtype=None, **k):
    if not _is_floaty(dtype):
        return np.ones(shape, dtype=dtype)
    return c_full(shape, 1)


def c_full(shape, v, dtype=None, **k):
    if not _is_floaty(dtype):
        return np.full(shape, v, dtype=dtype)
    if isinstance(shape, R):
        shape = int(shape)
    if isinstance(shape, tuple):
        shape = tuple(int(s) for s in shape)
    a = np.empty(shape, dtype=object)
    if isinstance(v, (np.ndarray, list, tuple)):
        a[...] = _obj(v)
    else:
        for i in np.ndindex(*a.shape):
            a[i] = lift(v)
    return a.view(SymArray)


def c_empty(shape, dtype=None, **k):
    if not _is_floaty(dtype):
        return np.empty(shape, dtype=dtype)
    return c_full(shape, float("nan"))


def _like(v):
    def f(a, *args, dtype=None, shape=None, **k):
        val = args[0] if v is None else v
        arr = a if isinstance(a, (np.ndarray, R)) else (mkarr(a) if is_sym(a) else np.asarray(a))
        kind = arr.dtype.kind
        if isinstance(a, LinCont):
            return LinCont(lift(val), a.info)
        if dtype is None and kind in "iub" and not isinstance(a, R):
            # integer template: numpy keeps the integer dtype
            return np.full(arr.shape if shape is None else shape, val, dtype=arr.dtype)
        if dtype is not None and not _is_floaty(dtype):
            return np.full(arr.shape if shape is None else shape, val, dtype=dtype)
        r = c_full(arr.shape if shape is None else shape, val)
        return r

    return f


def c_array(x, dtype=None, copy=True, **k):
    if isinstance(x, LinCont):
        return x
    if is_sym(x):
        if dtype is not None and not _is_floaty(dtype):
            return mkarr(x).astype(dtype)
        if isinstance(x, (R, B)):
            a = np.empty((), dtype=object)
            a[()] = lift(x)
            return a.view(SymArray)
        if isinstance(x, np.ndarray):
            return x.view(SymArray) if copy is not True else x.copy().view(SymArray)
        return mkarr(x)
    return np.array(x, dtype=dtype, copy=copy, **k)


def c_asarray(x, dtype=None, **k):
    if isinstance(x, LinCont):
        return x
    if is_sym(x):
        if isinstance(x, SymArray) and (dtype is None or _is_floaty(dtype)):
            return x
        return c_array(x, dtype)
    return np.asarray(x, dtype=dtype, **{a: b for a, b in k.items()})


def _cap(n, what):
    n = int(n)
    if n > GRID_CAP[0]:
        THINNED.add(f"{what} {n}->{GRID_CAP[0]}")
        return GRID_CAP[0]
    return n


CONTINUUM = [True]
LOGTHIN = [False]


def c_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if not (is_sym(start) or is_sym(stop)):
        if int(num) > 200:
            THINNED.add(f"linspace {num}->{GRID_CAP[0]}")
            num = GRID_CAP[0]
        return np.linspace(start, stop, num, endpoint=endpoint, retstep=retstep, dtype=dtype, axis=axis)
    lo, hi = lift(start), lift(stop)
    if isinstance(num, R) and num.op != "c" and CONTINUUM[0] and endpoint:
        t = T.fresh_bv()
        THINNED.add("linspace of symbolic length with symbolic limits -> continuum")
        st = (hi - lo) / (num - 1)
        g = LinCont(t, {"t": t, "lo": lo, "hi": hi, "st": st})
        return (g, st) if retstep else g
    if int(num) > 200 and CONTINUUM[0] and endpoint:
        t = T.fresh_bv()
        THINNED.add(f"linspace {num} with symbolic limits -> continuum")
        st = (hi - lo) / const(int(num) - 1)
        g = LinCont(t, {"t": t, "lo": lo, "hi": hi, "st": st})
        return (g, st) if retstep else g
    n = _cap(num, "linspace")
    d = (n - 1) if endpoint else n
    st = (hi - lo) / const(d)
    a = mkarr([lo] + [lo + st * const(i) for i in range(1, n - 1)] + ([hi] if endpoint else [lo + st * const(n - 1)])) if n > 1 else mkarr([lo])
    return (a, st) if retstep else a


def c_logspace(start, stop, num=50, endpoint=True, base=10.0, dtype=None, axis=0):
    if not (is_sym(start) or is_sym(stop)):
        if LOGTHIN[0] and int(num) > 200:
            THINNED.add(f"logspace {num}->{GRID_CAP[0]}")
            num = GRID_CAP[0]
        return np.logspace(start, stop, num, endpoint=endpoint, base=base, dtype=dtype, axis=axis)
    CONT, CONTINUUM[0] = CONTINUUM[0], False
    try:
        e = c_linspace(start, stop, num, endpoint)
    finally:
        CONTINUUM[0] = CONT
    return mkarr([T.power(lift(base), lift(x)) for x in e])


def c_geomspace(start, stop, num=50, endpoint=True, dtype=None, axis=0):
    if not (is_sym(start) or is_sym(stop)):
        return np.geomspace(start, stop, num, endpoint=endpoint, dtype=dtype, axis=axis)
    lo, hi = lift(start), lift(stop)
    n = _cap(num, "geomspace")
    return mkarr([T.fn("exp", T.fn("log", lo) + (T.fn("log", hi) - T.fn("log", lo)) * const(Fraction(i, n - 1))) for i in range(n)])


class Opaque:
    """An array of symbolic length: only fit to be handed to quad as break points (a hint)."""

    __array_ufunc__ = None
    __hash__ = None

    def _same(self, *a):
        return self

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _same
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __and__ = __rand__ = __or__ = __ror__ = _same
    __invert__ = __getitem__ = _same

    def __len__(self):
        return 0

    def __bool__(self):
        raise Unsupported("array of symbolic length")

    def __iter__(self):
        raise Unsupported("array of symbolic length")


def c_arange(*a, dtype=None, **k):
    if not any(is_sym(x) for x in a):
        return np.arange(*a, dtype=dtype, **k)
    a = [lift(x) for x in a]
    if len(a) == 1 and "floor(" in T.short(a[0]):
        return Opaque()
    lo, hi, st = (const(0), a[0], const(1)) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else const(1))
    out = []
    x = lo
    if bool(T.cmp("lt", st, const(0))):
        raise Unsupported("arange with negative symbolic step")
    while bool(T.cmp("lt", x, hi)):
        out.append(x)
        if len(out) > 24:
            raise Unsupported("arange of unbounded symbolic length")
        x = x + st
    return mkarr(out) if out else c_zeros(0)


def _scalar_fn(uf):
    orig = uf

    class W:
        """ufunc look-alike: exact on plain Python numbers, original otherwise."""

        __name__ = orig.__name__

        def __call__(self, *a, **k):
            if k.get("out") is None and not k and all(isinstance(x, (int, float, np.integer, np.floating)) and not isinstance(x, bool) for x in a):
                if all(math.isfinite(x) for x in a):
                    f = UF[orig]
                    try:
                        return f(*[lift(x) for x in a])
                    except (T.DomainError, Unsupported):
                        return orig(*a)
            return orig(*a, **k)

        def __getattr__(self, n):
            return getattr(orig, n)

        def __array_ufunc__(self, *a, **k):  # pragma: no cover
            raise TypeError

    return W()


class Proxy(types.ModuleType):
    def __init__(self, mod, over):
        super().__init__(mod.__name__)
        self.__dict__["_mod"] = mod
        self.__dict__.update(over)

    def __getattr__(self, n):
        return getattr(self.__dict__["_mod"], n)


class _ErrState:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, f):
        return f


def c_vectorize(pyfunc=None, otypes=None, **kw):
    if pyfunc is None:
        return lambda f: c_vectorize(f, otypes, **kw)

    def g(*args):
        objs = [_obj(a) if not isinstance(a, np.ndarray) or a.dtype == object else a.astype(object) for a in args]
        r = np.frompyfunc(pyfunc, len(objs), 1)(*objs)
        return wrap(r) if isinstance(r, np.ndarray) else r

    return g


ORIG = {
    "simpson": scipy.integrate.simpson,
    "cumulative_simpson": scipy.integrate.cumulative_simpson,
    "cumulative_trapezoid": scipy.integrate.cumulative_trapezoid,
    "quad": scipy.integrate.quad,
    "spline": scipy.interpolate.InterpolatedUnivariateSpline,
    "uspline": scipy.interpolate.UnivariateSpline,
}


def f_quad(func, a, b, args=(), **kw):
    """Contract: quad returns the exact integral."""
    if not isinstance(args, tuple):
        args = (args,)
    probe = is_sym(a) or is_sym(b) or any(is_sym(x) for x in args)
    if not probe:
        try:
            r0 = func(0.37 if not (math.isinf(a) or math.isinf(b)) else 1.37, *args)
            probe = is_sym(r0)
        except Unsupported:
            probe = True
    if not probe:
        return ORIG["quad"](func, a, b, args=args, **kw)
    t = T.fresh_bv()
    run = explore.CUR[0]
    n0 = len(run.assumed)
    lo, hi = lift(a), lift(b)
    if isinstance(lo, R):
        run.assume(T.cmp("lt", lo, t))
    if isinstance(hi, R):
        run.assume(T.cmp("lt", t, hi))
    if isinstance(lo, R) and lo.op == "c" and lo.args[0] >= 0:
        run.N.posvars.add(t.args[0])
    npc = len(run.pc)
    body = func(t, *args)
    for c in run.pc[npc:]:
        if t in T.free_vars(c):
            raise Unsupported("integrand branches on the integration variable")
    del run.assumed[n0:]
    if isinstance(body, np.ndarray):
        body = body.ravel()[0]
    return T.integral(t, lift(body), lo, hi), 0.0


# splines ------------------------------------------------------------------
SPLINES: list = []
HYP = [False]  # hyperbolic functions (of positive arguments) as opaque positive reals
POLY = [False]  # recognise polynomial data (exactly reproduced by a spline)


def _horner(c, x, v):
    acc = c[-1]
    for i in range(len(c) - 2, -1, -1):
        acc = acc * (v - x[i]) + c[i]
    return acc


class SplineStub:
    """Interpolating spline through symbolic data.

    Contract: passes through its knots (exact when queried at a knot); order-1 splines are
    piecewise linear; otherwise the value is an uninterpreted function of (data, query), the same
    for the same data -- a linear functional of the ordinates that reproduces constants; ``integral`` is a linear functional of the ordinates with positive weights
    that depend only on the abscissae and limits.
    """

    def __init__(self, x, y, w=None, bbox=None, k=3, ext=0, check_finite=False, **kw):
        if isinstance(y, LinCumul):
            self._cum = _SplineOfCumul(x, y)
            return
        self._cum = None
        self.x = [lift(v) for v in _obj(x).ravel()]
        self.y = [lift(v) for v in _obj(y).ravel()]
        if len(self.x) != len(self.y):
            raise ValueError("x and y should have a same length")
        self.k = k
        self.ext = ext
        self.gkey = self._id(("grid", tuple(_canon(v) for v in self.x), k))
        self.poly = self._polynomial() if POLY[0] and k > 1 else None

    @staticmethod
    def _id(key):
        if key not in SPLINES:
            SPLINES.append(key)
        return SPLINES.index(key)

    def _polynomial(self):
        """Newton form when the data lie on one polynomial of the spline's order (reproduced exactly)."""
        n = self.k + 1
        if len(self.x) < n:
            return None
        c = list(self.y[:n])
        for j in range(1, n):
            for i in range(n - 1, j - 1, -1):
                c[i] = (c[i] - c[i - 1]) / (self.x[i] - self.x[i - j])
        f = lambda v: _horner(c, self.x, v)
        return c if all(_same(f(p), q) for p, q in zip(self.x[n:], self.y[n:])) else None

    def _monomials(self):
        """Coefficients of 1, v, v^2, ... of the Newton form."""
        out = [const(0)]
        for i in range(len(self.poly) - 1, -1, -1):
            nxt = [const(0)] + out
            for j, v in enumerate(out):
                nxt[j] = nxt[j] - v * self.x[i]
            nxt[0] = nxt[0] + self.poly[i]
            out = nxt
        return out

    def __call__(self, xq, nu=0, ext=None):
        if self._cum is not None:
            return self._cum(xq)
        X = _obj(xq)
        r = np.empty(X.shape, dtype=object)
        for ix in np.ndindex(*X.shape):
            r[ix] = self._one(lift(X[ix]), nu, self.ext if ext is None else ext)
        return wrap(r)

    def _one(self, v, nu, ext):
        if nu == 0:
            for a, b in zip(self.x, self.y):
                if a is v:
                    return b
            N = explore.CUR[0].N if explore.CUR[0] else None
            if N is not None and not isinstance(v, float):
                try:
                    rv = N.norm(v)
                    for a, b in zip(self.x, self.y):
                        if not isinstance(a, float) and abs(N.rval(N.norm(a)) - N.rval(rv)) < 1e-9 * (1 + abs(N.rval(rv))) and N.req(N.norm(a), rv):
                            return b
                except Unsupported:
                    pass
        if ext in (1, "zeros") or ext in (3, "const"):
            if bool(T.cmp("lt", v, self.x[0])):
                return const(0) if ext in (1, "zeros") else self.y[0]
            if bool(T.cmp("lt", self.x[-1], v)):
                return const(0) if ext in (1, "zeros") else self.y[-1]
        if self.k == 1 and nu == 0:
            i = len(self.x) - 2
            for j in range(len(self.x) - 1):
                if bool(T.cmp("le", v, self.x[j + 1])):
                    i = j
                    break
            a, b, fa, fb = self.x[i], self.x[i + 1], self.y[i], self.y[i + 1]
            return fa + (fb - fa) * (v - a) / (b - a)
        if self.k == 1 and nu == 1:
            i = len(self.x) - 2
            for j in range(len(self.x) - 1):
                if bool(T.cmp("le", v, self.x[j + 1])):
                    i = j
                    break
            return (self.y[i + 1] - self.y[i]) / (self.x[i + 1] - self.x[i])
        if self.poly is not None and nu == 0:
            return _horner(self.poly, self.x, v)
        acc = self.y[0] if nu == 0 else const(0)
        W = self._numeric(v, nu)
        for i in range(1, len(self.y)):
            acc = acc + const(W[i]) * (self.y[i] - self.y[0]) if W is not None else acc + T.fn(f"splv{self.gkey}_{i}" + (f"'{nu}" if nu else ""), v) * (self.y[i] - self.y[0])
        return acc

    def _numeric(self, v, nu, upto=None):
        """Weights of the ordinates at a concrete query (or in an integral) on a concrete grid."""
        if upto is not None:
            lim = [T.closed_value(v), T.closed_value(upto)]
            if any(q is None for q in lim):
                return None
        vals = [T.closed_value(t) for t in [v, *self.x]]
        if any(q is None for q in vals):
            return None
        vals = [float(q) for q in vals]
        if any(b <= a for a, b in zip(vals[1:-1], vals[2:])):
            return None
        E = np.eye(len(self.x))
        S = [ORIG["spline"](vals[1:], E[i], k=self.k) for i in range(len(self.x))]
        if upto is not None:
            return [float(f"{q.integral(vals[0], float(lim[1])):.13g}") for q in S]
        return [float(f"{q(vals[0], nu=nu):.13g}") for q in S]

    def integral(self, a, b):
        a, b = lift(a), lift(b)
        acc = const(0)
        if self.poly is not None:
            for i, c in enumerate(self._monomials()):
                acc = acc + c * (b ** (i + 1) - a ** (i + 1)) / (i + 1)
            return acc
        W = self._numeric(a, 0, b)
        for i, y in enumerate(self.y):
            acc = acc + (const(W[i]) if W is not None else T.fn(f"splw{self.gkey}_{i}+", a, b)) * y
        return acc

    def derivative(self, n=1):
        s = self
        return lambda xq, **k: s(xq, nu=n)

    def get_knots(self):
        return mkarr(self.x)


def _tid(v):
    return v.id if isinstance(v, (R, B)) else v


def _canon(v):
    """A key equal for equal values (up to the normaliser's strength)."""
    if not isinstance(v, (R, B)):
        return v
    if v.op == "c":
        return v.args[0]
    N = explore.CUR[0].N if explore.CUR[0] else None
    if N is None:
        return v.id
    try:
        r = N.norm(v)
    except Unsupported:
        return v.id
    return (tuple(sorted(r.num.items())), tuple(sorted(r.fac.items())))


def _same(a, b):
    """Is a == b by the normaliser (no solver call)?"""
    N = explore.CUR[0].N if explore.CUR[0] else None
    a, b = lift(a), lift(b)
    if a is b or N is None:
        return a is b
    try:
        return N.req(N.norm(a), N.norm(b))
    except Unsupported:
        return False


class USplineStub:
    """scipy.interpolate.UnivariateSpline (smoothing).

    Contract: data on a straight line are reproduced by that line everywhere; otherwise the value is
    an uninterpreted function of the data and the query.
    """

    def __init__(self, x, y, k):
        self.x = [lift(v) for v in _obj(x).ravel()]
        self.y = [lift(v) for v in _obj(y).ravel()]
        if len(self.x) != len(self.y):
            raise ValueError("x and y should have a same length")
        self.k = k
        a, b = self.x[0], self.x[-1]
        self.slope = (self.y[-1] - self.y[0]) / (b - a)
        self.line = all(_same(q * (b - a), self.y[0] * (b - p) + self.y[-1] * (p - a)) for p, q in zip(self.x[1:-1], self.y[1:-1]))

    def __call__(self, xq, nu=0, ext=None):
        X = _obj(xq)
        r = np.empty(X.shape, dtype=object)
        for ix in np.ndindex(*X.shape):
            v = lift(X[ix])
            if self.line:
                r[ix] = self.y[0] + self.slope * (v - self.x[0])
            else:
                r[ix] = T.fn(f"uspl{self.k}_{len(self.x)}", v, *self.x, *self.y)
        return wrap(r)


def f_uspline(x, y, w=None, bbox=None, k=3, s=None, ext=0, check_finite=False):
    if not (is_sym(x) or is_sym(y)):
        return ORIG["uspline"](x, y, w=w, k=k, s=s, ext=ext)
    if s == 0:
        return SplineStub(x, y, k=k, ext=ext)
    if w is not None or bbox is not None or ext not in (0, "extrapolate"):
        raise Unsupported("smoothing spline with options")
    return USplineStub(x, y, k)


def f_spline(x, y, *a, **k):
    if not (is_sym(x) or is_sym(y) or isinstance(y, LinCumul)):
        return ORIG["spline"](x, y, *a, **k)
    names = ["w", "bbox", "k", "ext", "check_finite"]
    kw = dict(zip(names, a))
    kw.update(k)
    return SplineStub(x, y, **kw)


class SplineMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (ORIG["spline"], SplineStub))

    def __call__(cls, *a, **k):
        return f_spline(*a, **k)


class SplineProxy(metaclass=SplineMeta):
    pass


class Interp1dStub:
    """scipy.interpolate.interp1d, linear: exact, including sorting, bounds and fill values."""

    def __init__(self, x, y, bounds_error=None, fill_value=np.nan, assume_sorted=False):
        xs, ys = list(_obj(x).ravel()), list(_obj(y).ravel())
        if len(xs) != len(ys):
            raise ValueError("x and y arrays must be equal in length along interpolation axis.")
        if not xs:
            raise ValueError("x and y arrays must have at least 1 entry")
        if not assume_sorted:
            o = _order(np.array([lift(v) for v in xs], dtype=object))
            xs, ys = [xs[i] for i in o], [ys[i] for i in o]
        self.xs, self.ys = [lift(v) for v in xs], [lift(v) for v in ys]
        self.extrap = isinstance(fill_value, str) and fill_value == "extrapolate"
        self.err = bounds_error if bounds_error is not None else (not self.extrap and isinstance(fill_value, float) and math.isnan(fill_value))
        self.fill = fill_value if isinstance(fill_value, tuple) else (fill_value, fill_value)

    def __call__(self, xq):
        X = _obj(xq)
        r = np.empty(X.shape, dtype=object)
        for ix in np.ndindex(*X.shape):
            r[ix] = self._one(lift(X[ix]))
        return wrap(r) if r.ndim else wrap(r.reshape(()))

    def _one(self, v):
        xs, ys = self.xs, self.ys
        for a, b in zip(xs, ys):
            if a is v:
                return b
        if not self.extrap:
            if bool(T.cmp("lt", v, xs[0])):
                if self.err:
                    raise ValueError("A value in x_new is below the interpolation range.")
                return lift(self.fill[0])
            if bool(T.cmp("lt", xs[-1], v)):
                if self.err:
                    raise ValueError("A value in x_new is above the interpolation range.")
                return lift(self.fill[1])
        if len(xs) == 1:
            return ys[0]
        i = len(xs) - 2
        for j in range(len(xs) - 1):
            if bool(T.cmp("le", v, xs[j + 1])):
                i = j
                break
        a, b, fa, fb = xs[i], xs[i + 1], ys[i], ys[i + 1]
        return fa + (fb - fa) * (v - a) / (b - a)


def f_interp1d(x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=np.nan, assume_sorted=False):
    if not (is_sym(x) or is_sym(y)):
        o = ORIG["interp1d"](x, y, kind=kind, axis=axis, bounds_error=bounds_error, fill_value=fill_value, assume_sorted=assume_sorted)
        if kind not in ("linear", 1) or np.ndim(y) != 1:
            return o
        st = Interp1dStub(x, y, bounds_error, fill_value, assume_sorted)
        return lambda xq: st(xq) if is_sym(xq) else o(xq)
    if kind in ("linear", 1):
        return Interp1dStub(x, y, bounds_error, fill_value, assume_sorted)
    return SplineStub(x, y, k={"quadratic": 2, "cubic": 3}.get(kind, kind))


ORIG["interp1d"] = scipy.interpolate.interp1d

_np_over = {
    "zeros": c_zeros, "ones": c_ones, "full": c_full, "empty": c_empty,
    "zeros_like": _like(0), "ones_like": _like(1), "empty_like": _like(float("nan")), "full_like": _like(None),
    "array": c_array, "asarray": c_asarray, "asanyarray": c_asarray, "ascontiguousarray": c_asarray,
    "asfarray": c_asarray, "copy": lambda a, **k: c_array(a),
    "linspace": c_linspace, "logspace": c_logspace, "geomspace": c_geomspace, "arange": c_arange,
    "isscalar": lambda x: isinstance(x, R) or np.isscalar(x),
    "vectorize": c_vectorize, "errstate": _ErrState,
    "trapz": f_trapezoid,
}
for _u in (np.sqrt, np.exp, np.log, np.log10, np.log2, np.sin, np.cos, np.tan, np.arctan, np.log1p, np.expm1, np.cbrt, np.power, np.float_power, np.tanh, np.sinh, np.cosh):
    _np_over[_u.__name__] = _scalar_fn(_u)


def make_np():
    p = Proxy(np, dict(_np_over))
    p.__dict__["pi"] = T.pi()
    p.__dict__["iterable"] = lambda x: False if isinstance(x, (R, B)) else np.iterable(x)
    p.__dict__["e"] = T.fn("exp", 1)
    p.__dict__["linalg"] = Proxy(np.linalg, {"norm": lambda x, *a, **k: _f_norm(x, *a, **k) if is_sym(x) else np.linalg.norm(x, *a, **k)})
    return p


def make_math():
    over = {}
    for n in ("sqrt", "exp", "log", "log10", "log2", "sin", "cos", "tan", "atan", "log1p", "expm1", "erf", "erfc", "gamma"):
        uf = getattr(np, {"atan": "arctan"}.get(n, n), None) or getattr(sps, n)
        f = UF[uf]
        over[n] = lambda x, _f=f: _f(lift(x))
    over["pow"] = s_pow
    over["pi"] = T.pi()
    over["floor"] = lambda x: int(x) if not is_sym(x) else T.fn("floor", x)
    over["fabs"] = T.absval
    over["isnan"] = lambda x: _nan(x)
    over["isinf"] = lambda x: isinstance(x, float) and math.isinf(x)
    over["isfinite"] = _fin
    return Proxy(math, over)


_SPS = {}
for _k, _v in list(UF.items()):
    if getattr(sps, _k.__name__, None) is _k:
        _SPS[_k.__name__] = _scalar_fn(_k)


class _SiciW:
    def __call__(self, x, *a, **k):
        return sps.sici(x, *a, **k)


def make_scipy():
    over_int = {
        "simpson": f_simpson, "trapezoid": f_trapezoid, "cumulative_trapezoid": f_cumtrapz,
        "cumulative_simpson": f_cumsimpson, "quad": f_quad,
    }
    for old in ("simps", "trapz", "cumtrapz"):
        if hasattr(scipy.integrate, old):
            over_int[old] = {"simps": f_simpson, "trapz": f_trapezoid, "cumtrapz": f_cumtrapz}[old]
    over_itp = {
        "InterpolatedUnivariateSpline": SplineProxy, "UnivariateSpline": f_uspline, "interp1d": f_interp1d,
        "CubicSpline": f_cubic, "make_interp_spline": lambda x, y, k=3, **kw: f_spline(x, y, k=k),
    }
    sp_over = dict(_SPS)
    sp_over.pop("sici", None)
    return over_int, over_itp, sp_over


ORIG["CubicSpline"] = scipy.interpolate.CubicSpline


def f_cubic(x, y, *a, **k):
    if not (is_sym(x) or is_sym(y)):
        return ORIG["CubicSpline"](x, y, *a, **k)
    return SplineStub(x, y, k=3)


@contextlib.contextmanager
def patched(modules=None, extra=None):
    """Replace numpy/scipy/numba references in the given modules (default: all halomod modules)."""
    import halomod  # noqa: F401

    mods = modules or [m for n, m in list(sys.modules.items()) if (n == "halomod" or n.startswith("halomod.")) and m is not None]
    np_p, math_p = make_np(), make_math()
    oi, ot, osps = make_scipy()
    int_p, itp_p, sps_p = Proxy(scipy.integrate, oi), Proxy(scipy.interpolate, ot), Proxy(sps, osps)
    scipy_p = Proxy(scipy, {"integrate": int_p, "interpolate": itp_p, "special": sps_p})
    by_id = {id(np): np_p, id(math): math_p, id(scipy): scipy_p, id(scipy.integrate): int_p, id(scipy.interpolate): itp_p, id(sps): sps_p}
    for n, v in oi.items():
        o = getattr(scipy.integrate, n, None)
        if o is not None:
            by_id[id(o)] = v
    for n, v in ot.items():
        o = getattr(scipy.interpolate, n, None)
        if o is not None:
            by_id[id(o)] = v
    for n, v in osps.items():
        by_id[id(getattr(sps, n))] = v
    for n in ("zeros", "ones", "full", "empty", "zeros_like", "ones_like", "empty_like", "full_like", "array", "asarray", "asanyarray", "linspace", "logspace", "geomspace", "arange", "isscalar", "sqrt", "exp", "log", "log10", "sin", "cos", "vectorize", "errstate"):
        by_id[id(getattr(np, n))] = np_p.__dict__[n]
    for n in ("sqrt", "exp", "log", "log10", "sin", "cos", "tan", "erf", "erfc", "gamma", "pow"):
        by_id[id(getattr(math, n))] = math_p.__dict__[n]
    by_id.update(extra or {})
    saved = []
    attr_saved = []
    try:
        for m in mods:
            for name, v in list(vars(m).items()):
                if name.startswith("__"):
                    continue
                rep = by_id.get(id(v))
                if rep is None:
                    rep = _unnumba(v, by_id)
                if rep is None and isinstance(v, float) and name.lower() in ("pi",):
                    rep = T.pi()
                if rep is not None:
                    saved.append((m, name, v))
                    setattr(m, name, rep)
        # function-level imports
        for mod, over in ((scipy.integrate, oi), (scipy.interpolate, ot)):
            for n, v in over.items():
                if hasattr(mod, n):
                    attr_saved.append((mod, n, getattr(mod, n)))
        for mod, n, v in attr_saved:
            setattr(mod, n, (oi if mod is scipy.integrate else ot)[n])
        yield
    finally:
        for m, name, v in reversed(saved):
            setattr(m, name, v)
        for m, name, v in reversed(attr_saved):
            setattr(m, name, v)


def _unnumba(v, by_id):
    """numba dispatchers run as the Python function they compile."""
    pf = getattr(v, "py_func", None)
    if pf is not None and callable(pf) and type(v).__module__.startswith("numba"):
        return pf
    t = type(v)
    if t.__name__ == "_lru_cache_wrapper" and hasattr(v, "__wrapped__"):
        return v.__wrapped__
    return None


def shim(modules=None, extra=None):
    return lambda: patched(modules, extra)
