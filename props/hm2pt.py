"""Setup shared by the two-point-statistics harnesses (C15-C17): grids, a linear transform, comparisons."""
import contextlib

import numpy as np

import halomod.tools as TL

from .common import contract

M = np.array([1e11, 1e12, 1e13, 1e14, 1e15])
K = np.array([0.05, 0.5, 5.0, 50.0])
RT = np.array([0.01, 0.1, 1.0, 10.0])
DLM = 1.0  # dlog10m of M


@contextlib.contextmanager
def transform(ctx):
    """hankel_transform as an arbitrary positive linear functional of the function, per variable and direction.

    (What it really computes is C14's.)  The weights depend on the direction and the variable only.
    """
    w = {(d, j): ctx.uf(f"hank_{d}{j}+", numeric=lambda x, j=j: 1.0 / (1 + j + np.asarray(x, float))) for d in "rk" for j in range(2)}
    old = TL.hankel_transform

    def tr(f, var, name, *a):
        at = {"r": (K[1], K[2]), "k": (RT[1], RT[2])}[name]
        fs = list(f) if hasattr(f, "__len__") else [f] * len(var)
        out = []
        for x, g in zip(var, fs):
            v = [g(np.array([q]))[0] for q in at]
            out.append(w[name, 0](x) * v[0] + w[name, 1](x) * v[1])
        return ctx.arr(out)

    TL.hankel_transform = contract(old, tr)
    try:
        yield tr
    finally:
        TL.hankel_transform = old


def vals(ctx, name, shape, lo, hi):
    n = int(np.prod(shape))
    v = [ctx.real(f"{name}{i}", lo, hi) for i in range(n)]
    return ctx.arr(v).reshape(shape)


def same_fn(ctx, label, got, want, x, lo=True, hi=True, knots=None):
    """Two tabulated functions agree at their knots and beyond both ends."""
    x = np.asarray(x, float)
    for i in range(len(x)) if knots is None else knots:
        ctx.eq(f"{label} at a tabulated point[{i}]", got(np.array([x[i]]))[0], want(np.array([x[i]]))[0])
    if lo:
        ctx.eq(f"{label} below the table", got(np.array([x[0] / 7]))[0], want(np.array([x[0] / 7]))[0])
    if hi:
        ctx.eq(f"{label} above the table", got(np.array([x[-1] * 7]))[0], want(np.array([x[-1] * 7]))[0])


def spl(x, y, lo, hi, **k):
    return TL.ExtendedSpline(np.asarray(x), y, lower_func=lo, upper_func=hi, **k)


zero = lambda x: np.zeros_like(x) if np.ndim(x) else 0


class Prof:
    """A profile whose Fourier form, density and self-convolution are recorded tables."""

    def __init__(self, has_lam=True, u=None, rho=None, lam=None):
        self.has_lam, self._u, self._rho, self._lam, self.calls = has_lam, u, rho, lam, []

    def u(self, k, m, norm="m", c=None, coord="k"):
        self.calls.append(("u", k, m, norm, c, coord))
        return self._u

    def rho(self, r, m, norm=None, c=None, coord="r"):
        self.calls.append(("rho", r, m, norm, c, coord))
        return self._rho

    def lam(self, r, m, norm="m", c=None, coord="r"):
        self.calls.append(("lam", r, m, norm, c, coord))
        return self._lam


class RecExcl:
    """Exclusion recorder: keeps what it is given; integrate/density_mod are arbitrary numbers."""

    out = mod = None

    def __init__(self, **kw):
        self.kw = kw
        self.__dict__.update(kw)

    def integrate(self):
        return self.out() if callable(self.out) else self.out

    @property
    def density_mod(self):
        return self.mod


@contextlib.contextmanager
def integral(ctx, n=None):
    """spline_integral as an arbitrary positive linear functional whose weights depend on its limits.

    (That it is the integral is C13's.)
    """
    n = n or len(M)
    w = [ctx.uf(f"int{j}+", numeric=lambda a, b, j=j: (2 + j) / (1 + j + np.log(np.asarray(a, float)) / 10) * np.log(np.asarray(b, float)) / 30) for j in range(n)]
    old = TL.spline_integral

    def integrate(x, f, xmin=None, xmax=None, log=True, *a):
        assert len(x) == n and log
        lo, hi = x[0] if xmin is None else xmin, x[-1] if xmax is None else xmax
        return sum((1 + w[j](lo, hi)) * f[j] for j in range(n))

    TL.spline_integral = contract(old, integrate)
    try:
        yield integrate
    finally:
        TL.spline_integral = old


@contextlib.contextmanager
def by_table(ctx, at=None):
    """hankel_transform as (i+2) times the function at the i-th point of `at`: positive for positive functions."""
    at = K if at is None else at
    old = TL.hankel_transform

    def tr(f, var, name, *a):
        fs = list(f) if hasattr(f, "__len__") else [f] * len(var)
        return ctx.arr([fs[i](at[i : i + 1])[0] * (i + 2) if name == "r" else 0 for i in range(len(var))])

    TL.hankel_transform = contract(old, tr)
    try:
        yield tr
    finally:
        TL.hankel_transform = old


@contextlib.contextmanager
def quadrature(ctx, mod):
    """Every quadrature over mass used by module ``mod`` as one arbitrary positive linear functional.

    Its weights depend on the grid and the limits; integrals over mass and over its logarithm are the same
    functional.  (That the quadratures are the integral is scipy's contract and C13's.)
    """
    import types

    W = {}

    def closed(v):
        try:
            return round(float(v), 9)
        except TypeError:
            return v

    def weight(key, j):
        if (key, j) not in W:
            W[key, j] = ctx.uf(f"quad{len(W)}+", numeric=lambda a, b, j=j: (2 + j) / (1 + j + np.asarray(a, float) / 20) * np.asarray(b, float) / 30)
        return W[key, j]

    def fun(lnx, y, lo=None, hi=None):
        key = tuple(round(float(v), 5) for v in lnx)
        lo, hi = closed(lnx[0] if lo is None else lo), closed(lnx[-1] if hi is None else hi)
        return sum((1 + weight(key, j)(lo, hi)) * y[..., j] for j in range(len(lnx)))

    def rule(y, x=None, dx=None, axis=-1):
        if x is None:  # steps of the logarithm of the harness's mass grid
            return fun(np.log(M), y) * (np.asarray(dx, float) / np.log(10.0))
        x = np.asarray(x, float)
        return fun(x, y) if x[0] < 1e3 else fun(np.log(x), y * x)

    class Spline:
        def __init__(self, x, y, k=3):
            self.x, self.y = np.asarray(x, float), y

        def integral(self, a, b):
            return fun(self.x, self.y, a, b) if self.x[0] < 1e3 else fun(np.log(self.x), self.y * self.x, np.log(a), np.log(b))

    def integrate(x, f, xmin=None, xmax=None, log=True, *a):
        ln = lambda v: None if v is None else np.log(v)
        return fun(np.log(np.asarray(x, float)), x * f, ln(xmin), ln(xmax))

    rules = ("simpson", "trapezoid", "trapz")
    new = {}
    for n, v in list(vars(mod).items()):
        if getattr(v, "__name__", None) in rules or n in rules:
            new[n] = rule
        elif n == "_IUS" or getattr(v, "__name__", "") == "InterpolatedUnivariateSpline":
            new[n] = Spline
        elif n in ("intg", "integrate"):
            new[n] = types.SimpleNamespace(simpson=rule, trapezoid=rule)
    saved = {n: getattr(mod, n) for n in new}
    old = TL.spline_integral
    for n, v in new.items():
        setattr(mod, n, v)
    TL.spline_integral = contract(old, integrate)
    try:
        yield fun
    finally:
        for n, v in saved.items():
            setattr(mod, n, v)
        TL.spline_integral = old
