"""C13: integrals of tabulated functions between arbitrary limits."""
import warnings

import numpy as np

import halomod.tools as TL
from symx import shim

from .common import H, snapshot, unchanged

NX = 5


def exact(f):
    """Splines reproduce polynomials: the tables here hold one, so the integral is known."""

    def g(ctx):
        shim.POLY[0] = True
        try:
            f(ctx)
        finally:
            shim.POLY[0] = False

    return g


def call(*a, **k):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        r = TL.spline_integral(*a, **k)
    return r, any("xtrapol" in str(x.message) for x in w)


def limits(ctx, lo, hi):
    which = ctx.choice("limits", ["none", "lower", "upper", "both"])
    a = ctx.real("xmin", lo, hi) if which in ("lower", "both") else None
    b = ctx.real("xmax", lo, hi) if which in ("upper", "both") else None
    return {k: v for k, v in (("xmin", a), ("xmax", b)) if v is not None}, a, b


def logarithmic(explicit):
    @exact
    def h(ctx):
        x = ctx.increasing("x", NX, 0.2, 50)
        c = [ctx.real(f"c{i}", -3, 3) for i in range(4)]
        u = np.log(x)
        f = (c[0] + c[1] * u + c[2] * u**2 + c[3] * u**3) / x
        sx, sf = snapshot(x), snapshot(f)
        kw, a, b = limits(ctx, 0.1, 100)
        r, w = call(x, f, log=True, **kw) if explicit else call(x, f, **kw)
        la, lb = np.log(x[0] if a is None else a), np.log(x[-1] if b is None else b)
        e = sum(c[i] * (lb ** (i + 1) - la ** (i + 1)) / (i + 1) for i in range(4))
        # a spline ends with its data: scipy integrates zero beyond it
        inside = not (a is not None and a < x[0]) and not (b is not None and b > x[-1]) and not (a is not None and a > x[-1]) and not (b is not None and b < x[0])
        if inside:
            ctx.eq("integral of the tabulated function between the limits", r, e, rtol=1e-6, atol=1e-7)
        ctx.true("warns exactly when the limits leave the table", bool(w) == bool((a is not None and a < x[0]) or (b is not None and b > x[-1])))
        unchanged(ctx, "abscissae not modified", x, sx)
        unchanged(ctx, "ordinates not modified", f, sf)

    return h


@exact
def linear(ctx):
    x = ctx.increasing("x", NX, -5, 5)
    c = [ctx.real(f"c{i}", -3, 3) for i in range(4)]
    f = c[0] + c[1] * x + c[2] * x**2 + c[3] * x**3
    kw, a, b = limits(ctx, -6, 6)
    r, w = call(x, f, log=False, **kw)
    la, lb = x[0] if a is None else a, x[-1] if b is None else b
    inside = not (a is not None and (a < x[0] or a > x[-1])) and not (b is not None and (b > x[-1] or b < x[0]))
    if inside:
        ctx.eq("integral of the tabulated function between the limits", r, sum(c[i] * (lb ** (i + 1) - la ** (i + 1)) / (i + 1) for i in range(4)), rtol=1e-6, atol=1e-7)
    ctx.true("warns exactly when the limits leave the table", bool(w) == bool((a is not None and a < x[0]) or (b is not None and b > x[-1])))


@exact
def zero_limit(ctx):
    """Zero is a limit like any other."""
    x = ctx.arr([ctx.real("x0", -5, -4), ctx.real("x1", -3, -2), ctx.real("x2", -1.5, -0.5), ctx.real("x3", 1, 2), ctx.real("x4", 3, 4)])
    c = [ctx.real(f"c{i}", -3, 3) for i in range(3)]
    f = c[0] + c[1] * x + c[2] * x**2
    F = lambda v: c[0] * v + c[1] * v**2 / 2 + c[2] * v**3 / 3
    z = ctx.choice("zero", [0, 0.0])
    ctx.eq("from zero", call(x, f, xmin=z, log=False)[0], F(x[4]), rtol=1e-6, atol=1e-7)
    ctx.eq("to zero", call(x, f, xmax=z, log=False)[0], -F(x[0]), rtol=1e-6, atol=1e-7)


@exact
def additive(ctx):
    """Splitting the range, and scaling the integrand."""
    x = ctx.increasing("x", NX, 0.2, 50)
    f = ctx.arr([ctx.real(f"f{i}", -3, 3) for i in range(NX)])
    g = ctx.arr([ctx.real(f"g{i}", -3, 3) for i in range(NX)])
    A = ctx.real("A", -2, 2)
    lg = ctx.choice("log", [True, False])
    I = lambda y, **k: call(x, y, log=lg, **k)[0]
    a = x[1] + ctx.real("t", 0.1, 0.9) * (x[2] - x[1])
    ctx.eq("linear in the integrand", I(f + A * g, xmin=a), I(f, xmin=a) + A * I(g, xmin=a), rtol=1e-6, atol=1e-7)
    ctx.eq("no limit is the whole table", I(f), I(f, xmin=x[0], xmax=x[-1]), rtol=1e-6, atol=1e-7)


def harnesses(tier="quick"):
    return [
        H("logarithmic", logarithmic(True), max_paths=200, bounds="5 abscissae, cubic in ln x, free limits"), H("default-is-logarithmic", logarithmic(False), max_paths=200),
        H("linear", linear, max_paths=200, bounds="5 abscissae of either sign, cubic"), H("zero-limit", zero_limit), H("linearity", additive),
    ]
