"""C18: projected correlation function."""
import contextlib

import numpy as np

import halomod.halo_model as HM
import halomod.integrate_corr as IC

from .common import H, constructed, fake, snapshot, unchanged

R0 = np.array([0.1, 0.3, 0.9, 2.7, 8.1, 24.3, 90.0])
LR = np.log(R0)


class Xi:
    """The tabulated correlation's spline as an arbitrary function of separation."""

    def __init__(self, ctx):
        self.f = ctx.uf("xi", numeric=lambda x: np.asarray(x, float) ** -1.7)
        self.ctx, self.calls = ctx, []

    def __call__(self, x, y, *a, k=3, **kw):
        self.calls.append((x, y, k))
        return lambda q, *b, **c: self.ctx.arr([self.f(v) for v in q])


@contextlib.contextmanager
def captured(ctx):
    """The spline as an arbitrary function and the quadrature as an arbitrary number per call, both recorded."""
    xi, seen = Xi(ctx), []

    def rule(y, x=None, dx=1.0, axis=-1):
        if np.ndim(y) == 2:  # an integral per row or per column
            pick = (lambda a, i: a[i]) if axis in (-1, 1) else (lambda a, i: a[:, i])
            return ctx.arr([rule(pick(y, i), pick(x, i) if np.ndim(x) == 2 else x) for i in range(np.shape(y)[1 - axis % 2])])
        v = ctx.real(f"integral{len(seen)}", -5, 5)
        seen.append((x, y, v))
        return v

    old = IC._spline, IC.simpson
    IC._spline, IC.simpson = xi, rule
    try:
        yield xi, seen
    finally:
        IC._spline, IC.simpson = old


def peak(a):
    """Peak, in units of the separation, of the integrand per ln y for a power law of slope a.

    2 y (1+y)^(2-2a) / (y+2) at y = (3 - 2a + s) / (2(a-1)), written over common denominators.
    """
    s = IC.np.sqrt(5 - 8 * a + 4 * a**2)
    return 2 ** (1 + 2 * a) * ((1 + s) / (a - 1)) ** (-2 * a) * ((3 - 2 * a + s) * (1 + s) ** 2 / 4) / ((a - 1) ** 2 * (-1 + 2 * a + s))


def starts(ctx, i, x, a, p):
    """In logarithms; a concrete slope within a tolerance."""
    label = f"starts at 1e-4 of the peak for the local slope[{i}]"
    if a == 1.3:
        w = float(np.log(peak(1.3) * 1e-4))
        ctx.le(label, w - 1e-7, IC.np.log(x / p))
        ctx.le(label + " (above)", IC.np.log(x / p), w + 1e-7)
    else:
        ctx.eq(label, x, peak(a) * 1e-4 * p)


def table(ctx, slopes):
    """A correlation with free amplitude and the given logarithmic slopes."""
    lx = [IC.np.log(ctx.real("A", 0.01, 100))]
    for i, s in enumerate(slopes):
        lx.append(lx[-1] - s * (LR[i + 1] - LR[i]))
    return ctx.arr([IC.np.exp(v) for v in lx])


def integrals(kinds, at):
    """kinds: steep/flat slope of each interval of the table; at: the interval each projected separation lies in (before the first: -1, beyond the last: their number)."""

    def f(ctx):
        sl = [ctx.real(f"slope{i}", *{"steep": (1.31, 3), "flat": (-1, 1.29)}[k]) for i, k in enumerate(kinds)]
        xi = table(ctx, sl)
        r = R0[: len(xi)]
        n = len(kinds)
        edges = [0.05, *r, 12 * r[-1]]
        rp = ctx.arr([ctx.real(f"rp{i}", edges[j + 1] * 1.001, edges[j + 2] * 0.999) for i, j in enumerate(at)])
        top = max(edges[j + 2] for j in at)
        lim = ctx.real("lim", 1.1 * top, 30 * top)
        su, sr = snapshot(xi), snapshot(rp)
        near = [min(max(j, 0), n - 1) for j in at]  # the interval containing the separation, or the nearest
        a = [1.3 if kinds[j] == "flat" else sl[j] for j in near]
        with captured(ctx) as (fit, seen):
            got = IC.projected_corr_gal(r, xi, lim, rp)
        for tx, ty, tk in fit.calls:
            ctx.true("cubic interpolation of the given table", tk == 3)
            ctx.eq("its separations", ctx.arr(tx), ctx.arr(r))
            ctx.eq("its values", ctx.arr(ty), xi)
        ctx.true("one integral per separation", len(seen) == len(rp) == len(got))
        for i, (x, y, v) in enumerate(seen):
            p = rp[i]
            ctx.eq(f"ends at the line-of-sight limit[{i}]", x[-1] + p, lim)
            starts(ctx, i, x[0], a[i], p)
            ctx.pos(f"beyond the separation itself[{i}]", x[0])
            for j in (0, 1, len(x) // 2, len(x) - 1):
                q = x[j]
                ctx.eq(f"integrand at a separation p+q[{i},{j}]", y[j], (q + p) * fit.f(q + p) / IC.np.sqrt((q + 2 * p) * q))
            ctx.eq(f"twice the integral[{i}]", got[i], 2 * v)
        unchanged(ctx, "correlation not modified", xi, su)
        unchanged(ctx, "separations not modified", rp, sr)

    return f


def kinds_of_separations(ctx):
    """Integers, lists and no separations at all."""
    xi = table(ctx, [1.8, 1.5, 2.0])
    r = R0[:4]
    for rp in ([1, 2], (1, 2), np.array([1, 2]), np.array([1.0, 2.0])):
        with captured(ctx) as (fit, seen):
            got = IC.projected_corr_gal(r, xi, 90.0, rp)
        for i in range(2):
            ctx.eq(f"twice the integral[{i}]", got[i], 2 * seen[i][2])
            ctx.eq(f"to the limit[{i}]", seen[i][0][-1] + rp[i], 90.0, rtol=1e-6)
    with captured(ctx) as (fit, seen):
        got = IC.projected_corr_gal(r, xi, 90.0)
    ctx.true("at the table's own separations", len(got) == len(r) == len(seen))
    for i in range(4):
        ctx.eq(f"to the limit[{i}]", seen[i][0][-1] + r[i], 90.0, rtol=1e-6)
        ctx.eq(f"twice the integral (own)[{i}]", got[i], 2 * seen[i][2])


def grids(ctx):
    lo, f = ctx.real("lo", 0.01, 0.5), ctx.real("f", 20, 100)
    hi = lo * f
    n = ctx.choice("n", [2, 3, 5])
    g = fake(IC.ProjectedCF, rp_min=lo, rp_max=hi, rp_num=n, rp_log=True).rp
    ctx.true("number", len(g) == n)
    ctx.eq("first", g[0], lo)
    ctx.eq("last", g[-1], hi)
    for i in range(n - 2):
        ctx.eq(f"evenly spaced in log[{i}]", g[i] * g[i + 2], g[i + 1] ** 2)
    g = fake(IC.ProjectedCF, rp_min=lo, rp_max=hi, rp_num=n, rp_log=False).rp
    ctx.true("number", len(g) == n)
    ctx.eq("first (linear)", g[0], lo)
    ctx.eq("last (linear)", g[-1], hi)
    for i in range(n - 2):
        ctx.eq(f"evenly spaced[{i}]", g[i] + g[i + 2], 2 * g[i + 1])
    v = [lo, lo * 3, hi]
    for kind in (list, ctx.arr):
        g = fake(IC.ProjectedCF, rp_min=kind(v), rp_max=1, rp_num=30, rp_log=True).rp
        ctx.eq("given separations are used", g, ctx.arr(v))


def limits(ctx):
    hi = ctx.real("hi", 1, 100)
    rp = ctx.arr([hi / 9, hi, hi / 3])
    L = ctx.real("lim", 10, 300)
    ctx.eq("given limit", fake(IC.ProjectedCF, rp=rp, proj_limit=L).rlim, L)
    d = fake(IC.ProjectedCF, rp=rp, proj_limit=None).rlim
    ctx.le("at least 80", 80, d)
    ctx.le("at least five times the largest separation", 5 * hi, d)
    ctx.true("and one of them", (d - 80) * (d - 5 * hi) == 0)
    n = ctx.choice("n", [2, 4])
    first = ctx.choice("smallest is", [0, 1, 2])
    rp = ctx.arr([hi / 9, hi, hi / 3][-first:] + [hi / 9, hi, hi / 3][:-first])
    lim = ctx.real("rl", 200, 500)
    r = fake(IC.ProjectedCF, rp=rp, rlim=lim, rnum=n).r
    ctx.true("number", len(r) == n)
    ctx.eq("from the smallest separation", r[0], hi / 9)
    ctx.eq("to the limit", r[-1], lim)
    for i in range(n - 2):
        ctx.eq(f"evenly spaced in log[{i}]", r[i] * r[i + 2], r[i + 1] ** 2)


def wiring(ctx):
    xi = table(ctx, [1.8, 1.1, 2.0])
    rp = ctx.arr([ctx.real("p0", 0.1, 1), ctx.real("p1", 1, 10)])
    lim = ctx.real("lim", 50, 300)
    o = fake(IC.ProjectedCF, r=R0[:4], corr_auto_tracer=xi, rlim=lim, rp=rp)
    with captured(ctx) as (fit, seen):
        got = o.projected_corr_gal
    ctx.eq("the tracer correlation is projected", ctx.arr(fit.calls[0][1]), xi)
    ctx.eq("at the model's separations", ctx.arr(fit.calls[0][0]), ctx.arr(R0[:4]))
    for i in range(2):
        ctx.eq(f"to the limit[{i}]", seen[i][0][-1] + rp[i], lim)
        ctx.eq(f"twice the integral[{i}]", got[i], 2 * seen[i][2])


def construct(ctx):
    """What a model is constructed with is what it uses."""
    P = {k: ctx.real(k, *r) for k, r in {"rp_min": (0.01, 1), "rp_max": (2, 90), "proj_limit": (10, 300)}.items()}
    names = ["rp_min", "rp_max", "proj_limit", "rp_num", "rp_log", "rnum"]
    o, rest = constructed(IC.ProjectedCF, HM.HaloModel, names, rp_num=7, rp_log=False, mdef=3, **P)
    for k, v in P.items():
        ctx.eq(f"{k} as given", getattr(o, k), v)
    ctx.true("numbers and options as given", o.rp_num == 7 and o.rp_log is False and rest["mdef"] == 3)
    ctx.true("five times as many separations as projected ones", rest["rnum"] == 35)
    ctx.true("unless given", constructed(IC.ProjectedCF, HM.HaloModel, names, rp_num=7, rnum=11)[1]["rnum"] == 11)
    d = constructed(IC.ProjectedCF, HM.HaloModel, names)[0]
    ctx.eq("default limits", ctx.arr([d.rp_min, d.rp_max]), ctx.arr([0.01, 50]))
    ctx.true("default options", d.rp_num == 30 and d.rp_log is True and d.proj_limit is None)


def harnesses(tier="quick"):
    b = "tables of 2 to 4 separations with free slopes and amplitude; 1 to 4 free projected separations; free limit; quadrature taken as the integral"
    sets = {
        "steep": (("steep",) * 2, (0, 1)), "flat": (("flat",), (0,)), "mixed": (("steep", "flat", "steep"), (0, 1, 2)), "unsorted": (("steep", "flat", "steep"), (2, 1, 0)),
        "one-interval": (("steep", "flat", "steep"), (2, 2, 2)), "beyond-the-table": (("flat", "steep"), (2, -1)), "before-the-table": (("steep", "flat"), (-1, 1)),
    }
    out = [H(f"integral-{n}", integrals(*k), bounds=b) for n, k in sets.items()]
    out += [H(n, f, bounds=b, logthin=True) for n, f in (("kinds-of-separations", kinds_of_separations), ("grids", grids), ("limits", limits), ("construction", construct), ("wiring", wiring))]
    return out
