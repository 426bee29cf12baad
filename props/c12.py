"""C12: splines with prescribed behaviour beyond their data."""
import numpy as np

import halomod.tools as TL

from .common import H, snapshot, unchanged

NX = 6


def data(ctx, kind):
    x = ctx.increasing("x", NX, 0.1, 100)
    if kind == "free":
        return x, ctx.arr([ctx.real(f"y{i}", -10, 10) for i in range(NX)]), None
    if kind == "positive":
        return x, ctx.arr([ctx.real(f"y{i}", 0.1, 10) for i in range(NX)]), None
    # the three lowest and three highest points follow one power law each
    s = -1 if kind == "negative law" else 1
    a, n, b, q = ctx.real("a", 0.1, 10), ctx.real("n", -3, 3), ctx.real("b", 0.1, 10), ctx.real("q", -3, 3)
    nl = ctx.choice("points of the lower law", [3, 2])
    nu = 5 - nl
    free = [s * ctx.real("y", 0.1, 10)]
    y = [s * a * v**n for v in x[:nl]] + free + [s * b * v**q for v in x[NX - nu :]]
    return x, ctx.arr(y), ((s * a, n), (s * b, q), nl, nu)


def queries(ctx, x):
    lo, hi = ctx.real("lo", 0.01, 0.1), ctx.real("hi", 100, 1000)
    mid = x[2] + ctx.real("t", 0.05, 0.95) * (x[3] - x[2])
    return lo, mid, hi


def warnless(f):
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


def evaluate(ctx, sp, x, ref, qs, below, above):
    """Interior, both sides, both ends; scalar and vector, any order, any shape."""
    lo, mid, hi = qs
    vals = {"below": (lo, below(lo)), "inside": (mid, ref(mid)), "above": (hi, above(hi)), "at the first point": (x[0], ref(x[0])), "at the last point": (x[-1], ref(x[-1]))}
    for what, (v, e) in vals.items():
        ctx.eq(f"{what} (scalar)", sp(v), e, rtol=1e-6)
    order = ["above", "inside", "at the last point", "below", "at the first point"]
    q = ctx.arr([vals[w][0] for w in order])
    s = snapshot(q)
    r = sp(q)
    ctx.same_shape("one value per query", r, (5,))
    for i, w in enumerate(order):
        ctx.eq(f"{w} (vector)", r[i], vals[w][1], rtol=1e-6)
    unchanged(ctx, "queries not modified", q, s)
    r2 = sp(ctx.arr([lo, hi]))
    ctx.eq("only beyond the data", r2[0], below(lo), rtol=1e-6)
    ctx.eq("only beyond the data", r2[1], above(hi), rtol=1e-6)
    g = sp(q[:4].reshape(2, 2))
    ctx.same_shape("shape of the queries", g, (2, 2))
    for i in range(4):
        ctx.eq("entries of a matrix of queries", g[i // 2, i % 2], vals[order[i]][1], rtol=1e-6)


def mode(lower, upper):
    def h(ctx):
        kind = {"power_law": ctx.choice("law", ["law", "negative law"])}.get("power_law" if "power_law" in (lower, upper) else "", "free")
        x, y, law = data(ctx, kind)
        k = ctx.choice("order", [3, 1])
        if k == 1:
            kw = {"k": 1}
        else:
            kw = {}
        A, B = ctx.real("A", 0.5, 2), ctx.real("B", -1, 1)
        f = lambda v: A + v * v * B / 1e6
        qs = queries(ctx, x)
        ml, mu = ctx.choice("matching", [(True, True), (False, True), (True, False)]) if "call" in (lower, upper) else (True, True)
        if not ml or "call" not in (lower, upper):
            kw["match_lower"] = ml
        if not mu or "call" not in (lower, upper):
            kw["match_upper"] = mu
        mk = {"call": f, "zero": TL._zero}
        sx, sy = snapshot(x), snapshot(y)
        if law:
            kw.update(lower_power_law_n=law[2], upper_power_law_n=law[3])
        sp = warnless(lambda: TL.ExtendedSpline(x, y, lower_func=mk.get(lower, lower), upper_func=mk.get(upper, upper), **kw))
        unchanged(ctx, "abscissae not modified", x, sx)
        unchanged(ctx, "ordinates not modified", y, sy)
        ref = TL.spline(x, y, k=k)

        def side(name, end, yend, match, lw):
            if name == "power_law":
                return lambda v: lw[0] * v ** lw[1]
            return {None: ref, "boundary": lambda v: yend, "zero": lambda v: 0 * v, "call": (lambda v: f(v) * yend / f(end)) if match else f}[name]

        evaluate(ctx, sp, x, ref, qs, side(lower, x[0], y[0], ml, law and law[0]), side(upper, x[-1], y[-1], mu, law and law[1]))

    return h


def mixed(ctx):
    """A power law cannot continue data of both signs: zero instead; all points count, not the first only."""
    x, y, _ = data(ctx, "positive")
    at = ctx.choice("odd one out", [0, 1, 2])
    z = y.copy()
    z[at], z[NX - 1 - at] = -z[at], -z[NX - 1 - at]
    sp = warnless(lambda: TL.ExtendedSpline(x, z, lower_func="power_law", upper_func="power_law", lower_power_law_n=3, upper_power_law_n=3))
    lo, mid, hi = queries(ctx, x)
    ctx.eq("zero below", sp(lo), 0)
    ctx.eq("zero above", sp(hi), 0)
    r = sp(ctx.arr([hi, lo]))
    ctx.eq("zero above", r[0], 0)
    ctx.eq("zero below", r[1], 0)


def continuity(ctx):
    """A matched function meets the data at the end."""
    x, y, _ = data(ctx, "free")
    A, n = ctx.real("A", 0.5, 2), ctx.real("n", -2, 2)
    f = lambda v: A * v**n
    sp = TL.ExtendedSpline(x, y, lower_func=f, upper_func=f)
    ctx.eq("lower function meets the first point", sp.lfunc(x[0]), y[0])
    ctx.eq("upper function meets the last point", sp.ufunc(x[-1]), y[-1])
    z = lambda v: 0 * v
    sp = TL.ExtendedSpline(x, y, lower_func=z, upper_func=z)
    ctx.eq("a function that vanishes stays zero", sp(ctx.arr([ctx.real("lo", 0.01, 0.1)]))[0], 0)


def integers(ctx):
    """Integer queries give the values of the same real queries."""
    x = ctx.arr([ctx.real("x0", 1.1, 2), 3, 4, ctx.real("x3", 4.5, 6)])
    y = ctx.arr([ctx.real(f"y{i}", 0.1, 10) for i in range(4)])
    lower = ctx.choice("lower", ["power_law", "boundary", None])
    sp = warnless(lambda: TL.ExtendedSpline(x, y, lower_func=lower, upper_func="boundary", lower_power_law_n=2))
    q = [1, 3, 4, 9]
    a, b = sp(np.array(q)), sp(np.array(q, dtype=float))
    c = sp(list(q))
    for i in range(4):
        ctx.eq("integer queries", a[i], b[i])
        ctx.eq("list of integers", c[i], b[i])
        ctx.eq("integer scalar", sp(q[i]), b[i])


def errors(ctx):
    x, y, _ = data(ctx, "positive")
    lo, hi = ctx.real("dlo", 0.01, 200), ctx.real("dhi", 0.01, 200)

    def raises(f):
        try:
            f()
        except ValueError:
            return True
        return False

    bad = raises(lambda: TL.ExtendedSpline(x, y, domain=(lo, hi)))
    ctx.true("rejected exactly when data lie outside the domain", bool(bad) == bool(x[0] < lo or x[-1] > hi))
    ctx.true("unknown behaviour is rejected", raises(lambda: TL.ExtendedSpline(x, y, lower_func="nonsense")) and raises(lambda: TL.ExtendedSpline(x, y, upper_func=3)))


def helpers(ctx):
    x = ctx.increasing("x", 2, 0.1, 100)
    A, B, off, n = ctx.real("A", -3, 3), ctx.real("B", -3, 3), ctx.real("off", -2, 2), ctx.real("n", -3, 3)
    s = TL._SumCallable(lambda v: A * v, lambda v: B / v, off)
    p = TL._PowerLawK(n)
    for i in range(2):
        ctx.eq("sum of two functions and an offset", s(x)[i], A * x[i] + B / x[i] + off)
        ctx.eq("sum without offset", TL._SumCallable(lambda v: A * v, lambda v: B / v)(x)[i], A * x[i] + B / x[i])
        ctx.eq("power law", p(x)[i], x[i] ** n)


def harnesses(tier="quick"):
    pairs = [("power_law", "power_law"), ("boundary", None), (None, "boundary"), ("call", "call"), ("zero", "power_law"), ("power_law", "zero"), ("call", "power_law"), ("boundary", "zero")]
    return [H(f"{a}/{b}", mode(a, b), bounds="6 data points, 5 queries") for a, b in pairs] + [
        H("mixed-signs", mixed), H("continuity", continuity), H("integers", integers, max_paths=200), H("errors", errors, max_paths=200), H("helpers", helpers)]
