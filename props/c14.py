"""C14: transforms between configuration and Fourier space."""
import warnings

import numpy as np

import halomod.tools as TL

from symx import shim
from symx import terms as T

from .common import H, snapshot, unchanged


def node(h, n):
    """Ogata (2005): abscissa and weight of the n-th node for a sine transform."""
    t = h * n
    s = np.pi * np.sinh(t)
    x = np.pi * n * np.tanh(s / 2)
    return x, np.pi * np.sin(x) * x * (np.pi * t * np.cosh(t) + np.sinh(s)) / (1 + np.cosh(s))


def opaque(f):
    """Hyperbolic functions of the node formula as opaque reals: the identity does not depend on them."""

    def g(ctx):
        shim.HYP[0] = True
        try:
            f(ctx)
        finally:
            shim.HYP[0] = False

    return g


def plain_pi(f):
    """The node positions are concrete here: keep them plain numbers."""

    def g(ctx):
        if not ctx.sym:
            return f(ctx)
        d = vars(TL.np)
        old = d.get("pi")
        d["pi"] = np.pi
        try:
            f(ctx)
        finally:
            d.pop("pi") if old is None else d.update(pi=old)

    return g


def quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


def within(ctx, label, a, b, tol):
    """Equal up to the rounding of concrete node positions."""
    ctx.le(label, a - b, tol)
    ctx.le(label, b - a, tol)


def fresh():
    if hasattr(TL._get_sumspace, "cache_clear"):
        TL._get_sumspace.cache_clear()


def scale(var, v):
    return 1 / (2 * np.pi**2) / v**3 if var == "r" else 4 * np.pi / v**3


def hankel(var):
    """One pass over all the nodes, any spacing, variable and function."""

    @opaque
    def f(ctx):
        h, v = ctx.real("h", 0.81, 1.05), ctx.arr([ctx.real("v", 0.1, 10)])  # int(3.2/h) = 3
        P = ctx.uf("P", numeric=lambda k: np.exp(-k))
        fresh()
        sv = snapshot(v)
        out = TL.hankel_transform(lambda k: ctx.arr([P(x) for x in k]), v, var, h=h, chunksize=3, atol=1e-3, rtol=1e-3)
        unchanged(ctx, "variable not modified", v, sv)
        ctx.same_shape("one value per variable", out, (1,))
        nodes = [node(h, j) for j in (1, 2, 3)]
        ctx.eq("Ogata sum, normalised", out[0], sum(w * P(x / v[0]) for x, w in nodes) * scale(var, v[0]), rtol=1e-9, atol=1e-12)

    return f


def chunks(listed):
    """Chunks of nodes are added until two successive sums agree, or the useful nodes are used up."""

    @plain_pi
    def f(ctx):
        var = ctx.choice("var", ["r", "k"])
        how = ctx.choice("chunks", ["one", "stops when converged", "never converges", "converges later"])
        h = 0.9 if how != "converges later" else 0.7  # 3 or 4 nodes
        chunk, atol = {"one": (3, 0.5), "stops when converged": (1, 50.0), "never converges": (1, 0.5), "converges later": (1, 0.5)}[how]
        v = np.array([0.7, 1.9])
        nodes = [node(h, j) for j in (1, 2, 3, 4)]
        # the function is given by its (arbitrary) terms at the nodes of each transform
        t = [[ctx.real(f"t{i}{j}", 1, 10) if (how, j) != ("converges later", 1) else ctx.real(f"t{i}{j}", 0, 0.4) for j in range(4)] for i in range(2)]

        def fun(i):
            def P(k):
                out = []
                for q in k:
                    hit = [(a, j) for a in ([i] if listed else range(2)) for j in range(4) if abs(q * v[a] / nodes[j][0] - 1) < 1e-9]
                    ctx.true("evaluated at a node over the variable", len(hit) == 1)
                    a, j = hit[0]
                    out.append(t[a][j] / nodes[j][1])
                return ctx.arr(out)

            return P

        fresh()
        out = TL.hankel_transform([fun(0), fun(1)] if listed else fun(0), v, var, h=h, chunksize=chunk, atol=atol, rtol=0.0)
        fresh()
        for i in range(2):
            # the last chunk starts below nmax
            S = sum(t[i][:3]) if how == "one" else (t[i][0] if how == "stops when converged" else t[i][0] + t[i][1])
            within(ctx, "Ogata sum, normalised", out[i], S * (scale(var, 1) if not ctx.sym else 1 / (2 * ctx.c(np.pi) ** 2) if var == "r" else 4 * ctx.c(np.pi)) / v[i] ** 3, 1e-9)

    return f


@opaque
def hankel_nan(ctx):
    """Undefined values count as zero; unknown variables are refused."""
    h = ctx.c(0.9)
    v = ctx.arr([ctx.c(0.7)])
    t = [ctx.real(f"t{j}", 1, 10) for j in range(3)]
    if hasattr(TL._get_sumspace, "cache_clear"):
        TL._get_sumspace.cache_clear()

    def f(k):
        r = np.empty(len(k), dtype=object if ctx.sym else float)
        r[:] = [x / node(h, j + 1)[1] for j, x in enumerate(t)]
        r[1] = np.nan
        return ctx.arr(list(r)) if ctx.sym else r

    out = TL.hankel_transform(f, v, "r", h=h, chunksize=3, atol=1e-3, rtol=1e-3)
    S = t[0] + t[2]
    ctx.eq("undefined values count as zero", out[0], S / (2 * np.pi**2 * v[0] ** 3), rtol=1e-9, atol=1e-12)
    for bad in ("x", "q"):
        try:
            TL.hankel_transform(f, v, bad)
            ctx.true("unknown variable is refused", False)
        except ValueError:
            ctx.true("unknown variable is refused", True)


HO = 1.2  # two nodes, at x1 and about 2 x1
SHAPE = [1.0, 1.5, 2.2, 3.3]
# offsets of the table relative to the first node (the table is concrete, its contents are symbolic)
WHERE = {"all tabulated": (0.72, 0.95), "first below": (1.1, 1.8), "both below": (2.2, 2.5), "last above": (0.35, 0.55), "both above": (0.1, 0.25)}


def ogata(reverse, dim):
    """Nodes inside and beyond the table (linear continuation): every table content."""

    @plain_pi
    def f(ctx):
        nodes = [node(HO, j) for j in (1, 2)]
        where = ctx.choice("nodes", list(WHERE))
        r0 = ctx.choice("r", [0.7, 3.0] if dim == 1 else [1.3])
        g = WHERE[where][ctx.choice("f", [0, 1])] if dim == 1 else WHERE[where][0]
        r = np.array([r0, r0 * 1.01] if dim == 2 else [r0])
        k = np.array([nodes[0][0] * g * s / r0 for s in SHAPE])
        n = len(r)
        # a table that is not positive at one end is not continued as a power there
        low, high = where in ("first below", "both below"), where in ("last above", "both above")
        neg = ({"below": 0, "above": 3} if low or high else {}).get("below" if low else "above") if ctx.choice("negative end", [False, True]) else None
        pos = ctx.choice("power_pos", [None, (True, True)]) if (low and neg == 0) or (high and neg == 3) else (False, False)
        p = [[ctx.real(f"p{i}{j}", 0.1, 10) * (-1 if j == neg else 1) for j in range(4)] for i in range(n)]
        P = ctx.arr([x for row in p for x in row]).reshape(n, 4) if dim == 2 else ctx.arr(p[0])
        kw = {} if pos is None else {"power_pos": pos}
        fn = TL.corr_to_power_ogata if reverse else TL.power_to_corr_ogata
        L = np.log(k)

        def val(kk, y, side):
            lk = np.log(kk)
            if side:
                a, b = (0, 1) if side < 0 else (3, 2)
                return y[a] + (y[b] - y[a]) * ((lk - L[a]) / (L[b] - L[a]))
            return sum(TL.spline(L, np.eye(4)[j], k=3)(lk) * y[j] for j in range(4))

        sides = {"all tabulated": (0, 0), "first below": (-1, 0), "both below": (-1, -1), "last above": (0, 1), "both above": (1, 1)}[where]
        terms = [[w * val(x / r[i], p[i], sd) for (x, w), sd in zip(nodes, sides)] for i in range(n)]
        # both outcomes of the convergence test; it stops at the first node beyond the table
        loose = high and ctx.choice("tolerance", ["tight", "loose"]) == "loose"
        out = quiet(fn, P, k, r, h=HO, atol=1e9 if loose else 0.0, rtol=0.0, **kw)
        ctx.same_shape("one value per output coordinate", out, (n,))
        for i in range(n):
            e = terms[i][0] if loose and where == "both above" else terms[i][0] + terms[i][1]
            c = ctx.c(np.pi)
            within(ctx, "Ogata sum of the tabulated function, continued beyond its ends", out[i], e * (4 * c if reverse else 1 / (2 * c**2)) / r[i] ** 3, 1e-7)

    return f


def powerlaw(reverse):
    """Nodes beyond a table of positive values: continued as a power of the coordinate."""

    @plain_pi
    def f(ctx):
        side = ctx.choice("side", ["below"] if reverse else ["below", "above"])
        dflt = ctx.choice("power_pos", [None, (True, True)])
        slope = ctx.choice("ratio of the end values", [0.5, 3.0])
        r0, g = 0.7, 2.3 if side == "below" else 0.2
        nodes = [node(HO, 1), node(HO, 2)]
        k = np.array([nodes[0][0] * g * s / r0 for s in SHAPE])
        A = ctx.real("A", 0.1, 10)
        p = [A, A * slope, ctx.real("p2", 0.1, 10), ctx.real("p3", 0.1, 10)][:: 1 if side == "below" else -1]
        fn = TL.corr_to_power_ogata if reverse else TL.power_to_corr_ogata
        out = quiet(fn, ctx.arr(p), k, np.array([r0]), h=HO, atol=0.0, rtol=0.0, **({} if dflt is None else {"power_pos": dflt}))
        a, b = (0, 1) if side == "below" else (3, 2)
        L = np.log(k)
        e = A * float(sum(w * slope ** ((np.log(x / r0) - L[a]) / (L[b] - L[a])) for x, w in nodes))
        c = ctx.c(np.pi)
        within(ctx, "Ogata sum of the power-law continuation", out[0], e * (4 * c if reverse else 1 / (2 * c**2)) / r0**3, 1e-6)

    return f


def ends2d(reverse):
    """A table of functions is continued as powers beyond an end unless one of them is not positive there."""

    @plain_pi
    def f(ctx):
        side = ctx.choice("side", ["below", "above"])
        at = ctx.choice("value that is not positive", [(2, 0), (1, 1), (1, 3), (0, 3), (0, 2)])
        r0, g = 0.7, 2.3 if side == "below" else 0.2
        nodes = [node(HO, 1), node(HO, 2)]
        k = np.array([nodes[0][0] * g * s / r0 for s in SHAPE])
        r = np.array([r0, r0 * 1.01, r0 * 1.02])
        slopes = [0.5, 3.0, 1.2]
        rows, A = [], []
        for i in range(3):
            a = ctx.real(f"A{i}", 0.1, 10)
            row = [a, a * slopes[i], ctx.real(f"p{i}2", 0.1, 10), ctx.real(f"p{i}3", 0.1, 10)][:: 1 if side == "below" else -1]
            if i == at[0]:
                row[at[1]] = -1 * row[at[1]]
            A.append(row)
        P = ctx.arr([x for row in A for x in row]).reshape(3, 4)
        fn = TL.corr_to_power_ogata if reverse else TL.power_to_corr_ogata
        out = quiet(fn, P, k, r, h=HO, atol=0.0, rtol=0.0)
        a, b = (0, 1) if side == "below" else (3, 2)
        law = at[1] not in (a, b) and not (reverse and side == "above")
        L, c = np.log(k), ctx.c(np.pi)
        for i in range(3):
            t = [((np.log(x / r[i]) - L[a]) / (L[b] - L[a]), w) for x, w in nodes]
            y = A[i]
            e = y[a] * float(sum(w * slopes[i] ** u for u, w in t)) if law else sum(w * (y[a] + (y[b] - y[a]) * u) for u, w in t)
            within(ctx, f"continuation of each function[{i}]", out[i], e * (4 * c if reverse else 1 / (2 * c**2)) / r[i] ** 3, 1e-5)

    return f


def symint(f):
    """The number of quadrature points is left symbolic (the grid is read as converged)."""

    def g(ctx):
        if ctx.sym:
            TL.int = lambda x: x if isinstance(x, T.R) else int(x)
        try:
            f(ctx)
        finally:
            vars(TL).pop("int", None)

    return g


@symint
def simpson(ctx):
    """power_to_corr: the defining integral, over the whole range kept."""
    kind = ctx.choice("separation", ["vector", "scalar", "integer"])
    r = {"vector": lambda: ctx.arr([ctx.real("r0", 0.5, 3), ctx.real("r1", 3.2, 9)]), "scalar": lambda: ctx.real("r", 0.5, 3), "integer": lambda: np.array([2])}[kind]()
    a = ctx.real("a", 0.2, 3)
    if ctx.sym:
        P = lambda lk: ctx.arr([ctx.uf("P")(x, a) for x in lk]) if not hasattr(lk, "info") else type(lk)(ctx.uf("P")(lk[0], a), lk.info)
        out = TL.power_to_corr(P, r)
    else:
        out = TL.power_to_corr(lambda lk: np.exp(-((np.exp(lk) * a) ** 2)), r)
    rs = list(r) if np.ndim(r) else [r]
    for i, x in enumerate(rs):
        if ctx.sym:
            x = ctx.c(x)
            hi = 501.5 * ctx.c(np.pi) / x
            body = lambda u: ctx.uf("P")(u, a) * np.exp(u) ** 2 * np.sin(np.exp(u) * x) / x
            e = ctx.integral(body, np.log(ctx.c(1e-6)), np.log(hi)) / (2 * np.pi**2)
            ctx.eq("xi(r) = 1/(2 pi^2) int k^3 P sinc(kr) dln k", out[i], e)
        else:
            ctx.eq("transform of a Gaussian", out[i], np.exp(-((x / (2 * a)) ** 2)) / (8 * np.pi**1.5 * a**3), rtol=2e-3, atol=1e-5)


def window(ctx):
    """The top hat: 3/(R^3) int_0^R r^2 sin(kr)/(kr) dr."""
    k, R = ctx.increasing("k", 2, 0.1, 20), ctx.real("R", 0.1, 5)
    W = TL.exclusion_window(k, R)
    for i in range(2):
        ctx.deriv("k R^3 W/3 is the running integral of r sin(kr)", lambda x, i=i: k[i] * x**3 * TL.exclusion_window(k[i], x) / 3, R, R * np.sin(k[i] * R))
        ctx.eq("vector of wavenumbers", W[i], TL.exclusion_window(k[i], R))
    ctx.limit0("the integral starts at zero", lambda x: k[0] * x**3 * TL.exclusion_window(k[0], x) / 3, R, 0, small=1e-3, atol=1e-6)


def harnesses(tier="quick"):
    return [
        H("hankel-r", hankel("r"), bounds="3 nodes, one pass"), H("hankel-k", hankel("k")), H("hankel-chunks", chunks(False), max_paths=40, bounds="3-4 nodes, chunks of 1 and 3"), H("hankel-list", chunks(True), max_paths=40), H("hankel-undefined", hankel_nan),
        H("power-to-corr", ogata(False, 1), max_paths=200, bounds="2 nodes, 4 tabulated points"), H("corr-to-power", ogata(True, 1), max_paths=200), H("power-to-corr-2d", ogata(False, 2), max_paths=200),
        H("power-to-corr-ends", powerlaw(False), bounds="2 nodes, both beyond the table"), H("corr-to-power-ends", powerlaw(True)),
        H("power-to-corr-ends-2d", ends2d(False), bounds="3 functions, 2 nodes beyond the table"), H("corr-to-power-ends-2d", ends2d(True)),
        H("simpson", simpson, timeout=300, bounds="quadrature read as converged"), H("window", window),
    ]
