"""C11: halo exclusion: which pairs of haloes make the two-halo term."""
import numpy as np

import halomod.halo_exclusion as HX

from symx import terms as T

from .common import H, snapshot, unchanged

Q = 8  # ratio of neighbouring masses: radii double
JIT = ("dblsimps_", "makeW_", "makeH_", "dbltrapz_", "integrate_dblsphere_", "integrate_dblell", "density_mod_", "prob_inner_", "prob_inner_r_")
SIMPSON = {3: [1, 4, 1], 5: [1, 4, 2, 4, 1]}


def thr(name):
    """Separations over the sum of two radii where the pairs admitted change."""
    return {"NoExclusion": (), "Sphere": (1,), "DblSphere": (1,)}.get(name.rstrip("_"), (0.8, 1.09))


class plain_numba:
    """The functions numba compiles, as they are written."""

    def __enter__(self):
        self.old = {n: getattr(HX, n) for n in JIT if hasattr(HX, n)}
        for n, f in self.old.items():
            setattr(HX, n, getattr(f, "py_func", f))

    def __exit__(self, *a):
        for n, f in self.old.items():
            setattr(HX, n, f)


class Setup:
    """Masses a factor 8 apart (halo radii a factor 2); separations in units of the radius of the lightest."""

    def __init__(self, ctx, nm, nk, nr, bias2d, xmin=None, rfac=1.5, law=None, rlim=(0.3, 60), dens=None, thr=()):
        self.ctx, self.nm, self.nk, self.nr = ctx, nm, nk, nr
        self.m0 = 2.0
        self.rho = 3 * self.m0 / (4 * HX.np.pi)  # the lightest halo has unit radius
        self.m = np.array([self.m0 * float(Q**i) for i in range(nm)])
        # between two neighbouring thresholds of any model and separation (rounding decides at one)
        R = [2**i for i in range(nm)]
        thr = [f * (a + b) / rfac**j for f in thr for a in R for b in R for j in range(nr)]
        thr = sorted({round(v, 12) for v in thr if rlim[0] < v < rlim[1]} | set(rlim))
        cells = [(v * (1 + 1e-6), w * (1 - 1e-6)) for v, w in zip(thr, thr[1:])]
        lo, hi = ctx.choice("cell", cells) if len(cells) > 1 else cells[0]
        u = lo + (hi - lo) * ctx.real("t", 0, 1)
        self.u = [u * rfac**j for j in range(nr)]
        self.r = ctx.arr(self.u)
        if law is None:
            self.d = dens or [ctx.real(f"d{i}", 0.1, 1) for i in range(nm)]
            self.pw = [[ctx.real(f"p{k}{i}", 0.1, 1) for i in range(nm)] for k in range(nk)]
            self.b = [[ctx.real(f"b{j}{i}", 0.5, 2) for i in range(nm)] for j in range(nr if bias2d else 1)]
        else:
            self.d, self.pw, self.b = law(self)
        self.bias2d = bias2d
        self.density = ctx.arr(self.d) if dens is None else np.array(dens)
        self.power = ctx.arr([v for row in self.pw for v in row]).reshape(nk, nm)
        self.bias = ctx.arr([v for row in self.b for v in row]).reshape(nr, nm) if bias2d else ctx.arr(self.b[0])
        self.t = xmin
        if xmin:
            self.xmin = self.m0 * xmin
        self.snap = [snapshot(v) for v in (self.m, self.density, self.power, self.bias, self.r)]

    def make(self, cls, **kw):
        if self.t is not None:
            kw["xmin"] = self.xmin
        return cls(m=self.m, density=self.density, power_integrand=self.power, bias=self.bias, r=self.r, halo_density=self.rho, **kw)

    def kept(self):
        for a, s in zip((self.m, self.density, self.power, self.bias, self.r), self.snap):
            unchanged(self.ctx, "inputs not modified", a, s)

    def f(self, j, k):
        """Integrand per log-mass."""
        return [self.pw[k][i] * self.b[j if self.bias2d else 0][i] * self.m[i] for i in range(self.nm)]

    def n(self):
        return [self.d[i] * self.m[i] for i in range(self.nm)]


def weights(S, cls, what):
    """Quadrature in log-mass: Simpson on the grid (trapezoid where the model says so), spline from xmin."""
    dl = S.ctx.c(np.log(S.ctx.c(float(Q))))
    trap = {"DblEllipsoid": ("density",), "DblEllipsoid_": ("density", "power"), "NgMatched": ("density",), "NgMatched_": ("density",)}.get(cls.__name__, ())
    if what in trap:
        return [dl * w for w in [0.5] + [1] * (S.nm - 2) + [0.5]]
    return [dl / 3 * w for w in SIMPSON[S.nm]]


def pairs(S, cls, j):
    """Which pairs (i, i') a separation r_j admits (a number between 0 and 1)."""
    ctx, u, name = S.ctx, S.u[j], cls.__name__.rstrip("_")
    R = [2**i for i in range(S.nm)]
    one = lambda cond: 1 if bool(cond) else 0
    if name == "NoExclusion":
        return [[1] * S.nm for _ in R]
    if name == "Sphere":
        s = [one(2 * a <= u) for a in R]
        return [[x * y for y in s] for x in s]
    if name == "DblSphere":
        return [[one(a + b <= u) for b in R] for a in R]
    out = []
    for a in R:
        row = []
        for b in R:
            x = u / (a + b)
            if bool(x <= 0.8):
                row.append(0)
            elif bool(x >= 1.09):
                row.append(1)
            else:
                y = (x - 0.8) / 0.29
                row.append(3 * y**2 - 2 * y**3)
        out.append(row)
    return out


def double(w, f, P):
    acc = 0
    for i in range(len(f)):
        for k in range(len(f)):
            if not (isinstance(P[i][k], int) and P[i][k] == 0):
                acc = acc + w[i] * w[k] * f[i] * f[k] * P[i][k]
    return acc


def pairwise(name, nm, nk, nr):
    def h(ctx):
        cls = getattr(HX, name)
        b2 = ctx.choice("bias depends on separation", [False, True])
        S = Setup(ctx, nm, nk, nr, b2, rlim=(0.5, 2.4 * 2 ** (nm - 1)), thr=thr(name))
        with plain_numba():
            x = S.make(cls)
            got, mod = x.integrate(), x.density_mod
        rows = 1 if name == "NoExclusion" and not b2 else nr
        ctx.same_shape("one value per separation and wavenumber", got, (rows, nk))
        for j in range(nr):
            P = pairs(S, cls, j)
            ones = [[1] * nm for _ in range(nm)]
            if name != "NoExclusion":
                want = double(weights(S, cls, "density"), S.n(), P)
                ctx.eq("density of the pairs admitted", mod[j] ** 2, want)
                ctx.le("density is not negative", 0, mod[j])
            for k in range(nk):
                ctx.eq("pairs admitted, weighted", got[j if rows > 1 else 0, k], double(weights(S, cls, "power"), S.f(j, k), P))
        S.kept()

    return h


def nomod(ctx):
    S = Setup(ctx, 3, 2, 1, False)
    x = S.make(HX.NoExclusion)
    ctx.eq("no exclusion keeps the density", x.density_mod, 1)


def matched(name, tier):
    """Masses up to the one at which the tracers counted reach the density of the admitted pairs."""

    def h(ctx):
        cls = getattr(HX, name)
        b2 = ctx.choice("bias depends on separation", [False, True]) if tier != "quick" else name.endswith("_")
        nm, nk, nr = 3, 1, 2
        dens = ctx.choice("densities", [[0.5, 0.1, 0.02], [0.1, 0.3, 0.001], [0.3, 0.01, 0.03]][: 1 if tier == "quick" else 3])
        S = Setup(ctx, nm, nk, nr, b2, rlim=(1.0, 12), dens=dens, thr=thr('DblEllipsoid'))
        with plain_numba():
            x = S.make(cls)
            got, mod = x.integrate(), x.density_mod
        n, dl = S.n(), np.log(ctx.c(float(Q)))
        cum = [0]
        for i in range(nm - 1):
            cum.append(cum[-1] + dl * (n[i] + n[i + 1]) / 2)
        ctx.same_shape("one value per separation and wavenumber", got, (nr, nk))
        for j in range(nr):
            want = double(weights(S, cls, "density"), n, pairs(S, cls, j))
            ctx.eq("density of the pairs admitted", mod[j] ** 2, want)
            ctx.le("density is not negative", 0, mod[j])
            if not ctx.sym:
                ctx.assume(all(abs(c - 1.0001 * mod[j]) > 1e-9 * mod[j] or c == mod[j] for c in cum))
            keep = [bool(c <= 1.0001 * mod[j]) for c in cum]
            w = weights(S, cls, "power")
            for k in range(nk):
                f = S.f(j, k)
                one = sum((w[i] * f[i] for i in range(nm) if keep[i]), 0)
                ctx.eq("masses up to the matched density", got[j, k], one * one)
        S.kept()

    return h


def cubic(S):
    """Data on one line in log-mass (integrated exactly by any spline)."""
    ctx = S.ctx
    a = [[ctx.real(f"a{q}{k}", 0.2, 1) for k in range(S.nk + 1)] for q in range(2)]
    b = ctx.real("b", 0.5, 2)
    g = lambda k, i: a[0][k] + a[1][k] * float(i)
    S.law = (a, b)
    L = range(S.nm)
    return ([g(S.nk, i) / S.m[i] for i in L], [[g(k, i) / S.m[i] for i in L] for k in range(S.nk)], [[b] * S.nm] * S.nr)


XMIN = [1.7, 8.0, 30.0, 200.0]


def near(ctx, label, got, want):
    """Equal to a part in a million (the weights of the quadrature are floating-point numbers)."""
    ctx.le(label, got, want * (1 + 1e-6))
    ctx.le(label, want * (1 - 1e-6), got)


def minimum(name):
    """A minimum mass bounds both haloes of a pair, wherever it lies between the masses tabulated."""

    def h(ctx):
        cls = getattr(HX, name)
        b2 = ctx.choice("bias depends on separation", [False, True])
        t = ctx.choice("minimum mass", XMIN)
        nm, nk, nr = 5, 1, 2
        # the first separation admits no pair, the second every one
        S = Setup(ctx, nm, nk, nr, b2, t, rfac=1e3, law=cubic, rlim=(0.2, 1.5))
        with plain_numba():
            x = S.make(cls)
            got, mod = x.integrate(), x.density_mod
        (a0, a1), b = S.law
        dl = np.log(float(Q))
        top, low = (nm - 1.0), np.log(t) / dl

        def F(k):
            return dl * (a0[k] * (top - low) + a1[k] * (top**2 - low**2) / 2)

        rows = 1 if name == "NoExclusion" and not b2 else nr
        ctx.same_shape("one value per separation and wavenumber", got, (rows, nk))
        near(ctx, "all pairs above the minimum mass", got[-1, 0], (b * F(0)) ** 2)
        if name != "NoExclusion":
            near(ctx, "density above the minimum mass", mod[-1], F(1))
            if not name.startswith("NgMatched"):
                ctx.eq("no pair of touching haloes", got[0, 0], 0)
            ctx.eq("no density of touching haloes", mod[0], 0)
        elif b2:
            near(ctx, "all pairs above the minimum mass", got[0, 0], (b * F(0)) ** 2)
        S.kept()

    return h


def partial(name, tier):
    """Some pairs excluded, with a minimum mass: as without one, with the weights of the integral from it."""

    def h(ctx):
        cls = getattr(HX, name)
        b2 = ctx.choice("bias depends on separation", [False, True])
        t = ctx.choice("minimum mass", XMIN[1:2] if tier == "quick" else XMIN[:3])
        nm, nk, nr = 4, 1, 1
        S = Setup(ctx, nm, nk, nr, b2, t, rlim=(1.0, 20), thr=thr(name))
        with plain_numba():
            x = S.make(cls)
            got, mod = x.integrate(), x.density_mod
            w = [ctx.c(spl_weight(S, i)) for i in range(nm)]
        P = pairs(S, cls, 0)
        ctx.assume(double(w, S.n(), P) >= 1e-6)  # a spline through rough data may undershoot
        if name == "Sphere":
            ctx.eq("density of the pairs admitted", mod[0], sum(w[i] * S.n()[i] * P[i][i] for i in range(nm)), atol=1e-12)
        else:
            ctx.eq("density of the pairs admitted", mod[0] ** 2, double(w, S.n(), P))
        ctx.eq("pairs admitted, weighted", got[0, 0], double(w, S.f(0, 0), P))
        S.kept()

    return h


def spl_weight(S, i):
    """Integral from the minimum mass of the cubic spline through a unit sample."""
    from scipy.interpolate import InterpolatedUnivariateSpline as spl

    lnm = np.log(S.m)
    return float(spl(lnm, np.eye(S.nm)[i]).integral(np.log(S.xmin), lnm[-1]))


def below(ctx):
    """A minimum mass at or below the first tabulated mass is none."""
    name = ctx.choice("model", ["NoExclusion", "Sphere", "DblSphere", "DblEllipsoid"])
    S = Setup(ctx, 3, 1, 1, False, rlim=(9, 12))
    f = ctx.real("f", 0.2, 1)
    cls = getattr(HX, name)
    a, b = S.make(cls), S.make(cls, xmin=S.m0 * f)
    ctx.eq("a minimum mass below the table changes nothing", a.integrate()[0, 0], b.integrate()[0, 0])
    ctx.eq("the first mass as minimum changes nothing", a.integrate()[0, 0], S.make(cls, xmin=S.m[0]).integrate()[0, 0])


def even(ctx):
    """Even numbers of masses: the compiled rules integrate linear data exactly and symmetric entries once each."""
    n = ctx.choice("masses", [4, 5, 6])
    a, b, d = ctx.real("a", 0.5, 1), ctx.real("b", 0.1, 1), ctx.real("dx", 0.1, 2)
    g = [a + b * float(i) for i in range(n)]
    X = ctx.arr([p * q for p in g for q in g]).reshape(n, n)
    L = float(n - 1)
    want = (d * (a * L + b * L * L / 2)) ** 2
    with plain_numba():
        ctx.eq("double Simpson rule", HX.dblsimps_(X, d, d), want)
        ctx.eq("double trapezoid (symmetric)", HX.dbltrapz_(X, d, d), want)
    ctx.eq("double trapezoid", HX.dbltrapz(X, d), want)
    e = ctx.real("dy", 0.1, 2)
    ctx.eq("double trapezoid with two steps", HX.dbltrapz(X, d, e) * d, want * e)


def integers(name):
    """Separations given as integers are the same separations."""

    def h(ctx):
        S = Setup(ctx, 3, 1, 1, False)
        cls = getattr(HX, name)
        with plain_numba():
            S.r = np.array([1, 3, 5])
            x = S.make(cls)
            a, am = x.integrate(), x.density_mod
            S.r = np.array([1.0, 3.0, 5.0])
            y = S.make(cls)
            b, bm = y.integrate(), y.density_mod
        ctx.eq("integer separations", a, b)
        ctx.eq("density at integer separations", am, bm)

    return h

def harnesses(tier="quick"):
    hs = [H(f"pairs-{n}", pairwise(n, 5 if n == "Sphere" else 3, 2, 2), max_paths=300, bounds="5 (Sphere) or 3 masses a factor 8 apart, 2 separations, 2 wavenumbers") for n in ("NoExclusion", "Sphere", "DblSphere", "DblSphere_", "DblEllipsoid", "DblEllipsoid_") if hasattr(HX, n)]
    hs += [H("no-density-change", nomod)]
    hs += [H(f"matched-{n}", matched(n, tier), max_paths=400) for n in ("NgMatched", "NgMatched_") if hasattr(HX, n)]
    hs += [H(f"minimum-{n}", minimum(n)) for n in ("NoExclusion", "Sphere", "DblSphere", "DblSphere_", "DblEllipsoid", "DblEllipsoid_", "NgMatched", "NgMatched_") if hasattr(HX, n)]
    hs += [H(f"partial-{n}", partial(n, tier), max_paths=300) for n in ("Sphere", "DblSphere", "DblSphere_", "DblEllipsoid", "DblEllipsoid_") if hasattr(HX, n)]
    hs += [H(f"integers-{n}", integers(n), max_paths=8, bounds="3 masses a factor 8 apart, 3 integer separations") for n in ("Sphere", "DblSphere", "DblSphere_", "DblEllipsoid") if hasattr(HX, n)]
    hs += [H("below", below), H("even", even)]
    return hs
