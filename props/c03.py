"""C03: lam(r) is the self-convolution of the density profile."""
import numpy as np

from .common import CM, H, MDef, snapshot, unchanged
from .profcommon import Setup


def yf(name, t):
    """antiderivative of t f(t)"""
    return {"NFW": lambda t: -1 / (1 + t), "NFWInf": lambda t: -1 / (1 + t), "Hernquist": lambda t: -1 / (2 * (1 + t) ** 2)}[name](t)


def lfun(S, x, c, j=0):
    """lam in units of r_s^3 rho_s^2, from the public interface."""
    rs = S.rvir[j] / c
    x0 = 0.5 * c
    rhos = S.p.rho(x0, S.m[j], norm="m", c=c, coord="x") / S.shape(x0, S.par)
    return S.p.lam(x, S.m[j], norm="m", c=c, coord="x") / (rs**3 * rhos**2)


def nfw(region):
    def h(ctx):
        S = Setup(ctx, "NFW", nm=1)
        c = ctx.real("c", 0.5, 30)
        x = ctx.real("x", 0.01, 70)
        f = lambda q: lfun(S, x, q)
        if region == "inner":
            ctx.assume(x < 0.98 * c)
            cf = c * S.shape(c, {})
            ctx.deriv("d lam/dc, separation below the radius", f, c, 4 * np.pi / x * cf * (yf("NFW", c) - yf("NFW", c - x)), rtol=1e-4, atol=1e-7)
            # c -> infinity is the untruncated profile
        elif region == "outer":
            ctx.assume(1.02 * c < x)
            ctx.assume(x < 1.96 * c)
            cf = c * S.shape(c, {})
            ctx.deriv("d lam/dc, separation above the radius", f, c, 4 * np.pi / x * cf * (yf("NFW", c) - yf("NFW", x - c)), rtol=1e-4, atol=1e-7)
            ctx.limit0("continuous where the separation is the radius", f, c, lfun(S, x, x), to=x, atol=1e-4)
            ctx.limit0("vanishes at twice the radius", f, c, 0, to=x / 2, atol=1e-4)
        else:
            ctx.assume(x > 2.02 * c)
            ctx.eq("no overlap beyond twice the radius", f(c), 0)

    return h


def nfwinf(ctx):
    """The untruncated self-convolution is the limit of the truncated one."""
    S = Setup(ctx, "NFW", nm=1)
    I = Setup(ctx, "NFWInf", nm=1)
    x = ctx.real("x", 0.01, 50)
    a = ctx.real("a", 1e-6, 1e-2)
    ctx.assume(x < 0.5 / a)
    c0 = ctx.real("cc", 0.5, 30)
    ctx.limit0("NFWInf is the limit of NFW for large concentration", lambda q: lfun(S, x, 1 / q), a, lfun(I, x, c0), small=1e-2, atol=1e-3)


def hernquist(ctx):
    """(2 pi/x) int z f(z) [Y(x+z) - Y(|x-z|)] dz, Y the antiderivative of y f, z f = (1+z)^-3."""
    S = Setup(ctx, "HernquistInf", nm=1)
    x = ctx.real("x", 0.3, 50)
    c0 = ctx.real("cc", 0.5, 30)
    w = lambda q: 0.5 / (1 + q) ** 2
    inner = lambda z: (
        1 / (2 * (x + 2) ** 3 * (x + 1 - z)) - 3 / (2 * (x + 2) ** 4) * np.log(x + 1 - z) + (x + 1) / (x**2 * (x + 2) ** 2 * (1 + z) ** 2)
        - 2 * (x + 1) * (x**2 + 2 * x + 4) / (x**3 * (x + 2) ** 3 * (1 + z)) - 1 / (2 * x**3 * (1 + x + z))
        - 12 * (x + 1) * (x**2 + 2 * x + 2) / (x**4 * (x + 2) ** 4) * np.log(1 + z) + 3 / (2 * x**4) * np.log(1 + x + z)
    )
    outer = lambda z: (
        -1 / (2 * x**3 * (1 + x + z)) - 1 / (2 * x**3 * (z + 1 - x)) - 2 / (x**3 * (1 + z)) + 3 / (2 * x**4) * np.log((1 + x + z) / (z + 1 - x))
    )  # -> 0 at infinity
    if ctx.sym:
        # the oracle's own antiderivatives, decided like any other claim
        za = ctx.real("za", 0.001, 100)
        ctx.assume(za < x)
        ctx.deriv("oracle: inner part", inner, za, (w(x - za) - w(x + za)) / (1 + za) ** 3)
        zb = ctx.real("zb", 0.001, 100)
        ctx.assume(zb > x)
        ctx.deriv("oracle: outer part", outer, zb, (w(zb - x) - w(x + zb)) / (1 + zb) ** 3)
    val = inner(x) - inner(0) - outer(x)
    ctx.eq("self-convolution of the Hernquist profile", lfun(S, x, c0), 2 * np.pi / x * val, rtol=1e-4, atol=1e-7)


def use(name):
    def h(ctx):
        S = Setup(ctx, name, nm=2)
        p, m = S.p, S.m
        s0, s1 = ctx.real("s0", 0.01, 0.9), ctx.real("s1", 1.1, 1.9)
        r = ctx.arr([s0 * S.rvir[0], s1 * S.rvir[0]])
        if S.trunc:
            ctx.assume(S.rvir[1] > s1 * S.rvir[0])
        sr, sm, sc = snapshot(r), snapshot(m), snapshot(S.c)
        lm = p.lam(r, m, norm="m")
        ctx.same_shape("shape (r, m)", lm, (2, 2))
        # the mass of the density with norm None: overdensity times mean density at z
        ctx.eq("norm None is mass squared times norm m", p.lam(r, m, norm=None), lm * (S.delta * S.rhoz * 4 * np.pi / 3 * S.rvir**3) ** 2)
        z0 = type(p)(cm_relation=CM(list(S.m), list(S.cin), 0.0), mdef=MDef(S.delta, S.rho0), z=0.0)
        ctx.eq("at z=0 that is the mass of the halo", z0.lam(r, m, norm=None), lm * m**2)
        for j in range(2):
            ctx.eq("one mass", p.lam(r, m[j], norm="m"), lm[:, j])
            ctx.eq("one radius", p.lam(r[j], m, norm="m"), lm[j])
            x = r / S.rs[j]
            sx = snapshot(x)
            ctx.eq("scale-radius coordinate", p.lam(x, m[j], norm="m", coord="x"), lm[:, j])
            unchanged(ctx, "x is not modified", x, sx)
            ctx.eq("virial coordinate", p.lam(r / S.rvir[j], m[j], norm="m", coord="s"), lm[:, j])
        ctx.eq("explicit concentrations", p.lam(r, m, norm="m", c=S.c), lm)
        ctx.eq("masses in any order", p.lam(r, m[::-1], norm="m")[:, ::-1], lm)
        try:
            p.lam(r, m, norm="rho")
            ctx.true("unknown normalisation is refused", False)
        except ValueError:
            ctx.true("unknown normalisation is refused", True)
        unchanged(ctx, "c is not modified", S.c, sc)
        unchanged(ctx, "r is not modified", r, sr)
        unchanged(ctx, "m is not modified", m, sm)

    return h


def without(ctx):
    S = Setup(ctx, "CoredNFW", nm=1)
    try:
        S.p.lam(0.5, S.m[0], norm="m", coord="s")
        ctx.true("profiles without a self-convolution say so", False)
    except AttributeError:
        ctx.true("profiles without a self-convolution say so", True)


def integers(name):
    """Separations given as integers are the same separations."""

    def h(ctx):
        S = Setup(ctx, name, nm=1)
        x = np.array([1, 2, 5])
        c = ctx.real("c", 3, 40)
        a, b = S.p.lam(x, S.m[0], norm="m", c=c, coord="x"), S.p.lam(x.astype(float), S.m[0], norm="m", c=c, coord="x")
        ctx.eq("integer separations", a, b)
        lam = lambda x: S.p.lam(x, S.m[0], norm="m", c=c, coord="x")
        ctx.eq("one integer separation", lam(2), lam(2.0))

    return h


def harnesses(tier="quick"):
    out = [H(f"nfw-{r}", nfw(r), bounds="all separations and concentrations of the region") for r in ("inner", "outer", "beyond")]
    out.append(H("nfwinf", nfwinf, bounds="all separations"))
    out.append(H("hernquistinf", hernquist, bounds="all separations"))
    for n in ("NFW", "NFWInf", "HernquistInf"):
        out.append(H(f"use-{n}", use(n), bounds="2 separations x 2 masses", max_paths=100))
    out.append(H("without", without))
    out += [H(f"integers-{n}", integers(n), bounds="3 integer separations in scale radii, any concentration") for n in ("NFW", "NFWInf", "HernquistInf")]
    return out
