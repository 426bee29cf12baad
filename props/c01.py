"""C01: density profiles -- mass closure, normalisations, truncation, coordinates, broadcasting."""
import numpy as np

from .common import H, snapshot, unchanged
from .profcommon import MODELS, Setup


# sign of the normalisation integral is within reach of the axioms for these
PROVABLE = {"NFW", "NFWInf", "Hernquist", "HernquistInf", "Constant"}


def closure(name, z):
    def h(ctx):
        S = Setup(ctx, name, nm=2, z=z)
        p, m = S.p, S.m
        # radii in virial units: first inside, second anywhere
        s0 = ctx.real("s0", 0.01, 0.99)
        s1 = ctx.real("s1", 0.01, 3.0)
        r0, r1 = s0 * S.rvir[0], s1 * S.rvir[0]
        r = ctx.arr([r0, r1])
        sr, sm = snapshot(r), snapshot(m)
        rho = p.rho(r, m, norm="m")
        ctx.same_shape("density of vector r and vector m has shape (r, m)", rho, (2, 2))
        # mean interior density
        M = S.delta * S.rhoz * 4 * np.pi / 3 * S.rvir**3
        ctx.eq("default norm: mean density inside r_vir is overdensity times mean density", p.rho(r, m), rho * M, rtol=S.rtol, atol=0.0)
        ctx.eq("norm 'rho': density in units of the mean density", p.rho(r, m, norm="rho") * S.rhoz, p.rho(r, m), rtol=S.rtol, atol=0.0)
        if not S.trunc:
            if name in PROVABLE:
                ctx.pos("extended profile stays positive", rho)
        else:
            for i in range(2):
                for j in range(2):
                    if [r0, r1][i] > S.rvir[j]:
                        ctx.eq("no mass beyond the virial radius", rho[i, j], 0, rtol=S.rtol, atol=0.0)
                    elif name in PROVABLE:
                        ctx.pos("density positive inside the halo", rho[i, j])
        # published shape, independent of normalisation
        x = np.divide.outer(r, S.rs)
        xr = S.rvir[0] / S.rs[0] * 0.5
        half = p.rho(ctx.arr([0.5 * S.rvir[0]]), m, norm="m")
        for i in range(2):
            for j in range(2):
                if not S.trunc or [r0, r1][i] <= S.rvir[j]:
                    xh = 0.5 * S.rvir[0] / S.rs[j]
                    if not S.trunc or 0.5 * S.rvir[0] <= S.rvir[j]:
                        ctx.eq("radial shape is the published one", rho[i, j] * S.shape(xh, S.par), half[j] * S.shape(x[i, j], S.par), rtol=S.rtol, atol=0.0)
        unchanged(ctx, "r is not modified", r, sr)
        unchanged(ctx, "m is not modified", m, sm)

    return h


def mass(name):
    """cdf is the enclosed mass of rho."""

    def h(ctx):
        S = Setup(ctx, name, nm=2)
        p, m = S.p, S.m
        s0 = ctx.real("s0", 0.1 if S.numeric else 0.003, 1.0)  # m increases, so inside both halos
        ra = s0 * S.rvir[0]
        rb = ctx.real("s1", 0.1 if S.numeric else 0.003, 3.0) * S.rvir[0]
        if S.numeric:
            ctx.assume(rb < S.rvir[0])
        f = lambda q: p.cdf(ctx.arr([q * S.rvir[0], rb]), m=m)[0]
        ctx.deriv("d cdf/dr = 4 pi r^2 rho", f, s0, S.rvir[0] * 4 * np.pi * ra**2 * p.rho(ctx.arr([ra, rb]), m, norm="m")[0], rtol=max(2e-5, S.rtol), atol=S.atol)
        if not S.numeric:
            ctx.eq("nothing inside r=0", p.cdf(ctx.arr([0.0, rb]), m=m)[0], 0, rtol=S.rtol, atol=S.atol)
        if name != "PowerLawWithExpCut":
            for j in range(2):
                ctx.eq("all mass inside r_vir", p.cdf(ctx.arr([S.rvir[j], rb]), m=m)[0, j], 1, rtol=S.rtol, atol=0.0)
        full = p.cdf(ctx.arr([ra, rb]), m=m)
        ctx.same_shape("cdf shape (r, m)", full, (2, 2))
        ctx.eq("cdf of a single mass", p.cdf(ctx.arr([ra, rb]), m=m[1]), full[:, 1], rtol=S.rtol, atol=0.0)
        ctx.eq("cdf, explicit concentration", p.cdf(ctx.arr([ra, rb]), c=S.c, m=m), full, rtol=S.rtol, atol=0.0)
        ctx.eq("cdf in scale-radius units", p.cdf(ctx.arr([ra / S.rs[0]]), c=S.c[0], m=m[0], coord="x"), full[0, 0], rtol=S.rtol, atol=0.0)
        ctx.eq("cdf in virial units", p.cdf(ctx.arr([ra / S.rvir[1], 0.5]), m=m, coord="s")[0, 1], full[0, 1], rtol=S.rtol, atol=0.0)

    return h


def coords(name):
    def h(ctx):
        S = Setup(ctx, name, nm=2)
        p, m = S.p, S.m
        s0, s1 = ctx.real("s0", 0.01, 0.99), ctx.real("s1", 0.01, 3.0)
        s = ctx.arr([s0, s1])
        x = s * S.c[0]
        given = [(n, a, snapshot(a)) for n, a in (("s", s), ("x", x), ("c", S.c), ("m", m))]
        for norm in (None, "m", "rho"):
            a = p.rho(s, m, norm=norm, coord="s")
            ctx.same_shape(f"rho(s) shape [{norm}]", a, (2, 2))
            for j in range(2):
                ctx.eq(f"r = s r_vir [{norm}]", p.rho(s * S.rvir[j], m[j], norm=norm), a[:, j], rtol=S.rtol, atol=0.0)
                ctx.eq(f"x = s c [{norm}]", p.rho(s * S.c[j], m[j], norm=norm, coord="x"), a[:, j], rtol=S.rtol, atol=0.0)
                ctx.eq(f"scalar r and m [{norm}]", p.rho(s0 * S.rvir[j], m[j], norm=norm), a[0, j], rtol=S.rtol, atol=0.0)
                ctx.eq(f"scalar x and m [{norm}]", p.rho(s1 * S.c[j], m[j], norm=norm, coord="x"), a[1, j], rtol=S.rtol, atol=0.0)
            ctx.eq(f"explicit concentration [{norm}]", p.rho(s * S.rvir[0], m, norm=norm, c=S.c), p.rho(s * S.rvir[0], m, norm=norm), rtol=S.rtol, atol=0.0)
            ctx.eq(f"masses in any order [{norm}]", p.rho(s * S.rvir[0], m[::-1], norm=norm), p.rho(s * S.rvir[0], m, norm=norm)[:, ::-1], rtol=S.rtol, atol=0.0)
            ctx.eq(f"scalar r, vector m [{norm}]", p.rho(s0 * S.rvir[0], m, norm=norm), p.rho(s * S.rvir[0], m, norm=norm)[0], rtol=S.rtol, atol=0.0)
            p.rho(x, m[0], norm=norm, coord="x")
        p.cdf(s, m=m, coord="s")
        p.cdf(x, c=S.c[0], m=m[0], coord="x")
        for n, a, b in given:
            unchanged(ctx, f"{n} is not modified", a, b)

    return h


def integers(name):
    """Radii given as integers are the same radii."""

    def h(ctx):
        S = Setup(ctx, name, nm=1)
        c = ctx.real("cc", 3, 40)
        r = np.array([1, 2, 60])
        for norm in (None, "m", "rho"):
            for coord in ("x", "r"):
                f = lambda q: S.p.rho(q, S.m[0], norm=norm, c=c, coord=coord)
                ctx.eq(f"integer radii [{norm}, {coord}]", f(r), f(r.astype(float)), rtol=S.rtol)

    return h

def harnesses(tier="quick"):
    out = []
    for n in MODELS:
        out.append(H(f"closure-z0-{n}", closure(n, None), bounds="2 radii x 2 masses, c in (0.5,40), m in (1e8,1e16)"))
        out.append(H(f"closure-z-{n}", closure(n, 1.5), bounds="arbitrary mean densities at z=0 and at z"))
        out.append(H(f"mass-{n}", mass(n), bounds="2 radii x 2 masses"))
        out.append(H(f"integers-{n}", integers(n), max_paths=200, bounds="3 integer radii"))
        out.append(H(f"coords-{n}", coords(n), max_paths=200, bounds="2 radii x 2 masses, coords r/x/s"))
    return out
