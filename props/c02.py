"""C02: u(k) is the Fourier transform of the density profile."""
import contextlib

import numpy as np
import scipy.integrate as si
import scipy.special as sp

import halomod.profiles as P
from symx import terms as T

from .common import CM, H, MDef, snapshot, unchanged
from .profcommon import MODELS, Setup

NUMERIC = {"Moore", "GeneralizedNFW", "Einasto"}
CLOSED_INF = {"NFWInf", "HernquistInf", "PowerLawWithExpCut"}
MEIJER = {"MooreInf", "GeneralizedNFWInf"}


def amp(S, c, j=0, x0=0.5):
    """4 pi r_s^3 rho_s of the mass-normalised profile, from the public density."""
    x = x0 * c
    return 4 * np.pi * (S.rvir[j] / c) ** 3 * S.p.rho(x, S.m[j], norm="m", c=c, coord="x") / S.shape(x, S.par)


def pair_trunc(name):
    """Analytic transforms of truncated profiles: derivative in the concentration and value at 0."""

    def h(ctx):
        S = Setup(ctx, name, nm=1)
        p, m = S.p, S.m[0]
        c = ctx.real("c", 0.5, 40)
        K = ctx.real("K", 1e-3, 50)
        F = lambda q: p.u(K, m, norm="m", c=q, coord="kappa") / amp(S, q)
        ctx.deriv("d/dc of u/rho_s = c f(c) sin(Kc)/K", F, c, c * S.shape(c, S.par) * np.sin(K * c) / K, rtol=1e-5, atol=1e-9)
        ctx.limit0("no transform without extent", F, c, 0, small=1e-3, atol=1e-2)

    return h


def pair_numeric(name):
    """Numerical transforms: two wavenumbers (the ends of the interpolation range are exact)."""

    def h(ctx):
        S = Setup(ctx, name, nm=1)
        p, m = S.p, S.m[0]
        K = ctx.increasing("K", 2, 0.01, 3.0)
        if ctx.sym:
            ctx.assume(K[1] * S.c[0] < 3.1)
        else:
            ctx.assume(K[1] * S.c[0] < 60)
        k = K / S.rs[0]
        u = p.u(k, m, norm="m")
        ctx.same_shape("one value per wavenumber", u, (2,))
        for i in range(2):
            ex = ctx.integral(lambda x: x * S.shape(x, S.par) * np.sin(K[i] * x) / K[i], 0, S.c[0])
            ctx.eq("u/rho_s = integral of x f sin(Kx)/K", u[i] / amp(S, S.c[0]), ex, rtol=max(S.rtol, 2e-4), atol=0.0)
        ctx.eq("norm None is mass times u", p.u(k, m, norm=None), u * m, rtol=1e-6)
        ctx.eq("kappa = k r_s", p.u(K, m, coord="kappa"), u, rtol=1e-6)

    return h


def pair_numeric2(name):
    """Two masses: the cumulative integration over sorted concentrations."""

    def h(ctx):
        S = Setup(ctx, name, nm=2, from_rs=True)
        p, m = S.p, S.m
        k = ctx.increasing("k", 2, 0.1, 50)
        ctx.assume(k[1] * S.rs[1] * S.c[0] < (3.1 if ctx.sym else 40))
        ctx.assume(k[1] * S.rs[1] * S.c[1] < (3.1 if ctx.sym else 40))
        if not ctx.sym:
            ctx.assume(k[1] * S.rs[1] < 60 * k[0] * S.rs[0])
            ctx.assume(k[1] * S.rs[1] > 1e-2)
        u = p.u(k, m, norm="m")
        ctx.same_shape("shape (k, m)", u, (2, 2))
        for i, j in ((0, 0), (1, 1)):
            K = k[i] * S.rs[j]
            ex = ctx.integral(lambda x: x * S.shape(x, S.par) * np.sin(K * x) / K, 0, S.c[j])
            ctx.eq("u/rho_s = integral of x f sin(Kx)/K, two masses", u[i, j] / amp(S, S.c[j], j), ex, rtol=max(S.rtol, 2e-3), atol=0.0)

    return h


def _fg(K):
    """auxiliary functions of the sine and cosine integrals: int_0^inf {sin,cos}(Kx)/(1+x) dx."""
    si, ci = sp.sici(K)
    return ci * np.sin(K) + (np.pi / 2 - si) * np.cos(K), (np.pi / 2 - si) * np.sin(K) - ci * np.cos(K)


def pair_inf(name):
    """Extended profiles: against the exact integrals over all radii."""

    def h(ctx):
        S = Setup(ctx, name, nm=1)
        p, m = S.p, S.m[0]
        c = ctx.real("c", 0.5, 40)
        K = ctx.real("K", 1e-3, 50)
        u = p.u(K, m, norm="m", c=c, coord="kappa") / amp(S, c)
        if name == "PowerLawWithExpCut":
            a, b = S.par["a"], S.par["b"]
            ex = sp.gamma(2 - b) * (a**2 + K**2) ** ((b - 2) / 2) * np.sin((2 - b) * np.arctan(K / a)) / K
        else:
            si, ci = ctx_sici(ctx, K)
            f = ci * np.sin(K) + (np.pi / 2 - si) * np.cos(K)
            g = (np.pi / 2 - si) * np.sin(K) - ci * np.cos(K)
            ex = g if name == "NFWInf" else (1 - K * f) / 2
        ctx.eq("u/rho_s = integral of x f sin(Kx)/K over all radii", u, ex, rtol=1e-6, atol=1e-9)

    return h


def plaw2(ctx):
    """The b=2 power law."""
    S = Setup(ctx, "PowerLawWithExpCut", nm=1)
    p = P.PowerLawWithExpCut(cm_relation=S.cm, mdef=S.mdef, a=S.par["a"], b=2)
    S.p, S.par = p, {"a": S.par["a"], "b": 2}
    c = ctx.real("c", 0.5, 40)
    K = ctx.real("K", 1e-3, 50)
    ctx.eq("u/rho_s, b=2", p.u(K, S.m[0], c=c, coord="kappa") / amp(S, c), np.arctan(K / S.par["a"]) / K)


def ctx_sici(ctx, x):
    if ctx.sym:
        from symx import shim

        return shim.s_sici(x)
    return sp.sici(x)


class _Mp:
    """mpmath, with Meijer's function an arbitrary positive function of its argument (parameters recorded)."""

    def __init__(self, real, meijerg):
        self._real, self.meijerg = real, meijerg

    def __getattr__(self, name):
        return getattr(self._real, name)


@contextlib.contextmanager
def meijerg(ctx, fn=None):
    """Contract of mpmath.meijerg: a function of its parameters and its argument."""
    calls = []
    if not ctx.sym:
        yield calls
        return
    fn = fn or ctx.uf("meijerg+", numeric=lambda z: 1.0 / (1 + np.asarray(z, float)))
    old = P.mpmath

    def g(a, b, z, r=1, **kw):
        if r != 1:
            raise T.Unsupported("meijerg with r")
        z = z[()] if isinstance(z, np.ndarray) else z
        calls.append((a, b, z))
        return fn(z)

    P.mpmath = _Mp(old, g)
    try:
        yield calls
    finally:
        P.mpmath = old


def index(name, par):
    """density ~ x^-a in the centre"""
    return 1.5 if name == "MooreInf" else par["alpha"]


def meijer(name):
    """Meijer-G transforms, by their Mellin transforms.

    M_code(s) = int K^(s-1) u dK is a ratio of gamma functions given by the parameters the code uses, M_true(s)
    follows from the density.  Both change by a rational factor when s grows by the period of the code's argument
    (z ~ K^q): the factors have to agree for every s and every inner slope.  What remains is a function of that
    period, which is compared at a few points.
    """

    def h(ctx):
        S = Setup(ctx, name, nm=1)
        p, m = S.p, S.m[0]
        K = ctx.real("K", 0.02, 50)
        c = S.c[0]
        if not ctx.sym:
            import mpmath

            ex = mpmath.quadosc(lambda x: x * S.shape(x, S.par) * mpmath.sin(K * x) / K, [0, mpmath.inf], omega=K)
            ctx.eq("u/rho_s = integral of x f sin(Kx)/K over all radii", p.u(K, m, c=c, coord="kappa") / amp(S, c), float(ex), rtol=1e-4)
            return
        u = lambda k, pr=p, g=1.0, mass=m: one(ctx, pr, k, mass, c, g)
        A = amp(S, c)
        # the powers of K in the argument and in front, from two concrete wavenumbers
        conc = type(p)(cm_relation=CM([1e12], [5.0]), mdef=MDef(200.0, 1e11), **{k: 0.7 for k in S.par})
        v1, (a1, b1, z1) = one(ctx, conc, 1.0, 1e12, 5.0, 1.0)
        v2, (_, _, z2) = one(ctx, conc, 2.0, 1e12, 5.0, 1.0)
        q = int(round(np.log2(float(z2) / float(z1))))
        d = float(np.log2(float(v1) / float(v2)))
        v, (a, b, z) = u(K)
        w, (a_, b_, z_) = u(ctx.c(1.0))
        ctx.eq("argument is a power of K", z, z_ * K**q)
        ctx.eq("factor in front is a power of K", v * K**d, w)
        g = ctx.real("g", 0.1, 10)
        ctx.eq("transform is proportional to Meijer's function", u(K, g=g)[0], g * v)
        for x, y in zip(flat(a) + flat(b), flat(a_) + flat(b_)):
            ctx.eq("parameters do not depend on K", x, y)
        # the shift of s
        s = ctx.real("s", -30, 30)
        t = (s - d) / q
        code = 1 / z_
        for x in b[0]:
            code = code * (x + t)
        for x in a[0]:
            code = code / (-x - t)
        for x in b[1]:
            code = code * (-x - t)
        for x in a[1]:
            code = code / (x + t)
        true = (-1) ** (q // 2)
        for i in range(q):
            true = true * (s - 1 + i)
        if name == "MooreInf":
            # int x^(w-1) f dx = (2/3) pi / sin(pi (2 w/3 - 1)), w = 3 - s: the period is that of the sine
            ok = q % 6 == 0
            den = 1
        else:
            al = S.par["alpha"]
            ok = q % 2 == 0
            den = 1
            for i in range(q):  # Gamma(w - al) Gamma(3 - w) / Gamma(3 - al), w = 3 - s
                true = true * (s + i)
                den = den * (2 - s - al - i)
        if not ok:
            raise T.Unsupported("another form of the transform")
        ctx.eq("Mellin transforms change alike with s, for every s", code * den, true)
        for al in (0.4, 0.7, 1.2) if S.par else (None,):
            pr = type(p)(cm_relation=CM([1e12], [5.0]), mdef=MDef(200.0, 1e11), **{k: al for k in S.par})
            par = {k: al for k in S.par}
            val, (a, b, z) = one(ctx, pr, 1.0, 1e12, 5.0, 1.0)
            rv = (3e12 / (4 * np.pi * 200 * 1e11)) ** (1 / 3)
            D = float(val) / float(4 * np.pi * (rv / 5) ** 3 * pr.rho(2.5, 1e12, norm="m", c=5.0, coord="x") / S.shape(2.5, par))
            for s in (0.31, 0.77, 1.13, 1.9, 3.45, 5.2):
                t = (s - d) / q
                G = np.prod([sp.gamma(x + t) for x in b[0]] + [sp.gamma(1 - x - t) for x in a[0]])
                G = G / np.prod([1.0] + [sp.gamma(1 - x - t) for x in b[1]] + [sp.gamma(x + t) for x in a[1]])
                w = 3 - s
                F = 2 / 3 * np.pi / np.sin(np.pi * (2 * w / 3 - 1)) if al is None else sp.gamma(w - al) * sp.gamma(3 - w) / sp.gamma(3 - al)
                ok = abs(D / q * float(z) ** -t * G / (sp.gamma(s - 1) * np.sin(np.pi * (s - 1) / 2) * F) - 1) < 1e-6
                ctx.true("Mellin transforms, one period", bool(ok))

    return h


def flat(x):
    return [z for y in x for z in y]


def one(ctx, p, K, m, c, g):
    """u at one wavenumber in units of the scale radius, Meijer's function being g; its parameters and argument."""
    with meijerg(ctx, lambda z: g) as calls:
        v = p.u(K, m, norm="m", c=c, coord="kappa")
    if len(calls) != 1:
        raise T.Unsupported("not a single Meijer function")
    return v, calls[0]


def far(name):
    """Large wavenumbers: continued independently of what else is asked for, as the power law of the inner density."""

    def h(ctx):
        S = Setup(ctx, name, nm=1)
        p, m, c = S.p, S.m[0], S.c[0]
        K0 = ctx.real("low", 0.02, 1500 if ctx.sym else 20)
        K = ctx.increasing("K", 3, 1600, 1e6)
        u = lambda *k: p.u(ctx.arr(k), m, norm="m", c=c, coord="kappa") / amp(S, c)
        u1 = lambda k: p.u(k, m, norm="m", c=c, coord="kappa") / amp(S, c)
        with meijerg(ctx):
            ref = [u1(k) for k in K]
            ctx.eq("whichever smaller wavenumber is asked for", u(K0, K[1])[1], ref[1])
            ctx.eq("whichever smaller wavenumber is asked for, and its own value", u(K0, K[1])[0], u1(K0))
            r = u(K[2], K[0])
            ctx.eq("in any order, first", r[0], ref[2])
            ctx.eq("in any order, second", r[1], ref[0])
            ctx.eq("power law", np.log(ref[0] / ref[1]) * np.log(K[2] / K[1]), np.log(ref[1] / ref[2]) * np.log(K[1] / K[0]))
        if not ctx.sym:
            for k, v in zip(K, ref):
                a = index(name, S.par)
                ctx.eq("asymptote", v, sp.gamma(2 - a) * np.sin(np.pi * (2 - a) / 2) * k ** (a - 3), rtol=3e-2)

    return h


class ExpInf(P.ProfileInf):
    """An extended profile that leaves its transform to the general code."""

    def _f(self, x):
        return np.exp(-x)

    def _h(self, c):
        return 2 - (c**2 + 2 * c + 2) * np.exp(-c)


def general_inf(ctx):
    """The general transform of extended profiles.  hankel's transform is taken as exact."""
    S = Setup(ctx, "NFWInf", nm=2, cls=ExpInf)
    S.shape = lambda x, par: np.exp(-x)
    p, m = S.p, S.m
    k = ctx.arr([ctx.real("k0", 1e-1, 10), ctx.real("k1", 1e-1, 10)])
    I = ctx.uf("transform+", numeric=lambda K: 2 / (1 + np.asarray(K, float) ** 2) ** 2)
    old = P.hankel
    x = ctx.real("x", 0.01, 10)
    if not ctx.sym:
        for i in range(2):
            for j in range(2):
                ctx.assume(0.1 < k[i] * S.rs[j] < 10)

    class FT:
        def __init__(self, ndim=2, a=1, b=1, N=0, h=0.05, **kw):
            if (a, b) != (1, 1) or kw:
                raise T.Unsupported("another Fourier convention")
            self.ndim = ndim

        def transform(self, f, k, ret_err=True, ret_cumsum=False, inverse=False):
            if inverse or self.ndim != 3:
                raise T.Unsupported("not a three-dimensional transform")
            ctx.eq("what is transformed is the density", f(x), np.exp(-x))
            k = np.asarray(k) if not isinstance(k, np.ndarray) else k
            r = 4 * np.pi * (ctx.arr([I(q) for q in k.ravel()]).reshape(k.shape) if k.ndim else I(k[()]))
            extra = [0 * r] * (bool(ret_err) + bool(ret_cumsum))
            return (r, *extra) if extra else r

    if ctx.sym:
        P.hankel = _Mp(old, None)
        P.hankel.SymmetricFourierTransform = FT
    try:
        u = p.u(k, m)
        ctx.same_shape("shape (k, m)", u, (2, 2))
        for i in range(2):
            for j in range(2):
                K = k[i] * S.rs[j]
                ex = I(K) if ctx.sym else 2 / (1 + K**2) ** 2
                ctx.eq("u/rho_s = integral of x f sin(Kx)/K over all radii", u[i, j] / amp(S, S.c[j], j), ex, rtol=1e-2)
        ctx.eq("one wavenumber and mass", p.u(k[0], m[1]), u[0, 1])
        ctx.eq("norm None is mass times u", p.u(k, m, norm=None), u * m)
        ctx.eq("kappa = k r_s", p.u(k * S.rs[0], m[0], coord="kappa"), u[:, 0])
    finally:
        P.hankel = old


def table(ctx):
    """Einasto's tabulated transform: every wavenumber is paired with its own halo's concentration."""
    S = Setup(ctx, "Einasto", nm=3, use_interp=True, alpha=0.18)
    S.par = {"alpha": 0.18}
    p, m = S.p, S.m
    k = ctx.arr([ctx.real("k0", 1e-2, 10), ctx.real("k1", 1e-2, 10)])
    for j in range(3):
        ctx.assume(S.c[j] > 1.1)
        for i in range(2):
            ctx.assume(k[i] * S.rs[j] > 1e-4)
            if not ctx.sym:
                ctx.assume(k[i] * S.rs[j] * S.c[j] < 20)
    tab = ctx.uf("table", numeric=lambda a, b: -np.asarray(a, float) - np.asarray(b, float))
    old = P.RectBivariateSpline

    def build(x, y, z, **kw):
        x, y, z = (np.asarray(q, float) for q in (x, y, z))
        ctx.true("one value per tabulated wavenumber and concentration", z.shape == (len(x), len(y)))
        for Kt, ct in ((0.01, 3.0), (0.4, 40.0), (1.0, 12.0), (3.0, 5.0)):
            i, j = np.argmin(abs(x - np.log(Kt))), np.argmin(abs(y - np.log(ct)))
            Kt, ct = np.exp(x[i]), np.exp(y[j])
            ex = direct(Kt, ct)
            ctx.true("table holds the integral of x f sin(Kx)/K", bool(abs(np.exp(z[i, j]) / ex - 1) < 2e-2))

        class Spl:
            def ev(self, a, b):
                a, b = np.atleast_1d(a), np.atleast_1d(b)
                if a.shape != b.shape or a.ndim != 1:
                    raise T.Unsupported("other than pairs")
                return ctx.arr([tab(i, j) for i, j in zip(a, b)])

            def __call__(self, *a, **kw):
                raise T.Unsupported("grid evaluation")

        return Spl()

    def direct(K, c):
        f = lambda x: x * np.exp(-2 / 0.18 * (x**0.18 - 1)) * np.sin(K * x) / K
        n = max(int(K * c / 3), 1)
        e = np.concatenate([[0], np.linspace(0, c, n + 1)[1:]])
        return sum(si.quad(f, a, b, epsabs=0, epsrel=1e-8, limit=200)[0] for a, b in zip(e[:-1], e[1:]))

    if ctx.sym:
        P.RectBivariateSpline = build
    try:
        u = p.u(k, m)
        ctx.same_shape("shape (k, m)", u, (2, 3))
        for i in range(2):
            for j in range(3):
                K = k[i] * S.rs[j]
                ex = np.exp(tab(np.log(K), np.log(S.c[j]))) if ctx.sym else direct(K, S.c[j])
                ctx.eq("u/rho_s = tabulated transform at this wavenumber and concentration", u[i, j] / amp(S, S.c[j], j), ex, rtol=1e-2)
        for j in range(3):
            ctx.eq("one mass", p.u(k, m[j]), u[:, j])
            ctx.eq("one wavenumber", p.u(k[0], m), u[0])
            ctx.eq("scalars", p.u(k[1], m[j]), u[1, j])
        ctx.eq("masses in any order", p.u(k, m[::-1])[:, ::-1], u)
        ctx.eq("norm None is mass times u", p.u(k, m, norm=None), u * m)
        ctx.eq("kappa = k r_s", p.u(k * S.rs[1], m[1], coord="kappa"), u[:, 1])
    finally:
        P.RectBivariateSpline = old


def use(name):
    """Coordinates, normalisation, broadcasting."""

    def h(ctx):
        S = Setup(ctx, name, nm=2, from_rs=name in MEIJER)
        p, m = S.p, S.m
        k = ctx.arr([ctx.real("k0", 1e-2, 10), ctx.real("k1", 1e-2, 10)])
        if name in MEIJER:
            # they sort what they are asked for
            ctx.assume(k[0] < k[1])
            if ctx.choice("order", [0, 1]):
                ctx.assume(k[0] * S.rs[1] < k[1] * S.rs[0])
            else:
                ctx.assume(k[0] * S.rs[1] > k[1] * S.rs[0])
        sk, sm = snapshot(k), snapshot(m)
        with meijerg(ctx):
            body(ctx, S, p, m, k, sk, sm, 2e-3 if S.numeric else 1e-7)

    def body(ctx, S, p, m, k, sk, sm, rtol):
        sc = snapshot(S.c)
        u = p.u(k, m)
        ctx.same_shape("shape (k, m)", u, (2, 2))
        ctx.eq("default normalisation is by mass", p.u(k, m, norm="m"), u, rtol=rtol)
        un = p.u(k, m, norm=None)
        ctx.eq("norm None is mass times u", un, u * m, rtol=rtol)
        ctx.eq("concentrations given explicitly", p.u(k, m, c=S.c), u, rtol=rtol)
        ctx.eq("masses in any order", p.u(k, m[::-1])[:, ::-1], u, rtol=rtol)
        for j in range(2):
            ctx.eq("one mass", p.u(k, m[j]), u[:, j], rtol=rtol)
            ctx.eq("one wavenumber", p.u(k[j], m), u[j], rtol=rtol)
            K = k * S.rs[j]
            sK = snapshot(K)
            ctx.eq("kappa = k r_s", p.u(K, m[j], coord="kappa"), u[:, j], rtol=rtol)
            unchanged(ctx, "kappa is not modified", K, sK)
            ctx.eq("scalars", p.u(k[0], m[j]), u[0, j], rtol=rtol)
            ctx.eq("explicit concentration", p.u(k, m[0], c=S.c[j]), p.u(k * S.rvir[0] / S.c[j], m[0], c=S.c[j], coord="kappa"), rtol=rtol)
        try:
            p.u(k, m, norm="foo")
            ctx.true("unknown normalisation is refused", False)
        except ValueError:
            ctx.true("unknown normalisation is refused", True)
        unchanged(ctx, "c is not modified", S.c, sc)
        unchanged(ctx, "k is not modified", k, sk)
        unchanged(ctx, "m is not modified", m, sm)

    return h


def integers(name):
    """Wavenumbers given as integers are the same wavenumbers."""

    def h(ctx):
        S = Setup(ctx, name, nm=1)
        if name == "Einasto" and not ctx.sym:
            ctx.assume(S.c[0] < 20)
        c = S.c[0]
        if ctx.sym and name in NUMERIC:
            ctx.assume(c < 1.5)
        k = np.array([1, 2])
        with meijerg(ctx):
            a, b = (S.p.u(q, S.m[0], norm="m", c=c, coord="kappa") for q in (k, k.astype(float)))
        ctx.eq("integer wavenumbers", a, b)

    return h

def harnesses(tier="quick"):
    out = []
    for n, (_, prm, trunc, analytic) in MODELS.items():
        if n in NUMERIC:
            out.append(H(f"pair-{n}", pair_numeric(n), bounds="1 halo, 2 wavenumbers, K c < 3.1 (no sign change of sin inside the halo)", timeout=3000, grid=4))
            out.append(H(f"pair2-{n}", pair_numeric2(n), bounds="2 halos, 2 wavenumbers, K c < 3.1", timeout=3000, grid=4))
        elif n in MEIJER:
            out.append(H(f"mellin-{n}", meijer(n), bounds="all K>0, all complex s by rational identity; periodic remainder at 6 points", grid=4))
            out.append(H(f"far-{n}", far(n), bounds="1-2 wavenumbers"))
        elif trunc:
            out.append(H(f"pair-{n}", pair_trunc(n), bounds="all K>0, c>0"))
        else:
            out.append(H(f"pair-{n}", pair_inf(n), bounds="all K>0"))
        out.append(H(f"integers-{n}", integers(n), bounds="2 integer wavenumbers in inverse scale radii", grid=4))
        if n not in NUMERIC:
            out.append(H(f"use-{n}", use(n), bounds="2 wavenumbers x 2 masses"))
    out.append(H("pair-PowerLaw-b2", plaw2, bounds="all K>0, a>0"))
    out.append(H("table-Einasto", table, bounds="2 wavenumbers x 3 masses", grid=4))
    out.append(H("general-Inf", general_inf, bounds="2 wavenumbers x 2 masses", grid=4))
    return out
