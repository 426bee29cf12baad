"""C07: mean occupations of the HOD models."""
import astropy.constants as ac
import numpy as np
import scipy.constants as sc
import scipy.special as sps

import halomod.hod as O
from symx import terms as T

from .common import H, snapshot, unchanged

N = 2


def lin(ctx, name, lo, hi, **k):
    """A mass parameter: the free mass and its base-10 logarithm, as the models take it."""
    v = ctx.real(name, lo, hi, **k)
    return v, np.log10(v)


def masses(ctx, lo=1e9, hi=1e16):
    return ctx.increasing("m", N, lo, hi)


def erf(x):
    return sps.erf(x) if not isinstance(x, T.R) else T.fn("erf", x)


def exp(x):
    return np.exp(x) if not isinstance(x, T.R) else T.fn("exp", x)


def general(ctx, h, m, nc, ns, inherent=False, central=False):
    """Central, satellite and total against the scalars given per mass."""
    sm = snapshot(m)
    c, s, t = h.central_occupation(m), h.satellite_occupation(m), h.total_occupation(m)
    for i in range(N):
        if np.ndim(c):
            ctx.eq("mean centrals", c[i], nc[i])
        else:
            ctx.eq("mean centrals", c, nc[i])
        ctx.eq("mean satellites", s[i], ns[i])
        ctx.eq("total is centrals plus satellites", t[i], nc[i] + ns[i])
    ctx.eq("in any order of masses", ctx.arr(list(h.satellite_occupation(m[::-1]))[::-1]), ctx.arr(list(s)))
    ctx.eq("in any order of masses, in total", ctx.arr(list(h.total_occupation(m[::-1]))[::-1]), ctx.arr(list(t)))
    ctx.same_shape("one value per mass", s, (N,))
    ctx.same_shape("one total per mass", t, (N,))
    ctx.eq("repeated evaluation gives the same", ctx.arr(list(h.total_occupation(m))), ctx.arr(list(t)))
    unchanged(ctx, "masses not modified", m, sm)


def zehavi(cls, tmax=False, marked=False):
    def h(ctx):
        m = masses(ctx)
        X, lX = lin(ctx, "Mmin", 1e10, 1e14)
        M1, lM1 = lin(ctx, "M1", 1e11, 1e15)
        al = ctx.real("alpha", 0, 2)
        p = {"M_min": lX, "M_1": lM1, "alpha": al}
        hi = A = None
        if tmax:
            hi, p["M_max"] = lin(ctx, "Mmax", 1e14, 1e17)
        if marked:
            A, p["logA"] = lin(ctx, "A", 1e-3, 1e9)
        A = A if marked else 1
        one = lambda x: 0 if x < X or (hi is not None and x > hi) else 1
        st = [one(x) for x in m]
        sat = [A * (x / M1) ** al for x in m]
        general(ctx, cls(**p), m, [A * x for x in st], sat)
        cc = cls(central=True, **p)
        general(ctx, cc, m, [A * x for x in st], [a * b for a, b in zip(st, sat)])
        ctx.eq("minimum mass", cc.mmin, lX)

    return h


def tinker05(ctx):
    m = masses(ctx)
    X, lX = lin(ctx, "Mmin", 1e10, 1e14)
    M1, lM1 = lin(ctx, "M1", 1e11, 1e15)
    C, lC = lin(ctx, "Mcut", 1e10, 1e14)
    for x in m:
        ctx.assume(T.bnot(T.cmp("eq", x, X)) if ctx.sym else x != X)
    k = ctx.choice("central", [False, True])
    st = [0 if x < X else 1 for x in m]
    sat = [exp(-C / (x - X)) * x / M1 if s else 0 for x, s in zip(m, st)]
    general(ctx, O.Tinker05(central=k, M_min=lX, M_1=lM1, M_cut=lC), m, st, sat)


def zheng(ctx):
    m = masses(ctx)
    lX, sg, al = ctx.real("M_min", 10, 14), ctx.real("sig", 0.05, 1.5), ctx.real("alpha", 0.1, 2)
    M1, lM1 = lin(ctx, "M1", 1e11, 1e15)
    M0, l0 = lin(ctx, "M0", 1e9, 1e14)
    p = {"M_min": lX, "M_1": lM1, "alpha": al, "M_0": l0, "sig_logm": sg}
    nc = [(1 + erf((np.log10(x) - lX) / sg)) / 2 for x in m]
    ns = [((x - M0) / M1) ** al if x > M0 else 0 for x in m]
    h = O.Zheng05(**p)
    general(ctx, h, m, nc, ns)
    general(ctx, O.Zheng05(central=True, **p), m, nc, [a * b for a, b in zip(nc, ns)])
    ctx.eq("minimum mass is five widths below the threshold", h.mmin, lX - 5 * sg)
    c = h.central_occupation(m)
    ctx.le("centrals are at most one", c[0], 1)
    ctx.le("centrals are not negative", 0, c[0])
    ctx.le("centrals do not fall with mass", c[0], c[1])


def contreras(cls):
    def h(ctx):
        m = masses(ctx)
        X, lX = lin(ctx, "Mmin", 1e10, 1e14)
        M1, lM1 = lin(ctx, "M1", 1e11, 1e15)
        v = {k: ctx.real(k, a, b) for k, a, b in (("alpha", 0.1, 2), ("sig_logm", 0.05, 1.5), ("fca", 0, 1), ("fcb", 0, 1), ("fs", 0.1, 2), ("delta", 0.2, 2), ("x", 0.3, 2))}
        g = lambda x: np.log10(x / X) / (v["x"] * v["sig_logm"])
        nc = [v["fcb"] * (1 - v["fca"]) * exp(-(g(x) ** 2) / 2) + v["fca"] * (1 + erf(g(x))) for x in m]
        ns = [v["fs"] * (1 + erf(np.log10(x / M1) / v["delta"])) * (x / M1) ** v["alpha"] for x in m]
        p = {"M_min": lX, "M_1": lM1, "M_0": 11.0, **v}
        general(ctx, cls(**p), m, nc, ns)
        general(ctx, cls(central=True, **p), m, nc, [a * b for a, b in zip(nc, ns)])

    return h


def powerlaw(ctx):
    m = masses(ctx)
    X, lX = lin(ctx, "Mmin", 1e10, 1e14)
    M1, lM1 = lin(ctx, "M1", 1e11, 1e15)
    hi, lhi = lin(ctx, "Mmax", 1e14, 1e17)
    A, lA = lin(ctx, "A", 1e-3, 1e9)
    al, sA = ctx.real("alpha", 0.1, 2), ctx.real("sigma_A", 0, 5)
    p = {"M_min": lX, "M_1": lM1, "M_max": lhi, "logA": lA, "alpha": al, "sigma_A": sA}
    ns = [A * ((x / M1) ** al + 1) if x >= X and x <= hi else 0 for x in m]
    h = O.ContinuousPowerLaw(**p)
    general(ctx, h, m, [0] * N, ns)
    general(ctx, O.ContinuousPowerLaw(central=True, **p), m, [0] * N, ns)
    for i in range(N):
        ctx.eq("constant scatter", h.sigma_satellite(m)[i], sA)


def constant(ctx):
    m = masses(ctx)
    X, lX = lin(ctx, "Mmin", 1e10, 1e14)
    A, lA = lin(ctx, "A", 1e-3, 1e9)
    sA = ctx.real("sigma_A", 0, 5)
    for x in m:
        ctx.assume(T.bnot(T.cmp("eq", x, X)) if ctx.sym else x != X)
    h = O.Constant(logA=lA, M_min=lX, sigma_A=sA)
    general(ctx, h, m, [0] * N, [A if x > X else 0 for x in m])
    for i in range(N):
        ctx.eq("constant scatter", h.sigma_satellite(m)[i], sA)


def spinelli(ctx):
    m = masses(ctx, 1e9, 1e15)
    v = {k: ctx.real(k, a, b) for k, a, b in (("a1", 1e-4, 1e-2), ("a2", 1e-5, 1e-3), ("alpha", 0.2, 1), ("beta", 0.2, 1), ("alpha_sat", 0.3, 1.5), ("beta_sat", 0.5, 2))}
    c = ctx.c
    mb, lb = lin(ctx, "Mbreak", 1e11, 1e13)
    mc, lc = lin(ctx, "Mcut", 1e-4, 1e12)
    am, l0 = lin(ctx, "amp", 1e7, 1e9)
    ms, ls = lin(ctx, "Msat", 1e10, 1e13)
    counts = {k: ctx.real(k, a, b) for k, a, b in (("M_min_counts", 9, 12), ("M_max_counts", 13, 16), ("M_1_counts", 12, 14), ("alpha_counts", 0.5, 1.5))}  # not in the amounts
    h = O.Spinelli19(**v, M_break=lb, M_1=lc, M_0=l0, M_break_sat=ls, **counts)
    nc = [x * (v["a1"] * (x / c(1e10)) ** v["beta"] * exp(-((x / mb) ** v["alpha"])) + v["a2"]) * exp(-((mc / x) ** c(0.5))) for x in m]
    ns = [am * (x / ms) ** v["beta_sat"] * exp(-((ms / x) ** v["alpha_sat"])) if x >= 1e11 else 0 for x in m]
    general(ctx, h, m, nc, ns)


class Q:
    def __init__(self, v):
        self.value = v


def units(ctx):
    """Spinelli et al.: occupation (Msun/h per (Mpc/h)^3) to brightness temperature in K."""
    H0, E, z = ctx.real("H0", 50, 90), ctx.real("E", 1, 8), ctx.real("z", 0, 30)

    class Cos:
        pass

    cos = Cos()
    cos.H0 = Q(H0)
    got = []
    cos.efunc = lambda zz: (got.append(zz), E)[1]
    u = O.Spinelli19().unit_conversion(cos, z)
    c = ctx.c
    mpc = c(float(ac.kpc.value)) * 1000
    K = 3 * c(2.869e-15) * c(sc.h) * c(sc.c) ** 3 / (32 * np.pi * (c(sc.m_p) + c(sc.m_e)) * c(sc.k) * c(1.42e9) ** 2)
    r = u / (K * (1 + z) ** 2 / (H0 * E * 1000 / mpc) * c(float(ac.M_sun.value)) / (mpc * 100 / H0) ** 3)
    what = "3 A12 h c^3/(32 pi m_H k nu^2) (1+z)^2/H(z), per comoving volume"
    ctx.le(what, r, 1 + c(1e-6))
    ctx.le(what, 1 - c(1e-6), r)
    ctx.eq("expansion rate at the redshift given", got[0], z)
    for k in ("Zheng05", "Constant", "Zehavi05Marked"):
        ctx.eq("no conversion for other models", getattr(O, k)().unit_conversion(cos, z), 1)


def leau_params(ctx, full):
    v = {k: ctx.real(k, a, b) for k, a, b in (
        ("redshift", 0, 3), ("sm_thresh", 8.5, 11.5), ("smhm_m0_0", 10, 11.5), ("smhm_m0_a", -1, 1), ("smhm_m1_0", 11.5, 13), ("smhm_m1_a", -1, 1),
        ("smhm_beta_0", 0.3, 0.6), ("smhm_beta_a", -0.1, 0.3), ("smhm_delta_0", 0.4, 0.7), ("smhm_delta_a", -0.1, 0.3), ("smhm_gamma_0", 1, 2),
        ("smhm_gamma_a", -1, 1), ("sig_logmstar", 0.1, 0.4), ("alphasat", 0.7, 1.3), ("betasat", 0.6, 1.1), ("bsat", 5, 20), ("betacut", -0.3, 1), ("bcut", 0.5, 3)) if full or not k.startswith(("smhm", "redshift"))}
    d = {**ctx.c({k: float(x) for k, x in O.Leauthaud11._defaults.items()}), **v}
    a = 1 / (1 + d["redshift"])
    ev = lambda k: d[f"smhm_{k}_0"] + d[f"smhm_{k}_a"] * (a - 1)

    def F(s):
        q = 10**s / 10 ** ev("m0")
        return ev("m1") + ev("beta") * np.log10(q) + q ** ev("delta") / (1 + q ** (-ev("gamma"))) - ctx.c(0.5)

    return v, F


def shmr(ctx):
    v, F = leau_params(ctx, True)
    h = O.Leauthaud11(**v)
    s = ctx.real("s", 6, 12)
    ctx.eq("eq 13 of Behroozi et al. (2010)", h.mean_log_halo_mass(s), F(s))
    ctx.eq("minimum mass is that of the stellar threshold", h.mmin, F(v["sm_thresh"]))


def leauthaud(ctx):
    v, _ = leau_params(ctx, False)
    g, g0 = ctx.real("slope", 0.3, 3), ctx.real("offset", 0, 10)
    F = lambda s: g0 + g * s

    class L11(O.Leauthaud11):
        """The stellar-to-halo relation is an arbitrary rising line here (the real one: Leauthaud11-shmr)."""

        def mean_log_halo_mass(self, log_stellar_mass):
            return F(log_stellar_mass)

    s = [ctx.real("s0", 8, 9.5), ctx.real("s1", 9.5, 11)]
    lm = [F(x) for x in s]
    m = ctx.arr([10**x for x in lm])
    cen = ctx.choice("central", [False, True])
    k0 = O.interp1d
    tabs = []

    class Inv:
        """The inverse of a tabulated relation (contract of a converged cubic interpolation)."""

        def __init__(self, x, y, **kw):
            ctx.true("the table is interpolated smoothly and beyond its ends", kw.get("kind") == "cubic" and kw.get("fill_value") == "extrapolate")
            for i in (0, len(x) // 3, len(x) - 1):
                ctx.eq("the table holds the stellar-to-halo relation", x[i], F(y[i]))
            ctx.eq("the table starts below every stellar mass", y[0], 0)
            ctx.eq("the table ends above every stellar mass", y[-1], 14)
            tabs.append(1)

        def __call__(self, q):
            if np.ndim(q):
                return ctx.arr([self(x) for x in q])
            for j, l in enumerate(lm):
                if bool(T.cmp("eq", T.lift(q), T.lift(l))):
                    return s[j]
            raise T.Unsupported("interpolation at an unlisted mass")

    h = L11(central=cen, **v)
    if ctx.sym:
        O.interp1d = Inv
    try:
        nc = [(1 - erf((v["sm_thresh"] - x) / (np.sqrt(ctx.c(2)) * v["sig_logmstar"]))) / 2 for x in s]
        knee = ctx.c(0.72e12)
        th = 10 ** F(v["sm_thresh"]) / knee
        ms, mc = knee * v["bsat"] * th ** v["betasat"], knee * v["bcut"] * th ** v["betacut"]
        ns = [n * exp(-mc / x) * (x / ms) ** v["alphasat"] for n, x in zip(nc, m)]
        C, S = h.central_occupation(m), h.satellite_occupation(m)
        for i in range(N):
            ctx.eq("eq 8 of Leauthaud et al. (2011)", C[i], nc[i], rtol=1e-4, atol=1e-6)
            ctx.eq("eqs 12-14 of Leauthaud et al. (2011)", S[i], ns[i], rtol=1e-4, atol=1e-6)
    finally:
        O.interp1d = k0


Z = {"M_min": 11.6222, "M_1": 12.851, "alpha": 1.049}
BEHROOZI = {"m0": 10.72, "m1": 12.35, "beta": 0.43, "delta": 0.56, "gamma": 1.54}
DEFAULTS = {
    "Zehavi05": Z,
    "Zheng05": {**Z, "M_0": 11.5047, "sig_logm": 0.26},
    "Contreras13": {**Z, "M_0": 11.5047, "sig_logm": 0.26, "fca": 0.5, "fcb": 0, "fs": 1, "delta": 1, "x": 1},
    "Geach12": {**Z, "M_0": 11.5047, "sig_logm": 0.26, "fca": 0.5, "fcb": 0, "fs": 1, "delta": 1, "x": 1},
    "Tinker05": {"M_min": 11.6222, "M_1": 12.851, "M_cut": 12.0},
    "Zehavi05WithMax": {**Z, "M_max": 18},
    "Zehavi05Marked": {**Z, "M_max": 18, "logA": 0},
    "ContinuousPowerLaw": {**Z, "M_max": 18, "logA": 0, "sigma_A": 0},
    "Constant": {"logA": 0, "M_min": 11, "sigma_A": 0},
    "Spinelli19": {  # table 5 at z=1
        "a1": 1.6e-3, "a2": 1.1e-4, "alpha": 0.56, "beta": 0.43, "M_break": 11.86, "M_1": -2.99, "M_0": 8.31, "M_break_sat": 11.4,
        "alpha_sat": 0.84, "beta_sat": 1.1, "M_min": 9, "M_max": 18, "sigma_A": 0, "M_1_counts": 12.851, "alpha_counts": 1.049,
        "M_min_counts": 11, "M_max_counts": 15,
    },
    "Leauthaud11": {
        "redshift": 0, "sm_thresh": 9, "sig_logmstar": 0.206, "alphasat": 1, "betasat": 0.859, "bsat": 10.62, "betacut": -0.13, "bcut": 1.47,
        **{f"smhm_{k}_0": v for k, v in BEHROOZI.items()}, **{f"smhm_{k}_a": 0 for k in BEHROOZI},
    },
}
SHARP = {"Tinker05", "Zehavi05", "Zehavi05WithMax", "Zehavi05Marked", "ContinuousPowerLaw"}


def defaults(ctx):
    """A parameter left out has its published value; one that is given replaces that one alone."""
    for name, d in DEFAULTS.items():
        h = getattr(O, name)()
        for k, v in d.items():
            ctx.eq(f"{name}: {k}", h.params[k], v)
            x = ctx.real("given", 5, 20)
            g = getattr(O, name)(**{k: x})
            ctx.eq(f"{name}: {k} given", g.params[k], x)
            for q, w in d.items():
                if q != k:
                    ctx.eq(f"{name}: {q} when {k} is given", g.params[q], w)


def cuts(name):
    """What a model says about its mass cut is what its occupation does (integrals over mass rely on it)."""

    def f(ctx):
        X, lX = lin(ctx, "Mmin", 1e10, 1e14)
        p = {"M_min": lX}
        hi = None
        if "M_max" in DEFAULTS[name]:
            hi, p["M_max"] = lin(ctx, "Mmax", 1e14, 1e17)
        h = getattr(O, name)(central=True, **p)
        ctx.true("sharp cut as published", bool(h.sharp_cut) == (name in SHARP))
        x = ctx.real("m", 1e8, 1e17)
        if h.sharp_cut:
            ctx.eq("minimum mass", h.mmin, lX)
            t = h.total_occupation(ctx.arr([x]))[0]
            if x < X:
                ctx.eq("no tracers below a sharp cut", t, 0)
            elif hi is None or x <= hi:
                ctx.lt("tracers above a sharp cut", 0, t)
        if h.central_condition_inherent:
            ctx.assume(T.bnot(T.cmp("eq", x, X)) if ctx.sym else x != X)
            g = getattr(O, name)(central=False, **p)
            ctx.eq("an inherent central condition is not applied again", h.satellite_occupation(ctx.arr([x]))[0], g.satellite_occupation(ctx.arr([x]))[0])

    return f


def integers(name):
    """Masses given as integers are the same masses."""

    def f(ctx):
        d = DEFAULTS[name]
        free = {"M_1": (11, 13), "alpha": (0.7, 1.5), "M_0": (11, 12), "M_min": (10, 12), "alpha_counts": (0.7, 1.5), "betasat": (0.5, 0.9)}
        h = getattr(O, name)(**{k: ctx.real(k, *r) for k, r in free.items() if k in d and name != "Spinelli19" or k == "alpha_counts" and k in d})
        m = np.array([3 * 10**10, 4 * 10**12, 7 * 10**14])
        for what in ("central_occupation", "satellite_occupation", "total_occupation"):
            ctx.eq(f"integer masses: {what}", getattr(h, what)(m), getattr(h, what)(m.astype(float)))

    return f


def harnesses(tier="quick"):
    b = "2 free masses"
    ints = [H(f"integers-{n}", integers(n), max_paths=20, bounds="3 integer masses, free parameters") for n in DEFAULTS if n != "Leauthaud11"]
    return ints + [H(f"cut-{n}", cuts(n), bounds="any mass, published parameters") for n in DEFAULTS if n not in ("Leauthaud11", "Spinelli19")] + [
        H("defaults", defaults, bounds="each parameter left out or given"),
        H("Zehavi05", zehavi(O.Zehavi05), bounds=b), H("Zehavi05WithMax", zehavi(O.Zehavi05WithMax, True), bounds=b),
        H("Zehavi05Marked", zehavi(O.Zehavi05Marked, True, True), bounds=b),
        H("Tinker05", tinker05), H("Zheng05", zheng), H("Contreras13", contreras(O.Contreras13)), H("Geach12", contreras(O.Geach12)),
        H("ContinuousPowerLaw", powerlaw), H("Constant", constant), H("Spinelli19", spinelli), H("unit-conversion", units),
        H("Leauthaud11-shmr", shmr), H("Leauthaud11", leauthaud, bounds="2 masses given through their stellar masses; cubic interpolation replaced by its contract"),
    ]
