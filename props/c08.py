"""C08: second moments of the HOD: pair counts, scatter, the central condition."""
import numpy as np

import halomod.hod as O

from .common import H, snapshot, Token, unchanged

N = 2


def table(ctx, name, lo, hi):
    return ctx.reals(name, N, lo, hi)


def mk(base, nc, ns, tc, ts, inherent, ctx):
    """A model whose mean occupations are arbitrary: one free value per mass."""

    class Model(base):
        central_condition_inherent = inherent

        def _central_occupation(self, m):
            return ctx.arr([a * b for a, b in zip(nc, tc)])

        def _satellite_occupation(self, m):
            return ctx.arr([a * b for a, b in zip(ns, ts)])

        def _tracer_per_central(self, m):
            return ctx.arr(tc)

        def _tracer_per_satellite(self, m):
            return ctx.arr(ts)

        def sigma_satellite(self, m):
            return super().sigma_satellite(m)

    return Model


def poisson(ctx):
    m = ctx.increasing("m", N, 1e9, 1e16)
    sm = snapshot(m)
    nc, ns = table(ctx, "nc", 0.01, 0.99), table(ctx, "ns", 0.01, 100)
    marked = ctx.choice("tracer per source", [False, True])
    tc = table(ctx, "tc", 0.01, 100) if marked else [1] * N
    ts = table(ctx, "ts", 0.01, 100) if marked else [1] * N
    cen, inh = ctx.choice("central condition", [False, True]), ctx.choice("inherent", [False, True])
    h = mk(O.HODPoisson, nc, ns, tc, ts, inh, ctx)(central=cen)
    S = [ts[i] * ns[i] * (nc[i] if cen and not inh else 1) for i in range(N)]
    C = [tc[i] * nc[i] for i in range(N)]
    so, co, to = h.satellite_occupation(m), h.central_occupation(m), h.total_occupation(m)
    ss, cs, tp = h.ss_pairs(m), h.cs_pairs(m), h.total_pair_function(m)
    n_c, n_s, sc = h.nc(m), h.ns(m), h.sigma_central(m)
    for i in range(N):
        ctx.eq("satellites: multiplied by the fraction with centrals exactly when the condition is enforced and not inherent", so[i], S[i])
        ctx.eq("centrals as defined", co[i], C[i])
        ctx.eq("total", to[i], S[i] + C[i])
        ctx.eq("number of centrals", n_c[i], nc[i])
        ctx.eq("number of satellites", n_s[i], S[i] / ts[i])
        ctx.eq("satellite pairs: Poisson", ss[i], S[i] ** 2)
        ctx.eq("central-satellite pairs", cs[i], S[i] * tc[i] if cen else C[i] * S[i])
        ctx.eq("all pairs", tp[i], ss[i] + cs[i])
        ctx.eq("scatter of satellites: Poisson", h.sigma_satellite(m)[i] ** 2, ts[i] * S[i])
        ctx.eq("scatter of centrals: Bernoulli", sc[i] ** 2, tc[i] ** 2 * nc[i] * (1 - nc[i]))
    unchanged(ctx, "masses not modified", m, sm)


def marked(ctx):
    """Zehavi05Marked with amplitude A against the same model of counts: no normalised statistic changes."""
    m = ctx.increasing("m", N, 1e9, 1e18)
    A, X, M1 = ctx.real("A", 1e-3, 1e9), ctx.real("Mmin", 1e10, 1e14), ctx.real("M1", 1e11, 1e15)
    hi, al = ctx.real("Mmax", 1e14, 1e17), ctx.real("alpha", 0, 2)
    p = {"M_min": np.log10(X), "M_1": np.log10(M1), "M_max": np.log10(hi), "alpha": al}
    cen = ctx.choice("central condition", [False, True])
    a, b = O.Zehavi05Marked(central=cen, logA=np.log10(A), **p), O.Zehavi05WithMax(central=cen, **p)
    for what, k in (("central_occupation", 1), ("satellite_occupation", 1), ("total_occupation", 1), ("sigma_central", 1), ("sigma_satellite", 1),
                    ("ss_pairs", 2), ("cs_pairs", 2), ("total_pair_function", 2), ("nc", 0), ("ns", 0)):
        x, y = getattr(a, what)(m), getattr(b, what)(m)
        for i in range(N):
            ctx.eq(f"{what} scales as A^{k}", x[i], A**k * y[i])


def nocentral(ctx):
    m = ctx.increasing("m", N, 1e9, 1e16)
    s = table(ctx, "s", 0.01, 100)

    for base in (O.HODBulk, O.HODNoCentral):
        ns = {"_satellite_occupation": lambda self, m: ctx.arr(s), "sigma_satellite": lambda self, m: ctx.arr(s)}
        if base is O.HODNoCentral:
            ns.update(ns=lambda self, m: ctx.arr(s), ss_pairs=lambda self, m: ctx.arr(s) ** 2)
        cls = type("Model", (base,), ns)
        for cen in (False, True):
            h = cls(central=cen)
            for i in range(N):
                ctx.eq("satellites as defined, condition or not", h.satellite_occupation(m)[i], s[i])
                ctx.eq("total", h.total_occupation(m)[i], s[i])
                ctx.eq("pairs", h.total_pair_function(m)[i], s[i] ** 2)
                ctx.eq("satellite pairs", h.ss_pairs(m)[i], s[i] ** 2)
            z = [h.nc(m), h.cs_pairs(m), h.central_occupation(m), h.sigma_central(m)]
            for v in z + ([h.ns(m)] if base is O.HODBulk else []):
                for x in np.ravel(np.asarray(v, dtype=object)):
                    ctx.eq("no centrals, and no counts for a continuous tracer", x, 0)


def bulk_scatter(ctx):
    """Models without discrete tracers have the scatter they are given, whatever the amount."""
    m = ctx.arr([ctx.real("m0", 2e11, 1e13), ctx.real("m1", 1e13, 1e14)])
    A, sA = ctx.real("logA", -2, 9), ctx.real("sigma_A", 0, 5)
    for name in ("ContinuousPowerLaw", "Constant"):
        h = getattr(O, name)(logA=A, sigma_A=sA)
        for i in range(2):
            ctx.eq(f"{name}: scatter as given", h.sigma_satellite(m)[i], sA)


def real_models(ctx):
    """The pair identities on every model of counts shipped, with its published parameters."""
    name = ctx.choice("model", ["Zehavi05", "Zheng05", "Contreras13", "Geach12", "Tinker05", "Zehavi05WithMax", "Spinelli19"])
    cen = ctx.choice("central condition", [False, True])
    m = ctx.arr([ctx.real("m0", 2e12, 1e13), ctx.real("m1", 1e13, 1e14)])
    h = getattr(O, name)(central=cen)
    S, C, tc, ts = h.satellite_occupation(m), h.central_occupation(m), h._tracer_per_central(m), h._tracer_per_satellite(m)
    at = lambda v, i: v[i] if np.ndim(v) else v
    s0, inh = h._satellite_occupation(m), name == "Tinker05"
    for i in range(N):
        ctx.eq("satellites with the condition", S[i], s0[i] * (C[i] / at(tc, i) if cen and not inh else 1))
        ctx.eq("satellite pairs", h.ss_pairs(m)[i], S[i] ** 2)
        ctx.eq("central-satellite pairs", h.cs_pairs(m)[i], S[i] * at(tc, i) if cen else S[i] * C[i])
        ctx.eq("all pairs", h.total_pair_function(m)[i], h.ss_pairs(m)[i] + h.cs_pairs(m)[i])
        ctx.eq("number of centrals", h.nc(m)[i] * at(tc, i), C[i])
        ctx.eq("number of satellites", h.ns(m)[i] * at(ts, i), S[i])


def counts(ctx):
    """The sources of Spinelli19: one central per halo and a power law of satellites between the limits of the counts."""
    lo, hi, M1, al = ctx.real("lo", 1e10, 1e11), ctx.real("hi", 1e14, 1e15), ctx.real("M1", 1e12, 1e13), ctx.real("alpha", 0.5, 1.5)
    m = ctx.arr([ctx.real("m0", 2e12, 1e13), ctx.real("m1", 1e13, 9e13), ctx.real("edge", 5e9, 2e15)])
    h = O.Spinelli19(M_min_counts=np.log10(lo), M_max_counts=np.log10(hi), M_1_counts=np.log10(M1), alpha_counts=al)
    n, C, S = h.ns(m[:2]), h.central_occupation(m), h.satellite_occupation(m)
    for i in range(2):
        ctx.eq("number of satellites", n[i] * (m[i] / M1) ** al, S[i])
        ctx.eq("number of centrals", h.nc(m[:2])[i], C[i])
    x = m[2]
    inside = x >= lo and x <= hi
    ctx.eq("amount per central", h._tracer_per_central(m)[2], 1 if inside else 0)
    ctx.eq("amount per satellite", h._tracer_per_satellite(m)[2], (x / M1) ** al if inside else 0)


def construct(ctx):
    cos, cm, pr, md = Token("cos"), Token("cm"), Token("pr"), Token("md")
    q = ctx.real("q", 9, 13)
    for name in ("Zehavi05", "Constant", "Spinelli19", "ContinuousPowerLaw"):
        k = getattr(O, name)
        h = k(cosmo=cos, cm_relation=cm, profile=pr, mdef=md, M_min=q)
        ctx.true(f"{name}: cosmology, concentration, profile and mass definition are kept", h.cosmo is cos and h.cm_relation is cm and h.profile is pr and h.mdef is md)
        ctx.eq(f"{name}: parameter given", h.params["M_min"], q)
        ctx.eq(f"{name}: minimum mass", h.mmin, q)
        d = {a: b for a, b in h.params.items() if a != "M_min"}
        ctx.true(f"{name}: other parameters are the defaults", d == {a: b for a, b in k._defaults.items() if a != "M_min"})
        ctx.true(f"{name}: condition not enforced by default", h._central is False)


def integers(ctx):
    """Masses given as integers are the same masses."""
    name = ctx.choice("model", ["Zehavi05", "Zheng05", "Spinelli19", "Zehavi05Marked"])
    d = getattr(O, name)._defaults
    h = getattr(O, name)(**{k: ctx.real(k, 0.7, 1.5) for k in ("alpha", "alpha_counts") if k in d})
    m = np.array([2**41, 2**46])
    f = m.astype(float)
    for what in ("ss_pairs", "cs_pairs", "nc", "ns", "_tracer_per_central", "_tracer_per_satellite"):
        ctx.eq(f"integer masses: {what}", getattr(h, what)(m), getattr(h, what)(f))


def harnesses(tier="quick"):
    return [
        H("Poisson", poisson, bounds="arbitrary mean occupations and tracer amounts at 2 masses"),
        H("marked", marked), H("no-centrals", nocentral), H("Spinelli-counts", counts), H("shipped-models", real_models, max_paths=80), H("bulk-scatter", bulk_scatter), H("construction", construct), H("integers", integers, max_paths=12, bounds="2 integer masses, free slopes"),
    ]
