"""C17: cross-correlation of two tracer populations."""
import numpy as np

import halomod.cross_correlations as X
import halomod.halo_model as HM
import halomod.tools as TL

from .common import Absent, H, fake, snapshot, unchanged
from .hm2pt import K, M, RT, by_table, quadrature, spl, vals, zero

NM, NK, NR = len(M), len(K), len(RT)
MMIN = {"none": None, "first": M[0], "between": 10**12.4, "tabulated": M[1], "low": 10**10.4}
GRID = {"low": M / 100, "none": M[:4] * 2.0}


class Model:
    def __init__(self, ctx, tag, mmin=None, m=M, **k):
        n = len(m)
        self.m, self.k, self._r_table, self.k_hm, self.r = m, K, RT, K[1:3], RT[1:3]
        if tag != "a":  # the first model's are reported on
            self.k_hm, self.r = K[2:], RT[:3]
        self.dndm, self.halo_bias, self._total_occupation = (vals(ctx, tag + q, n, 0.1, 3) for q in ("n", "b", "o"))
        self.tracer_profile_ukm = vals(ctx, tag + "u", (NK, n), 0.05, 1)
        self.mean_tracer_den = ctx.real(tag + "d", 0.1, 5)
        self.tracer_mmin = mmin
        ph, pl = vals(ctx, tag + "h", NK, 0.1, 3), vals(ctx, tag + "l", NK, 0.1, 3)
        self.p = ph
        self._power_halo_centres_fnc, self.linear_power_fnc = spl(K, ph, zero, zero), spl(K, pl, TL._PowerLawK(1.0), "power_law")
        self.__dict__.update(k)

    def __getattr__(self, name):
        if hasattr(HM.TracerHaloModel, name):
            return Absent(name)
        raise AttributeError(name)


class Pairs:
    """Cross pairs by mass; undefined at some masses."""

    def __init__(self, ctx, nan):
        self.t = {q: vals(ctx, q, NM, 0.1, 5) for q in ("ss", "cs", "sc")}
        for q, j in nan:
            self.t[q][j] = np.nan

    def _at(self, q, m):
        return self.t[q][[list(M).index(v) for v in m]]

    ss_cross_pairs = lambda self, m: self._at("ss", m)
    cs_cross_pairs = lambda self, m: self._at("cs", m)
    sc_cross_pairs = lambda self, m: self._at("sc", m)


NAN = {"all": [], "ss": [("ss", 0)], "each": [("ss", 0), ("cs", 4)], "sc": [("sc", 1), ("ss", 0)]}


def power_1h(which):
    def f(ctx):
        a, b = Model(ctx, "a"), Model(ctx, "b")
        c = Pairs(ctx, NAN[which])
        keep = [j for j in range(NM) if j not in {j for _, j in NAN[which]}]
        x = fake(X.CrossCorrelations, halo_model_1=a, halo_model_2=b, cross_hod=c)
        su = snapshot(a.tracer_profile_ukm)
        mm = M[keep]
        t = []
        with quadrature(ctx, X) as integ:
            fn = x.power_1h_cross_fnc
            for i in range(NK):
                y = [a.dndm[j] * (a.tracer_profile_ukm[i, j] * b.tracer_profile_ukm[i, j] * c.t["ss"][j] + a.tracer_profile_ukm[i, j] * c.t["sc"][j] + b.tracer_profile_ukm[i, j] * c.t["cs"][j]) for j in keep]
                t.append(integ(np.log(mm), ctx.arr(y) * mm) / (a.mean_tracer_den * b.mean_tracer_den))
        for i in range(NK):
            ctx.eq(f"satellites of each population on its own profile, undefined masses left out[{i}]", fn(K[i : i + 1])[0], t[i])
        ctx.eq("at the wavenumbers of the first model", x.power_1h_cross, ctx.arr(t[1:3]))
        want = spl(K, ctx.arr(t), "power_law", "power_law")
        for q in (K[:1] / 5, K[-1:] * 5):
            ctx.eq("continued as a power law", fn(q)[0], want(q)[0])
        unchanged(ctx, "profile not modified", a.tracer_profile_ukm, su)

    return f


def power_2h(c1, c2):
    def f(ctx):
        # grids of their own; a minimum mass is compared with the population's own
        m1 = GRID["low"] if c1 == "low" else M
        a, b = Model(ctx, "a", MMIN[c1], m=m1), Model(ctx, "b", MMIN[c2], m=GRID.get(c2, M))
        x = fake(X.CrossCorrelations, halo_model_1=a, halo_model_2=b)
        su = snapshot(a.tracer_profile_ukm)
        t = []
        with quadrature(ctx, X) as integ:
            fn = x.power_2h_cross_fnc
            for i in range(NK):
                w = []
                for h, cut in ((a, c1), (b, c2)):
                    y = h.dndm * h.halo_bias * h._total_occupation * h.tracer_profile_ukm[i] * h.m
                    w.append(integ(np.log(h.m), y, None if cut in ("none", "first") else np.log(h.tracer_mmin)))
                t.append(w[0] * w[1] * a.p[i] / (a.mean_tracer_den * b.mean_tracer_den))
        for i in range(NK):
            ctx.eq(f"2-halo power: both biased populations from their own minimum mass[{i}]", fn(K[i : i + 1])[0], t[i])
        q = K[:1] / 9
        ctx.eq("large scales follow the linear power", fn(q)[0], t[0] * a.linear_power_fnc(q)[0] / a.linear_power_fnc(K[:1])[0])
        q = K[-1:] * 5
        ctx.eq("small scales: power law", fn(q)[0], spl(K, ctx.arr(t), zero, "power_law")(q)[0])
        ctx.eq("at the wavenumbers of the first model", x.power_2h_cross, ctx.arr(t[1:3]))
        unchanged(ctx, "profile not modified", a.tracer_profile_ukm, su)

    return f


def swap(ctx):
    """Exchanging the populations (on one grid, and their cross pairs with them) changes nothing."""
    a, b = Model(ctx, "a", 10**12.4), Model(ctx, "b", None)
    b.dndm, b.k_hm, b.r = a.dndm, a.k_hm, a.r
    b._power_halo_centres_fnc = a._power_halo_centres_fnc
    c, e = Pairs(ctx, []), Pairs(ctx, [])
    e.t = {"ss": c.t["ss"], "cs": c.t["sc"], "sc": c.t["cs"]}
    x, y = fake(X.CrossCorrelations, halo_model_1=a, halo_model_2=b, cross_hod=c), fake(X.CrossCorrelations, halo_model_1=b, halo_model_2=a, cross_hod=e)
    with quadrature(ctx, X):
        ctx.eq("1-halo", x.power_1h_cross, y.power_1h_cross)
        ctx.eq("2-halo", x.power_2h_cross, y.power_2h_cross)


def correlations(ctx):
    a, b = Model(ctx, "a"), Model(ctx, "b")
    b._r_table, b.r = RT[:2], RT[:1]
    p, q = vals(ctx, "p", NK, 1, 3), vals(ctx, "q", NK, 1, 3)
    with by_table(ctx):
        x = fake(X.CrossCorrelations, halo_model_1=a, halo_model_2=b, power_1h_cross_fnc=spl(K, p, zero, zero), power_2h_cross_fnc=spl(K, q, zero, zero))
        for w, v in (("1h", p), ("2h", q)):
            fn = getattr(x, f"corr_{w}_cross_fnc")
            want = spl(RT, ctx.arr([v[i] * (i + 2) for i in range(NR)]), "power_law", zero)
            for i in range(NR):
                ctx.eq(f"{w} correlation is the transform of its power[{i}]", fn(RT[i : i + 1])[0], v[i] * (i + 2))
            ctx.eq(f"{w}: power law of the smallest separations", fn(RT[:1] / 7)[0], want(RT[:1] / 7)[0])
            ctx.eq(f"{w}: zero beyond the table", fn(RT[-1:] * 9)[0], 0)
            ctx.eq(f"{w}: at the separations of the first model", getattr(x, f"corr_{w}_cross"), ctx.arr([v[i] * (i + 2) for i in (1, 2)]))
        tot = ctx.arr([1 + (p[i] + q[i]) * (i + 2) for i in (1, 2)])
        ctx.eq("total: one plus both excesses", x.corr_cross, tot)
        ctx.eq("function of separation", x.corr_cross_fnc(RT[1:3]), tot)
        ctx.eq("total power is the sum of its terms", x.power_cross, p[1:3] + q[1:3])
        ctx.eq("function of wavenumber", x.power_cross_fnc(K[:2]), p[:2] + q[:2])


def wiring(ctx):
    """Each model is built with its own parameters, in order, once."""
    t, s = ctx.real("z1", 0, 3), ctx.real("z2", 0, 3)
    built = []

    class Rec:
        def __init__(self, **k):
            self.k = k
            built.append(self)
            for n, v in (("active_q", set()), ("recalc_prop_par", {}), ("recalc", {})):
                self.__dict__["_Rec__" + n] = v

    old = X.TracerHaloModel
    X.TracerHaloModel = Rec
    try:
        x = X.CrossCorrelations(cross_hod_model=X.ConstantCorr, halo_model_1_params={"z": t}, halo_model_2_params={"z": s})
        first, second = x.halo_model_1, x.halo_model_2
        ctx.true("built once each", len(built) == 2 and x.halo_model_1 is first and x.halo_model_2 is second)
        ctx.eq("first", first.k["z"], t)
        ctx.eq("second", second.k["z"], s)
        ctx.true("nothing else", set(first.k) == {"z"} == set(second.k))
        y = X.CrossCorrelations(cross_hod_model=X.ConstantCorr)
        ctx.true("defaults", y.halo_model_1.k == {} and y.halo_model_2.k == {} and y.cross_hod_params == {})
    finally:
        X.TracerHaloModel = old


def harnesses(tier="quick"):
    g = "5 masses, 4 wavenumbers, 4 separations; free mass functions, biases, occupations, profiles, cross pairs"
    out = [H(f"power-1h-{w}", power_1h(w), bounds=g) for w in NAN]
    out += [H(f"power-2h-{a}-{b}", power_2h(a, b), bounds=g) for a, b in (("none", "none"), ("between", "none"), ("none", "between"), ("tabulated", "between"), ("first", "tabulated"), ("between", "first"), ("between", "low"), ("low", "between"))]
    out += [H("swap", swap, bounds=g), H("correlations", correlations, bounds=g), H("wiring", wiring)]
    return out
