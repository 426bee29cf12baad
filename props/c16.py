"""C16: statistics of tracers: densities, fractions, biases, auto- and cross-correlation with matter."""
import numpy as np

import halomod.halo_exclusion as HX
import halomod.halo_model as HM
import halomod.hod as HO
import halomod.tools as TL

from .common import H, Token, contract, fake, snapshot, unchanged
from .hm2pt import K, M, RT, Prof, RecExcl, by_table, integral, same_fn, spl, vals, zero

TM = HM.TracerHaloModel
NM, NK, NR = len(M), len(K), len(RT)

LOGM = np.log10(M)
# sharp cut, central condition enforced, inherent, log10 of the minimum mass
CUTS = {
    "smooth": (False, True, False, 12.4),
    "sharp": (True, True, False, 12.4),
    "sharp-inherent": (True, False, True, 12.0),
    "sharp-free-satellites": (True, False, False, 12.4),
    "sharp-first-bin": (True, True, False, LOGM[0] + 0.3),
    "sharp-last-bin": (True, False, True, LOGM[-2] + 0.2),
}


class Hod:
    def __init__(self, ctx, cut):
        self.sharp_cut, self._central, self.central_condition_inherent, self.mmin = CUTS[cut]
        self._c, self._s = vals(ctx, "nc", NM, 0.1, 1), vals(ctx, "ns", NM, 0.1, 5)
        self._ss, self._cs = vals(ctx, "ss", NM, 0.1, 5), vals(ctx, "cs", NM, 0.1, 5)

    def _at(self, m, v):
        assert m is M
        return v

    total_occupation = lambda self, m: self._at(m, self._c) + self._s
    central_occupation = lambda self, m: self._at(m, self._c)
    satellite_occupation = lambda self, m: self._at(m, self._s)
    ss_pairs = lambda self, m: self._at(m, self._ss)
    cs_pairs = lambda self, m: self._at(m, self._cs)


def abstract(f):
    """Run a harness with the mass integral and the transform abstracted."""

    def g(ctx):
        with integral(ctx), by_table(ctx):
            f(ctx)

    g.__doc__ = f.__doc__
    return g


def setup(ctx, cut):
    h = Hod(ctx, cut)
    n = vals(ctx, "n", NM, 0.1, 2)
    limited = cut in ("sharp", "sharp-inherent", "sharp-first-bin", "sharp-last-bin")
    lo = 10 ** CUTS[cut][3] if limited else None
    cen = np.ones(NM) if limited else h._c
    return h, n, lo, cen, dict(m=M, k=K, _r_table=RT, dndm=n, hod=h)


def integ(y, lo):
    return TL.spline_integral(M, y, xmin=lo)


def density(cut):
    def f(ctx):
        h, n, lo, cen, d = setup(ctx, cut)
        b = vals(ctx, "b", NM, 0.5, 3)
        t = ctx.real("unit", 1e-6, 1e6)
        z = ctx.real("z", 0, 5)
        got = []
        h.unit_conversion = lambda cosmo, z: got.append((cosmo, z)) or t
        cosmo = Token("cosmo")
        hm = fake(TM, **d, halo_bias=b, cosmo=cosmo, z=z)
        sn, ss = snapshot(n), snapshot(h._s)
        dens = integ(n * (cen + h._s), lo)
        ctx.eq("mean density of the tracer", hm.mean_tracer_den, dens)
        ctx.eq("in the tracer's units", hm.mean_tracer_den_unit, dens * t)
        ctx.true("converted with the model's cosmology", len(got) > 0 and all(g[0] is cosmo for g in got))
        for g in got:
            ctx.eq("converted at the model's redshift", g[1], z)
        ctx.eq("effective bias is the occupation-weighted mean", hm.bias_effective_tracer, integ(n * (cen + h._s) * b, lo) / dens)
        ctx.eq("effective mass is the occupation-weighted mean, log10", hm.mass_effective, np.log10(integ(n * (cen + h._s) * ctx.arr(list(M)), lo) / dens))
        ctx.eq("fraction of satellites", hm.satellite_fraction, integ(n * h._s, lo) / dens)
        ctx.eq("fractions of centrals and satellites add to one", hm.central_fraction + hm.satellite_fraction, 1)
        ctx.eq("tracers per mass", hm.tracer_density_m, n * (h._c + h._s))
        ctx.eq("central occupation", hm.central_occupation, h._c)
        ctx.eq("satellite occupation", hm.satellite_occupation, h._s)
        ctx.eq("total occupation", hm.total_occupation, h._c + h._s)
        unchanged(ctx, "mass function not modified", n, sn)
        unchanged(ctx, "occupation not modified", h._s, ss)

    return f


def uniform_bias(ctx):
    """Where every halo has the same bias, so has the tracer (whatever its occupation)."""
    cut = ctx.choice("cut", ["smooth", "sharp"])
    h, n, lo, cen, d = setup(ctx, cut)
    b = ctx.real("b", 0.5, 3)
    hm = fake(TM, **d, halo_bias=ctx.arr([b] * NM))
    ctx.eq("bias of the tracer", hm.bias_effective_tracer, b)


def only_centrals(ctx):
    cut = ctx.choice("cut", ["smooth", "sharp"])
    h, n, lo, cen, d = setup(ctx, cut)
    h._s = np.zeros(NM)
    hm = fake(TM, **d)
    ctx.eq("no satellites", hm.satellite_fraction, 0)
    ctx.eq("all centrals", hm.central_fraction, 1)


def tables(ctx):
    c = vals(ctx, "c", NM, 1, 20)
    z = ctx.real("z", 0, 5)
    u, rho, lam = Token("u"), Token("rho"), Token("lam")
    pr = Prof(True, u, rho, lam)

    class Conc:
        def cm(self, m, zz):
            self.z = zz
            assert m is M
            return c

    cc = Conc()
    hm = fake(TM, m=M, z=z, k=K, _r_table=RT, tracer_profile=pr, tracer_concentration=cc, halo_profile=None, cmz_relation=None)
    ctx.true("Fourier profile", hm.tracer_profile_ukm is u)
    ctx.true("density profile", hm.tracer_profile_rho is rho)
    ctx.true("self-convolution", hm.tracer_profile_lam is lam)
    ctx.eq("concentrations at the model's redshift", cc.z, z)
    for (n, x, m, norm, got, coord), want in zip(pr.calls, (K, RT, RT)):
        ctx.true(f"{n}: mass-normalised, at the model's table", norm == "m" and coord in ("k", "r") and x is want and m is M)
        ctx.eq(f"{n}: with the tracer's concentrations", got, c)
    h0 = fake(TM, m=M, z=z, k=K, _r_table=RT, tracer_profile=Prof(False, u, rho, lam), tracer_concentration=cc)
    ctx.true("no self-convolution without one", h0.tracer_profile_lam is None)


def power_1h(cut, turnover):
    def f(ctx):
        h, n, lo, cen, d = setup(ctx, cut)
        u = vals(ctx, "u", (NK, NM), 0.05, 1)
        dens = ctx.real("den", 0.1, 5)
        rho, delta = ctx.real("rho0", 1e7, 1e9), 200.0
        hm = fake(TM, **d, tracer_profile_ukm=u, mean_tracer_den=dens, mean_density0=rho, halo_overdensity_mean=delta, force_1halo_turnover=turnover, k_hm=K[1:3], halo_profile_ukm=None)
        su, sss = snapshot(u), snapshot(h._ss)
        tabs = {"ss": [], "cs": []}
        for i in range(NK):
            low = M[0] if lo is None else lo
            if turnover:
                lim = 4 * HM.np.pi / 3 * rho * delta * (HM.np.pi / ctx.c(K[i]) / 10) ** 3
                if bool(lim > low):
                    low = lim
            tabs["ss"].append(integ(n * h._ss * u[i] ** 2, low) / dens**2)
            tabs["cs"].append(integ(n * 2 * h._cs * u[i], low) / dens**2)
        out = {}
        for part, t in tabs.items():
            fn = getattr(hm, f"power_1h_{part}_auto_tracer_fnc")
            for i in range(NK):
                ctx.eq(f"{part} power: pairs per volume over the density squared[{i}]", fn(K[i : i + 1])[0], t[i])
            ctx.eq(f"{part} power on the largest scales", fn(K[:1] / 50)[0], 0 if turnover else t[0])
            ctx.eq(f"{part} power at the halo-model wavenumbers", getattr(hm, f"power_1h_{part}_auto_tracer"), ctx.arr(t[1:3]))
            out[part] = fn
        tot = hm.power_1h_auto_tracer_fnc
        for q in (K[0] / 50, K[1], K[3]):
            ctx.eq("total 1-halo power is the sum of both kinds of pair", tot(np.array([q]))[0], out["ss"](np.array([q]))[0] + out["cs"](np.array([q]))[0])
        ctx.eq("total at the halo-model wavenumbers", hm.power_1h_auto_tracer, ctx.arr([tabs["ss"][i] + tabs["cs"][i] for i in (1, 2)]))
        unchanged(ctx, "profile not modified", u, su)
        unchanged(ctx, "pairs not modified", h._ss, sss)

    return f


def small_scales(ctx):
    """Power continues as a power law, or (central-satellite, when not positive) as zero, beyond the table."""
    h, n, lo, cen, d = setup(ctx, "smooth")
    p = vals(ctx, "p", NK, 0.1, 2)
    neg = ctx.choice("last value", [False, True])
    if neg:
        p[3] = -p[3]

    class Mod(TM):
        def _do_1halo_integral(self, *a, **k):
            return p.copy()

    hm = fake(Mod, **d, tracer_profile_ukm=vals(ctx, "u", (NK, NM), 0.05, 1), mean_tracer_den=1.0, force_1halo_turnover=False)
    q = K[3:] * 5
    ctx.eq("cs", hm.power_1h_cs_auto_tracer_fnc(q)[0], 0 if neg else spl(K, p, zero, "power_law")(q)[0])
    if not neg:
        ctx.eq("ss", hm.power_1h_ss_auto_tracer_fnc(q)[0], spl(K, p, zero, "power_law")(q)[0])


def corr_1h(cut, lam):
    def f(ctx):
        h, n, lo, cen, d = setup(ctx, cut)
        dens = ctx.real("den", 0.01, 0.02)
        rho, L = vals(ctx, "g", (NR, NM), 0.1, 2), vals(ctx, "l", (NR, NM), 0.1, 2)
        pss, pt = vals(ctx, "p", NK, 1, 3), vals(ctx, "q", NK, 1, 3)
        hm = fake(TM, **d, tracer_profile=Prof(lam), tracer_profile_rho=rho, tracer_profile_lam=L if lam else None, mean_tracer_den=dens,
                  power_1h_ss_auto_tracer_fnc=spl(K, pss, zero, zero), power_1h_auto_tracer_fnc=spl(K, pt, zero, zero), r=RT[1:3], halo_profile=None, halo_profile_lam=None)
        cs = [integ(n * 2 * h._cs * rho[i], lo) / dens**2 for i in range(NR)]
        ss = [integ(n * h._ss * L[i], lo) / dens**2 for i in range(NR)] if lam else [pss[i] * (i + 2) for i in range(NR)]
        fs, fc, ft = hm.corr_1h_ss_auto_tracer_fnc, hm.corr_1h_cs_auto_tracer_fnc, hm.corr_1h_auto_tracer_fnc
        for i in range(NR):
            r = RT[i : i + 1]
            ctx.eq(f"satellite pairs minus one[{i}]", fs(r)[0], ss[i] - 1)
            ctx.eq(f"central-satellite pairs minus one[{i}]", fc(r)[0], cs[i] - 1)
            ctx.eq(f"1-halo correlation counts all pairs[{i}]", ft(r)[0], ss[i] + cs[i])
        ctx.eq("at the separations of the model", hm.corr_1h_auto_tracer, ctx.arr([ss[i] + cs[i] for i in (1, 2)]))
        ctx.eq("ss at the separations of the model", hm.corr_1h_ss_auto_tracer, ctx.arr([ss[i] - 1 for i in (1, 2)]))
        ctx.eq("cs at the separations of the model", hm.corr_1h_cs_auto_tracer, ctx.arr([cs[i] - 1 for i in (1, 2)]))

    return f


def corr_1h_ends(lam):
    """Where pairs die out, no 1-halo correlation is left, whatever the kind of profile."""

    def f(ctx):
        h, n, lo, cen, d = setup(ctx, "smooth")
        a, b = ctx.real("a", 3, 9), ctx.real("b", 3, 9)
        old = TL.hankel_transform
        TL.hankel_transform = contract(old, lambda *k: ctx.arr([a * 4, a * 2, a, 0 * a]))
        tab = ctx.arr([ctx.c(v) * b for v in (4, 2, 1, 0) for _ in range(NM)]).reshape(NR, NM)
        try:
            hm = fake(TM, **d, tracer_profile=Prof(lam), tracer_profile_rho=tab, tracer_profile_lam=tab if lam else None, mean_tracer_den=ctx.real("den", 0.1, 1), power_1h_ss_auto_tracer_fnc=None)
            ctx.eq("satellite pairs beyond the table", hm.corr_1h_ss_auto_tracer_fnc(RT[-1:] * 9)[0], -1)
            ctx.eq("central-satellite pairs beyond the table", hm.corr_1h_cs_auto_tracer_fnc(RT[-1:] * 9)[0], -1)
            ctx.eq("all pairs beyond the table", hm.corr_1h_auto_tracer_fnc(RT[-1:] * 9)[0], 0)
        finally:
            TL.hankel_transform = old

    return f


def no_pairs(ctx):
    """Tracers whose pairs cannot be told apart fall back to the transform of the total power."""
    h, n, lo, cen, d = setup(ctx, "smooth")
    pt = vals(ctx, "q", NK, 1, 3)

    class Mod(TM):
        @property
        def corr_1h_ss_auto_tracer_fnc(self):
            raise AttributeError("ss")

    hm = fake(Mod, **d, tracer_profile=Prof(False), corr_1h_cs_auto_tracer_fnc=zero, power_1h_auto_tracer_fnc=spl(K, pt, zero, zero))
    Mod2 = type(hm)
    Mod2.corr_1h_ss_auto_tracer_fnc = property(lambda self: (_ for _ in ()).throw(AttributeError("ss")))
    ft = hm.corr_1h_auto_tracer_fnc
    for i in range(NR):
        ctx.eq(f"transform of the power[{i}]", ft(RT[i : i + 1])[0], pt[i] * (i + 2))
    ctx.eq("zero beyond the table", ft(RT[-1:] * 9)[0], 0)


def exclusion(cut, sd):
    def f(ctx):
        h, n, lo, cen, d = setup(ctx, cut)
        u, b = vals(ctx, "u", (NK, NM), 0.05, 1), vals(ctx, "b", NM, 0.5, 3)
        s = vals(ctx, "sd", NR, 0.5, 1.5)
        dens, rho, delta, t = ctx.real("den", 0.1, 5), ctx.real("rho0", 1e10, 1e11), ctx.real("delta", 100, 500), ctx.real("par", 0, 1)
        hm = fake(TM, **d, tracer_profile_ukm=u, halo_bias=b, sd_bias_model=object if sd else None, sd_bias_correction=s if sd else None, mean_tracer_den=dens,
                  mean_density0=rho, halo_overdensity_mean=delta, exclusion_model=RecExcl, exclusion_params={"par": t}, halo_profile_ukm=None)
        x = hm._tracer_exclusion
        w = [n[j] * (cen[j] + h._s[j]) / dens for j in range(NM)]
        ctx.eq("tracers per mass over their density", x.density, ctx.arr(w))
        ctx.eq("times the tracer profile", x.power_integrand, ctx.arr([w[j] * u[i, j] for i in range(NK) for j in range(NM)]).reshape(NK, NM))
        if sd:
            ctx.eq("bias by separation and mass", x.bias, ctx.arr([s[i] * b[j] for i in range(NR) for j in range(NM)]).reshape(NR, NM))
        else:
            ctx.eq("bias by mass", x.bias, b)
        ctx.eq("masses", x.m, M)
        ctx.eq("separations", x.r, RT)
        ctx.eq("halo density", x.halo_density, delta * rho)
        ctx.eq("parameters", x.par, t)
        if lo is None:
            ctx.true("from the lowest mass", x.kw.get("xmin") is None)
        else:
            ctx.eq("from the minimum mass of the tracer", x.xmin, lo)

    return f


def wiring_2h(ctx):
    got = []

    class Mod(TM):
        def _get_power_2h_auto_fnc(self, *a, **k):
            got.append(("p", a, k))
            return lambda x: ("p", x)

        def _get_corr_2h_auto_fnc(self, *a, **k):
            got.append(("c", a, k))
            return lambda x: ("c", x)

    ex, bias, r, k = Token("ex"), Token("bias"), Token("r"), Token("k")
    force = ctx.choice("force", [True, False])
    hm = fake(Mod, _tracer_exclusion=ex, _matter_exclusion=None, bias_effective_tracer=bias, bias_effective_matter=None, force_unity_dm_bias=force, r=r, k_hm=k)
    ctx.true("power at the halo-model wavenumbers", hm.power_2h_auto_tracer == ("p", k))
    ctx.true("correlation at the separations of the model", hm.corr_2h_auto_tracer == ("c", r))
    for w, a, kk in got:
        kk = dict(debias=True, **kk) if "debias" not in kk and len(a) < 3 else dict(kk)
        kk.update(zip(["exclusion", "effective_bias", "debias"], a))
        ctx.true(f"{w}: exclusion and bias of the tracer, never debiased", kk["exclusion"] is ex and kk["effective_bias"] is bias and not kk["debias"])


def totals(ctx):
    v = {n: vals(ctx, n, 2, 0.1, 5) for n in ("a", "b", "c", "d", "e", "f", "g", "h")}
    f = lambda n, want: lambda x: v[n] if x is want else None
    R = RT[1:3]
    hm = fake(TM, power_1h_auto_tracer_fnc=f("a", K), power_2h_auto_tracer_fnc=f("b", K), corr_1h_auto_tracer_fnc=f("c", R), corr_2h_auto_tracer_fnc=f("d", R),
              power_1h_cross_tracer_matter_fnc=f("e", K), power_2h_cross_tracer_matter_fnc=f("f", K), corr_1h_cross_tracer_matter_fnc=f("g", R), corr_2h_cross_tracer_matter_fnc=f("h", R), k_hm=K, r=R)
    ctx.eq("auto power is the sum of its terms", hm.power_auto_tracer, v["a"] + v["b"])
    ctx.eq("auto correlation is the sum of its terms", hm.corr_auto_tracer, v["c"] + v["d"])
    ctx.eq("cross power with matter is the sum of its terms", hm.power_cross_tracer_matter, v["e"] + v["f"])
    ctx.eq("cross correlation with matter is the sum of its terms", hm.corr_cross_tracer_matter, v["g"] + v["h"])
    for n, x, w in (("power_auto_tracer", K, v["a"] + v["b"]), ("corr_auto_tracer", R, v["c"] + v["d"]), ("power_cross_tracer_matter", K, v["e"] + v["f"]), ("corr_cross_tracer_matter", R, v["g"] + v["h"])):
        ctx.eq(f"function {n}", getattr(hm, n + "_fnc")(x), w)
    for n, x, w in (("power_1h_cross_tracer_matter", K, "e"), ("power_2h_cross_tracer_matter", K, "f"), ("corr_1h_cross_tracer_matter", R, "g"), ("corr_2h_cross_tracer_matter", R, "h")):
        ctx.eq(f"{n} at the model's coordinates", getattr(hm, n), v[w])


def cross_power(cut, hc):
    def f(ctx):
        h, n, lo, cen, d = setup(ctx, cut)
        ut, um = vals(ctx, "t", (NK, NM), 0.05, 1), vals(ctx, "u", (NK, NM), 0.05, 1)
        b, p = vals(ctx, "b", NM, 0.5, 3), vals(ctx, "p", NK, 0.1, 3)
        dens, rho = ctx.real("den", 0.1, 5), ctx.real("rho0", 1e10, 1e11)
        hm = fake(TM, **d, tracer_profile_ukm=ut, halo_profile_ukm=um, halo_bias=b, mean_tracer_den=dens, mean_density0=rho, hc_spectrum=hc, _power_halo_centres_fnc=spl(K, p, zero, zero))
        m = ctx.arr(list(M))
        one, two = [], []
        for i in range(NK):
            w = cen + h._s * ut[i]
            one.append(integ(n * m * um[i] * w, lo) / (dens * rho))
            two.append(integ(n * b * w, lo) / dens * integ(n * b * m * um[i], None) / rho * p[i])
        f1, f2 = hm.power_1h_cross_tracer_matter_fnc, hm.power_2h_cross_tracer_matter_fnc
        for i in range(NK):
            ctx.eq(f"1-halo: centrals at centres, satellites by their profile, with all matter[{i}]", f1(K[i : i + 1])[0], one[i])
            ctx.eq(f"2-halo: bias-weighted tracer and matter[{i}]", f2(K[i : i + 1])[0], two[i])
        if "filtered" in hc:
            ctx.eq("no filtered 2-halo power beyond the table", f2(K[-1:] * 9)[0], 0)

    return f


def cross_corr(ctx):
    p, q = vals(ctx, "p", NK, 1, 3), vals(ctx, "q", NK, 1, 3)
    hm = fake(TM, _r_table=RT, power_1h_cross_tracer_matter_fnc=spl(K, p, zero, zero), power_2h_cross_tracer_matter_fnc=spl(K, q, zero, zero))
    for w, pw in (("1h", p), ("2h", q)):
        fn = getattr(hm, f"corr_{w}_cross_tracer_matter_fnc")
        want = spl(RT, ctx.arr([pw[i] * (i + 2) for i in range(NR)]), "power_law", zero)
        same_fn(ctx, f"{w} cross-correlation is the transform of its power", fn, want, RT)
        ctx.eq("zero beyond the table", fn(RT[-1:] * 9)[0], 0)


def mask(ctx):
    """Masses at which the tracer exists."""
    mmin = ctx.real("mmin", 10, 15)

    class Hd:
        pass

    hd = Hd()
    kind = ctx.choice("minimum", ["none", "given"])
    hd.mmin = None if kind == "none" else mmin
    hm = fake(TM, m=M, hod=hd, Mmin=9)
    got = hm._tm
    for i in range(NM):
        ctx.true(f"at or above the minimum mass[{i}]", bool(got[i]) == (kind == "none" or bool(ctx.c(M[i]) >= 10**mmin)))


def find_sharp(which):
    """With a sharp minimum mass, the mass found is the one above which the given density lies."""

    def f(ctx):
        m = 10.0 ** np.arange(10, 15.1, 0.5)
        n = len(m)
        v = vals(ctx, "n", n, 0.1, 2)
        occ = vals(ctx, "o", n, 0.5, 3)
        got = []

        class C:
            pass

        c = C()
        c.m, c.dndm, c.total_occupation = m, v, occ
        clone = lambda **k: got.append(k) or c
        lx = HM.np.log(m[1] / m[0])
        g = [v[i] * occ[i] * ctx.c(m[i]) for i in range(n)]
        above = [sum((g[j] + g[j + 1]) / 2 for j in range(i, n - 1)) * lx for i in range(n)]
        hm = fake(TM, _extra={"clone": clone}, power=None, Mmin=10.0, tracer_mmin=1e11, hod=None)
        if which == "too many":
            try:
                hm._find_m_min(above[0] * 1.5)
                ctx.true("an unreachable density is an error", False)
            except HM.NGException:
                ctx.true("an unreachable density is an error", True)
            return
        if which == "reachable":
            # (the maximum itself is a matter of rounding)
            try:
                hm._find_m_min((above[0] + above[1]) / 2)
                ctx.true("a reachable density is not an error", True)
            except HM.NGException:
                ctx.true("a reachable density is not an error", False)
            return
        i = which
        ctx.eq("minimum mass found (log10)", hm._find_m_min(above[i]), ctx.c(10 + i / 2))
        ctx.eq("starting from the lowest mass", got[0]["hod_params"]["M_min"], 10.0)

    return f


def find_smooth(ctx):
    """Otherwise the deviation that is minimised is that of the density of the trial from the one asked for."""
    m = 10.0 ** np.arange(10, 12.1, 0.5)
    n = len(m)
    ng = ctx.real("ng", 1e8, 1e13)
    trial = ctx.real("trial", 10, 12)
    occ = [vals(ctx, f"o{j}", n, 0.5, 3) for j in range(2)]
    v = vals(ctx, "n", n, 0.1, 2)
    got = []

    class C:
        total_occupation = occ[0]

        def update(self, hod_params):
            got.append(hod_params["M_min"])
            self.total_occupation = occ[1]

    c = C()
    c.m, c.dndm = m, v
    hm = fake(TM, _extra={"clone": lambda **k: c}, power=None, Mmin=10.0, tracer_mmin=None, hod=None)
    lx = HM.np.log(m[1] / m[0])
    g = [[v[i] * o[i] * ctx.c(m[i]) for i in range(n)] for o in occ]
    tot = [(q[0] + 4 * q[1] + 2 * q[2] + 4 * q[3] + q[4]) * lx / 3 for q in g]
    ctx.assume(tot[0] > ng)
    seen = []
    old = HM.minimize

    def minimize(fun, x0, *a, **k):
        seen.append(fun(trial))
        return type("R", (), {"x": [trial]})()

    HM.minimize = minimize
    try:
        out = hm._find_m_min(ng)
    finally:
        HM.minimize = old
    ctx.eq("the minimum found", out, trial)
    ctx.eq("the trial is used", got[0], trial)
    ctx.eq("squared deviation of the trial's density", seen[0] ** 2, (tot[1] - ng) ** 2)


def hod_wiring(ctx):
    """The occupation has its parameters, and the cosmology, masses, concentration and profile of the tracer."""
    got = []

    class Rec(HO.HOD):
        _abstract = True

        def __init__(self, central=False, cosmo=None, cm_relation=None, profile=None, mdef=None, **params):
            got.append((central, cosmo, cm_relation, profile, mdef, params))

    HO.HOD._plugins.pop("Rec", None)
    Rec.__abstractmethods__ = frozenset()
    t = {n: Token(n) for n in ("cosmo", "tracer_concentration", "halo_concentration", "tracer_profile", "halo_profile", "mdef")}
    a, b = ctx.real("a", 1, 2), ctx.real("b", 1, 2)
    hm = fake(TM, hod_model=Rec, hod_params={"a": a, "b": b}, **t)
    hm.hod
    central, cosmo, cm, profile, mdef, params = got[-1]
    ctx.true("cosmology, concentration, profile and masses of the tracer", cosmo is t["cosmo"] and cm is t["tracer_concentration"] and profile is t["tracer_profile"] and mdef is t["mdef"])
    ctx.true("satellites and centrals unless asked otherwise", central is False and set(params) == {"a", "b"})
    ctx.eq("parameters", [params["a"], params["b"]], [a, b])


def harnesses(tier="quick"):
    g = "5 masses, 4 wavenumbers, 4 separations; free mass function, occupations, pairs, profiles, biases; minimum mass absent, at and between tabulated masses"
    out = [H(f"density-{c}", density(c), bounds=g) for c in CUTS]
    out += [H("uniform-bias", uniform_bias, bounds=g), H("only-centrals", only_centrals, bounds=g), H("tables", tables, bounds=g), H("mask", mask, bounds="any minimum mass")]
    out += [H(f"power-1h-{c}{'-turnover' if t else ''}", power_1h(c, t), bounds=g) for c in CUTS for t in (False, True)]
    out += [H("small-scales", small_scales, bounds=g)]
    out += [H(f"corr-1h-{c}-{'lam' if lam else 'transform'}", corr_1h(c, lam), bounds=g) for c in CUTS for lam in (True, False)]
    out += [H(f"corr-1h-ends-{'lam' if lam else 'transform'}", corr_1h_ends(lam)) for lam in (True, False)] + [H("corr-1h-no-pairs", no_pairs)]
    out += [H(f"exclusion-{c}{'-sd' if s else ''}", exclusion(c, s), bounds=g) for c in CUTS for s in (False, True)]
    out += [H("two-halo", wiring_2h), H("hod-wiring", hod_wiring), H("totals", totals)]
    out += [H(f"cross-power-{c}-{hc}", cross_power(c, hc), bounds=g) for c in CUTS for hc in ("linear", "filtered-nl")]
    out += [H("cross-corr", cross_corr, bounds=g)]
    out += [H(f"minimum-mass-sharp-{w}", find_sharp(w), bounds="11 masses, free mass function and occupation") for w in (1, 2, 5, 8, "reachable", "too many")]
    out += [H("minimum-mass-smooth", find_smooth, bounds="5 masses, any trial")]
    for h in out:
        h.fn = abstract(h.fn)
    return out
