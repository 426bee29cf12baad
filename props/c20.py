"""C20: warm dark matter."""
import numpy as np

import halomod.concentration as C
import halomod.halo_model as HM
import halomod.wdm as W
from halomod.halo_exclusion import NoExclusion

from .common import fake, H, snapshot, Token, unchanged
from .hm2pt import K, M, RT, Prof, quadrature, spl, vals, zero

NM, NK = len(M), len(K)


def cm_model(name, cls):
    """A rescaled relation is the original one times the suppression of its concentrations."""

    def f(ctx):
        before = dict(cls._defaults)
        k = W.CMRelationWDMRescaled(name)
        ctx.true("a version of the original relation", issubclass(k, cls) and k is not cls)
        after = dict(cls._defaults)
        if after != before:
            cls._defaults.clear()
            cls._defaults.update(before)
        ctx.true("the original keeps its parameters", after == before)
        ctx.true("and gains the parameters of the suppression", set(k._defaults) == set(before) | {"g1", "g2", "beta0", "beta1"})
        z = ctx.real("z", 0, 5)
        mh = ctx.real("mhm", 1e7, 1e11)
        m = ctx.arr([ctx.real("m0", 1e8, 1e10), ctx.real("m1", 1e11, 1e14)])
        base = ctx.uf("cm0+", numeric=lambda m, z: 9 * (np.asarray(m, float) / 1e12) ** -0.1 / (1 + z))
        args = dict(cosmo=Cs(), filter0=None, growth=Token("growth"), profile=Token("profile"), mdef=cls.native_mdefs[0])
        old = cls.cm
        cls.cm = lambda self, m, z=0: ctx.arr([base(v, z) for v in m]) if np.ndim(m) else base(m, z)
        try:
            o = k(m_hm=mh, **args)
            sm = snapshot(m)
            got, one, now = o.cm(m, z), o.cm(m[0], z), o.cm(m)
            p = dict(g1=ctx.real("g1", 1, 100), g2=ctx.real("g2", 0.05, 1), beta0=ctx.real("b0", -0.1, 0.1), beta1=ctx.real("b1", -0.1, 0.1))
            own = k(m_hm=mh, **p, **args).cm(m, z)
        finally:
            cls.cm = old
        d = dict(g1=60, g2=0.17, beta0=0.026, beta1=0.04)
        fac = lambda q, v, z: (1 + q["g1"] * mh / v) ** (-q["g2"]) * (1 + z) ** (q["beta0"] * z - q["beta1"])
        for i in range(2):
            ctx.eq(f"suppressed below the half-mode mass[{i}]", got[i], base(m[i], z) * fac({a: ctx.c(b) for a, b in d.items()}, m[i], z))
            ctx.eq(f"today[{i}]", now[i], base(m[i], 0) * (1 + 60 * mh / m[i]) ** ctx.c(-0.17))
            ctx.eq(f"own parameters[{i}]", own[i], base(m[i], z) * fac(p, m[i], z))
        ctx.eq("one mass", one, got[0])
        unchanged(ctx, "masses not modified", m, sm)

    return f


class Hmf:
    normalized = True


class Bias:
    pair_hmf = (Hmf,)


class Cs:
    mean_density0 = 1e11
    cosmo = None


def cm_wiring(ctx):
    """The model's relation uses the half-mode mass of the model's own dark matter."""
    mh = ctx.real("mhm", 1e7, 1e11)

    class Wdm:
        m_hm = mh

    class Rel:
        def __init__(self, **k):
            self.m_hm = 1000

    class Plain:
        def __init__(self, **k):
            pass

    get = W.HaloModelWDM.__dict__["halo_concentration"].fget
    get = getattr(get, "__wrapped__", get)
    old = HM.DMHaloModel.__dict__["halo_concentration"]
    for cls in (Rel, Plain):
        HM.DMHaloModel.halo_concentration = property(lambda self, c=cls: c())
        try:
            o = fake(W.HaloModelWDM, wdm=Wdm())
            cm = o.halo_concentration
        finally:
            HM.DMHaloModel.halo_concentration = old
        if cls is Rel:
            ctx.eq("half-mode mass", cm.m_hm, mh)
        else:
            ctx.true("other relations are left alone", isinstance(cm, Plain) and not hasattr(cm, "m_hm"))
    par = W.HaloModelWDM.__dict__["halo_concentration_model"].fset
    par = getattr(par, "__wrapped__", par)
    ctx.true("names", par(None, "Duffy08WDM").__name__ == "Duffy08WDM" and issubclass(par(None, "Duffy08WDM"), C.Duffy08))
    ctx.true("other names", par(None, "Duffy08") is C.Duffy08 and par(None, C.Bullock01) is C.Bullock01)


def model(ctx, forced, **k):
    rho_h, f = ctx.real("rhoh", 0.5, 2), ctx.real("f", 0.2, 0.95)
    rho = rho_h / f
    zz = ctx.real("z", 0, 5)
    d = dict(
        m=M, k=K, k_hm=K[:3], _r_table=RT, dlog10m=1.0, z=zz, mean_density0=rho, mean_density=rho * (1 + zz) ** 3,
        dndm=vals(ctx, "n", NM, 0.1, 3) / M**2, halo_bias=vals(ctx, "b", NM, 0.2, 3), rho_gtm=ctx.arr([rho_h] + [rho_h / (i + 2) for i in range(NM - 1)]),
        halo_profile_ukm=vals(ctx, "u", (NK, NM), 0.05, 1), _power_halo_centres_fnc=spl(K, vals(ctx, "p", NK, 1, 3), zero, zero), linear_power_fnc=spl(K, vals(ctx, "l", NK, 1, 3), zero, zero),
        exclusion_model=NoExclusion, exclusion_params={}, sd_bias_model=None, force_unity_dm_bias=forced, hmf=Hmf(), hmf_model=Hmf, bias=Bias(), bias_model=Bias, halo_overdensity_mean=200.0, hc_spectrum="linear", force_1halo_turnover=False,
    )
    d.update(k)
    d["halo_profile"] = Prof(u=d["halo_profile_ukm"][:3])
    return d, rho_h, f, rho


def fractions(ctx):
    d, rho_h, f, rho = model(ctx, False)
    o = fake(W.HaloModelWDM, **d)
    ctx.eq("fraction of comoving matter in haloes", o.f_halos, f)
    ctx.eq("density in haloes", o.mean_density_halos, rho_h)
    ctx.eq("the rest is smooth", o.mean_density_smooth + o.mean_density_halos, rho)


def smooth_bias(forced):
    def f(ctx):
        d, rho_h, fr, rho = model(ctx, forced)
        with quadrature(ctx, W) as integ:
            o = fake(W.HaloModelWDM, **d)
            bh = 1 if forced else integ(np.log(M), d["dndm"] * d["halo_bias"] * M * M) / rho_h
            ctx.eq("matter as a whole is unbiased", fr * bh + (1 - fr) * o.bias_smooth, 1)

    return f


def smooth(forced):
    def f(ctx):
        b = ctx.real("bs", -1, 2)
        bh = ctx.c(1.0) if forced else None
        d, rho_h, fr, rho = model(ctx, forced)
        su = snapshot(d["halo_profile_ukm"])
        with quadrature(ctx, W) as integ:
            o = fake(W.HaloModelWDM, bias_smooth=b, **d)
            P = [d["_power_halo_centres_fnc"](K[i : i + 1])[0] for i in range(3)]
            lnm = np.log(M)
            w = d["dndm"] * d["halo_bias"]
            raw = integ(lnm, M * w * M)
            for i in range(3):
                ctx.eq(f"smooth-smooth: biased halo-centre power[{i}]", o.power_auto_matter_ss[i], b * b * P[i])
                x = integ(lnm, M * w * d["halo_profile"]._u[i] * M)
                ctx.eq(f"smooth-halo: each halo's bias and profile, over the density in haloes[{i}]", o.power_auto_matter_sh[i], b * P[i] * x / (raw if forced else rho_h))
        ctx.true("profile: per mass, at the model's wavenumbers", all(c[0] == "u" and c[1] is d["k_hm"] and c[2] is d["m"] and c[3] == "m" and c[5] == "k" for c in d["halo_profile"].calls) and len(d["halo_profile"].calls) > 0)
        unchanged(ctx, "profile not modified", d["halo_profile_ukm"], su)

    return f


def halo_halo(ctx):
    """In terms of the density in haloes: the 1-halo power of all matter over the fraction squared."""
    p1, p2 = vals(ctx, "p1", 3, 0.1, 5), vals(ctx, "p2", 3, 0.1, 5)
    d, rho_h, fr, rho = model(ctx, False)
    o = fake(W.HaloModelWDM, power_1h_auto_matter=p1, power_2h_auto_matter=p2, **d)
    for i in range(3):
        ctx.eq(f"halo-halo power[{i}]", fr**2 * (o.power_auto_matter_hh[i] - p2[i]), p1[i])


def total(ctx):
    s, x, h = (vals(ctx, q, 3, 0.1, 5) for q in ("ss", "sh", "hh"))
    d, rho_h, fr, rho = model(ctx, False)
    o = fake(W.HaloModelWDM, power_auto_matter_ss=s, power_auto_matter_sh=x, power_auto_matter_hh=h, **d)
    for i in range(3):
        ctx.eq(f"sum over pairs of components[{i}]", o.power_auto_matter[i], (1 - fr) ** 2 * s[i] + 2 * fr * (1 - fr) * x[i] + fr**2 * h[i])


def large_scales(forced):
    """Where profiles are one and the 1-halo term negligible the total is the halo-centre power."""

    def f(ctx):
        d, rho_h, fr, rho = model(ctx, forced)
        one = ctx.arr([1.0] * (NM * NK)).reshape((NK, NM))
        d["halo_profile_ukm"] = one
        d["halo_profile"] = Prof(u=one[:3])
        with quadrature(ctx, W), quadrature(ctx, HM), quadrature(ctx, __import__("halomod.halo_exclusion", fromlist=["x"])):
            o = fake(W.HaloModelWDM, power_1h_auto_matter=ctx.arr([0.0] * 3), **d)
            for i in range(3):
                ctx.eq(f"total power[{i}]", o.power_auto_matter[i], d["_power_halo_centres_fnc"](K[i : i + 1])[0])

    return f


def frameworks(ctx):
    """The tracer and projected frameworks have the warm matter quantities."""
    for c in (W.TracerHaloModelWDM, W.ProjectedCFWDM):
        for q in ("f_halos", "bias_smooth", "power_auto_matter", "power_auto_matter_ss", "power_auto_matter_sh", "power_auto_matter_hh", "mean_density_smooth"):
            ctx.true(f"{c.__name__}.{q}", getattr(c, q) is getattr(W.HaloModelWDM, q))
        d, rho_h, f, rho = model(ctx, False)
        ctx.eq(f"{c.__name__}: fraction in haloes", fake(c, **d).f_halos, f)


def harnesses(tier="quick"):
    b = "5 masses, 3 wavenumbers; free mass function, biases, profiles, densities, redshift, half-mode mass; mass quadratures arbitrary positive linear functionals"
    out = [H(f"concentration-{n}", cm_model(n, c), bounds=b) for n, c in (("Duffy08WDM", C.Duffy08), ("Duffy08", C.Duffy08), ("Bullock01WDM", C.Bullock01), ("Ludlow16WDM", C.Ludlow16))]
    out += [H(n, f, bounds=b) for n, f in (("concentration-wiring", cm_wiring), ("fractions", fractions), ("smooth-bias", smooth_bias(False)), ("smooth-bias-forced", smooth_bias(True)), ("smooth", smooth(False)), ("smooth-forced", smooth(True)), ("halo-halo", halo_halo), ("total", total), ("large-scales", large_scales(False)), ("large-scales-forced", large_scales(True)), ("frameworks", frameworks))]
    return out
