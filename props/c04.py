"""C04: halo geometry: radii, masses, scale radii and their wiring in the halo model."""
import numpy as np

import halomod.halo_model as HMM
import halomod.profiles as P

from symx import terms as T

from .common import CM, H, MDef, fake, snapshot, unchanged
from .profcommon import MODELS, Setup

PROFILES = ["NFW", "NFWInf", "Hernquist", "Moore", "Constant", "GeneralizedNFW", "Einasto", "CoredNFW", "PowerLawWithExpCut"]


class Z:
    """A redshift that is not zero."""


def build(ctx, cls, nm, z, bloat, nu):
    m = ctx.increasing("m", nm, 1e9, 1e15)
    c = ctx.arr([ctx.real(f"c{i}", 0.5, 40) for i in range(nm)])
    d, r0 = ctx.real("delta", 50, 800), ctx.real("rho0", 1e9, 1e12)
    rz = ctx.real("rhoz", 1e9, 1e13) if z else r0
    kw = {"use_interp": False} if cls.__name__.startswith("Einasto") else {}
    if bloat is not None:
        kw["eta_bloat"] = bloat
    if nu is not None:
        kw["nu_fn"] = nu
    # Moore converts the concentration it is given by its own rule
    cin = 1.7 * c ** (10 / 9) if cls.__name__.startswith("Moore") else c
    p = cls(cm_relation=CM(list(m), list(cin), z), mdef=MDef(d, r0, rz), z=z, **kw)
    return p, m, c, d, r0, rz


def radius(name):
    def f(ctx):
        z = ctx.choice("z", [0.0, 1.5])
        p, m, c, d, r0, rz = build(ctx, getattr(P, name), 2, z, None, None)
        sm = snapshot(m)
        for at_z, rho in ((False, r0), (True, rz)):
            R = p.halo_mass_to_radius(m, at_z=at_z)
            ctx.same_shape("a radius per mass", R, (2,))
            back = p.halo_radius_to_mass(R, at_z=at_z)
            for i in range(2):
                ctx.eq("mean density inside the halo radius is the overdensity times the mean density", m[i], 4 * np.pi / 3 * R[i] ** 3 * d * rho)
                ctx.eq("radius and mass are inverse functions", back[i], m[i])
                ctx.eq("scalar as in a vector", p.halo_mass_to_radius(m[i], at_z=at_z), R[i])
            rs = p.scale_radius(m, at_z=at_z)
            for i in range(2):
                ctx.eq("scale radius is the halo radius over the concentration", rs[i] * c[i], R[i])
        ctx.eq("defaults to redshift zero (radius)", p.halo_mass_to_radius(m)[0], p.halo_mass_to_radius(m, at_z=False)[0])
        ctx.eq("defaults to redshift zero (mass)", p.halo_radius_to_mass(m)[0], p.halo_radius_to_mass(m, at_z=False)[0])
        ctx.eq("defaults to redshift zero (scale radius)", p.scale_radius(m)[0], p.scale_radius(m, at_z=False)[0])
        unchanged(ctx, "masses not modified", m, sm)

    return f


def bloating(ctx):
    """HMCode halo bloating: radii scale with nu^(eta/2) of the halo's own peak height nu^2."""
    name = ctx.choice("profile", ["NFW", "CoredNFW", "Hernquist"])
    eta = ctx.real("eta", -1, 1)
    nu = ctx.uf("nu", numeric=lambda m: 0.1 + np.log10(m) / 10)
    vec = lambda m: ctx.arr([nu(x) for x in m]) if np.ndim(m) else nu(m)
    p, m, c, d, r0, rz = build(ctx, getattr(P, name), 2, 0.0, eta, vec)
    if ctx.sym:
        for x in m:
            ctx.assume(nu(x) > 0.01)
    rs = p.scale_radius(m)
    R = p.halo_mass_to_radius(m)
    for i in range(2):
        ctx.eq("bloated scale radius", rs[i], R[i] / c[i] * np.sqrt(nu(m[i])) ** eta)
    k = ctx.increasing("k", 2, 0.01, 10)
    u = p.u(k, m)
    for i in range(2):
        for j in range(2):
            ctx.eq("transform depends on k times the bloated scale radius", u[i, j], p.u(k[i] * rs[j], m[j], coord="kappa"))


def bloated(name):
    """A bloated halo is the same halo, stretched."""

    def f(ctx):
        S = Setup(ctx, name, nm=2)
        m = S.m
        eta = ctx.real("eta", -1, 1)
        nu = ctx.uf("nu", numeric=lambda m: 0.1 + np.log10(m) / 10)
        vec = lambda m: ctx.arr([nu(x) for x in m]) if np.ndim(m) else nu(m)
        if ctx.sym:
            for x in m:
                ctx.assume(nu(x) > 0.01)
        kw = {"use_interp": False} if name.startswith("Einasto") else {}
        q = type(S.p)(cm_relation=CM(list(m), list(S.cin), S.z), mdef=S.mdef, z=S.z, nu_fn=vec, eta_bloat=eta, **S.par, **kw)
        s = ctx.real("s", 0.1 if S.numeric else 0.01, 1.0)
        for j in range(2):
            b = np.sqrt(nu(m[j])) ** eta
            r = s * S.rvir[j]
            for norm, w in (("m", b**3), (None, 1), ("rho", 1)):
                ctx.eq(f"density of the stretched halo [{norm}]", q.rho(r * b, m[j], norm=norm) * w, S.p.rho(r, m[j], norm=norm), rtol=S.rtol, atol=0.0)
            ctx.eq("radii in units of the scale radius are those of the stretched halo", q.rho(r / S.rs[j], m[j], norm="rho", coord="x"), S.p.rho(r, m[j], norm="rho"), rtol=S.rtol, atol=0.0)
            ctx.eq("radii in units of the virial radius are those of the stretched halo", q.rho(s, m[j], norm="rho", coord="s"), S.p.rho(r, m[j], norm="rho"), rtol=S.rtol, atol=0.0)
            ctx.eq("enclosed mass of the stretched halo", q.cdf(r * b, m=m[j]), S.p.cdf(r, m=m[j]), rtol=S.rtol, atol=0.0)
            if S.p.has_lam:
                ctx.eq("self-convolution of the stretched halo", q.lam(r * b, m[j], norm="m") * b**3, S.p.lam(r, m[j], norm="m"), rtol=1e-7, atol=0.0)
        rho = q.rho(ctx.arr([r, r]), m, norm="m")
        for j in range(2):
            ctx.eq("each halo is stretched by its own peak height", rho[0, j], q.rho(r, m[j], norm="m"), rtol=S.rtol, atol=0.0)

    return f


def construction(ctx):
    """The profile takes the overdensity at its redshift and the mean densities today and at its redshift, in its own cosmology."""
    z = ctx.real("z", 0.1, 5)
    csm = object()
    delta, rho = (ctx.uf(n, numeric=lambda q, a=a: a * (1 + 0.1 * q)) for n, a in (("delta", 200), ("rho", 1e11)))

    class MD:
        def halo_overdensity_mean(self, z=0, cosmo=None):
            return delta(ctx.c(1.0) * z) if cosmo is csm else 1e3 + 0 * z

        def mean_density(self, z=0, cosmo=None):
            return rho(ctx.c(1.0) * z) if cosmo is csm else 1e3 + 0 * z

    m, c = ctx.real("m", 1e9, 1e15), ctx.real("c", 1, 30)
    p = P.NFW(cm_relation=CM([m], [c], z), mdef=MD(), z=z, cosmo=csm)
    r0, d, rz = rho(ctx.c(0.0)), delta(z), rho(z)
    if ctx.sym:
        for q in (r0, d, rz):
            ctx.assume(q > 1)
    for at_z, q in ((False, r0), (True, rz)):
        R = p.halo_mass_to_radius(m, at_z=at_z)
        ctx.eq("overdensity and mean density of its redshift and cosmology", 4 * np.pi / 3 * R**3 * d * q, m)
    ctx.eq("density in units of its mean density", p.rho(0.5, m, coord="s", norm="rho") * rz, p.rho(0.5, m, coord="s"))


def velocity(ctx):
    p, m, c, d, r0, rz = build(ctx, P.NFW, 2, 1.5, None, None)
    R = p.halo_mass_to_radius(m)
    v, w = p.virial_velocity(m), p.virial_velocity(r=R)
    for i in range(2):
        ctx.eq("virial velocity squared is G m / r", v[i] ** 2, 6.673e-11 * m[i] / R[i])
        ctx.eq("the same from the radius", w[i], v[i])
        ctx.eq("the mass is used when both are given", p.virial_velocity(m=m, r=R * 2)[i], v[i])
    try:
        p.virial_velocity()
        ctx.true("neither mass nor radius is refused", False)
    except ValueError:
        ctx.true("neither mass nor radius is refused", True)


class Rec:
    """Records what a component is built with."""

    def __init__(self, **kw):
        self.kw = kw

    def __call__(self, *a, **kw):
        assert not a
        return type(self)(**kw)


def wiring(ctx):
    """The halo model builds its profile from its own current quantities; tracer components inherit the halo's unless given."""
    z = ctx.real("z", 0, 5)
    rec, trec = Rec(), Rec()
    ccm, tcm = Rec(), Rec()
    how = ctx.choice("tracer profile", ["none", "same", "same with parameters", "other", "other with parameters"])
    chow = ctx.choice("tracer concentration", ["none", "same", "same with parameters", "other", "other with parameters"])
    hp, tp, hc, tc = {"a": 1}, {"b": 2}, {"c": 3}, {"d": 4}
    pick = lambda h, mine, other: {"none": None, "same": mine, "same with parameters": mine}.get(h, other)
    par = lambda h, x: x if h.endswith("parameters") else {}

    class F:
        def __init__(self):
            self.power = "other"

    class HC:
        pass

    L = dict(halo_profile_model=rec, halo_profile_params=hp, mdef="mdef", z=z, nu_fn="nu", halo_concentration_model=ccm, halo_concentration_params=hc,
             tracer_profile_model=pick(how, rec, trec), tracer_profile_params=par(how, tp), tracer_concentration_model=pick(chow, ccm, tcm), tracer_concentration_params=par(chow, tc),
             filter=F(), _power0="p0", growth="g", delta_c="dc", cosmo=None, sigma_8="s8", n="n")
    old = HMM.Cosmology
    HMM.Cosmology = lambda *a, **k: "cosmo"
    try:
        hm = fake(HMM.TracerHaloModel, **L)
        hprof, hcm, tprof, tcmr = hm.halo_profile, hm.halo_concentration, hm.tracer_profile, hm.tracer_concentration
    finally:
        HMM.Cosmology = old
    base = {"mdef": "mdef", "nu_fn": "nu"}

    def same(label, kw, want):
        ctx.true(label, set(kw) == set(want))
        for k, v in want.items():
            ctx.true(f"{label}: {k}", kw.get(k) is v or kw.get(k) == v)

    same("halo profile is built from the model", hprof.kw, {**base, "z": z, "cm_relation": hcm, **hp})
    tpar = hp if how == "same" else par(how, tp)
    if how == "none":
        ctx.true("tracer profile is the halo's", tprof is hprof)
    else:
        same("tracer profile is built from the model", tprof.kw, {**base, "z": z, "cm_relation": tcmr, **tpar})
    if chow == "none":
        ctx.true("tracer concentration is the halo's", tcmr is hcm)
    else:
        cpar = hc if chow == "same" else par(chow, tc)
        kw = dict(tcmr.kw)
        prof, flt = kw.pop("profile"), kw.pop("filter0")
        same("tracer concentration is built from the model", kw, {"cosmo": "cosmo", "growth": "g", "delta_c": "dc", "mdef": "mdef", "sigma_8": "s8", "ns": "n", **cpar})
        ctx.true("its filter uses the power at redshift zero", flt.power == "p0" and L["filter"].power == "other")
        same("its profile is the tracer's", prof.kw, {**base, "z": z, "cm_relation": None, **(hp if how == "none" else tpar)})


def harnesses(tier="quick"):
    return [H(f"bloated-{n}", bloated(n), bounds="2 masses, 1 radius inside the halo") for n in MODELS] + [H(f"radius-{n}", radius(n)) for n in PROFILES] + [H("bloating", bloating), H("construction", construction), H("virial-velocity", velocity), H("wiring", wiring)]
