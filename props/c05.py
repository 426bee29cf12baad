"""C05: halo bias -- published forms, peak-background split, wiring."""
import numpy as np
from hmf.halos.mass_definitions import SOMean
from hmf.mass_function import fitting_functions as ff
from scipy.interpolate import InterpolatedUnivariateSpline

import halomod.bias as Bm
import halomod.halo_model as HM

from .common import ColossusWorld, H, fake, modules, snapshot, unchanged

log10 = lambda x: np.log10(x)


def _st(nu, dc, P, **k):
    qn = P["q"] * nu
    return 1 + (qn - 1) / dc + 2 * P["p"] / dc / (1 + qn ** P["p"])


def _smt(nu, dc, P, **k):
    an = P["a"] * nu
    b, c = P["b"], P["c"]
    sa = P["a"] ** 0.5
    return 1 + 1 / (sa * dc) * (sa * an + sa * b * an ** (1 - c) - an**c / (an**c + b * (1 - c) * (1 - c / 2)))


def _seljak(nu, dc, P, m, mstar, **k):
    x = m / mstar
    return P["a"] + P["b"] * x ** P["c"] + P["d"] / (P["e"] * x + 1) + P["f"] * x ** P["g"]


def _tinker10(nu, dc, P, delta, **k):
    y = log10(delta)
    e = np.exp(-((4 / y) ** 4))
    n = nu**0.5
    a = 0.44 * y - 0.88
    return 1 - (1 + 0.24 * y * e) * n**a / (n**a + dc**a) + P["B"] * n ** P["b"] + (0.019 + 0.107 * y + 0.19 * e) * n ** P["c"]


def _jing(nu, dc, P, n_eff, **k):
    return (P["a"] / nu**2 + 1) ** (P["b"] - P["c"] * n_eff) * (1 + (nu - 1) / dc)


SEL = {"a": 0.53, "b": 0.39, "c": 0.45, "d": 0.13, "e": 40, "f": 5e-4, "g": 1.5}
# model -> (form, published defaults, ranges for free parameters)
FORMS = {
    "UnityBias": (lambda nu, dc, P, **k: 1 + 0 * nu, {}, {}),
    "Mo96": (lambda nu, dc, P, **k: 1 + (nu - 1) / dc, {}, {}),
    "Jing98": (_jing, {"a": 0.5, "b": 0.06, "c": 0.02}, {"a": (0.1, 2), "b": (0.01, 0.2), "c": (0.001, 0.1)}),
    "ST99": (_st, {"q": 0.707, "p": 0.3}, {"q": (0.2, 2), "p": (0.05, 0.49)}),
    "Mandelbaum05": (_st, {"q": 0.73, "p": 0.15}, {"q": (0.2, 2), "p": (0.05, 0.49)}),
    "Manera10": (_st, {"q": 0.709, "p": 0.248}, {"q": (0.2, 2), "p": (0.05, 0.49)}),
    "SMT01": (_smt, {"a": 0.707, "b": 0.5, "c": 0.6}, {"a": (0.2, 2), "b": (0.1, 1), "c": (0.1, 0.95)}),
    "Tinker05": (_smt, {"a": 0.707, "b": 0.35, "c": 0.8}, {"a": (0.2, 2), "b": (0.1, 1), "c": (0.1, 0.95)}),
    "Seljak04": (_seljak, SEL, {k: (v / 2, v * 2) for k, v in SEL.items()}),
    "Pillepich10": (lambda nu, dc, P, **k: P["B0"] + P["B1"] * nu**0.5 + P["B2"] * nu, {"B0": 0.647, "B1": -0.320, "B2": 0.568}, {"B0": (0, 2), "B1": (-1, 1), "B2": (0, 2)}),
    "Tinker10": (_tinker10, {"B": 0.183, "b": 1.5, "c": 2.4}, {"B": (0.01, 1), "b": (0.5, 3), "c": (0.5, 3)}),
}


class Csm:
    def __init__(self, h, om):
        self.h, self.Om0 = h, om


def setup(ctx, lo=0.05, hi=30):
    nu = ctx.increasing("nu", 2, lo, hi)
    kw = dict(
        delta_c=ctx.real("delta_c", 1.2, 2.0), m=ctx.increasing("m", 2, 1e9, 1e16), mstar=ctx.real("mstar", 1e11, 1e14),
        delta_halo=ctx.real("delta_halo", 120, 4000), n=ctx.real("n", 0.8, 1.1), sigma_8=ctx.real("sigma_8", 0.5, 1.1),
        cosmo=Csm(ctx.real("h", 0.5, 0.9), ctx.real("Om0", 0.1, 0.6)), n_eff=ctx.reals("n_eff", 2, -2.9, 0.5), z=ctx.real("z", 0, 10, strict=False),
    )
    return nu, kw


def form(name):
    fn, dflt, rng = FORMS[name]

    def h(ctx):
        nu, kw = setup(ctx)
        cls = getattr(Bm, name)
        P = {k: ctx.real("p_" + k, *r) for k, r in rng.items()}
        sn, sm = snapshot(nu), snapshot(kw["m"])
        ex = lambda P: fn(nu, kw["delta_c"], P, m=kw["m"], mstar=kw["mstar"], delta=kw["delta_halo"], n_eff=kw["n_eff"])
        b = cls(nu, **kw, **P).bias()
        ctx.same_shape("one bias per mass", b, (2,))
        ctx.eq("published form, any parameters", b, ex(P))
        ctx.eq("published default parameters", cls(nu, **kw).bias(), ex(ctx.c(dflt)))
        back = {**kw, "m": kw["m"][::-1], "n_eff": kw["n_eff"][::-1]}
        ctx.eq("in any order of masses", ctx.arr(list(cls(nu[::-1], **back, **P).bias())[::-1]), b)
        for k in P:  # each parameter alone
            ctx.eq(f"parameter {k} alone", cls(nu, **kw, **{k: P[k]}).bias(), ex({**ctx.c(dflt), k: P[k]}))
        unchanged(ctx, "nu is not modified", nu, sn)
        unchanged(ctx, "m is not modified", kw["m"], sm)

    return h


def seljak_cosmo(ctx):
    nu, kw = setup(ctx)
    m, ms, cos = kw["m"], kw["mstar"], kw["cosmo"]
    base = _seljak(nu, 0, ctx.c(SEL), m, ms)
    a1, a2 = ctx.real("a1", 0.1, 1), ctx.real("a2", 0.1, 1)
    sm = snapshot(m)
    for P in ({}, {"a1": a1, "a2": a2}, {"a1": a1}):
        A1, A2 = P.get("a1", 0.4), P.get("a2", 0.3)
        b = Bm.Seljak04Cosmo(nu, **kw, **P).bias()
        for i in range(2):
            lx = log10(m[i] / ms)
            lx = -1 if lx < -1 else lx
            ctx.eq(f"cosmological correction ({sorted(P)})", b[i], base[i] + lx * (A1 * (cos.Om0 - 0.3 + kw["n"] - 1) + A2 * (kw["sigma_8"] - 0.9 + cos.h - 0.7)))
    unchanged(ctx, "m is not modified", m, sm)


T10 = {
    "beta": [0.589, 0.585, 0.544, 0.543, 0.564, 0.623, 0.637, 0.673, 0.702],
    "gamma": [0.864, 0.922, 0.987, 1.09, 1.2, 1.34, 1.5, 1.68, 1.81],
    "phi": [-0.729, -0.789, -0.910, -1.05, -1.2, -1.26, -1.45, -1.5, -1.49],
    "eta": [-0.243, -0.261, -0.261, -0.273, -0.278, -0.301, -0.301, -0.319, -0.336],
}
DV = [200, 300, 400, 600, 800, 1200, 1600, 2400, 3200]
EXP = {"beta": 0.2, "phi": -0.08, "eta": 0.27, "gamma": -0.01}


def tinker_pb(ctx):
    """Every tabulated overdensity, and two between the table's; redshift capped at max_z."""
    nu, kw = setup(ctx)
    d = ctx.choice("overdensity", DV + [250.0, 1000.0])
    kw["delta_halo"] = d
    z = kw["z"]
    zz = 3 if z > 3 else z
    par = {}
    for k, v in T10.items():
        p0 = v[DV.index(d)] if d in DV else float(InterpolatedUnivariateSpline(np.array(DV), np.array(v))(d))
        par[k] = p0 * (1 + zz) ** EXP[k]
    dc = kw["delta_c"]
    ex = 1 + (par["gamma"] * nu - 1 - 2 * par["eta"]) / dc + 2 * par["phi"] / dc / (1 + (par["beta"] ** 2 * nu) ** par["phi"])
    ctx.eq("published form with evolving parameters", Bm.Tinker10PBSplit(nu, **kw).bias(), ex, rtol=1e-8)
    if d == 400:
        P = {k: ctx.real("u_" + k, 0.1, 1) for k in ("beta_400", "gamma_400", "phi_400", "eta_400", "beta_exp", "phi_exp", "eta_exp", "gamma_exp", "max_z")}
        zc = P["max_z"] if z > P["max_z"] else z
        par = {k: P[k + "_400"] * (1 + zc) ** P[k + "_exp"] for k in T10}
        ex = 1 + (par["gamma"] * nu - 1 - 2 * par["eta"]) / dc + 2 * par["phi"] / dc / (1 + (par["beta"] ** 2 * nu) ** par["phi"])
        ctx.eq("user parameters", Bm.Tinker10PBSplit(nu, **kw, **P).bias(), ex, rtol=1e-8)


class SO(SOMean):
    def __init__(self, d):
        self.d = d

    def halo_overdensity_mean(self, z=0, cosmo=None):
        return self.d


def pbs(name):
    """b = 1 - (1/delta_c) dln(nu f)/dln nu with the mass function the model names as its pair."""

    def h(ctx):
        nu = ctx.real("nu2", 0.05, 30)
        dc = ctx.real("delta_c", 1.2, 2.0)
        other = ctx.real("other", 31, 40)
        kw, hk = {}, {}
        cls = getattr(Bm, name)
        hm = cls.pair_hmf[0]
        z = 0.0
        if name in ("ST99", "Manera10"):
            kw = {"q": ctx.real("q", 0.2, 2), "p": ctx.real("p", 0.05, 0.45)}
            hk = {"a": kw["q"], "p": kw["p"]}
        if name == "Tinker10PBSplit":
            d = ctx.choice("overdensity", [200, 400])
            U = {f"{k}_{d}": ctx.real(k, *r) for k, r in {"beta": (0.3, 0.9), "gamma": (0.5, 2), "phi": (-1.5, -0.3), "eta": (-0.4, -0.1)}.items()}
            kw = {"delta_halo": d, **U}
            hk = {"mass_definition": SO(d), **U}
        arr = lambda x: ctx.arr([x, other])
        f = lambda q: hm(nu2=arr(q), m=None, delta_c=dc, **hk).fsigma[0]
        b = cls(arr(nu), delta_c=dc, **kw).bias()[0]
        ctx.deriv("df/dnu of the paired mass function", f, nu, f(nu) * dc * (1 - b) / (2 * nu), rtol=1e-6, atol=1e-12)

    return h


def defaults_pair(ctx):
    """Which mass function each model names (peak-background split)."""
    want = {"Mo96": "PS", "ST99": "SMT", "SMT01": "SMT", "Manera10": "Manera", "Tinker10PBSplit": "Tinker10"}
    for k, v in want.items():
        ctx.true(f"{k} pairs with {v}", getattr(Bm, k).pair_hmf[0].__name__ == v)
    ctx.true("UnityBias pairs with normalised mass functions only", all(x.normalized for x in Bm.UnityBias.pair_hmf) and len(Bm.UnityBias.pair_hmf) > 1)


def scale_dep(ctx):
    xi = ctx.arr([ctx.real("xi0", -0.4, 0.0), ctx.real("xi1", 0.0, 1e4)])
    s = snapshot(xi)
    P = {"a": ctx.real("a", 0.1, 2), "b": ctx.real("b", 0.1, 3), "c": ctx.real("c", 0.1, 2), "d": ctx.real("d", 0.1, 3)}
    ex = lambda P: ((1 + P["a"] * xi) ** P["b"] / (1 + P["c"] * xi) ** P["d"]) ** 0.5
    ctx.eq("Tinker (2005) form", Bm.TinkerSD05(xi, **P).bias_scale(), ex(P))
    ctx.eq("published parameters", Bm.TinkerSD05(xi).bias_scale(), ex(ctx.c({"a": 1.17, "b": 1.49, "c": 0.69, "d": 2.09})))
    unchanged(ctx, "xi is not modified", xi, s)


def colossus(ctx):
    """The factory hands colossus sqrt(nu), the redshift, mass definition, model and parameters."""
    nu, kw = setup(ctx)
    got, cos = [], []
    f0 = Bm.haloBiasFromNu
    world = ColossusWorld(Bm)

    def stub(nu, z, mdef, model, **k):
        got.append((nu, z, mdef, model, k))
        cos.append(world.now)
        return nu * 2

    Bm.haloBiasFromNu = stub
    other = {**kw, "cosmo": Csm(ctx.real("h2", 0.5, 0.9), ctx.real("Om2", 0.1, 0.6)), "sigma_8": ctx.real("s2", 0.5, 1.1), "n": ctx.real("n2", 0.8, 1.1)}
    world.__enter__()
    try:
        cls = Bm.make_colossus_bias(model="tinker10", mdef=SOMean(overdensity=300), par=1.5)
        cls2 = Bm.make_colossus_bias(model="comparat17")
        par = ctx.real("par", 0.1, 2)
        b = cls(nu, **kw).bias()
        cls(nu, **kw, par=par).bias()
        cls2(nu, **kw).bias()
        first = cls(nu, **kw)
        second = cls2(nu, **other)
        for x in (first, second, first):
            x.bias()
    finally:
        world.__exit__()
        Bm.haloBiasFromNu = f0
    ctx.eq("colossus gets the peak height", b, 2 * nu**0.5)
    ctx.eq("colossus gets the redshift", got[0][1], kw["z"])
    ctx.true("mass definition and model", got[0][2:4] == ("300m", "tinker10") and got[2][2:4] == ("200m", "comparat17"))
    ctx.eq("default parameter", got[0][4]["par"], 1.5)
    ctx.eq("user parameter", got[1][4]["par"], par)
    for i, k in enumerate([kw, kw, kw, kw, other, kw]):
        ctx.true("the model's own cosmology, whichever others were made", cos[i] is not None and cos[i][0] is k["cosmo"])
        ctx.eq("the model's own sigma_8 and n, whichever others were made", ctx.arr(cos[i][1:]), ctx.arr([k["sigma_8"], k["n"]]))


class RecB(Bm.Bias):
    _defaults = {"extra": 1}

    def bias(self):
        return self


def wiring(ctx):
    """The halo model computes bias from its own current quantities."""
    nu, kw = setup(ctx)
    cos = kw.pop("cosmo")
    ex = ctx.real("extra", 1, 2)
    hm = fake(
        HM.DMHaloModel, nu=nu, delta_c=kw["delta_c"], m=kw["m"], mass_nonlinear=kw["mstar"], halo_overdensity_mean=kw["delta_halo"],
        n=kw["n"], cosmo=cos, sigma_8=kw["sigma_8"], n_eff=kw["n_eff"], z=kw["z"], bias_model=RecB, bias_params={"extra": ex},
    )
    b = hm.bias
    for k in kw:
        ctx.eq(f"{k} of the model reaches the bias", getattr(b, k), kw[k])
    ctx.eq("nu reaches the bias", b.nu, nu)
    ctx.eq("h, Om0", ctx.arr([b.h, b.Om0]), ctx.arr([cos.h, cos.Om0]))
    ctx.eq("parameters reach the bias", b.params["extra"], ex)
    ctx.true("halo_bias is the component's bias", hm.halo_bias is b)


def harnesses(tier="quick"):
    out = [H(f"form-{n}", form(n), bounds="2 masses; all model parameters, delta_c, overdensity free") for n in FORMS]
    out.append(H("form-Seljak04Cosmo", seljak_cosmo, bounds="2 masses"))
    out.append(H("form-Tinker10PBSplit", tinker_pb, bounds="9 tabulated and 2 interpolated overdensities, any redshift"))
    for n in ("Mo96", "ST99", "Manera10", "Tinker10PBSplit"):
        out.append(H(f"pbs-{n}", pbs(n), modules=modules(ff), bounds="one peak height, any parameters"))
    out.append(H("pairs", defaults_pair))
    out.append(H("scale-dependent", scale_dep, bounds="2 correlation values > -0.4"))
    out.append(H("colossus", colossus))
    out.append(H("wiring", wiring))
    return out
