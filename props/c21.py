"""C21: a model always reflects its current parameters, whatever its history."""
import contextlib
import itertools
import types
import warnings
import zlib

import numpy as np
from hmf import MassFunction, cached_quantity, parameter

import halomod.bias as BI
import halomod.concentration as CO
import halomod.cross_correlations as X
import halomod.functional as FU
import halomod.halo_exclusion as HE
import halomod.halo_model as HM
import halomod.hod as HO
import halomod.integrate_corr as IC
import halomod.profiles as PR
import halomod.tools as TL
from symx import terms as T

from .common import H, contract, modules
from .hm2pt import integral, transform

M = np.array([1e11, 1e12, 1e13])
K = np.array([0.05, 0.5, 5.0])
CTX = [None]  # the context of the path being run


# ------------------------------------------------------------------ what a thing is made of
MEMO: dict = {}


def parts(o, s, t):
    """Appends the structure and the terms of a component, a table, a parameter dictionary..."""
    if isinstance(o, T.R):
        s.append("x")
        t.append(o)
    elif o is None or isinstance(o, (str, bool, type, np.bool_)):
        s.append(o.__name__ if isinstance(o, type) else str(o))
    elif isinstance(o, (int, float, np.number)):
        if np.isfinite(o):
            s.append("x")
            t.append(float(o))
        else:
            s.append(str(o))
    elif isinstance(o, np.ndarray):
        s.append(f"a{o.shape}")
        for x in o.ravel():
            parts(x, s, t)
    elif isinstance(o, dict):
        s.append("{")
        for k in sorted(o):
            s.append(str(k))
            parts(o[k], s, t)
        s.append("}")
    elif isinstance(o, (list, tuple)):
        s.append(f"[{len(o)}")
        for x in o:
            parts(x, s, t)
    elif isinstance(o, types.FunctionType) and o.__module__ == TL.__name__:
        s.append(o.__name__)
    elif callable(o) and not getattr(o, "__dict__", None):
        s.append("f")
        for x in (K[0] / 7, K[1], K[2], K[-1] * 7):
            parts(first(o(np.array([x]))), s, t)
    elif getattr(o, "__dict__", None):
        s.append(type(o).__name__)
        t.append(summary(o))
    elif hasattr(o, "__dict__"):
        s.append(type(o).__name__)
    else:
        raise T.Unsupported(f"a {type(o).__name__}")


def first(x):
    return x if isinstance(x, T.R) or not np.shape(x) else x[0]


def summary(o):
    """One number that stands for everything a thing is made of."""
    if not getattr(o, "__dict__", None) or isinstance(o, types.FunctionType):
        return app("is", o)
    if id(o) not in MEMO:
        MEMO[id(o)] = o, app("is" + type(o).__name__, {k: v for k, v in vars(o).items()})
    return MEMO[id(o)][1]


def numeric(name):
    h = zlib.crc32(name.encode()) % 997 / 997.0

    def f(*a):
        r = 0.5 + h
        for i, x in enumerate(a):
            r = r + (0.1 + 0.07 * ((i * 5) % 7) + 0.0131 * i) * np.log1p(np.abs(np.asarray(x, float)))
        return r

    return f


def app(name, *objs, shape=()):
    """An arbitrary positive function of the given things."""
    s, t = [], []
    for o in objs:
        parts(o, s, t)
    ctx = CTX[0]
    t = [ctx.c(x) if isinstance(x, float) else x for x in t] or [ctx.c(1.0)]
    tag = f"{name}|{zlib.crc32('/'.join(s).encode())}"
    v = [ctx.uf(f"{tag}_{j}+", numeric=numeric(f"{tag}{j}"))(*t) for j in range(int(np.prod(shape)))]
    return ctx.arr(v).reshape(shape) if shape else v[0]


class Thing:
    """An object that is what it was made from."""

    def __init__(self, *a, **k):
        self.args, self.kw = a, k


class Spline:
    """A tabulated function: an arbitrary positive function of its table, its ends and the point."""

    def __init__(self, x, y, **kw):
        self.x, self.y, self.kw = x, y, kw

    def __call__(self, x):
        v = [app("spline", self, q if isinstance(q, T.R) else float(q)) for q in np.ravel(x)]
        return CTX[0].arr(v).reshape(np.shape(x)) if np.shape(x) else v[0]


# ------------------------------------------------------------------ components
def recorder(base, name, **ns):
    def __init__(self, *a, **kw):
        self.args, self.kw = a, kw

    return type(name, (base,), {"__init__": __init__, **ns})


def profile(name, has_lam):
    def table(q):
        def f(self, x, m, norm="m", c=None, coord="k"):
            return ctx_table(q, self, x, m, c, norm)

        return f

    return recorder(PR.Profile, name, has_lam=has_lam, u=table("u"), rho=table("rho"), lam=table("lam"))


def ctx_table(q, comp, x, m, c, norm):
    # the value at each separation and mass depends on the component and on the concentration
    rows = []
    for xi in x:
        rows.append([app(q, comp, norm, float(xi), float(mj), cj) for mj, cj in zip(m, c)])
    return CTX[0].arr([v for r in rows for v in r]).reshape((len(x), len(m)))


def conc(name):
    return recorder(CO.CMRelation, name, cm=lambda self, m, z=0: app("cm", self, z, shape=(len(m),)))


def hod(name, sharp, central):
    return recorder(
        HO.HOD, name, sharp_cut=sharp, _central=central, central_condition_inherent=False,
        mmin=property(lambda self: 11.5), unit_conversion=lambda self, cosmo, z: app("unit", self, cosmo, z),
        **{q: (lambda self, m, q=q: app(q, self, shape=(len(m),))) for q in ("total_occupation", "central_occupation", "satellite_occupation", "_central_occupation", "_satellite_occupation", "ss_pairs", "cs_pairs", "nc", "ns", "sigma_central", "sigma_satellite")},
    )


def exclusion(name):
    return recorder(
        HE.Exclusion, name, m=property(lambda s: s.kw["m"]), density=property(lambda s: s.kw["density"]), bias=property(lambda s: s.kw["bias"]),
        integrate=lambda self: app("xi", self, shape=(len(self.kw["r"]), len(K))), density_mod=property(lambda self: app("dm", self)),
    )


class _NoExcl(recorder(HE.NoExclusion, "NoExclRec")):
    m = property(lambda s: s.kw["m"])
    density = property(lambda s: s.kw["density"])
    bias = property(lambda s: s.kw["bias"])
    density_mod = 1.0

    def integrate(self):
        # the first axis, separation, has length one unless the bias depends on it
        b = self.kw["bias"]
        return app("xi", self, shape=((b.shape[0] if b.ndim == 2 else 1), len(K)))


def components():
    """New classes each time they are needed; they do not stay registered."""
    reg = [PR.Profile, CO.CMRelation, HO.HOD, HE.Exclusion, BI.Bias, BI.ScaleDepBias]
    before = [dict(k._plugins) for k in reg]
    c = types.SimpleNamespace(
        PA=profile("PA", True), PB=profile("PB", False), PC=profile("PC", True),
        CA=conc("CA"), CB=conc("CB"), CC=conc("CC"),
        HA=hod("HA", False, False), HB=hod("HB", True, True),
        EA=exclusion("EA"),
        BA=recorder(BI.Bias, "BA", bias=lambda s: app("b", s, shape=(len(M),)), pair_hmf=()),
        BB=recorder(BI.Bias, "BB", bias=lambda s: app("b", s, shape=(len(M),)), pair_hmf=()),
        SA=recorder(BI.ScaleDepBias, "SA", bias_scale=lambda s: app("s", s, shape=np.shape(s.args[0]))),
        SB=recorder(BI.ScaleDepBias, "SB", bias_scale=lambda s: app("s", s, shape=np.shape(s.args[0]))),
    )
    for k, p in zip(reg, before):
        k._plugins.clear()
        k._plugins.update(p)
    return c


C = components()


# ------------------------------------------------------------------ the quantities that come from hmf
def par(name):
    def f(self, val):
        return val

    f.__name__ = name
    return parameter("param")(f)


def leaf(name, deps, shape=None, const=None, at_least=0.0):
    def f(self):
        a = [getattr(self, d) for d in deps]
        if const is not None:
            return const
        if shape is None:
            return Thing(name, *a)
        return app(name, *a, shape=shape) + at_least

    f.__name__ = name
    return cached_quantity(f)


COSMO = ("z", "sigma_8", "n")


class Filter:
    def __init__(self, *a):
        self.of, self.power = a, None


class HMF(MassFunction):
    """The mass-function framework: quantities that are arbitrary functions of its parameters."""

    def __init__(self, z, sigma_8, n, delta_c, takahashi=True, Mmin=11, Mmax=16, hmf_model=None, **kw):
        for k in kw:
            if k not in MassFunction.get_all_parameter_names():
                raise TypeError(f"MassFunction.__init__() got an unexpected keyword argument '{k}'")
        self.z, self.sigma_8, self.n, self.delta_c = z, sigma_8, n, delta_c
        self.takahashi = takahashi
        self.Mmin, self.Mmax = Mmin, Mmax
        self.hmf = types.SimpleNamespace(normalized=True)
        self.hmf_model = None

    def validate(self):
        pass

    for _p in ("z", "sigma_8", "n", "delta_c", "Mmin", "Mmax"):
        locals()[_p] = par(_p)
    hmf = hmf_model = None
    k = leaf("k", (), const=K)
    m = leaf("m", ("Mmin", "Mmax"), const=M)
    dlog10m = 1.0
    dndm = leaf("dndm", COSMO, (len(M),))
    rho_gtm = leaf("rho_gtm", COSMO, (len(M),))
    power = leaf("power", COSMO, (len(K),))
    _power0 = leaf("power0", ("sigma_8", "n"), (len(K),))
    nonlinear_power = leaf("nonlinear_power", ("power", "z", "takahashi"), (len(K),))
    nu = leaf("nu", ("sigma_8", "n", "z", "delta_c"), (len(M),))
    n_eff = leaf("n_eff", ("n",), (len(M),))
    mass_nonlinear = leaf("mass_nonlinear", COSMO, ())
    halo_overdensity_mean = leaf("halo_overdensity_mean", ("z",), (), at_least=1e20)  # the turnover applies at every wavenumber
    mean_density0 = leaf("mean_density0", (), (), at_least=1.0)
    cosmo = leaf("cosmo", ())
    mdef = leaf("mdef", ("z",))
    nu_fn = leaf("nu_fn", ("sigma_8", "n", "z", "delta_c"))
    growth = leaf("growth", ())
    cosmo_model = cosmo
    filter = cached_quantity(types.FunctionType((lambda self: Filter(self.sigma_8)).__code__, globals(), "filter"))


del HMF._p


class Tracer(HM.TracerHaloModel, HMF):
    pass


class Projected(IC.ProjectedCF, HMF):
    pass


class Angular(IC.AngularCF, HMF):
    pass


# The base class of every list is the first that halomod itself defines.
def quantities(cls, skip=()):
    """The quantities halomod defines: all public ones, and those that are functions."""
    out = []
    for k in cls.__mro__:
        if k.__module__.startswith("halomod"):
            for n, v in vars(k).items():
                if isinstance(v, property) and v.fset is None and not n.startswith("_") and n not in out and n not in skip:
                    out.append(n)
    return sorted(out)


@contextlib.contextmanager
def setting(ctx):
    """Stubs for what other properties decide: transforms, quadratures, and colossus."""
    CTX[0] = ctx
    MEMO.clear()
    old = HM.Cosmology, HM.intg, HM.astropy_to_colossus
    HM.Cosmology = lambda cosmo_model=None: Thing("Cosmology", cosmo_model)
    HM.astropy_to_colossus = lambda cosmo, **k: Thing("colossus", cosmo, k)

    def trapezoid(y, x=None, dx=None, axis=-1):
        return ctx.arr([app("tz", row, dx) for row in y.reshape(-1, y.shape[-1])]).reshape(y.shape[:-1]) if y.ndim > 1 else app("tz", y, dx)

    HM.intg = types.SimpleNamespace(trapezoid=trapezoid, simpson=trapezoid)
    oi, ot, oe = TL.spline_integral, TL.hankel_transform, TL.ExtendedSpline

    def integ(x, f, xmin=None, xmax=None, log=True):
        return app("int", f, xmin, xmax, log)

    def tr(f, var, name, *a):
        at = K[1:3]
        fs = list(f) if isinstance(f, (list, tuple)) else [f] * len(var)
        return ctx.arr([app("hank", name, float(x), *[first(g(np.array([q]))) for q in at]) for x, g in zip(var, fs)])

    TL.spline_integral, TL.hankel_transform, TL.ExtendedSpline = contract(oi, integ), contract(ot, tr), Spline
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield
    finally:
        HM.Cosmology, HM.intg, HM.astropy_to_colossus = old
        TL.spline_integral, TL.hankel_transform, TL.ExtendedSpline = oi, ot, oe


# ------------------------------------------------------------------ histories
def evaluate(hm, names):
    out = {}
    for n in names:
        out[n] = getattr(hm, n)
    return out


def same(ctx, label, got, want):
    ctx.eq(label, summary(got), summary(want))


def merge(p, upd):
    """The parameters after an update, as documented: a dictionary is merged, an empty one clears."""
    p = {k: (dict(v) if isinstance(v, dict) else v) for k, v in p.items()}
    for k, v in upd.items():
        if isinstance(v, dict) and v:
            p[k] = {**p.get(k, {}), **v}
        else:
            p[k] = v
    return p


def start(ctx, rich, fresh):
    """Two starting points: the defaults, and one with a choice made for everything optional."""
    v = fresh
    p = dict(
        z=v(), sigma_8=v(), n=v(), delta_c=v(), takahashi=True,
        rmin=0.1, rmax=10.0, rnum=3, rlog=True, dr_table=1.5, hm_logk_min=-1.0, hm_logk_max=1.0, hm_dlog10k=1.0,
        halo_profile_model=C.PA, halo_profile_params={"p": v()}, halo_concentration_model=C.CA, halo_concentration_params={"c": v()},
        bias_model=C.BA, bias_params={"b": v()}, sd_bias_model=None, sd_bias_params={}, exclusion_model=_NoExcl, exclusion_params={},
        hc_spectrum="linear", force_1halo_turnover=True, force_unity_dm_bias=True,
        hod_model=C.HA, hod_params={"h": v()}, tracer_profile_model=None, tracer_profile_params={}, tracer_concentration_model=None,
        tracer_concentration_params={},
    )
    if rich:
        p.update(
            halo_profile_model=C.PB, sd_bias_model=C.SA, sd_bias_params={"s": v()}, exclusion_model=C.EA, exclusion_params={"e": v()},
            hc_spectrum="filtered-nl", force_1halo_turnover=False, force_unity_dm_bias=False, hod_model=C.HB,
            tracer_profile_model=C.PB, tracer_profile_params={"t": v()}, tracer_concentration_model=C.CB, tracer_concentration_params={"u": v()},
            rmin=[0.2, 0.7, 3.0],
        )
    return p


#: updates that change what a quantity is computed from
SWITCHES = {
    "tracer-profile": lambda v: dict(tracer_profile_model=C.PC),
    "tracer-profile-b": lambda v: dict(tracer_profile_model=C.PB),
    "no-tracer-profile": lambda v: dict(tracer_profile_model=None),
    "same-profile": lambda v: dict(tracer_profile_model=C.PA, tracer_profile_params={}, halo_profile_model=C.PA),
    "tracer-concentration": lambda v: dict(tracer_concentration_model=C.CC),
    "no-tracer-concentration": lambda v: dict(tracer_concentration_model=None),
    "same-concentration": lambda v: dict(tracer_concentration_model=C.CA, tracer_concentration_params={}, halo_concentration_model=C.CA),
    "scale-dependent": lambda v: dict(sd_bias_model=C.SB),
    "no-scale-dependence": lambda v: dict(sd_bias_model=None),
    "exclusion": lambda v: dict(exclusion_model=C.EA),
    "no-exclusion": lambda v: dict(exclusion_model=_NoExcl),
    "hod": lambda v: dict(hod_model=C.HB),
    "hod-smooth": lambda v: dict(hod_model=C.HA),
    "profile": lambda v: dict(halo_profile_model=C.PC),
    "profile-no-lam": lambda v: dict(halo_profile_model=C.PB),
    "concentration": lambda v: dict(halo_concentration_model=C.CC),
    "bias": lambda v: dict(bias_model=C.BB),
    "linear": lambda v: dict(hc_spectrum="linear"),
    "nonlinear": lambda v: dict(hc_spectrum="nonlinear"),
    "filtered": lambda v: dict(hc_spectrum="filtered-lin"),
    "unity": lambda v: dict(force_unity_dm_bias=True),
    "no-unity": lambda v: dict(force_unity_dm_bias=False),
    "turnover": lambda v: dict(force_1halo_turnover=True),
    "no-turnover": lambda v: dict(force_1halo_turnover=False),
    "separations": lambda v: dict(rmin=[0.3, 2.0]),
    "minimum-separation": lambda v: dict(rmin=0.2),
    "halofit": lambda v: dict(takahashi=False),
    "tracer-and-redshift": lambda v: dict(tracer_profile_model=C.PC, tracer_profile_params={"t": v()}, tracer_concentration_model=C.CC, z=v()),
    "spectrum-and-redshift": lambda v: dict(hc_spectrum="nonlinear", rmin=[0.3, 2.0], z=v(), takahashi=False),
    "scale-dependent-and-amplitude": lambda v: dict(sd_bias_model=C.SB, sigma_8=v(), sd_bias_params={"s": v()}),
}
#: what may change afterwards, one at a time
CHANGES = [
    lambda v: dict(z=v()),
    lambda v: dict(tracer_profile_params={"t": v()}),
    lambda v: dict(tracer_concentration_params={"u": v()}),
    lambda v: dict(halo_profile_params={"p": v()}),
    lambda v: dict(halo_concentration_params={"c": v()}),
    lambda v: dict(bias_params={"b": v()}),
    lambda v: dict(sd_bias_params={"s": v()}),
    lambda v: dict(exclusion_params={"e": v()}),
    lambda v: dict(hod_params={"h": v()}),
    lambda v: dict(hod_params={"i": v()}),
    lambda v: dict(sigma_8=v()),
    lambda v: dict(n=v()),
    lambda v: dict(delta_c=v()),
    lambda v: dict(takahashi=False),
    lambda v: dict(takahashi=True),
    lambda v: dict(force_1halo_turnover=False),
    lambda v: dict(force_1halo_turnover=True),
    lambda v: dict(rmax=8.0),
    lambda v: dict(rnum=2),
    lambda v: dict(rlog=False),
    lambda v: dict(hm_dlog10k=0.5),
    lambda v: dict(hm_logk_max=2.0),
    lambda v: dict(dr_table=2.0),
    lambda v: dict(halo_profile_params={}),
    lambda v: dict(hod_params={}),
]


def supply(ctx):
    """Parameter values that all differ (an update to the present value is its own history)."""
    n = [0]

    def v():
        n[0] += 1
        return ctx.real(f"v{n[0]}", n[0], n[0] + 0.9)

    return v


def history(rich, switch):
    def f(ctx):
        with setting(ctx):
            v = supply(ctx)
            p = start(ctx, rich, v)
            hm = Tracer(**p)
            names = quantities(HM.TracerHaloModel)
            evaluate(hm, names)
            for i, step in enumerate([SWITCHES[switch]] + CHANGES):
                u = step(v)
                hm.update(**{k: (dict(x) if isinstance(x, dict) else x) for k, x in u.items()})
                p = merge(p, u)
                want = evaluate(Tracer(**p), names)
                got = evaluate(hm, names)
                for n in names:
                    same(ctx, f"{n} after {'+'.join(u)} ({i})", got[n], want[n])
                same(ctx, f"the parameters are those asked for ({i})", {k: getattr(hm, k) for k in p}, p)

    return f


# ------------------------------------------------------------------ the other frameworks
class Cosmo(Thing):
    """Distances are an arbitrary multiple of the redshift."""

    class Q:
        def __init__(self, v):
            self.value = v

        def __mul__(self, o):
            return Cosmo.Q(self.value * o)

    h = 0.7

    @property
    def hubble_distance(self):
        return self.Q(4000.0)

    def comoving_distance(self, z):
        return self.Q(z * 3500.0)

    def efunc(self, z):
        return 1 + z * 0.5


HMF.cosmo = leaf("cosmo", (), const=Cosmo("cosmo"))


def flat(zmin, zmax):
    return lambda z: 1 + zmin * z + zmax


@contextlib.contextmanager
def corr_setting(ctx):
    with setting(ctx):
        old = IC.projected_corr_gal, IC.angular_corr_gal, IC.flat_z_dist, IC._spline
        IC.projected_corr_gal = contract(old[0], lambda r, xi, rlim, rp, *a: app("wp", r, xi, rlim, rp, list(a), shape=np.shape(rp)))

        def angular(theta, xi, p1, *a):
            # the cosmology is a constant here; functions count by their values
            rest = [x(0.3) if callable(x) else x for x in a if not isinstance(x, Cosmo)]
            return app("wt", theta, xi(np.array([1.0])), p1(0.3), rest, shape=np.shape(theta))

        IC.angular_corr_gal = contract(old[1], angular)
        IC.flat_z_dist = contract(old[2], lambda zmin, zmax: lambda z: app("flat", zmin, zmax, z))
        IC._spline = lambda x, y, **k: lambda z: app("table", x, y, z)
        try:
            yield
        finally:
            IC.projected_corr_gal, IC.angular_corr_gal, IC.flat_z_dist, IC._spline = old


DIST = {n: (lambda z, n=n: app("dist" + n, z)) for n in "AB"}

CORR_START = dict(
    projected=lambda v: dict(rp_min=0.1, rp_max=10.0, rp_num=3, rp_log=True, proj_limit=None, rnum=4),
    angular=lambda v: dict(p1=None, p2=None, theta_min=0.001, theta_max=0.01, theta_num=2, theta_log=True, zmin=v() / 100, zmax=v(), znum=3, logu_min=-4, logu_max=2.0, unum=3, check_p_norm=True, p_of_z=True, rnum=3),
)
CORR_SWITCH = {
    "projected-limit": dict(proj_limit=60.0),
    "projected-default": {},
    "projected-array": dict(rp_min=[0.3, 1.0, 4.0]),
    "projected-linear": dict(rp_log=False),
    "angular-default": {},
    "angular-given": dict(p1=DIST["A"]),
    "angular-given-cross": dict(p1=DIST["A"], p2=DIST["B"]),
    "angular-distance": dict(p_of_z=False),
    "angular-given-distance": dict(p1=DIST["A"], p_of_z=False),
}
CORR_CHANGES = dict(
    projected=[dict(proj_limit=60.0), dict(rp_max=20.0), dict(proj_limit=None), dict(rp_max=30.0), dict(rp_num=4), dict(rp_log=False), dict(rp_min=0.2), dict(rp_min=[0.3, 1.0]), dict(rp_min=0.15), dict(rp_log=True), dict(rnum=5), "z", "h"],
    angular=[dict(p1=DIST["B"]), dict(p1=None), dict(p_of_z=False), "zmin", "zmax", dict(znum=4), dict(p_of_z=True), "zmin", "zmax", dict(p2=DIST["A"]), dict(theta_max=0.02), dict(theta_num=3), dict(theta_log=False), dict(unum=4), dict(logu_max=1.5), dict(logu_min=-3.0), dict(check_p_norm=False), dict(p2=None), "z", "h"],
)


def corr_history(name, rich):
    def f(ctx):
        kind = name.split("-")[0]
        cls = {"projected": Projected, "angular": Angular}[kind]
        with corr_setting(ctx):
            v = supply(ctx)
            p = start(ctx, rich, v)
            for q in ("rmin", "rmax", "rlog"):
                p.pop(q)
            p.update(CORR_START[kind](v))
            hm = cls(**p)
            mine = [n for k in cls.__mro__ if k.__module__ == IC.__name__ for n, x in vars(k).items() if isinstance(x, property) and x.fset is None]
            names = sorted(set(mine)) + ["corr_auto_tracer", "corr_auto_matter"]
            evaluate(hm, names)
            for i, u in enumerate([CORR_SWITCH[name]] + CORR_CHANGES[kind]):
                if isinstance(u, str):
                    u = {"z": lambda: dict(z=v()), "h": lambda: dict(hod_params={"h": v()}), "zmin": lambda: dict(zmin=v() / 100), "zmax": lambda: dict(zmax=v())}[u]()
                hm.update(**u)
                p = merge(p, u)
                want, got = evaluate(cls(**p), names), evaluate(hm, names)
                for n in names:
                    same(ctx, f"{n} after {'+'.join(u)} ({i})", got[n], want[n])

    return f


def _cross(name):
    class CrossRec(recorder(X._HODCross, name)):
        def __init__(self, hods, **kw):
            self.hods, self.kw = list(hods), kw

        @property
        def _defaults(self):
            return {}

    for q in ("R_ss", "R_cs", "R_sc", "ss_cross_pairs", "cs_cross_pairs", "sc_cross_pairs", "self_pairs"):
        setattr(CrossRec, q, (lambda self, m=None, q=q: app(q, self, shape=(len(M),))))
    CrossRec.__name__ = name
    return CrossRec


_before = dict(X._HODCross._plugins)
XA, XB = _cross("XA"), _cross("XB")
for _k in (XA, XB):
    _k.__abstractmethods__ = frozenset()
X._HODCross._plugins.clear()
X._HODCross._plugins.update(_before)

CROSS_CHANGES = ["z", "h1", "h2", "c1", "t2", "x", "spectrum", "dr", "rmin", "prof1", "prof2", "s8", "x", "xm", "h1", "z", "conc", "x0", "bias2"]


def cross_history(order):
    """The cross-correlation of two models which change together or one at a time."""

    def f(ctx):
        old = X.TracerHaloModel, X.intg, X._IUS
        with setting(ctx):
            X.TracerHaloModel = Tracer
            X.intg = HM.intg

            class Sp:
                def __init__(self, x, y, **k):
                    self.x, self.y = x, y

                def integral(self, a, b):
                    return app("splint", self.x, self.y, a, b)

            X._IUS = Sp
            try:
                v = supply(ctx)
                p1, p2 = start(ctx, False, v), start(ctx, order == "rich", v)
                for q in ("z", "sigma_8", "n", "delta_c", "rmin", "hc_spectrum"):
                    p2[q] = p1[q]
                px = dict(cross_hod_model=XA, cross_hod_params={"r": v()})

                def make():
                    cp = lambda d: {k: (dict(x) if isinstance(x, dict) else x) for k, x in d.items()}
                    return X.CrossCorrelations(**cp(px), halo_model_1_params=cp(p1), halo_model_2_params=cp(p2))

                x = make()
                names = quantities(X.CrossCorrelations)
                names = [n for n in names if n not in ("halo_model_1", "halo_model_2")]
                evaluate(x, names if order != "backward" else names[::-1])
                for i, what in enumerate(CROSS_CHANGES):
                    u1, u2, ux = {}, {}, {}
                    if what in ("z", "s8", "spectrum", "dr", "rmin"):
                        u1 = {"z": lambda: dict(z=v()), "s8": lambda: dict(sigma_8=v()), "spectrum": lambda: dict(hc_spectrum="nonlinear"), "dr": lambda: dict(dr_table=2.0), "rmin": lambda: dict(rmin=[0.2, 2.0])}[what]()
                        u2 = dict(u1)
                    elif what == "h1":
                        u1 = dict(hod_params={"h": v()})
                    elif what == "h2":
                        u2 = dict(hod_params={"h": v()})
                    elif what == "c1":
                        u1 = dict(halo_concentration_params={"c": v()})
                    elif what == "conc":
                        u1 = dict(tracer_concentration_model=C.CC, tracer_concentration_params={"u": v()})
                    elif what == "t2":
                        u2 = dict(tracer_profile_model=C.PB, tracer_profile_params={"t": v()})
                    elif what in ("prof1", "prof2"):
                        (u1 if what == "prof1" else u2).update(halo_profile_params={"p": v()})
                    elif what == "bias2":
                        u2 = dict(bias_params={"b": v()})
                    elif what == "x":
                        ux = dict(cross_hod_params={"r": v()})
                    elif what == "xm":
                        ux = dict(cross_hod_model=XB)
                    elif what == "x0":
                        ux = dict(cross_hod_params={})
                    args = dict(ux)
                    if u1:
                        args["halo_model_1_params"] = u1
                    if u2:
                        args["halo_model_2_params"] = u2
                    p1, p2, px = merge(p1, u1), merge(p2, u2), merge(px, ux)
                    x.update(**args)
                    y = make()
                    want, got = evaluate(y, names), evaluate(x, names)
                    for n in names:
                        same(ctx, f"{n} after {what} ({i})", got[n], want[n])
            finally:
                X.TracerHaloModel, X.intg, X._IUS = old

    return f


# ------------------------------------------------------------------ what a model is built with
PUBLISHED = dict(
    rmin=0.01, rmax=120.0, rnum=100, rlog=True, dr_table=0.01, hm_logk_min=-2.0, hm_logk_max=2.0, hm_dlog10k=0.05,
    halo_profile_model=PR.NFW, halo_profile_params={}, halo_concentration_model=CO.Duffy08, halo_concentration_params={}, bias_model=BI.Tinker10, bias_params={},
    sd_bias_model=None, sd_bias_params={}, exclusion_model=HE.NoExclusion, exclusion_params={}, colossus_params={}, hc_spectrum="linear", Mmin=0, Mmax=18,
    force_1halo_turnover=True, force_unity_dm_bias=True, hod_model=HO.Zehavi05, hod_params={}, tracer_profile_model=None, tracer_profile_params={},
    tracer_concentration_model=None, tracer_concentration_params={}, tracer_density=None,
)
PUBLISHED_CORR = dict(
    projected=dict(rp_min=0.01, rp_max=50.0, rp_num=30, rp_log=True, proj_limit=None, rnum=150),
    angular=dict(p1=None, p2=None, theta_min=1e-3 * np.pi / 180.0, theta_max=np.pi / 180.0, theta_num=30, theta_log=True, zmin=0.2, zmax=0.4, znum=100, logu_min=-4, logu_max=2.3, unum=100, check_p_norm=True, p_of_z=True),
)


def construct(ctx):
    """A model has the parameters it is given, and the published ones for those it is not."""
    with corr_setting(ctx):
        v = supply(ctx)
        base = dict(z=v(), sigma_8=v(), n=v(), delta_c=v())
        given = dict(
            rmin=0.2, rmax=20.0, rnum=4, rlog=False, dr_table=1.25, hm_logk_min=-1.5, hm_logk_max=1.5, hm_dlog10k=0.75, Mmin=10, Mmax=15,
            halo_profile_model=C.PA, halo_profile_params={"p": v()}, halo_concentration_model=C.CA, halo_concentration_params={"c": v()}, bias_model=C.BB, bias_params={"b": v()},
            sd_bias_model=C.SB, sd_bias_params={"s": v()}, exclusion_model=C.EA, exclusion_params={"e": v()}, colossus_params={"l": v()}, hc_spectrum="nonlinear",
            force_1halo_turnover=False, force_unity_dm_bias=False, hod_model=C.HB, hod_params={"h": v()}, tracer_profile_model=C.PB, tracer_profile_params={"t": v()},
            tracer_concentration_model=C.CC, tracer_concentration_params={"u": v()},
        )
        corr = dict(
            projected=dict(rp_min=0.3, rp_max=7.0, rp_num=6, rp_log=False, proj_limit=40.0, rnum=9),
            angular=dict(p1=DIST["A"], p2=DIST["B"], theta_min=0.002, theta_max=0.03, theta_num=7, theta_log=False, zmin=v() / 100, zmax=v(), znum=8, logu_min=-3.0, logu_max=1.0, unum=11, check_p_norm=False, p_of_z=False),
        )
        for cls, kind in ((Tracer, None), (Projected, "projected"), (Angular, "angular")):
            cls = type(cls.__name__, (cls,), {"validate": lambda self: None})
            mine = {**given, **corr.get(kind, {})}
            pub = {**PUBLISHED, **PUBLISHED_CORR.get(kind, {})}
            if kind:
                for q in ("rmin", "rmax", "rlog"):
                    mine.pop(q), pub.pop(q)
            if kind == "angular":
                pub.pop("rnum")
            if kind:
                pub.pop("Mmin"), pub.pop("Mmax"), pub.pop("tracer_density")

            def agree(what, hm, want):
                got = {k: getattr(hm, k) for k in want}
                same(ctx, f"{cls.__name__}: {what}", got, want)

            agree("as given", cls(**base, **mine), mine)
            agree("as published", cls(**base), {**{k: x for k, x in pub.items() if k not in ("Mmin", "Mmax")}, **base})
            # one at a time
            for k, x in mine.items():
                hm = cls(**base, **{k: x})
                agree(f"{k} given alone", hm, {**{q: w for q, w in pub.items() if q not in ("Mmin", "Mmax")}, k: x, **({"rnum": 30} if k == "rp_num" else {})})


# ------------------------------------------------------------------ separate models, repeated values
def separate(ctx):
    """Two models made from the same dictionaries, and a clone: an update of one leaves the others alone."""
    with setting(ctx):
        v = supply(ctx)
        p = start(ctx, True, v)
        dicts = [k for k in p if isinstance(p[k], dict)]
        ctx.true("every dictionary of parameters is covered", set(dicts) >= {n for n in dir(HM.TracerHaloModel) if n.endswith("_params") and n not in ("cosmo_params", "hmf_params", "transfer_params", "filter_params", "growth_params", "mdef_params", "colossus_params")})
        given = {k: dict(p[k]) for k in dicts}
        a, b = Tracer(**p), Tracer(**p)
        names = quantities(HM.TracerHaloModel)
        before = {n: summary(x) for n, x in evaluate(a, names).items()}
        evaluate(b, names)
        c = b.clone()
        for n in dicts:
            b.update(**{n: {k: v() for k in given[n] or {"new": 0}}})
        for n in dicts:
            ctx.true(f"{n}: the caller's dictionary keeps its keys", list(p[n]) == list(given[n]))
            for k in given[n]:
                ctx.eq(f"{n}: the caller's dictionary keeps its values", p[n][k], given[n][k])
        MEMO.clear()
        fresh = Tracer(**given, **{k: x for k, x in p.items() if k not in given})
        for n, x in evaluate(a, names).items():
            ctx.eq(f"{n} of another model", summary(x), before[n])
        w = evaluate(fresh, names)
        a.update(halo_profile_params={"zz": v()})
        a.update(halo_profile_params={})
        a.update(halo_profile_params=given["halo_profile_params"])
        for n, x in evaluate(a, names).items():
            same(ctx, f"{n} once changes are taken back", x, w[n])
        for n, x in evaluate(c, names).items():
            same(ctx, f"{n} of a clone made before", x, w[n])
        ctx.true("the filter of the mass function keeps its power", a.filter.power is None)


class Dense(Tracer):
    """The search for the minimum mass is an arbitrary function of the density and of everything else."""

    def _find_m_min(self, ng):
        h = {k: x for k, x in self.hod_params.items() if k != "M_min"}
        return app("found", ng, self.z, self.sigma_8, self.hod_model, h)


def tracer_density(ctx):
    """The minimum mass is that of the density asked for last, as long as no minimum mass is."""
    with setting(ctx):
        v = supply(ctx)
        p = start(ctx, False, v)
        names = ["mean_tracer_den", "power_auto_tracer", "corr_auto_tracer", "bias_effective_tracer", "tracer_density", "hod_params"]
        hm = Dense(**p)
        evaluate(hm, names)
        ctx.true("no density asked for", hm.tracer_density is None and "M_min" not in hm.hod_params)
        ng = None
        for i, u in enumerate([dict(tracer_density=v()), dict(z=v()), dict(hod_params={"h": v()}), dict(hod_model=C.HB), dict(tracer_density=v()), dict(hod_params={"M_min": v()}),
                               dict(sigma_8=v()), dict(z=v(), tracer_density=v()), dict(sigma_8=v()), dict(hod_params={"M_min": v(), "h": v()}), dict(z=v()),
                               dict(tracer_density=v()), dict(hod_params=None), dict(tracer_density=None), dict(hod_params=None), dict(hod_params={"h": v()}), dict(z=v())]):
            hm.update(**u)
            u = dict(u)
            if "tracer_density" in u:
                ng = u.pop("tracer_density")
            elif "M_min" in (u.get("hod_params") or {}):
                ng = None
            p = merge(p, {k: {} if k == "hod_params" and x is None else x for k, x in u.items()})  # none: no parameters
            y = Dense(**p, tracer_density=ng)
            if ng is not None:
                h = {k: x for k, x in p["hod_params"].items() if k != "M_min"}
                want = app("found", ng, p["z"], p["sigma_8"], p["hod_model"], h)
                ctx.eq(f"the minimum mass found for the density ({i})", hm.hod_params["M_min"], want)
                ctx.eq(f"the minimum mass found at the start ({i})", y.hod_params["M_min"], want)
                p["hod_params"] = {**p["hod_params"], "M_min": want}
            ctx.true(f"density asked for ({i})", is_same(hm.tracer_density, ng))
            w, g = evaluate(y, names), evaluate(hm, names)
            for n in names:
                same(ctx, f"{n} ({i})", g[n], w[n])


COMBINE = {
    "numbers": lambda v: dict(z=[v(), v()], sigma_8=[v(), v()]),
    "dictionaries": lambda v: dict(hod_params=[{"h": v()}, {"h": v()}], z=[v(), v(), v()]),
    "models": lambda v: dict(tracer_profile_model=[None, C.PB, C.PC], z=[v(), v()], halo_concentration_params=[{"c": v()}, {"c": v()}]),
    "one": lambda v: dict(hod_model=[C.HA, C.HB]),
    "none": lambda v: {},
}


def combinations(what):
    """get_halomodel: a model per combination of the parameters listed, each as if built for it alone."""

    def f(ctx):
        with setting(ctx):
            v = supply(ctx)
            p = start(ctx, False, v)
            lists = COMBINE[what](v)
            need = ["power_auto_tracer", "mean_tracer_den"]

            class Model(Tracer):
                def __init__(self, **kw):
                    if "takahashi" not in kw:  # the run that finds the order of the parameters
                        Tracer(**{**p, **kw})  # its parameters have to exist
                        kw = {}
                    super().__init__(**{**p, **kw})

            todo = [dict(zip(lists, c)) for c in itertools.product(*lists.values())]
            given = {k: x for k, x in p.items() if k not in lists}
            given["rmin"] = 0.2
            p["rmin"] = 0.2
            seen, labels = [], []
            for q, x, label in FU.get_halomodel(need, kls=Model, **{**given, **lists}):
                mine = [c for c in todo if all(is_same(getattr(x, k), w) for k, w in c.items())]
                ctx.true("one combination of those asked for", len(mine) == 1 and mine[0] not in seen)
                seen += mine
                labels.append(label)
                y = Tracer(**{**p, **mine[0]})
                for n, a in zip(need, q):
                    same(ctx, f"{n} of the combination", a, getattr(y, n))
                for n in ("corr_auto_tracer", "bias_effective_tracer"):
                    same(ctx, f"{n} of the model", getattr(x, n), getattr(y, n))
            ctx.true("every combination once", len(seen) == len(todo))
            ctx.true("labels tell them apart", len(set(labels)) == len(todo))

    return f


def is_same(a, b):
    if isinstance(a, dict):
        return set(a) == set(b) and all(is_same(a[k], b[k]) for k in a)
    return a is b or (isinstance(a, float) and isinstance(b, float) and a == b)


def harnesses(tier="quick"):
    mods = modules()
    b = "3 masses, 3 wavenumbers; component models, quadratures, transforms and hmf's quantities arbitrary functions of everything they are given; all parameter values; "
    out = [
        H(f"history-{'rich' if r else 'plain'}-{s}", history(r, s), modules=mods, budget=200, probes=2, bounds=b + "a change of what is computed, then 25 changes one at a time, everything evaluated in between")
        for r in (False, True) for s in SWITCHES
    ]
    out += [H(f"history-{n}" + ("-rich" if r else ""), corr_history(n, r), modules=mods, budget=200, probes=2, bounds=b + "13 or 20 changes after one of the framework's choices") for n in CORR_SWITCH for r in (False, True)]
    out += [H(f"history-cross-{o}", cross_history(o), modules=mods, budget=200, probes=2, bounds=b + "19 changes of either or both halo models or the cross-correlation") for o in ("forward", "backward", "rich")]
    out += [H(f"combinations-{n}", combinations(n), modules=mods, budget=200, probes=2, bounds=b + "up to 12 combinations of lists of parameters") for n in COMBINE]
    out.append(H("tracer-density", tracer_density, modules=mods, budget=200, probes=2, bounds=b + "17 updates of the density, of the minimum mass, and of others"))
    out.append(H("construct", construct, modules=mods, budget=200, probes=2, bounds="every parameter of the three frameworks given, each given alone, and none given"))
    out.append(H("separate-models", separate, modules=mods, budget=200, probes=2, bounds=b + "two models from the same dictionaries and a clone"))
    return out
