"""C06: concentration--mass relations."""
import numpy as np
import scipy.special as sps
from hmf.halos.mass_definitions import SOCritical, SOMean, SOVirial

import halomod.concentration as C
import halomod.halo_model as HM
from symx import terms as T

from .common import ColossusWorld, fake, H, snapshot, Token, unchanged


class Growth:
    """D(z) = (1 - z/60)^s with s=1 (a linear growth is interpolated exactly)."""

    def __init__(self, d=None):
        self.d = d

    def growth_factor(self, z):
        if self.d is not None and not isinstance(z, np.ndarray):
            return self.d(z)
        return 1 - z / 60


def growth_of(ctx, z, lo):
    """An arbitrary growth factor, and its value at z."""
    D = ctx.uf("D", numeric=lambda z: 1 / (1 + 0.4 * z))
    if ctx.sym:
        ctx.assume(D(z) > lo)
        ctx.assume(D(z) < 1)
    return Growth(D), D(z)


class Filt:
    """Power-law sigma(r) = A r^-p; r in terms of an arbitrary mass-radius law."""

    def __init__(self, A, p, rho):
        self.A, self.p, self.rho = A, p, rho

    def mass_to_radius(self, m, rho):
        return (3 * m / (4 * np.pi * rho)) ** (1 / 3)

    def radius_to_mass(self, r, rho):
        return 4 * np.pi / 3 * rho * r**3

    def sigma(self, r):
        return self.A * r ** (-self.p)

    def nu(self, r, delta_c):
        return (delta_c / self.sigma(r)) ** 2


class Csm:
    def __init__(self, rho, om=None, ol=None):
        self.mean_density0 = rho
        self.cosmo = self
        self.Om0, self.Ode0 = om, ol


class Prof:
    def __init__(self, h):
        self._h = h


def mk(ctx, cls, mdef=None, growth=None, filt=None, cosmo=None, delta_c=None, profile=None, **p):
    return cls(
        cosmo=cosmo or Csm(1e11), filter0=filt, growth=growth or Growth(), delta_c=1.686 if delta_c is None else delta_c,
        profile=profile or Prof(None), mdef=mdef or cls.native_mdefs[0], **p,
    )


def masses(ctx):
    return ctx.increasing("m", 2, 1e8, 1e16), ctx.real("z", 0, 4, strict=False)


def power(cls, dflt):
    def h(ctx):
        m, z = masses(ctx)
        sm = snapshot(m)
        P = {"a": ctx.real("a", 1, 20), "b": ctx.real("b", -0.5, 0.2), "c": ctx.real("c", 0, 2), "ms": ctx.real("ms", 1e10, 1e14), "norm": ctx.real("norm", 0.2, 3)}
        ex = lambda Q: Q["norm"] * Q["a"] * (m / Q["ms"]) ** Q["b"] / (1 + z) ** Q["c"]
        d = ctx.c({k: v for k, v in dflt.items() if v is not None})
        k = getattr(C, cls)
        ctx.eq("c = norm a (m/ms)^b (1+z)^-c", mk(ctx, k, **P).cm(m, z), ex(P))
        base = {"ms": P["ms"]} if dflt["ms"] is None else {}
        for q in P:
            ctx.eq(f"parameter {q} alone, others as published", mk(ctx, k, **{q: P[q], **base}).cm(m, z), ex({**d, **base, q: P[q]}))
        ctx.eq("redshift defaults to zero", mk(ctx, k, **P).cm(m), P["norm"] * P["a"] * (m / P["ms"]) ** P["b"])
        ctx.eq("scalar mass", mk(ctx, k, **P).cm(m[0], z), ex(P)[0])
        ctx.eq("in any order of masses", mk(ctx, k, **P).cm(m[::-1], z), ex(P)[::-1])
        unchanged(ctx, "masses not modified", m, sm)

    return h


DUFFY = {
    ("200c", "full"): (5.71, -0.084, 0.47), ("200c", "relaxed"): (6.71, -0.091, 0.44),
    ("vir", "full"): (7.85, -0.081, 0.71), ("vir", "relaxed"): (9.23, -0.09, 0.69),
    ("200m", "full"): (10.14, -0.081, 1.01), ("200m", "relaxed"): (11.93, -0.09, 0.99),
}


def duffy(ctx):
    m, z = masses(ctx)
    key = ctx.choice("definition", list(DUFFY))
    mdef = {"200c": SOCritical(), "vir": SOVirial(), "200m": SOMean()}[key[0]]
    a, b, c = (ctx.c(x) for x in DUFFY[key])
    f = lambda a, b, c, ms=2e12, norm=1: norm * a * (m / ctx.c(ms)) ** b / (1 + z) ** c
    s = {} if key[1] == "relaxed" else {"sample": "full"}
    ctx.eq("Table 1 of Duffy et al. (2008)", mk(ctx, C.Duffy08, mdef, **s).cm(m, z), f(a, b, c))
    if key == ("200c", "full"):
        ctx.eq("other definitions use the critical set", mk(ctx, C.Duffy08, SOMean(overdensity=300), **s).cm(m, z), f(a, b, c))
    ua, ub, uc = ctx.real("a", 1, 20), ctx.real("b", -0.5, -0.01), ctx.real("c", 0.1, 2)
    ums, un = ctx.real("ms", 1e10, 1e14), ctx.real("norm", 0.2, 3)
    ctx.eq("in any order of masses", mk(ctx, C.Duffy08, mdef, **s).cm(m[::-1], z), f(a, b, c)[::-1])
    ctx.eq("parameter a alone", mk(ctx, C.Duffy08, mdef, a=ua, **s).cm(m, z), f(ua, b, c))
    ctx.eq("parameter b alone", mk(ctx, C.Duffy08, mdef, b=ub, **s).cm(m, z), f(a, ub, c))
    ctx.eq("parameter c alone", mk(ctx, C.Duffy08, mdef, c=uc, **s).cm(m, z), f(a, b, uc))
    ctx.eq("parameters ms and norm", mk(ctx, C.Duffy08, mdef, ms=ums, norm=un, **s).cm(m, z), f(a, b, c, ums, un))
    for v in (0, 0.0):
        ctx.eq("no redshift evolution (c=0)", mk(ctx, C.Duffy08, mdef, c=v, **s).cm(m, z), f(a, b, 0))
        ctx.eq("no mass dependence (b=0)", mk(ctx, C.Duffy08, mdef, b=v, **s).cm(m, z), f(a, 0, c))


def maccio(ctx):
    m, z = masses(ctx)
    P = {"c_0": ctx.real("c_0", 1, 40), "gamma": ctx.real("gamma", 0, 3), "norm": ctx.real("norm", 0.2, 3)}
    d = ctx.c({"c_0": 28.65, "gamma": 1.45, "norm": 1.0})
    ex = lambda Q, z=z: Q["norm"] * 4 * Q["c_0"] * (m / ctx.c(1e11)) ** ctx.c(-0.109) / (1 + z) ** Q["gamma"]
    ctx.eq("published form", mk(ctx, C.Maccio07, **P).cm(m, z), ex(P))
    ctx.eq("in any order of masses", mk(ctx, C.Maccio07, **P).cm(m[::-1], z), ex(P)[::-1])
    for q in P:
        ctx.eq(f"parameter {q} alone", mk(ctx, C.Maccio07, **{q: P[q]}).cm(m, z), ex({**d, q: P[q]}))
    ctx.eq("redshift defaults to zero", mk(ctx, C.Maccio07).cm(m), ex(d, 0))


def lud_emp(ctx):
    m, z = masses(ctx)
    dc = ctx.real("delta_c", 1.2, 2)
    gr, D = growth_of(ctx, z, 0.1)
    names = {"c0_0": 3.395, "c0_z": -0.215, "beta_0": 0.307, "beta_z": 0.54, "gamma1_0": 0.628, "gamma1_z": -0.047, "gamma2_0": 0.317, "gamma2_z": -0.893, "norm": 1.0}
    P = {k: ctx.real(k, v - 0.2 * abs(v), v + 0.2 * abs(v)) for k, v in names.items()}
    c = ctx.c

    def ex(Q):
        ev = lambda k: Q[k + "_0"] * (1 + z) ** Q[k + "_z"]
        xi = 1e10 / m
        sig = D * c(22.26) * xi ** c(0.292) / (1 + c(1.53) * xi ** c(0.275) + c(3.36) * xi ** c(0.198))
        y = 1 + z
        nu0 = (c(4.135) - c(0.564) * y - c(0.21) * y**2 + c(0.0557) * y**3 - c(0.00348) * y**4) / D
        if nu0 <= 0:
            return None
        q = dc / sig / nu0
        return Q["norm"] * ev("c0") * q ** (-ev("gamma1")) * (1 + q ** (1 / ev("beta"))) ** (-ev("beta") * (ev("gamma2") - ev("gamma1")))

    k = lambda m=m, **p: mk(ctx, C.Ludlow16Empirical, growth=gr, delta_c=dc, **p).cm(m, z)
    e = ex(P)
    if e is None:
        ctx.assume(False)
    ctx.eq("Ludlow et al. (2016) eqs C1-C6", k(**P), e)
    ctx.eq("published parameters", k(), ex(c(names)))
    ctx.eq("in any order of masses", k(m[::-1], **P), k(**P)[::-1])


def bullock(ctx):
    """Collapse redshift: D(z_c) sigma(F m) = delta_c, never below the redshift of the halo."""
    m, z = masses(ctx)
    if ctx.choice("masses", ["ascending", "descending"]) == "descending":
        m = m[::-1]
    A, dc = ctx.real("A", 1e-4, 1e4), ctx.real("delta_c", 1.2, 2)
    F, K, norm = ctx.real("F", 0.001, 0.1), ctx.real("K", 1, 6), ctx.real("norm", 0.2, 3)
    rho = ctx.real("rho", 1e10, 1e12)
    class Lin(Filt):
        def mass_to_radius(self, m, rho):
            return m / rho

    fl = Lin(A, 1, rho)
    for P in (ctx.choice("params", [{"F": F, "K": K, "norm": norm}, {}]),):
        Q = {**ctx.c({"F": 0.01, "K": 3.4, "norm": 1.0}), **P}
        c = mk(ctx, C.Bullock01, growth=Growth(), filt=fl, cosmo=Csm(rho), delta_c=dc, **P).cm(m, z)
        ctx.same_shape("one concentration per mass", c, (2,))
        for i in range(2):
            s = dc / fl.sigma(fl.mass_to_radius(Q["F"] * m[i], rho))
            ctx.assume(s > 0.25)  # collapse before z=45 is outside the bound
            zc = 0 if s > 1 else 60 * (1 - s)
            zc = z if zc < z else zc
            ctx.eq(f"c = norm K (1+z_c)/(1+z) ({'given' if P else 'default'} parameters)", c[i], Q["norm"] * Q["K"] * (1 + zc) / (1 + z), rtol=1e-6)


class _Min:
    success = True

    def __init__(self, x):
        self.x = np.array([x], dtype=object) if isinstance(x, T.R) else np.array([x])


def mass_nl(ctx):
    """sigma(M*) D(z) = delta_c; and it is the pivot of the power law when none is given."""
    m, z = masses(ctx)
    A, p, dc = ctx.real("A", 1, 6), ctx.real("p", 0.4, 1.2), ctx.real("delta_c", 1.2, 2)
    gr, D = growth_of(ctx, z, 0.3)
    rho = ctx.real("rho", 1e10, 1e12)
    ctx.assume(A * D > dc)
    fl = Filt(A, p, rho)
    r = (A * D / dc) ** (1 / p)
    star = fl.radius_to_mass(r, rho)
    cm = mk(ctx, C.Bullock01Power, growth=gr, filt=fl, cosmo=Csm(rho), delta_c=dc)
    if ctx.sym:
        m0 = C.minimize

        def stub(f, x0, *a, **k):
            # the minimiser of a non-negative objective with a root
            ln = np.log(r)
            ctx.eq("objective vanishes at sigma D = delta_c", f(_Min(ln).x[0]), 0)
            off = ctx.real("off", 0.1, 1)
            ctx.pos("objective is positive elsewhere", f(ln + off))
            ctx.pos("objective is positive below", f(ln - off))
            return _Min(ln)

        C.minimize = stub
        try:
            ms, c = cm.mass_nonlinear(z), cm.cm(m, z)
        finally:
            C.minimize = m0
    else:
        ms, c = cm.mass_nonlinear(z), cm.cm(m, z)
    ctx.eq("sigma(M*) D(z) = delta_c", ms, star, rtol=2e-2)
    ctx.eq("pivot mass is M*(z)", c, ctx.c(9.0) * (m / star) ** ctx.c(-0.13) / (1 + z), rtol=1e-2)


class OwnNorm:
    """A growth factor known up to a normalisation that differs between calls."""

    def __init__(self, ctx, D):
        self.ctx, self.D, self.n = ctx, D, 0

    def growth_factor(self, z):
        self.n += 1
        return self.ctx.real(f"growth{self.n}", 0.5, 2) * self.D(z)


def ludlow(scalar):
    """The implicit relation at a concentration where both sides are made equal."""

    def h(ctx):
        f, Cc = ctx.real("f", 0.01, 0.1), ctx.real("C", 300, 1000)
        om = ctx.real("Om0", 0.2, 0.4)
        ol, z = ctx.real("Ode0", 0.6, 0.8), ctx.real("z", 0, 1)
        dc, m0 = ctx.real("delta_c", 1.2, 2), ctx.real("m0", 1e10, 1e13)
        rho, norm = ctx.real("rho", 1e10, 1e12), ctx.real("norm", 0.5, 2)
        q = ctx.real("q", 4, 300)
        if ctx.sym:
            q1, q2 = ctx.real("q1", 0.2, 0.9), ctx.real("q2", 400, 2e4)
            h1 = ctx.real("h1", 0.1, 1)
            h10 = h1 * 1000 * (q1 * om + ol) / (q * om + ol)
            tab = {1: h1, 10: h10, 100: h10 * 1000 * (q * om + ol) / (q2 * om + ol)}
            hh = lambda c: ctx.arr([tab[round(float(x))] for x in c]) if isinstance(c, np.ndarray) else tab[round(float(c))]
        else:
            hh = lambda c: np.log(1 + c) - c / (1 + c)
        lhs = hh(1) / hh(10)
        # the overdensity that puts the formation time of c=10 at (1+z_f) = q^(1/3)
        delta = (q * om + ol) * Cc / ((om * (1 + z) ** 3 + ol) * 1000 * lhs)
        zf = q ** ctx.c(0.33333) - 1
        D = lambda z: 1 / (1 + z)
        num = dc * (zf - z)
        ctx.assume(q > (1 + z) ** 3)
        e = ctx.real("e", 0.01, 50) if ctx.sym else num / sps.erfcinv(lhs)
        if ctx.sym:
            ctx.assume(T.cmp("eq", T.const(1) - T.fn("erf", num / e), T.lift(lhs)))
        S = ctx.real("S", 0.1, 5)

        class Lin:
            """A variance falling linearly with mass, with the slope that makes both sides of eq 7 equal at c=10."""

            def mass_to_radius(self, m, rho):
                return m / rho

            def sigma(self, r):
                return (S + e**2 / 2 * (1 - r * rho / m0) / (1 - f)) ** 0.5

        fl = Lin()

        class MD(SOCritical):
            def __init__(self):
                self.params = {"overdensity": 200}

            def halo_overdensity_crit(self, zz, cosmo):
                return delta if zz is z else 1e9

        # hmf normalises its growth factor by an amount that depends on the redshifts asked for
        G = lambda: OwnNorm(ctx, D)
        k = C.Ludlow16(cosmo=Csm(rho, om, ol), filter0=fl, growth=G(), delta_c=dc, profile=Prof(hh), mdef=MD(), f=f, C=Cc, norm=norm)
        c = k.cm(m0 if scalar else ctx.arr([m0]), z)
        ctx.eq("both sides of eqs 6-7 agree at the concentration returned", c, norm * 10, rtol=3e-3)

    return h


def ludlow_cells(ctx):
    """Wherever both sides start and end, the result lies where they cross, or at the end of the table; one mass or many alike."""
    om, ol, z = ctx.real("Om0", 0.2, 0.4), ctx.real("Ode0", 0.6, 0.8), ctx.real("z", 0, 1)
    f, Cc, dc = 0.02, 650, ctx.real("delta_c", 1.2, 2)
    norm, rho = ctx.real("norm", 0.5, 2), ctx.real("rho", 1e10, 1e12)
    cs = 10.0 ** np.arange(3)
    D = lambda z: 1 / (1 + z)
    e = [ctx.real("e0", 0.02, 1), ctx.real("e1", 0.02, 1)]
    m = [10**12, 10**13]
    if ctx.sym:
        q = [ctx.real(f"q{i}", 1.1, 100 * 8**i) for i in range(3)]
        for x in q:
            ctx.assume(x > 1.01)
        h1 = ctx.real("h1", 0.1, 1)
        lhs = [(q[i] * om + ol) / (q[0] * om + ol) / T.const(cs[i]) ** 3 for i in range(3)]
        tab = [h1 / l for l in lhs]
        at = lambda c: tab[int(np.argmin(abs(np.log(float(c) / cs))))]
        hh = lambda c: ctx.arr([at(x) for x in c]) if isinstance(c, np.ndarray) else at(c)
        delta = (q[0] * om + ol) * Cc / (om * (1 + z) ** 3 + ol)
    else:
        hh = lambda c: np.log(1 + c) - c / (1 + c)
        delta = ctx.real("delta", 50, 3e4)

    class Step:
        """Masses are told apart by their ratio, so that nothing depends on rounding."""

        def mass_to_radius(self, m, rho):
            return np.asarray(m, dtype=float) if isinstance(m, np.ndarray) else float(m)

        def sigma(self, r):
            tab = {2e10: 0, 1e12: None, 2e11: 1, 1e13: None}
            one = lambda x: (1 + e[tab[round(float(x))]] ** 2 / 2) ** 0.5 if tab[round(float(x))] is not None else 1.0
            return ctx.arr([one(x) for x in r]) if isinstance(r, np.ndarray) and r.ndim else one(r)

    class MD(SOCritical):
        def __init__(self):
            self.params = {"overdensity": 200}

        def halo_overdensity_crit(self, zz, cosmo):
            return delta

    def arg(c, e):
        brk = (delta * c**3 * hh(1) / hh(c) / Cc * (om * (1 + z) ** 3 + ol) - ol) / om
        if not brk > 1:
            return None
        x = dc * (brk ** ctx.c(0.33333) - 1 - z) / e
        return hh(1) / hh(c) - (1 - (T.fn("erf", x) if ctx.sym else sps.erf(x)))

    if ctx.sym:
        a, b = ([arg(x, y) for x in cs] for y in e)
        ctx.true("everything defined", all(x is not None for x in a + b))
        for x in a + b:
            ctx.assume(x != 0)

    mk_ = lambda: C.Ludlow16(cosmo=Csm(rho, om, ol), filter0=Step(), growth=OwnNorm(ctx, D), delta_c=dc, profile=Prof(hh), mdef=MD(), norm=norm)
    many = mk_().cm(np.array(m, dtype=float), z)
    ctx.same_shape("one concentration per mass", many, (2,))
    ctx.eq("integer masses are masses", mk_().cm(np.array(m), z), many)
    ctx.eq("in any order of masses", mk_().cm(np.array(m[::-1], dtype=float), z), many[::-1])
    one = mk_().cm(float(m[1]), z)
    ctx.same_shape("a single mass has a single concentration", one, ())
    ctx.eq("a single mass like one among many", one, many[1])
    ctx.eq("a single integer mass", mk_().cm(m[1], z), many[1])

    c = many[0] / norm
    if ctx.sym:
        pos = [bool(x > 0) for x in a]
        cells = [(cs[i], cs[i + 1]) for i in range(2) if pos[i] != pos[i + 1]]
        if not cells:
            ctx.eq("no crossing: the end of the table", c, ctx.c(cs[0] if pos[0] else cs[-1]))
        else:
            inside = any(bool(c >= T.const(lo) * (1 - 1e-9)) and bool(c <= T.const(hi) * (1 + 1e-9)) for lo, hi in cells)
            ctx.true("the result lies where the two sides cross", inside)
    else:
        grid = np.logspace(0, 2, 2000)
        a = np.array([np.nan if (x := arg(g, e[0])) is None else x for g in grid])
        ok = ~np.isnan(a)
        ctx.assume(bool(ok.any()))
        a, grid = a[ok], grid[ok]
        s = a > 0
        x = grid[:-1][s[:-1] != s[1:]]
        if not len(x):
            # near the threshold the table of the implementation and this one may differ
            if abs(a).min() > 1e-3:
                ctx.true("no crossing: the end of the table", bool(abs(c / (grid[0] if s[0] else grid[-1]) - 1) < 0.03))
        else:
            ctx.true("the result lies where the two sides cross", bool(abs(c / x - 1).min() < 0.03))


def deprecated(ctx):
    """The deprecated names are the relations they stand for."""
    import warnings

    m, z = masses(ctx)
    dc, q = ctx.real("delta_c", 1.2, 2), ctx.real("beta_0", 0.2, 0.4)
    gr, _ = growth_of(ctx, z, 0.1)
    ctx.assume(z < 1)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = [mk(ctx, k, growth=gr, delta_c=dc, beta_0=q).cm(m, z) for k in (C.Ludlow16Empirical, C.Ludlow2016Empirical)]
        ctx.eq("Ludlow2016Empirical is Ludlow16Empirical", got[1], got[0])
        o = mk(ctx, C.Ludlow2016, f=q)
    ctx.eq("Ludlow2016 takes its parameters", o.params["f"], q)
    ctx.true("and is Ludlow16 otherwise", isinstance(o, C.Ludlow16) and o.params["C"] == C.Ludlow16._defaults["C"] and type(o).cm is C.Ludlow16.cm)


def default_growth(ctx):
    """Without a growth factor given, that of the cosmology given is used (and its mass definition is the native one)."""
    m, z = masses(ctx)
    om, ol = ctx.real("om", 0.2, 0.4), ctx.real("ol", 0.6, 0.8)
    seen = []
    g0 = C.GrowthFactor

    def stub(cosmo=None, **kw):
        seen.append((cosmo, kw))
        return Growth()

    C.GrowthFactor = stub
    try:
        csm = Csm(ctx.real("rho", 1e10, 1e12), om, ol)
        csm.cosmo = Csm(1.0, om, ol)
        cm = C.Ludlow16Empirical(cosmo=csm, profile=Prof(None))
    finally:
        C.GrowthFactor = g0
    ctx.true("growth of the cosmology given", len(seen) == 1 and seen[0][0] is csm.cosmo and not seen[0][1])
    ctx.eq("mean density of the cosmology given", cm.mean_density0, csm.mean_density0)
    ctx.true("native mass definition", cm.mdef == cm.native_mdefs[0])


def interp(ctx):
    """The interpolating wrapper: unchanged where the base relation is defined, positive elsewhere."""
    n = 4
    m = ctx.increasing("m", n, 1e9, 1e15)
    z = ctx.real("z", 0, 3)
    pat = ctx.choice("undefined", [0, 1, 3, 8, 9, 2, 6, 15])
    cs = [0 if pat >> i & 1 else ctx.real(f"c{i}", 1, 40) for i in range(n)]
    seen = []

    class Base(C.CMRelation):
        _defaults = {"q": 1.0}
        native_mdefs = (SOCritical(),)

        def cm(self, mm, z=0):
            seen.append(z)
            return ctx.arr(cs) if isinstance(mm, np.ndarray) else one

    one = ctx.real("one", 1, 40) if ctx.choice("single mass", ["defined", "undefined"]) == "defined" else 0
    q = ctx.real("q", 0, 1)
    I = C.interp_concentration(Base)
    k = I(cosmo=Csm(1e11), growth=Growth(), profile=Prof(None), mdef=SOCritical(), q=q)
    c = k.cm(m, z)
    ctx.eq("redshift reaches the base relation", seen[-1], z)
    ctx.eq("parameters reach the base relation", k.params["q"], q)
    k.cm(m)
    ctx.eq("redshift defaults to zero", seen[-1], 0)
    ctx.pos("positive everywhere", c)
    good = [i for i in range(n) if not pat >> i & 1]
    for i in range(n):
        if i in good:
            ctx.eq("unchanged where the base relation is defined", c[i], cs[i])
        elif good and good[0] < i < good[-1]:
            a, b = max(j for j in good if j < i), min(j for j in good if j > i)
            ctx.eq("linear in mass across a gap", c[i], cs[a] + (cs[b] - cs[a]) * (m[i] - m[a]) / (m[b] - m[a]))
        else:
            ctx.eq("unity outside the range of definition", c[i], 1)
    ctx.eq("a single mass", k.cm(m[0], z), one if one != 0 else 1)
    ctx.true("native mass definitions are those of the base", I.native_mdefs == Base.native_mdefs)


def colossus(ctx):
    m, z = masses(ctx)
    got, cos = [], []
    world = ColossusWorld(C)
    norm = ctx.real("norm", 0.2, 3)

    class Stub:
        models = C.concentration.models

        @staticmethod
        def concentration(M, mdef, z, model, **k):
            got.append((M, mdef, z, model, k))
            cos.append(world.now)
            return M / 1e10

    c0 = C.concentration
    C.concentration = Stub
    world.__enter__()
    try:
        cls = C.make_colossus_cm("duffy08", statistic="median")
        csm = Csm(1e11)
        s8, ns = ctx.real("s8", 0.5, 1), ctx.real("ns", 0.8, 1.1)
        k = cls(norm=norm, cosmo=csm, growth=Growth(), profile=Prof(None), mdef=SOMean(), sigma_8=s8, ns=ns)
        c = k.cm(m, z)
        csm2, t8, nt = Csm(2e11), ctx.real("t8", 0.5, 1), ctx.real("nt", 0.8, 1.1)
        k2 = C.make_colossus_cm("diemer19")(cosmo=csm2, growth=Growth(), profile=Prof(None), mdef=SOCritical(), sigma_8=t8, ns=nt)
        for x in (k, k2, k):
            x.cm(m, z)
    finally:
        world.__exit__()
        C.concentration = c0
    ctx.eq("norm times colossus", c, norm * m / 1e10)
    ctx.eq("redshift", got[0][2], z)
    ctx.true("mass definition, model and options", got[0][1] == "200m" and got[0][3] == "duffy08" and got[0][4]["statistic"] == "median")
    for i, (a, b, d) in enumerate([(csm, s8, ns), (csm, s8, ns), (csm2, t8, nt), (csm, s8, ns)]):
        ctx.true("the relation's own cosmology, whichever others were made", cos[i] is not None and cos[i][0] is a.cosmo)
        ctx.eq("sigma_8 and n_s, whichever others were made", ctx.arr([cos[i][1], cos[i][2]]), ctx.arr([b, d]))
    ctx.true("native definitions follow the model", tuple(x.colossus_name for x in cls.native_mdefs) == tuple(C.from_colossus_name(d).colossus_name for d in c0.models["duffy08"].mdefs))


class Rec:
    def __init__(self, **k):
        self.__dict__.update(k)


def wiring(ctx):
    """The halo model builds the relation and the profile from its own current quantities."""
    dc, s8, n, z = ctx.real("delta_c", 1.2, 2), ctx.real("sigma_8", 0.5, 1), ctx.real("n", 0.8, 1.1), ctx.real("z", 0, 3)
    q, q2 = ctx.real("q", 0, 1), ctx.real("q2", 0, 1)
    fl = Filt(1, 1, 1)
    fl.power = "power at z"
    growth, mdef, nu_fn = Growth(), Token("mdef"), Token("nu_fn")

    class Cm(C.CMRelation):
        _defaults = {"q": 0}
        native_mdefs = (mdef,)

    from astropy.cosmology import Planck15

    hm = fake(
        HM.DMHaloModel, filter=fl, _power0="power at z=0", halo_profile_model=Rec, halo_profile_params={"q2": q2}, mdef=mdef, z=z, nu_fn=nu_fn,
        halo_concentration_model=Cm, halo_concentration_params={"q": q}, growth=growth, delta_c=dc, cosmo=Planck15, sigma_8=s8, n=n,
    )
    k = hm.halo_concentration
    ctx.true("variance from the power at z=0", k.filter.power == "power at z=0" and fl.power == "power at z")
    ctx.true("growth, mass definition and cosmology", k.growth is growth and k.mdef is mdef and k.cosmo.cosmo is Planck15)
    ctx.eq("delta_c, sigma_8, n_s", ctx.arr([k.delta_c, k.sigma_8, k.ns]), ctx.arr([dc, s8, n]))
    ctx.eq("concentration parameters", k.params["q"], q)
    for p, what in ((k.profile, "reference profile"), (hm.halo_profile, "halo profile")):
        ctx.true(f"{what}: mass definition and peak-height function", p.mdef is mdef and p.nu_fn is nu_fn)
        ctx.eq(f"{what}: redshift", p.z, z)
        ctx.eq(f"{what}: parameters", p.q2, q2)
    ctx.true("halo profile uses the model's concentration", hm.halo_profile.cm_relation is hm.halo_concentration)


def harnesses(tier="quick"):
    return [
        H("Bullock01Power", power("Bullock01Power", {"a": 9.0, "b": -0.13, "c": 1.0, "ms": None, "norm": 1.0}), bounds="2 masses, z in [0,4]"),
        H("Zehavi11", power("Zehavi11", {"a": 11.0, "b": -0.13, "c": 1.0, "ms": 2.26e12, "norm": 1.0})),
        H("Duffy08", duffy, bounds="three mass definitions x two samples"),
        H("Maccio07", maccio), H("Ludlow16Empirical", lud_emp),
        H("Bullock01", bullock, grid=3, max_paths=300, bounds="linear growth factor, power-law variance"),
        H("mass-nonlinear", mass_nl, bounds="power-law variance; minimiser replaced by its contract"),
        H("Ludlow16-vector", ludlow(False), grid=3, logthin=True, bounds="grid of concentrations thinned to 1, 10, 100; NFW, EdS growth"),
        H("Ludlow16-scalar", ludlow(True), grid=3, logthin=True),
        H("Ludlow16-crossing", ludlow_cells, grid=3, logthin=True, max_paths=400, bounds="grid of concentrations thinned to 3; variances that are equal at the masses and free below"),
        H("interpolated", interp, bounds="4 masses, 8 patterns of undefined concentrations"),
        H("colossus", colossus), H("deprecated", deprecated), H("default-growth", default_growth), H("wiring", wiring),
    ]
