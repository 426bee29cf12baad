"""C15: two-point statistics of matter: halo-model terms, transforms between them and their limits."""
import math
import warnings

import numpy as np
from hmf.density_field.filters import TopHat

import halomod.halo_exclusion as HX
import halomod.halo_model as HM
import halomod.tools as TL

from .common import H, Token, contract, fake, snapshot, unchanged
from .hm2pt import DLM, K, M, RT, Prof, RecExcl, same_fn, spl, transform, vals, zero

DM = HM.DMHaloModel
NM, NK, NR = len(M), len(K), len(RT)
LN10 = np.log(10)


def base(ctx, **k):
    d = dict(
        m=M, k=K, _r_table=RT, dlog10m=DLM, dndm=vals(ctx, "n", NM, 0.1, 2),
        mean_density0=ctx.real("rho0", 1e10, 1e11), halo_overdensity_mean=ctx.real("delta", 100, 500),
    )
    d.update(k)
    return d


# ---------------------------------------------------------------- one-halo term
def power_1h(turnover):
    def f(ctx):
        d = base(ctx)
        u = vals(ctx, "u", (NK, NM), 0.05, 1)
        kq = np.array([K[1], K[2], K[0] / 9, K[3] * 9])
        hm = fake(DM, **d, halo_profile_ukm=u, force_1halo_turnover=turnover, k_hm=kq)
        su, sn = snapshot(u), snapshot(d["dndm"])
        fn = hm.power_1h_auto_matter_fnc
        table = []
        for i in range(NK):
            # haloes smaller than a tenth of the half wavelength are left out
            mlim = 4 * HM.np.pi / 3 * d["mean_density0"] * d["halo_overdensity_mean"] * (HM.np.pi / ctx.c(K[i]) / 10) ** 3
            for v in M:  # not within rounding of a tabulated mass, next to which the interpolation has a knot
                ctx.assume(abs(mlim / v - 1) > 1e-6) if turnover else None
            xmin = M[0] if not turnover or bool(mlim <= M[0]) else mlim
            table.append(TL.spline_integral(M, d["dndm"] * ctx.arr([m**2 for m in M]) * u[i] ** 2, xmin=xmin) / d["mean_density0"] ** 2)
        want = spl(K, ctx.arr(table), zero if turnover else "boundary", "power_law")
        same_fn(ctx, "1-halo power", fn, want, K)
        if turnover:
            ctx.eq("no 1-halo power on scales beyond the table", fn(np.array([K[0] / 100]))[0], 0)
        else:
            ctx.eq("constant 1-halo power on the largest scales", fn(np.array([K[0] / 100]))[0], table[0])
        ctx.eq("reported at the halo-model wavenumbers", hm.power_1h_auto_matter, ctx.arr([want(np.array([q]))[0] for q in kq]))
        unchanged(ctx, "profile table not modified", u, su)
        unchanged(ctx, "mass function not modified", d["dndm"], sn)

    return f


def corr_1h(lam):
    def f(ctx):
        d = base(ctx)
        old = TL.hankel_transform
        if lam:
            L = vals(ctx, "l", (NR, NM), 0.05, 1)
            hm = fake(DM, **d, halo_profile=Prof(True), halo_profile_lam=L, r=RT[1:3])
            w = [0.5] + [1] * (NM - 2) + [0.5]
            table = ctx.arr([sum(ctx.c(w[j]) * d["dndm"][j] * M[j] ** 3 * L[i, j] for j in range(NM)) * np.log(ctx.c(10.0)) * DLM / d["mean_density0"] ** 2 - 1 for i in range(NR)])
        else:
            # a positive transform, whose value at each separation is one of the power spectrum's
            p = vals(ctx, "p", NK, 1, 3)
            pf = spl(K, p, "boundary", "power_law")
            hm = fake(DM, **d, halo_profile=Prof(False), halo_profile_lam=None, power_1h_auto_matter_fnc=pf, r=RT[1:3])
            TL.hankel_transform = contract(old, lambda fn, v, name, *k: ctx.arr([(fn(K[i : i + 1])[0] * (i + 2)) if name == "r" else 0 for i in range(len(v))]))
            table = ctx.arr([p[i] * (i + 2) - 1 for i in range(NR)])
        try:
            fn = hm.corr_1h_auto_matter_fnc
            for i in range(NR):
                ctx.eq(f"1-halo correlation at a tabulated separation[{i}]", fn(RT[i : i + 1])[0], table[i])
            ctx.eq("constant beyond the table (minus one, where pairs have died out)", fn(np.array([RT[-1] * 50]))[0], table[-1])
            if not lam:
                ctx.eq("power law below the table", fn(np.array([RT[0] / 5]))[0], spl(RT, table, "power_law", "boundary")(np.array([RT[0] / 5]))[0])
            ctx.eq("reported at the separations of the model", hm.corr_1h_auto_matter, ctx.arr([table[1], table[2]]))
        finally:
            TL.hankel_transform = old

    return f


# ---------------------------------------------------------------- linear, non-linear
def mm_power(which):
    def f(ctx):
        p = vals(ctx, "p", NK, 0.1, 100)
        n = ctx.real("n", 0.5, 1.5)
        other = vals(ctx, "other", NK, 0.1, 100)
        hm = fake(DM, k=K, n=n, power=p if which == "linear" else other, nonlinear_power=other if which == "linear" else p)
        fn = getattr(hm, f"{which}_power_fnc")
        same_fn(ctx, f"{which} power", fn, spl(K, p, "boundary", "power_law"), K, lo=False)
        q = ctx.real("q", 1e-6, 0.04)
        ctx.eq("large scales: matched power of the spectral index", fn(ctx.arr([q]))[0], p[0] * (q / ctx.c(K[0])) ** n)

    return f


def corr_mm(ctx):
    p, q = vals(ctx, "p", NK, 0.1, 100), vals(ctx, "q", NK, 0.1, 100)
    f, g = spl(K, p, "boundary", "power_law"), spl(K, q, "boundary", "power_law")
    with transform(ctx) as tr:
        hm = fake(DM, _r_table=RT, linear_power_fnc=f, nonlinear_power_fnc=g, r=RT[1:])
        for name, fn, pw, at in (("linear", hm.corr_linear_mm_fnc, f, hm.corr_linear_mm), ("halofit", hm.corr_halofit_mm_fnc, g, hm.corr_halofit_mm)):
            want = spl(RT, tr(pw, RT, "r"), "power_law", zero)
            same_fn(ctx, f"{name} correlation", fn, want, RT)
            ctx.eq(f"{name}: zero beyond the table", fn(np.array([RT[-1] * 3]))[0], 0)
            ctx.eq(f"{name}: at the separations of the model", at, tr(pw, RT, "r")[1:])
        for hc, want in (("linear", "corr_linear_mm_fnc"), ("nonlinear", "corr_halofit_mm_fnc"), ("filtered-nl", "corr_halofit_mm_fnc")):
            h2 = fake(DM, hc_spectrum=hc, corr_linear_mm_fnc="corr_linear_mm_fnc", corr_halofit_mm_fnc="corr_halofit_mm_fnc")
            ctx.true(f"base correlation of {hc}", h2._corr_mm_base_fnc == want)


HC = ("linear", "nonlinear", "filtered-lin", "filtered-nl")


def halo_centres(hc, kk, at):
    """`at`: index of the first wavenumber at which the filter is not positive (None: not on this grid)."""

    def f(ctx):
        n = len(kk)
        p, q = vals(ctx, "p", n, 0.1, 100), vals(ctx, "q", n, 0.1, 100)
        lin, nl = spl(kk, p, "boundary", "power_law"), spl(kk, q, "boundary", "power_law")
        hm = fake(DM, k=kk, hc_spectrum=hc, power=p, nonlinear_power=q, linear_power_fnc=lin, nonlinear_power_fnc=nl)
        sp, sq = snapshot(p), snapshot(q)
        fn = hm._power_halo_centres_fnc
        if "filtered" not in hc:
            same_fn(ctx, "unfiltered halo-centre power", fn, lin if hc == "linear" else nl, kk)
            return
        tab, R, low = (p, 2.0, lin) if hc == "filtered-lin" else (q, 3.0, nl)
        w = TopHat(None, None).k_space(kk * R)
        for i in range(n):
            ctx.eq(f"halo-centre power is filtered and ends at the first zero of the filter[{i}]", fn(kk[i : i + 1])[0], tab[i] * ctx.c(w[i]) if at is None or i < at else 0, atol=1e-9)
        ctx.eq("large scales: unfiltered", fn(np.array([kk[0] / 10]))[0], low(np.array([kk[0] / 10]))[0])
        ctx.eq("nothing beyond the table", fn(np.array([90.0]))[0], 0)
        unchanged(ctx, "power not modified", p, sp)
        unchanged(ctx, "non-linear power not modified", q, sq)

    return f


# ---------------------------------------------------------------- two-halo term
def exclusion_wiring(sd):
    def f(ctx):
        d = base(ctx)
        u = vals(ctx, "u", (NK, NM), 0.05, 1)
        b = vals(ctx, "b", NM, 0.5, 3)
        s = vals(ctx, "s", NR, 0.5, 1.5)
        mh, t = ctx.real("mdh", 1, 5), ctx.real("xpar", 0, 1)
        hm = fake(DM, **d, halo_profile_ukm=u, halo_bias=b, sd_bias_correction=s if sd else None, sd_bias_model=object if sd else None,
                  mean_density_in_halos=mh, exclusion_model=RecExcl, exclusion_params={"par": t})
        x = hm._matter_exclusion
        n = [d["dndm"][i] * M[i] / mh for i in range(NM)]
        ctx.eq("density per mass: matter in haloes over its mean", x.density, ctx.arr(n))
        ctx.eq("density times the halo profile, by wavenumber", x.power_integrand, ctx.arr([n[j] * u[i, j] for i in range(NK) for j in range(NM)]).reshape(NK, NM))
        if sd:
            ctx.eq("bias by separation and mass", x.bias, ctx.arr([s[i] * b[j] for i in range(NR) for j in range(NM)]).reshape(NR, NM))
        else:
            ctx.eq("bias by mass", x.bias, b)
        ctx.eq("masses", x.m, M)
        ctx.eq("separations of the table", x.r, RT)
        ctx.eq("halo density", x.halo_density, d["halo_overdensity_mean"] * d["mean_density0"])
        ctx.eq("model parameters", x.par, t)
        ctx.true("no minimum mass", x.kw.get("xmin") is None)

    return f


def prim_setup(ctx, by_r, sd, debias, noexcl, hc, modarr):
    class X(RecExcl):
        pass

    nr = NR if by_r else 1
    I = vals(ctx, "I", (nr, NK), 0.1, 2)
    X.out = staticmethod(lambda: I.copy())
    X.mod = vals(ctx, "mod", nr, 0.1, 1) if modarr else 1
    b = vals(ctx, "b", (NR, NM) if sd else NM, 0.5, 3)
    dens = vals(ctx, "d", NM, 0.1, 1)
    ex = X(m=M, density=dens, bias=b)
    phh = vals(ctx, "h", NK, 0.1, 10)
    lin = vals(ctx, "L", NK, 0.1, 10)
    linf = spl(K, lin, TL._PowerLawK(1), "power_law")
    eff = ctx.real("eff", 0.5, 2)
    kw = dict(k=K, _r_table=RT, k_hm=K[1:], _power_halo_centres_fnc=spl(K, phh, "boundary", "power_law"), linear_power_fnc=linf,
              exclusion_model=HX.NoExclusion if noexcl else HX.DblSphere, hc_spectrum=hc, sd_bias_model=object if sd else None)
    tot = []
    for i in range(nr):
        sc = X.mod[i] if modarr else 1
        if debias:
            bb = [b[-1, j] for j in range(NM)] if sd else [b[j] for j in range(NM)]
            sc = sc * (eff / TL.spline_integral(M, dens * ctx.arr(bb))) ** 2
        tot.append(ctx.arr([I[i, j] * sc * phh[j] for j in range(NK)]))
    up = "power_law" if noexcl and "filtered" not in hc else zero
    return ex, eff, kw, tot, linf, up, X


CASES = {  # by_r, sd, debias, noexcl, hc, modarr
    "plain": (False, False, False, True, "linear", False),
    "plain-unbiased": (False, False, True, True, "nonlinear", False),
    "filtered": (False, False, False, True, "filtered-lin", False),
    "scale-dependent": (True, True, True, True, "linear", False),
    "excluded": (True, False, True, False, "linear", True),
    "excluded-sd": (True, True, False, False, "nonlinear", True),
}


def primitive(case):
    def f(ctx):
        _, _, debias, _, _, _ = CASES[case]
        ex, eff, kw, tot, linf, up, X = prim_setup(ctx, *CASES[case])
        hm = fake(DM, **kw)
        out = hm._get_power_2h_primitive(ex, eff, debias=debias)
        ctx.true("one function per separation", len(out) == len(tot))
        for i, (g, t) in enumerate(zip(out, tot)):
            want = spl(K, t, linf, up)
            for j in range(NK):
                ctx.eq(f"2-halo power: integral, modified density, debiasing, halo centres[{i},{j}]", g(K[j : j + 1])[0], t[j])
            ctx.eq(f"large scales follow the linear power[{i}]", g(np.array([K[0] / 5]))[0], t[0] * linf(np.array([K[0] / 5]))[0] / linf(np.array([K[0]]))[0])
            ctx.eq(f"small scales[{i}]", g(np.array([K[-1] * 5]))[0], want(np.array([K[-1] * 5]))[0])
        d0 = hm._get_power_2h_primitive(ex, eff)
        if debias:
            ctx.eq("debiasing is the default", d0[0](K[1:2])[0], tot[0][1])

    return f


def corr_2h(case):
    def f(ctx):
        ex0, eff, kw, tot, linf, up, X = prim_setup(ctx, *CASES[case])
        debias, noexcl = CASES[case][2], CASES[case][3]
        if noexcl:
            # an instance of the model itself decides how small separations continue
            class N(X, HX.NoExclusion):
                density_mod = property(lambda self: X.mod)
                integrate = lambda self: X.out()

            ex = N.__new__(N)
            ex.__dict__.update(ex0.kw)
        else:
            ex = ex0
        with transform(ctx) as tr:
            hm = fake(DM, **kw)
            fs = [spl(K, t, linf, up) for t in tot]
            tab = tr(fs if len(fs) > 1 else fs[0], RT, "r")
            fn = hm._get_corr_2h_auto_fnc(ex, eff, debias=debias)
            want = spl(RT, tab, "power_law" if noexcl else zero, zero)
            same_fn(ctx, "2-halo correlation", fn, want, RT)
            if not noexcl:
                ctx.eq("no pairs of distinct haloes at the smallest separations", fn(np.array([RT[0] / 100]))[0], 0)
            ctx.eq("zero beyond the table", fn(np.array([RT[-1] * 10]))[0], 0)

    return f


def power_2h(kind):
    def f(ctx):
        p = vals(ctx, "p", 5, 0.1, 10)
        kk = np.array([0.002, 0.05, 0.5, 5.0, 50.0])
        c = vals(ctx, "c", NR, 0.1, 5)
        eff = ctx.real("eff", 0.5, 3)
        got = []

        class Mod(DM):
            def _get_power_2h_primitive(self, ex, e, debias=True):
                got.append(("prim", ex, e, debias))
                return [prim]

            def _get_corr_2h_auto_fnc(self, ex, e, debias=True):
                got.append(("corr", ex, e, debias))
                return corr

        prim = spl(kk, vals(ctx, "prim", 5, 0.1, 10), zero, zero)
        corr = spl(RT, c, zero, zero)
        khm = ctx.choice("k_hm", [np.array([0.001, 0.5, 5.0]), np.array([0.05, 0.5, 5.0])])
        ex = Token("ex")
        with transform(ctx) as tr:
            hm = fake(Mod, k=kk, power=p, k_hm=khm, sd_bias_model=object if kind == "sd" else None,
                      exclusion_model=HX.NoExclusion if kind in ("none", "sd") else HX.Sphere)
            fn = hm._get_power_2h_auto_fnc(ex, eff, debias=False)
            if kind == "none":
                ctx.true("without exclusion the power itself", fn is prim and got == [("prim", ex, eff, False)])
                return
            ctx.true("the correlation of the same exclusion, bias and debiasing", got == [("corr", ex, eff, False)])
            t = tr(corr, kk, "k")
            tab = [p[0] * eff**2] + [t[i] for i in range(1, 5)]
            for i in range(5):
                ctx.eq(f"power is the transform of the correlation; biased linear power on the largest scales[{i}]", fn(kk[i : i + 1])[0], tab[i])
            ctx.eq("no power beyond the table", fn(np.array([500.0]))[0], 0)

    return f


def matter_2h(ctx):
    """Which exclusion, bias and debiasing the matter terms use, and where they are reported."""
    got = []

    class Mod(DM):
        def _get_power_2h_auto_fnc(self, *a, **k):
            got.append(("p", a, k))
            return lambda x: ("p", x)

        def _get_corr_2h_auto_fnc(self, *a, **k):
            got.append(("c", a, k))
            return lambda x: ("c", x)

    force = ctx.choice("force", [True, False])

    class Hmf:
        normalized = True

    class B:
        pair_hmf = (Hmf,)

    ex, bias, r, k = Token("ex"), Token("bias"), Token("r"), Token("k")
    hm = fake(Mod, _matter_exclusion=ex, bias_effective_matter=bias, force_unity_dm_bias=force, hmf=Hmf(), hmf_model=Hmf, bias=B(), bias_model=B, r=r, k_hm=k)
    ctx.true("power at the halo-model wavenumbers", hm.power_2h_auto_matter == ("p", k))
    ctx.true("correlation at the separations of the model", hm.corr_2h_auto_matter == ("c", r))
    for w, a, kk in got:
        kk = dict(kk)
        names = ["exclusion", "effective_bias", "debias"]
        kk.update(zip(names, a))
        ctx.true(f"{w}: matter exclusion, effective bias of matter, debiased when unity is forced", kk["exclusion"] is ex and kk["effective_bias"] is bias and kk["debias"] is force)


def grids(ctx):
    """Separations: those given, or from the minimum to the maximum, evenly spaced (in the logarithm or not); likewise wavenumbers."""
    lo, hi = ctx.real("rmin", 0.01, 1), ctx.real("rmax", 2, 100)
    n = ctx.choice("number", [1, 2, 5])
    log = ctx.choice("log", [True, False])
    r = fake(DM, rmin=lo, rmax=hi, rnum=n, rlog=log).r
    ctx.same_shape("as many as asked for", r, (n,))
    for i in range(n):
        t = ctx.c(i) / max(n - 1, 1)
        ctx.eq(f"separation {i} from the minimum to the maximum", r[i], lo * (hi / lo) ** t if log else lo + (hi - lo) * t)
    given = ctx.reals("r", 3, 0.1, 9)
    got = fake(DM, rmin=given, rmax=hi, rnum=n, rlog=log).r
    ctx.same_shape("those given", got, (3,))
    for i in range(3):
        ctx.eq("those given", got[i], given[i])
    for seq in ((0.5, 2.0, 1.0), [3, 1]):
        got = fake(DM, rmin=seq, rmax=hi, rnum=n, rlog=log).r
        ctx.true("those given, as they are", isinstance(got, np.ndarray) and got.shape == (len(seq),) and all(got[i] == seq[i] for i in range(len(seq))))
    got[0] = 77.0
    ctx.true("a copy of those given", not (isinstance(given[0], float) and given[0] == 77.0))
    for a, b, d in ((-2.0, 2.0, 0.5), (-1.0, 0.9, 0.3)):
        k = fake(DM, hm_logk_min=a, hm_logk_max=b, hm_dlog10k=d).k_hm
        x = [math.log10(float(v)) for v in k]
        ctx.true("wavenumbers step evenly in the logarithm from the minimum", all(abs(v - (a + d * i)) < 1e-9 for i, v in enumerate(x)))
        ctx.true("up to the maximum, not included", x[-1] < b - 1e-9 and x[-1] + d > b - 1e-9)
    t = fake(DM, _extra={"_logr_table_min": -3, "_logr_table_max": 2.5}, dr_table=0.25)._r_table
    x = [math.log10(float(v)) for v in t]
    ctx.true("table of separations steps evenly in the logarithm", all(abs(v - (-3 + 0.25 * i)) < 1e-9 for i, v in enumerate(x)))
    ctx.true("up to the end of the table", abs(x[-1] - 2.25) < 1e-9)


def refuses(ctx):
    """Unknown spectra and empty ranges are refused, others accepted."""
    put = DM.hc_spectrum.fset
    put = getattr(put, "__wrapped__", put)
    o = object.__new__(DM)
    for w in ("linear", "nonlinear", "filtered-lin", "filtered-nl"):
        ctx.true(f"{w} accepted", raised(lambda: put(o, w)) is None)
    for w in ("lin", "", "Linear", "filtered", None):
        ctx.true(f"{w!r} refused", isinstance(raised(lambda: put(o, w)), ValueError))
    for x in (10.0, 300.0, 400.0, 1000.0):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            o = fake(DM, _extra={"_logr_table_max": 2.5})
            getattr(DM.rmax.fset, "__wrapped__", DM.rmax.fset)(o, x)
        ctx.true("a warning when separations extend beyond the table", bool(w) == (x > 10**2.5))
    a, b = ctx.real("a", 0.1, 10), ctx.real("b", 0.1, 10)

    class V(DM):
        pass

    def check(**k):
        d = dict(rmin=0.1, rmax=1.0, r=RT, hm_logk_min=-2.0, hm_logk_max=2.0, k_hm=K, Mmin=10.0, Mmax=15.0, lnk_min=-5.0, lnk_max=5.0, m=M, k=K)
        d.update(k)
        hm = fake(V, _extra={"_logr_table_min": -3, "_logr_table_max": 2.5}, **d)
        return raised(hm.validate)

    up = bool(a < b)
    ctx.true("separations increase", (check(rmin=a, rmax=b) is None) == up)
    ctx.true("wavenumbers increase", (check(hm_logk_min=a, hm_logk_max=b) is None) == up)
    ctx.true("given separations need no maximum", check(rmin=RT, rmax=1e-9) is None)
    ctx.true("some separations", check(r=RT[:0]) is not None)
    ctx.true("some wavenumbers", check(k_hm=K[:0]) is not None)


def raised(f):
    try:
        f()
    except (ValueError, AssertionError) as e:
        return e
    return None


def totals(ctx):
    a, b = vals(ctx, "a", 2, 0, 5), vals(ctx, "b", 2, 0, 5)
    c, d = vals(ctx, "c", 2, -1, 5), vals(ctx, "d", 2, -1, 5)
    f = lambda v: lambda x: v
    hm = fake(DM, power_1h_auto_matter_fnc=f(a), power_2h_auto_matter_fnc=f(b), corr_1h_auto_matter_fnc=f(c), corr_2h_auto_matter_fnc=f(d), k_hm=K, r=RT)
    ctx.eq("power is the sum of the terms", hm.power_auto_matter, a + b)
    ctx.eq("correlation is the sum of the terms, the 1-halo pairs counted once", hm.corr_auto_matter, 1 + c + d)
    ctx.eq("power function", hm.power_auto_matter_fnc(K), a + b)
    ctx.eq("correlation function", hm.corr_auto_matter_fnc(RT), 1 + c + d)


def large_scales(ctx):
    """Where no two points share a halo any more, the matter correlation is the 2-halo term alone."""
    p = vals(ctx, "p", NK, 0.1, 3)
    c = ctx.real("xi2", -0.1, 0.1)
    lam = ctx.choice("profile", [True, False])
    q = ctx.real("r", 20, 1e4)
    old = TL.hankel_transform
    TL.hankel_transform = contract(old, lambda f, v, name, *k: ctx.arr([ctx.c(x) for x in (100.0, 10.0, 1.0, 0.0)]))
    L = np.zeros((NR, NM))
    L[0], L[1], L[2] = 3.0, 2.0, 1.0
    try:
        hm = fake(DM, **base(ctx), halo_profile=Prof(lam), halo_profile_lam=L if lam else None, power_1h_auto_matter_fnc=spl(K, p, "boundary", "power_law"), corr_2h_auto_matter_fnc=lambda x: ctx.arr([c]))
        ctx.eq("only the 2-halo term at large separations", hm.corr_auto_matter_fnc(ctx.arr([q]))[0], c)
    finally:
        TL.hankel_transform = old


def effective_bias(ctx):
    d = base(ctx)
    b = vals(ctx, "b", NM, 0.5, 3)
    rho = vals(ctx, "g", NM, 0.1, 5)
    force = ctx.choice("force", [True, False])
    hm = fake(DM, **d, halo_bias=b, rho_gtm=rho, force_unity_dm_bias=force)
    ctx.eq("mass in haloes is that above the lowest mass", hm.mean_density_in_halos, rho[0])
    want = TL.spline_integral(M, d["dndm"] * b * ctx.arr(list(M))) / rho[0]
    ctx.eq("effective bias of matter", hm.bias_effective_matter, 1 if force else want)
    # an arbitrary weight, from an arbitrary mass
    x, w = ctx.real("xmin", 2e11, 5e14), vals(ctx, "w", NM, 0.1, 1)
    mean = ctx.real("mean", 0.1, 2)
    ctx.eq("naive effective bias", hm._get_naive_bias_effective(w, mean, mmin=x), TL.spline_integral(M, w, xmin=x) / mean)


def simpson(ctx, y, x):
    """Simpson over 3 points of unequal spacing."""
    a, b = x[1] - x[0], x[2] - x[1]
    s = a + b
    return s / 6 * ((2 - b / a) * y[0] + s**2 / (a * b) * y[1] + (2 - a / b) * y[2])


def power_hh(ctx):
    b, n = vals(ctx, "b", NM, 0.5, 3), vals(ctx, "n", NM, 0.1, 2)
    p = vals(ctx, "p", NK, 0.1, 10)
    hm = fake(DM, m=M, halo_bias=b, bias=Token("hm"), dndm=n, Mmin=11, Mmax=13, _power_halo_centres_fnc=spl(K, p, "boundary", "power_law"))
    rng = lambda i: simpson(ctx, [b[j] * n[j] for j in range(i, i + 3)], [ctx.c(v) for v in M[i : i + 3]]) / simpson(ctx, [n[j] for j in range(i, i + 3)], [ctx.c(v) for v in M[i : i + 3]])
    want = lambda u, v: ctx.arr([p[j] * u * v for j in range(NK)])
    ctx.eq("haloes of the whole range of the model", hm.power_hh(K), want(rng(0), rng(0)))
    ctx.eq("haloes of a range", hm.power_hh(K, mmin=12, mmax=14), want(rng(1), rng(1)))
    ctx.eq("second range defaults to the first", hm.power_hh(K, 13, 15), want(rng(2), rng(2)))
    ctx.eq("two ranges", hm.power_hh(K, mmin=11, mmax=13, mmin2=13, mmax2=15), want(rng(0), rng(2)))
    ctx.eq("a single mass", hm.power_hh(K, 12, 12), want(b[1], b[1]))
    ctx.eq("a single mass with a range", hm.power_hh(K, 11, 13, 14, 14), want(rng(0), b[3]))


def sd(ctx):
    xi = vals(ctx, "x", NR, 0.01, 5)
    par = ctx.real("par", 0, 1)

    class S:
        def __init__(self, x, **k):
            self.x, self.k = x, k

        def bias_scale(self):
            return self.x * 2 + 1

    hm = fake(DM, _r_table=RT, corr_halofit_mm_fnc=spl(RT, xi, zero, zero), sd_bias_model=S, sd_bias_params={"par": par})
    ctx.eq("scale dependence from the non-linear correlation at the tabulated separations", hm.sd_bias_correction, xi * 2 + 1)
    ctx.eq("parameters", hm.sd_bias.k["par"], par)
    h0 = fake(DM, _r_table=RT, sd_bias_model=None, sd_bias_params={})
    ctx.true("none without a model", h0.sd_bias is None and h0.sd_bias_correction is None)


def profiles(ctx):
    c = vals(ctx, "c", NM, 1, 20)
    u, rho, lam = Token("u"), Token("rho"), Token("lam")
    pr = Prof(True, u, rho, lam)
    hm = fake(DM, m=M, k=K, _r_table=RT, halo_profile=pr, cmz_relation=c)
    ctx.true("Fourier profile", hm.halo_profile_ukm is u)
    ctx.true("density profile", hm.halo_profile_rho is rho)
    ctx.true("self-convolution", hm.halo_profile_lam is lam)
    for (n, x, m, norm, cc, coord), want in zip(pr.calls, (K, RT, RT)):
        ctx.true(f"{n}: mass-normalised, at the model's table", norm == "m" and coord in ("k", "r") and x is want and m is M)
        ctx.eq(f"{n}: with the model's concentrations", cc, c)
    h0 = fake(DM, m=M, k=K, _r_table=RT, halo_profile=Prof(False, u, rho, lam), cmz_relation=c)
    ctx.true("no self-convolution without one", h0.halo_profile_lam is None)


def harnesses(tier="quick"):
    g = "5 masses, 4 wavenumbers, 4 separations; free mass function, profile, bias and power tables"
    out = [H(f"power-1h-{'turnover' if t else 'plain'}", power_1h(t), bounds=g) for t in (True, False)]
    out += [H(f"corr-1h-{'lam' if t else 'transform'}", corr_1h(t), bounds=g) for t in (True, False)]
    out += [H(f"{w}-power", mm_power(w), bounds=g) for w in ("linear", "nonlinear")]
    out += [H("corr-mm", corr_mm, bounds=g)]
    long, short = np.array([0.05, 0.3, 1.0, 1.9, 2.6, 4.1, 9.0]), np.array([0.05, 0.1, 0.3, 1.0])
    for h in HC:
        out += [H(f"centres-{h}", halo_centres(h, long, {"filtered-lin": 4, "filtered-nl": 3}.get(h)), bounds="7 wavenumbers")]
        if "filtered" in h:
            out += [H(f"centres-{h}-short", halo_centres(h, short, None), bounds="4 wavenumbers, before the filter's first zero")]
    out += [H(f"exclusion-{'sd' if s else 'plain'}", exclusion_wiring(s), bounds=g) for s in (False, True)]
    out += [H(f"primitive-{c}", primitive(c), bounds=g) for c in CASES]
    out += [H(f"corr-2h-{c}", corr_2h(c), bounds=g) for c in ("plain", "scale-dependent", "excluded", "excluded-sd")]
    out += [H(f"power-2h-{c}", power_2h(c), bounds=g) for c in ("none", "sd", "excluded")]
    out += [H("matter-2h", matter_2h), H("totals", totals), H("grids", grids, bounds="1, 2 or 5 separations"), H("refuses", refuses), H("large-scales", large_scales, bounds="any separation beyond the table"), H("effective-bias", effective_bias, bounds=g)]
    out += [H("power-hh", power_hh, bounds=g), H("scale-dependent-bias", sd, bounds=g), H("profile-tables", profiles)]
    return out
