"""C19: angular correlation function (Limber)."""
import warnings

import numpy as np

import halomod.halo_model as HM
import halomod.integrate_corr as IC

from .common import H, constructed, fake

TH = np.array([0.001, 0.01])
NZ, NU = 4, 3
LU = (-1.0, 1.0)
U = np.logspace(*LU, NU)


class Q:
    """A quantity: a value with a unit that multiplies."""

    def __init__(self, v):
        self.value = v

    def __mul__(self, o):
        return Q(self.value * o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return Q(self.value / o)

    def to(self, *a):
        return self

    to_value = lambda self, *a: self.value


class Cosmo:
    """Comoving distance increasing with redshift, an arbitrary expansion history, an arbitrary h."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.h = ctx.real("h", 0.5, 1)
        self.dh = ctx.real("dh", 2000, 5000)
        self.steps = {}
        self.E = ctx.uf("E+", numeric=lambda z: np.sqrt(0.7 + 0.3 * (1 + np.asarray(z, float)) ** 3))
        self.hubble_distance = Q(self.dh)

    def _at(self, f, z):
        if np.ndim(z):
            return self.ctx.arr([f(v) for v in z])
        return f(z)

    def chi(self, z):
        """Affine in redshift with free coefficients: increasing, any values at any two redshifts."""
        if "c" not in self.steps:
            self.steps["c"] = self.ctx.real("chi0", 10, 100), self.ctx.real("chi1", 1000, 4000)
        a, b = self.steps["c"]
        return a + b * z

    def comoving_distance(self, z):
        return Q(self._at(self.chi, z))

    def efunc(self, z):
        return self._at(self.E, z)


class Dist:
    def __init__(self, ctx, name, integral=None, positive=True):
        # Distinct numeric stand-ins, so that a counterexample can tell one distribution from the other.
        k = {"p1": 1.0, "p2": 2.7}.get(name, 1.0)
        self.f = ctx.uf(name + "+", numeric=lambda x: 2 * k + np.cos(k * np.asarray(x, float)))
        self.ctx, self.seen = ctx, []
        if integral is not None:
            self._i = integral
            self.limits = []
            self.integral = self._integral

    def _integral(self, a, b):
        self.limits.append((a, b))
        return self._i

    def __call__(self, x):
        self.seen.append(x)
        return self.ctx.arr([self.f(v) for v in x])


class Xi:
    def __init__(self, ctx):
        self.ctx = ctx
        self.f = ctx.uf("xi", numeric=lambda r: np.asarray(r, float) ** -1.5)
        self.kw = []

    def __call__(self, r, **kw):
        self.kw.append(kw)
        return self.ctx.arr([self.f(v) for v in r])


def limber(ctx, xi, x, w):
    theta, u = TH, U
    out = []
    for t in theta:
        inner = [IC.simpson(ctx.arr([xi.f(IC.np.sqrt(t**2 * x[i] ** 2 + v**2)) * w[i] for v in u]), x=u) for i in range(len(x))]
        out.append(2 * IC.simpson(ctx.arr(inner), x=ctx.arr(x)))
    return out


def args(ctx, p1, **k):
    z0, z1 = ctx.real("z0", 0.001, 0.3), ctx.real("z1", 0.4, 0.6)
    co = Cosmo(ctx)
    xi = Xi(ctx)
    kw = dict(znum=NZ, unum=NU, cosmo=co)
    kw.update(k)
    z = [z0 + (z1 - z0) * i / (NZ - 1) for i in range(NZ)]
    return z0, z1, z, co, xi, lambda: IC.angular_corr_gal(TH, xi, p1, z0, z1, *LU, **kw)


def of_redshift(second):
    def f(ctx):
        p1 = Dist(ctx, "p1")
        p2 = Dist(ctx, "p2") if second else None
        z0, z1, z, co, xi, run = args(ctx, p1, p2=p2, check_p_norm=False)
        got = run()
        x = [co.chi(v) * co.h for v in z]
        q = p2 or p1
        w = [p1.f(v) * q.f(v) / (co.dh * co.h / co.E(v)) ** 2 for v in z]
        want = limber(ctx, xi, x, w)
        ctx.true("one value per angle", len(got) == len(TH))
        for i in range(len(TH)):
            ctx.eq(f"double integral of the correlation at each separation[{i}]", got[i], want[i])

    return f


def of_distance(second):
    def f(ctx):
        p1 = Dist(ctx, "p1")
        p2 = Dist(ctx, "p2") if second else None
        z0, z1, z, co, xi, run = args(ctx, p1, p2=p2, check_p_norm=False, p_of_z=False)
        got = run()
        a, b = co.chi(z0) * co.h, co.chi(z1) * co.h
        x = [a + (b - a) * i / (NZ - 1) for i in range(NZ)]
        q = p2 or p1
        want = limber(ctx, xi, x, [p1.f(v) * q.f(v) for v in x])
        for i in range(len(TH)):
            ctx.eq(f"double integral over distances[{i}]", got[i], want[i])

    return f


def norm(which, of_z):
    """Distributions that are not normalised are; those that are stay as they are."""

    def f(ctx):
        I = ctx.real("I", *{"no": (1.02, 50), "small": (0.01, 0.98), "yes": (0.995, 1.005)}[which])
        p1 = Dist(ctx, "p1", I)
        z0, z1, z, co, xi, run = args(ctx, p1, p_of_z=of_z)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = run()
        xs = [co.chi(v) * co.h for v in z]
        if of_z:
            n = [p1.f(v) / (1 if which == "yes" else I) for v in z]
            w = [v * v / (co.dh * co.h / co.E(t)) ** 2 for v, t in zip(n, z)]
            want = limber(ctx, xi, xs, w)
            lim = z0, z1
        else:
            x = [xs[0] + (xs[-1] - xs[0]) * i / (NZ - 1) for i in range(NZ)]
            n = [p1.f(v) / (1 if which == "yes" else I) for v in x]
            want = limber(ctx, xi, x, [v * v for v in n])
            lim = xs[0], xs[-1]
        ctx.true("its integral is asked for", len(p1.limits) > 0)
        for got_lim in p1.limits:
            for q in (0, 1):
                ctx.eq(f"over the range of the sample[{q}]", got_lim[q], lim[q])
        for i in range(len(TH)):
            ctx.eq(f"double integral[{i}]", got[i], want[i])

    return f


def norm_second(of_z):
    """Each distribution by its own integral, over the variable it is a function of."""

    def f(ctx):
        I, J = ctx.real("I", 2, 5), ctx.real("J", 0.1, 0.9)
        p1, p2 = Dist(ctx, "p1", I), Dist(ctx, "p2", J)
        z0, z1, z, co, xi, run = args(ctx, p1, p2=p2, p_of_z=of_z)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = run()
        x = [co.chi(v) * co.h for v in z]
        if of_z:
            lim, w = (z0, z1), [p1.f(v) / I * p2.f(v) / J / (co.dh * co.h / co.E(v)) ** 2 for v in z]
        else:
            lim = x[0], x[-1]
            x = [x[0] + (x[-1] - x[0]) * i / (NZ - 1) for i in range(NZ)]
            w = [p1.f(v) / I * p2.f(v) / J for v in x]
        for n, p in (("first", p1), ("second", p2)):
            ctx.true(f"{n}: its integral is asked for", len(p.limits) > 0)
            for got_lim in p.limits:
                for q in (0, 1):
                    ctx.eq(f"{n}: over the range of the sample[{q}]", got_lim[q], lim[q])
        want = limber(ctx, xi, x, w)
        for i in range(len(TH)):
            ctx.eq(f"double integral[{i}]", got[i], want[i])

    return f


def norm_quadrature(ctx):
    """A plain function is integrated numerically."""
    p = Dist(ctx, "p")
    z = ctx.arr([0.1, 0.2, 0.3, 0.4])
    I = IC.simpson(ctx.arr([p.f(v) for v in z]), x=z)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        q = IC._check_p(p, z)
    y = ctx.real("y", 0.1, 0.4)
    got = q(ctx.arr([y]))[0]
    close = (I - 1 <= 0.0101) & (1 - I <= 0.0101)
    if close:
        ctx.true("as given or normalised", (got == p.f(y)) | (got == p.f(y) / I))
    else:
        ctx.eq("normalised", got, p.f(y) / I)


def flat(ctx):
    a = ctx.real("a", 0, 1)
    b = a + ctx.real("w", 0.01, 2)
    p = IC.flat_z_dist(a, b)
    t = ctx.real("t", 0, 1)
    z = a + t * (b - a)
    o = ctx.real("o", 0.001, 3)
    v = p(ctx.arr([z, a, b, a - o, b + o]))
    for i in range(3):
        ctx.eq(f"one over the width inside[{i}]", v[i], 1 / (b - a))
    ctx.eq("zero below", v[3], 0)
    ctx.eq("zero above", v[4], 0)
    ctx.eq("one redshift", IC.np.ravel(p(z))[0], 1 / (b - a))


def distance_derivative(ctx):
    co = Cosmo(ctx)
    z = ctx.arr([ctx.real("za", 0, 2), ctx.real("zb", 0, 2)])
    d = IC.dxdz(z, co)
    for i in range(2):
        ctx.eq(f"Hubble distance over expansion rate, in Mpc/h[{i}]", d[i], co.dh * co.h / co.E(z[i]))


def model(ctx, **k):
    z0, z1 = ctx.real("z0", 0.001, 0.3), ctx.real("z1", 0.4, 0.6)
    d = dict(zmin=z0, zmax=z1, znum=NZ, logu_min=LU[0], logu_max=LU[1], unum=NU, cosmo=Cosmo(ctx), p2=None, p_of_z=True, check_p_norm=False, theta=TH)
    d.update(k)
    return d


def wiring(which, of_z, second):
    def f(ctx):
        xi, other = Xi(ctx), lambda r: 0 * r
        p1 = Dist(ctx, "p1")
        p2 = Dist(ctx, "p2") if second else None
        leaves = {"corr_auto_tracer_fnc": other, "corr_auto_matter_fnc": other}
        leaves[f"corr_auto_{which}_fnc"] = xi
        d = model(ctx, p1=p1, p2=p2, p_of_z=of_z, **leaves)
        o = fake(IC.AngularCF, **d)
        got = o.angular_corr_gal if which == "tracer" else o.angular_corr_matter
        co = d["cosmo"]
        z = [d["zmin"] + (d["zmax"] - d["zmin"]) * i / (NZ - 1) for i in range(NZ)]
        x = [co.chi(v) * co.h for v in z]
        q = p2 or p1
        w = [p1.f(v) * q.f(v) / (co.dh * co.h / co.E(v)) ** 2 for v in z]
        if not of_z:
            x = [x[0] + (x[-1] - x[0]) * i / (NZ - 1) for i in range(NZ)]
            w = [p1.f(v) * q.f(v) for v in x]
        want = limber(ctx, xi, x, w)
        for i in range(len(TH)):
            ctx.eq(f"the model's own correlation, distributions and grids[{i}]", got[i], want[i])

    return f


def checks_norm(ctx):
    """The model normalises unless told not to."""
    I = ctx.real("I", 2, 5)
    on = ctx.choice("check", [True, False])
    xi, p1 = Xi(ctx), Dist(ctx, "p1", I)
    d = model(ctx, p1=p1, corr_auto_tracer_fnc=xi, corr_auto_matter_fnc=xi, check_p_norm=on)
    co = d["cosmo"]
    z = [d["zmin"] + (d["zmax"] - d["zmin"]) * i / (NZ - 1) for i in range(NZ)]
    n = I if on else 1
    want = limber(ctx, xi, [co.chi(v) * co.h for v in z], [(p1.f(v) / n) ** 2 / (co.dh * co.h / co.E(v)) ** 2 for v in z])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        o = fake(IC.AngularCF, **d)
        for i in range(len(TH)):
            ctx.eq(f"tracers[{i}]", o.angular_corr_gal[i], want[i])
            ctx.eq(f"matter[{i}]", o.angular_corr_matter[i], want[i])


def default_distribution(ctx):
    """Flat in redshift over the model's own limits, whichever variable is used."""
    xi = Xi(ctx)
    d = model(ctx, p1=None, corr_auto_tracer_fnc=xi, corr_auto_matter_fnc=xi)
    co = d["cosmo"]
    z0, z1 = d["zmin"], d["zmax"]
    z = [z0 + (z1 - z0) * i / (NZ - 1) for i in range(NZ)]
    want = limber(ctx, xi, [co.chi(v) * co.h for v in z], [1 / (z1 - z0) ** 2 / (co.dh * co.h / co.E(v)) ** 2 for v in z])
    o = fake(IC.AngularCF, **d)
    for i in range(len(TH)):
        ctx.eq(f"tracers[{i}]", o.angular_corr_gal[i], want[i])
        ctx.eq(f"matter[{i}]", o.angular_corr_matter[i], want[i])


def grids(ctx):
    n = ctx.choice("n", [2, 3])
    z0, z1 = ctx.real("z0", 0.001, 0.3), ctx.real("z1", 0.4, 0.6)
    co = Cosmo(ctx)
    a = ctx.real("tmin", 0.001, 0.01)
    b = a * ctx.real("tf", 2, 30)
    u0, u1 = ctx.real("u0", -4, -1), ctx.real("u1", 0.5, 2)
    o = lambda **k: fake(IC.AngularCF, zmin=z0, zmax=z1, znum=n, cosmo=co, theta_min=a, theta_max=b, theta_num=n, theta_log=k.pop("log", True), logu_min=u0, logu_max=u1, unum=n, rnum=n, **k)
    m = o()
    for i in range(n):
        z = z0 + (z1 - z0) * i / (n - 1)
        ctx.eq(f"redshifts between the limits[{i}]", m.zvec[i], z)
        ctx.eq(f"their comoving distances, in Mpc/h[{i}]", m.xvec[i], co.chi(z) * co.h)
        ctx.eq(f"angles evenly spaced[{i}]", o(log=False).theta[i], a + (b - a) * i / (n - 1))
    ctx.eq("angles from", m.theta[0], a)
    ctx.eq("angles to", m.theta[-1], b)
    ctx.eq("separations along the line of sight from", IC.np.log10(m.uvec[0]), u0)
    ctx.eq("separations along the line of sight to", IC.np.log10(m.uvec[-1]), u1)
    if n == 3:
        ctx.eq("angles evenly spaced in log", m.theta[1] ** 2, a * b)
    ctx.true("number", len(m.theta) == len(m.uvec) == len(m.zvec) == len(m.r) == n)
    x0, x1 = co.chi(z0) * co.h, co.chi(z1) * co.h
    ctx.eq("smallest separation", m.r[0] ** 2, (10**u0) ** 2 + a**2 * x0**2)
    ctx.eq("largest separation", m.r[-1] ** 2, (10**u1) ** 2 + b**2 * x1**2)
    try:
        fake(IC.AngularCF, theta_min=b, theta_max=a, theta_num=n, theta_log=True).theta
        ctx.true("angles the wrong way round are refused", False)
    except ValueError:
        ctx.true("angles the wrong way round are refused", True)


def default_cosmology(ctx):
    """Without a cosmology the package's default is used, in Mpc/h."""
    from hmf import Cosmology

    co = Cosmology().cosmo
    got = IC.dxdz(np.array([0.3]))
    ctx.eq("derivative", got[0], co.hubble_distance.value * co.h / co.efunc(0.3), rtol=1e-6)
    xi, p1 = Xi(ctx), Dist(ctx, "p1")
    a = IC.angular_corr_gal(TH, xi, p1, 0.2, 0.4, *LU, znum=3, unum=3, check_p_norm=False)
    b = IC.angular_corr_gal(TH, xi, p1, 0.2, 0.4, *LU, znum=3, unum=3, check_p_norm=False, cosmo=co)
    ctx.eq("angular correlation", a, b)


ARGS = {"theta_min": (1e-4, 1e-2), "theta_max": (0.02, 3), "zmin": (0.05, 0.3), "zmax": (0.31, 1), "logu_min": (-5, -1), "logu_max": (0, 3)}


def construct(ctx):
    """What a model is constructed with is what it uses; a redshift outside the distribution is warned about."""
    P = {k: ctx.real(k, *r) for k, r in ARGS.items()}
    Q = dict(theta_num=7, theta_log=False, znum=11, unum=13, check_p_norm=False, p_of_z=False, p1=Dist(ctx, "p1"), p2=Dist(ctx, "p2"))
    z = ctx.real("z", 0, 2, strict=False)
    names = [*P, *Q]
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        o, rest = constructed(IC.AngularCF, HM.HaloModel, names, z=z, mdef=3, **P, **Q)
    out = bool(z < P["zmin"]) or bool(z > P["zmax"])
    ctx.true("warned about a redshift outside the distribution, and only then", out == any("redshift" in str(x.message) for x in w))
    for k, v in P.items():
        ctx.eq(f"{k} as given", getattr(o, k), v)
    for k, v in Q.items():
        ctx.true(f"{k} as given", getattr(o, k) is v or getattr(o, k) == v)
    ctx.true("the rest reaches the halo model", set(rest) == {"z", "mdef"} and rest["mdef"] == 3)
    ctx.eq("redshift as given", rest["z"], z)
    d, rest = constructed(IC.AngularCF, HM.HaloModel, names, z=0.3)
    ctx.eq("default limits", ctx.arr([d.theta_min, d.theta_max, d.zmin, d.zmax, d.logu_min, d.logu_max]), ctx.arr([1e-3 * np.pi / 180, np.pi / 180, 0.2, 0.4, -4, 2.3]))
    ctx.true("default options", d.p1 is None and d.p2 is None and d.theta_log is True and d.check_p_norm is True and d.p_of_z is True)
    ctx.true("default numbers", (d.theta_num, d.znum, d.unum) == (30, 100, 100))


def harnesses(tier="quick"):
    b = "2 angles, 4 redshifts, 3 line-of-sight separations (thorough: 3/6/5); arbitrary correlation, distributions, expansion history; limits, h free"
    global NZ, NU, TH, U
    if tier != "quick":
        NZ, NU, TH = 6, 5, np.array([0.001, 0.004, 0.01])
        U = np.logspace(*LU, NU)
    out = []
    for s in (False, True):
        out += [H(f"of-redshift-{'cross' if s else 'auto'}", of_redshift(s), bounds=b), H(f"of-distance-{'cross' if s else 'auto'}", of_distance(s), bounds=b)]
    out += [H(f"normalised-{w}-{'z' if z else 'x'}", norm(w, z), bounds=b) for w in ("no", "small", "yes") for z in (True, False)]
    out += [H(f"wiring-{w}-{'z' if z else 'x'}-{'cross' if s else 'auto'}", wiring(w, z, s), bounds=b) for w, z, s in (("tracer", True, True), ("tracer", False, False), ("matter", True, False), ("matter", False, True))]
    out += [H(n, f, bounds=b) for n, f in (("normalised-each", norm_second(True)), ("normalised-each-x", norm_second(False)), ("normalised-by-quadrature", norm_quadrature), ("flat", flat), ("distance-derivative", distance_derivative), ("model-normalises", checks_norm), ("default-distribution", default_distribution), ("grids", grids), ("construction", construct), ("default-cosmology", default_cosmology))]
    return out
