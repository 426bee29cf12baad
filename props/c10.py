"""C10: mock catalogues."""
import types

import numpy as np

import halomod.hod as O
import halomod.profiles as P
import halomod.tools as TL

from symx import terms as T

from .common import CM, H, MDef, snapshot, unchanged

N = 3
FLAGS = [(1, 0, 1), (1, 1, 1), (0, 0, 0), (0, 1, 0), (0, 1, 1)]
SATS = [(2, 0, 1), (0, 0, 0), (0, 3, 0), (1, 1, 2)]


class Rng:
    """Records the distributions asked for and returns chosen draws."""

    def __init__(self, ctx, flags, sats):
        self.ctx, self.flags, self.sats = ctx, flags, sats
        self.p, self.mean = [], []

    def _pick(self, full, n):
        if n == len(full):
            return np.array(full)
        sub = [v for v, f in zip(full, self.flags) if f]
        if n != len(sub):
            raise T.Unsupported(f"draws for {n} haloes")
        return np.array(sub, dtype=int)

    def _each(self, p, size):
        """One parameter per halo, as numpy's generators broadcast theirs."""
        if size is None:
            return list(np.ravel(p)) if np.ndim(p) else p
        n = int(np.prod(size))
        return [p] * n if np.ndim(p) == 0 else list(np.ravel(np.broadcast_to(p, size)))

    def _draw(self, rec, full, p, size):
        p = self._each(p, size)
        if not isinstance(p, list):
            return full[0]
        rec.append(p)
        return self._pick(full, len(p))

    def binomial(self, n, p, size=None):
        if not (np.ndim(n) == 0 and n == 1):
            raise T.Unsupported("binomial draws of another form")
        return self._draw(self.p, self.flags, p, size)

    def poisson(self, lam, size=None):
        return self._draw(self.mean, self.sats, lam, size)


class Poisson:
    def __init__(self):
        self.used = []

    def rvs(self, mu, random_state=None, size=None):
        self.used.append(random_state)
        return random_state.poisson(mu, size=size)


class Prof:
    """A profile that places its galaxies anywhere (within reach)."""

    def __init__(self, ctx, reach):
        self.ctx, self.reach, self.calls = ctx, reach, []

    def populate(self, n, m, c=None, centre=None, rng=None):
        j = len(self.calls)
        d = [[self.ctx.real(f"d{j}_{i}_{a}", -self.reach, self.reach) for a in range(3)] for i in range(int(n))]
        pos = [[centre[a] + d[i][a] for a in range(3)] for i in range(int(n))]
        self.calls.append((n, m, centre, rng, d))
        return self.ctx.arr([x for p in pos for x in p]).reshape(int(n), 3)


def tracer(ctx, central, kind):
    nc = ctx.uf("nc", numeric=lambda m: 0.3 + 0.02 * np.log10(m))
    ns = ctx.uf("ns", numeric=lambda m: m / 1e13)
    A, B = ctx.real("amount per central", 2, 5), ctx.real("amount per satellite", 2, 5)
    vec = lambda f, m: ctx.arr([f(x) for x in np.ravel(m)]) if len(np.ravel(m)) else np.zeros(0)

    class Mine(O.HODPoisson):
        _defaults = {"M_min": 11.0}

        def _central_occupation(self, m):
            return A * vec(nc, m)

        def _satellite_occupation(self, m):
            return B * vec(ns, m)

        def _tracer_per_central(self, m):
            return A

        def _tracer_per_satellite(self, m):
            return B

    class NoCen(O.HODNoCentral):
        def ns(self, m):
            return vec(ns, m)

        _satellite_occupation = ss_pairs = sigma_satellite = ns

    class Bulk(O.HODBulk):
        def _satellite_occupation(self, m):
            return vec(ns, m)

        sigma_satellite = _satellite_occupation

    return {"no centrals": NoCen, "bulk": Bulk}.get(kind, Mine)(central=central), nc, ns


class Pool:
    """Worker processes: what they are given is a copy, and only what they return comes back."""

    def __init__(self, *a, **k):
        pass

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda f, *its: [apart(f)(*x) for x in zip(*its)]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    join = terminate = clear = restart = close


def apart(f):
    if not isinstance(f, types.FunctionType):
        return f
    copy = lambda v: v.copy() if isinstance(v, np.ndarray) else v
    return types.FunctionType(f.__code__, f.__globals__, f.__name__, f.__defaults__, tuple(types.CellType(copy(c.cell_contents)) for c in f.__closure__ or ()))


class Pools:
    ProcessingPool = ProcessPool = Pool = Pool

    @staticmethod
    def cpu_count():
        return 2


def run(ctx, flags, sats, hod, prof, **kw):
    M = [ctx.real(f"m{i}", 1e11, 1e15) for i in range(N)]
    C = [[ctx.real(f"x{i}{a}", 0, 100) for a in range(3)] for i in range(N)]
    masses, centres = ctx.arr(M), ctx.arr([v for c in C for v in c]).reshape(N, 3)
    sm, sc = snapshot(masses), snapshot(centres)
    rng, poi = Rng(ctx, flags, sats), Poisson()
    how = kw.pop("how", "parts")
    if how != "model":
        a = dict(profile=prof, hodmod=hod)
    else:
        a = dict(halomodel=type("Model", (), dict(tracer_profile=prof, halo_profile=None, hod=hod))())
    old = {k: TL.__dict__.get(k) for k in ("poisson", "HAVE_POOL", "mp")}
    TL.poisson = poi
    if how == "pool":
        # the optional package of worker processes is installed
        TL.HAVE_POOL, TL.mp = True, Pools
    try:
        pos, halo, ncen = TL.populate(centres, masses, rng=rng, **a, **kw)
    finally:
        for k, v in old.items():
            if v is not None:
                setattr(TL, k, v)
            elif k in TL.__dict__:
                delattr(TL, k)
    unchanged(ctx, "masses not modified", masses, sm)
    unchanged(ctx, "centres not modified", centres, sc)
    return M, C, pos, halo, ncen, rng


def counts(kind):
    def f(ctx):
        central = kind == "central required"
        flags = (0, 0, 0) if kind in ("no centrals", "bulk") else ctx.choice("centrals drawn", FLAGS)
        sats = (0, 0, 0) if kind == "bulk" else ctx.choice("satellites drawn", SATS)
        how = ctx.choice("how", ["parts", "model", "pool"]) if kind == "free" else "parts"
        hod, nc, ns = tracer(ctx, central, kind)
        prof = Prof(ctx, 5)
        M, C, pos, halo, ncen, rng = run(ctx, flags, sats, hod, prof, how=how)
        cen = [i for i in range(N) if flags[i]]
        sat = [i for i in range(N) if sats[i] and (flags[i] or not central)]
        ns_tot = sum(sats[i] for i in sat)
        free = not kind == "bulk" and not kind == "no centrals"
        ctx.true("one draw of centrals", len(rng.p) == (1 if free else len(rng.p)) and all(len(p) == N for p in rng.p))
        for p in rng.p:
            for i in range(N):
                ctx.eq("a halo has a central with the probability of its mean number of centrals", p[i], nc(M[i]) if free else 0)
        ctx.true("one draw of satellites", len(rng.mean) == (1 if kind != "bulk" else len(rng.mean)))
        for mean in rng.mean:
            which = list(range(N)) if len(mean) == N else cen
            for j, i in enumerate(which):
                want = ns(M[i]) if kind != "bulk" else 0
                # with a required central <Ns> = nc * ns is the mean over all haloes: ns where there is a central
                ctx.eq("satellites are Poisson with the mean number of their halo", mean[j], want)
        ctx.true("number of centrals", int(ncen) == len(cen))
        ctx.same_shape("one position per galaxy", pos, (len(cen) + ns_tot, 3))
        ctx.same_shape("one halo per galaxy", halo, (len(cen) + ns_tot,))
        ctx.true("haloes are indexed by integers", np.asarray(halo).dtype.kind == "i" or all(int(h) == h for h in halo))
        ctx.true("centrals come first, each in a halo that has one", sorted(int(h) for h in halo[: len(cen)]) == cen)
        for j in range(len(cen)):
            for a in range(3):
                ctx.eq("a central sits at the centre of its halo", pos[j][a], C[int(halo[j])][a])
        got = [int(h) for h in halo[len(cen):]]
        ctx.true("each halo has the satellites drawn for it", sorted(got) == sorted(sum(([i] * sats[i] for i in sat), [])))
        ctx.true("each halo is populated once", len(prof.calls) == len(sat))
        used = set()
        for n, m, ctr, r, d in prof.calls:
            i = [i for i in sat if i not in used and all(ctr[a] is C[i][a] or (not ctx.sym and ctr[a] == C[i][a]) for a in range(3))]
            ctx.true("around the centre of a halo with satellites", len(i) >= 1)
            if not i:
                continue
            i = i[0]
            used.add(i)
            ctx.true("as many as drawn", int(n) == sats[i])
            ctx.eq("for its own mass", m, M[i])
            ctx.true("from the generator given", r is rng)
            rows = [j for j in range(len(cen), len(cen) + ns_tot) if int(halo[j]) == i]
            for row, dd in zip(rows, d):
                for a in range(3):
                    ctx.eq("satellites are where the profile put them", pos[row][a], C[i][a] + dd[a])

    return f


def wrapping(ctx):
    """Galaxies leaving a periodic box come back on the opposite side."""
    form = ctx.choice("edges", ["cube", "interval", "prism"])
    sats = (1, 0, 0)
    hod, nc, ns = tracer(ctx, False, "free")
    lo = [ctx.real(f"lo{a}", -50, 0) for a in range(3)]
    L = [ctx.real(f"L{a}", 100, 300) for a in range(3)]
    if form == "cube":
        E = L[0]
        lo, up = [0, 0, 0], [L[0]] * 3
    elif form == "interval":
        E = (lo[0], lo[0] + L[0])
        lo, up = [lo[0]] * 3, [lo[0] + L[0]] * 3
    else:
        up = [lo[a] + L[a] for a in range(3)]
        E = ctx.arr(lo + up).reshape(2, 3)
    prof = Prof(ctx, 20)
    C = []
    ctx_centres = [[ctx.real(f"x{i}{a}", 0, 100) for a in range(3)] for i in range(N)]
    for i in range(N):
        for a in range(3):
            ctx.assume(ctx_centres[i][a] >= lo[a])
            ctx.assume(ctx_centres[i][a] <= up[a])
    sE = snapshot(E) if form == "prism" else None
    M, C, pos, halo, ncen, rng = run(ctx, (0, 0, 1), sats, hod, prof, edges=E)
    if sE is not None:
        unchanged(ctx, "edges not modified", E, sE)
    raw = {0: [C[2][a] for a in range(3)]}
    row = 1
    for n, m, ctr, r, d in prof.calls:
        raw[row] = [ctr[a] + d[0][a] for a in range(3)]
        row += 1
    for j, w in raw.items():
        for a in range(3):
            ctx.le("inside the box", lo[a], pos[j][a])
            ctx.le("inside the box", pos[j][a], up[a])
            t = pos[j][a] - w[a]
            ln = up[a] - lo[a]
            ctx.eq("moved by whole boxes", t * (t - ln) * (t + ln), 0, atol=1e-6)


def placing(name):
    """Profile.populate: the radius encloses the fraction drawn, the direction is that of a normal vector."""

    def f(ctx):
        m = ctx.real("m", 1e10, 1e15)
        c = ctx.real("c", 1, 30)
        how = ctx.choice("concentration", ["own", "given"])
        cg = c if how == "own" else ctx.real("cgiven", 1, 30)
        d, r0 = ctx.real("delta", 50, 800), ctx.real("rho0", 1e9, 1e12)
        cls = getattr(P, name)
        p = cls(cm_relation=CM([m], [c]), mdef=MDef(d, r0))
        ctr = ctx.choice("centre", [True, False])
        X = [ctx.real(f"x{a}", -100, 100) for a in range(3)] if ctr else [0, 0, 0]
        grid = P.np.linspace(0, 1, 1000)
        knots = [len(grid) // 8, len(grid) // 2, len(grid) - 2]
        n = len(knots)
        s = [grid[k] for k in knots]
        v = [[ctx.real(f"g{a}{i}", 0.1, 3) * (-1 if (a + i) % 2 else 1) for i in range(n)] for a in range(3)]
        u = p.cdf(ctx.arr([grid[k] * cg for k in knots]), cg, m, coord="x")

        class G:
            def uniform(self, low=0.0, high=1.0, size=None):
                assert (low, high) == (0, 1) and size in (n, (n,))
                return ctx.arr(list(u))

            def random(self, size=None):
                assert size in (n, (n,))
                return ctx.arr(list(u))

            def normal(self, loc=0.0, scale=1.0, size=None):
                if size == (3, n):
                    return ctx.arr([x for r in v for x in r]).reshape(3, n)
                assert size == (n, 3)
                return ctx.arr([v[a][i] for i in range(n) for a in range(3)]).reshape(n, 3)

            def standard_normal(self, size=None):
                return self.normal(size=size)

        kw = {} if how == "own" else {"c": cg}
        if ctr:
            kw["centre"] = ctx.arr(X)
        pos = p.populate(n, m, rng=G(), **kw)
        ctx.same_shape("one position per galaxy", pos, (n, 3))
        R = p.halo_mass_to_radius(m)
        for i in range(n):
            y = [pos[i][a] - X[a] for a in range(3)]
            r2 = sum(t * t for t in y)
            ctx.eq("the radius encloses the fraction drawn", r2, (R * s[i]) ** 2, rtol=1e-4)
            ctx.eq("the direction is the one drawn", y[0] * v[1][i], y[1] * v[0][i], rtol=1e-6)
            ctx.eq("the direction is the one drawn", y[1] * v[2][i], y[2] * v[1][i], rtol=1e-6)
            ctx.le("on the side drawn", 0, y[0] * v[0][i])

    return f


class Draws:
    """Any values a generator can draw."""

    def __init__(self, ctx):
        self.ctx, self.n = ctx, 0

    def _draw(self, lo, hi, size):
        n = 1 if size is None else int(np.prod(size))
        self.n += 1
        v = [self.ctx.real(f"draw{self.n}_{i}", lo, hi) for i in range(n)]
        return v[0] if size is None else self.ctx.arr(v).reshape(size)

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._draw(float(low), float(high), size)

    def random(self, size=None):
        return self._draw(0, 1, size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._draw(loc - 6 * scale, loc + 6 * scale, size)

    def standard_normal(self, size=None):
        return self.normal(size=size)


def directions(name):
    """Galaxies lie on every side of the centre of their halo."""

    def f(ctx):
        m, c = ctx.real("m", 1e10, 1e15), ctx.real("c", 1, 30)
        p = getattr(P, name)(cm_relation=CM([m], [c]), mdef=MDef(200.0, 1e10))
        if not ctx.sym:
            pos = p.populate(4000, m, rng=np.random.default_rng(1))
            for a in range(3):
                ctx.true(f"as many on either side of axis {a}", abs(np.mean(np.sign(pos[:, a]))) < 0.1)
            return

        def spline(x, y, k=3):
            return lambda u: ctx.arr([ctx.real(f"radius{i}", 0.01, 1) * c for i in range(len(u))])

        old = P.spline
        P.spline = spline
        try:
            pos = p.populate(1, m, rng=Draws(ctx))
        finally:
            P.spline = old
        for a in range(3):
            y = pos[0][a]
            ctx.true(f"as many on either side of axis {a}", all(ctx.possible(b) for b in (y > 0, y < 0)))

    return f


def harnesses(tier="quick"):
    hs = [H(f"counts-{k}", counts(k)) for k in ("free", "central required", "no centrals", "bulk")] + [H("wrapping", wrapping, max_paths=400, bounds="displacements up to 20 in boxes of 100-300")]
    hs += [H(f"placing-{n}", placing(n)) for n in ("NFW", "Hernquist")]
    hs += [H(f"directions-{n}", directions(n)) for n in ("NFW", "Hernquist")]
    return hs
