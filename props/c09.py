"""C09: cross-pair counts of two tracer populations."""
import numpy as np

import halomod.cross_correlations as X
import halomod.hod as O

from .common import H, fake, snapshot, unchanged

N = 2
QS = ("central_occupation", "satellite_occupation", "sigma_central", "sigma_satellite")


class Pop:
    """A population with arbitrary moments: one free value per mass."""

    def __init__(self, ctx, tag):
        self.v = {q: ctx.reals(f"{tag}_{q}", N, 0, 100) for q in QS}
        for q in QS:
            setattr(self, q, lambda m, q=q: ctx.arr(list(self.v[q])))

    def total_occupation(self, m):
        return self.central_occupation(m) + self.satellite_occupation(m)


def moments(ctx):
    m = ctx.increasing("m", N, 1e9, 1e16)
    sm = snapshot(m)
    a, b = Pop(ctx, "a"), Pop(ctx, "b")
    R = {q: ctx.reals(q, N, -1, 1) for q in ("R_ss", "R_cs", "R_sc")}
    Q = ctx.reals("Q", N, 0, 10)

    class Cross(X._HODCross):
        _defaults = {"shift": 0.5}

    ns = {q: (lambda self, m, q=q: ctx.arr(list(R[q]))) for q in R}
    ns["self_pairs"] = lambda self, m: ctx.arr(list(Q))
    ns["_defaults"] = {"shift": 0.5}
    sh = ctx.real("shift", 0, 1)
    x = type("Cross", (X._HODCross,), ns)([a, b], shift=sh)
    ctx.eq("parameters", x.params["shift"], sh)
    ss, cs, sc = x.ss_cross_pairs(m), x.cs_cross_pairs(m), x.sc_cross_pairs(m)
    g = lambda p, q, i: p.v[q][i]
    for i in range(N):
        c1, c2, s1, s2 = g(a, QS[0], i), g(b, QS[0], i), g(a, QS[1], i), g(b, QS[1], i)
        kc1, kc2, k1, k2 = g(a, QS[2], i), g(b, QS[2], i), g(a, QS[3], i), g(b, QS[3], i)
        ctx.eq("satellite-satellite: <T1 T2> minus pairs of one source with itself", ss[i], s1 * s2 + k1 * k2 * R["R_ss"][i] - Q[i])
        ctx.eq("central of the first with satellites of the second", cs[i], c1 * s2 + kc1 * k2 * R["R_cs"][i])
        ctx.eq("central of the second with satellites of the first", sc[i], c2 * s1 + kc2 * k1 * R["R_sc"][i])
    y = type("Cross", (X._HODCross,), {**ns, **{"R_cs": ns["R_sc"], "R_sc": ns["R_cs"]}})([b, a])
    for i in range(N):
        ctx.eq("exchanging the populations exchanges cs and sc", y.cs_cross_pairs(m)[i], sc[i])
        ctx.eq("exchanging the populations exchanges sc and cs", y.sc_cross_pairs(m)[i], cs[i])
        ctx.eq("exchanging the populations keeps ss", y.ss_cross_pairs(m)[i], ss[i])
    unchanged(ctx, "masses not modified", m, sm)


def constant(ctx):
    m = ctx.increasing("m", N, 1e9, 1e16)
    a, b = Pop(ctx, "a"), Pop(ctx, "b")
    R = {q: ctx.real(q, -1, 1) for q in ("R_ss", "R_cs", "R_sc")}
    given = ctx.choice("given", ["all", "none", "R_ss", "R_cs", "R_sc"])
    p = R if given == "all" else {} if given == "none" else {given: R[given]}
    x = X.ConstantCorr([a, b], **p)
    r = {q: p.get(q, 0) for q in R}
    ss, cs, sc = x.ss_cross_pairs(m), x.cs_cross_pairs(m), x.sc_cross_pairs(m)
    g = lambda p, q, i: p.v[q][i]
    for i in range(N):
        ctx.eq("satellite-satellite", ss[i], g(a, QS[1], i) * g(b, QS[1], i) + g(a, QS[3], i) * g(b, QS[3], i) * r["R_ss"])
        ctx.eq("central-satellite", cs[i], g(a, QS[0], i) * g(b, QS[1], i) + g(a, QS[2], i) * g(b, QS[3], i) * r["R_cs"])
        ctx.eq("satellite-central", sc[i], g(b, QS[0], i) * g(a, QS[1], i) + g(b, QS[2], i) * g(a, QS[3], i) * r["R_sc"])
        ctx.eq("no pairs of one source", np.ravel(np.asarray(x.self_pairs(m), dtype=object))[0], 0)
    for q in R:
        ctx.eq("coefficients", getattr(x, q)(m), r[q])


def auto(ctx):
    """One population with itself, fully correlated satellites, own sources excluded: the auto pairs."""
    m = ctx.arr([ctx.real("m0", 1e12, 1e13), ctx.real("m1", 1e13, 1e15)])
    name = ctx.choice("model", ["Zehavi05", "Zheng05", "Contreras13", "Zehavi05WithMax"])
    h = getattr(O, name)()

    class Same(X.ConstantCorr):
        def self_pairs(self, m):
            return h.satellite_occupation(m)

    x = Same([h, h], R_ss=1)
    for i in range(N):
        ctx.eq("satellite pairs of the auto-correlation", x.ss_cross_pairs(m)[i], h.ss_pairs(m)[i])
        ctx.eq("central-satellite pairs of the auto-correlation", x.cs_cross_pairs(m)[i], h.cs_pairs(m)[i])
        ctx.eq("and its mirror", x.sc_cross_pairs(m)[i], h.cs_pairs(m)[i])
    z = X.ConstantCorr([h, O.Zehavi05()])
    y = X.ConstantCorr([O.Zehavi05(), h])
    for i in range(N):
        ctx.eq("mirror of the pair", z.cs_cross_pairs(m)[i], y.sc_cross_pairs(m)[i])


class Hm:
    def __init__(self, hod):
        self.hod = hod


def wiring(ctx):
    a, b = Pop(ctx, "a"), Pop(ctx, "b")
    r = ctx.real("r", -1, 1)
    x = fake(X.CrossCorrelations, halo_model_1=Hm(a), halo_model_2=Hm(b), cross_hod_model=X.ConstantCorr, cross_hod_params={"R_cs": r}).cross_hod
    m = ctx.increasing("m", N, 1e9, 1e16)
    for i in range(N):
        ctx.eq("first and second population in order", x.cs_cross_pairs(m)[i], a.v[QS[0]][i] * b.v[QS[1]][i] + a.v[QS[2]][i] * b.v[QS[3]][i] * r)
    for bad in ([a], [a, b, a]):
        try:
            X.ConstantCorr(bad)
            ctx.true("exactly two populations", False)
        except (AssertionError, ValueError, TypeError):
            ctx.true("exactly two populations", True)


def harnesses(tier="quick"):
    return [H("moments", moments, bounds="2 masses, arbitrary first and second moments"), H("ConstantCorr", constant), H("auto", auto), H("wiring", wiring)]
