"""Profiles: table of models with their published shape and symbolic parameters."""
import numpy as np

import halomod.profiles as P

from .common import CM, MDef


def f_nfw(x, p):
    return 1 / (x * (1 + x) ** 2)


def f_hern(x, p):
    return 1 / (x * (1 + x) ** 3)


def f_moore(x, p):
    return 1 / (x**1.5 * (1 + x**1.5))


def f_const(x, p):
    return 1 + 0 * x


def f_gnfw(x, p):
    return x ** (-p["alpha"]) * (1 + x) ** (p["alpha"] - 3)


def f_ein(x, p):
    return np.exp(-(2 / p["alpha"]) * (x ** p["alpha"] - 1))


def f_cored(x, p):
    return 1 / ((x + 0.75) * (1 + x) ** 2)


def f_plaw(x, p):
    return np.exp(-p["a"] * x) / x ** p["b"]


# name -> (shape, {param: (lo,hi)}, truncated, analytic u)
MODELS = {
    "NFW": (f_nfw, {}, True, True),
    "NFWInf": (f_nfw, {}, False, True),
    "Hernquist": (f_hern, {}, True, True),
    "HernquistInf": (f_hern, {}, False, True),
    "Moore": (f_moore, {}, True, False),
    "MooreInf": (f_moore, {}, False, False),
    "Constant": (f_const, {}, True, True),
    "GeneralizedNFW": (f_gnfw, {"alpha": (0.3, 1.5)}, True, False),
    "GeneralizedNFWInf": (f_gnfw, {"alpha": (0.3, 1.5)}, False, False),
    "Einasto": (f_ein, {"alpha": (0.1, 0.9)}, True, False),
    "CoredNFW": (f_cored, {}, True, True),
    "PowerLawWithExpCut": (f_plaw, {"a": (0.02, 2.0), "b": (1.1, 2.9)}, False, True),
}


class Setup:
    """A profile instance with arbitrary masses, concentrations and densities."""

    def __init__(self, ctx, name, nm=2, z=1.5, cls=None, from_rs=False, **kw):
        self.ctx = ctx
        self.name = name
        self.shape, prm, self.trunc, self.analytic = MODELS[name]
        self.par = {k: ctx.real(k, *lim) for k, lim in prm.items()}
        if "b" in self.par:
            ctx.assume(self.par["b"] != 2) if not ctx.sym else ctx.assume((self.par["b"] < 2) if kw.pop("blow", True) else (self.par["b"] > 2))
        if not from_rs:
            self.m = ctx.increasing("m", nm, 1e9, 1e15)
        numeric = self.numeric = name.startswith("GeneralizedNFW")
        self.rtol = 1e-7 if not numeric else 2e-2
        self.atol = 1e-9 if not numeric else 1e-3
        cs = list(ctx.increasing("c", nm, 0.5, 40)) if numeric else [ctx.real(f"c{i}", 0.5, 40) for i in range(nm)]
        # self.c: the profile's concentration; Moore converts what the model gives it by its own rule
        self.c = ctx.arr(cs)
        self.cin = 1.7 * self.c ** (10 / 9) if name.startswith("Moore") else self.c
        self.delta = ctx.real("delta", 50, 800)
        self.rho0 = ctx.real("rho0", 1e9, 1e12)
        self.z = 0.0 if z is None else z
        self.rhoz = self.rho0 if z is None else ctx.real("rhoz", 1e9, 1e13)
        if from_rs:
            rs = ctx.increasing("rs", nm, 0.01, 1.0)
            self.m = ctx.arr([4 * np.pi / 3 * self.delta * self.rho0 * (a * b) ** 3 for a, b in zip(rs, self.c)])
        self.cm = CM(list(self.m), list(self.cin), self.z)
        self.mdef = MDef(self.delta, self.rho0, self.rhoz)
        cls = cls or getattr(P, name)
        par = dict(self.par)
        if name.startswith("Einasto"):
            par["use_interp"] = False
        par.update(kw)
        self.p = cls(cm_relation=self.cm, mdef=self.mdef, z=self.z, **par)
        self.rvir = (3 * self.m / (4 * np.pi * self.delta * self.rho0)) ** (1 / 3)
        self.rs = rs if from_rs else self.rvir / self.c
