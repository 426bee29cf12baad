"""Shared stubs and helpers for the property harnesses."""
from __future__ import annotations

import functools
import inspect

import numpy as np

from symx import explore
from symx import terms as T
from symx.harness import H  # noqa: F401


class MDef:
    """Mass-definition stub: arbitrary positive overdensity and mean densities."""

    def __init__(self, delta, rho0, rhoz=None):
        self.delta, self.rho0, self.rhoz = delta, rho0, rho0 if rhoz is None else rhoz

    def halo_overdensity_mean(self, z=0, cosmo=None):
        return self.delta

    def mean_density(self, z=0, cosmo=None):
        return self.rho0 if (isinstance(z, (int, float)) and z == 0) else self.rhoz


class CM:
    """Concentration-mass stub: an arbitrary positive value for each of the listed masses."""

    def __init__(self, ms, cs, z=None):
        self.ms, self.cs, self.z = list(ms), list(cs), z
        self.calls = []

    def _one(self, m):
        for a, c in zip(self.ms, self.cs):
            if a is m or (isinstance(m, (float, np.floating)) and not isinstance(a, T.R) and a == m):
                return c
        raise T.Unsupported("concentration of an unlisted mass")

    def cm(self, m, z=0):
        self.calls.append(z)
        if isinstance(m, np.ndarray) and m.ndim:
            r = [self._one(x) for x in m.ravel()]
            out = np.empty(len(r), dtype=object)
            out[:] = r
            from symx import shim

            return shim.mkarr(r).reshape(m.shape) if any(isinstance(x, T.R) for x in r) else np.array(r, float).reshape(m.shape)
        if isinstance(m, np.ndarray):
            m = m[()]
        return self._one(m)


def snapshot(a):
    return [x for x in np.asarray(a, dtype=object).ravel()]


def unchanged(ctx, label, a, snap):
    cur = snapshot(a)
    same = len(cur) == len(snap) and all((x is y) or (not isinstance(x, T.R) and not isinstance(y, T.R) and x == y) for x, y in zip(cur, snap))
    ctx.true(label, bool(same))


# --------------------------------------------------------------------------- frameworks
class MissingLeaf(T.Unsupported):
    pass


class Absent:
    """A quantity that the harness does not give.  Reading it is fine, using it is not."""

    def __init__(self, name):
        object.__setattr__(self, "_name", name)

    def _fail(self, *a, **k):
        raise MissingLeaf(f"{object.__getattribute__(self, '_name')} is not given by the harness")

    def __getattr__(self, k):
        self._fail()

    def __bool__(self):
        self._fail()

    __hash__ = object.__hash__


for _n in (
    "call add radd sub rsub mul rmul truediv rtruediv floordiv rfloordiv mod rmod pow rpow neg pos abs eq ne lt le gt ge "
    "getitem setitem len iter contains float int index array array_ufunc array_function matmul rmatmul setattr"
).split():
    setattr(Absent, f"__{_n}__", Absent._fail)


class Token(Absent):
    """A thing that is only handed on: it equals itself, and using it is not given by the harness."""

    __eq__ = object.__eq__
    __ne__ = object.__ne__
    __hash__ = object.__hash__


#: Quantities a harness may leave out because the code has no need of them.  Where the code uses one all the
#: same it gets an arbitrary value, so that the claims decide whether it matters.
DECOY_PARAMS = {"z": (0.1, 3), "sigma_8": (0.5, 1), "n": (0.8, 1.1), "delta_c": (1.5, 1.8), "mean_density0": (1e10, 1e11), "halo_overdensity_mean": (100, 500)}
DECOY_TABLES = {
    **dict.fromkeys(("halo_bias", "rho_gtm", "rho_ltm", "ngtm", "dndm", "nu", "n_eff", "sigma", "central_occupation", "satellite_occupation", "total_occupation", "cmz_relation", "tracer_cmz_relation"), "m"),
    **dict.fromkeys(("power", "nonlinear_power", "_power0", "_power_halo_centres"), "k"),
    **dict.fromkeys(("halo_profile_ukm", "tracer_profile_ukm"), "km"),
    **dict.fromkeys(("halo_profile_rho", "tracer_profile_rho", "halo_profile_lam", "tracer_profile_lam"), "rm"),
}
DECOY_NUMBERS = ("mean_density_in_halos", "mean_tracer_den", "bias_effective_matter", "bias_effective_tracer", "mass_nonlinear", "mean_density")


def decoy(o, name):
    ctx = explore.CTX[0]
    if name in DECOY_PARAMS:
        return ctx.real(f"other {name}", *DECOY_PARAMS[name])
    if name in DECOY_NUMBERS:
        return ctx.real(f"other {name}", 0.1, 5)
    if name in DECOY_TABLES:
        shape = []
        for a in DECOY_TABLES[name]:
            x = getattr(o, {"m": "m", "k": "k", "r": "_r_table"}[a])
            if not isinstance(x, np.ndarray):
                return Absent(name)
            shape.append(len(x))
        v = [ctx.real(f"other {name}{i}", 0.1, 2) for i in range(int(np.prod(shape)))]
        return ctx.arr(v).reshape(tuple(shape))
    if name.endswith("_fnc"):
        a = ctx.real(f"other {name}", 0.1, 2)
        return lambda x: a / (1 + x)
    return Absent(name)


def fake(cls, _extra=None, **leaves):
    """An instance of the real framework class ``cls`` with the listed quantities given.

    Every other cached quantity is the real one (its function, memoised); a parameter that is not
    given is an error of the harness, not of the code.
    """
    ns = {}
    for k in reversed(cls.__mro__):
        for name, v in vars(k).items():
            if not isinstance(v, property):
                if name in ns:
                    ns.pop(name)
                continue
            fset = getattr(v.fset, "__wrapped__", None)
            fget = getattr(v.fget, "__wrapped__", None)
            if fset is not None:
                ns[name] = _missing(name)
            elif fget is not None:
                ns[name] = _memo(name, fget)
            else:
                ns[name] = v
    for name, v in leaves.items():
        ns[name] = property(lambda self, _v=v: _v)
    inits = [k.__dict__["__init__"] for k in cls.__mro__ if "__init__" in k.__dict__]
    set_there = {n for f in inits for n in getattr(getattr(f, "__code__", None), "co_names", ())}

    def absent(self, name):
        # an attribute that the constructor sets
        if name in set_there and "__" not in name:
            return Absent(name)
        raise AttributeError(f"'{cls.__name__}' object has no attribute '{name}'", name=name, obj=self)

    ns["__getattr__"] = absent
    ns["_is_fake"] = True
    sub = type(cls.__name__, (cls,), ns)
    o = object.__new__(sub)
    o.__dict__["_memo"] = {}
    # bookkeeping of hmf's own caching decorators, for ``super().quantity``
    for k, v in (("recalc", {}), ("active_q", set()), ("recalc_prop_par", {}), ("recalc_par_prop", {})):
        o.__dict__[("_" + cls.__name__ + "__" + k).replace("___", "__")] = v
    for name, v in (_extra or {}).items():
        o.__dict__[name] = v
    return o


def _missing(name):
    def get(self):
        m = self._memo
        if name not in m:
            m[name] = decoy(self, name)
        return m[name]

    return property(get)


def _memo(name, f):
    def get(self):
        m = self._memo
        if name not in m:
            try:
                m[name] = f(self)
            except MissingLeaf:
                # Maybe it is only read, and not used.
                m[name] = decoy(self, name)
        return m[name]

    return property(get)


def contract(real, fn):
    """``fn`` called like ``real`` is, however its arguments are passed: fn gets them in the real order."""
    sig = inspect.signature(real)
    names = list(sig.parameters)

    @functools.wraps(real)
    def call(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        return fn(*[b.arguments[n] for n in names])

    return call


def modules(*extra):
    """The modules whose numpy/scipy references are replaced: all of halomod, and the given ones."""
    import sys

    return [m for n, m in list(sys.modules.items()) if (n == "halomod" or n.startswith("halomod.")) and m is not None] + list(extra)


class Slot:
    """A parameter that holds whatever it is given."""

    def __set_name__(self, owner, name):
        self.name = name

    def __get__(self, o, owner=None):
        return self if o is None else o.__dict__[self.name]

    def __set__(self, o, v):
        o.__dict__[self.name] = v


def constructed(cls, base, names, **kw):
    """A model constructed for real, down to (not including) the constructor of its base; and what reached that one."""
    seen = {}

    def init(self, **k):
        seen.update(k)
        for n, v in k.items():
            setattr(self, n, v)

    k = type("Constructed" + cls.__name__, (cls,), {"validate": lambda self: None, **{n: Slot() for n in {*names, *kw}}})
    old = base.__init__
    base.__init__ = init
    try:
        return k(**kw), seen
    finally:
        base.__init__ = old


class ColossusWorld:
    """The part of colossus that is global: a cosmology is current from when it is set until another is."""

    def __init__(self, *mods):
        import colossus.cosmology.cosmology as cc

        self.mods, self.now, self.made = [*mods, cc], None, []

    def fromAstropy(self, c, sigma8=None, ns=None, cosmo_name=None, **k):
        if cosmo_name is None and getattr(c, "name", None) is None:
            raise Exception("Name is None in Astropy cosmology, must be supplied by the user.")
        return self.setCurrent((c, sigma8, ns))

    def setCurrent(self, state):
        self.now = state
        return state

    def getCurrent(self):
        return self.now

    def setCosmology(self, *a, **k):
        raise T.Unsupported("a cosmology set by its parameters")

    def __enter__(self):
        self.old = [(m, k, m.__dict__[k]) for m in self.mods for k in ("fromAstropy", "setCurrent", "getCurrent", "setCosmology") if k in m.__dict__]
        for m, k, _ in self.old:
            setattr(m, k, getattr(self, k))
        return self

    def __exit__(self, *a):
        for m, k, v in self.old:
            setattr(m, k, v)
        return False
