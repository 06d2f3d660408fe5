"""Population parameters, halos and Monte Carlo realizations."""
import numpy as np
import jax
from jax import numpy as jnp
from jax import random as jran

import gen
from diffstar import diffstarpop as dp
from diffstar.diffstarpop import mc_diffstarpop_mgash as mc
from diffstar.diffstarpop.kernels import defaults_mgash as dm

NAMES = list(dp.DEFAULT_DIFFSTARPOP_PARAMS._fields)
LO = np.array([b[0] for b in dp.DIFFSTARPOP_PBOUNDS], float)
HI = np.array([b[1] for b in dp.DIFFSTARPOP_PBOUNDS], float)
SLOPES = [i for i, n in enumerate(NAMES) if n.endswith("_slp")]
CALIB = sorted(dp.SIMULATION_FIT_PARAMS)
HFIELDS = ("logmp0", "tpeak", "upid", "lgmu", "lgmhost", "gyr")


def pop(rng, kind=None):
    """In-bounds population parameters as an array in the order of NAMES."""
    kind = kind or rng.choice(["default", "calib", "uniform", "near", "flat", "edge"])
    d = np.array([float(x) for x in dp.DEFAULT_DIFFSTARPOP_PARAMS])
    if kind == "default":
        return d
    if kind == "calib":
        return np.array([float(x) for x in dp.SIMULATION_FIT_PARAMS[CALIB[rng.integers(len(CALIB))]]])
    if kind == "uniform":
        return LO + (HI - LO) * rng.uniform(0.02, 0.98, len(LO))
    if kind == "near":
        return np.clip(d + (HI - LO) * rng.normal(0, 0.03, len(LO)), LO + 1e-3 * (HI - LO), HI - 1e-3 * (HI - LO))
    if kind == "edge":
        x = rng.choice([2e-3, 0.005, 0.5, 0.995, 0.998], len(LO))
        return LO + (HI - LO) * x
    p = pop(rng, "uniform")
    k = rng.uniform(size=len(SLOPES)) < 0.5
    p[np.array(SLOPES)[k]] = 0.0
    return p


def tup(p, x64=True, jx=False):
    v = [float(x) for x in p]
    if jx:
        v = [jnp.asarray(x) for x in v]
    return dp.DEFAULT_DIFFSTARPOP_PARAMS._make(v)


def rec(p):
    return {n: float(x) for n, x in zip(NAMES, p)}


def halo(rng):
    up = int(rng.choice([-1, -1, -1, 0, 1, 17, 2**31 - 1, -2, 1000]))
    return dict(logmp0=float(rng.uniform(10, 15.5)), tpeak=float(rng.uniform(0.5, 14.5)), upid=up,
                lgmu=float(rng.choice([rng.uniform(-5, 0), 0.0])), lgmhost=float(rng.choice([rng.uniform(10.5, 15.5), 0.0])),
                gyr=float(rng.choice([rng.uniform(-5, 13), -100.0, 0.0, 2.0, 2.0 + rng.normal(0, 0.3)])))


def castpop(p, x64):
    return gen.cast(p, x64)


def casthalo(h, x64):
    return {k: (v if k == "upid" else float(gen.cast(v, x64))) for k, v in h.items()}


def cols(halos):
    return tuple(np.array([h[k] for h in halos]) for k in HFIELDS)


def key(seed, typed):
    return jran.key(seed) if typed else jran.PRNGKey(seed)


@jax.jit
def _dev(k):
    ks = jran.split(k, 4)
    return (jnp.stack([jran.normal(ks[i], (4,)) for i in range(4)]),
            jnp.stack([jran.uniform(ks[i], minval=0, maxval=1, shape=()) for i in range(4)]))


_devs = jax.jit(jax.vmap(_dev))


def deviates(k):
    """What the four keys of a galaxy yield: four normal and one uniform deviate each."""
    z, r = _dev(k)
    return np.asarray(z, float).tolist(), np.asarray(r, float).tolist()


def deviates_many(keys):
    z, r = _devs(keys)
    return list(zip(np.asarray(z, float).tolist(), np.asarray(r, float).tolist()))


def row(t, i=None):
    """One galaxy's parameter tuple as a list of reals."""
    return [float(x if i is None else x[i]) for x in t]


def host(r):
    """Every array of a result as a numpy array."""
    return jax.tree_util.tree_map(np.asarray, r)
