"""Loss data of the population losses."""
import numpy as np
from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS
from diffstar.diffstarpop.loss_kernels import mstar_ssfr_loss_mgash_anyz as L
from jax import numpy as jnp
from jax import random as jran

import gen
import pops
from pops import dp

MEDGES = np.linspace(6.0, 12.0, 7)
SEDGES = np.linspace(-12.6, -8.0, 6)
NZ, NM = 2, 2


def bins(medges, sedges):
    lo = np.stack(np.meshgrid(medges[:-1], sedges[:-1], indexing="ij"), -1).reshape(-1, 2)
    hi = np.stack(np.meshgrid(medges[1:], sedges[1:], indexing="ij"), -1).reshape(-1, 2)
    return lo, hi


def sample(rng, x64, nb, nh, sat):
    """Halos of nb bins, with the realization which each bin's key gives."""
    c = lambda x: gen.cast(x, x64)
    s = dict(nb=nb, nh=nh)
    s["tobs"] = c(np.where(rng.uniform(size=nb) < 0.3, rng.uniform(0.6, 3, nb), rng.uniform(3, 13.8, nb)))
    s["lgt0"], s["fb"] = (float(c(x)) for x in gen.opts(rng, rng.choice(["plain", "both"])))
    s["mah"] = [[c(gen.mah(rng)) for _ in range(nh)] for _ in range(nb)]
    s["h"] = []
    for b in range(nb):
        row = []
        for i in range(nh):
            h = pops.casthalo(pops.halo(rng), x64)
            h["tpeak"] = float(s["mah"][b][i][4])
            if sat:
                h["upid"] = int(rng.integers(0, 2**31 - 1))
            elif rng.uniform() < 0.7:
                h["upid"] = -1
            row.append(h)
        s["h"].append(row)
    s["keys"] = jran.split(jran.PRNGKey(int(rng.integers(2**31))), nb)
    return s


def col(s, name):
    return np.array([[h[name] for h in row] for row in s["h"]])


def common(s, stacked):
    m = np.array(s["mah"]).transpose(0, 2, 1)     # (nb, 5, nh)
    mah = m if stacked else DEFAULT_MAH_PARAMS._make(m.transpose(1, 0, 2))
    return (mah, col(s, "logmp0"), col(s, "upid"), col(s, "lgmu"), col(s, "lgmhost"), col(s, "gyr"), s["keys"], s["tobs"], s["lgt0"], s["fb"])


def realized(s, p):
    """Records of every halo with its realization and model probability."""
    t = pops.tup(p)
    out = []
    for b in range(s["nb"]):
        r = pops.host(dp.mc_diffstar_params_galpop(t, *pops.cols(s["h"][b]), s["keys"][b]))
        out.append([dict(h=s["h"][b][i], mah=s["mah"][b][i], p_ms=pops.row(r[0], i), p_q=pops.row(r[1], i)) for i in range(s["nh"])])
    return out


def unbounded(p):
    return dp.get_unbounded_diffstarpop_params(pops.tup(p))


def bounded_again(u):
    """The parameters which the losses see."""
    return np.array([float(x) for x in dp.get_bounded_diffstarpop_params(u)])


def mstar_data(s, medges, target, stacked=True):
    return (*common(s, stacked), medges, target)


def ssfr_data(s, medges, sedges, abund, idx, ids, target, stacked=True):
    lo, hi = bins(medges, sedges)
    return (*common(s, stacked), lo, hi, medges, sedges, abund, idx, ids, target)
