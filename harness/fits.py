"""Histories to fit and the layout of the fitter's data."""
import numpy as np

import gen
from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS

MAHT = type(DEFAULT_MAH_PARAMS)
ORDER = ("t_table", "mah_params", "mstar_target", "logmstar_target", "sfh_target", "log_fstar_target", "fstar_tdelay",
         "ssfrh_floor", "weight", "weight_fstar", "lgt_fstar_max", "lgt0", "fb")
ALIAS = {"mstar_target": ("sm_target",), "logmstar_target": ("log_sm_target",)}
DEFOPT = dict(dlogm_cut=3.5, t_fit_min=1.0, mass_fit_min=7.0, fstar_tdelay=1.0, ssfrh_floor=1e-12)
SHORT = dict(dlogm_cut="dlogm", t_fit_min="tmin", mass_fit_min="mmin", fstar_tdelay="delay", ssfrh_floor="floor")


def named(loss_data):
    if hasattr(loss_data, "_asdict"):
        loss_data = loss_data._asdict()
    if isinstance(loss_data, dict):
        d = dict(loss_data)
        for k, al in ALIAS.items():
            for a in al:
                if a in d:
                    d.setdefault(k, d[a])
        return d
    return dict(zip(ORDER, loss_data))


def history(rng, kind, t, g=None, m=None):
    """A simulated star formation history."""
    n = len(t)
    if kind == "model":
        from diffstar import DiffstarParams, calc_sfh_singlegal
        return np.asarray(calc_sfh_singlegal(DiffstarParams(*g), MAHT(*m), t, lgt0=gen.LGT0, fb=gen.FB), float)
    if kind == "burst":
        s = np.full(n, 1e-3)
        s[rng.integers(n)] = 100.0
    elif kind == "flash":
        s = 10 ** (rng.uniform(-3.0, -1.5, n))
        k = np.argsort(np.diff(t))[:3] + 1
        s[k] = 10 ** rng.uniform(1.5, 2.5, 3)
    elif kind == "quenched":
        s = 10 ** (1.5 - 3 * (t / t[-1]))
        s[t > 0.6 * t[-1]] = 0.0
    elif kind == "late":
        s = np.where(t < 0.7 * t[-1], 0.0, 10.0)
    elif kind == "zero":
        s = np.zeros(n)
    elif kind == "tiny":
        s = 10 ** rng.uniform(-16, -9, n)
    elif kind == "rising":
        s = 10 ** (-2 + 3 * t / t[-1])
    elif kind == "steep":
        s = 10 ** (-4 + 5.5 * t / t[-1])
    elif kind == "flat":
        s = np.full(n, 3.0)
    else:
        s = 10 ** (rng.normal(0, 0.8, n) + rng.uniform(-3, 2))
    return s


def options(rng, kind):
    o = dict(DEFOPT)
    if kind == "default":
        return o
    if kind in ("cuts", "all"):
        o["dlogm_cut"] = float(rng.choice([0.2, 1.0, 2.0, 6.0]))
        o["t_fit_min"] = float(rng.choice([0.0, 0.5, 2.0, 5.0, 20.0]))
        o["mass_fit_min"] = float(rng.choice([0.0, 8.0, 9.5, 12.0]))
    if kind in ("rates", "all"):
        o["fstar_tdelay"] = float(rng.choice([0.25, 0.5, 2.0, 3.3]))
        o["ssfrh_floor"] = float(rng.choice([1e-13, 1e-11, 1e-10]))
    return o


def short(o):
    return {SHORT[k]: v for k, v in o.items()}
