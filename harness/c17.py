import numpy as np
from jax import random as jran
from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS

import gen
import pops
from pops import dp, mc


def one(r, i=None):
    ms, q, frac, flag = r
    g = (lambda x: np.asarray(x)) if i is None else (lambda x: np.asarray(x)[i])
    assert g(flag).dtype == bool
    return dict(p_ms=pops.row(ms, i), p_q=pops.row(q, i), frac=float(g(frac)), flag=bool(g(flag)))


def run(ctx):
    # the enumerated halos, as one population
    enum = [dict(logmp0=float(a), tpeak=float(b), upid=int(c), lgmu=-1.0, lgmhost=float(gen.cast(13.2, ctx.x64)), gyr=float(d))
            for a, b, c, d in ctx.scen["MC_C17"]]
    for k, kind in enumerate(["default", "calib", "uniform", "flat"]):
        if not ctx.mine():
            continue
        rng = ctx.rng("enum", k)
        p = pops.castpop(pops.pop(rng, kind), ctx.x64)
        key = pops.key(int(rng.integers(2**31)), True)
        r = pops.host(dp.mc_diffstar_params_galpop(pops.tup(p), *pops.cols(enum), key))
        dev = pops.deviates_many(jran.split(key, len(enum)))
        for i, h in enumerate(enum):
            ctx.emit("real", f"enum/{k}/{i}", p=pops.rec(p), h=h, r=dev[i][1], **one(r, i))
    n_unit = 40 if ctx.thorough else 12
    for k in range(n_unit):
        if not ctx.mine():
            continue
        rng = ctx.rng(k)
        p = pops.castpop(pops.pop(rng, ["default", None, "uniform", "flat", "edge"][k % 5]), ctx.x64)
        t = pops.tup(p, jx=bool(k % 2))
        n = 40
        halos = [pops.casthalo(pops.halo(rng), ctx.x64) for _ in range(n)]
        key = pops.key(int(rng.integers(2**31)), bool(rng.integers(2)))
        r = pops.host(dp.mc_diffstar_params_galpop(t, *pops.cols(halos), key))
        keys = jran.split(key, n)
        dev = pops.deviates_many(keys)
        for i in range(n):
            z, u = dev[i]
            ctx.emit("real", f"{k}/{i}", p=pops.rec(p), h=halos[i], r=u, **one(r, i))
        # the same galaxies as single galaxies; infall of centrals and id of satellites are ignored
        for i in range(0, n, 8):
            h = halos[i]
            a = one(dp.mc_diffstar_params_singlegal(t, *[h[f] for f in pops.HFIELDS], keys[i]))
            z, u = dev[i]
            ctx.emit("real", f"{k}/{i}/single", p=pops.rec(p), h=h, r=u, **a)
            o = pops.casthalo(pops.halo(rng), ctx.x64)
            if h["upid"] == -1:
                h2, what = dict(h, lgmu=o["lgmu"], lgmhost=o["lgmhost"], gyr=o["gyr"]), "central_uses_infall"
            else:
                h2, what = dict(h, upid=int(rng.choice([0, 1, 99999, -2, 2**31 - 1, -100] + [2**32 - 1, 2**40 - 1, 9876543210987] * ctx.x64))), "host_id_matters"
            b = one(dp.mc_diffstar_params_singlegal(t, *[h2[f] for f in pops.HFIELDS], keys[i]))
            ctx.emit("same", f"{k}/{i}", what=what, a=a, b=b)
        # one galaxy under many keys
        h = halos[0]
        h["logmp0"] = 12.5
        m = 200
        kk = pops.key(int(rng.integers(2**31)), False)
        r = pops.host(dp.mc_diffstar_params_galpop(t, *pops.cols([h] * m), kk))
        us = [d[1] for d in pops.deviates_many(jran.split(kk, m))]
        ctx.emit("coins", f"{k}", flags=[bool(x) for x in np.asarray(r[3])], fracs=np.asarray(r[2], float), r=us)
        # main-sequence histories
        nt = int(rng.integers(1, 40))
        ts = gen.cast(np.sort(rng.uniform(0.05, 15, nt)), ctx.x64)
        mahs = [gen.cast(gen.mah(rng), ctx.x64) for _ in range(6)]
        lgt0, fb = gen.opts(rng, ["plain", "both"][k % 2])
        M = DEFAULT_MAH_PARAMS._make(np.array(mahs).T)
        sub = halos[:6]
        c = pops.cols(sub)
        r = pops.host(dp.mc_diffstar_sfh_galpop(t, M, c[0], *c[2:], key, ts, lgt0=lgt0, fb=fb))
        for i in range(6):
            ctx.emit("sfh", f"{k}/{i}", p_ms=pops.row(r.diffstar_params_ms, i), mah=mahs[i], ts=ts, lgt0=float(gen.cast(lgt0, ctx.x64)),
                     fb=float(gen.cast(fb, ctx.x64)), sfh_ms=np.asarray(r.sfh_ms, float)[i])
            c1 = [h for h in (sub[i][f] for f in pops.HFIELDS)]
            s = dp.mc_diffstar_sfh_singlegal(t, DEFAULT_MAH_PARAMS._make(mahs[i]), c1[0], *c1[2:], keys[i], ts, lgt0=lgt0, fb=fb)
            ctx.emit("sfh", f"{k}/{i}/single", p_ms=pops.row(s.diffstar_params_ms), mah=mahs[i], ts=ts, lgt0=float(gen.cast(lgt0, ctx.x64)),
                     fb=float(gen.cast(fb, ctx.x64)), sfh_ms=np.asarray(s.sfh_ms, float))
