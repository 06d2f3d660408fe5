import numpy as np
from jax import numpy as jnp

import gen
from diffstar import DiffstarParams, calc_sfh_singlegal
from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS

MAHT = type(DEFAULT_MAH_PARAMS)


def times(rng, kind, n, g, m):
    if kind in ("sorted", "reversed", "shuffled"):
        t = np.linspace(rng.uniform(0.01, 0.5), rng.uniform(9, 14), n)
        if n == 1:
            t = rng.uniform(0.05, 14, 1)
        if kind == "reversed":
            t = t[::-1].copy()
        if kind == "shuffled":
            t = rng.permutation(rng.uniform(0.02, 14, n))
        return t
    if kind == "duplicates":
        return np.sort(rng.choice(rng.uniform(0.1, 14, max(1, n // 2)), n))
    if kind == "log":
        return np.logspace(-2.9, np.log10(rng.uniform(10, 14)), n)
    if kind == "uneven":
        return np.cumsum(rng.exponential(14.0 / n, n)) + 1e-3
    if kind == "clustered":
        return np.sort(np.concatenate((rng.uniform(0.3, 0.301, n - n // 2), rng.uniform(9, 9.001, n // 2))))
    if kind == "extreme":
        return np.resize(np.array([1e-4, 1e-3, 1e-2, 13.8, 14.0, 100.0, 1e3, 1e-5]), n)
    if kind == "late":
        return rng.uniform(12, 25, n)
    if kind == "phases":
        w = 10 ** g[5]
        c = 10 ** (g[4] + w * np.array([-0.5, -0.5001, -0.25, -1e-6, 0.0, 1e-6, 0.25, 0.4999, 0.5, 0.6, -0.6]))
        c = np.concatenate((c, [m[4], m[4] * (1 + 1e-6), m[4] * (1 - 1e-6)]))
        return np.resize(c, n) if n >= len(c) else rng.choice(c, n)
    if kind == "int":
        return rng.integers(1, 15, n)
    raise ValueError(kind)


def run(ctx):
    reps = 3 if ctx.thorough else 1
    for k, n, dt, o in ctx.scen["MC_C01"]:
        for rep in range(reps):
            if not ctx.mine():
                continue
            rng = ctx.rng(k, n, dt, o, rep)
            g, m = gen.cast(gen.gal(rng), ctx.x64), gen.cast(gen.mah(rng), ctx.x64)
            lgt0, fb = gen.opts(rng, o)
            lgt0, fb = float(gen.cast(lgt0, ctx.x64)), float(gen.cast(fb, ctx.x64))
            t = times(rng, k, n, g, m)
            if k == "int":
                t = np.asarray(t, dtype=np.int64 if dt == "f8" else np.int32)
            elif dt == "f4":
                t = t.astype(np.float32)
            elif dt == "jnp":
                t = jnp.asarray(t)
            tt = gen.cast(t, ctx.x64)
            single = (not ctx.x64) or dt == "f4"
            gp = DiffstarParams(*[float(x) for x in g])
            mp = MAHT(*[float(x) for x in m])
            idx = np.arange(len(tt)) if n <= 50 else np.sort(rng.choice(n, 40, replace=False))

            def post(r):
                r = np.asarray(r)
                if r.shape != (n,):
                    return dict(out=[], nout=-1, nfinite=0, minout=0.0)
                return dict(out=r[idx].astype(float), nout=len(r), nfinite=int(np.isfinite(r).sum()),
                            minout=float(r.min()))

            scen = f"{k}/{n}/{dt}/{o}/{rep}"
            r = ctx.call("sfh", scen, lambda: calc_sfh_singlegal(gp, mp, t, lgt0=lgt0, fb=fb), post,
                         gal=g, mah=m, ts=tt[idx], lgt0=lgt0, fb=fb, nin=n, single=single)
            if r is not None and np.shape(r) == (n,) and 1 < n <= 50 and o == "default":
                i = int(rng.integers(0, n))
                one = np.asarray(t)[i:i + 1]
                ctx.call("sfh_local", scen, lambda: calc_sfh_singlegal(gp, mp, one, lgt0=lgt0, fb=fb),
                         lambda q: dict(alone=np.asarray(q, float).reshape(-1)),
                         out=np.asarray(r, float)[i:i + 1], single=single, gal=g)
