import numpy as np
from jax import numpy as jnp
from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS

import gen
import diffstar.utils as du
from diffstar import (DiffstarParams, calc_mgas_galpop, calc_mgas_singlegal, calc_sfh_galpop, calc_sfh_singlegal)
from dsv import get

MAHT = type(DEFAULT_MAH_PARAMS)
GALS = [gen.DEFAULT, np.array([12.0, -9.5, 2.0, -2.0, 0.6, -0.7, -2.0, -0.5]),
        np.array([11.0, -8.5, 1.0, -0.5, 1.5, -2.5, -0.5, -0.1])]
MAHS = [np.array([12.0, 0.05, 2.6, 0.14, 14.0]), np.array([13.0, 0.3, 4.0, 1.0, 4.0]),
        np.array([11.5, 0.6, 1.5, 0.3, 1.5])]


def single(ctx, scen, g, m, t, lgt0, fb):
    gp, mp = DiffstarParams(*[float(x) for x in g]), MAHT(*[float(x) for x in m])
    tt = gen.cast(t, ctx.x64)

    def fn():
        return (calc_mgas_singlegal(gp, mp, t, lgt0=lgt0, fb=fb),
                calc_sfh_singlegal(gp, mp, t, lgt0=lgt0, fb=fb, return_smh=True))

    def post(r):
        a, b = r
        return dict(fields=list(a._fields), **{k: np.asarray(v, float) for k, v in a._asdict().items()},
                    sfh2=np.asarray(b.sfh, float), smh2=np.asarray(b.smh, float))
    ctx.call("gas", scen, fn, post, gal=g, mah=m, ts=tt, lgt0=lgt0, fb=fb)


def population(ctx, scen, g, m, t, lgt0, fb, rows):
    gp, mp = DiffstarParams(*g.T), MAHT(*m.T)
    tt = gen.cast(t, ctx.x64)
    res = {}

    def fn():
        if not res:
            res["a"] = calc_mgas_galpop(gp, mp, t, lgt0=lgt0, fb=fb)
            res["b"] = calc_sfh_galpop(gp, mp, t, lgt0=lgt0, fb=fb, return_smh=True)
        return res
    for i in rows:
        def post(r):
            a, b = r["a"], r["b"]
            for v in list(a) + list(b):
                assert np.shape(v) == (len(g), len(t)), np.shape(v)
            return dict(fields=list(a._fields), **{k: np.asarray(v, float)[i] for k, v in a._asdict().items()},
                        sfh2=np.asarray(b.sfh, float)[i], smh2=np.asarray(b.smh, float)[i])
        ctx.call("gas_row", f"{scen}/row{i}", fn, post, gal=g[i], mah=m[i], ts=tt, lgt0=lgt0, fb=fb)


def run(ctx):
    for k, s in enumerate(ctx.scen["MC_C07"]):
        if not ctx.mine() or (not ctx.thorough and k % 4):
            continue
        g, m = gen.cast(GALS[s[0] - 1], ctx.x64), gen.cast(MAHS[s[1] - 1], ctx.x64)
        t = gen.cast([float(x) for x in s[2:]], ctx.x64)
        lgt0, fb = float(gen.cast(1.14, ctx.x64)), float(gen.cast(0.156, ctx.x64))
        single(ctx, f"tlc/{k}", g, m, t, lgt0, fb)
    for n in (2, 3, 4, 7, 20, 100, 300, 1100) if not ctx.thorough else (2, 3, 4, 5, 7, 11, 20, 50, 100, 300, 1000):
        for kind in ("regular", "uneven", "log", "peak", "late"):
            for o in ("default", "both", "fb"):
                if not ctx.mine():
                    continue
                if n > 1000 and (o, kind) not in (("default", "uneven"), ("both", "regular")):
                    continue
                for rep in range(3 if ctx.thorough else 2):
                    rng = ctx.rng(n, kind, o, rep)
                    g, m = gen.cast(gen.gal(rng), ctx.x64), gen.cast(gen.mah(rng), ctx.x64)
                    lgt0, fb = [float(gen.cast(x, ctx.x64)) for x in gen.opts(rng, o)]
                    t = np.linspace(rng.uniform(0.05, 1), rng.uniform(10, 14), n)
                    if kind == "uneven":
                        t = np.cumsum(rng.exponential(13 / n, n) + 0.01)
                    if kind == "log":
                        t = np.logspace(rng.uniform(-2, -0.3), 1.13, n)
                    if kind == "peak":   # one entry exactly at the peak
                        t = np.sort(np.concatenate((np.linspace(0.3, 13.5, n - 1), m[4:])))
                    if kind == "late":
                        t = m[4] + np.linspace(-0.2, 3, n)
                    t = np.unique(gen.cast(t, ctx.x64))
                    single(ctx, f"rand/{n}/{kind}/{o}/{rep}", g, m, t if rep else jnp.asarray(t), lgt0, fb)
    for n, nt in ((1, 2), (1, 9), (2, 2), (3, 3), (4, 20), (20, 4), (7, 7), (33, 50)):
        for rep in range(6 if ctx.thorough else 2):
            if not ctx.mine():
                continue
            rng = ctx.rng("pop", n, nt, rep)
            g = gen.cast([gen.gal(rng) for _ in range(n)], ctx.x64)
            m = gen.cast([gen.mah(rng) for _ in range(n)], ctx.x64)
            t = gen.cast(np.cumsum(rng.exponential(13 / nt, nt) + 0.02), ctx.x64)
            lgt0, fb = [float(gen.cast(x, ctx.x64)) for x in gen.opts(rng, ["default", "both"][rep % 2])]
            population(ctx, f"pop/{n}x{nt}/{rep}", g, m, t, lgt0, fb, sorted({0, n // 2, n - 1}))
    fj, fn = get(du, "_jax_get_dt_array"), get(du, "_get_dt_array")
    for n in (2, 3, 4, 5, 8, 50, 501):
        for kind in ("regular", "uneven", "log", "int", "neg", "decreasing", "f4"):
            if not ctx.mine():
                continue
            rng = ctx.rng("cells", n, kind)
            t = np.linspace(0.1, 13.8, n)
            if kind == "uneven":
                t = np.sort(rng.uniform(0, 14, n))
            if kind == "log":
                t = np.logspace(-3, 3, n)
            if kind == "int":
                t = np.cumsum(rng.integers(1, 5, n))
            if kind == "neg":
                t = np.linspace(-5, 5, n)
            if kind == "decreasing":
                t = np.sort(rng.uniform(0, 14, n))[::-1].copy()
            if kind == "f4":
                t = t.astype(np.float32)
            f4 = kind == "f4" or not ctx.x64
            ts = np.asarray(t, float)
            if fn is not None:
                ctx.call("cells", f"np/{n}/{kind}", lambda: fn(t), lambda r: dict(out=np.asarray(r, float)), ts=ts, single=kind == "f4")
            if fj is not None:
                ctx.call("cells", f"jax/{n}/{kind}", lambda: fj(jnp.asarray(t)), lambda r: dict(out=np.asarray(r, float)),
                         ts=gen.cast(ts, ctx.x64), single=f4)
