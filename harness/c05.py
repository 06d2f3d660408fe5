import numpy as np
from jax import numpy as jnp
from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS

import gen
import c02
from diffstar import DiffstarParams, calc_sfh_galpop, calc_sfh_singlegal
from diffstar.utils import cumulative_mstar_formed, cumulative_mstar_formed_galpop

MAHT = type(DEFAULT_MAH_PARAMS)


def o(r):
    return dict(out=np.asarray(r, float))


def run(ctx):
    # TLC's tables, singly and as populations of rows sharing the times
    bykey = {}
    for s in ctx.scen["MC_C05"]:
        n = len(s) // 2
        ts, fs = tuple(map(float, s[:n])), tuple(map(float, s[n:]))
        bykey.setdefault(ts, []).append(fs)
    stride = 1
    for k, (ts, rows) in enumerate(sorted(bykey.items())):
        if not ctx.mine():
            continue
        t, f = gen.cast(ts, ctx.x64), gen.cast(rows, ctx.x64)
        for i in range(0, len(f), stride):
            if (i + k) % 4 and not ctx.thorough:
                continue
            ctx.call("mass", f"tlc/{k}/{i}", lambda: cumulative_mstar_formed(t, f[i]), o, ts=t, fs=f[i])
        ctx.note(f"pop/{k}")
        try:
            r = np.asarray(cumulative_mstar_formed_galpop(t, f), float)
        except Exception as ex:
            ctx.emit("mass", f"pop/{k}", exc=type(ex).__name__, msg=str(ex)[:200])
            continue
        for i in range(len(f)):
            ctx.emit("mass", f"pop/{k}/{i}", ts=t, fs=f[i], out=r[i] if r.shape == f.shape else [])
    # random tables
    sizes = [1, 2, 3, 4, 5, 16, 17, 50, 63, 128, 400] + ([1001, 2048, 5000] if ctx.thorough else [1301])
    for n in sizes:
        for kind in ("smooth", "zeros", "bursty", "negative", "constant", "uneven", "repeat", "int", "huge"):
            if not ctx.mine():
                continue
            rng = ctx.rng(n, kind)
            t = np.sort(rng.uniform(0.002, 14, n))
            if kind == "uneven":
                t = np.sort(10 ** rng.uniform(-2.5, 1.1, n))
            f = 10 ** rng.uniform(-3, 2, n)
            if kind == "zeros":
                f = f * (rng.uniform(size=n) < 0.5)
            if kind == "bursty":
                f = 10 ** rng.uniform(-14, 3, n)
            if kind == "huge":
                f = 10 ** rng.uniform(3, 8, n)
            if kind == "negative":
                f = rng.normal(0, 10, n)
            if kind == "constant":
                f[:] = 3.7
            if kind == "repeat" and n > 2:
                t[n // 2] = t[n // 2 - 1]
            if kind == "int":
                if n > 16:
                    continue
                t = np.arange(1, n + 1)
                f = rng.integers(0, 9, n)
                tt, ff = t, f
            else:
                t, f = gen.cast(t, ctx.x64), gen.cast(f, ctx.x64)
                tt, ff = t, f
                if rng.uniform() < 0.3:
                    tt, ff = jnp.asarray(t), jnp.asarray(f)
            tf, fff = np.asarray(t, float), np.asarray(f, float)
            ctx.call("mass", f"rand/{n}/{kind}", lambda: cumulative_mstar_formed(tt, ff), o, ts=tf, fs=fff)
            if n <= 50 and kind != "int":
                m = [1, 2, n, 3][n % 4]
                fs = gen.cast([f * rng.uniform(0, 2) for _ in range(m)], ctx.x64)
                ctx.note(f"randpop/{n}/{kind}")
                try:
                    r = np.asarray(cumulative_mstar_formed_galpop(t, fs), float)
                except Exception as ex:
                    ctx.emit("mass", f"randpop/{n}/{kind}", exc=type(ex).__name__, msg=str(ex)[:200])
                    continue
                for i in range(m):
                    ctx.emit("mass", f"randpop/{n}/{kind}/{i}", ts=t, fs=fs[i], out=r[i] if r.shape == fs.shape else [])
    # alongside the history, singly and in populations
    for rep in range(120 if ctx.thorough else 28):
        if not ctx.mine():
            continue
        rng = ctx.rng("along", rep)
        n = int(rng.choice([1, 2, 3, 5, 8, 30]))
        g, m = gen.cast(gen.gal(rng), ctx.x64), gen.cast(gen.mah(rng), ctx.x64)
        t = np.sort(rng.uniform(0.1, 14, n))
        if rep % 3 == 0:
            t[0] = rng.uniform(0.0012, 0.01)
        if rep % 3 == 1:
            t = np.sort(np.append(rng.uniform(0.1, 14, n - 1), rng.uniform(14, 40)))
        t = gen.cast(t, ctx.x64)
        lgt0, fb = [float(gen.cast(x, ctx.x64)) for x in gen.opts(rng, rng.choice(["default", "both", "lgt0", "tinyfb"]))]
        gp, mp = DiffstarParams(*[float(x) for x in g]), MAHT(*[float(x) for x in m])
        kw = dict(gal=g, mah=m, ts=t, lgt0=lgt0, fb=fb)
        try:
            plain = np.asarray(calc_sfh_singlegal(gp, mp, t, lgt0=lgt0, fb=fb), float)
        except Exception as ex:
            ctx.emit("alongside", f"along/{rep}", exc=type(ex).__name__, msg=str(ex)[:200])
            continue
        ctx.call("alongside", f"along/{rep}", lambda: calc_sfh_singlegal(gp, mp, t, lgt0=lgt0, fb=fb, return_smh=True),
                 lambda r: dict(fields=list(r._fields), sfh=np.asarray(r[0], float), smh=np.asarray(r[1], float), plain=plain), **kw)
        k = int(rng.choice([1, 2, n, n + 1]))
        gs = np.array([g] + [gen.cast(gen.gal(rng), ctx.x64) for _ in range(k - 1)])
        ms = np.array([m] + [gen.cast(gen.mah(rng), ctx.x64) for _ in range(k - 1)])
        gp, mp = DiffstarParams(*gs.T), MAHT(*ms.T)
        ctx.call("alongside", f"alongpop/{rep}", lambda: calc_sfh_galpop(gp, mp, t, lgt0=lgt0, fb=fb, return_smh=True),
                 lambda r: dict(fields=list(r._fields), sfh=np.asarray(r[0], float)[0], smh=np.asarray(r[1], float)[0], plain=plain), **kw)
