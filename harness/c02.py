import numpy as np
from jax import numpy as jnp
from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS

import gen
from diffstar import (DiffstarParams, calc_mgas_galpop, calc_mgas_singlegal, calc_sfh_galpop,
                      calc_sfh_singlegal)

MAHT = type(DEFAULT_MAH_PARAMS)


def as_dict(r, what):
    if what == "sfh":
        return {"sfh": np.asarray(r, float)}
    return {k: np.asarray(getattr(r, k), float) for k in r._fields}


def run_pop(what, g, m, t, lgt0, fb):
    gp, mp = DiffstarParams(*np.asarray(g).T), MAHT(*np.asarray(m).T)
    if what == "gas":
        return calc_mgas_galpop(gp, mp, t, lgt0=lgt0, fb=fb)
    return calc_sfh_galpop(gp, mp, t, lgt0=lgt0, fb=fb, return_smh=(what == "smh"))


def run_one(what, g, m, t, lgt0, fb):
    gp, mp = DiffstarParams(*[float(x) for x in g]), MAHT(*[float(x) for x in m])
    if what == "gas":
        return calc_mgas_singlegal(gp, mp, t, lgt0=lgt0, fb=fb)
    return calc_sfh_singlegal(gp, mp, t, lgt0=lgt0, fb=fb, return_smh=(what == "smh"))


def compare(ctx, scen, what, g, m, t, lgt0, fb, rows, tidx, cache=None):
    n = len(g)
    out = {}

    def popcall():
        r = run_pop(what, g, m, t, lgt0, fb)
        out["p"] = as_dict(r, what)
        out["f"] = ["sfh"] if what == "sfh" else list(r._fields)
        return r

    ctx.note(scen)
    try:
        popcall()
    except Exception as ex:
        ctx.emit("poprow", scen, exc=type(ex).__name__, msg=str(ex)[:200])
        return
    p = out["p"]
    for i in rows:
        def post(r):
            o = as_dict(r, what)
            bad = [k for k in p if p[k].ndim != 2 or p[k].shape[1] != len(t)] + \
                  [k for k in o if o[k].shape != (len(t),)]
            f1 = ["sfh"] if what == "sfh" else list(r._fields)
            if bad:
                return dict(nrows=-1, fields=out["f"], fields1=f1)
            return dict(nrows=min(len(p[k]) for k in p), fields=out["f"], fields1=f1,
                        pop={k: (v[i] if i < len(v) else v[0])[tidx] for k, v in p.items()},
                        one={k: v[tidx] for k, v in o.items()})
        ctx.call("poprow", f"{scen}/row{i}", lambda: run_one(what, g[i], m[i], t, lgt0, fb), post,
                 what=what, ngal=n, nt=len(tidx), ts=gen.cast(t, ctx.x64)[tidx], gal=g[i], mah=m[i], lgt0=lgt0, fb=fb)


def run(ctx):
    # 1. every population TLC reaches by edits, over three fixed galaxies
    rng = ctx.rng("base")
    g3 = gen.cast([gen.gal(rng) for _ in range(3)], ctx.x64)
    m3 = gen.cast([gen.mah(rng) for _ in range(3)], ctx.x64)
    t3 = gen.cast([0.7, 2.5, 4.0, 9.0, 13.7], ctx.x64)
    for ids in ctx.scen["MC_C02"]:
        if not ctx.mine():
            continue
        ids = np.array(ids) - 1
        what = ["sfh", "smh", "gas"][int(ids.sum() + len(ids)) % 3]
        rows = [len(ids) - 1] if ctx.n % 2 else [0]
        if len(ids) > 2:
            rows = sorted({0, len(ids) // 2, len(ids) - 1})
        lgt0, fb = float(gen.cast(gen.LGT0, ctx.x64)), float(gen.cast(gen.FB, ctx.x64))
        compare(ctx, "edit/" + "".join(map(str, ids)), what, g3[ids], m3[ids], t3, lgt0, fb, rows, np.arange(5))
    # 2. random populations of all sizes, square shapes included
    sizes = [(1, 1), (1, 4), (2, 2), (3, 2), (2, 3), (4, 4), (5, 5), (8, 8), (8, 5), (5, 8), (4, 5), (17, 3), (7, 40),
             (64, 3), (257, 2), (1031, 2)]
    for n, nt in sizes:
        for what in ("sfh", "smh", "gas"):
            for rep in range(4 if ctx.thorough else 1):
                if what == "gas" and nt < 2:
                    continue
                if not ctx.mine():
                    continue
                rng = ctx.rng(n, nt, what, rep)
                g = gen.cast([gen.gal(rng) for _ in range(n)], ctx.x64)
                m = gen.cast([gen.mah(rng) for _ in range(n)], ctx.x64)
                if rng.uniform() < 0.3:
                    g[:] = g[0]
                t = gen.cast(np.sort(rng.uniform(0.2, 14, nt)) + 0.01 * np.arange(nt), ctx.x64)
                lgt0, fb = [float(gen.cast(x, ctx.x64)) for x in gen.opts(rng, rng.choice(["default", "both", "lgt0"]))]
                rows = sorted({0, n - 1, int(rng.integers(n)), int(rng.integers(n)), n // 2})
                if rng.uniform() < 0.3:
                    t = jnp.asarray(t)
                tidx = np.arange(nt)
                compare(ctx, f"rand/{n}x{nt}/{what}/{rep}", what, g, m, t, lgt0, fb, rows, tidx)
