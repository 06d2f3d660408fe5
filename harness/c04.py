import numpy as np
from jax import numpy as jnp

import gen
import diffstar as ds
from dsv import get
from diffstar import DiffstarParams, DiffstarUParams, get_bounded_diffstar_params, get_unbounded_diffstar_params
from diffstar import defaults as dd
from diffstar.kernels import main_sequence_kernels as msk
from diffstar.kernels import quenching_kernels as qk

N = 8


def fields(r):
    return list(r._fields)


def each(ctx, op, scen, r, inp, inkey, outkey, emit_idx):
    """one event per element of an array call"""
    arr = [np.broadcast_to(np.asarray(getattr(r, f), float), np.shape(inp[0])).reshape(-1) for f in r._fields]
    flat = [np.asarray(x, float).reshape(-1) for x in inp]
    for i in emit_idx:
        ctx.emit(op, f"{scen}/{i}", fields=fields(r), **{inkey: [x[i] for x in flat], outkey: [x[i] for x in arr]})


def run(ctx):
    kinds = [s[0] for s in ctx.scen["MC_C04"]]
    reps = 300 if ctx.thorough else 40
    for kind in kinds:
        for rep in range(reps):
            if not ctx.mine():
                continue
            rng = ctx.rng(kind, rep)
            shape = {"array": (int(rng.choice([1, 2, 4, 7, 8])),), "array2d": (3, 4)}.get(kind, ())
            u = rng.normal(0, 3, (N,) + shape)
            if kind == "extreme":
                u = rng.choice([-1e6, -1e3, -60, -25, 25, 60, 1e3, 1e6, 0, -9, 13], N)
            u = gen.cast(u, ctx.x64)
            idx = range(int(np.prod(shape))) if shape else [0]
            arg = DiffstarUParams(*[(x if shape else float(x)) for x in u])
            ctx.note((kind, rep))
            try:
                r = get_bounded_diffstar_params(arg)
            except Exception as ex:
                ctx.emit("bound", f"{kind}/{rep}", exc=type(ex).__name__, msg=str(ex)[:200])
                continue
            each(ctx, "bound", f"{kind}/{rep}", r, u, "u", "p", idx)
            if kind == "extreme":
                continue
            # back
            lim = 8.0 if ctx.x64 else 2.5
            k = 4.0 / (gen.HI - gen.LO)
            x0 = 0.5 * (gen.HI + gen.LO)
            arg2 = np.clip(u, (x0 - lim / k).reshape((N,) + (1,) * len(shape)), (x0 + lim / k).reshape((N,) + (1,) * len(shape)))
            arg2 = gen.cast(arg2, ctx.x64)
            try:
                b = get_bounded_diffstar_params(DiffstarUParams(*[(x if shape else float(x)) for x in arg2]))
                back = get_unbounded_diffstar_params(b)
            except Exception as ex:
                ctx.emit("round_u", f"{kind}/{rep}", exc=type(ex).__name__, msg=str(ex)[:200])
                continue
            flat = arg2.reshape(N, -1)
            bk = [np.asarray(getattr(back, "u_" + f, np.nan), float).reshape(-1) for f in DiffstarParams._fields]
            for i in idx:
                ctx.emit("round_u", f"{kind}/{rep}/{i}", u=flat[:, i], back=[x[i] for x in bk])
            # physical -> unbounded -> physical
            p = np.array([gen.gal(rng, "uniform") for _ in idx]).T
            if not ctx.x64:
                p = np.clip(p, (gen.LO + 0.03 * (gen.HI - gen.LO))[:, None], (gen.HI - 0.03 * (gen.HI - gen.LO))[:, None])
                p[7] = p[6] * rng.uniform(0.05, 0.95)
            p = gen.cast(p.reshape((N,) + shape), ctx.x64)
            try:
                uu = get_unbounded_diffstar_params(DiffstarParams(*[(x if shape else float(x)) for x in p]))
                pp = get_bounded_diffstar_params(uu)
            except Exception as ex:
                ctx.emit("unbound", f"{kind}/{rep}", exc=type(ex).__name__, msg=str(ex)[:200])
                continue
            each(ctx, "unbound", f"{kind}/{rep}", uu, p, "p", "u", idx)
            flat = p.reshape(N, -1)
            bk = [np.asarray(getattr(pp, f), float).reshape(-1) for f in DiffstarParams._fields]
            for i in idx:
                ctx.emit("round_p", f"{kind}/{rep}/{i}", p=flat[:, i], back=[x[i] for x in bk])
    # population forms of the same transforms (rows are galaxies)
    fb = [get(msk, "_get_bounded_sfr_params_vmap"), get(qk, "_get_bounded_q_params_vmap")]
    fu = [get(msk, "_get_unbounded_sfr_params_vmap"), get(qk, "_get_unbounded_q_params_vmap")]
    for rep in range(12):
        if not ctx.mine() or None in fb or None in fu:
            continue
        rng = ctx.rng("vmap", rep)
        n = [1, 4, 5, 9][rep % 4]
        u = gen.cast(rng.normal(0, 2, (n, N)), ctx.x64)
        ctx.note(("vmap", rep))
        try:
            p = np.hstack([np.asarray(fb[0](u[:, :4]), float), np.asarray(fb[1](u[:, 4:]), float)])
            g = gen.cast([gen.gal(rng, "uniform") for _ in range(n)], ctx.x64)
            if not ctx.x64:
                g = gen.cast(np.clip(g, gen.LO + 0.03 * (gen.HI - gen.LO), gen.HI - 0.03 * (gen.HI - gen.LO)), False)
                g[:, 7] = gen.cast(g[:, 6] * 0.5, False)
            uu = np.hstack([np.asarray(fu[0](g[:, :4]), float), np.asarray(fu[1](g[:, 4:]), float)])
        except Exception as ex:
            ctx.emit("bound", f"vmap/{rep}", exc=type(ex).__name__, msg=str(ex)[:200])
            continue
        # the forms which take a single parameter
        for j, bn, un in ((4, "_get_bounded_qt", None), (6, "_get_bounded_lg_drop", "_get_unbounded_lg_drop")):
            b1, u1 = get(qk, bn), un and get(qk, un)
            try:
                q, w = p.copy(), uu.copy()
                if b1:
                    q[:, j] = [float(b1(float(x))) for x in u[:, j]]
                if u1:
                    w[:, j] = [float(u1(float(x))) for x in g[:, j]]
            except TypeError:      # takes something else now
                continue
            for i in range(n):
                ctx.emit("bound", f"single/{rep}/{i}/{j}", fields=list(DiffstarParams._fields), u=u[i], p=q[i])
                ctx.emit("unbound", f"single/{rep}/{i}/{j}", fields=["u_" + f for f in DiffstarParams._fields], p=g[i], u=w[i])
        for i in range(n):
            ctx.emit("bound", f"vmap/{rep}/{i}", fields=list(DiffstarParams._fields), u=u[i], p=p[i])
            ctx.emit("unbound", f"vmap/{rep}/{i}", fields=["u_" + f for f in DiffstarParams._fields], p=g[i], u=uu[i])
    if ctx.mine():
        d = ds.DEFAULT_DIFFSTAR_PARAMS
        ctx.emit("defaults", "defaults", names=fields(d), unames=fields(ds.DEFAULT_DIFFSTAR_U_PARAMS),
                 p=np.array(d, float), u=np.array(ds.DEFAULT_DIFFSTAR_U_PARAMS, float),
                 uq=np.array(dd.DEFAULT_Q_U_PARAMS_UNQUENCHED, float), q=np.array(dd.DEFAULT_Q_PARAMS_UNQUENCHED, float))
