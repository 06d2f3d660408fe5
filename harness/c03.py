import numpy as np
from jax import numpy as jnp
from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS

import gen
from dsv import get
from diffstar import DEFAULT_DIFFSTAR_PARAMS, DiffstarUParams, calc_sfh_singlegal, get_bounded_diffstar_params
from diffstar.kernels import quenching_kernels as qk


def grid(rng, q, kind):
    w = 10 ** q[1]
    if kind == "aligned":
        return q[0] + w * (np.arange(49) / 24 - 1)
    if kind == "edges":
        d = np.array([-1e-3, -1e-7, 0, 1e-7, 1e-3])
        return np.sort(np.concatenate([q[0] + w * (c + d) for c in (-0.5, -0.25, 0, 0.25, 0.5)]))
    if kind == "wide":
        return np.linspace(-3, 3, 41)
    return np.sort(rng.uniform(q[0] - w, q[0] + w, 30))


def run(ctx):
    kern = get(qk, "_quenching_kern")
    kern_u = get(qk, "_quenching_kern_u_params")
    qs = []
    for qt, d, dr, r in ctx.scen["MC_C03"]:
        dr = float(dr)
        qs.append([float(qt), float(d), dr, dr * (1 - float(r))])
    rng = ctx.rng("r")
    for _ in range(400 if ctx.thorough else 60):
        qs.append(gen.gal(rng)[4:])
    for k, q in enumerate(qs):
        if not ctx.mine():
            continue
        rng = ctx.rng(k)
        q = gen.cast(q, ctx.x64)
        for kind in ("aligned", "edges", "wide", "random"):
            if kind in ("wide", "random") and k % 3:
                continue
            lgt = gen.cast(grid(rng, q, kind), ctx.x64)
            w = 10 ** q[1]
            if kern is not None:
                a = jnp.asarray(lgt)
                ctx.call("quench", f"{k}/{kind}", lambda: kern(a, q[0], w, q[2], q[3]), lambda r: dict(out=np.asarray(r, float)),
                         q=q, lgt=lgt, tight=ctx.x64)
            # public route: the ratio of two histories isolates the factor
            if k % 2 == 0 and kind != "wide":
                lgt2 = lgt[(lgt > -1) & (lgt < 2.3)]
                if len(lgt2) == 0:
                    continue
                lgt2 = np.concatenate((lgt2, np.repeat(lgt2[-1], len(lgt) - len(lgt2))))
                t = 10 ** lgt2
                gp = DEFAULT_DIFFSTAR_PARAMS._replace(**dict(zip(("lg_qt", "qlglgdt", "lg_drop", "lg_rejuv"), map(float, q))))
                g0 = gp._replace(lg_drop=0.0, lg_rejuv=0.0)
                mp = DEFAULT_MAH_PARAMS._replace(t_peak=300.0, logm0=15.0)

                def ratio():
                    return (calc_sfh_singlegal(gp, mp, t, lgt0=1.14, fb=0.16)
                            / calc_sfh_singlegal(g0, mp, t, lgt0=1.14, fb=0.16))
                ctx.call("quench_sfr", f"{k}/{kind}", ratio, lambda r: dict(out=np.asarray(r, float)),
                         q=q, lgt=np.log10(gen.cast(t, ctx.x64)), tight=False)
        if k % 4 == 0:
            u = gen.cast(rng.normal(0, 2, 4), ctx.x64)
            up = DiffstarUParams(0.0, 0.0, 0.0, 0.0, *[float(x) for x in u])
            b = np.array(get_bounded_diffstar_params(up), float)[4:]
            lgt = gen.cast(grid(rng, b, "aligned"), ctx.x64)
            if kern_u is not None:
                ctx.call("quench_u", f"{k}/u", lambda: kern_u(jnp.asarray(lgt), *u), lambda r: dict(out=np.asarray(r, float)),
                         q=b, lgt=lgt, tight=ctx.x64)
