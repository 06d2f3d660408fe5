import numpy as np
from jax import random as jran

import pops
from dsv import get
from pops import mc

GALPOP = dict(u=mc.mc_diffstar_u_params_galpop, p=mc.mc_diffstar_params_galpop)
SINGLE = dict(u=mc.mc_diffstar_u_params_singlegal, p=mc.mc_diffstar_params_singlegal)


def rows(r, n):
    ms, q, frac, flag = pops.host(r)
    frac, flag = np.asarray(frac, float), np.asarray(flag)
    assert frac.shape == (n,) and flag.shape == (n,) and flag.dtype == bool
    return [dict(ms=pops.row(ms, i), q=pops.row(q, i), frac=frac[i], flag=flag[i]) for i in range(n)]


def one(r):
    ms, q, frac, flag = r
    return dict(ms=pops.row(ms), q=pops.row(q), frac=float(frac), flag=bool(flag))


def run(ctx):
    from diffstar.diffstarpop.kernels import diffstarpop_mgash as km
    cen_kernel = get(km, "mc_diffstar_u_params_singlegal_kernel_cen")
    scen = [tuple(s) for s in ctx.scen["MC_C16"]]
    scen += [(n, m) + (("none",) * n) for n in (1, 5, 33) for m in ("default", "varied")]
    scen += [(n, "varied") + ("none",) * (n - 1) + ("lgmu",) for n in (300, 1100)]
    if ctx.thorough:
        scen = scen * 3 + [(n, "varied") + (("none",) * n) for n in (257, 7, 12, 64)]
    for k, s in enumerate(scen):
        if not ctx.mine():
            continue
        n, model, changes = int(s[0]), s[1], list(s[2:])
        rng = ctx.rng(k)
        p = pops.castpop(pops.pop(rng, "default" if model == "default" else None), ctx.x64)
        halos = [pops.casthalo(pops.halo(rng), ctx.x64) for _ in range(n)]
        if n > 2 and rng.integers(2):
            halos[-1] = dict(halos[0])       # equal galaxies still draw differently
        seed, typed = int(rng.integers(0, 2**31 - 1)), bool(rng.integers(2))
        key = pops.key(seed, typed)
        form = ["u", "p"][int(rng.integers(2))]
        t = pops.tup(p, jx=bool(rng.integers(2)))
        pop, single = GALPOP[form], SINGLE[form]
        keys = jran.split(key, n)
        dev = pops.deviates_many(keys)
        base = rows(pop(t, *pops.cols(halos), key), n)
        take = range(n) if n < 10 else sorted(rng.choice(n, 8, replace=False))
        singles = {i: one(single(t, *[halos[i][f] for f in pops.HFIELDS], keys[i])) for i in take}
        ctx.emit("pop", f"{k}", rows=[base[i] for i in take], single=[singles[i] for i in take])
        for i in take:
            z, r = dev[i]
            b = base[i]
            ctx.emit("real", f"{k}/{i}", p=pops.rec(p), h=halos[i], z=z, r=r, frac=b["frac"], flag=b["flag"],
                     **({"u_ms": b["ms"], "u_q": b["q"]} if form == "u" else {"p_ms": b["ms"], "p_q": b["q"]}))
            if cen_kernel is not None and i == take[0]:
                h = dict(halos[i], upid=-1)
                c = one(cen_kernel(t, h["logmp0"], h["tpeak"], keys[i]))
                ctx.emit("real", f"{k}/{i}/cen", p=pops.rec(p), h=h, z=z, r=r, frac=c["frac"], flag=c["flag"], u_ms=c["ms"], u_q=c["q"])
        # again with the same inputs (after a call with others), and with one galaxy changed
        pop(t, *pops.cols([pops.casthalo(pops.halo(rng), ctx.x64) for _ in range(n)]), pops.key(seed + 1, typed))
        ctx.emit("again", f"{k}", a=base, b=rows(pop(t, *pops.cols(halos), pops.key(seed, typed)), n))
        who = next((i for i, c in enumerate(changes) if c != "none"), None)
        if who is not None:
            h2 = [dict(h) for h in halos]
            new = pops.casthalo(pops.halo(rng), ctx.x64)
            h2[who][changes[who]] = new[changes[who]]
            ctx.emit("local", f"{k}", who=who + 1, a=base, b=rows(pop(t, *pops.cols(h2), key), n))
        other = rows(pop(t, *pops.cols(halos), pops.key(seed + 12345, typed)), n)
        # relative draws of identical halos
        same = [halos[0]] * n
        dev = [[r["ms"][:4], r["q"]] for r in rows(pop(t, *pops.cols(same), key), n)] if form == "u" else \
            [[r["q"][:6]] for r in rows(pop(t, *pops.cols(same), key), n)]
        ctx.emit("other_key", f"{k}", a=base, b=other, dev=dev)
