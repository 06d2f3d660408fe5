import numpy as np

import gen
import pops
from diffstar.diffstarpop.kernels import satquenchpop_model as sq

NAMES = list(sq.DEFAULT_SATQUENCHPOP_PARAMS._fields)


def params(rng, x64, kind):
    d = np.array([float(x) for x in sq.DEFAULT_SATQUENCHPOP_PARAMS])
    if kind:
        lo, hi = pops.LO[-9:], pops.HI[-9:]
        d = lo + (hi - lo) * rng.uniform(0.005, 0.995, 9)
        if kind == 2:
            d[-4:] = rng.choice([0.001, 0.999], 4)
        if kind == 3:
            d[2:4] = rng.uniform(-5, 10)
    d = gen.cast(d, x64)
    return sq.DEFAULT_SATQUENCHPOP_PARAMS._make([float(x) for x in d]), dict(zip(NAMES, d))


def tdelay(p, lgmhost):
    """Delay from the documented interpolation (the specification re-derives it)."""
    return p.td_mlo + (p.td_mhi - p.td_mlo) / (1 + np.exp(-5.0 * (lgmhost - p.td_lgmhc)))


def run(ctx):
    c = lambda x: gen.cast(x, ctx.x64)
    f = lambda r: np.asarray(r, float)
    scen = [(float(a), float(b), float(q), int(n)) for a, b, q, n in ctx.scen["MC_C18"]]
    n_par = 12 if ctx.thorough else 4
    for k, (mu, host, q0, n) in enumerate(scen):
        for kind in range(n_par):
            if not ctx.mine():
                continue
            rng = ctx.rng(k, kind)
            if kind:   # off the grid
                mu = mu + float(rng.normal(0, 0.3))
                host = host + float(rng.normal(0, 0.3))
                q0 = float(np.clip(q0 + rng.normal(0, 0.1), 0, 1))
            mu, host, q0 = float(c(mu)), float(c(host)), float(c(q0))
            P, rec = params(rng, ctx.x64, kind % 4)
            gyr = np.concatenate(([-1000.0, -100.0], np.arange(1, n + 1) / 2 - 6, [20.0, 100.0]))
            if kind:
                gyr = np.sort(np.concatenate(([-100.0], rng.uniform(-8, 14, n))))
            gyr = c(gyr)
            ctx.call("series", f"{k}/{kind}",
                     lambda: (sq.get_qprob_sat(P, mu, host, gyr, q0), sq.predict_sat_frac_delta_qprob(P, mu, host, gyr)),
                     lambda r: dict(q=f(r[0]), frac=f(r[1])), p=rec, lgmu=mu, lgmhost=host, gyr=gyr, q0=q0)
    for k in range(20 if ctx.thorough else 8):
        if not ctx.mine():
            continue
        rng = ctx.rng("plane", k)
        P, rec = params(rng, ctx.x64, k % 4)
        m = 50
        mu, host = c(rng.uniform(-5, 0.5, m)), c(rng.uniform(10, 16, m))
        td = c(tdelay(P, host))

        def go():
            return (sq.predict_sat_frac_delta_qprob(P, mu, host, 1e4), sq.predict_sat_frac_delta_qprob(P, mu, host, td),
                    [sq.predict_sat_frac_delta_qprob(P, a, b, 1e4) for b in (-1e3, 1e3) for a in (-1e3, 1e3)])
        ctx.call("plane", f"{k}", go, lambda r: dict(frac=f(r[0]), half=f(r[1]), corner=f(r[2])), p=rec, lgmu=mu, lgmhost=host, tdelay=td)
        g, q = c(rng.uniform(-3, 10, m)), c(rng.uniform(0, 1, m))
        ctx.call("elements", f"{k}", lambda: (sq.get_qprob_sat(P, mu, host, g, q),
                                              [sq.get_qprob_sat(P, mu[i], host[i], g[i], q[i]) for i in range(m)]),
                 lambda r: dict(arr=f(r[0]), one=f(r[1])))
