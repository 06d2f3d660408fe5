import jax
import numpy as np
from jax import numpy as jnp

import dsv
import gen
import pops
from diffstar.diffstarpop.kernels import sfh_pdf_mgash as sp

# the documented range of each clipped relation
RANGES = [(-3.0, 5.0), (-5.0, 3.0), (-5.0, 2.0), (-3.0, 2.0), (-10.0, 2.0),
          (0.01, 1.0), (0.01, 3.0), (0.01, 0.5), (0.01, 2.0)]


def run(ctx):
    kern = dsv.get(sp, "_sfh_pdf_scalar_kernel")
    line = dsv.get(sp, "line_model")
    x64 = ctx.x64
    f = lambda a: np.asarray(a, float)
    c = lambda v: gen.cast(v, x64)
    n_sfh = len(pops.NAMES) - 9
    names = pops.NAMES[:n_sfh]
    if kern is not None:
        many = jax.jit(jax.vmap(kern, in_axes=(None, 0, 0)))

        def tup(p):
            return sp.SFH_PDF_QUENCH_PARAMS._replace(**{n: float(x) for n, x in zip(names, p)})

        def flat(r, i):
            cov = [f(r[4 + k])[i] for k in range(3)]
            return np.concatenate(([f(r[0])[i], f(r[1])[i]], [f(y)[i] for y in r[2]], [f(y)[i] for y in r[3]],
                                   *[np.diag(m) for m in cov]))

        # one parameter at a time: the enumerated parameters
        scen = [(v, int(n), name, int(o)) for v, n, name, o in ctx.scen["MC_C19"]]
        xs, ts = c(np.array([10.3, 11.4, 12.5, 13.1, 14.9])), c(np.array([1.0, 4.0, 8.0, 12.0, 13.5]))
        for k, (variant, n, name, owner) in enumerate(scen):
            if not ctx.mine():
                continue
            rng = ctx.rng(k)
            p = pops.castpop(pops.pop(rng, dict(default="default", flat="flat", steep="edge").get(variant, "uniform")), x64)
            assert pops.NAMES[n - 1] == name
            q = p.copy()
            lo, hi = pops.LO[n - 1], pops.HI[n - 1]
            q[n - 1] = c(np.clip(p[n - 1] + rng.choice([-1, 1]) * rng.uniform(0.01, 0.5) * (hi - lo), lo + 0.01 * (hi - lo), hi - 0.01 * (hi - lo)))
            a, b = pops.host(many(tup(p), xs, ts)), pops.host(many(tup(q), xs, ts))
            for i in rng.choice(5, 5 if ctx.thorough else 2, replace=False):
                ctx.emit("touch", f"{variant}/{name}/{i}", p=pops.rec(q), x=xs[i], t=ts[i], owner=owner, before=flat(a, i), after=flat(b, i))
        # halos of every mass and peak time
        for k in range(60 if ctx.thorough else 15):
            if not ctx.mine():
                continue
            rng = ctx.rng("pts", k)
            p = pops.castpop(pops.pop(rng, ["default", "calib", "uniform", "flat", "edge", "near"][k % 6]), x64)
            if k % 6 == 3:   # tiny slopes
                for s in pops.SLOPES:
                    if rng.uniform() < 0.3:
                        p[s] = c(rng.choice([-1, 1]) * 10.0 ** rng.uniform(-20, -3))
            n = 30
            xs = c(np.concatenate((rng.uniform(9, 16, n - 3), [12.5, 5.0, 20.0])))
            ts = c(np.concatenate((rng.uniform(0.1, 15, n - 4), [0.0, 14.0, 100.0, -5.0])))
            r = pops.host(many(tup(p), xs, ts))
            r2 = pops.host(many(tup(p), xs, c(rng.permutation(ts))))
            for i in range(n):
                ctx.emit("point", f"{k}/{i}", p=pops.rec(p), x=xs[i], t=ts[i], frac=[f(r[0])[i], f(r[1])[i]], ms=[f(y)[i] for y in r[2]],
                         q=[f(y)[i] for y in r[3]], cov=[f(r[4 + b])[i] for b in range(3)])
                ctx.emit("peak", f"{k}/{i}", before=flat(r, i), after=flat(r2, i))
            j = int(rng.integers(n))
            s = pops.host(kern(tup(p), float(xs[j]), float(ts[j])))
            ctx.emit("point", f"{k}/{j}/scalar", p=pops.rec(p), x=xs[j], t=ts[j], frac=[f(s[0]), f(s[1])], ms=[f(y) for y in s[2]],
                     q=[f(y) for y in s[3]], cov=[f(s[4 + b]) for b in range(3)])
    if line is None:
        return
    for k in range(120 if ctx.thorough else 30):
        if not ctx.mine():
            continue
        rng = ctx.rng("line", k)
        lo, hi = RANGES[k % len(RANGES)]
        y0 = c(lo + (hi - lo) * rng.choice([rng.uniform(0.001, 0.999), 0.5, 1e-3, 0.999, 0.99, 0.01]))
        m = c(rng.choice([-1, 1]) * rng.choice([20.0, 1.0, rng.uniform(0, 20), 10.0 ** rng.uniform(-12, 1)]))
        xs = np.concatenate((np.linspace(8, 17, 60), 12.5 + np.linspace(-1, 1, 60) * 1.05 * (hi - lo) / max(abs(m), 0.05), [12.5, -100, 200]))
        xs = np.sort(c(xs))
        y = line(xs, float(y0), float(m), lo, hi)
        ctx.emit("sweep", f"{k}", x=xs, y=f(y), y0=y0, m=m, lo=c(lo), hi=c(hi))
        for z in (0.0, -0.0, 1e-30, -1e-30):
            ctx.emit("flat", f"{k}/{z}", y0=y0, y=f(line(xs[1:-1], float(y0), z, lo, hi)))
