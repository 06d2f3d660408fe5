"""Adam on landscapes whose whole course the specification knows.

On the ladder the gradient along one coordinate is one everywhere, so that Adam
descends by the step size at every update; the loss is read from a table by rung.
"""
import jax
import numpy as np
from jax import numpy as jnp
from scipy.optimize import minimize as scipy_minimize

import diffstar.fitting_helpers.utils as fu
from dsv import get


@jax.custom_vjp
def gscale(z, s):
    return z


gscale.defvjp(lambda z, s: (z, s), lambda s, g: (g * s, jnp.zeros_like(s)))


class Ladder:
    """table: loss codes by rung, 0 = bad; bad: how rungs are bad.

    Codes are placed on a scale of losses: off + mult * code."""

    def __init__(self, table, h, x0, j, bad, rng):
        self.mult = float(rng.choice([1.0, 1.0, 1e4, 1e-4, 1e8]))
        self.off = self.mult * float(rng.choice([0.0, -0.75 * max(table), -1.5 * max(table) - 2.0]))
        val = self.off + self.mult * (1.5 * np.array(table) + 1e-3 * np.arange(len(table)))
        slope = np.ones(len(table))
        for r in np.flatnonzero(np.array(table) == 0):
            k = bad[r % len(bad)]
            if k == "nan_loss":
                val[r] = np.nan
            elif k == "inf_loss":
                val[r] = np.inf
            else:
                slope[r] = np.nan if k == "nan_grad" else np.inf
                val[r] = self.off - self.mult
        self.h, self.x0, self.j, self.n = h, np.array(x0, float), j, len(table)
        v, s = jnp.asarray(val), jnp.asarray(slope)
        start = float(self.x0[j])

        def loss(p, data):
            x = p[j]
            r = jnp.clip(jnp.round((start - jax.lax.stop_gradient(x)) / h), 0, self.n - 1).astype(int)
            return v[r] + gscale(x - jax.lax.stop_gradient(x), s[r])
        self.loss = loss

    def rung(self, p):
        p = np.asarray(p, float)
        r = (self.x0[self.j] - p[self.j]) / self.h
        ok = np.isfinite(r) and abs(r - round(r)) < 0.02
        return int(round(r)) if ok else -777

    def others(self, p):
        q, w = np.array(p, float), self.x0.copy()
        q[self.j] = w[self.j] = 0
        return bool(np.allclose(q, w, rtol=1e-6, atol=0, equal_nan=True))


BADS = ["nan_loss", "inf_loss", "nan_grad", "inf_grad"]


def ladder(ctx, scen, table, nwarm, wstride, wn, n, h, rng, defaults=False):
    nd = int(rng.integers(1, 5))
    j = int(rng.integers(nd))
    x0 = np.round(rng.uniform(-4, 4, nd) * 8) / 8
    L = Ladder(table, h, x0, j, [BADS[int(rng.integers(4))], BADS[int(rng.integers(4))]], rng)
    kw = dict(n_warmup=nwarm)
    if not defaults:
        kw.update(step_size=h, warmup_n_step=wn, warmup_step_size=h * wstride)

    def post(r):
        p, loss, la, pa, flag = r
        return dict(seen=[L.rung(q) for q in np.asarray(pa)], loss_arr=np.asarray(la, float), best=L.rung(p),
                    loss=float(loss), flag=int(flag), others=all(map(L.others, [p] + list(np.asarray(pa)))))
    ctx.call("ladder", scen, lambda: fu.jax_adam_wrapper_v2(L.loss, x0.copy(), None, n, **kw), post,
             table=[int(x) for x in table], nwarm=nwarm, wstride=wstride, wn=wn, n=n, off=L.off, mult=L.mult)


def combined(ctx, scen, table, how, wstride, wn, n, h, rng):
    nd = int(rng.integers(1, 5)) + (how == "exhausted")
    j = int(rng.integers(nd))
    x0 = np.round(rng.uniform(-4, 4, nd) * 8) / 8
    L = Ladder(table, h, x0, j, [BADS[int(rng.integers(4))], BADS[int(rng.integers(4))]], rng)

    class Descent:
        """What the quasi-Newton run sees (numpy arrays; Adam sees tracers)."""

        def __init__(self):
            self.calls = 0

        def deriv(self, p, data):
            g = np.zeros(nd)
            if how == "failed":
                g[j] = -1.0   # uphill: the line search cannot make progress
            elif how == "failed_elsewhere":   # the same after a first good step
                g[:] = -1.0 if np.array_equal(p, x0) else 1.0
            elif how == "exhausted":   # ever downhill, until evaluations run out
                g[self.calls % nd] = 1.0
            return g

        def fun(self, p, data):
            if isinstance(p, np.ndarray):
                self.calls += 1
                if how == "failed":
                    return float(100.0 + p[j])
                if how == "failed_elsewhere":
                    return 50.0 if np.array_equal(p, x0) else float(40.0 - np.sum(p - x0))
                if how == "exhausted":
                    return 1e5 - self.calls
            return L.loss(p, data)
    first, fresh = Descent(), Descent()
    q = scipy_minimize(first.fun, x0=x0.copy(), method="L-BFGS-B", jac=first.deriv, args=(None,))
    kw = dict(step_size=h, warmup_n_step=wn, warmup_step_size=h * wstride)

    def post(r):
        p, loss, flag = r
        return dict(p=np.asarray(p, float), best=L.rung(p), loss=float(loss), flag=int(flag), others=L.others(p))
    ctx.call("combined", scen, lambda: fu.minimizer(fresh.fun, fresh.deriv, x0.copy(), None, n, **kw), post,
             table=[int(x) for x in table], nwarm=2, wstride=wstride, wn=wn, n=n, how=how, off=L.off, mult=L.mult,
             qn_success=bool(q.success), qn_x=np.asarray(q.x, float), qn_fun=float(q.fun))


def run(ctx):
    wn, mn = (3, 4) if ctx.thorough else (2, 3)
    for k, s in enumerate(ctx.scen["MC_C09"]):
        if not ctx.mine() or (ctx.thorough and k % 3):
            continue
        qn, nwarm, table = s[0], s[1], list(s[2:])
        rng = ctx.rng(k)
        if qn == "adam_only":
            ladder(ctx, f"tlc/{k}", table, nwarm, 2, wn, mn, 0.25, rng)
        else:
            if qn == "failed" and k % 2:
                qn = "exhausted" if k % 41 == 0 else "failed_elsewhere"
            combined(ctx, f"tlc/{k}", table, qn, 2, wn, mn, 0.25, rng)
    for rep in range(16 if not ctx.thorough else 100):
        if not ctx.mine():
            continue
        rng = ctx.rng("rand", rep)
        pbad = [0, 0.01, 0.1, 0.5][rep % 4]
        nwarm = int(rng.integers(0, 4))
        n = int(rng.choice([1, 2, 10, 60]))
        w, st = int(rng.choice([1, 3, 20])), int(rng.choice([1, 2, 5]))
        size = nwarm * w * st + n + 1
        table = rng.permutation(np.arange(1, size + 1)) * (rng.uniform(size=size) >= pbad)
        ladder(ctx, f"rand/{rep}", table, nwarm, st, w, n, 0.125, rng)
        # documented defaults: steps of 0.01, 50 warm-up steps five times as large
        size = nwarm * 250 + n + 1
        table = rng.permutation(np.arange(1, size + 1)) * (rng.uniform(size=size) >= pbad / 10)
        ladder(ctx, f"defaults/{rep}", table, nwarm, 5, 50, n, 0.01, rng, defaults=True)
        combined(ctx, f"rand/{rep}", (rng.permutation(np.arange(1, 2 * w * st + n + 2)) * (rng.uniform(size=2 * w * st + n + 1) >= pbad)),
                 ["failed", "converged", "failed_elsewhere", "exhausted"][rep % 4], st, w, n, 0.125, rng)
    for rep in range(12 if not ctx.thorough else 120):
        if not ctx.mine():
            continue
        rng = ctx.rng("bowl", rep)
        nd, n = int(rng.integers(1, 9)), int(rng.choice([1, 2, 30, 120]))
        c, a = rng.uniform(0.3, 4, nd), rng.normal(size=nd)
        x0 = a + rng.normal(size=nd) * rng.choice([0.05, 1.0])
        h = float(rng.choice([0.01, 0.1, 0.003]))
        wall = float(rng.choice([-1e6, x0[0] - 3.3 * h, x0[0] + 1.0, x0[0] - 0.7 * n * h]))
        c, a, x0 = [np.asarray(v, np.float32).astype(float) for v in (c, a, x0)]
        wall = float(np.float32(wall))
        cj, aj = jnp.asarray(c), jnp.asarray(a)

        def loss(p, data):
            v = jnp.sum(cj * (p - aj) ** 2)
            return jnp.where(p[0] < wall, jnp.nan, v)

        def post(r):
            p, lo, la, pa, flag = r
            return dict(p=np.asarray(p, float), loss=float(lo), loss_arr=np.asarray(la, float),
                        params_arr=np.asarray(pa, float), flag=int(flag))
        ctx.call("bowl", f"{rep}", lambda: fu.jax_adam_wrapper_v2(loss, x0.copy(), None, n, step_size=h), post,
                 c=c, a=a, wall=wall, x0=x0, h=h, n=n)
        if wall < -1e5:
            loss0 = float(np.sum(c * (x0 - a) ** 2))
            ctx.call("warm", f"{rep}", lambda: fu.jax_adam_wrapper_v2(loss, x0.copy(), None, n, n_warmup=1 + rep % 3, step_size=h),
                     lambda r: dict(p=np.asarray(r[0], float), loss=float(r[1]), flag=int(r[4]), nrec=len(r[2])),
                     c=c, a=a, x0=x0, n=n, loss0=loss0)
    # parameters which are not finite: nothing is visited
    for rep in range(6):
        if not ctx.mine():
            continue
        rng = ctx.rng("nanstart", rep)
        x0 = np.array([1.0, [np.nan, np.inf][rep % 2], 0.5])
        L = Ladder([1, 2, 3, 4, 5, 6, 7, 8], 0.25, x0, 0, BADS, rng)
        ctx.call("ladder", f"nanstart/{rep}", lambda: fu.jax_adam_wrapper_v2(L.loss, x0.copy(), None, 3, n_warmup=rep % 3, step_size=0.25),
                 lambda r: dict(seen=[L.rung(q) for q in np.asarray(r[3])], loss_arr=np.asarray(r[2], float), best=L.rung(r[0]),
                                loss=float(r[1]), flag=int(r[4]), others=L.others(r[0])),
                 table=[0] * 8, nwarm=rep % 3, wstride=2, wn=2, n=3, off=L.off, mult=L.mult)
