import numpy as np
from jax import numpy as jnp

import gen
from diffstar.utils import compute_fstar, cumulative_mstar_formed


def o(r):
    return dict(out=np.asarray(r, float))


def cum(t, f):
    tp, fp = np.concatenate(([1e-3], t)), np.concatenate(([1e-14], f))
    return np.cumsum(np.diff(tp) * 0.5 * (fp[1:] + fp[:-1])) * 1e9


def run(ctx):
    scen = ctx.scen["MC_C06"]
    for k, s in enumerate(scen):
        if not ctx.mine() or (k % 3 and not ctx.thorough):
            continue
        delay = float(s[0])
        n = (len(s) - 1) // 2
        t, f = np.array(s[1:1 + n], float), np.array(s[1 + n:], float)
        m = gen.cast(cum(t, f), ctx.x64)
        extra = dict(rate=float(f[0])) if (f == f[0]).all() else {}
        d = float(gen.cast(delay, ctx.x64))
        ctx.call("fstar", f"tlc/{k}", lambda: compute_fstar(t, m, d), o, ts=t, ms=m, delay=d, **extra)
    for n in [1, 2, 3, 5, 8, 30, 100, 133, 700] + ([1000, 2500] if ctx.thorough else []):
        for kind in ("regular", "uneven", "log", "close", "flat", "step", "decreasing", "constant", "scale"):
            for dk in ("grid", "tiny", "one", "huge", "mid"):
                if not ctx.mine():
                    continue
                if n >= 100 and dk in ("huge",):
                    continue
                if n > 500 and not ctx.thorough and (dk != "mid" or kind in ("close", "scale", "flat", "step")):
                    continue
                rng = ctx.rng(n, kind, dk)
                t = np.linspace(0.2, 13.7, n)
                if kind == "uneven":
                    t = np.sort(rng.uniform(0.1, 14, n)) + 1e-3 * np.arange(n)
                if kind == "log":
                    t = np.logspace(-1.5, 1.1, n)
                if kind == "close":
                    t = 5 + 1e-2 * np.arange(n)
                f = 10 ** rng.uniform(-2, 2, n)
                if kind == "flat":
                    f[:] = 0
                if kind == "constant":
                    f[:] = 4.2
                m = cum(t, f)
                extra = {}
                if kind == "constant":
                    extra = dict(rate=4.2)
                    m = 1e9 * 4.2 * t
                if kind == "step":
                    m = np.where(t > np.median(t), 1e11, 1e3)
                if kind == "decreasing":
                    m = m[::-1].copy()
                if kind == "scale":
                    m = m * 1e-9
                d = {"grid": (t[min(n - 1, 2)] - t[0]) or 0.5, "tiny": 0.013, "one": 1.0, "huge": 30.0,
                     "mid": 0.5 * (t[-1] - t[0]) or 2.0}[dk]
                t, m, d = gen.cast(t, ctx.x64), gen.cast(m, ctx.x64), float(gen.cast(d, ctx.x64))
                ctx.call("fstar", f"rand/{n}/{kind}/{dk}", lambda: compute_fstar(t, m, d), o, ts=t, ms=m, delay=d, **extra)
