import numpy as np
from jax import numpy as jnp

import gen
from dsv import get
import diffstar.diffstarpop.utils as pu
import diffstar.utils as du

FORMS = ["np", "jnp", "f4"]


def form(a, k, ctx):
    """The array in one of the accepted forms, and its value."""
    a = np.asarray(a)
    if k == 1:
        b = jnp.asarray(a)
    elif k == 2 and a.dtype.kind == "f":
        b = a.astype("f4")
    else:
        b = a
    v = np.asarray(jnp.asarray(b))      # what the library sees
    return b, v.astype(float)


def single(ctx, k, *arrs):
    return (not ctx.x64) or k == 2


def matrices(ctx, scen):
    todo = [(f"tlc/{k}", s) for k, s in enumerate(scen)] + [(f"rand/{k}", None) for k in range(300 if ctx.thorough else 80)]
    for name, s in todo:
        if not ctx.mine():
            continue
        rng = ctx.rng("m", name)
        if s is not None:
            n = int(round(len(s) ** 0.5))
            m = np.array([[0.0, -1.0, 1.0][c] for c in s]).reshape(n, n) * 10 ** rng.uniform(-2, 2, (n, n))
            np.fill_diagonal(m, 10 ** rng.uniform(-4, 4, n))
        else:
            n = int(rng.choice([1, 2, 3, 4, 5, 8, 12]))
            kind = rng.choice(["psd", "sym", "any", "diag", "int"])
            if kind == "psd":
                a = rng.normal(size=(n, n + 1))
                m = a @ a.T
            elif kind == "int":
                m = rng.integers(-3, 4, (n, n))
                m = m + m.T
                np.fill_diagonal(m, rng.integers(1, 20, n))
            else:
                m = rng.normal(size=(n, n))
                m = m if kind == "any" else (m + m.T)
                np.fill_diagonal(m, rng.uniform(0.1, 3, n))
                if kind == "diag":
                    m = np.diag(np.diag(m))
            if kind != "int":
                m = np.where((rng.uniform(size=(n, n)) < 0.2) & ~np.eye(n, dtype=bool), 0.0, m)
                if n > 1 and rng.uniform() < 0.5:
                    s10 = 10 ** rng.uniform(-4, 4, n)
                    m = m * np.outer(s10, s10)
        if m.dtype.kind == "f" and rng.uniform() < 0.5:      # any unit of measurement
            m = m * 10 ** rng.uniform(-14, 14)
        k = int(rng.integers(3))
        b, v = form(m, k, ctx)
        fn = pu.correlation_from_covariance
        r = ctx.call("corr", name, lambda: fn(b), lambda r: dict(corr=np.asarray(r, float)), cov=v, single=single(ctx, k, b))
        if r is None:
            continue
        sig = np.sqrt(np.diag(v))
        sb, sv = form(sig, k, ctx)
        cv = np.asarray(r, float)
        ctx.call("cov", name, lambda: pu.covariance_from_correlation(r, sb), lambda r: dict(cov=np.asarray(r, float)), corr=cv, sig=sv,
                 orig=v, single=single(ctx, k, b))
        # a correlation matrix of its own
        if rng.uniform() < 0.6:
            c = rng.uniform(-1, 1, v.shape)
            c = np.where(rng.uniform(size=v.shape) < 0.3, 0.0, (c + c.T) / 2)
            np.fill_diagonal(c, 1.0)
            cb, cv = form(c, k, ctx)
            e = 10 ** (rng.uniform(-3, 3, len(c)) + rng.choice([0.0, -6.0, 5.0]))
            eb, ev = form(e, k, ctx)

            def both():
                q = pu.covariance_from_correlation(cb, eb)
                return q, pu.correlation_from_covariance(q)
            ctx.call("covcorr", name, both, lambda r: dict(cov=np.asarray(r[0], float), back=np.asarray(r[1], float)), corr=cv, sig=ev,
                     single=single(ctx, k, cb))


def interps(ctx, scen):
    fi, fv = get(du, "jax_np_interp"), get(pu, "jax_np_interp_vmap")
    todo = [(f"tlc/{k}", s) for k, s in enumerate(scen)] + [(f"rand/{k}", None) for k in range(200 if ctx.thorough else 60)]
    for name, s in todo:
        if not ctx.mine():
            continue
        rng = ctx.rng("i", name)
        n = s[0] if s is not None else int(rng.choice([2, 3, 5, 20, 100]))
        kind = rng.choice(["f", "log", "int"]) if n < 30 else "f"
        if kind == "int":
            xt = np.cumsum(rng.integers(1, 9, n)) - 10
        elif kind == "log":
            xt = np.sort(10 ** rng.uniform(-3, 3, n))
            xt = xt[0] + np.cumsum(np.maximum(np.diff(xt, prepend=xt[0]), 1e-3 * xt))
        else:
            xt = np.cumsum(rng.uniform(0.01, 1, n)) + rng.normal() * 5
        if kind != "int" and rng.uniform() < 0.6:      # any units: narrow and wide cells
            xt = (xt - (xt[0] if kind == "f" else 0)) * 10 ** rng.uniform(-9, 6)
        yt = rng.normal(size=n) * 10 ** rng.uniform(-3, 3) if rng.uniform() < 0.8 else rng.integers(-9, 9, n)
        k = int(rng.integers(3))
        xb, xv = form(xt, k, ctx)
        yb, yv = form(yt, k, ctx)
        if s is not None:
            j, q = divmod(s[1], 4)
            x = np.array([xv[j] if q == 0 else xv[j] + q / 4 * (xv[j + 1] - xv[j])])
        else:
            j = rng.integers(0, n - 1, 6)
            x = np.concatenate((rng.uniform(xv[0], xv[-1], 4), xv[j] + rng.uniform(size=6) * (xv[j + 1] - xv[j]), rng.choice(xv, 3), [xv[0], xv[-1]]))
        if k == 2 or not ctx.x64:
            x = np.clip(x.astype("f4"), np.float32(xv[0]), np.float32(xv[-1])).astype(float)
        hi = np.clip(np.searchsorted(xv, x, side="left"), 1, n - 1)
        hi2 = np.clip(np.searchsorted(xv, x, side="right"), 1, n - 1)
        pick = np.where(rng.uniform(size=x.size) < 0.5, hi, hi2)
        xb2 = x.astype("f4") if k == 2 else x
        idx = [pick, jnp.asarray(pick), pick.astype("i4")][int(rng.integers(3))]
        sg = single(ctx, k, xb, yb)
        ctx.call("interp", name, lambda: fi(xb2, xb, yb, idx), lambda r: dict(y=np.asarray(r, float)), x=x, xt=xv, yt=yv, idx=pick, single=sg)
        if x.size == 1 or rng.uniform() < 0.3:
            ctx.call("interp", name + "/scalar", lambda: fi(float(x[0]) if k != 2 else np.float32(x[0]), xb, yb, int(pick[0])),
                     lambda r: dict(y=[float(r)]), x=x[:1], xt=xv, yt=yv, idx=pick[:1], single=sg)
        if fv is not None and n in (3, 5, 20):
            m = 4
            X = np.tile(x[:2], (m, 1)) if x.size > 1 else np.tile(x, (m, 1))
            XT = np.array([xv + 0 * i for i in range(m)])
            I = np.tile(pick[:X.shape[1]], (m, 1))
            for i in range(m):
                X[i] += 0
            if k != 2:
                shift = rng.integers(-3, 4, m) * float(xv[-1] - xv[0])
                X, XT = X + shift[:, None], XT + shift[:, None]
                X = np.clip(gen.cast(X, ctx.x64), gen.cast(XT, ctx.x64)[:, :1], gen.cast(XT, ctx.x64)[:, -1:])
                X, XT = np.asarray(X, float), np.asarray(gen.cast(XT, ctx.x64), float)
                if not (np.diff(XT) > 0).all() or not all(XT[i][I[i][j] - 1] <= X[i][j] <= XT[i][I[i][j]] for i in range(m) for j in range(X.shape[1])):
                    continue
            ctx.call("interp_vmap", name, lambda: fv(X, XT, yb, I), lambda r: dict(y=np.asarray(r, float)), x=X, xt=XT, yt=yv, idx=I, single=sg)


def cells(ctx):
    for rep in range(160 if ctx.thorough else 50):
        if not ctx.mine():
            continue
        rng = ctx.rng("d", rep)
        n = int(rng.choice([2, 2, 3, 4, 7, 50, 200]))
        kind = rep % 4
        t = [np.linspace(0.1, 13.8, n), np.cumsum(rng.uniform(0.01, 1, n)), np.logspace(-1, 1.14, n), np.cumsum(rng.integers(1, 5, n))][kind]
        k = int(rng.integers(3))
        b, v = form(t, k, ctx)
        for which, f in (("np", get(du, "_get_dt_array")), ("jax", get(du, "_jax_get_dt_array"))):
            if f is None:
                continue
            if which == "np" and k == 2:
                v = np.asarray(b, float)
            ctx.call("cells", f"{which}/{rep}", lambda: f(b), lambda r: dict(dt=np.asarray(r, float)), t=v, n=n, single=single(ctx, k, b))


def broadcast(ctx, scen):
    f = du.get_1d_arrays
    todo = [(f"tlc/{k}", s) for k, s in enumerate(scen)] + [(f"rand/{k}", None) for k in range(100 if ctx.thorough else 40)]
    for i, (name, s) in enumerate(todo):
        if not ctx.mine() or (s is not None and i % 2 and not ctx.thorough):
            continue
        rng = ctx.rng("b", name)
        if s is None:
            n = int(rng.choice([1, 2, 5, 100]))
            s = [int(x) for x in rng.choice([0, 1, n, n, n + 1 if rng.uniform() < 0.2 else n], int(rng.integers(1, 9)))]
        args, vals, kinds = [], [], []
        for m in s:
            size = {-1: 0, 0: 1}.get(m, m)
            kind = str(rng.choice(["f", "i", "f4", "b"]))
            v = dict(f=rng.normal(size=size), i=rng.integers(-9, 10**6, size), f4=rng.normal(size=size).astype("f4"), b=rng.uniform(size=size) < 0.5)[kind]
            a = v
            if m == 0:
                a = [v[0], v[0].item()][int(rng.integers(2))]
                if rng.uniform() < 0.2:
                    a = np.asarray(v[0])
            elif kind != "i" and rng.uniform() < 0.3:
                a = jnp.asarray(v)
                v = np.asarray(a)
            args.append(a)
            vals.append(v.astype(float))
            kinds.append(np.atleast_1d(a).dtype.kind)
        ctx.call("broadcast", name, lambda: f(*args),
                 lambda r: dict(out=[np.asarray(x, float) for x in r], shapes=[list(np.shape(x)) for x in r], out_kinds=[np.asarray(x).dtype.kind for x in r]),
                 lens=s, vals=vals, kinds=kinds)


def sigmoids(ctx, scen):
    fams = [("exp", get(du, "_sigmoid"), get(du, "_inverse_sigmoid")), ("exp", get(pu, "_sigmoid"), get(pu, "_inverse_sigmoid")),
            ("poly", get(du, "sigmoid_poly"), None)]
    todo = [(f"tlc/{k}", [float(x) for x in s]) for k, s in enumerate(scen)] + [(f"rand/{k}", None) for k in range(200 if ctx.thorough else 60)]
    for i, (name, s) in enumerate(todo):
        if not ctx.mine():
            continue
        rng = ctx.rng("s", name)
        if s is None:
            lo = rng.normal() * 10 ** rng.uniform(-2, 2)
            s = [rng.choice([-1, 1]) * 10 ** rng.uniform(-2, 3), lo, lo + rng.choice([-1, 1]) * 10 ** rng.uniform(-2, 2), rng.normal() * 3]
        k, lo, hi, x0 = [float(gen.cast(v, ctx.x64)) for v in s]
        x = np.concatenate((x0 + np.linspace(-8, 8, 33) / abs(k), x0 + np.array([-1e4, -50.0, 50.0, 1e4]) / abs(k), [x0]))
        x = np.sort(np.asarray(gen.cast(x, ctx.x64), float))
        for fam, f, inv in fams:
            if f is None:
                continue
            xb = x if i % 2 else jnp.asarray(x)
            r = ctx.call("sigmoid", f"{fam}/{name}", lambda: f(xb, x0, k, lo, hi), lambda r: dict(y=np.asarray(r, float)),
                         x=x, k=k, lo=lo, hi=hi, x0=x0, fam=fam, single=not ctx.x64)
            if r is None or inv is None:
                continue
            y = np.linspace(0.02, 0.98, 25) * (hi - lo) + lo
            y = np.asarray(gen.cast(y, ctx.x64), float)
            y = y[(y > min(lo, hi)) & (y < max(lo, hi))]

            def both():
                u = inv(y, x0, k, lo, hi)
                return u, f(u, x0, k, lo, hi)
            ctx.call("inverse", f"{fam}/{name}", both, lambda r: dict(u=np.asarray(r[0], float), back=np.asarray(r[1], float)), y=y, k=k, lo=lo,
                     hi=hi, x0=x0, single=not ctx.x64)
    f = get(pu, "_inverse_sigmoid")
    if f is not None and ctx.mine():
        y = np.asarray(gen.cast(np.linspace(-0.95, 0.95, 21), ctx.x64), float)
        try:
            f(y)
        except TypeError:
            return
        g = get(pu, "_sigmoid")
        ctx.call("inverse", "defaults", lambda: (f(y), g(f(y), 0.0, 1.0, -1.0, 1.0)), lambda r: dict(u=np.asarray(r[0], float), back=np.asarray(r[1], float)),
                 y=y, k=1.0, lo=-1.0, hi=1.0, x0=0.0, single=not ctx.x64)


def lines(ctx, scen):
    f = get(pu, "smoothly_clipped_line")
    if f is None:
        return
    todo = [(f"tlc/{k}", [float(x) for x in s] + [-1.0, 1.0]) for k, s in enumerate(scen)] + [(f"rand/{k}", None) for k in range(300 if ctx.thorough else 100)]
    for i, (name, s) in enumerate(todo):
        if not ctx.mine():
            continue
        rng = ctx.rng("l", name)
        if s is None:
            lo = rng.normal() * 10 ** rng.uniform(-1, 1)
            hi = lo + 10 ** rng.uniform(-1, 1)
            m = rng.choice([-1, 1, 1]) * 10 ** rng.uniform(-8, 2)
            if rng.uniform() < 0.1:
                m = 0.0
            s = [m, rng.normal() * 5, lo + (hi - lo) * rng.uniform(0.05, 0.95), lo, hi]
        m, x0, y0, lo, hi = [float(gen.cast(v, ctx.x64)) for v in s]
        if m != 0 and rng.uniform() < 0.7:       # where the bounds are reached
            a, b = sorted((x0 + (lo - y0) / m, x0 + (hi - y0) / m))
            x = np.concatenate((np.linspace(a - 0.5 * (b - a), b + 0.5 * (b - a), 41), [a, b, x0]))
            x = x[np.abs(x) < 1e8]
            x = x if len(x) else np.array([x0])
        else:
            x = np.linspace(x0 - 20, x0 + 20, 31)
        x = np.sort(np.asarray(gen.cast(x, ctx.x64), float))
        xb = x if i % 2 else jnp.asarray(x)
        ctx.call("line", name, lambda: f(xb, x0, y0, m, lo, hi), lambda r: dict(y=np.asarray(r, float)), x=x, x0=x0, y0=y0, m=m, lo=lo, hi=hi,
                 single=not ctx.x64)


def kernels(ctx):
    cdf, bw = get(du, "tw_cuml_jax_kern"), get(du, "tw_bin_jax_kern")
    cdf2, bw2 = get(pu, "_tw_cuml_lax_kern"), get(pu, "_tw_bin_weight_lax_kern")
    for rep in range(60 if ctx.thorough else 20):
        if not ctx.mine():
            continue
        rng = ctx.rng("k", rep)
        m, h = [float(gen.cast(v, ctx.x64)) for v in (rng.normal() * 3, 10 ** rng.uniform(-2, 1))]
        x = np.asarray(gen.cast(m + h * np.array([-1e3, -3.001, -3, -2.9, -1.5, -0.2, 0, 0.7, 2, 2.99, 3, 3.001, 50]), ctx.x64), float)
        for f in (cdf, cdf2):
            if f is not None:
                ctx.call("cdf", rep, lambda: [f(float(v), m, h) for v in x], lambda r: dict(y=[float(v) for v in r]), x=x, m=m, h=h, single=not ctx.x64)
        lo, hi = sorted(float(gen.cast(v, ctx.x64)) for v in m + h * rng.uniform(-4, 4, 2))
        if bw is not None:
            ctx.call("bin", rep, lambda: bw(m, h, lo, hi), lambda r: dict(w=float(r)), m=m, h=h, lo=lo, hi=hi, single=not ctx.x64)
        if bw2 is not None:
            ctx.call("bin", f"pop/{rep}", lambda: bw2(m, h, lo, hi), lambda r: dict(w=float(r)), m=m, h=h, lo=lo, hi=hi, single=not ctx.x64)


def trapz(ctx):
    f = get(du, "cumtrapz")
    for rep in range(60 if ctx.thorough else 20):
        if not ctx.mine() or f is None:
            continue
        rng = ctx.rng("t", rep)
        n = int(rng.choice([1, 2, 3, 50]))
        x = np.cumsum(rng.uniform(-0.2 if rep % 3 == 0 else 0.01, 1, n))
        y = rng.normal(size=n) * 10 ** rng.uniform(-3, 3)
        k = int(rng.integers(3))
        (xb, xv), (yb, yv) = form(x, k, ctx), form(y, k, ctx)
        ctx.call("trapz", rep, lambda: f(xb, yb), lambda r: dict(z=np.asarray(r, float)), x=xv, y=yv, single=single(ctx, k, xb))


def run(ctx):
    s = [tuple(x) for x in ctx.scen["MC_C28"]]

    def of(tag):
        return [x[1:] for x in s if x[0] == tag]
    matrices(ctx, of("matrix"))
    broadcast(ctx, of("broadcast"))
    sigmoids(ctx, of("sigmoid"))
    lines(ctx, of("line"))
    cells(ctx)
    kernels(ctx)
    trapz(ctx)
    interps(ctx, of("interp"))
