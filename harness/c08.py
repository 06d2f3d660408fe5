"""The restarting minimizer under scripted landscapes.

The loss is flat (zero gradient) around every point, so L-BFGS-B stays at its
start: the k-th new point the code asks about is its k-th random start, and
gets the k-th entry of the script.  Asking again about a point gives the same
answer, so the landscape is a genuine function.
"""
import numpy as np

import diffstar.fitting_helpers.utils as fu
from dsv import get


class Land:
    def __init__(self, script, centre, ndim):
        self.script, self.centre, self.nd = script, centre, ndim
        self.points = []

    def find(self, p):
        p = np.asarray(p, float)
        for i, q in enumerate(self.points):
            if q.tobytes() == p.tobytes():
                return i
        if len(self.points) > 20000:
            raise RuntimeError("too many draws")
        self.points.append(p.copy())
        return len(self.points) - 1

    def at(self, i):
        return self.script[i] if i < len(self.script) else "7.5"

    def loss(self, p, data):
        s = self.at(self.find(p))
        return 1.0 if s == "g" else float(s)

    def grad(self, p, data):
        g = np.zeros(self.nd)
        if self.at(self.find(p)) == "g":
            g[(len(self.points) * 7) % self.nd] = np.nan
        return g

    def spread(self, scale):
        """The random starts in units of the scatter around the guess."""
        z = (np.array(self.points).reshape(-1, self.nd) - self.centre) / scale
        n = max(len(z), 1)
        return dict(ndraw=len(z), far=float(np.abs(z).max(initial=0)), mean=(z.sum(axis=0) / n).tolist(),
                    var=((z**2).sum(axis=0) / n).tolist())

    def who(self, p, default=-1):
        p = np.asarray(p, float)
        for i, q in enumerate(self.points):
            if q.tobytes() == p.tobytes():
                return i + 1
        return 0 if p.tobytes() == self.centre.tobytes() else default


def expand(ctx, hist, rng):
    """Model runs give up after 2 draws, the code after 1001."""
    out, i = [], 0
    while i < len(hist):
        if hist[i] == "g" and i + 1 < len(hist) and hist[i + 1] == "g":
            out += ["g"] * 1001
            i += 2
        elif hist[i] == "g":
            out += ["g"] * int(rng.choice([1, 2, 5, 1000], p=[.4, .3, .2, .1]))
            i += 1
        else:
            out.append(hist[i])
            i += 1
    return out


def wrapper(ctx, scen, script, tol, max_iter, nd, seed, defaults=False):
    rng = np.random.default_rng(seed)
    centre = rng.normal(size=nd)
    scale = 10 ** rng.uniform(-2.5, 0.5, nd)
    p_init = np.array([centre, scale])
    land = Land(script, centre, nd)
    np.random.seed(seed % 2**31)
    kw = {} if defaults else dict(loss_tol=tol, max_iter=max_iter)

    def post(r):
        p, loss, flag = r
        n = len(land.points)
        seq = [land.at(i) for i in range(n)]
        return dict(nan=[s == "g" for s in seq], loss=[0.0 if s == "g" else float(s) for s in seq],
                    res_loss=float(loss), res_flag=int(flag), res_who=land.who(p), **land.spread(scale))
    ctx.call("wrapper", scen, lambda: fu.minimizer_wrapper(land.loss, land.grad, p_init, None, **kw), post,
             tol=float(tol), max_iter=int(max_iter))


def run(ctx):
    for k, s in enumerate(ctx.scen["MC_C08"]):
        if not ctx.mine() or (not ctx.thorough and k % 3 and len(s) > 4) or (ctx.thorough and k % 5 and len(s) > 5):
            continue
        rng = ctx.rng(k)
        wrapper(ctx, "tlc/" + ",".join(map(str, s)), expand(ctx, list(s[2:]), rng), float(s[0]), s[1], 1 + k % 4, 1000 + k)
    vals = ["nan", "0.05", "0.1", "0.10000001", "0.3", "2.0", "999.99", "1000.0", "inf", "-3.0", "g", "u",
            "1e-5", "5e-4", "-0.02", "-700.0", "3e7"]
    for rep in range(600 if ctx.thorough else 120):
        if not ctx.mine():
            continue
        rng = ctx.rng("rand", rep)
        max_iter = int(rng.choice([1, 2, 5, 10, 12, 25]))
        script = []
        for _ in range(2 * max_iter):
            v = rng.choice(vals, p=None if rep % 2 else np.array([3, .1, .2, .3, 3, 3, 1, 1, 1, .1, 1, .5, .1, .4, .1, .05, 1]) / 15.85)
            script += ["g"] * 1001 if v == "u" else [v]
        tol = float(rng.choice([0.1, 0.0, 1e-3, 1e-4, 0.3, 1000.0, -0.5, -100.0]))
        wrapper(ctx, f"rand/{rep}", script, tol, max_iter, int(rng.integers(1, 9)), 77 + rep)
        # the documented defaults: tolerance 0.1, at most ten attempts
        wrapper(ctx, f"default/{rep}", script + ["0.7"] * 12, 0.1, 10, 8, 177 + rep, defaults=True)
    f = get(fu, "return_random_pinit")
    for k in (0, 1, 2, 3, 999, 1000, 1001, 1500):
        for nd in (1, 3, 8):
            if not ctx.mine() or f is None:
                continue
            r0 = ctx.rng("pinit", k, nd)
            centre, scale = r0.normal(size=nd), 10 ** r0.uniform(-2.5, 0.5, nd)
            land = Land(["g"] * k + ["0.5"] * 10, centre, nd)
            p_init = np.array([centre, scale])
            np.random.seed(k + nd)
            ctx.call("pinit", f"{k}/{nd}", lambda: f(p_init, None, land.grad),
                     lambda r: dict(nan=[land.at(i) == "g" for i in range(len(land.points))],
                                    res_who=land.who(r[0]), isnan=bool(r[1]), **land.spread(scale)))
    # smooth losses with several minima: returned loss is that of the returned point
    for rep in range(60 if ctx.thorough else 15):
        if not ctx.mine():
            continue
        rng = ctx.rng("smooth", rep)
        nd = int(rng.integers(1, 9))
        a, c = rng.normal(size=nd), rng.uniform(0.5, 3, nd)
        off = float(rng.choice([0.0, 0.05, 0.2]))
        first = []

        def loss(p, data):
            first.append(np.array(p, float)) if not first else None
            return float(np.sum(c * (p - a) ** 2 + 0.3 * (1 - np.cos(6 * (p - a)))) + off)

        def grad(p, data):
            first.append(np.array(p, float)) if not first else None
            return 2 * c * (p - a) + 1.8 * np.sin(6 * (p - a))
        max_iter, tol = int(rng.integers(1, 7)), float(rng.choice([0.1, 1e-6, 1.0]))
        p_init = np.array([rng.normal(size=nd), np.full(nd, 2.0)])
        np.random.seed(rep)
        ctx.call("smooth", f"{rep}",
                 lambda: fu.minimizer_wrapper(loss, grad, p_init, None, loss_tol=tol, max_iter=max_iter),
                 lambda r: dict(res_loss=float(r[1]), res_flag=int(r[2]), loss_at_p=loss(np.asarray(r[0]), None),
                                start_loss=[loss(d, None) for d in first]), tol=tol, max_iter=max_iter)
