import jax
import numpy as np
from diffstar import utils as du
from diffstar.diffstarpop import utils as pu
from diffstar.diffstarpop.sumstats import diffndhist as nd
from diffstar.diffstarpop.sumstats import smhm

import gen
from dsv import get

# the points of the design model
PTS = [[0.0, 2.0], [1.0, 0.5], [2.5, 1.0], [-1.5, 3.7], [1.0001, 2.0]]
SIG = [[0.01, 0.3], [0.5, 0.2], [1.0, 0.1], [0.2, 2.0], [1e-6, 1.0]]
WGT = [1.0, 2.0, 0.25, 0.0, 7.0]
EDGES = np.array([-20.0, 0.0, 1.0, 2.5, 20.0])


def grid(edges):
    """Bins which tile the product of the edges."""
    lo = np.stack(np.meshgrid(*[e[:-1] for e in edges], indexing="ij"), -1).reshape(-1, len(edges))
    hi = np.stack(np.meshgrid(*[e[1:] for e in edges], indexing="ij"), -1).reshape(-1, len(edges))
    return lo, hi


def run(ctx):
    c = lambda x: gen.cast(np.asarray(x, float), ctx.x64)
    f = lambda x: np.asarray(x, float)

    def hist(scen, pts, sigs, w, los, his, tiling):
        h = lambda: nd.tw_ndhist(pts, sigs, los, his) if w is None else nd.tw_ndhist_weighted(pts, sigs, w, los, his)
        out = {}

        def post(r):
            out["r"] = f(r)
            return dict(out=f(r))
        ctx.call("hist", scen, h, post, pts=pts.tolist(), sigs=sigs.tolist(), los=los.tolist(), his=his.tolist(), tiling=tiling,
                 **({} if w is None else dict(w=w)))
        return out.get("r")

    for key in ("MC_C22", "MC_C22_2d"):
        for k, s in enumerate(ctx.scen.get(key, [])):
            ndim, order = int(s[0]), [int(x) - 1 for x in s[1:]]
            if len(order) % ctx.nshard != ctx.shard:
                continue
            pts, sigs, w = c(PTS)[order, :ndim], c(SIG)[order, :ndim], c(WGT)[order]
            los, his = grid([c(EDGES)] * ndim)
            a = hist(f"{ndim}/{order}", pts, sigs, w, los, his, True)
            if k % 4 == 0:
                hist(f"{ndim}/{order}/count", pts, sigs, None, los, his, True)
            # two calls for the halves of the points
            h = len(order) // 2
            if h and k % 3 == 0 and a is not None:
                two = f(nd.tw_ndhist_weighted(pts[:h], sigs[:h], w[:h], los, his)) + f(nd.tw_ndhist_weighted(pts[h:], sigs[h:], w[h:], los, his))
                ctx.emit("meta", f"{ndim}/{order}", what="additive_over_points", a=a, b=two, scale=20.0)
    for k in range(80 if ctx.thorough else 24):
        if not ctx.mine():
            continue
        rng = ctx.rng(k)
        ndim = int([1, 2, 3, 1, 2, 5][k % 6])
        npts = int([1, 7, 40, 0, 3][k % 5]) if k % 12 != 11 else [300, 1100][k // 12 % 2]
        pts = c(rng.normal(0, 3, (npts, ndim)))
        sigs = c(10 ** rng.uniform(-3, 1, (npts, ndim)) if k % 2 else np.tile(10 ** rng.uniform(-1, 0, ndim), (npts, 1)))
        w = c([rng.uniform(0, 1, npts), rng.normal(0, 1, npts), np.ones(npts), rng.choice([0.0, 1.0], npts)][k % 4])
        nb = int([4, 9, 1, 3][k % 4]) if ndim < 4 else 2
        edges = [c(np.sort(np.concatenate(([-60.0, 60.0], rng.uniform(-5, 5, nb - 1))))) for _ in range(ndim)]
        los, his = grid(edges)
        perm = rng.permutation(len(los))
        los, his = los[perm], his[perm]
        scale = float(np.abs(w).sum() + 1)
        a = hist(f"rand/{k}", pts, sigs, w, los, his, True)
        hist(f"rand/{k}/count", pts, sigs, None, los, his, True)
        # overlapping bins anywhere
        b_lo = c(rng.uniform(-4, 2, (5, ndim)))
        b_hi = c(b_lo + rng.uniform(0.01, 5, (5, ndim)))
        o = hist(f"rand/{k}/overlap", pts, sigs, w, b_lo, b_hi, False)
        if a is None or o is None or npts == 0:
            continue
        H = nd.tw_ndhist_weighted
        pp, bb = rng.permutation(npts), rng.permutation(5)
        ctx.emit("meta", f"rand/{k}", what="order_free", a=o[bb], b=f(H(pts[pp], sigs[pp], w[pp], b_lo[bb], b_hi[bb])), scale=scale)
        v = c(rng.normal(0, 1, npts))
        ctx.emit("meta", f"rand/{k}", what="linear_in_weights", a=2.0 * o + f(H(pts, sigs, v, b_lo, b_hi)),
                 b=f(H(pts, sigs, c(2.0 * w + v), b_lo, b_hi)), scale=scale * 3 + float(np.abs(v).sum()))
        ctx.emit("meta", f"rand/{k}", what="unit_weights_count", a=f(nd.tw_ndhist(pts, sigs, b_lo, b_hi)), b=f(H(pts, sigs, np.ones(npts), b_lo, b_hi)), scale=scale)
        ctx.emit("meta", f"rand/{k}", what="bins_alone", a=o, b=np.array([f(H(pts, sigs, w, b_lo[i:i + 1], b_hi[i:i + 1]))[0] for i in range(5)]), scale=scale)
        d = int(rng.integers(ndim))
        mid = c(b_lo + (b_hi - b_lo) * rng.uniform(0, 1))
        h1, l2 = b_hi.copy(), b_lo.copy()
        h1[:, d] = mid[:, d]
        l2[:, d] = mid[:, d]
        ctx.emit("meta", f"rand/{k}", what="adjacent_bins_add", a=o, b=f(H(pts, sigs, w, b_lo, h1)) + f(H(pts, sigs, w, l2, b_hi)), scale=scale)
        q = rng.permutation(ndim)
        ctx.emit("meta", f"rand/{k}", what="dimension_order", a=o, b=f(H(pts[:, q], sigs[:, q], w, b_lo[:, q], b_hi[:, q])), scale=scale)
        ctx.emit("meta", f"rand/{k}", what="duplicate_points", a=2 * o, b=f(H(np.concatenate((pts, pts)), np.concatenate((sigs, sigs)), np.concatenate((w, w)), b_lo, b_hi)), scale=2 * scale)
    # scalar kernels of the three modules
    cdfs = [("utils", du.tw_cuml_jax_kern), ("pop", get(pu, "_tw_cuml_lax_kern")), ("nd", get(nd, "_tw_cuml_lax_kern"))]
    binw = [("utils", du.tw_bin_jax_kern, False), ("pop", get(pu, "_tw_bin_weight_lax_kern"), True), ("nd", get(nd, "_tw_bin_weight_lax_kern"), True)]
    cdfs = [(n, jax.jit(jax.vmap(g, in_axes=(0, None, None)))) for n, g in cdfs if g is not None]
    binw = [(n, jax.jit(jax.vmap(g, in_axes=(None, None, 0, 0))), p) for n, g, p in binw if g is not None]
    for k in range(40 if ctx.thorough else 10):
        if not ctx.mine():
            continue
        rng = ctx.rng("k", k)
        m, h = float(c(rng.normal(0, 5))), float(c(10 ** rng.uniform(-3, 2)))
        x = c(np.sort(m + h * np.concatenate((rng.uniform(-3.5, 3.5, 60), [-3, 3, 0, -1e6, 1e6, -3.0001, 3.0001, -2.999, 2.999]))))
        e = c(np.concatenate(([m - 3.2 * h], np.sort(m + h * rng.uniform(-3, 3, 7)), [m + 3.2 * h])))
        for n, g in cdfs:
            ctx.call("cdf", f"{n}/{k}", lambda: g(x, m, h), lambda r: dict(cdf=f(r)), x=x, m=m, h=h)
        for n, g, point in binw:
            ctx.call("bins", f"{n}/{k}", lambda: g(m, h, e[:-1], e[1:]), lambda r: dict(out=f(r), whole=f(g(m, h, e[:1], e[-1:]))[0]),
                     x=m, h=h, lo=e[:-1], hi=e[1:], point=point)
    for k in range(20 if ctx.thorough else 6):
        if not ctx.mine():
            continue
        rng = ctx.rng("smhm", k)
        n = [200, 30, 1, 8][k % 4]
        x = c(rng.uniform(10.5, 14.5, n))
        y = c(x * rng.uniform(0.3, 1) - 2 + rng.normal(0, 0.3, n))
        sig = c(rng.uniform(0.02, 0.5, n) if k % 2 else np.full(n, 0.1))
        edges = c(np.sort(rng.uniform(11, 14, 9)) if k % 3 else np.linspace(11, 14, 13))
        ctx.call("smhm", f"{k}", lambda: smhm.compute_smhm(x, y, sig, edges), lambda r: dict(out=f(r)), x=x, y=y, sig=sig, edges=edges)
