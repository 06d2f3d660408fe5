import numpy as np
from jax import numpy as jnp

import gen
import losses
import pops
from dsv import get
from losses import L


def uneven(rng, edges):
    """As many edges over about the same range, at uneven distances."""
    n = len(edges) - 1
    w = rng.uniform(0.15, 1.0, n)
    w /= w.sum()
    a, b = edges[0] + rng.uniform(-0.5, 0.5), edges[-1] + rng.uniform(-0.5, 0.5)
    return np.concatenate(([a], a + (b - a) * np.cumsum(w)))


def layout(rng, k, c, medges, sedges):
    if k % 3 == 0:
        return medges, sedges
    return c(uneven(rng, medges)), c(uneven(rng, sedges))


def run(ctx):
    x64 = ctx.x64
    c = lambda x: gen.cast(np.asarray(x, float), x64)
    f = lambda x: np.asarray(x, float)
    M0, S0 = c(losses.MEDGES), c(losses.SEDGES)
    scen = [([[int(s[0]), int(s[1])], [int(s[2]), int(s[3])]], [[float(s[4]), float(s[5])], [float(s[6]), float(s[7])]], [int(x) for x in s[8:]])
            for s in ctx.scen["MC_C23"]]
    # three numbers of selected rows, each to its own process
    pick = {}
    for s in scen:
        pick.setdefault(len(s[2]), []).append(s)
    groups = [pick[k] for k in sorted(pick)]
    mine = groups[ctx.shard % len(groups)]
    n = 40 if ctx.thorough else 10
    rng0 = ctx.rng("order", ctx.shard)
    mine = [mine[i] for i in rng0.permutation(len(mine))[:n]]
    nb, nh = 3, [3, 1, 5][ctx.shard % 3]
    for k, (idx, ab, ids) in enumerate(mine):
        rng = ctx.rng("pred", ctx.shard, k)
        medges, sedges = layout(rng, k, c, M0, S0)
        los, his = losses.bins(medges, sedges)
        kind = ["default", "calib", "uniform", "near", "edge"][k % 5]
        u = losses.unbounded(pops.castpop(pops.pop(rng, kind), x64))
        p = losses.bounded_again(u)
        for sat in (False, True):
            s = losses.sample(rng, x64, nb, nh, sat)
            base = dict(p=pops.rec(p), tobs=s["tobs"], lgt0=s["lgt0"], fb=s["fb"], halos=losses.realized(s, p))
            stacked = bool(ctx.shard % 2)
            scn = f"{ctx.shard}/{k}/{'sat' if sat else 'cen'}"
            if not sat:
                data = losses.mstar_data(s, medges, np.zeros((nb, len(medges) - 1)), stacked)
                ctx.call("mstar", scn, lambda: L.mstar_kern_tobs(u, data), lambda r: dict(out=f(r)), medges=medges, **base)
                if k == 0:
                    fu = np.array([float(x) for x in u])
                    ctx.emit("same", scn, what="flat_wrapper", a=f(L.get_pred_mstar_data_wrapper(fu, data)).ravel(), b=f(L.mstar_kern_tobs(u, data)).ravel())
            # indices into three bins
            idx3 = np.array(idx) + (np.array([[0, 0], [1, 1]]) if k % 2 else 0)
            abund = c(np.array(ab) * rng.uniform(0.1, 3, (2, 2)))
            ids3 = np.array(ids) + int(rng.integers(0, len(medges) - 3))
            data = losses.ssfr_data(s, medges, sedges, abund, idx3, ids3, np.zeros((2, len(ids), len(sedges) - 1)), stacked)
            kern = L.mstar_ssfr_sat_kern_tobs if sat else L.mstar_ssfr_kern_tobs
            ctx.call("ssfr", scn, lambda: kern(u, data), lambda r: dict(out=f(r)), medges=medges, sedges=sedges,
                     los=los, his=his, abund=abund, idx=idx3, ids=ids3, **base)
            if k == 0:
                wrap = L.get_pred_mstar_ssfr_sat_data_wrapper if sat else L.get_pred_mstar_ssfr_data_wrapper
                fu = np.array([float(x) for x in u])
                ctx.emit("same", scn, what="flat_wrapper", a=np.nan_to_num(f(wrap(fu, data))).ravel(), b=np.nan_to_num(f(kern(u, data))).ravel())
    # the histograms of given points
    for k in range(40 if ctx.thorough else 12):
        if not ctx.mine():
            continue
        rng = ctx.rng("hist", k)
        npts, nb = [1, 6, 25][k % 3], 4
        medges, sedges = layout(rng, k // 3, c, M0, S0)
        if k % 4 == 3:   # bins reaching over all points
            sedges = c(np.concatenate(([-16.0], sedges[1:-1], [-4.0])))
        los, his = losses.bins(medges, sedges)
        lgm = c(rng.uniform(6, 12, (nb, npts)))
        lgs = c(np.clip(rng.uniform(-13, -8, (nb, npts)), -12, None))
        w = c(rng.uniform(0, 1, (nb, npts)))
        ed = c(np.sort(rng.uniform(6, 12, 6))) if k % 2 else medges
        ed = c(np.concatenate(([5.5], ed, [12.5])))
        r = f(L.compute_diff_histograms_mstar_atmobs_z_vmap(ed, lgm, w))
        one = f(L.compute_diff_histograms_mstar_atmobs_z(ed, lgm[0], w[0]))
        for b in range(nb):
            ctx.emit("hist_m", f"{k}/{b}", lgm=lgm[b], w=w[b], edges=ed, out=r[b])
        ctx.emit("hist_m", f"{k}/one", lgm=lgm[0], w=w[0], edges=ed, out=one)
        r = f(L.compute_diff_histograms_mstar_ssfr_atmobs_z_vmap(lgm, lgs, w, los, his, medges, sedges))
        for b in range(nb):
            ctx.emit("hist_ms", f"{k}/{b}", lgm=lgm[b], lgs=lgs[b], w=w[b], los=los, his=his, medges=medges, sedges=sedges, out=r[b])
    obs = get(L, "calculate_obs_data")
    sims = get(L, "mc_diffstar_sfh_galpop_vmap")
    for k in range(6 if ctx.thorough else 3):
        if not ctx.mine() or obs is None:
            continue
        rng = ctx.rng("obs", k)
        tobs = c(rng.uniform(1, 14, 3))
        ms, q = c(10 ** rng.uniform(-8, 3, (3, 4, 20))), c(10 ** rng.uniform(-14, 3, (3, 4, 20)))
        a, b = obs(tobs, ms, q)
        for i in range(3):
            ctx.emit("obs", f"{k}/{i}", tobs=tobs[i], ms=ms[i], q=q[i], m_ms=f(a)[i], m_q=f(b)[i])
