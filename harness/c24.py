import numpy as np

import gen
import losses
import pops
from dsv import get
from losses import L

KERN = dict(mstar=("mstar_kern_tobs", "loss_mstar_kern_tobs", "loss_mstar_kern_tobs_grad_kern", "loss_mstar_kern_tobs_grad_wrapper"),
            cen=("mstar_ssfr_kern_tobs", "loss_mstar_ssfr_kern_tobs", "loss_mstar_ssfr_kern_tobs_grad_kern", "loss_mstar_ssfr_kern_tobs_grad_wrapper"),
            sat=("mstar_ssfr_sat_kern_tobs", "loss_mstar_ssfr_sat_kern_tobs", "loss_mstar_ssfr_sat_kern_tobs_grad_kern", "loss_mstar_ssfr_sat_kern_tobs_grad_wrapper"))
COMB = {2: (("mstar", "cen"), "loss_combined_kern", "loss_combined_grad_kern", "loss_combined_wrapper"),
        3: (("mstar", "cen", "sat"), "loss_combined_3loss_kern", "loss_combined_3loss_grad_kern", "loss_combined_3loss_wrapper")}
F = lambda x: np.asarray(x, float)


def flat(u):
    return np.array([float(x) for x in u])


def target(kind, pred, rng, k):
    """A target which the prediction meets, misses, or misses in one entry."""
    if kind == "met":
        return pred.copy()
    if kind == "one_entry":
        t = pred.copy()
        i = tuple(rng.integers(n) for n in t.shape)
        t[i] += 10 ** rng.uniform(-6, 0) * rng.choice([-1, 1])
        return t
    t = rng.dirichlet(np.ones(pred.shape[-1]), pred.shape[:-1])
    if k % 3 == 0:
        t[..., 0] = 0.0
    return t


def data_of(which, s, tgt, medges, sedges, sel):
    if which == "mstar":
        return losses.mstar_data(s, medges, tgt)
    return losses.ssfr_data(s, medges, sedges, *sel, tgt)


def run(ctx):
    x64 = ctx.x64
    c = lambda x: gen.cast(np.asarray(x, float), x64)
    medges, sedges = c(losses.MEDGES), c(losses.SEDGES)
    scen = [tuple(s) for s in ctx.scen["MC_C24"]]
    n = 30 if ctx.thorough else 9
    nb, nh = 3, [4, 1, 7][ctx.shard % 3]
    combs = [3] if ctx.shard % 3 == 0 else ([2] if ctx.shard % 3 == 1 else [])
    grads = set()
    if x64:
        grads = {"mstar", "cen", "sat"} if ctx.thorough else {["mstar", "cen", "sat"][ctx.shard % 3]}
    order = ctx.rng("order").permutation(len(scen))
    for k in range(ctx.shard, n * ctx.nshard, ctx.nshard):
        kinds = dict(zip(("mstar", "cen", "sat"), scen[order[k % len(scen)]]))
        rng = ctx.rng("data", k)
        pk = ["default", "near", "calib", "near", "uniform"][k % 5]
        u = losses.unbounded(pops.castpop(pops.pop(rng, pk), x64))
        fu = flat(u)
        u = type(u)._make(fu)
        datas, preds = {}, {}
        for which in ("mstar", "cen", "sat"):
            s = losses.sample(rng, x64, nb, nh, which == "sat")
            if pk != "uniform":
                # the loss only sees populated bins
                for row in s["mah"]:
                    for m in row:
                        m[0] = float(c(rng.uniform(11.5, 14)))
            sel = (c(rng.uniform(0.1, 3, (2, 2))), np.array([[0, 1], [2, 1]]), np.array([1, 3]))
            pred_fn = getattr(L, KERN[which][0])
            blank = np.zeros((nb, len(medges) - 1)) if which == "mstar" else np.zeros((2, 2, len(sedges) - 1))
            pred = F(pred_fn(u, data_of(which, s, blank, medges, sedges, sel)))
            if not np.isfinite(pred).all():
                break
            tgt = c(target(kinds[which], pred, rng, k))
            datas[which] = data_of(which, s, tgt, medges, sedges, sel)
            preds[which] = pred
            ctx.call("loss", f"{k}/{which}/{kinds[which]}", lambda: getattr(L, KERN[which][1])(u, datas[which]), lambda r: dict(loss=float(r)),
                     pred=pred.ravel(), target=tgt.ravel(), same=kinds[which] == "met")
        if len(datas) < 3:
            continue
        for nd in combs:
            parts, kern, gk, wrap = COMB[nd]
            args = [datas[w] for w in parts]
            each = [float(getattr(L, KERN[w][1])(u, datas[w])) for w in parts]
            ctx.call("combined", f"{k}/{nd}", lambda: getattr(L, kern)(u, *args), lambda r: dict(loss=float(r)), parts=each)
            if k < (12 if ctx.thorough else 3) * ctx.nshard:
                wrapped(ctx, f"{k}/{nd}", getattr(L, wrap), get(L, gk), getattr(L, kern), u, fu, args)
                if x64 and k < (6 if ctx.thorough else 2) * ctx.nshard:
                    slopes(ctx, f"{k}/{nd}", getattr(L, wrap), getattr(L, kern), u, fu, args)
        if k < (6 if ctx.thorough else 3) * ctx.nshard:
            for w in sorted(grads):
                wrapped(ctx, f"{k}/{w}", getattr(L, KERN[w][3]), get(L, KERN[w][2]), getattr(L, KERN[w][1]), u, fu, [datas[w]])
                if k < (4 if ctx.thorough else 2) * ctx.nshard:
                    slopes(ctx, f"{k}/{w}", getattr(L, KERN[w][3]), getattr(L, KERN[w][1]), u, fu, [datas[w]])


def wrapped(ctx, scn, wrap, grad_kern, kern, u, fu, args):
    lo = float(kern(u, *args))
    if grad_kern is None:
        return
    _, g = grad_kern(u, *args)
    ctx.call("wrapper", scn, lambda: wrap(fu, *args), lambda r: dict(loss=float(r[0]), grads=F(r[1])),
             named_loss=lo, named_grads=[float(getattr(g, n)) for n in u._fields])


def slopes(ctx, scn, wrap, kern, u, fu, args):
    h = 2e-3

    def at(j, d):
        v = fu.copy()
        v[j] += d
        return float(kern(type(u)._make(v), *args))

    try:
        f0 = float(kern(u, *args))
        sam = [[at(j, -h), at(j, -h / 2), at(j, -h / 4), f0, at(j, h / 4), at(j, h / 2), at(j, h)] for j in range(len(fu))]
        _, g = wrap(fu, *args)
        g = F(g)
    except Exception as ex:
        ctx.emit("gradient", scn, exc=type(ex).__name__, msg=str(ex)[:200])
        return
    ctx.emit("gradient", scn, h=h, samples=sam, grads=g, names=list(u._fields))
