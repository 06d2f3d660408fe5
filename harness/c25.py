import jax
import numpy as np
from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS
from jax import numpy as jnp
from jax import random as jran

import gen
import pops
from diffstar import calc_sfh_galpop, calc_sfh_singlegal, get_bounded_diffstar_params, get_unbounded_diffstar_params
from diffstar.defaults import DEFAULT_DIFFSTAR_PARAMS, DEFAULT_DIFFSTAR_U_PARAMS
from pops import dp

MAH = DEFAULT_MAH_PARAMS._make
GAL = DEFAULT_DIFFSTAR_PARAMS
NT = 12
NAMES = list(GAL._fields) + list(DEFAULT_MAH_PARAMS._fields)
OFFS = [-3e4, -700, -60, -7, -5.5, -3.1, -1.7, -0.3, 0.4, 2.3, 4.9, 7.5, 40, 900, 2e4]


def galparams(v):
    return GAL._make([v[i] for i in range(8)])


def f_single(v, ts, lgt0, fb):
    r = calc_sfh_singlegal(galparams(v), MAH([v[i] for i in range(8, 13)]), ts, lgt0=lgt0, fb=fb, return_smh=True)
    return jnp.concatenate([r.sfh, r.smh])


def f_pop(v, ts, lgt0, fb):
    g, m = v[:16].reshape(8, 2), v[16:].reshape(5, 2)
    r = calc_sfh_galpop(GAL._make(g), MAH(m), ts, lgt0=lgt0, fb=fb, return_smh=True)
    return jnp.concatenate([r.sfh.ravel(), r.smh.ravel()])


def f_bound(v):
    return jnp.stack([jnp.asarray(x) for x in get_bounded_diffstar_params(DEFAULT_DIFFSTAR_U_PARAMS._make([v[i] for i in range(8)]))])


def f_unbound(v):
    return jnp.stack([jnp.asarray(x) for x in get_unbounded_diffstar_params(galparams(v))])


def popt(v):
    return dp.DEFAULT_DIFFSTARPOP_PARAMS._make([v[i] for i in range(len(pops.NAMES))])


def f_popbound(v):
    return jnp.stack([jnp.asarray(x) for x in dp.get_bounded_diffstarpop_params(dp.DEFAULT_DIFFSTARPOP_U_PARAMS._make([v[i] for i in range(len(pops.NAMES))]))])


def f_params(v, h, key):
    r = dp.mc_diffstar_params_singlegal(popt(v), *h, key)
    return jnp.concatenate([jnp.stack(list(r[0])), jnp.stack(list(r[1])), jnp.atleast_1d(r[2])])


def f_sfh(v, mah, h, key, ts, lgt0, fb):
    r = dp.mc_diffstar_sfh_singlegal(popt(v), MAH([mah[i] for i in range(5)]), *h, key, ts, lgt0=lgt0, fb=fb)
    return jnp.concatenate([r.sfh_ms, r.sfh_q, jnp.atleast_1d(r.frac_q)])


COMP = {}


def compiled(f):
    if f not in COMP:
        n = None
        COMP[f] = (jax.jit(f), jax.jit(jax.jacrev(f)), jax.jit(jax.jacfwd(f)), jax.jit(jax.vmap(f, in_axes=(0,))) if f in (f_bound, f_unbound, f_popbound)
                   else None)
    return COMP[f]


def record(ctx, op, scn, f, v, hs, args, names, rel, absn, both=False, batch=None, raw=None):
    """One line for each parameter: derivative and sample of all results."""
    fj, rev, fwd, _ = compiled(f)
    c = lambda x: gen.cast(x, ctx.x64)
    try:
        J = np.asarray(rev(jnp.asarray(v), *args), float)
        pts = []
        for j, h in enumerate(hs):
            for d in (-h, -h / 2, -h / 4, h / 4, h / 2, h):
                w = v.copy()
                w[j] += d
                pts.append(w)
        mid = np.asarray(fj(jnp.asarray(v), *args), float)
        if batch is None:
            out = np.stack([np.asarray(fj(jnp.asarray(w), *args), float) for w in pts])
        else:
            out = np.asarray(batch(jnp.asarray(np.stack(pts)), *args), float)
            mid = np.asarray(batch(jnp.asarray(v)[None], *args), float)[0]
        if both:
            Jf = np.asarray(fwd(jnp.asarray(v), *args), float)
    except Exception as ex:
        ctx.emit(op, scn, exc=type(ex).__name__, msg=str(ex)[:200])
        return
    for j, h in enumerate(hs):
        o = out[6 * j:6 * j + 6]
        ctx.emit(op, scn, name=names[j], h=float(h), rel=rel, abs=absn, grad=J[:, j], samples=[o[0], o[1], o[2], mid, o[3], o[4], o[5]])
        if both:
            ctx.emit("agree", f"{scn}/{names[j]}/fwd", a=Jf[:, j], b=J[:, j], value=mid, rtol=(1e-6 + rel * 100 if ctx.x64 else 1e-2 + rel * 100))


def table(rng, g, x64):
    """Times before, inside and after the quenching event, far and near."""
    lg = np.clip(g[4] + np.array([o * rng.uniform(0.9, 1.1) for o in OFFS]) * 10 ** g[5] / 12, -1.4, 1.2)
    near = rng.choice(10 ** lg, NT - 5, replace=False)
    ts = gen.cast(np.sort(np.concatenate((near * rng.uniform(0.999, 1.001, NT - 5), rng.uniform(0.1, 14, 5)))), x64)
    return ts


def steps(g, x64):
    h = 0.002 if x64 else 0.05
    q = (0.004 if x64 else 0.03) * min(1, 10 ** g[5])
    return np.array([h, h, h, h, q, q, h, h, h, h, h, h, h])


def run(ctx):
    x64 = ctx.x64
    c = lambda x: gen.cast(np.asarray(x, float), x64)
    eps = 1e-14 if x64 else 5e-6
    scen = [(str(s[0]), int(s[1]), int(s[2])) for s in ctx.scen["MC_C25"]]
    n = 240 if ctx.thorough else 60
    for k in range(n):
        if not ctx.mine():
            continue
        rng = ctx.rng("gal", k)
        ph, gi, mi = scen[k % len(scen)]
        kind = ["default", "typical", "uniform", "narrow", "edge"][gi % 5]
        mk = ["typical", "wide", "early_peak", "late_peak"][mi % 4]
        v = c(np.concatenate((gen.gal(rng, kind), gen.mah(rng, mk))))
        lgt0, fb = (float(c(x)) for x in gen.opts(rng, rng.choice(["plain", "both"])))
        ts = table(rng, v, x64)
        if ph == "peaked":
            v[12] = float(c(ts[NT // 2] * 1.07))
        hs = steps(v, x64)
        amp = eps * (1 + 1 / 10 ** v[5])
        record(ctx, "gal", f"{k}/{ph}", f_single, v, hs, (jnp.asarray(ts), lgt0, fb), NAMES, amp, 1e-30, both=k % 4 == 0)
    for k in range(24 if ctx.thorough else 6):
        if not ctx.mine():
            continue
        rng = ctx.rng("pop", k)
        a, b = (c(np.concatenate((gen.gal(rng), gen.mah(rng)))) for _ in range(2))
        v = np.stack((a, b), 1).ravel()
        lgt0, fb = (float(c(x)) for x in gen.opts(rng, "both"))
        ts = table(rng, a, x64)
        hs = np.stack((steps(a, x64), steps(b, x64)), 1).ravel()
        amp = eps * (1 + 1 / 10 ** min(a[5], b[5]))
        record(ctx, "galpop", k, f_pop, v, hs, (jnp.asarray(ts), lgt0, fb), [f"{x}_{i}" for x in NAMES for i in (0, 1)], amp, 1e-30)
    h0 = 1e-3 if x64 else 0.05
    for k in range(60 if ctx.thorough else 20):
        if not ctx.mine():
            continue
        rng = ctx.rng("bounds", k)
        u = c(rng.normal(0, [1, 5, 20][k % 3], 8)) + (np.array([11, -10, 2.5, -2.5, 1, -1.5, -1.5, -1.5]) if k % 2 else 0)
        record(ctx, "bounds", k, f_bound, c(u), np.full(8, h0), (), NAMES[:8], eps * 10, eps * 10, both=True)
        p = c(gen.gal(rng, "uniform"))
        room = np.minimum(p - gen.LO, gen.HI - p)
        room[6:] = np.minimum(room[6:], p[7] - p[6])
        record(ctx, "bounds", f"{k}/inverse", f_unbound, p, np.minimum(h0, 0.2 * room), (), NAMES[:8], eps * 100, eps * 100, both=True)
    # Monte Carlo populations
    names = pops.NAMES
    npop = 12 if ctx.thorough else 3
    bpar = jax.jit(jax.vmap(f_params, in_axes=(0, None, None)))
    bsfh = jax.jit(jax.vmap(f_sfh, in_axes=(0, None, None, None, None, None, None)))
    bbnd = jax.jit(jax.vmap(f_popbound))
    hp = (pops.HI - pops.LO) * (2e-4 if x64 else 2e-2)
    for k in range(npop * ctx.nshard):
        if not ctx.mine():
            continue
        rng = ctx.rng("mc", k)
        kind = ["default", "uniform", "calib", "near", "flat", "edge"][k % 6]
        p = pops.castpop(pops.pop(rng, kind), x64)
        h = pops.casthalo(pops.halo(rng), x64)
        if k % 3 == 1:
            h["upid"] = 5
        else:
            h["upid"] = -1
        key = jran.PRNGKey(int(rng.integers(2**31)))
        hv = tuple(jnp.asarray(h[f]) for f in pops.HFIELDS)
        hh = np.minimum(hp, 0.45 * np.minimum(p - pops.LO, pops.HI - p)) if kind != "flat" else hp
        hh = np.array([float(2.0 ** np.floor(np.log2(x))) for x in hh])
        record(ctx, "mcparams", f"{k}/{kind}", f_params, p, hh, (hv, key), names, eps * 20, eps * 20, batch=bpar)
        m = c(gen.mah(rng))
        h["tpeak"] = float(m[4])
        hv = tuple(jnp.asarray(h[f]) for f in pops.HFIELDS if f != "tpeak")
        drawn = np.asarray(f_params(jnp.asarray(p), (hv[0], jnp.asarray(m[4]), *hv[1:]), key), float)
        ts = table(rng, drawn[8:16], x64)
        lgt0, fb = (float(c(x)) for x in gen.opts(rng, "both"))
        amp = eps * 20 * (1 + 1 / 10 ** drawn[13])
        if not x64 and amp > 1e-3:
            amp = 1.0   # the event is not resolved in this precision: only finiteness counts
        record(ctx, "mcsfh", f"{k}/{kind}", f_sfh, p, hh, (jnp.asarray(m), hv, key, jnp.asarray(ts), lgt0, fb), names, amp, 1e-30, batch=bsfh)
        if k < 6:
            u = np.array([float(x) for x in dp.get_unbounded_diffstarpop_params(pops.tup(p))])
            record(ctx, "popbounds", f"{k}/{kind}", f_popbound, c(u), np.full(len(u), 0.05), (), list(dp.DEFAULT_DIFFSTARPOP_U_PARAMS._fields), eps * 10, eps * 10, batch=bbnd)
