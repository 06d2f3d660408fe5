import numpy as np
from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS
from diffstar import calc_sfh_galpop, calc_sfh_singlegal
from diffstar.defaults import DEFAULT_DIFFSTAR_PARAMS
from diffstar.diffstarpop.param_utils import mc_select_diffstar_params
from jax import numpy as jnp
from jax import random as jran

import gen
import pops
from pops import dp

MAH = DEFAULT_MAH_PARAMS._make
GAL = DEFAULT_DIFFSTAR_PARAMS._make


def gals(t, n):
    return [pops.row(t, i) for i in range(n)]


def run(ctx):
    c = lambda x: gen.cast(x, ctx.x64)
    f = lambda x: np.asarray(x, float)
    scen = [(int(s[0]), s[1], [str(x) in ("True", "TRUE", "true") for x in s[2:]]) for s in ctx.scen["MC_C21"]]
    assert any(m for s in scen for m in s[2])
    r = ctx.rng("many")
    scen += [(n, o, [bool(x) for x in r.integers(0, 2, n)]) for n, o in ((260, "both"), (1031, "default"))]
    if ctx.thorough:
        scen = scen * 2
    # keep each number of galaxies in one process: less to compile
    scen.sort(key=lambda s: s[0])
    for k, (n, opt, mask) in enumerate(scen):
        if n % ctx.nshard != ctx.shard:
            continue
        rng = ctx.rng(k)
        lgt0, fb = gen.opts(rng, "plain" if opt == "default" else opt)
        lgt0, fb = float(c(lgt0)), float(c(fb))
        p = pops.castpop(pops.pop(rng), ctx.x64)
        t = pops.tup(p)
        mahs = [c(gen.mah(rng)) for _ in range(n)]
        # peak times long before the last time tell the halo's own from any other
        halos = [dict(pops.casthalo(pops.halo(rng), ctx.x64), tpeak=float(m[4])) for m in mahs]
        for h, m in zip(halos, mahs):
            if rng.uniform() < 0.5:
                h["logmp0"] = float(m[0])
        nt = [1, 2, 25][k % 3]
        lo = 0.05
        ts = c(np.sort(rng.uniform(lo, 15, nt)) if k % 5 else np.sort(np.concatenate((rng.uniform(lo, 10 ** lgt0, nt - 1), [10**lgt0]))))
        key = pops.key(int(rng.integers(2**31)), bool(k % 2))
        cc = pops.cols(halos)
        M = MAH(np.array(mahs).T)
        r = pops.host(dp.mc_diffstar_sfh_galpop(t, M, cc[0], *cc[2:], key, ts, lgt0=lgt0, fb=fb))
        o = pops.host(dp.mc_diffstar_params_galpop(t, *cc, key))
        c_ms, c_q = (f(calc_sfh_galpop(GAL(x), M, ts, lgt0=lgt0, fb=fb)) for x in r[:2])
        for i in range(n) if n < 10 else sorted({0, n // 2, n - 1, *(int(x) for x in rng.integers(0, n, 9))}):
            common = dict(ms=pops.row(r[0], i), q=pops.row(r[1], i), sfh_ms=f(r.sfh_ms)[i], sfh_q=f(r.sfh_q)[i])
            ctx.emit("hist", f"{k}/{i}", mah=mahs[i], ts=ts, lgt0=lgt0, fb=fb, **common)
            ctx.emit("same", f"{k}/{i}", c_ms=c_ms[i], c_q=c_q[i], frac=f(r.frac_q)[i], flag=bool(r.mc_is_q[i]),
                     o=dict(ms=pops.row(o[0], i), q=pops.row(o[1], i), frac=f(o[2])[i], flag=bool(o[3][i])), **common)
        # one of them as a single galaxy
        i = int(rng.integers(n))
        ki = jran.split(key, n)[i]
        a = [halos[i][x] for x in pops.HFIELDS]
        s = pops.host(dp.mc_diffstar_sfh_singlegal(t, MAH(mahs[i]), a[0], *a[2:], ki, ts, lgt0=lgt0, fb=fb))
        so = pops.host(dp.mc_diffstar_params_singlegal(t, *a, ki))
        common = dict(ms=pops.row(s[0]), q=pops.row(s[1]), sfh_ms=f(s.sfh_ms), sfh_q=f(s.sfh_q))
        ctx.emit("hist", f"{k}/{i}/single", mah=mahs[i], ts=ts, lgt0=lgt0, fb=fb, **common)
        ctx.emit("same", f"{k}/{i}/single", frac=f(s.frac_q), flag=bool(s.mc_is_q),
                 c_ms=f(calc_sfh_singlegal(GAL(s[0]), MAH(mahs[i]), ts, lgt0=lgt0, fb=fb)),
                 c_q=f(calc_sfh_singlegal(GAL(s[1]), MAH(mahs[i]), ts, lgt0=lgt0, fb=fb)),
                 o=dict(ms=pops.row(so[0]), q=pops.row(so[1]), frac=f(so[2]), flag=bool(so[3])), **common)
        # selection with the enumerated mask, then with the realization's own flags
        for j, flag in enumerate((np.array(mask), np.asarray(r.mc_is_q))):
            sel = mc_select_diffstar_params(GAL(r[1]), GAL(r[0]), flag if (k + j) % 2 else jnp.array(flag))
            got = gals(sel, n)
            ctx.emit("select", f"{k}/{j}", flag=[bool(x) for x in flag], a=gals(r[1], n), b=gals(r[0], n), got=got)
        S = f(calc_sfh_galpop(sel, M, ts, lgt0=lgt0, fb=fb))
        ctx.emit("select_sfh", f"{k}", flag=[bool(x) for x in r.mc_is_q], a=f(r.sfh_q), b=f(r.sfh_ms), got=S, gal=got)
    # arbitrary parameter sets and masks of any size, and one galaxy
    for k in range(30 if ctx.thorough else 10):
        if not ctx.mine():
            continue
        rng = ctx.rng("sel", k)
        n = [1, 2, 50, 0, 7, 1200][k % 6]
        A, B = (c(rng.normal(0, 10, (8, n))) for _ in range(2))
        if k % 3 == 2 and n:
            A[rng.integers(8), rng.integers(n)] = np.nan   # the other set is not affected
            B[rng.integers(8), rng.integers(n)] = np.inf
        flag = rng.uniform(size=n) < [0.5, 0.0, 1.0][k % 3 if k < 6 else 0]
        form = [lambda x: x, lambda x: x.astype(int), jnp.array][k % 3]
        ctx.call("select", f"sets/{k}", lambda: mc_select_diffstar_params(GAL(A), GAL(B), form(flag)),
                 lambda r: dict(got=[pops.row(r, i) for i in range(n)]), flag=[bool(x) for x in flag], a=A.T, b=B.T)
        a, b = c(rng.normal(0, 1, 8)), c(rng.normal(0, 1, 8))
        fl = bool(k % 2)
        ctx.call("select", f"one/{k}", lambda: mc_select_diffstar_params(GAL([float(x) for x in a]), GAL([float(x) for x in b]), fl),
                 lambda r: dict(got=[pops.row(r)]), flag=[fl], a=[a], b=[b])
