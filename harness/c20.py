import functools
import importlib
from collections import namedtuple

import jax
import numpy as np

import gen
import pops
from diffstar.diffstarpop import defaults as pd
from diffstar.diffstarpop import param_utils as pu
from diffstar.diffstarpop.kernels import satquenchpop_model as sq
from diffstar.diffstarpop.kernels import sfh_pdf_mgash as sp
from diffstar.diffstarpop.kernels.params import params_diffstarfits_mgash as pf
from diffstar.diffstarpop.kernels.params import params_diffstarpopfits_mgash as pp

NAMES = pops.NAMES
N = len(NAMES)
# the specification's own order of names (that of the published tuple)
IDX = {n: i + 1 for i, n in enumerate(NAMES)}
UNAMES = ["u_" + n for n in NAMES]


def read(t, names):
    return [float(getattr(t, n)) for n in names], sorted(t._fields) == sorted(names)


@functools.lru_cache(None)
def ptype(names):
    return namedtuple("P", names)


def make(names, vals, order=None):
    k = np.arange(len(names)) if order is None else order
    return ptype(tuple(names[i] for i in k))(*[float(vals[i]) for i in k])


FAMILIES = [
    ("diffstarpop", NAMES, pops.dp.get_bounded_diffstarpop_params, pops.dp.get_unbounded_diffstarpop_params),
    ("sfh_pdf", NAMES[:-9], sp.get_bounded_sfh_pdf_params, sp.get_unbounded_sfh_pdf_params),
    ("satquench", NAMES[-9:], sq.get_bounded_satquenchpop_params, sq.get_unbounded_satquenchpop_params),
]


def bound(ctx, scen, fam, u, order=None):
    _, names, bnd, unb = fam
    un = ["u_" + n for n in names]

    def go():
        p = bnd(make(un, u, order))
        return p, unb(p)

    def post(r):
        p, ok1 = read(r[0], names)
        b, ok2 = read(r[1], un)
        return dict(p=p, back=b, names_ok=ok1 and ok2)
    ctx.call("bound", scen, go, post, u=u, idx=[IDX[n] for n in names])


def unbound(ctx, scen, fam, p, order=None):
    _, names, bnd, unb = fam
    un = ["u_" + n for n in names]

    def go():
        u = unb(make(names, p, order))
        return u, bnd(u)

    def post(r):
        u, ok1 = read(r[0], un)
        b, ok2 = read(r[1], names)
        return dict(u=u, back=b, names_ok=ok1 and ok2)
    ctx.call("unbound", scen, go, post, p=p, idx=[IDX[n] for n in names])


def run(ctx):
    x64 = ctx.x64
    c = lambda v: gen.cast(np.asarray(v, float), x64)
    B = pops.dp.DIFFSTARPOP_PBOUNDS
    ctx.emit("table", "published", names=list(B._fields), lo=[float(b[0]) for b in B], hi=[float(b[1]) for b in B])
    default_u = pops.dp.DEFAULT_DIFFSTARPOP_U_PARAMS
    for k in range(60 if ctx.thorough else 20):
        if not ctx.mine():
            continue
        rng = ctx.rng(k)
        for fam in FAMILIES:
            names = fam[1]
            ii = np.array([IDX[n] - 1 for n in names])
            lo, hi = pops.LO[ii], pops.HI[ii]
            mid, n = 0.5 * (lo + hi), len(names)
            order = ctx.rng('order', n).permutation(n) if k % 2 else None   # compiled once
            u = c(mid + rng.normal(0, [5, 30, 100, 1000][k % 4], n))
            bound(ctx, f"{fam[0]}/{k}", fam, u, order)
            # every parameter at its own place: distinct values inside the common interval
            x = c(lo + (hi - lo) * (rng.permutation(n) + 1.0) / (n + 2.0))
            unbound(ctx, f"{fam[0]}/{k}/distinct", fam, x, order)
            x = c(lo + (hi - lo) * rng.choice([0.001, 0.01, 0.3, 0.5, 0.99, 0.999], n))
            unbound(ctx, f"{fam[0]}/{k}/edge", fam, x, order)
            # one entry moves
            for j in rng.choice(n, 6, replace=False):
                u = c(mid + rng.normal(0, 20, n))
                v = u.copy()
                v[j] = c(u[j] + rng.uniform(0.1, 30))
                p, q = (fam[2](make(["u_" + m for m in names], w)) for w in (u, v))
                a, b = read(p, names)[0], read(q, names)[0]
                w = hi[j] - lo[j]
                ctx.emit("one", f"{fam[0]}/{k}/{names[j]}", j=int(j) + 1, a=a, b=b, strict=bool(lo[j] + 0.02 * w < a[j] < hi[j] - 0.02 * w))
    # named subsets
    fields = list(default_u._fields)
    for k, seq in enumerate(ctx.scen["MC_C20"]):
        if not ctx.mine():
            continue
        override(ctx, f"enum/{k}", ctx.rng("enum", k), [int(i) - 1 for i in (seq if isinstance(seq, (list, tuple)) else [seq])], k % 2)
    for k in range(15 if ctx.thorough else 10):
        if not ctx.mine():
            continue
        rng = ctx.rng("sub", k)
        m = [0, 1, N, N - 1, int(rng.integers(2, N))][k % 5]
        override(ctx, f"rand/{k}", rng, list(rng.permutation(N)[:m]), k % 2)
    # calibrations
    for what, P, U, mods in (("diffstarpopfits", pp.DiffstarPop_Params_Diffstarpopfits_mgash, pp.DiffstarPop_UParams_Diffstarpopfits_mgash, "params_diffstarpopfits_mgash_"),
                             ("diffstarfits", pf.DiffstarPop_Params_Diffstarfits_mgash, pf.DiffstarPop_UParams_Diffstarfits_mgash, "params_diffstarfits_mgash_")):
        assert sorted(P) == sorted(U)
        for sim in P:
            calib(ctx, f"{what}/{sim}", P[sim], U[sim], mods + sim)
    for sim in pops.dp.SIMULATION_FIT_PARAMS:
        calib(ctx, f"simulation_fit/{sim}", pops.dp.SIMULATION_FIT_PARAMS[sim], pp.DiffstarPop_UParams_Diffstarpopfits_mgash[sim], None)
    calib(ctx, "default", pops.dp.DEFAULT_DIFFSTARPOP_PARAMS, default_u, None)
    calib(ctx, "default/package", pd.DEFAULT_DIFFSTARPOP_PARAMS, pd.DEFAULT_DIFFSTARPOP_U_PARAMS, None)


def calib(ctx, scen, P, U, mod):
    def go():
        return pops.dp.get_bounded_diffstarpop_params(U)

    def post(r):
        p, ok1 = read(P, NAMES)
        u, ok2 = read(U, UNAMES)
        b, ok3 = read(r, NAMES)
        d = dict(p=p, u=u, back=b, names_ok=ok1 and ok2 and ok3)
        if mod is not None:
            try:
                m = importlib.import_module("diffstar.diffstarpop.kernels.params." + mod)
                own = getattr(m, "SFH_PDF_QUENCH_PARAMS", None)
            except ImportError:
                own = None
            if own is not None and set(own._fields) == set(NAMES[:-9]):
                d["byname"] = [float(getattr(own, n)) for n in NAMES[:-9]]
        return d
    ctx.call("calib", scen, go, post)


def override(ctx, scen, rng, which, public):
    c = lambda v: gen.cast(np.asarray(v, float), ctx.x64)
    D = pops.dp.DEFAULT_DIFFSTARPOP_U_PARAMS
    if public:
        defaults, fn, names = D, lambda v: pu.get_all_diffstarpop_u_params(v), list(D._fields)
    else:
        names = NAMES
        defaults = pops.dp.DEFAULT_DIFFSTARPOP_PARAMS._make([float(x) for x in c(np.arange(N) + 0.25)])
        fn = lambda v: pu.get_all_params_from_varied(v, defaults)
    vals = c(1000.0 + rng.permutation(len(which)))
    # the published names, in the order in which the subset lists them
    varied = namedtuple("V", [names[i] for i in which])(*[float(x) for x in vals])

    def go():
        if not scen.startswith("enum"):
            return fn(varied)
        with jax.disable_jit():   # nothing to compile for every subset
            return fn(varied)
    ctx.call("override", scen, go,
             lambda r: dict(got=[float(getattr(r, n)) for n in names], names_ok=tuple(r._fields) == tuple(defaults._fields)),
             fields=names, default=[float(getattr(defaults, n)) for n in names], names=[names[i] for i in which], vals=vals)
