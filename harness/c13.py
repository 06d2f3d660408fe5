import os

import h5py
import numpy as np
from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS

import gen
from diffstar.data_loaders import load_flat_hdf5, load_precomputed_diffmah_fits

FIELDS = list(DEFAULT_MAH_PARAMS._fields)
KINDS = [(0.1, 20), (0.0, 5), (-1.0, 20), (0.1, 4), (-1e-3, 0)]


def kw(lo, hi, rng):
    d = {}
    if lo or rng.uniform() < 0.5:
        d["istart"] = lo
    if hi != -1:
        d["iend"] = hi
    elif rng.uniform() < 0.5:
        d["iend"] = None
    return d


def write(fn, mah, loss, npts, dt):
    with h5py.File(fn, "w") as f:
        for i, k in enumerate(FIELDS):
            f[k] = mah[:, i].astype(dt)
        f["loss"] = loss.astype(dt)
        f["n_points_per_fit"] = npts.astype("i8" if dt == "f8" else "i4")
        f["unused"] = np.zeros(len(loss))


def load(ctx, scen, fn, mah, loss, npts, lo, hi, t0, nmin, rng, dt="f8"):
    k = kw(lo, hi, rng)
    if nmin != 5 or rng.uniform() < 0.5:
        k["npts_fit_min"] = nmin

    def post(r):
        m, logmp0, ls, npt = r
        return dict(got_mah=np.array([np.asarray(x, float) for x in m]).T, fields=list(m._fields), got_logmp0=np.asarray(logmp0, float),
                    got_loss=np.asarray(ls, float), got_npts=np.asarray(npt).astype(int))
    ctx.call("mah", scen, lambda: load_precomputed_diffmah_fits(fn, t0, **k), post, mah=mah, loss=loss, npts=npts, lo=lo, hi=hi,
             t0=t0, nmin=nmin, single=(dt == "f4" or not ctx.x64), default=np.array(DEFAULT_MAH_PARAMS, float))


def run(ctx):
    tmp = os.path.join(ctx.workdir, "tmp", f"c13_{ctx.mode}_{ctx.shard}")
    os.makedirs(tmp, exist_ok=True)
    fn = os.path.join(tmp, "mah.h5")
    scen = [tuple(s) for s in ctx.scen["MC_C13"]]
    for k, s in enumerate(scen):
        if not ctx.mine() or (k % 8 and not ctx.thorough) or (ctx.thorough and k % 12):
            continue
        rng = ctx.rng(k)
        n = s[0]
        kinds, his = s[1:1 + n], s[1 + n:]
        dt = ["f8", "f4"][k % 2]
        mah = np.array([gen.mah(rng) for _ in range(n)]).astype(dt).astype(float)
        loss = np.array([KINDS[q - 1][0] for q in kinds]).astype(dt).astype(float)
        npts = np.array([KINDS[q - 1][1] for q in kinds])
        write(fn, mah, loss, npts, dt)
        lo = 0
        for j, hi in enumerate(his):
            load(ctx, f"tlc/{k}/{j}", fn, mah, loss, npts, lo, hi, 13.8, 5, rng, dt)
            lo = hi
    for rep in range(120 if ctx.thorough else 24):
        if not ctx.mine():
            continue
        rng = ctx.rng("rand", rep)
        n = int(rng.choice([1, 2, 7, 50, 300])) if rep % 12 != 11 else 1500
        dt = ["f8", "f4"][rep % 2]
        mah = np.array([gen.mah(rng) for _ in range(n)]).astype(dt).astype(float)
        loss = np.where(rng.uniform(size=n) < 0.3, -1.0, 10 ** rng.uniform(-4, 1, n)).astype(dt).astype(float)
        npts = rng.integers(0, 12, n)
        write(fn, mah, loss, npts, dt)
        t0 = float(gen.cast(rng.choice([13.8, 13.82, 12.0, 5.0, 1.0]), ctx.x64))
        nmin = int(rng.choice([5, 5, 1, 0, 9, 13]))
        for j in range(4):
            lo = int(rng.integers(0, n + 1))
            hi = int(rng.choice([-1, rng.integers(lo, n + 1), n, n + 5]))
            if lo >= (n if hi == -1 else min(n, hi)):
                lo = 0
                hi = max(hi, 1) if hi != -1 else hi
            load(ctx, f"rand/{rep}/{j}", fn, mah, loss, npts, lo, hi, t0, nmin, rng, dt)
    # flat files: columns of any kind, any range
    for rep in range(60 if ctx.thorough else 20):
        if not ctx.mine():
            continue
        rng = ctx.rng("flat", rep)
        n = int(rng.choice([0, 1, 2, 3, 10, 200])) if rep % 10 != 9 else 2500
        cols = {"a": rng.integers(-5, 10**6, n), "b": rng.permutation(n), "table": rng.integers(0, 99, (n, 3)),
                "cube": rng.integers(0, 9, (n, 2, 2)), "flag": rng.uniform(size=n) < 0.5}
        with h5py.File(fn, "w") as f:
            for k, v in cols.items():
                f[k] = v
        for j in range(8):
            lo = [0, 0, int(rng.integers(0, n + 1)), n][j % 4]
            hi = int([-1, 0, rng.integers(0, n + 1), n + 3, n, 1, max(n - 1, 0), -1][j])
            if hi != -1 and hi < lo:
                hi = lo
            d = kw(lo, hi, rng)
            keys = list(cols) if j % 2 else list(rng.permutation(list(cols))[:int(rng.integers(1, 6))])
            keys = [str(x) for x in keys]
            if not (j % 2 and rng.uniform() < 0.7):
                d["keys"] = keys if j % 3 else tuple(keys)
            else:
                keys = list(cols)
            ctx.call("flat", f"{rep}/{j}", lambda: load_flat_hdf5(fn, **d),
                     lambda r: dict(keys_out=list(r), got={k: np.asarray(v) for k, v in r.items()}),
                     keys_in=keys, file={k: v for k, v in cols.items()}, lo=lo, hi=hi)
