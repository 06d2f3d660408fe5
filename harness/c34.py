"""Fits of the growth of Galacticus halos by any number of ranks."""
import os
import shutil

import h5py
import numpy as np
from diffmah.fitting_helpers import diffmah_fitter_helpers as cfh

import ranks

COLS = ("logm0", "logtc", "early_index", "late_index", "t_peak", "loss")
END = 13.7


def halos(rng, kinds, first, dtmin):
    """Histories by whose greatest mass each halo can be told."""
    out = []
    early = END - rng.uniform(1.0, 3.0)
    for i, k in enumerate(kinds):
        n = int(rng.integers(2, 9))
        end = END if k == "f" else early - rng.uniform(0.0, 1.0)
        life = dtmin * rng.uniform(0.05, 0.9) if k == "s" else dtmin * rng.uniform(1.1, 2.0) + rng.uniform(0, 3)
        if k != "s" and rng.uniform() < 0.3:      # exactly the minimum time
            life = dtmin
            end = end if k == "f" else np.round(end * 8) / 8
        t = np.sort(np.concatenate(([end - life, end], rng.uniform(end - life, end, n - 2))))
        top = 10 ** (11.0 + 0.01 * (first + i))
        m = top * np.sort(rng.uniform(0.01, 1.0, n))
        if rng.uniform() < 0.5:      # halos lose mass at times
            m = rng.permutation(m)
        m[int(rng.integers(n))] = top
        out.append((t, m))
    return out


def write(fn, hs, rng):
    vl = h5py.vlen_dtype(np.float64)
    with h5py.File(fn, "w") as f:
        g = f.create_group("Outputs/Output1/nodeData")
        for name, j in (("haloAccretionHistoryTime", 0), ("haloAccretionHistoryMass", 1)):
            d = g.create_dataset(name, (len(hs),), dtype=vl)
            for i, h in enumerate(hs):
                d[i] = h[j]
        g["nodeIsIsolated"] = rng.integers(0, 2, len(hs))
        g["basicTimeLastIsolated"] = rng.uniform(1, 13, len(hs))


def columns(fn):
    with h5py.File(fn, "r") as f:
        return {k: f[k][...] for k in f}


def key(x):
    return "{:.5e}".format(float(x))


def out_ids(fn):
    return [key(x) for x in columns(fn)["logm0"] if x > 0]


class HaloRun(ranks.Run):
    @staticmethod
    def file_ids(fn):
        ids = [line.split()[0] for line in open(fn) if line.strip() and not line.startswith("#") and line.endswith("\n")]
        return [i for i in ids if not i.startswith("-")]


def run_one(ctx, scen, path, nranks, kinds, order, pref, rng):
    root = os.path.join(ctx.workdir, "tmp", f"c34_{ctx.mode}_{ctx.shard}")
    shutil.rmtree(root, ignore_errors=True)
    indir, outdir = os.path.join(root, "in"), os.path.join(root, "out")
    os.makedirs(indir)
    os.makedirs(outdir)
    dtmin = 0.5 if rng.uniform() < 0.6 else float(np.round(rng.uniform(0.2, 3.0), 2))
    hs = halos(rng, kinds, int(rng.integers(0, 60)), dtmin)
    write(os.path.join(indir, "trees.hdf5"), hs, rng)
    outbn = "halo_fits.h5" if rng.uniform() < 0.5 else "diffmah_fits.h5"
    argv = ["-indir", indir, "-inbn", "trees.hdf5", "-outdir", outdir]
    argv += ["-outbn", outbn] if outbn != "diffmah_fits.h5" or rng.uniform() < 0.5 else []
    argv += ["-dt_fit_min", dtmin] if dtmin != 0.5 or rng.uniform() < 0.5 else []
    if rng.uniform() < 0.25:     # an earlier run was interrupted
        for r in range(nranks):
            with open(os.path.join(outdir, f"tmp_mah_fits_rank_{r}.dat"), "w") as f:
                f.write(cfh.HEADER + " ".join(["7.77777e+07"] + ["1.0"] * 5 + ["9", "0"]) + "\n")
    real = cfh.diffmah_fitter

    def fitter(t_sim, mah_sim, *a, force_skip_fit=False, **k):
        run = ranks.CURRENT
        run.step()
        t, m = np.asarray(t_sim, float), np.asarray(mah_sim, float)
        n = int(1 + (1000 * float(np.log10(m.max()))) % 17)
        x = float(np.log10(m.max()))
        p = np.full(5, cfh.NOFIT_FILL) if force_skip_fit else np.array([x, 0.1 * x, x - 9.0, 0.02 * x, t[0] + 0.3])
        loss, algo = (cfh.NOFIT_FILL, -1) if force_skip_fit else (float(10.0 ** (x - 14.0)), int(10 * x) % 2)
        run.note("fit", t=t, m=m, skip=bool(force_skip_fit), p=[float(v) for v in p], loss=loss, npts=n, algo=algo)
        run.step()
        data = cfh.DiffmahFitLossData(t, np.arange(n + 1.0), cfh.NOFIT_FILL, cfh.NOFIT_FILL)
        return cfh.DiffmahFitResult(cfh.dk.DEFAULT_MAH_PARAMS._make(p), loss, bool(force_skip_fit), not force_skip_fit, algo, data)

    cfh.diffmah_fitter = fitter
    run = HaloRun(root, outdir, nranks, order, pref, out_ids, lambda f: f.endswith(".dat"))

    def post(r):
        d = columns(os.path.join(outdir, outbn))
        n = len(d["loss"])
        return dict(p=[[float(d[c][i]) for c in COLS[:5]] for i in range(n)], loss=d["loss"].astype(float), npts=[int(x) for x in d["n_points_per_fit"]],
                    algo=[int(x) for x in d["fit_algo"]], left=[f for f in sorted(os.listdir(outdir)) if f != outbn])
    try:
        ctx.call("run", scen, lambda: run.go(path, argv), post, nranks=nranks, dtmin=dtmin, log=run.log,
                 halos=[dict(t=t, m=m, id=key(np.log10(m.max()))) for t, m in hs])
    finally:
        cfh.diffmah_fitter = real
        shutil.rmtree(root, ignore_errors=True)


def run(ctx):
    path = os.path.join(ctx.repo, "scripts", "galacticus_analysis", "galacticus_diffmah_fitter_script.py")
    if not os.path.exists(path):
        return
    ranks.install()
    jobs = []
    for k, s in enumerate(ctx.scen["MC_C34"]):
        jobs.append((f"model/{k}", int(s[0]), [str(x) for x in s[1:]]))
    if not ctx.thorough:
        jobs = [j for i, j in enumerate(jobs) if i % 2 == 0]
    for k in range(300 if ctx.thorough else 40):
        r = ctx.rng("size", k)
        n = int(r.choice([1, 2, 7, 13, 30]))
        jobs.append((f"rand/{k}", int(r.integers(1, 14)), [str(x) for x in r.choice(list(["fes", "es", "fffe"][k % 3]), n)]))
    for k, (scen, nranks, kinds) in enumerate(jobs):
        if not ctx.mine():
            continue
        rng = ctx.rng("run", scen)
        style = k % 3
        pref = [int(x) for x in rng.permutation(nranks)]
        order = [] if style == 0 else [int(x) for x in rng.integers(0, nranks, 300)]
        if style == 2:
            order = [int(x) for x in np.repeat(rng.integers(0, nranks, 40), 10)]
        run_one(ctx, scen, path, nranks, kinds, order, pref, rng)
