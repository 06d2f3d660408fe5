import glob
import os
import shutil
from collections import namedtuple

import h5py
import numpy as np
from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS

import gen
import ranks
import diffstar.fitting_helpers.diffstar_fitting_helpers as dfh
from diffstar.data_loaders import load_smah_data as lsd

MAHF = list(DEFAULT_MAH_PARAMS._fields)
NT = 6
# kinds of galaxy: fitted halo? massive enough halo? enough stars?
KIND = dict(f=(True, True, True), u=(False, True, True), l=(True, False, True), s=(True, True, False))
GALPARS = ("lgmcrit", "lgy_at_mcrit", "indx_lo", "indx_hi", "lg_qt", "qlglgdt", "lg_drop", "lg_rejuv")
FitPars = namedtuple("FitPars", GALPARS)
STALE = "777777777"


def catalogue(rng, kinds, first):
    """Galaxies whose history and halo both tell which galaxy they belong to."""
    n = len(kinds)
    t = np.linspace(0.5, 13.8, NT)
    k = np.arange(first, first + n)
    mah = np.tile(np.array(DEFAULT_MAH_PARAMS, float), (n, 1))
    mah[:, 0] = [11.6 + 0.01 * (j % 100) if KIND[c][1] else 9.1 + 0.01 * (j % 100) for j, c in zip(k, kinds)]
    mah[:, 1] = 0.4 + 0.001 * k
    loss = np.array([10 ** rng.uniform(-4, 0) if KIND[c][0] else rng.choice([-1.0, -99.0]) for c in kinds])
    npts = np.array([20 if KIND[c][0] else 2 for c in kinds])
    amp = np.array([1.0 if KIND[c][2] else 1e-4 for c in kinds])
    sfh = amp[:, None] * (1 + 0.013 * k[:, None]) * np.linspace(0.4, 1.3, NT)[None, :]
    return dict(t=t, mah=mah, loss=loss, npts=npts, sfh=sfh, n=n, kinds=kinds)


def write_mah(fn, c):
    with h5py.File(fn, "w") as f:
        for i, name in enumerate(MAHF):
            f[name] = c["mah"][:, i]
        f["loss"] = c["loss"]
        f["n_points_per_fit"] = c["npts"]


def columns(fn):
    with h5py.File(fn, "r") as f:
        return {k: f[k][...] for k in f}


def out_ids(fn):
    return [str(int(x)) for x in columns(fn)["halo_id"]]


def scripts(repo):
    d = os.path.join(repo, "scripts")
    out = []
    for base, kind in (("history_fitting_script_TNG_mgash.py", "tng"), ("galacticus_diffstar_fitter_script_mgash.py", "gal"),
                       ("galacticus_diffstar_fitter_script.py", "gal"), ("diffstar_fitting_script_umachine_mgash.py", "um"),
                       ("diffstar_fitting_script_umachine.py", "um")):
        p = os.path.join(d, base)
        if os.path.exists(p):
            out.append((kind, base, p))
    return out


def run_one(ctx, scen, kind, base, path, nranks, kinds_by_vol, order, pref, rng):
    root = os.path.join(ctx.workdir, "tmp", f"c27_{ctx.mode}_{ctx.shard}")
    shutil.rmtree(root, ignore_errors=True)
    indir, outdir = os.path.join(root, "in"), os.path.join(root, "out")
    os.makedirs(indir)
    os.makedirs(outdir)
    cats, first = [], int(rng.integers(0, 40))
    for kinds in kinds_by_vol:
        cats.append(catalogue(rng, kinds, first))
        first += len(kinds) + 3
    patches = []
    vol0 = int(rng.choice([0, 3, 98])) if kind == "um" else 0

    def patch(mod, name, fn):
        patches.append((mod, name, getattr(mod, name)))
        setattr(mod, name, fn)

    lgm_min = 10.5
    other = np.zeros((0, NT))
    if kind == "tng":
        c = cats[0]
        c["ids"] = [str(i) for i in range(c["n"])]
        halos = np.zeros(c["n"], dtype=[("mpeak", "f8"), ("sfh", "f8", (NT,)), ("mpeakh", "f8", (NT,))])
        halos["mpeak"], halos["sfh"], halos["mpeakh"] = c["mah"][:, 0], c["sfh"], 11.0 + 0.1 * np.arange(NT)
        np.save(os.path.join(indir, "tng_diffmah.npy"), halos)
        np.save(os.path.join(indir, "tng_cosmic_time.npy"), c["t"])
        write_mah(os.path.join(indir, "diffmah_tng_fits.hdf5"), c)
        argv = [outdir, "-indir", indir, "-indir_diffmah", indir]
        eligible = [[True] * c["n"]]
        stale = "tmp_sfh_fits_rank_{}.dat"
    elif kind == "gal":
        c = cats[0]
        c["ids"] = [str(i) for i in range(c["n"])]
        typ = str(rng.choice(["in_situ", "in_plus_ex_situ"]))
        other = c["sfh"] * 3.17
        with h5py.File(os.path.join(indir, "block.hdf5"), "w") as f:
            f["tarr"] = c["t"]
            f["sfh_in_situ"] = c["sfh"] if typ == "in_situ" else other
            f["sfh_tot"] = c["sfh"] if typ != "in_situ" else other
            f["is_cen"] = np.ones(c["n"], bool)
        write_mah(os.path.join(indir, "diffmah_fits.h5"), c)
        argv = [typ, "-indir", indir, "-inbn", "block.hdf5", "-outdir", outdir]
        if rng.uniform() < 0.3:
            lgm_min = float(rng.choice([9.0, 10.0, 15.0]))
            argv += ["-logmp0_min", lgm_min]
        eligible = [[KIND[q][0] and KIND[q][2] for q in c["kinds"]]]
        stale = "tmp_sfh_fits_rank_{}_" + typ + ".dat"
    else:
        sim = str(rng.choice(["DR1", "DR1_nomerging"]))
        for v, c in enumerate(cats):
            c["ids"] = [str(int(x)) for x in rng.choice(10**12, c["n"], replace=False)]
        dt = cats[0]["t"]

        def load_sfh(subvols, *a, **k):
            c = cats[int(list(subvols)[0]) - vol0]
            return (np.array([int(x) for x in c["ids"]], "i8"), np.log10(np.cumsum(c["sfh"], axis=1)) + 9, c["sfh"].copy(), dt.copy())

        def load_mah(basename, data_drn="", **k):
            digits = [int(s) for s in basename.replace(".", "_").split("_") if s.isdigit()]
            i = digits[-1] - vol0 if digits else None
            if i is None:
                raise FileNotFoundError(basename)
            fn = os.path.join(indir, f"mah_{i}.h5")
            k.setdefault("t0", float(dt[-1]))
            return real_load(os.path.basename(fn), data_drn=indir, **k)

        real_load = lsd.load_smdpl_diffmah_fits
        for i, c in enumerate(cats):
            write_mah(os.path.join(indir, f"mah_{i}.h5"), c)
        patch(lsd, "load_SMDPL_DR1_data", load_sfh)
        patch(lsd, "load_SMDPL_nomerging_data", load_sfh)
        patch(lsd, "load_smdpl_diffmah_fits", load_mah)
        argv = [outdir, sim, "-istart", vol0, "-iend", vol0 + len(cats)]
        if rng.uniform() < 0.3:
            lgm_min = float(rng.choice([9.0, 10.0, 15.0]))
            argv += ["-logmp0_min", lgm_min]
        eligible = [[KIND[q][0] for q in c["kinds"]] for c in cats]
        stale = f"subvol_{vol0:03d}_tmp_sfh_fits_rank_" + "{}.dat"
    if rng.uniform() < 0.25:     # an earlier run was interrupted
        for r in range(nranks):
            with open(os.path.join(outdir, stale.format(r)), "w") as f:
                f.write("# header\n" + " ".join([STALE] + ["1.0"] * 9 + ["1"]) + "\n")

    def massive(m):
        return m > lgm_min

    vols = []
    for c, el in zip(cats, eligible):
        mah = c["mah"].copy()
        mah[c["npts"] < 5] = -1.0
        vols.append(dict(ids=c["ids"], sfh=c["sfh"], mah=mah, eligible=list(el), logm=c["mah"][:, 0],
                         needs_mass=kind != "tng", t=c["t"]))

    def fitter(tarr, sfh, mah_params, *a, **k):
        run = ranks.CURRENT
        run.step()
        sfh = np.asarray(sfh, float)
        m = np.array([float(x) for x in mah_params])
        p = np.concatenate((m, 0.01 * sfh[:3] + np.arange(3)))
        loss = float(0.001 * (1 + len(run.log)))
        ok = [1, -1, 0][int(1e6 * sfh[-1]) % 3]
        run.note("fit", sfh=sfh, mah=m, t=np.asarray(tarr, float), p=p, loss=loss, flag=ok)
        run.step()
        return FitPars(*p), loss, ok

    patch(dfh, "diffstar_fitter", fitter)
    run = ranks.Run(root, outdir, nranks, order, pref, out_ids, lambda f: f.endswith((".dat", ".txt")))

    def go():
        return run.go(path, argv)

    def post(r):
        outs = []
        files = [f for f in run.outputs()]
        files.sort(key=lambda f: [int(s) for s in os.path.basename(f).replace(".", "_").split("_") if s.isdigit()])
        for f in files:
            d = columns(f)
            outs.append(dict(ids=[str(int(x)) for x in d["halo_id"]], success=[int(x) for x in d["success"]],
                             p=[[float(d[k][i]) for k in GALPARS] for i in range(len(d["loss"]))], loss=[float(x) for x in d["loss"]]))
        return dict(outs=outs)
    try:
        ctx.call("run", f"{base}/{scen}", go, post, script=base, nranks=nranks, vols=vols, lgm_min=lgm_min, log=run.log)
    finally:
        for mod, name, old in reversed(patches):
            setattr(mod, name, old)
        shutil.rmtree(root, ignore_errors=True)


def run(ctx):
    ranks.install()
    every = scripts(ctx.repo)
    schedules = [list(s) for s in ctx.scen["MC_C27_sched"]]
    configs = [tuple(s) for s in ctx.scen["MC_C27"]]
    n = 0
    quick = not ctx.thorough
    # every configuration of the design model, with an order in which the ranks move
    for k, s in enumerate(configs):
        nranks, vols, kinds = s[0], s[1], list(s[2:])
        for j, (kind, base, path) in enumerate(every):
            if not ctx.mine():
                continue
            if quick and (k + j) % 3:
                continue
            rng = ctx.rng("cfg", k, j)
            perm = [int(x) for x in rng.permutation(nranks)]
            byvol = [kinds] if kind != "um" or vols == 1 else [kinds, [str(x) for x in rng.permutation(kinds)][:max(1, len(kinds) - 1)]]
            run_one(ctx, f"cfg/{k}", kind, base, path, nranks, byvol, [], perm, rng)
            n += 1
    # every order of the two-rank design model
    for k, s in enumerate(schedules):
        for j, (kind, base, path) in enumerate(every):
            if not ctx.mine():
                continue
            if (quick and (k + 7 * j) % 40) or (not quick and (k + j) % 4):
                continue
            rng = ctx.rng("sched", k, j)
            kinds = [str(x) for x in rng.choice(list("ffuls"), 2)]
            run_one(ctx, f"sched/{k}", kind, base, path, 2, [kinds] * (2 if kind == "um" else 1), list(s), [0, 1], rng)
            n += 1
    # larger runs, random orders
    for rep in range(400 if ctx.thorough else 60):
        if not ctx.mine():
            continue
        rng = ctx.rng("rand", rep)
        kind, base, path = every[rep % len(every)]
        nranks = int(rng.integers(1, 14))
        nvol = int(rng.integers(1, 4)) if kind == "um" else 1
        byvol = [[str(x) for x in rng.choice(list("fffuls"), int(rng.choice([1, 2, nranks, nranks + 1, 12, 25])))] for _ in range(nvol)]
        style = rep % 3
        pref = [int(x) for x in rng.permutation(nranks)]
        order = [] if style == 0 else [int(x) for x in rng.integers(0, nranks, 400)]
        if style == 2:        # long stretches of one rank
            order = [int(x) for x in np.repeat(rng.integers(0, nranks, 40), 10)]
        run_one(ctx, f"rand/{rep}", kind, base, path, nranks, byvol, order, pref, rng)
