"""Target tables measured from fitted galaxies by the scripts' ranks."""
import importlib.util
import os
import shutil
import sys
import types

import h5py
import numpy as np
from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS, mah_halopop
from diffstar.data_loaders import load_galacticus_sfh as lgal
from diffstar.defaults import DEFAULT_DIFFSTAR_PARAMS, FB, LGT0, T_TABLE_MIN
from diffstar.diffstarpop.sumstats import diffndhist
from diffstar.sfh_model import calc_sfh_galpop

import ranks

F = lambda x: np.asarray(x, float)
MAHF, SFHF = DEFAULT_MAH_PARAMS._fields, DEFAULT_DIFFSTAR_PARAMS._fields
AGE0 = 13.79                     # stand-in cosmology: age = AGE0 (1+z)**-1.3
ZSETS = ([0.0, 0.5, 1.3], [0.1, 1.0, 2.0])
MEDGES = np.array([11.0, 12.0, 13.0])
SEDGES = np.array([7.0, 9.0, 10.5, 12.5])
REDGES = np.array([-13.0, -11.3, -10.2, -8.0])
T = np.linspace(T_TABLE_MIN, 10**LGT0, 200)
NAMES = ("tng", "galacticus", "smdpl")


def age(z):
    return AGE0 * (1.0 + np.asarray(z, float)) ** -1.3


class _Age:
    def __init__(self, v):
        self.value = v


def install():
    ranks.install()
    m = types.ModuleType("astropy")
    m.cosmology = types.ModuleType("astropy.cosmology")
    m.cosmology.Planck13 = types.SimpleNamespace(age=lambda z: _Age(age(z)))
    sys.modules["astropy"], sys.modules["astropy.cosmology"] = m, m.cosmology
    import diffsky
    diffsky.diffndhist = diffndhist
    sys.modules["diffsky.diffndhist"] = diffndhist
    u, lm = types.ModuleType("umachine_pyio"), types.ModuleType("umachine_pyio.load_mock")
    lm.load_mock_from_binaries = lambda subvols, root_dirname=None, galprops=None: {
        k: np.concatenate([np.load(os.path.join(root_dirname, f"bin_{int(s)}.npz"))[k] for s in np.atleast_1d(subvols)]) for k in galprops}
    u.load_mock = lm
    sys.modules["umachine_pyio"], sys.modules["umachine_pyio.load_mock"] = u, lm


def swap(mod, consts):
    """Replace module constants, also where they are default arguments."""
    for name, new in consts.items():
        if not hasattr(mod, name):
            continue
        old = getattr(mod, name)
        same = lambda v: v is old or (isinstance(old, str) and isinstance(v, str) and v == old)
        for fn in [v for v in vars(mod).values() if isinstance(v, types.FunctionType) and v.__module__ == mod.__name__]:
            if fn.__defaults__:
                fn.__defaults__ = tuple(new if same(v) else v for v in fn.__defaults__)
            if fn.__kwdefaults__:
                fn.__kwdefaults__ = {k: new if same(v) else v for k, v in fn.__kwdefaults__.items()}
        setattr(mod, name, new)


class MeasureRun(ranks.Run):
    """What the ranks do to the files of the parts."""

    def base(self, path):
        return os.path.basename(os.fspath(path))

    def opened(self, path, mode):
        if not ranks._inside(path, self):
            if mode != "r":
                raise ranks.Refused(f"write to {path}")
            return False
        if os.path.realpath(os.path.dirname(os.fspath(path))) != os.path.realpath(self.outdir):
            return False
        self.step()
        self.note("open", fn=self.base(path), write=mode != "r")
        return True

    def closed(self, path, mode):
        self.note("close", fn=self.base(path), write=mode != "r")
        self.step()

    def disk_ids(self):
        return []

    def removing(self, files):
        self.note("rm", files=[self.base(f) for f in files])


class File(h5py.File):
    def __init__(self, name, mode="r", *a, **k):
        run = ranks.CURRENT
        self._note = None
        if run is not None and run.opened(name, mode):
            self._note = (run, name, mode)
        super().__init__(name, mode, *a, **k)

    def __exit__(self, *a):
        super().__exit__(*a)
        if self._note and a[0] is None:
            run, name, mode = self._note
            self._note = None
            run.closed(name, mode)


# kinds of galaxy: fitted?, central?, mass class
KIND = dict(a=(True, True, 0), b=(True, True, 1), s=(True, False, 0), t=(True, False, 1), o=(True, True, 2), h=("halo", True, 0), q=("sfh", True, 1), n=("end", True, 0))
LGM = (11.6, 12.9, 10.2)


def galaxies(rng, kinds, first):
    """Parameters by which every galaxy can be told apart; no halo on an edge."""
    n = len(kinds)
    mah = np.tile(np.array(DEFAULT_MAH_PARAMS, float), (n, 1))
    sfh = np.tile(np.array(DEFAULT_DIFFSTAR_PARAMS, float), (n, 1))
    for i, c in enumerate(kinds):
        mah[i, 0] = LGM[KIND[c][2]] + 0.4 * rng.uniform(-1, 1)
        mah[i, 1] = rng.uniform(0.3, 0.7)
        mah[i, 4] = rng.choice([14.0, 5.0])
        sfh[i, 0] = rng.uniform(11.5, 12.6)
        sfh[i, 1] = rng.uniform(-10.9, -9.8)
        sfh[i, -4] = rng.choice([0.6, 0.9, 1.3]) + 0.1 * rng.uniform()
        sfh[i, -3] = rng.uniform(-0.3, 0.0)
        sfh[i, -2] = rng.uniform(-3.5, -1.0)
        sfh[i, -1] = -0.1 + 0.05 * rng.uniform()
    mah[:, 0] = np.round(mah[:, 0], 2) + 1e-4 * (1 + first + np.arange(n))
    return mah, sfh


def measure(mah, sfh, fit):
    """Mass, stellar mass and specific rate of each galaxy at every tabulated time."""
    M = DEFAULT_MAH_PARAMS._make(mah.T)
    S = DEFAULT_DIFFSTAR_PARAMS._make(sfh.T)
    lgm = F(mah_halopop(M, T, LGT0)[1])
    s, m = calc_sfh_galpop(S, M, T, lgt0=LGT0, fb=FB, return_smh=True)
    s, m = np.log10(F(s)), np.log10(F(m))
    return lgm, m, s - m


def scripts(repo, outdir):
    d = os.path.join(repo, "scripts", "diffstarpop_scripts")
    out = {}
    for n in NAMES:
        p, q = os.path.join(d, f"smhm_utils_{n}_mgash.py"), os.path.join(d, f"measure_smhm_{n}_script_mpi_mgash.py")
        if os.path.exists(p) and os.path.exists(q):
            out[n] = (p, q)
    return out


def module(path):
    name = os.path.basename(path)[:-3]
    spec = importlib.util.spec_from_file_location(name, path)
    mod = importlib.util.module_from_spec(spec)
    sys.modules[name] = mod
    spec.loader.exec_module(mod)
    return mod


def flat(fn, cols):
    with h5py.File(fn, "w") as f:
        for k, v in cols.items():
            f[k] = v


def columns(fn):
    with h5py.File(fn, "r") as f:
        return {k: f[k][...] for k in f}


def run_one(ctx, scen, name, paths, nranks, parts, missing, quota, order, pref, rng):
    """parts: kinds of the galaxies of every part (chunk or subvolume)."""
    root = os.path.join(ctx.workdir, "tmp", f"c31_{ctx.mode}_{ctx.shard}")
    shutil.rmtree(root, ignore_errors=True)
    indir, outdir = os.path.join(root, "in"), os.path.join(root, "out")
    os.makedirs(indir)
    os.makedirs(outdir)
    kinds = [c for p in parts for c in p]
    first = int(rng.integers(0, 30))
    mah, sfh = galaxies(rng, kinds, first)
    part = np.repeat(np.arange(len(parts)), [len(p) for p in parts])
    state = [KIND[c][0] for c in kinds]
    cen = np.array([KIND[c][1] for c in kinds])
    ZS = ZSETS[int(rng.uniform() < 0.4)]
    tids = [int(np.argmax(T >= age(z) - 1e-3)) for z in ZS]
    lgm = measure(mah, sfh, state)[0]
    for i in np.flatnonzero(rng.uniform(size=len(kinds)) < 0.2):       # just beside an edge
        at = lgm[i, tids[int(rng.integers(len(tids)))]]
        e = MEDGES[np.argmin(abs(MEDGES - at))]
        mah[i, 0] = np.round(mah[i, 0] + e - at + rng.choice([-1, 1]) * rng.uniform(0.008, 0.02), 2) + 1e-4 * (1 + first + i)
    lgm, lgs, ssfr = measure(mah, sfh, state)
    near = [any(abs(lgm[i, j] - e) < 2e-3 for e in MEDGES for t in tids for j in (t - 1, t, min(t + 1, len(T) - 1))) or
            any(abs(lgs[i, j] - e) < 2e-3 for e in SEDGES for t in tids for j in (t - 1, t, min(t + 1, len(T) - 1))) for i in range(len(kinds))]
    if any(near):         # counted galaxies keep off the edges
        shutil.rmtree(root)
        return False
    n = len(kinds)
    fit = np.array([s is True for s in state])
    for p in [None] if name == "galacticus" else range(len(parts)):     # every part has centrals, satellites and, at each redshift, a halo in the bins
        at = fit & ((part == p) if p is not None else True)
        if not (at & cen).any() or not (at & ~cen).any() or not all((at & (lgm[:, t] > MEDGES[0]) & (lgm[:, t] < MEDGES[-1])).any() for t in tids):
            shutil.rmtree(root)
            return False
    loss_h = np.where([s == "halo" for s in state], rng.choice([-1.0, -99.0], n), 10 ** rng.uniform(-4, 0, n))
    loss_s = np.where([s == "sfh" for s in state], rng.choice([-1.0, -99.0], n), 10 ** rng.uniform(-4, 0, n))
    ok = np.where([s in ("sfh", "end") for s in state], rng.choice([-1, 0], n), 1)
    wrote_mah = np.where((loss_h < 0)[:, None], -99.0, mah)
    wrote_sfh = np.where((loss_s < 0)[:, None], -99.0, sfh)
    upid = np.where(cen, -1, np.where(rng.uniform(size=n) < 0.5, 0, rng.integers(1, 2**31 - 1, n)))    # host ids start at zero
    hcols = lambda i: dict({k: wrote_mah[i, j] for j, k in enumerate(MAHF)}, loss=loss_h[i])
    scols = lambda i: dict({k: wrote_sfh[i, j] for j, k in enumerate(SFHF)}, loss=loss_s[i], success=ok[i])
    mod = module(paths[0])
    consts = dict(Z_BINS=ZS, LOGMH_BINS=MEDGES, LOGMSTAR_BINS_PDF=SEDGES, LOGSSFR_BINS_PDF=REDGES)
    every = np.arange(n)
    argv = ["-outdrn", outdir]
    slash = rng.choice(["", os.sep])
    if name == "tng":
        halos = np.zeros(n, dtype=[("cen1_sat0", "i8", (4,))])
        halos["cen1_sat0"] = rng.integers(0, 2, (n, 4))
        halos["cen1_sat0"][:, -1] = cen
        np.save(os.path.join(indir, "tng_diffmah.npy"), halos)
        np.save(os.path.join(indir, "tng_cosmic_time.npy"), np.linspace(0.3, 13.79, 4))
        flat(os.path.join(indir, "diffmah_tng_fits.hdf5"), dict(hcols(every), logm0=mah[:, 0]))
        flat(os.path.join(indir, "diffstar_tng_fits.hdf5"), scols(every))
        consts.update(BEBOP_TNG=indir + slash, BEBOP_TNG_MAH=indir + slash, BEBOP_TNG_SFH=indir + slash, NCHUNKS=nranks, N_HALOS_MAX=quota * nranks, N_HALOS_PER_SUBVOL=quota)
        host = np.where(cen, -1, 0)
        part = np.concatenate([np.full(len(x), k) for k, x in enumerate(np.array_split(every, nranks))])
    elif name == "galacticus":
        typ = str(rng.choice(["in_situ", "in_plus_ex_situ"]))
        flat(os.path.join(indir, lgal.BN_DIFFMAH), hcols(every))
        other = {k: (v[::-1] if k != "success" else np.ones(n, int)) for k, v in scols(every).items()}
        flat(os.path.join(indir, lgal.BN_DIFFSTAR_IN_SITU), scols(every) if typ == "in_situ" else other)
        flat(os.path.join(indir, lgal.BN_DIFFSTAR_IN_PLUS_EX_SITU), other if typ == "in_situ" else scols(every))
        tg = np.linspace(0.5, 13.79, 4)
        for q in ("bulge", "disk"):
            np.save(os.path.join(indir, f"tarr_{q}.npy"), tg)
            for w in ("in_situ", "tot"):
                np.save(os.path.join(indir, f"delta_mstar_{w}_{q}.npy"), np.ones((n, 4)))
        with h5py.File(os.path.join(indir, lgal.BN_GALCUS), "w") as f:
            f["Outputs/Output1/nodeData/nodeIsIsolated"] = cen.astype("i8")
        argv += ["-sfh_type", typ]
        consts.update(BEBOP_GALAC=indir + slash, BEBOP_GALAC_SFH=indir + slash, N_HALOS_MAX=quota)
        host = np.where(cen, -1, 0)
        part[:] = 0
    else:
        sim = str(rng.choice(["DR1", "DR1_nomerging"]))
        # names of the subvolumes: with or without leading zeros
        style = int(rng.integers(3))
        subvols = sorted(int(x) for x in rng.choice([range(0, 12), range(0, 570), range(5, 140)][style], len(parts), replace=False))
        pad = [3, 1, 2][int(rng.integers(3))]
        nm = lambda v: f"{v:0{pad}d}"
        for k, v in enumerate(subvols):
            i = every[part == k]
            flat(os.path.join(indir, f"diffstar_fits_subvol_{nm(v)}.hdf5"), scols(i))
            if k not in missing:
                flat(os.path.join(indir, f"subvol_{nm(v)}_diffmah_fits.h5" if sim == "DR1_nomerging" else f"diffmah_fits_subvol_{nm(v)}.hdf5"), hcols(i))
            np.savez(os.path.join(indir, f"bin_{v}.npz"), upid=upid[i], halo_id=i)
        if sim == "DR1_nomerging":       # the halo catalogue is complete even if its names are of another style
            pass
        argv += ["-sim_name", sim]
        drn = indir + slash
        consts.update({f"LCRC_{a}_{b}_DRN": drn for a in ("NOMERGING", "DR1") for b in ("DIFFSTAR", "DIFFMAH", "BINARIES")})
        consts.update(TASSO_DIFFSTAR_DRN=drn, N_HALOS_MAX=quota * len(parts))
        host = upid
        for i in range(n):
            if part[i] in missing:
                state[i] = "missing"
    swap(mod, consts)
    run = MeasureRun(root, outdir, nranks, order, pref, lambda f: [], lambda f: f.startswith("_tmp"))
    gals = [dict(fit=state[i] is True, part=int(part[i]), cen=bool(cen[i]), host=int(host[i]), mh=lgm[i, tids], sm=lgs[i, tids], rate=np.maximum(ssfr[i, tids], -12.0),
                 mah=mah[i], ms=sfh[i, :4], q=sfh[i, 4:]) for i in range(n)]
    base = dict(script=name, gals=gals, zs=ZS, ages=T[tids], medges=MEDGES, sedges=SEDGES, redges=REDGES, quota=quota)
    np.random.seed(int(rng.integers(2**31)))
    real = h5py.File
    h5py.File = File
    try:
        run.go(paths[1], argv)
    except Exception as ex:
        ctx.emit("targets", scen, exc=type(ex).__name__, msg=str(ex)[:300], **base)
        h5py.File = real
        shutil.rmtree(root, ignore_errors=True)
        return True
    finally:
        h5py.File = real
    a, b, c = (columns(os.path.join(outdir, f)) for f in ("smdpl_smhm.h5", "smdpl_smhm_samples_haloes.h5", "smdpl_mstar_ssfr.h5"))
    ctx.emit("schedule", scen, log=run.log, nranks=nranks, left=[f for f in sorted(os.listdir(outdir)) if f.startswith("_tmp")], outs=["smdpl_smhm.h5", "smdpl_smhm_samples_haloes.h5", "smdpl_mstar_ssfr.h5"])
    ok = all(np.allclose(x, y) for x, y in ((a["logmh_bins"], MEDGES), (c["logmh_bins"], MEDGES), (c["logmstar_bins_pdf"], SEDGES), (c["logssfr_bins_pdf"], REDGES),
                                           (a["redshift_targets"], ZS), (c["redshift_targets"], ZS)))
    has = F(a["counts"]) > 0
    ctx.emit("targets", scen, axes=bool(ok), age_a=F(a["age_targets"]), age_c=F(c["age_targets"]), counts=F(a["counts"]), hist=F(a["hist"]), cencounts=F(a["counts_cen"]), satcounts=F(a["counts_sat"]),
             smhm=np.where(has, F(a["smhm"]), 0.0), soft=F(a["counts_diff"]), softsum=F(a["hist_diff"]), softmean=np.where(F(a["counts_diff"]) > 1e-3, F(a["smhm_diff"]), 0.0), **base)
    ctx.emit("distributions", scen, hard=F(c["mstar_counts"]), soft=F(c["mstar_wcounts"]), cendist=F(c["mstar_ssfr_wcounts_cent"]), satdist=F(c["mstar_ssfr_wcounts_sat"]), **base)
    m = F(b["mah_params_samp"])
    fit = np.array([s is True for s in state])
    ids = [int(np.argmin(np.where(fit, abs(mah[:, 0] - x), np.inf))) + 1 for x in m[0]]
    ctx.emit("samples", scen, ids=ids, shape=bool(m.shape[0] == len(MAHF) and b["ms_params_samp"].shape == (4, len(ids)) and b["q_params_samp"].shape == (4, len(ids))),
             m=[int(x) for x in b["logmh_id"]], z=[int(x) for x in b["tobs_id"]], mid=F(b["logmh_val"]), tobs=F(b["tobs_val"]), zval=F(b["redshift_val"]), host=[int(x) for x in b["upid_samp"]],
             mahs=m.T, mss=F(b["ms_params_samp"]).T, qs=F(b["q_params_samp"]).T, **base)
    shutil.rmtree(root, ignore_errors=True)
    return True


def run(ctx):
    install()
    every = scripts(ctx.repo, None)
    scen = [list(s) for s in ctx.scen["MC_C31"]]
    order = ctx.rng("order", ctx.mode).permutation(len(scen))
    n = 12 if ctx.thorough else 6
    k = done = 0
    while done < n and k < 20 * n:
        rng = ctx.rng("run", ctx.mode, ctx.shard, k)
        s = scen[order[(k * ctx.nshard + ctx.shard) % len(scen)]]
        k += 1
        nranks, kinds = int(s[0]), s[1:]
        name = NAMES[(done + ctx.shard) % 3]
        if nranks == 1 and rng.uniform() < 0.7:
            nranks = 2
        if name not in every:
            done += 1
            continue
        # the design model's galaxies, and others so that each part has as many fitted ones
        nparts = nranks if name == "tng" else 1 if name == "galacticus" else int(rng.integers(1, 5))
        per = -(-max(len(kinds), 2 * nparts) // nparts)
        parts = []
        for p in range(nparts):
            own = list(kinds[p * per:(p + 1) * per])
            nfit = 6
            have = sum(KIND[c][0] is True for c in own)
            own += [str(c) for c in rng.choice(list("abstabsto"), max(nfit - have, 0))] + list("bt")
            parts.append([str(x) for x in rng.permutation(own)])
        if name == "tng":
            # chunks are equal blocks of the catalogue
            size = max(len(p) for p in parts)
            parts = [p + [str(c) for c in rng.choice(list("hqn"), size - len(p))] for p in parts]
        if name == "galacticus":
            nranks = 1
        missing = []
        if name == "smdpl" and nparts > 1 and rng.uniform() < 0.4:
            # one subvolume without halo fits, or all those of the first rank
            first = [int(x) for x in np.array_split(np.arange(nparts), nranks)[0]]
            missing = first if rng.uniform() < 0.6 and len(first) < nparts else [int(rng.integers(nparts))]
        quota = int(rng.choice([1, 2, 50]))
        pref = [int(x) for x in rng.permutation(nranks)]
        if rng.uniform() < 0.4:       # the collecting rank hurries
            pref = sorted(pref)
        orders = [] if rng.uniform() < 0.5 else [int(x) for x in rng.integers(0, nranks, 200)]
        done += run_one(ctx, f"{name}/{ctx.shard}/{k}", name, every[name], nranks, parts, missing, quota, orders, pref, rng)
