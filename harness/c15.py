import os
import sys
import types

import numpy as np

# The UniverseMachine reader is not installed: stand in a reader of the same
# interface which serves the mock of this scenario.
MOCK = {}


def load_mock_from_binaries(subvols, root_dirname=None, galprops=None):
    assert os.path.isdir(root_dirname)
    return {k: np.concatenate([MOCK[s][k] for s in subvols]) for k in galprops}


pkg = types.ModuleType("umachine_pyio")
sub = types.ModuleType("umachine_pyio.load_mock")
sub.load_mock_from_binaries = load_mock_from_binaries
pkg.load_mock = sub
sys.modules["umachine_pyio"], sys.modules["umachine_pyio.load_mock"] = pkg, sub

import diffstar.data_loaders.load_smah_data as ld  # noqa: E402

MASS = dict(absent=0.0, low=5e6, edge=1e7, ten=1e10, twelve=10**12.5)
RATE = dict(zero=0.0, small=1e-3, large=150.0)
HALO = ("tng", "smdpl_nomerging", "smdpl_dr1")
FILES = dict(bolshoi="bpl_diffmah_{}.npy", bolshoi_small="um_histories_subsample_dr1_bpl_{}_diffmah.npy",
             tng="tng_diffmah.npy", tng_small="tng_small.npy", mdpl="mdpl2_diffmah_{}.npy",
             mdpl_small="um_histories_dr1_mdpl2_small_{}.npy")
TIMES = dict(bolshoi="bpl", bolshoi_small="bpl", tng="tng", tng_small="tng", mdpl="mdpl2", mdpl_small="mdpl2")
FN = dict(bolshoi="load_bolshoi_data", bolshoi_small="load_bolshoi_small_data", tng="load_tng_data",
          tng_small="load_tng_small_data", mdpl="load_mdpl_data", mdpl_small="load_mdpl_small_data",
          smdpl_nomerging="load_SMDPL_nomerging_data", smdpl_dr1="load_SMDPL_DR1_data")


def write_other(tmp, rng, nt):
    """Files of every simulation and galaxy type, so that reading the wrong one shows."""
    for sim in ("bpl", "tng", "mdpl2"):
        np.save(os.path.join(tmp, f"{sim}_cosmic_time.npy"), np.sort(rng.uniform(0.1, 13.8, nt)))
    np.savetxt(os.path.join(tmp, "smdpl_cosmic_time.txt"), np.sort(rng.uniform(0.1, 13.8, nt)))
    for name, f in FILES.items():
        for g in ("cens", "sats", "orphans"):
            fn = os.path.join(tmp, f.format(g))
            if not os.path.exists(fn):
                a = np.zeros(2, dtype=[("halo_id", "i8"), ("mpeak", "f8"), ("sfr_history_main_prog", "f8", nt), ("sfh", "f8", nt), ("mpeakh", "f8", nt)])
                a["sfr_history_main_prog"] = rng.uniform(1, 5, (2, nt))
                np.save(fn, a)


def run(ctx):
    tmp = os.path.join(ctx.workdir, "tmp", f"c15_{ctx.mode}_{ctx.shard}")
    os.makedirs(tmp, exist_ok=True)
    scen = {}
    for s in ctx.scen["MC_C15"]:
        m = (len(s) - 1) // 2
        scen.setdefault(s[0], []).append((s[1:1 + m], s[1 + m:]))
    units = []
    # the enumerated snapshot histories, as galaxies of catalogues of up to 25
    for loader, lst in sorted(scen.items()):
        order = ctx.rng("perm", loader).permutation(len(lst))
        for i in range(0, len(lst), 25):
            units.append((loader, [lst[j] for j in order[i:i + 25]]))
        for n in (1, 2, 6) + ((40, 200) if ctx.thorough else ()):
            for nt in (2 if loader.startswith("smdpl") else 1, 3, 30):   # a text table of one time has no axis
                units.append((loader, (n, nt)))
    for k, (loader, what) in enumerate(units):
        if not ctx.mine():
            continue
        rng = ctx.rng(k)
        if isinstance(what, tuple):
            n, nt = what
            sfh = 10 ** rng.uniform(-6, 3, (n, nt))
            sfh[rng.uniform(size=sfh.shape) < 0.1] = 0
            mh = 10 ** (np.sort(rng.uniform(5, rng.choice([14, 16.5]), (n, nt)), axis=1) + rng.normal(0, 0.3, (n, nt)))
            mh[rng.uniform(size=mh.shape) < 0.1] = 0
            mh[rng.uniform(size=mh.shape) < 0.05] = 1e7
            lg = np.log10(np.maximum(mh, 1))
        else:
            n, nt = len(what), len(what[0][0])
            mh = np.array([[MASS[x] for x in a] for a, _ in what])
            lg = np.array([[dict(absent=0.0, low=np.log10(5e6), edge=7.0, ten=10.0, twelve=12.5)[x] for x in a] for a, _ in what])
            sfh = np.array([[RATE[x] for x in b] for _, b in what])
        single = bool(rng.integers(2)) or not ctx.x64
        f4 = single
        ft = "f4" if f4 else "f8"
        dt_t = "f4" if f4 else "f8"
        times = np.sort(rng.uniform(0.05, 13.8, nt))
        if nt > 1 and np.min(np.diff(times)) < 1e-3:
            times = np.linspace(0.2, 13.5, nt)
        times = times.astype(dt_t)
        sfh, mh, lg = sfh.astype(ft), mh.astype(ft), lg.astype(ft)
        ids = rng.permutation(10**6)[:n].astype("i8") * (10**9 if k % 2 else 1)
        gt = str(rng.choice(["cens", "sats", "orphans"]))
        for f in os.listdir(tmp):
            os.remove(os.path.join(tmp, f))
        MOCK.clear()
        fn = getattr(ld, FN[loader])
        if loader.startswith("smdpl"):
            write_other(tmp, rng, nt)
            np.savetxt(os.path.join(tmp, "smdpl_cosmic_time.txt"), times, fmt="%.17g")
            times = times.astype("f8")
            key, other = ("sfr_history_main_prog", "sfr_history_all_prog")[::1 if loader.endswith("merging") else -1]
            subvols = sorted(int(x) for x in rng.permutation(50)[:int(rng.integers(1, 4))])
            if rng.integers(2):
                subvols = subvols[::-1]
            cuts = np.sort(rng.integers(0, n + 1, len(subvols) - 1))
            for i, sv in enumerate(subvols):
                sl = slice(*([0] + list(cuts) + [n])[i:i + 2])
                MOCK[sv] = {"halo_id": ids[sl], key: sfh[sl], other: sfh[sl] * 3 + 1, "mpeak_history_main_prog": mh[sl]}
            MOCK[99] = {"halo_id": ids, key: sfh, other: sfh, "mpeak_history_main_prog": mh}
            go = [lambda: fn(subvols, data_drn=tmp), lambda: fn(subvols, tmp)][k % 2]
            stored = mh
        else:
            tng = loader.startswith("tng")
            names = ("sfh", "mpeakh") if tng else ("sfr_history_main_prog", "mpeak_history_main_prog")
            a = np.zeros(n, dtype=[("halo_id", "i8"), ("mpeak", ft), (names[0], ft, (nt,)), (names[1], ft, (nt,))])
            a["halo_id"], a["mpeak"], a[names[0]], a[names[1]] = ids, mh.max(axis=1), sfh, lg
            write_other(tmp, rng, nt)
            np.save(os.path.join(tmp, FILES[loader].format(gt)), a)
            np.save(os.path.join(tmp, TIMES[loader] + "_cosmic_time.npy"), times)
            args = () if loader == "tng" else (gt,)
            go = lambda: fn(*args, data_drn=tmp)
            stored = lg
            if tng:
                ids = np.arange(n)

        def post(r):
            d = dict(nret=len(r), got_ids=[str(int(x)) for x in r[0]], got_lgsm=np.asarray(r[1], float),
                     got_sfh=np.asarray(r[2], float), got_times=np.asarray(r[3], float))
            if loader in HALO:
                d.update(got_lgmh=np.asarray(r[4], float), got_logmp0=np.asarray(r[5], float))
            return d
        ctx.call("load", f"{loader}/{k}", go, post, loader=loader, has_halo=loader in HALO, single=single,
                 ids=[str(int(x)) for x in ids], sfh=sfh.astype(float), times=times.astype(float), stored=stored.astype(float))
