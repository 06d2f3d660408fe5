import os
import runpy
import shutil
import sys

import h5py
import numpy as np

from diffstar.data_loaders import extract_galacticus_sfh_data as ex
from diffstar.data_loaders import load_galacticus_sfh as lg

COL = dict(disk="diskStarFormationHistoryMass", bulge="spheroidStarFormationHistoryMass")


def make_store(rng, kinds, nmet, nt):
    """kinds: 0 none, 1 disk, 2 bulge, 3 both"""
    times = np.cumsum(rng.uniform(0.05, 2, nt))

    def hist(on):
        if not on:
            return []
        h = 10 ** rng.uniform(-3, 9, (2 * nmet, nt))
        h[rng.uniform(size=h.shape) < 0.1] = 0.0
        return h.tolist()
    return times, [hist(k & 1) for k in kinds], [hist(k & 2) for k in kinds]


def write(fn, times, disk, bulge, mah, mtimes, iso, last):
    vv = h5py.vlen_dtype(h5py.vlen_dtype(np.float64))
    v = h5py.vlen_dtype(np.float64)
    with h5py.File(fn, "w") as f:
        nd = f.create_group("Outputs/Output1/nodeData")
        for c, st in (("disk", disk), ("bulge", bulge)):
            d = nd.create_dataset(COL[c], (len(st),), dtype=vv)
            for i, h in enumerate(st):
                if h:
                    row = np.empty(len(h), dtype=object)
                    for j in range(len(h)):
                        row[j] = np.array(h[j])
                    d[i] = row
            d.attrs["time"] = times
        for name, val in (("haloAccretionHistoryMass", mah), ("haloAccretionHistoryTime", mtimes)):
            d = nd.create_dataset(name, (len(val),), dtype=v)
            for i, x in enumerate(val):
                d[i] = np.array(x)
        nd["nodeIsIsolated"] = iso
        nd["basicTimeLastIsolated"] = last


def run(ctx):
    tmp = os.path.join(ctx.workdir, "tmp", f"c14_{ctx.mode}_{ctx.shard}")
    os.makedirs(tmp, exist_ok=True)
    scen = [tuple(s) for s in ctx.scen["MC_C14"]]
    for n in (5, 17, 300) + ((60, 1500) if ctx.thorough else ()):
        for k in range(3 if n < 100 else 1):
            r = ctx.rng("big", n, k)
            lo = int(r.integers(0, n - 1))
            hi = int(r.integers(lo + 1, n + 1))
            scen.append((lo, hi if k else n) + tuple(int(x) for x in r.choice([0, 1, 2, 3, 3, 3], n)))
    for k, s in enumerate(scen):
        if not ctx.mine():
            continue
        lo, hi, kinds = int(s[0]), int(s[1]), [int(x) for x in s[2:]]
        rng = ctx.rng(k)
        n = len(kinds)
        nmet, nt = int(rng.choice([1, 2, 3, 4, 4, 15])), int(rng.integers(1, 7))
        times, disk, bulge = make_store(rng, kinds, nmet, nt)
        mah = [(10 ** rng.uniform(9, 14, rng.integers(0, 5))).tolist() for _ in range(n)]
        mtimes = [rng.uniform(0, 14, len(m)).tolist() for m in mah]
        iso = [int(x) for x in rng.integers(0, 2, n)]
        last = rng.uniform(0, 14, n).tolist()
        drn = os.path.join(tmp, str(k))
        os.makedirs(drn)
        fn = os.path.join(drn, lg.BN_GALCUS)
        write(fn, times, disk, bulge, mah, mtimes, np.array(iso), np.array(last))

        def post(r):
            return dict(tot=np.asarray(r[0], float), ins=np.asarray(r[1], float), got_times=np.asarray(r[2], float))
        for comp, st in (("disk", disk), ("bulge", bulge)):
            for a, b in {(lo, hi), (0, n)}:
                kw = dict(store=st, lo=a, hi=b, nt=nt, times=times)
                args = [lambda: ex.extract_galacticus_sfh_tables(fn, COL[comp], istart=a, iend=b),
                        lambda: ex.extract_galacticus_sfh_tables(fn, COL[comp], a, b)]
                if b == n:
                    args.append(lambda: ex.extract_galacticus_sfh_tables(fn, COL[comp], istart=a))
                ctx.call("extract", f"{k}/{comp}", args[int(rng.integers(len(args)))], post, **kw)
            if k % 4 == 0:       # no galaxy at all
                z = int(rng.choice([0, lo]))
                ctx.call("extract", f"{k}/{comp}/none", lambda: ex.extract_galacticus_sfh_tables(fn, COL[comp], istart=z, iend=z), post,
                         store=st, lo=z, hi=z, nt=nt, times=times)
        a, b = [(lo, hi), (0, n), (lo, -1), (0, 0)][int(rng.integers(4))]

        def tables():
            r = ex.extract_galacticus_mah_tables(fn, istart=a, iend=None if b == -1 else b)
            return r + (ex.get_nhalos_tot(fn),)
        ctx.call("mah_tables", f"{k}", tables,
                 lambda r: dict(got_mah=[np.asarray(x, float) for x in r[0]], got_mtimes=[np.asarray(x, float) for x in r[1]],
                                got_iso=[int(x) for x in r[2]], got_last=np.asarray(r[3], float), count=int(r[4])),
                 mah=mah, mtimes=mtimes, iso=iso, last=last, lo=a, hi=b)
        # command line extraction of both components, then target rates
        def cli(comp, extra):
            argv = sys.argv
            sys.argv = ["extract", comp, "-indrn", drn, "-bname", lg.BN_GALCUS, "-outdrn", drn] + extra
            out = sys.stdout
            try:
                with open(os.devnull, "w") as sys.stdout:
                    runpy.run_path(ex.__file__, run_name="__main__")
            finally:
                sys.argv, sys.stdout = argv, out
            ld = lambda nm: np.load(os.path.join(drn, nm))
            return ld(f"delta_mstar_tot_{comp}.npy"), ld(f"delta_mstar_in_situ_{comp}.npy"), ld(f"tarr_{comp}.npy")
        r = None
        for comp, st in (("disk", disk), ("bulge", bulge)):
            if k % 3 == 0 and lo:
                ctx.call("cli", f"{k}/{comp}/part", lambda: cli(comp, ["-istart", str(lo), "-iend", str(hi)]), post,
                         store=st, lo=lo, hi=hi, nt=nt, times=times)
            r = ctx.call("cli", f"{k}/{comp}", lambda: cli(comp, []), post, store=st, lo=0, hi=-1, nt=nt, times=times)
        if r is None:
            continue

        def tpost(r):
            return dict(sfh_tot=np.asarray(r["sfh_tot"], float), sfh_in_situ=np.asarray(r["sfh_in_situ"], float),
                        is_cen=[int(x) for x in r["is_cen"]], tarr=np.asarray(r["tarr"], float))
        kw = dict(disk=disk, bulge=bulge, nt=nt, times=times, iso=iso)
        ctx.call("target", f"{k}", lambda: lg.load_galacticus_sfh_target_data(drn), tpost, lo=0, hi=-1, **kw)

        def block(a, b):
            lg.write_galacticus_sfh_data_block(drn)
            return lg.load_galacticus_sfh_data_block(os.path.join(drn, lg.BNAME_SFH_DATA), a, b)
        ctx.call("block", f"{k}", lambda: block(lo, hi), tpost, lo=lo, hi=hi, **kw)
        ctx.call("block", f"{k}/all", lambda: block(0, n), tpost, lo=0, hi=n, **kw)
        # the combined data set
        d2, d3 = os.path.join(drn, "star"), os.path.join(drn, "mah")
        os.makedirs(d2), os.makedirs(d3)
        want = {}
        for name, f in (("diffmah_fit_data", os.path.join(d3, lg.BN_DIFFMAH)),
                        ("diffstar_in_situ_fit_data", os.path.join(d2, lg.BN_DIFFSTAR_IN_SITU)),
                        ("diffstar_in_plus_ex_situ_fit_data", os.path.join(d2, lg.BN_DIFFSTAR_IN_PLUS_EX_SITU))):
            cols = {c: rng.normal(size=n) for c in rng.permutation(["logm0", "loss", "lgmcrit", "lg_qt"])}
            with h5py.File(f, "w") as hdf:
                for c, v in cols.items():
                    hdf[c] = v
            want[name] = cols

        def cpost(r):
            return dict(got={nm: {c: np.asarray(v, float) for c, v in getattr(r, nm).items()} for nm in want},
                        sfh_tot=np.asarray(r.galcus_sfh_data["sfh_tot"], float),
                        sfh_in_situ=np.asarray(r.galcus_sfh_data["sfh_in_situ"], float))
        ctx.call("combined", f"{k}", lambda: lg.load_galacticus_diffstar_data(drn, diffstar_drn=d2, diffmah_drn=d3), cpost,
                 want=want, disk=disk, bulge=bulge, nt=nt, times=times)
        shutil.rmtree(drn)
