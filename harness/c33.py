"""Mean histories in bins of halo mass, from the script which judges the fits."""
import builtins
import contextlib
import io
import os
import shutil
import sys

import h5py
import matplotlib
import numpy as np
from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS, mah_halopop
from diffstar.data_loaders import load_galacticus_sfh as lgal
from diffstar.data_loaders import load_smah_data as lsm
from diffstar.defaults import LGT0

import c31

EDGES = np.arange(11.25, 14.5, 0.50)
F = lambda x: np.asarray(x, float)
FILES = dict(smdpl="diffstar_quality_smdpl.h5", smdpl_dr1="diffstar_quality_smdpl_dr1.h5", tng="diffstar_quality_tng.h5",
             galcus_insitu="diffstar_quality_galcus_insitu.h5", galcus_inplusexsitu="diffstar_quality_galcus_inplusexsitu.h5")
UTILS = ("tng", "galacticus", "smdpl")


class Sim:
    """Galaxies of one simulation in its parts."""

    def __init__(self, name, rng, kinds):
        self.name, self.rng = name, rng
        galac = name.startswith("galcus")
        nt = 117 if name.startswith("smdpl") else int(rng.integers(6, 12))
        self.t = np.sort(rng.uniform(0.3, 13.7, nt)) if galac else np.linspace(rng.uniform(0.1, 0.5), 13.7, nt) ** 1.0
        self.sel = np.sort(rng.choice(nt, 4, replace=False))
        self.sel[-1] = nt - 1 if rng.uniform() < 0.5 else self.sel[-1]
        nk = int(rng.integers(5, 12))
        self.ttab = np.linspace(rng.uniform(0.1, 1.5), 13.8, nk) + rng.uniform(0, 0.05, nk)
        self.parts = kinds
        flat = [k for p in kinds for k in p]
        n = len(flat)
        self.part = np.repeat(np.arange(len(kinds)), [len(p) for p in kinds])
        self.fitted = np.array([k != "n" for k in flat])
        b = rng.choice(5, 2, replace=False)
        # bins of the kinds: a and b in two bins, o outside, n anywhere
        lo = dict(a=[EDGES[b[0]], EDGES[b[0] + 1]], b=[EDGES[b[1]], EDGES[b[1] + 1]], o=[10.5, 11.25] if rng.uniform() < 0.5 else [14.25, 14.9], n=[11.25, 14.25])
        self.lgmp = np.array([rng.uniform(lo[k][0] + 0.01, lo[k][1] - 0.01) for k in flat])
        for e in EDGES:
            self.lgmp[abs(self.lgmp - e) < 5e-3] += 0.01
        self.mah = np.tile(F(DEFAULT_MAH_PARAMS), (n, 1))
        self.mah[:, 0] = self.lgmp
        self.mah[:, 1] = rng.uniform(0.3, 0.7, n)
        if galac:
            self.mah[:, 3] = rng.uniform(0.1, 1.8, n)      # late growth
            self.lgmp = F(mah_halopop(DEFAULT_MAH_PARAMS._make(self.mah.T), self.t, LGT0)[1])[:, -1]
        scale = rng.uniform(-0.4, 0.4, n)[:, None]
        self.lgm = 8.0 + scale + rng.uniform(0.1, 0.3, n)[:, None] * self.t[None, :]
        self.sfr = 10.0 ** rng.uniform(-4.0, 2.0, (n, nt))
        # before a galaxy's first stars both are zero; later some times are quiet
        born = rng.integers(0, max(nt // 2, 1), n) * (rng.uniform(size=n) < 0.6)
        self.sfr[np.arange(nt)[None, :] < born[:, None]] = 0.0
        self.lgm[np.arange(nt)[None, :] < born[:, None]] = 0.0
        quiet = rng.uniform(size=(n, nt)) < 0.15
        self.sfr[quiet] = 0.0
        self.sfr[rng.uniform(size=(n, nt)) < 0.05] = 1.0      # a rate like any other
        odd = (rng.uniform(size=(n, nt)) < 0.05) & (self.sfr > 0)
        self.lgm[odd] = 0.0      # stars form where none are counted yet
        self.tm = 8.0 + scale + rng.uniform(-0.2, 0.2, (n, 1)) + rng.uniform(0.1, 0.3, (n, 1)) * self.ttab[None, :]
        self.ts = rng.uniform(-14.0, -9.0, (n, nk))
        first = rng.integers(0, 4, n) * (rng.uniform(size=n) < 0.3)
        none = np.arange(nk)[None, :] < first[:, None]
        self.tm[none] = 0.0
        self.ts[none] = 0.0

    def of(self, k):
        return np.flatnonzero(self.part == k)

    def table(self, k):
        i = self.of(k)
        i = i[self.fitted[i]]
        return self.ttab, np.zeros((len(i), len(self.ttab))), self.tm[i], self.ts[i], None, None, self.fitted[self.of(k)]

    def data(self, i):
        return np.arange(len(i)), self.lgm[i], self.sfr[i], self.t, np.zeros((len(i), len(self.t))), self.lgmp[i]


def run_one(ctx, scen, name, path, kinds, rng):
    root = os.path.join(ctx.workdir, "tmp", f"c33_{ctx.mode}_{ctx.shard}")
    shutil.rmtree(root, ignore_errors=True)
    outdir = os.path.join(root, "out")
    os.makedirs(outdir)
    names = list(FILES) if name == "all" else [name]
    sims = {}
    for x in names:
        k = kinds
        if x.startswith("galcus"):
            k = [sum(kinds, [])]
        elif x == "tng":         # 20 blocks of the catalogue, as even as they come
            n = int(rng.integers(40, 55))
            pool = [c for c in (sum(kinds, []) * n)[:n]]
            k = [list(c) for c in np.array_split(np.array(pool), 20)]
            k = [c if set(c) != {"n"} else ["a"] + c[1:] for c in k]
        elif x == "smdpl":
            k = [list(kinds[q % len(kinds)][:2]) for q in range(576)]
            k = [c if set(c) != {"n"} else ["b"] + c[1:] for c in k]
            k = [["n"] + c if q % 9 == 0 else c for q, c in enumerate(k)]      # one without a fit comes first
        sims[x] = Sim(x, rng, k)
    vols = {}
    for x in sims:
        m = len(sims[x].parts)
        vols[x] = list(range(576)) if x == "smdpl" else sorted(int(v) for v in rng.choice(576, m, replace=False)) if x == "smdpl_dr1" else list(range(m))
    mods = {u: c31.module(os.path.join(os.path.dirname(path), f"smhm_utils_{u}_mgash.py")) for u in UTILS}
    d1, d2 = os.path.join(root, "dr1"), os.path.join(root, "nomerging")
    os.makedirs(d1)
    os.makedirs(d2)
    for d, x in ((d1, "smdpl_dr1"), (d2, "smdpl")):
        for v in vols.get(x, []):
            open(os.path.join(d, f"diffstar_fits_subvol_{v}.hdf5"), "w").close()
    s = mods["smdpl"]
    consts = {f"LCRC_DR1_{a}_DRN": d1 for a in ("DIFFSTAR", "DIFFMAH", "BINARIES")}
    consts.update({f"LCRC_NOMERGING_{a}_DRN": d2 for a in ("DIFFSTAR", "DIFFMAH", "BINARIES")})
    for k, v in consts.items():
        setattr(s, k, v)
    which = {"DR1": "smdpl_dr1", "DR1_nomerging": "smdpl"}
    at = lambda x, v: vols[x].index(int(v))
    s.load_diffstar_sfh_tables = lambda subvol, sim, *a, **k: sims[which[sim]].table(at(which[sim], subvol))
    mods["tng"].load_diffstar_sfh_tables = lambda subvol, *a, **k: sims["tng"].table(int(subvol))
    gal = {"in_situ": "galcus_insitu", "in_plus_ex_situ": "galcus_inplusexsitu"}

    def galtable(sfh_type, *a, **k):
        out = list(sims[gal[sfh_type]].table(0))
        return tuple(out[:6]) + (np.ones(len(out[6]), bool), out[6])
    mods["galacticus"].load_diffstar_sfh_tables = galtable

    def galdata(*a, **k):
        # both histories are of one catalogue: the other is the rates shuffled
        have = [x for x in sims if x.startswith("galcus")]
        turn = state["galac"]
        state["galac"] += 1
        x = have[min(turn, len(have) - 1)]
        q = sims[x]
        other = q.sfr[::-1] * 1.5
        both = (q.sfr, other) if x == "galcus_insitu" else (other, q.sfr)
        return lgal_out(dict(zip(DEFAULT_MAH_PARAMS._fields, q.mah.T)), None, None,
                        dict(tarr=q.t, sfh_in_situ=both[0], sfh_tot=both[1], is_cen=np.ones(len(q.lgmp))))
    state = dict(galac=0)
    from collections import namedtuple
    lgal_out = namedtuple("DiffstarFitData", ("diffmah_fit_data", "diffstar_in_situ_fit_data", "diffstar_in_plus_ex_situ_fit_data", "galcus_sfh_data"))
    one = lambda x: (lambda subvols, *a, **k: sims[x].data(np.concatenate([sims[x].of(at(x, v)) for v in subvols])))
    patch = [(lsm, "load_SMDPL_DR1_data", one("smdpl_dr1")), (lsm, "load_SMDPL_nomerging_data", one("smdpl")),
             (lsm, "load_tng_data", lambda *a, **k: sims["tng"].data(np.arange(len(sims["tng"].lgmp)))),
             (lgal, "load_galacticus_diffstar_data", galdata)]
    old = [getattr(m, k) for m, k, _ in patch]
    argv0, err = sys.argv, None
    try:
        for m, k, v in patch:
            setattr(m, k, v)
        sys.argv = [path, "-sim_name", name, "-outdir", outdir + (os.sep if rng.uniform() < 0.5 else "")]
        ns = {"__name__": "__main__", "__file__": path, "__builtins__": builtins}
        with contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"), matplotlib.rc_context():
            exec(compile(open(path).read(), path, "exec"), ns)
    except Exception as ex:
        err = ex
    finally:
        sys.argv = argv0
        for (m, k, _), v in zip(patch, old):
            setattr(m, k, v)
        for u in UTILS:
            sys.modules.pop(mods[u].__name__, None)
    if err is not None:
        ctx.emit("files", scen, exc=type(err).__name__, msg=str(err)[:300])
        shutil.rmtree(root, ignore_errors=True)
        return
    ctx.emit("files", scen, files=sorted(os.listdir(outdir)), wanted=sorted(FILES[x] for x in names))
    for x, q in sims.items():
        fn = os.path.join(outdir, FILES[x])
        base = dict(edges=EDGES, ttab=q.ttab, times=q.t[q.sel])
        galac = x.startswith("galcus")
        gals = []
        for i in range(len(q.lgmp)):
            g = dict(fitted=bool(q.fitted[i]), lgmp=float(q.lgmp[i]), sfr=q.sfr[i, q.sel], lgm=q.lgm[i, q.sel], tm=q.tm[i], tr=q.tm[i] + q.ts[i])
            if galac:
                g["hist"] = q.sfr[i]
            gals.append(g)
        if galac:
            base.update(every=q.t, sel=[int(k) + 1 for k in q.sel])

        def read():
            with h5py.File(fn, "r") as f:
                return {k: f[k][...] for k in f}

        def post(r):
            nb, nt = len(EDGES) - 1, len(q.t)
            cur = ("mstar_data_mean", "mstar_fit_mean", "sfr_data_mean", "sfr_fit_mean")
            shape = all(r[k].shape == (nb, nt) for k in cur) and r["tarr"].shape == (nt,)
            a, b, c, d = (F(r[k])[:, q.sel] for k in cur)
            return dict(shape=bool(shape), tarr=F(r["tarr"])[q.sel], binedges=F(r["mpeak_bins"]), centres=F(r["mpeak_binsc"]), mdata=a, mfit=b, rdata=c, rfit=d)
        ctx.call("quality", scen + "/" + x, read, post, gals=gals, **base)
    shutil.rmtree(root, ignore_errors=True)


def run(ctx):
    path = os.path.join(ctx.repo, "scripts", "diffstarpop_scripts", "calculate_quality_diffstar_fits_mgash.py")
    if not os.path.exists(path):
        return
    c31.install()
    c = sys.modules["astropy.cosmology"]
    c.Planck15, c.z_at_value = c.Planck13, lambda f, v: 0.0
    scen = [list(s) for s in ctx.scen["MC_C33"]]
    order = ctx.rng("order").permutation(len(scen))
    names = ["smdpl_dr1", "tng", "galcus_insitu", "galcus_inplusexsitu", "smdpl_dr1", "all", "smdpl"]
    n = 70 if ctx.thorough else 14
    for k in range(n):
        if not ctx.mine():
            continue
        rng = ctx.rng("run", k)
        s = scen[order[k % len(scen)]]
        parts = [[]]
        for x in s:
            if x == "|":
                parts.append([])
            else:
                parts[-1].append(str(x))
        parts = [p for p in parts if p]
        # every part has a fitted galaxy
        parts = [p if set(p) != {"n"} else p + [str(rng.choice(["a", "b"]))] for p in parts]
        extra = int(rng.integers(0, 3))
        parts += [[str(c) for c in rng.choice(list("aabon"), int(rng.integers(1, 5)))] + ["a"] for _ in range(extra)]
        j = int(rng.integers(len(parts)))
        parts[j] = ["n"] + parts[j]
        name = names[k % len(names)]
        run_one(ctx, f"{name}/{k}", name, path, parts, rng)
