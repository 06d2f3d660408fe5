"""The population fitting script, run on losses whose course the model chooses."""
import builtins
import contextlib
import importlib
import io
import os
import shutil
import sys
import types

import jax.numpy as jnp
import numpy as np

import pops

MOD = "diffstar.diffstarpop.loss_kernels.mstar_ssfr_loss_mgash_anyz"
KERNELS = dict(loss_mstar_kern_tobs_grad_wrapper="mstar", loss_combined_wrapper="mstar_ssfr_cen", loss_combined_3loss_wrapper="mstar_ssfr_cen_sat",
               loss_mstar_ssfr_kern_tobs_grad_wrapper="ssfr", loss_mstar_ssfr_sat_kern_tobs_grad_wrapper="ssfr_sat")
GETS = dict(get_loss_data_pdfs_mstar="mstar", get_loss_data_pdfs_ssfr_central="cen", get_loss_data_pdfs_ssfr_satellite="sat", get_loss_data_smhm="smhm",
            get_loss_data_pdfs_mstar_cen="mcen", get_loss_data_pdfs_mstar_sat="msat")
NEEDS = dict(mstar=("mstar",), mstar_ssfr_cen=("mstar", "cen"), mstar_ssfr_cen_sat=("mstar", "cen", "sat"))
IDX = {n: i + 1 for i, n in enumerate(pops.NAMES)}


class Landscape:
    """A function of the parameters, made up as it is visited."""

    def __init__(self, codes, rng, wants):
        self.codes, self.rng, self.wants = list(codes), rng, wants
        self.pts, self.loss, self.grads, self.memo = [], [], [], {}
        self.kernels, self.data_ok = set(), True
        self.scale = 10.0 ** rng.uniform(-4, 2)

    def evaluate(self, kind, p, data):
        self.kernels.add(kind)
        self.data_ok = self.data_ok and list(data) == self.wants
        q = np.asarray(p)
        key = q.tobytes()
        if key not in self.memo:
            k = len(self.pts)
            c = self.codes[k] if k < len(self.codes) else 1 + int(self.rng.integers(9))
            r = self.rng
            g = r.normal(size=q.shape) * self.scale * 10.0 ** r.uniform(-2, 1, q.shape)
            loss = 0.5 * c + 1e-3 * k - (3.0 if r.uniform() < 0.1 else 0.0)
            if c == 0:
                loss = [np.nan, np.inf, -np.inf][int(r.integers(3))]
                if r.uniform() < 0.5:
                    g = g + np.nan
            elif c < 0:
                g[int(r.integers(len(g)))] = [np.nan, np.inf][int(r.integers(2))]
            self.memo[key] = (jnp.asarray(loss), jnp.asarray(g))
            self.pts.append(q.astype(float))
            self.loss.append(float(self.memo[key][0]))
            self.grads.append(np.asarray(self.memo[key][1], float))
        return self.memo[key]


def script(path, land, argv, asked):
    stub = types.ModuleType("fit_get_loss_helpers_mgash")

    def maker(kind):
        def get(indir, nhalos, *a, **k):
            asked.append((kind, indir, nhalos))
            return (kind, indir, nhalos), ("plot", kind)
        return get
    for fn, kind in GETS.items():
        setattr(stub, fn, maker(kind))
    mod = importlib.import_module(MOD)
    old = {k: getattr(mod, k) for k in KERNELS}
    argv0 = sys.argv
    sys.modules[stub.__name__] = stub
    try:
        for k, kind in KERNELS.items():
            setattr(mod, k, (lambda kind: lambda p, *data: land.evaluate(kind, p, data))(kind))
        sys.argv = [path] + argv
        ns = {"__name__": "__main__", "__file__": path, "__builtins__": builtins}
        with contextlib.redirect_stdout(io.StringIO()):
            exec(compile(open(path).read(), path, "exec"), ns)
    finally:
        sys.argv = argv0
        del sys.modules[stub.__name__]
        for k, v in old.items():
            setattr(mod, k, v)


def starts(ctx, rng, scratch, k):
    """Arguments and flat vector of a start."""
    fields = pops.dp.DEFAULT_DIFFSTARPOP_U_PARAMS._fields
    sims = list(importlib.import_module("diffstar.diffstarpop.kernels.params").DiffstarPop_UParams_Diffstarfits_mgash)
    how = k % 4
    if how == 0:
        return [], [float(x) for x in pops.dp.DEFAULT_DIFFSTARPOP_U_PARAMS]
    if how in (1, 2):
        s = sims[int(rng.integers(len(sims)))]
        t = importlib.import_module("diffstar.diffstarpop.kernels.params").DiffstarPop_UParams_Diffstarfits_mgash[s]
        return ["--params_path", "diffstarfits_" + s], [float(getattr(t, f)) for f in fields]
    u = rng.normal(0, 1, len(fields))
    u = u if rng.uniform() < 0.5 else u.astype("f4")
    fn = os.path.join(scratch, "start.npz")
    np.savez(fn, diffstarpop_u_params=u, diffstarpop_params=np.zeros(len(fields)))
    return ["--params_path", fn], np.asarray(u, float)


def run(ctx):
    path = os.path.join(ctx.repo, "scripts", "diffstarpop_scripts", "fit_mstar_ssfr_pdfs_mgash.py")
    scratch = os.path.join(ctx.workdir, "tmp", f"c32_{ctx.mode}_{ctx.shard}")
    shutil.rmtree(scratch, ignore_errors=True)
    fields = [f[2:] for f in pops.dp.DEFAULT_DIFFSTARPOP_U_PARAMS._fields]
    scen = [list(s) for s in ctx.scen["MC_C32"]]
    order = ctx.rng("order").permutation(len(scen))
    n0 = 6 if ctx.thorough else 4
    jobs = [(f"model/{k}", [int(c) for c in scen[order[k]]], n0) for k in range(min(len(scen), 1500 if ctx.thorough else 150))]
    for k in range(60 if ctx.thorough else 12):
        r = ctx.rng("long", k)
        n = int(r.choice([1, 2, 20, 40]))
        pb = [0.0, 0.1, 0.4][k % 3]
        codes = [int(c) for c in np.where(r.uniform(size=2 * n) < pb, 0, r.integers(1, 40, 2 * n))]
        codes[0] = 5
        if k % 5 == 4 and n > 1:
            codes[int(r.integers(1, n))] = -1
        jobs.append((f"long/{k}", codes, n))
    for k, (name, codes, n) in enumerate(jobs):
        if not ctx.mine():
            continue
        r = ctx.rng("job", name)
        os.makedirs(scratch)
        os.makedirs(os.path.join(scratch, "out"))
        how, start = starts(ctx, r, scratch, k)
        kind = sorted(NEEDS)[int(r.integers(3))]
        nhalos = int(r.integers(1, 500))
        outname = f"best_{int(r.integers(9))}"
        opts = [["-nstep", str(n)], ["-outdir", os.path.join(scratch, "out")], ["-indir", os.path.join(scratch, "in")], ["-outname", outname], how]
        if kind != "mstar" or r.uniform() < 0.5:
            opts.append(["-loss_type", kind])
        if r.uniform() < 0.3:
            nhalos = 100        # documented default
        else:
            opts.append(["-nhalos", str(nhalos)])
        if r.uniform() < 0.5:
            opts.append(["--print_loss", str(int(r.integers(1, 9)))])
        land = Landscape(codes, r, [(q, os.path.join(scratch, "in"), nhalos) for q in NEEDS[kind]])
        argv = [a for i in r.permutation(len(opts)) for a in opts[i]]

        def go():
            script(path, land, argv, [])
            with np.load(os.path.join(scratch, "out", outname + ".npz")) as f:
                return {q: np.asarray(f[q], float) for q in f.files}, sorted(os.listdir(os.path.join(scratch, "out")))

        def post(x):
            f, files = x
            return dict(u=f["diffstarpop_u_params"], p=f["diffstarpop_params"], files=files, pts=land.pts, loss=land.loss, grads=land.grads,
                        kernels=sorted(land.kernels), data_ok=bool(land.data_ok))
        ctx.call("fit", name, go, post, n=n, start=np.asarray(start, float), loss_type=kind, outname=outname, idx=[IDX[f] for f in fields])
        shutil.rmtree(scratch)
