"""Loss data assembled from files of measured targets."""
import importlib.util
import os
import shutil
import sys

import h5py
import numpy as np
from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS, mah_halopop
from diffstar.diffstarpop.loss_kernels import mstar_ssfr_loss_mgash_anyz as L

import gen
import losses
import pops

NZ, NM, NS, NF = 2, 2, 20, 3
SIZE = dict(none=0, few=[1, 49], exact=[50], many=[51, 63])
KINDS = dict(smhm="get_loss_data_smhm", mstar="get_loss_data_pdfs_mstar", mstar_cen="get_loss_data_pdfs_mstar_cen", mstar_sat="get_loss_data_pdfs_mstar_sat",
             ssfr_cen="get_loss_data_pdfs_ssfr_central", ssfr_sat="get_loss_data_pdfs_ssfr_satellite")
F = lambda x: np.asarray(x, float)


def load(repo):
    fn = os.path.join(repo, "scripts", "diffstarpop_scripts", "fit_get_loss_helpers_mgash.py")
    spec = importlib.util.spec_from_file_location("fit_get_loss_helpers_mgash", fn)
    mod = importlib.util.module_from_spec(spec)
    sys.modules[spec.name] = mod
    spec.loader.exec_module(mod)
    return mod


def write(rng, d, cen, sat):
    """Files of a measurement; cen and sat: class of every cell (redshift major)."""
    z, m, up = [], [], []
    for k in range(NZ * NM):
        for cls, central in ((cen[k], True), (sat[k], False)):
            n = int(rng.choice(np.atleast_1d(SIZE[cls])))
            z += [k // NM] * n
            m += [k % NM] * n
            up += [-1] * n if central else list(rng.integers(0, 2**31 - 1, n))
    n = len(z)
    perm = rng.permutation(n)
    s = dict(z=np.array(z, int)[perm], m=np.array(m, int)[perm], up=np.array(up, int)[perm])
    mah = np.tile(np.array(DEFAULT_MAH_PARAMS, float)[:, None], (1, n))
    mah[0] = 11.0 + 0.5 * s["m"] + 0.0005 * np.arange(n)       # tells the halo
    mah[1] = rng.uniform(0.2, 0.6, n)
    mah[2] = rng.uniform(2, 3.5, n)
    mah[3] = rng.uniform(0.1, 0.9, n)
    mah[4] = rng.uniform(3, 13, n)
    s["mah"] = mah
    s["ages"] = np.sort(rng.uniform(3, 13.7, NZ))[::-1]
    s["edges"] = np.linspace(11, 12, NM + 1)
    s["medges"], s["sedges"] = np.linspace(7, 12.5, NS + 1), np.linspace(-12.5, -8, NF + 1)
    c = lambda *sh: rng.integers(1, 500, sh).astype(float)
    s["counts_cen"], s["counts_sat"] = c(NZ, NM), c(NZ, NM)
    s["counts"] = s["counts_cen"] + s["counts_sat"]
    s["hist"] = s["counts"] * rng.uniform(8, 11, (NZ, NM))
    s["smhm"] = s["hist"] / s["counts"]
    s["mw"] = rng.uniform(0, 30, (NZ, NM, NS))
    for key in ("wc", "ws"):
        w = rng.uniform(0, 9, (NZ, NM, NS, NF)) * (rng.uniform(size=(NZ, NM, NS, NF)) < 0.8)
        w[rng.uniform(size=w.shape) < 0.05] = -1e-4          # rounding of a soft histogram
        if rng.uniform() < 0.5:
            w[rng.integers(NZ), :, rng.choice([8, 13])] = 0.0       # no galaxies of that mass
        if rng.uniform() < 0.3:
            w[rng.integers(NZ), rng.integers(NM)] = 0.0             # no galaxies in the cell
        s[key] = w
    os.makedirs(d)
    with h5py.File(os.path.join(d, "smdpl_smhm.h5"), "w") as f:
        for k, v in dict(redshift_targets=np.array([0.0, 1.0]), smhm_diff=s["smhm"] * 1.01, smhm=s["smhm"], logmh_bins=s["edges"], age_targets=s["ages"], hist=s["hist"],
                         counts=s["counts"], counts_cen=s["counts_cen"], counts_sat=s["counts_sat"], counts_diff=s["counts"] * 1.02, hist_diff=s["hist"] * 1.03).items():
            f[k] = v
    with h5py.File(os.path.join(d, "smdpl_smhm_samples_haloes.h5"), "w") as f:
        for k, v in dict(logmh_id=s["m"], logmh_val=s["edges"][s["m"]] + 0.25, mah_params_samp=mah, ms_params_samp=np.zeros((4, n)), q_params_samp=np.zeros((4, n)),
                         upid_samp=s["up"], tobs_id=s["z"], tobs_val=s["ages"][s["z"]], redshift_val=np.zeros(n)).items():
            f[k] = v
    with h5py.File(os.path.join(d, "smdpl_mstar_ssfr.h5"), "w") as f:
        for k, v in dict(mstar_wcounts=s["mw"], mstar_counts=np.round(s["mw"]), mstar_ssfr_wcounts_cent=s["wc"], mstar_ssfr_wcounts_sat=s["ws"], logmh_bins=s["edges"],
                         logmstar_bins_pdf=s["medges"], logssfr_bins_pdf=s["sedges"], redshift_targets=np.array([0.0, 1.0]), age_targets=s["ages"]).items():
            f[k] = v
    return s


def ids_of(s, mah):
    """Halos of one row (5, n) and whether every parameter is that halo's."""
    ref = s["mah"][0]
    i = np.array([int(np.argmin(abs(ref - x))) for x in F(mah[0])], int)
    return i, bool(np.allclose(F(mah), s["mah"][:, i], rtol=1e-6, atol=0))


def rows_of(s, data, kind):
    a = dict(zip(["mah", "logmp0"] + (["upid"] if kind != "smhm" else []) + ["lgmu", "lgmhost", "gyr", "keys", "tobs"], data))
    return a


def usable(kind, cen, sat):
    """Every redshift has a cell which is fitted."""
    n = [{"none": 0, "few": 0, "exact": 1, "many": 1}[c] for c in (cen if kind.endswith("cen") else sat)]
    return all(any(n[z * NM:(z + 1) * NM]) for z in range(NZ))


def run(ctx):
    mod = load(ctx.repo)
    scen = [tuple(s) for s in ctx.scen["MC_C29"] if len(s) == NZ * NM]
    order = ctx.rng("order").permutation(len(scen))
    n = 10 if ctx.thorough else 2
    root = os.path.join(ctx.workdir, "tmp", f"c29_{ctx.mode}_{ctx.shard}")
    for k in range(ctx.shard, n * ctx.nshard, ctx.nshard):
        rng = ctx.rng("data", k)
        cen = scen[order[k % len(scen)]]
        sat = scen[order[(k * 7 + 3) % len(scen)]]
        d = os.path.join(root, str(k)) + os.sep
        s = write(rng, d, cen, sat)
        nh = int([5, 50, 7][ctx.shard % 3])       # one shape per process (every shape is compiled)
        lgt0, fb = gen.opts(rng, ["plain", "both"][k % 2])
        lgm0 = F(mah_halopop(DEFAULT_MAH_PARAMS._make(s["mah"]), np.array([10**lgt0 * 0.7, 10**lgt0]), lgt0)[1])[:, -1]
        base = dict(zid=s["z"], mid=s["m"], upid=s["up"], nz=NZ, nm=NM)
        for kind, fn in KINDS.items():
            nhk = 57 if kind == "mstar_sat" and nh == 50 else nh
            np.random.seed(int(rng.integers(2**31)))
            scn = f"{k}/{kind}/{nhk}"
            try:
                data, plot = getattr(mod, fn)(d, nhk, lgt0=lgt0, fb=fb)
            except Exception as ex:
                ctx.emit("rows", scn, kind=kind, nhalos=nhk, exc=type(ex).__name__, msg=str(ex)[:200], **base)
                continue
            record(ctx, s, scn, kind, nhk, data, lgm0, lgt0, fb, base)
            if kind != "smhm":
                pdata = plot[-1]
                a = rows_of(s, pdata, kind)
                own = [ids_of(s, F(row)) for row in a["mah"]]
                ctx.emit("plot_rows", scn, kind=kind, nhalos=nhk, ids=[sorted(set(int(x) for x in i)) for i, _ in own], tobs=F(a["tobs"]), ages=s["ages"],
                         drawn=[len(i) for i, _ in own], **base)
                outcome(ctx, s, scn + "/plot", kind, nhk, pdata, base)
        shutil.rmtree(d)


def record(ctx, s, scn, kind, nh, data, lgm0, lgt0, fb, base):
    a = rows_of(s, data, kind)
    own = [ids_of(s, F(row)) for row in a["mah"]]
    inf = [np.asarray(a[q], float) for q in ("lgmu", "lgmhost", "gyr")]
    extra = {}
    if kind != "smhm":
        extra = dict(lgt0=float(data[8]), fb=float(data[9]), lgt0_in=lgt0, fb_in=fb)
        extra["rowupid"] = [[int(x) for x in r] for r in a["upid"]]
    ctx.emit("rows", scn, kind=kind, nhalos=nh, ids=[i for i, _ in own], whole=all(w for _, w in own), tobs=F(a["tobs"]), ages=s["ages"], logmp0=F(a["logmp0"]), lgm0=lgm0,
             infall=[" ".join(repr(float(x)) for x in t) for t in zip(*[v.ravel() for v in inf])][:200],
             infallshape=all(v.shape == (len(own), nh) for v in inf), keys=[str(np.asarray(x).tolist()) for x in a["keys"]], **extra, **base)
    outcome(ctx, s, scn, kind, nh, data, base)
    if kind == ["ssfr_cen", "ssfr_sat"][(ctx.shard + (ctx.mode == "f32")) % 2] and not ctx.__dict__.get("padded"):
        padding(ctx, scn, kind, data)


def outcome(ctx, s, scn, kind, nh, data, base):
    if kind == "smhm":
        ctx.emit("targets", scn, kind=kind, nhalos=nh, targets=F(data[-1]), measured=s["smhm"], **base)
    elif kind.startswith("mstar"):
        m = dict(mstar=s["mw"], mstar_cen=s["wc"].sum(3), mstar_sat=s["ws"].sum(3))[kind]
        ctx.emit("targets", scn, kind=kind, nhalos=nh, targets=F(data[-1]), measured=m, **base)
    else:
        c, w = ("counts_cen", "wc") if kind == "ssfr_cen" else ("counts_sat", "ws")
        lo, hi, me, se, ab, idx, sel, tgt = data[10:]
        wlo, whi = losses.bins(s["medges"], s["sedges"])
        ok = all(np.array_equal(F(x), y) for x, y in ((lo, wlo), (hi, whi), (me, s["medges"]), (se, s["sedges"])))
        ctx.emit("rates", scn, kind=kind, nhalos=nh, targets=F(tgt), measured=s[w], counts=s[c], sel=np.asarray(sel, int), binsok=ok, **base)
        ctx.emit("tables", scn, kind=kind, nhalos=nh, idx=np.asarray(idx, int), w=F(ab), counts=s[c], **base)


def padding(ctx, scn, kind, data):
    if len(data[0][0][0]) > 7:
        return
    ctx.padded = True
    fn = L.mstar_ssfr_kern_tobs if kind == "ssfr_cen" else L.mstar_ssfr_sat_kern_tobs
    u = losses.unbounded(pops.pop(ctx.rng("u"), "default"))
    ab, idx = F(data[14]), np.asarray(data[15], int)
    full = F(fn(u, data))
    for z in range(len(idx)):
        n = int((ab[z] > 0).sum())
        if n == 0:
            continue
        one = list(data)
        one[14], one[15] = ab[z:z + 1, :n], idx[z:z + 1, :n]
        alone = F(fn(u, tuple(one)))
        ctx.emit("padding", scn, alone=alone[0].ravel(), among=full[z].ravel())
