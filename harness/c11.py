import numpy as np

import fits
import gen
import diffstar.fitting_helpers.diffstar_fitting_helpers as fh
from diffstar import DiffstarParams, get_unbounded_diffstar_params

TS = [0.5, 1.5, 2.5, 4.0, 7.0, 10.0, 13.5]
MAH = [12.2, 0.05, 2.6, 0.14, 14.0]
TRUTH = np.array([11.8, -9.8, 1.5, -1.0, 0.9, -0.4, -1.2, -0.3])
STEP = np.array([0.2, 0.3, 0.5, 0.5, 0.25, 0.1, 0.4, 0.1])
OPTS = [fits.DEFOPT, dict(fits.DEFOPT, fstar_tdelay=0.5, dlogm_cut=1.0, ssfrh_floor=1e-10)]

FITS = [("model", "default"), ("quenched", "all"), ("noise", "rates"), ("late", "cuts"), ("rising", "all"), ("flat", "default"),
        ("steep", dict(mass_fit_min=9.5)), ("steep", dict(dlogm_cut=0.5)), ("steep", dict(t_fit_min=9.0)),
        ("noise", dict(fstar_tdelay=3.0)), ("quenched", dict(ssfrh_floor=1e-10)), ("rising", dict(lgt0=1.05)), ("rising", dict(fb=0.05))]


def data(t, s, m, o, lgt0, fb, ok):
    kw = {} if ok == "default" else dict(o, lgt0=lgt0, fb=fb)
    return fh.get_loss_data_default(t, s, fits.MAHT(*[float(x) for x in m]), **kw)[1]


def recorded(ld):
    d = fits.named(ld)
    a = lambda k: np.asarray(d[k], float)
    return dict(ms=a("mstar_target"), lm=a("logmstar_target"), sfh_t=a("sfh_target"), lf=a("log_fstar_target"),
                w=a("weight"), wf=a("weight_fstar"), lgtmax=float(d["lgt_fstar_max"]))


def objective(ctx, scen, ld, u, t, s, m, o, lgt0, fb):
    ctx.call("objective", scen, lambda: (fh.loss_default_clipssfrh(u, ld), fh.loss_grad_default_clipssfrh_np(u, ld)),
             lambda r: dict(out=float(r[0]), grad=np.asarray(r[1], float)),
             u=u, ts=t, sfh=s, mah=m, lgt0=lgt0, fb=fb, **recorded(ld), **fits.short(o))


def run(ctx):
    lgt0, fb = float(gen.cast(gen.LGT0, ctx.x64)), float(gen.cast(gen.FB, ctx.x64))
    t = gen.cast(TS, ctx.x64)
    m = gen.cast(MAH, ctx.x64)
    s = gen.cast(fits.history(None, "model", t, TRUTH, m), ctx.x64)
    lds = None
    for k, sc in enumerate(ctx.scen["MC_C11"]):
        if not ctx.mine() or (ctx.thorough and k % 4):
            continue
        if lds is None:
            lds = [data(t, s, m, o, lgt0, fb, "all") for o in OPTS]
        p = np.clip(TRUTH + STEP * np.array(sc[1:]), gen.LO + 0.02, gen.HI - 0.02)
        p[7] = max(p[7], p[6] + 0.01)
        u = gen.cast(np.array(get_unbounded_diffstar_params(DiffstarParams(*p)), float), ctx.x64)
        objective(ctx, f"tlc/{k}", lds[sc[0] - 1], u, t, s, m, OPTS[sc[0] - 1], lgt0, fb)
    for kind in ("model", "flash", "burst", "quenched", "late", "rising", "flat", "noise"):
        for ok in ("default", "cuts", "rates", "all"):
            if not ctx.mine():
                continue
            for rep in range(3 if ctx.thorough else 1):
                rng = ctx.rng(kind, ok, rep)
                n = int(rng.choice([6, 20, 40]))
                t = gen.cast(np.linspace(0.2, 13.7, n) if rng.uniform() < 0.5 else np.sort(rng.uniform(0.1, 14, n)) + 1e-2 * np.arange(n), ctx.x64)
                if kind == "flash":       # most stars form within a few million years
                    t = gen.cast(np.sort(np.concatenate((np.linspace(0.5, 13.7, n - 4), rng.uniform(4, 12) + 0.006 * np.arange(1, 5)))), ctx.x64)
                g, m = gen.cast(gen.gal(rng), ctx.x64), gen.cast(gen.mah(rng), ctx.x64)
                s = gen.cast(fits.history(rng, kind, t, g, m), ctx.x64)
                o = fits.options(rng, ok)
                l0, f0 = gen.opts(rng, "both" if ok in ("rates", "all") else "default")
                if ok == "default":
                    l0, f0 = gen.LGT0, gen.FB
                l0, f0 = float(gen.cast(l0, ctx.x64)), float(gen.cast(f0, ctx.x64))
                ld = data(t, s, m, o, l0, f0, ok)
                for j in range(4):
                    p = gen.gal(rng, "typical") if j else g
                    u = gen.cast(np.array(get_unbounded_diffstar_params(DiffstarParams(*p)), float), ctx.x64)
                    objective(ctx, f"{kind}/{ok}/{rep}/{j}", ld, u, t, s, m, o, l0, f0)
    for k, (kind, ok) in enumerate(FITS):
        for rep in range(4 if ctx.thorough and isinstance(ok, str) else 1):
            if not ctx.mine():
                continue
            rng = ctx.rng("fit", kind, str(ok), rep)
            n = int(rng.choice([15, 30])) if isinstance(ok, str) else 20
            t = gen.cast(np.linspace(0.3, 13.6, n), ctx.x64)
            g, m = gen.cast(gen.gal(rng, "typical"), ctx.x64), gen.cast(gen.mah(rng, "typical"), ctx.x64)
            s = gen.cast(fits.history(rng, kind, t, g, m), ctx.x64)
            l0, f0 = gen.LGT0, gen.FB
            if isinstance(ok, dict):       # one setting away from its default
                kw = dict(ok)
                o = dict(fits.DEFOPT, **{a: b for a, b in ok.items() if a in fits.DEFOPT})
                l0, f0 = ok.get("lgt0", l0), ok.get("fb", f0)
                if "mass_fit_min" in ok:   # the only cut which bites
                    kw["dlogm_cut"] = o["dlogm_cut"] = 12.0
                l0, f0 = float(gen.cast(l0, ctx.x64)), float(gen.cast(f0, ctx.x64))
            else:
                o = fits.options(rng, ok)
                if ok in ("rates", "all"):
                    l0, f0 = gen.opts(rng, "both")
                l0, f0 = float(gen.cast(l0, ctx.x64)), float(gen.cast(f0, ctx.x64))
                kw = {} if ok == "default" else dict(o, lgt0=l0, fb=f0)
            ld = data(t, s, m, o, l0, f0, "all")
            np.random.seed(k)
            name = ok if isinstance(ok, str) else "+".join(ok)
            ctx.call("fit", f"{kind}/{name}/{rep}", lambda: fh.diffstar_fitter(t, s, fits.MAHT(*[float(x) for x in m]), **kw),
                     lambda r: dict(p=np.asarray(r[0], float), fields=list(r[0]._fields), loss=float(r[1]), success=int(r[2])),
                     ts=t, sfh=s, mah=m, lgt0=l0, fb=f0, **recorded(ld), **fits.short(o))
