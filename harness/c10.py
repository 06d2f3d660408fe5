import numpy as np

import fits
import gen
import diffstar.fitting_helpers.diffstar_fitting_helpers as fh
from dsv import get

OPTS = [fits.DEFOPT, dict(fits.DEFOPT, dlogm_cut=0.5, mass_fit_min=0.0, fstar_tdelay=0.25),
        dict(fits.DEFOPT, dlogm_cut=20.0, mass_fit_min=9.5, t_fit_min=1.5),
        dict(fits.DEFOPT, mass_fit_min=30.0, t_fit_min=0.0, fstar_tdelay=2.0), dict(fits.DEFOPT, t_fit_min=40.0)]


def weights(ctx, scen, f, t, lm, lf, o, exact):
    ctx.call("weights", scen, lambda: f(t.copy(), lm.copy(), lf.copy(), o["fstar_tdelay"], o["dlogm_cut"], o["t_fit_min"],
                                        o["mass_fit_min"]),
             lambda r: dict(w=np.asarray(r[0], float), wf=np.asarray(r[1], float)),
             ts=t, lm=lm, lf=lf, exact=exact, **fits.short(o))


def run(ctx):
    f = get(fh, "get_weights")
    if f is not None and ctx.x64:
        for k, s in enumerate(ctx.scen["MC_C10"]):
            if not ctx.mine() or (k % 4 and not ctx.thorough) or (ctx.thorough and k % 8):
                continue
            n = (len(s) - 1) // 3
            v = np.array(s[1:], float)
            weights(ctx, f"tlc/{k}", f, v[:n], v[n:2 * n], v[2 * n:], OPTS[s[0] - 1], True)
    if f is not None:
        for rep in range(300 if ctx.thorough else 60):
            if not ctx.mine():
                continue
            rng = ctx.rng("w", rep)
            n = int(rng.choice([1, 2, 5, 30, 133]))
            t = gen.cast(np.sort(rng.uniform(0.1, 14, n)) + 1e-3 * np.arange(n), ctx.x64)
            lm = gen.cast(np.sort(rng.uniform(2, 12, n)) if rep % 2 else np.maximum.accumulate(rng.normal(10, 0.3, n)), ctx.x64)
            lf = gen.cast(rng.uniform(-3, 2, n) if rep % 3 else rng.normal(0, 0.1, n), ctx.x64)
            weights(ctx, f"rand/{rep}", f, t, lm, lf, fits.options(rng, ["default", "cuts", "all"][rep % 3]), False)
    for kind in ("model", "burst", "quenched", "late", "zero", "tiny", "rising", "flat", "noise"):
        for ok in ("default", "cuts", "rates", "all"):
            for tk in ("regular", "log", "uneven"):
                if not ctx.mine():
                    continue
                for rep in range(3 if ctx.thorough else 1):
                    rng = ctx.rng(kind, ok, tk, rep)
                    n = int(rng.choice([5, 20, 60]))
                    t = np.linspace(0.2, rng.uniform(5, 13.8), n)
                    if tk == "log":
                        t = np.logspace(-1, 1.13, n)
                    if tk == "uneven":
                        t = np.sort(rng.uniform(0.1, 14, n)) + 1e-2 * np.arange(n)
                    t = gen.cast(t, ctx.x64)
                    g, m = gen.cast(gen.gal(rng), ctx.x64), gen.cast(gen.mah(rng), ctx.x64)
                    s = gen.cast(fits.history(rng, kind, t, g, m), ctx.x64)
                    o = fits.options(rng, ok)
                    lgt0, fb = gen.opts(rng, "both" if ok in ("rates", "all") else "default")
                    kw = {} if ok == "default" else dict(o, lgt0=lgt0, fb=fb)
                    if ok == "default":
                        lgt0 = gen.LGT0

                    def post(r):
                        d = fits.named(r[1])
                        a = lambda k: np.asarray(d[k], float)
                        return dict(ms=a("mstar_target"), lm=a("logmstar_target"), sfh_t=a("sfh_target"), lf=a("log_fstar_target"),
                                    w=a("weight"), wf=a("weight_fstar"), lgtmax=float(d["lgt_fstar_max"]),
                                    delay_out=float(d["fstar_tdelay"]), floor_out=float(d["ssfrh_floor"]),
                                    lgt0_out=float(d["lgt0"]), fb_out=float(d["fb"]), ts_out=a("t_table"), mah_out=a("mah_params"))
                    mp = fits.MAHT(*[float(x) for x in m])
                    ctx.call("targets", f"{kind}/{ok}/{tk}/{rep}", lambda: fh.get_loss_data_default(t, s, mp, **kw), post,
                             ts=t, sfh=s, mah=m, lgt0=lgt0, fb=fb, exact=False, **fits.short(o))
