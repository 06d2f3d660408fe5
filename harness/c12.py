import os

import numpy as np
from jax import numpy as jnp

import gen
import diffstar.fitting_helpers.diffstar_fitting_helpers as fh
from diffstar import DiffstarParams
from diffstar.data_loaders import load_flat_hdf5
from diffstar.data_loaders.load_smah_data import load_fit_sfh


def galaxy(rng, kind, form):
    p = gen.gal(rng)
    if rng.uniform() < 0.3:
        p = p * 10 ** rng.uniform(-9, 9, 8)
    if rng.uniform() < 0.2:
        p[rng.integers(8)] = 0.0
    if rng.uniform() < 0.3:   # values on the edge of rounding to more digits
        p[rng.integers(8)] = rng.choice([9.999996, 9.9999949, 0.0099999951, 1.0000005, -9.9999951, 99999.96])
    flag = dict(fit=1, poor=-1, adam=0, nofit=0)[kind]
    loss = dict(fit=10 ** rng.uniform(-6, 1), poor=999.99, adam=10 ** rng.uniform(-3, 6), nofit=0.0)[kind]
    hid = int(rng.choice([rng.integers(0, 1000), rng.integers(2**53, 2**63 - 1), -1, 0, rng.integers(10**9, 10**12)]))
    q = DiffstarParams(*[float(x) for x in p])
    if form == 1:
        q = DiffstarParams(*[jnp.asarray(x) for x in p])
        p = np.array([float(x) for x in q])
    elif form == 2:
        q = p.copy()
    elif form == 3:
        q = jnp.asarray(p)
        p = np.asarray(q, float)
    return hid, p, q, float(loss), flag


def run(ctx):
    colnames = None
    tmp = os.path.join(ctx.workdir, "tmp", f"c12_{ctx.mode}_{ctx.shard}")
    os.makedirs(tmp, exist_ok=True)
    r = ctx.call("header", "header", fh.get_header,
                 lambda r: dict(colnames=[str(c) for c in r[1]], header_words=r[0].split(), newlines=r[0].count("\n")))
    colnames = list(r[1])
    scen = [tuple(s) for s in ctx.scen["MC_C12"]]
    big = []
    for n in (1, 2, 10, 100, 1000) + ((5000,) if ctx.thorough else ()):
        big.append((11,) + tuple(ctx.rng("big", n).choice(["fit", "fit", "poor", "adam", "nofit"], n)))
    for k, s in enumerate(scen + big):
        if not ctx.mine() or (k % 2 and k < len(scen) and not ctx.thorough) or (ctx.thorough and k % 8 and k < len(scen)):
            continue
        ncol, kinds = s[0], list(s[1:])
        rng = ctx.rng(k)
        lines = []
        for i, kind in enumerate(kinds):
            hid, p, q, loss, flag = galaxy(rng, kind, int(rng.integers(4)))
            hform = [hid, np.int64(hid), str(hid)][int(rng.integers(3))]
            lform = [loss, np.float64(loss)][int(rng.integers(2))]
            fform = [flag, np.int64(flag)][int(rng.integers(2))]
            if kind == "nofit":
                fn = lambda: fh.get_outline_nofit(hform)
            else:
                fn = lambda: fh.get_outline(hform, q, lform, fform)
            r = ctx.call("line", f"{k}/{i}", fn, lambda r: dict(words=r.split(), newlines=r.count("\n"), ends_line=r.endswith("\n")),
                         id=str(hid), fit=kind != "nofit", p=p, loss=loss, flag=flag)
            if r is None:
                return
            lines.append(r)
        words = [x.split() for x in lines]
        data = np.array(words)
        base = f"fits_{k}.h5"
        fn = os.path.join(tmp, base)
        if ncol != 11:
            bad = data[:, :10] if ncol == 10 else np.concatenate((data, data[:, 1:2]), axis=1)
            ctx.call("refuse", f"{k}", lambda: fh.write_collated_data(fn, bad, colnames), lambda r: {})
            continue

        def roundtrip():
            fh.write_collated_data(fn, data, colnames)
            return load_flat_hdf5(fn)

        def post(r):
            c = {}
            for name, v in r.items():
                v = np.asarray(v)
                if name in ("halo_id", "success"):
                    c[name] = [str(int(x)) if v.dtype.kind in "iu" else f"not an integer: {x}" for x in v]
                else:
                    c[name] = v.astype(float)
            return dict(columns=c)
        ctx.call("loaded", f"{k}", roundtrip, post, lines=words)
        ctx.call("fit_sfh", f"{k}", lambda: load_fit_sfh(base, data_drn=tmp),
                 lambda r: dict(ms=np.asarray(r[0], float), q=np.asarray(r[1], float), shape_ms=list(np.shape(r[0])),
                                shape_q=list(np.shape(r[1]))), lines=words)
        if os.path.exists(fn):
            os.remove(fn)
