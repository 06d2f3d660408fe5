"""Loss data saved to HDF5 files by the script and loaded again."""
import builtins
import contextlib
import io
import json
import os
import shutil
import sys
import types

import h5py
import jax.numpy as jnp
import numpy as np

NAMES = ("get_loss_data_smhm", "get_loss_data_pdfs_mstar", "get_loss_data_pdfs_mstar_cen", "get_loss_data_pdfs_mstar_sat", "get_loss_data_pdfs_ssfr_central",
         "get_loss_data_pdfs_ssfr_satellite")
SIZES = dict(mstar=12, ssfr=18, ssfr_sat=18)
OF = {"get_loss_data_pdfs_mstar": "mstar", "get_loss_data_pdfs_ssfr_central": "ssfr", "get_loss_data_pdfs_ssfr_satellite": "ssfr_sat"}
ORDER = ("mstar", "ssfr", "ssfr_sat")


def tree(v):
    """Nested lists of numbers, whatever held them."""
    if isinstance(v, np.ndarray) and v.dtype == object:
        v = list(v)
    if isinstance(v, (list, tuple)):
        return [tree(x) for x in v]
    if v is None or isinstance(v, str):
        return str(v)
    a = np.asarray(v)
    if a.dtype.kind in "SU":
        return str(a)
    if a.dtype.kind in "iu":         # 32-bit limit of the validator
        return _ints(a)
    return a.astype(float).tolist() if a.dtype.kind != "b" else a.tolist()


def _ints(a):
    return [_ints(x) for x in a] if a.ndim else str(int(a))


def items(v):
    """A field as texts, one per item of its leading axis."""
    t = tree(v)
    return [json.dumps(x) for x in t] if isinstance(t, list) else ["scalar " + json.dumps(t)]


def dtypes(v):
    """Kinds of numbers held by a field."""
    if isinstance(v, (list, tuple)) or (isinstance(v, np.ndarray) and v.dtype == object):
        return sorted({k for x in v for k in dtypes(x)})
    if v is None or isinstance(v, str):
        return ["other"]
    return [np.asarray(v).dtype.str]


def value(rng, kind, n, wide=False):
    """A field of the tuple; n items, or n rows."""
    which, dev = int(rng.integers(5)), rng.uniform() < 0.5

    def arr(shape):        # one type of number per field
        a = [rng.normal(0, 10, shape), rng.integers(0, 2**32, shape, dtype="u4"), rng.integers(-9, 9, shape), rng.normal(0, 1, shape).astype("f4"),
             rng.uniform(size=shape) < 0.5][which]
        return a if dev else jnp.asarray(a)
    if kind == "scalar":
        return [0.1 + float(rng.normal()), int(rng.integers(-5, 2**40)), np.float64(rng.normal()), np.float32(rng.normal()), jnp.asarray(float(rng.normal())), True, np.int32(4)][int(rng.integers(7))]
    if kind == "array":
        shape = [(n,), (n, 3), (n, 2, 4), (1,), (0,), (n, 0)][int(rng.integers(6))]
        a = arr(shape)
        how = int(rng.integers(4))
        return a if how < 2 or not len(shape) or shape[0] == 0 else ([np.asarray(x) for x in a] if how == 2 else tuple(jnp.asarray(x) for x in a))
    its = [arr((int(1 + (i + int(rng.integers(2))) % 4),)) for i in range(n)]
    if wide:
        its = [np.full(1 + i % 2, float(i)) for i in range(n)]
    how = int(rng.integers(4))
    if how == 0 and n > 1 and len({x.shape for x in its}) > 1:
        o = np.empty(n, object)
        o[:] = its
        return o
    if how == 1:
        return tuple(its)
    if how == 2:
        return [np.asarray(x).tolist() for x in its]
    return its


def tuples(rng, fields):
    """Three tuples; the model's fields in random places."""
    out = {}
    for name in ORDER:
        kinds = [("array", 2)] * SIZES[name]
        for i, f in zip(rng.choice(SIZES[name], min(len(fields), SIZES[name]), replace=False), fields):
            kinds[i] = f
        out[name] = tuple(value(rng, *k) for k in kinds)
    return out


def labelled(fn):
    """What the file holds, by name."""
    with h5py.File(fn, "r") as f:
        groups = sorted(f)
        return dict(groups=groups, names=[sorted(set(f[g]) | (set(f[g].attrs) - {"field_order"})) for g in groups], first=[_first(f[g]) for g in groups])


def _first(g):
    """Each dataset of a group item by item."""
    return [dict(name=k, items=items(g[k][()])) for k in sorted(g) if isinstance(g[k], h5py.Dataset)]


def load(path, scratch, made):
    """Run the script in the scratch directory with a stand-in for the assembly of data."""
    stub = types.ModuleType("fit_get_loss_helpers_mgash")

    def maker(fn):
        def get(indir, nhalos, *a, **k):
            return made(OF.get(fn), int(nhalos)), ("plot",)
        return get
    for fn in NAMES:
        setattr(stub, fn, maker(fn))
    sys.modules[stub.__name__] = stub
    src = compile(open(path).read(), path, "exec")
    ns = {"__name__": "__main__", "__file__": path, "__builtins__": builtins}
    old = os.getcwd()
    os.chdir(scratch)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            exec(src, ns)
    finally:
        os.chdir(old)
        del sys.modules[stub.__name__]
    return ns


def run(ctx):
    path = os.path.join(ctx.repo, "scripts", "diffstarpop_scripts", "save_loss_data.py")
    scratch = os.path.join(ctx.workdir, "tmp", f"c30_{ctx.mode}_{ctx.shard}")
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    rng = ctx.rng("main", ctx.shard)
    given = {}

    def made(kind, nhalos):
        given.setdefault(nhalos, tuples(rng, [("ragged", 3), ("scalar", 1), ("ragged", 12)]))
        return given[nhalos][kind] if kind else ()
    quiet = lambda: contextlib.redirect_stdout(io.StringIO())
    ns = load(path, scratch, made)
    save, back = ns["save_loss_data_h5"], ns["load_loss_data_h5"]

    def record(scen, saved, fn):
        def go():
            with quiet():
                return back(fn)

        def post(r):
            return dict(back=[[items(v) for v in t] for t in r], backtypes=[[dtypes(v) for v in t] for t in r], lens=[len(t) for t in r])
        ctx.call("load", scen, go, post, saved=[[items(v) for v in saved[k]] for k in ORDER], savedtypes=[[dtypes(v) for v in saved[k]] for k in ORDER])
    # what the script itself writes
    for n in (10, 100):
        if n in given:
            record(f"script/{n}", given[n], os.path.join(scratch, f"loss_kernels_testing_data_{n}halos.h5"))
    ctx.emit("script", "files", made=sorted(given), files=sorted(os.listdir(scratch)))
    scen = [list(s) for s in ctx.scen["MC_C30"]]
    order = ctx.rng("order").permutation(len(scen))
    fn = os.path.join(scratch, "t.h5")
    count = len(scen) // ctx.nshard if ctx.thorough else 24
    for k in range(count):
        r = ctx.rng("t", ctx.shard, k)
        s = scen[order[(k * ctx.nshard + ctx.shard) % len(scen)]]
        fields = [(str(a), int(b)) for a, b in zip(s[::2], s[1::2])]
        saved = tuples(r, fields)
        before = [[items(v) for v in saved[q]] for q in ORDER]
        with quiet():
            save(fn, *(saved[q] if r.uniform() < 0.7 else list(saved[q]) for q in ORDER))     # an earlier file is replaced
        record(f"model/{k}", saved, fn)
        ctx.call("labels", f"model/{k}", lambda: labelled(fn), lambda r: r, saved=before)
        ctx.emit("kept", f"model/{k}", before=before, after=[[items(v) for v in saved[q]] for q in ORDER])
    # long ragged fields
    if ctx.shard == 0:
        for n in ([1003, 10003] if not ctx.thorough else [1003, 10003, 100003]):
            r = ctx.rng("long", n)
            saved = tuples(r, [])
            for q in ORDER:
                saved[q] = (value(r, "ragged", n, True) if q == "ssfr" else 1.0,) + saved[q][1:]
            with quiet():
                save(fn, *(saved[q] for q in ORDER))
            record(f"long/{n}", saved, fn)
    # tuples of a wrong length are refused, and an earlier file stays
    for k in range(6):
        r = ctx.rng("bad", ctx.shard, k)
        saved = tuples(r, [])
        with quiet():
            save(fn, *(saved[q] for q in ORDER))
        bad = dict(saved)
        q = ORDER[k % 3]
        bad[q] = bad[q][:-1] if k % 2 else bad[q] + (1.0,)

        def go():
            with quiet():
                save(fn, *(bad[x] for x in ORDER))
        ctx.call("refuse", f"bad/{k}", go, lambda r: {}, which=q)
        record(f"after/{k}", saved, fn)
    shutil.rmtree(scratch)
