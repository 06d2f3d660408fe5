"""The catalogue of public functions, with arguments, for sessions of calls."""
import os

import numpy as np
from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS
from jax import numpy as jnp
from jax import random as jran

import diffstar
from diffstar import defaults as dd
from diffstar import utils as du
from diffstar.data_loaders import utils as dlu
from diffstar.diffstarpop import param_utils as dpu
from diffstar.diffstarpop import utils as dpl
from diffstar.diffstarpop.kernels import satquenchpop_model as sq
from diffstar.diffstarpop.sumstats import diffndhist as nd
from diffstar.diffstarpop.sumstats import smhm
from diffstar.fitting_helpers import diffstar_fitting_helpers as fh
from diffstar.fitting_helpers import utils as fu

import gen
import losses
import pops
from dsv import get
from losses import L
from pops import dp, mc

MAH = DEFAULT_MAH_PARAMS._make
GAL = dd.DEFAULT_DIFFSTAR_PARAMS
UGAL = dd.DEFAULT_DIFFSTAR_U_PARAMS
F = float


class Entry:
    def __init__(self, name, fn, make, bad=None, forms=("jnp", "np0", "strided"), draws=False, slow=False, heavy=False):
        self.__dict__.update(locals())


def gal(rng):
    return [F(x) for x in gen.gal(rng, "typical")]


def mah(rng):
    return [F(x) for x in gen.mah(rng, "typical")]


def times(n):
    return np.linspace(0.5, 13.5, n)


def stack(rng, f, n):
    return np.array([f(rng) for _ in range(n)]).T.copy()


def _sfh1(rng, kind, **o):
    n = dict(s=9).get(kind, 6)
    kw = dict(lgt0=gen.LGT0, fb=0.156, **o)
    if kind == "o":
        kw["return_smh"] = True
    return (GAL._make(gal(rng)), MAH(mah(rng)), times(n)), kw


def _sfhp(rng, kind):
    n, m = (9, 4) if kind == "s" else (6, 3)
    kw = dict(lgt0=gen.LGT0, fb=0.156)
    if kind == "o":
        kw["return_smh"] = True
    return (GAL._make(stack(rng, gal, m)), MAH(stack(rng, mah, m)), times(n)), kw


def _gas1(rng, kind):
    kw = dict(lgt0=1.1, fb=0.2) if kind == "o" else {}
    return (GAL._make(gal(rng)), MAH(mah(rng)), times(9 if kind == "s" else 6)), kw


def _gasp(rng, kind):
    n, m = (9, 4) if kind == "s" else (6, 3)
    kw = dict(lgt0=1.1, fb=0.2) if kind == "o" else {}
    return (GAL._make(stack(rng, gal, m)), MAH(stack(rng, mah, m)), times(n)), kw


def _bound(rng, kind):
    if kind == "s":
        return (UGAL._make(rng.normal(0, 1, (8, 3))),), {}
    return (UGAL._make([F(x) for x in rng.normal(0, 1, 8)]),), {}


def _unbound(rng, kind):
    if kind == "s":
        return (GAL._make(stack(rng, gal, 3)),), {}
    return (GAL._make(gal(rng)),), {}


def _cum(rng, kind):
    n = 11 if kind == "s" else 7
    return (times(n), 10 ** rng.uniform(-2, 2, n)), {}


def _cump(rng, kind):
    n = 11 if kind == "s" else 7
    return (times(n), 10 ** rng.uniform(-2, 2, (3, n))), {}


def _fstar(rng, kind):
    n = 11 if kind == "s" else 7
    return (times(n), np.cumsum(10 ** rng.uniform(6, 9, n)), 2.5 if kind == "o" else 1.0), {}


def _1d(rng, kind):
    n = 5 if kind == "s" else 3
    a = (rng.uniform(0, 1, n), F(rng.uniform()), np.arange(n), F(rng.uniform()))
    return (a[1:2] if kind == "o" else a), {}


def _dt(rng, kind):
    return (np.sort(rng.uniform(0, 14, 9 if kind == "s" else 5)),), {}


def _interp(rng, kind):
    n = 9 if kind == "s" else 6
    xt, yt = np.sort(rng.uniform(0, 10, 12)), rng.uniform(0, 1, 12)
    x = rng.uniform(0.1, 9.9, n)
    return (x, xt, yt, np.clip(np.searchsorted(xt, x), 1, 11)), {}


def _sig(rng, kind):
    x = rng.normal(0, 3, 5) if kind == "s" else F(rng.normal())
    return (x, 0.3, 1.7, -1.0, 2.0), {}


def _isig(rng, kind):
    y = rng.uniform(-0.9, 1.9, 5) if kind == "s" else F(rng.uniform(-0.9, 1.9))
    return (y, 0.3, 1.7, -1.0, 2.0), {}


def _tw(rng, kind):
    return (F(rng.normal()), 0.1, 1.3), {}


def _tw4(rng, kind):
    return (F(rng.normal()), 0.7, -1.0, 1.5), {}


def _xy(rng, kind):
    n = 9 if kind == "s" else 5
    return (np.sort(rng.uniform(0, 5, n)), rng.uniform(0, 1, n)), {}


def _cov(rng, kind):
    n = 5 if kind == "s" else 3
    a = rng.normal(0, 1, (n, n))
    return (a @ a.T + np.eye(n),), {}


def _corr(rng, kind):
    n = 5 if kind == "s" else 3
    a = rng.uniform(-0.3, 0.3, (n, n))
    a = a + a.T
    np.fill_diagonal(a, rng.uniform(0.2, 2, n))
    return (a,), {}


def _line(rng, kind):
    x = rng.normal(12, 1, 5) if kind == "s" else F(rng.normal(12, 1))
    return (x, 12.0, 0.3, 0.0 if kind == "o" else F(rng.normal(0, 0.3)), 0.0, 1.0), {}


def ptup(rng):
    return pops.tup(pops.pop(rng, "near"))


def halos(rng, n):
    return tuple(pops.cols([pops.halo(rng) for _ in range(n)]))


def _mc1(rng, kind):
    h = pops.halo(rng)
    h["upid"] = -1 if kind != "o" else 7
    return (ptup(rng), *[h[f] for f in pops.HFIELDS], jran.PRNGKey(int(rng.integers(1 << 30)))), {}


def _mcp(rng, kind):
    return (ptup(rng), *halos(rng, 4 if kind == "s" else 3), jran.PRNGKey(int(rng.integers(1 << 30)))), {}


def _mcs1(rng, kind):
    h = pops.halo(rng)
    t = times(9 if kind == "s" else 6)
    kw = dict(lgt0=1.1, fb=0.2) if kind == "o" else dict(lgt0=gen.LGT0, fb=0.156)
    return (ptup(rng), MAH(mah(rng)), h["logmp0"], *[h[f] for f in pops.HFIELDS[2:]], jran.PRNGKey(int(rng.integers(1 << 30))), t), kw


def _mcsp(rng, kind):
    m = 4 if kind == "s" else 3
    c = halos(rng, m)
    kw = dict(lgt0=1.1, fb=0.2) if kind == "o" else dict(lgt0=gen.LGT0, fb=0.156)
    return (ptup(rng), MAH(stack(rng, mah, m)), c[0], *c[2:], jran.PRNGKey(int(rng.integers(1 << 30))), times(6)), kw


def _popb(rng, kind):
    return (dp.get_unbounded_diffstarpop_params(ptup(rng)),), {}


def _popb_host(rng, kind):
    return (type(dp.DEFAULT_DIFFSTARPOP_U_PARAMS)._make([F(x) for x in _popb(rng, kind)[0][0]]),), {}


def _popu(rng, kind):
    return (ptup(rng),), {}


def _satp(rng):
    return sq.DEFAULT_SATQUENCHPOP_PARAMS._make([F(x) for x in sq.DEFAULT_SATQUENCHPOP_PARAMS])


def _sat(rng, kind):
    n = 5 if kind == "s" else 3
    return (_satp(rng), rng.uniform(-4, 0, n), rng.uniform(11, 15, n), rng.uniform(-1, 10, n), rng.uniform(0, 1, n)), {}


def _data(rng, kind, n=None):
    n = n or (24 if kind == "s" else 16)
    t = np.linspace(0.4, 13.8, n)
    m = MAH(mah(rng))
    s = np.asarray(diffstar.calc_sfh_singlegal(GAL._make(gal(rng)), m, t, lgt0=gen.LGT0, fb=0.156), float) * 10 ** rng.normal(0, 0.05, n)
    s[2] = 0.0
    kw = dict(dlogm_cut=2.0, t_fit_min=2.0, mass_fit_min=8.0, fstar_tdelay=0.7, ssfrh_floor=1e-11) if kind == "o" else {}
    return (t, s, m), kw


def _ld(rng, kind):
    a, kw = _data(rng, kind)
    with_np = fh.get_loss_data_default(*a, **kw)
    u = np.asarray(with_np[0][0], float)
    data = tuple(d if isinstance(d, tuple) else (np.asarray(d, float) if np.ndim(d) else F(d)) for d in with_np[1])
    return (u, data), {}


def _w(rng, kind):
    n = 16
    t = np.linspace(0.4, 13.8, n)
    return (t, np.sort(rng.uniform(6, 11, n)), rng.uniform(-2, 1, n), 1.0, 2.5 if kind == "o" else 3.5, 1.0, 7.0), {}


def qloss(p, data):
    return jnp.sum(data[0] * (p - data[1]) ** 2) + data[2]


def qgrad(p, data):
    return np.array(2 * np.asarray(data[0]) * (np.asarray(p) - np.asarray(data[1])), float)


def _minw(rng, kind):
    n = 4 if kind == "s" else 3
    d = (rng.uniform(0.5, 2, n), rng.normal(0, 1, n), 0.0 if kind != "v" else 5.0)
    kw = dict(loss_tol=1e-9, max_iter=3) if kind == "o" else {}
    return ((rng.normal(0, 1, n), np.full(n, 0.3)), d), kw


def minw(p, d, **kw):
    return fu.minimizer_wrapper(qloss, qgrad, p, d, **kw)


def _mini(rng, kind):
    n = 4 if kind == "s" else 3
    return (rng.normal(0, 1, n), (rng.uniform(0.5, 2, n), rng.normal(0, 1, n), 0.0), 5), {}


def mini(p, d, n):
    return fu.minimizer(qloss, qgrad, p, d, n)


def mini2(p, d, n):
    return dpl.minimizer(qloss, qgrad, p, d)


def adam(p, d, n, **kw):
    return fu.jax_adam_wrapper_v2(qloss, p, d, n, **kw)


def _adam(rng, kind):
    n = 4 if kind == "s" else 3
    kw = dict(n_warmup=1, warmup_n_step=3, step_size=0.1) if kind == "o" else {}
    return (rng.normal(0, 1, n), (rng.uniform(0.5, 2, n), rng.normal(0, 1, n), 0.0), 4), kw


def _nd(rng, kind):
    n, d = (5, 1) if kind == "s" else (6, 2)
    lo = rng.uniform(0, 1, (4, d))
    return (rng.uniform(0, 2, (n, d)), rng.uniform(0.1, 0.3, (n, d)), lo, lo + rng.uniform(0.1, 1, (4, d))), {}


def _ndw(rng, kind):
    a, _ = _nd(rng, kind)
    return (a[0], a[1], rng.uniform(0, 1, (len(a[0]), 1)), a[2], a[3]), {}


def _smhm(rng, kind):
    n = 12 if kind == "s" else 9
    return (rng.uniform(11, 14, n), rng.uniform(8, 11, n), rng.uniform(0.1, 0.3, n), np.linspace(10.8, 14.2, 4)), {}


def _var(rng, kind):
    import collections
    names = pops.NAMES[:2] if kind != "s" else pops.NAMES[3:6]
    V = VARIED.setdefault(tuple(names), collections.namedtuple("Varied", names))
    return (V._make([F(x) for x in rng.normal(0, 1, len(names))]), dp.DEFAULT_DIFFSTARPOP_PARAMS), {}


VARIED = {}


def _uvar(rng, kind):
    import collections
    names = dp.DEFAULT_DIFFSTARPOP_U_PARAMS._fields[:2] if kind != "s" else dp.DEFAULT_DIFFSTARPOP_U_PARAMS._fields[3:6]
    V = VARIED.setdefault(tuple(names), collections.namedtuple("Varied", names))
    return (V._make([F(x) for x in rng.normal(0, 1, len(names))]),), {}


def _sel(rng, kind):
    n = 5 if kind == "s" else 3
    return (GAL._make(stack(rng, gal, n)), GAL._make(stack(rng, gal, n)), rng.uniform(size=n) < 0.5), {}


def _out(rng, kind):
    return (int(rng.integers(1 << 30)), np.array(gal(rng)), F(rng.uniform()), 1), {}


def _loss(which):
    def make(rng, kind):
        s = losses.sample(rng, True, 2, 3, which == "sat")
        for row in s["mah"]:
            for m in row:
                m[0] = F(rng.uniform(12, 14))
        u = losses.unbounded(pops.pop(rng, "near"))
        u = type(u)._make([F(x) for x in u])
        if which == "mstar":
            data = losses.mstar_data(s, losses.MEDGES, rng.uniform(0, 1, (2, len(losses.MEDGES) - 1)))
        else:
            data = losses.ssfr_data(s, losses.MEDGES, losses.SEDGES, rng.uniform(0.5, 2, (2, 2)), np.array([[0, 1], [1, 1]]), np.array([2, 3]),
                                    rng.uniform(0, 1, (2, 2, len(losses.SEDGES) - 1)))
        return (u, data), {}
    return make


def files(work):
    os.makedirs(work, exist_ok=True)
    def write(rng, kind):
        cols = fh.get_header()[1]
        n = 5 if kind == "s" else 3
        return (os.path.join(work, "sess.h5"), rng.uniform(1, 9, (n, len(cols))), list(cols)), {}

    def do_write(fn, data, cols):
        fh.write_collated_data(fn, data, cols)
        return {k: v for k, v in sorted(dlu.load_flat_hdf5(fn).items())}

    def read(rng, kind):
        fn = os.path.join(work, f"sess_{kind}.h5")
        cols = fh.get_header()[1]
        fh.write_collated_data(fn, rng.uniform(1, 9, (6 if kind == "s" else 4, len(cols))), cols)
        return (fn,), (dict(istart=1, iend=3, keys=[cols[1]]) if kind == "o" else {})
    return [Entry("write_collated_data", do_write, write, bad=lambda a, k: ((a[0], a[1], a[2][:-1]), k), forms=("strided",)),
            Entry("load_flat_hdf5", dlu.load_flat_hdf5, read, bad=lambda a, k: (a, dict(keys=["no such"])), forms=())]


def drop_last(a, k):
    return a[:-1], k


def no_fb(a, k):
    return a, {x: y for x, y in k.items() if x != "fb"}


def catalogue(work):
    u2 = get(du, "_jax_get_dt_array"), get(du, "_get_dt_array"), get(du, "_sigmoid"), get(du, "_inverse_sigmoid")
    E = [
        Entry("calc_sfh_singlegal", diffstar.calc_sfh_singlegal, _sfh1, no_fb),
        Entry("calc_sfh_galpop", diffstar.calc_sfh_galpop, _sfhp, no_fb, forms=("jnp", "np0", "strided", "nested")),
        Entry("calc_mgas_singlegal", diffstar.calc_mgas_singlegal, _gas1, drop_last),
        Entry("calc_mgas_galpop", diffstar.calc_mgas_galpop, _gasp, drop_last, forms=("jnp", "np0", "strided", "nested")),
        Entry("get_bounded_diffstar_params", diffstar.get_bounded_diffstar_params, _bound, lambda a, k: ((a[0][:7],), k)),
        Entry("get_unbounded_diffstar_params", diffstar.get_unbounded_diffstar_params, _unbound, lambda a, k: ((a[0][:7],), k)),
        Entry("cumulative_mstar_formed", du.cumulative_mstar_formed, _cum, lambda a, k: ((a[0], a[1][:-1]), k)),
        Entry("cumulative_mstar_formed_galpop", du.cumulative_mstar_formed_galpop, _cump, lambda a, k: ((a[0][:-1], a[1]), k)),
        Entry("compute_fstar", du.compute_fstar, _fstar, lambda a, k: ((a[0], a[1][:-1], a[2]), k)),
        Entry("get_1d_arrays", du.get_1d_arrays, _1d, lambda a, k: ((a[0], np.zeros(2)), k), forms=("jnp", "np0", "strided", "list")),
        Entry("jax_np_interp", du.jax_np_interp, _interp, drop_last),
        Entry("sigmoid_poly", du.sigmoid_poly, _sig, drop_last),
        Entry("cumtrapz", du.cumtrapz, _xy, lambda a, k: ((a[0], a[1][:-1]), k)),
        Entry("tw_cuml_jax_kern", du.tw_cuml_jax_kern, _tw, drop_last),
        Entry("tw_bin_jax_kern", du.tw_bin_jax_kern, _tw4, drop_last),
        Entry("correlation_from_covariance", dpl.correlation_from_covariance, _cov, lambda a, k: ((a[0][:-1],), k)),
        Entry("covariance_from_correlation", dpl.covariance_from_correlation, lambda r, k: ((_corr(r, k)[0][0], np.ones(5 if k == "s" else 3)), {}), drop_last),
        Entry("smoothly_clipped_line", dpl.smoothly_clipped_line, _line, drop_last),
        Entry("mc_diffstar_params_singlegal", mc.mc_diffstar_params_singlegal, _mc1, drop_last),
        Entry("mc_diffstar_params_galpop", mc.mc_diffstar_params_galpop, _mcp, drop_last),
        Entry("mc_diffstar_u_params_singlegal", mc.mc_diffstar_u_params_singlegal, _mc1, drop_last),
        Entry("mc_diffstar_u_params_galpop", mc.mc_diffstar_u_params_galpop, _mcp, drop_last),
        Entry("mc_diffstar_sfh_singlegal", mc.mc_diffstar_sfh_singlegal, _mcs1, drop_last),
        Entry("mc_diffstar_sfh_galpop", mc.mc_diffstar_sfh_galpop, _mcsp, drop_last),
        Entry("get_bounded_diffstarpop_params", dp.get_bounded_diffstarpop_params, _popb_host, lambda a, k: ((a[0][:7],), k)),
        Entry("get_unbounded_diffstarpop_params", dp.get_unbounded_diffstarpop_params, _popu, lambda a, k: ((a[0][:7],), k)),
        Entry("get_qprob_sat", sq.get_qprob_sat, _sat, drop_last),
        Entry("get_all_params_from_varied", dpu.get_all_params_from_varied, _var, drop_last),
        Entry("get_all_diffstarpop_u_params", dpu.get_all_diffstarpop_u_params, _uvar, lambda a, k: (([1.0],), k)),
        Entry("mc_select_diffstar_params", dpu.mc_select_diffstar_params, _sel, drop_last),
        Entry("get_loss_data_default", fh.get_loss_data_default, _data, drop_last),
        Entry("get_weights", fh.get_weights, _w, drop_last, forms=("strided", "np0")),
        Entry("loss_default_clipssfrh", fh.loss_default_clipssfrh, _ld, lambda a, k: ((a[0][:5], a[1]), k)),
        Entry("loss_grad_default_clipssfrh_np", fh.loss_grad_default_clipssfrh_np, _ld, lambda a, k: ((a[0][:5], a[1]), k)),
        Entry("get_header", fh.get_header, lambda r, k: ((), {}), lambda a, k: ((1,), k), forms=()),
        Entry("get_outline", fh.get_outline, _out, drop_last, forms=("strided", "list", "jnp")),
        Entry("get_outline_nofit", fh.get_outline_nofit, lambda r, k: ((int(r.integers(1 << 30)),), {}), drop_last, forms=()),
        Entry("minimizer_wrapper", minw, _minw, drop_last, forms=("strided",), draws=True, slow=True),
        Entry("minimizer", mini, _mini, drop_last, forms=("strided",), slow=True),
        Entry("diffstarpop_minimizer", mini2, _mini, drop_last, forms=("strided",), slow=True),
        Entry("jax_adam_wrapper_v2", adam, _adam, drop_last, forms=("strided",), slow=True),
        Entry("diffstar_fitter", fh.diffstar_fitter, _data, drop_last, forms=("strided",), draws=True, heavy=True),
        Entry("tw_ndhist", nd.tw_ndhist, _nd, drop_last),
        Entry("tw_ndhist_weighted", nd.tw_ndhist_weighted, _ndw, drop_last),
        Entry("compute_smhm", smhm.compute_smhm, _smhm, drop_last),
        Entry("loss_mstar_kern_tobs", L.loss_mstar_kern_tobs, _loss("mstar"), lambda a, k: ((a[0], a[1][:-1]), k), forms=("strided",)),
        Entry("loss_mstar_ssfr_kern_tobs", L.loss_mstar_ssfr_kern_tobs, _loss("cen"), lambda a, k: ((a[0], a[1][:-1]), k), forms=("strided",)),
        Entry("loss_mstar_ssfr_sat_kern_tobs", L.loss_mstar_ssfr_sat_kern_tobs, _loss("sat"), lambda a, k: ((a[0], a[1][:-1]), k), forms=("strided",)),
    ]
    for nm, f, mk, bad in (("_jax_get_dt_array", u2[0], _dt, None), ("_get_dt_array", u2[1], _dt, None), ("_sigmoid", u2[2], _sig, drop_last), ("_inverse_sigmoid", u2[3], _isig, drop_last)):
        if f is not None:
            E.append(Entry(nm, f, mk, bad))
    return E + files(work)
