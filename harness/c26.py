import hashlib
import os
import sys

import jax
import numpy as np
from jax import numpy as jnp

import session

NMAX = 40


def isnt(x):
    return isinstance(x, tuple) and hasattr(x, "_fields")


def leafmap(f, x):
    if isnt(x):
        return type(x)._make([leafmap(f, y) for y in x])
    if isinstance(x, tuple):
        return tuple(leafmap(f, y) for y in x)
    if isinstance(x, list):
        return [leafmap(f, y) for y in x]
    if isinstance(x, dict):
        return {k: leafmap(f, v) for k, v in x.items()}
    return f(x)


def iskey(x):
    return getattr(x, "dtype", None) == np.uint32


def to_form(form, x):
    def f(v):
        if iskey(v) or isinstance(v, (bool, int, str)) or v is None:
            return v
        if form == "jnp":
            return jnp.asarray(v)
        if form == "np0":
            return np.array(v) if isinstance(v, float) else v
        if form == "strided":
            if isinstance(v, np.ndarray) and v.ndim:
                big = np.zeros((2,) + v.shape, v.dtype)
                w = np.moveaxis(big, 0, -1)[..., 0] if v.ndim > 1 else np.zeros(2 * len(v), v.dtype)[::2]
                w[...] = v
                return w
            return np.float64(v) if isinstance(v, float) else v
        if form == "list":
            return v.tolist() if isinstance(v, np.ndarray) and v.ndim else v
        if form == "nested":
            return v
        return v
    r = leafmap(f, x)
    if form == "nested":     # tuples of arrays instead of tuples of rows
        r = leafmap(lambda v: v, r)
    return r


def feed(h, x):
    if isnt(x) or isinstance(x, (tuple, list)):
        h.update(f"{type(x).__name__}{getattr(x, '_fields', '')}{len(x)}(".encode())
        for y in x:
            feed(h, y)
        h.update(b")")
    elif isinstance(x, dict):
        h.update(b"{")
        for k in x:
            h.update(str(k).encode())
            feed(h, x[k])
        h.update(b"}")
    elif isinstance(x, (np.ndarray, jax.Array, np.generic)):
        if isinstance(x, jax.Array) and jax.dtypes.issubdtype(x.dtype, jax.dtypes.prng_key):
            x = jax.random.key_data(x)
        a = np.asarray(x)
        h.update(f"{type(x).__module__.split('.')[0]}{a.dtype}{a.shape}".encode())
        h.update(a.tobytes())
    else:
        h.update(f"{type(x).__name__}{x!r}".encode())


def digest(*x):
    h = hashlib.sha1()
    for y in x:
        feed(h, y)
    return h.hexdigest()[:16]


def numbers(x):
    if isnt(x) or isinstance(x, (tuple, list)):
        return [v for y in x for v in numbers(y)]
    if isinstance(x, dict):
        return [v for k in sorted(x) for v in numbers(x[k])]
    if isinstance(x, (str, bytes)) or x is None:
        return []
    return [float(v) for v in np.asarray(x, float).ravel()]


def sampled(v):
    return v if len(v) <= NMAX else [v[i] for i in np.linspace(0, len(v) - 1, NMAX).astype(int)]


def constants():
    """Digest of every default, bound and name which the package's modules hold."""
    h = hashlib.sha1()
    for name in sorted(sys.modules):
        if name == "diffstar" or name.startswith("diffstar."):
            m = sys.modules[name]
            for a in sorted(vars(m)):
                v = getattr(m, a)
                if a.lstrip("_").isupper() or a.lstrip("_")[:1].isupper():
                    if isinstance(v, (tuple, list, dict, float, int, np.ndarray, jax.Array, np.generic)):
                        h.update((name + a).encode())
                        feed(h, v)
    return h.hexdigest()


def settings():
    return (bool(jax.config.jax_enable_x64), bool(jax.config.jax_disable_jit), bool(jax.config.jax_debug_nans), str(sorted(np.geterr().items())),
            str(np.get_printoptions()))


class Player:
    def __init__(self, ctx, cat):
        self.ctx, self.cat = ctx, cat
        self.args = {}
        self.seen = set()
        self.proc = f"{ctx.mode}{ctx.shard}"
        self.const = constants()
        self.sett = settings()
        self.nth = 0

    def prepare(self, e, kind):
        """The argument objects of a call: the same objects whenever it recurs."""
        if (e.name, kind) in self.args:
            return self.args[e.name, kind]
        base = "a" if kind == "r" or kind.startswith("t") else kind
        rng = self.ctx.rng("args", e.name, base)
        a, k = e.make(rng, base)
        if kind.startswith("t"):
            a, k = to_form(kind[2:], a), to_form(kind[2:], k)
        if kind == "r":
            a, k = e.bad(a, k)
        self.args[e.name, kind] = (a, k)
        return a, k

    def call(self, e, kind, scn):
        self.ctx.note((e.name, kind, scn))
        a, k = self.prepare(e, kind)
        if e.draws:
            np.random.seed(1234)
        st = digest(np.random.get_state())
        pre = digest(a, k)
        ev = {}
        try:
            r = e.fn(*a, **k)
            ev["answer"] = digest(r)
        except Exception as ex:
            ev["err"] = type(ex).__name__
            ev["answer"] = "raised " + type(ex).__name__
            r = None
        post = digest(a, k)
        self.nth += 1
        full = self.nth % 25 == 0 or e.heavy
        key = f"{e.name}/{kind}"
        if key not in self.seen and "err" not in ev:
            self.seen.add(key)
            try:
                ev["val"] = sampled(numbers(r))
            except (TypeError, ValueError):
                ev["val"] = []
        d = True
        if full or key not in self.seen:
            d = constants() == self.const
        self.ctx.emit("call", scn, fn=e.name, key=key, ckey=f"{e.name}/{'a' if kind.startswith('t') else kind}", proc=self.proc, pre=pre, post=post,
                      defaults=d, settings=settings() == self.sett, draws=e.draws, rng=digest(np.random.get_state()) == st, may_raise=kind == "r", **ev)

    def final(self):
        """Nothing that was called changed a constant of the package."""
        e = self.cat[0]
        self.nth = 24
        self.call(e, "a", "end")


def run(ctx):
    cat = session.catalogue(os.path.join(ctx.workdir, "tmp", f"{ctx.mode}{ctx.shard}"))
    p = Player(ctx, cat)
    scen = [tuple(s) for s in ctx.scen["MC_C26"]]
    mine = [e for i, e in enumerate(cat) if i % ctx.nshard == ctx.shard and (not e.heavy or ctx.x64)]
    others = [e for i, e in enumerate(cat) if (i + 1) % ctx.nshard == ctx.shard and not e.heavy]
    order = ctx.rng("order", ctx.shard)
    # other processes answer these in another order, after other calls
    for e in [others[i] for i in order.permutation(len(others))]:
        for kind in ("v", "a"):
            p.call(e, kind, "other")
    quota = 250 if ctx.thorough else 60
    for i, e in enumerate(mine):
        z = mine[(i + 1) % len(mine)]
        n = quota if not (e.slow or e.heavy) else (quota // 5 if e.slow else 2)
        pick = order.permutation(len(scen))[:n]
        # every ordered pair of kinds occurs
        for si in pick:
            for j, kind in enumerate(scen[si]):
                if kind == "r" and e.bad is None:
                    continue
                if kind == "t":
                    for form in e.forms:
                        p.call(e, "t:" + form, f"{e.name}:{''.join(scen[si])}:{j}")
                elif kind == "z":
                    if not z.heavy:
                        p.call(z, "a", f"{e.name}:{''.join(scen[si])}:{j}")
                else:
                    p.call(e, kind, f"{e.name}:{''.join(scen[si])}:{j}")
    # a long session over everything
    light = [e for e in mine if not (e.slow or e.heavy)]
    for j in range(1500 if ctx.thorough else 400):
        e = light[order.integers(len(light))]
        kinds = ["a", "v", "s", "o"] + (["r"] if e.bad else []) + ["t:" + f for f in e.forms]
        p.call(e, kinds[order.integers(len(kinds))], f"long:{j}")
    jax.clear_caches()
    for e in mine[:4]:
        if not e.heavy:
            p.call(e, "a", "recompiled")
    p.final()
