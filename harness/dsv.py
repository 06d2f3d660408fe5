"""Recording of calls into diffstar as trace events."""
import json
import os
import zlib

import numpy as np


def plain(v):
    """Any value -> JSON: reals keep a decimal point, ints stay ints."""
    if v is None:
        return "None"
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, (float, np.floating)):
        return float(v)
    if isinstance(v, (str, np.str_)):
        return str(v)
    if isinstance(v, bytes):
        return v.decode()
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    a = np.asarray(v)
    if a.dtype.kind in "iu":
        return a.astype(int).tolist()
    if a.dtype.kind == "b":
        return a.tolist()
    if a.dtype.kind in "SU":
        return [plain(x) for x in a.tolist()]
    return a.astype(float).tolist()


def fl(v):
    """float list(s)"""
    return np.asarray(v, dtype=float).tolist()


class Ctx:
    def __init__(self, cfg):
        self.__dict__.update(cfg)
        self.x64 = self.mode == "x64"
        self.thorough = self.tier == "thorough"
        self.scen = json.load(open(cfg["scen"])) if cfg.get("scen") else {}
        self._f = open(self.trace, "w")
        self.n = 0
        self._work = 0

    def rng(self, *key):
        s = zlib.crc32(repr((self.seed, self.pid) + key).encode())
        return np.random.default_rng(s)

    def mine(self):
        """Shard work units round robin."""
        self._work += 1
        return (self._work - 1) % self.nshard == self.shard

    def note(self, what):
        with open(self.trace + ".last", "w") as f:
            f.write(str(what))

    def emit(self, op, scen, **kw):
        e = dict(op=op, scen=scen, mode=self.mode)
        e.update(kw)
        e = plain(e)
        self._f.write(json.dumps(e) + "\n")
        self.n += 1

    def call(self, op, scen, fn, post=None, **kw):
        """Run fn(), record args kw with its outcome.

        post(result) -> dict of recorded outputs.  An exception of the code is
        part of the trace: the specification decides whether it may raise.
        """
        self.note((op, scen))
        try:
            r = fn()
        except Exception as ex:  # noqa
            self.emit(op, scen, exc=type(ex).__name__, msg=str(ex)[:300], **kw)
            return None
        try:
            out = post(r) if post else dict(out=r)
            plain(out)
        except Exception as ex:  # result of a wrong structure
            self.emit(op, scen, exc="BadResult", msg=repr(ex)[:300], **kw)
            return None
        self.emit(op, scen, **kw, **out)
        return r

    def close(self):
        self._f.close()


def get(mod, *names):
    """First attribute of mod which exists (None if none): internals may move."""
    for n in names:
        if hasattr(mod, n):
            return getattr(mod, n)
    return None
