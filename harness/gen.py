"""Random and boundary inputs shared by the harnesses."""
import numpy as np

LO = np.array([9.0, -12.0, 0.0, -5.0, 0.1, -3.0, -3.0, -3.0])
HI = np.array([13.5, -8.0, 5.0, 0.0, 2.0, -0.01, 0.0, 0.0])
DEFAULT = np.array([12.0, -10.0, 1.0, -1.0, 1.0, -0.50725, -1.01773, -0.212307])
LGT0 = float(np.log10(13.8))
FB = 0.156
PHASES = 8


def gal(rng, kind=None):
    """In-bounds galaxy parameters."""
    kind = kind or rng.choice(["uniform", "uniform", "typical", "edge", "narrow", "early", "default", "corner"])
    if kind == "default":
        return DEFAULT.copy()
    if kind == "typical":
        p = np.array([rng.normal(12, 0.4), rng.normal(-9.8, 0.5), rng.uniform(0.3, 4), -rng.uniform(0.2, 4),
                      rng.uniform(0.3, 1.3), rng.uniform(-1.2, -0.2), -rng.uniform(0.1, 2.5), 0.0])
    else:
        p = LO + (HI - LO) * rng.uniform(0.02, 0.98, 8)
    if kind == "edge":
        for i in rng.choice(8, size=rng.integers(1, 4), replace=False):
            p[i] = (LO if rng.uniform() < 0.5 else HI)[i] + 1e-3 * (HI - LO)[i] * (1 if p[i] <= LO[i] else 0)
            p[i] = np.clip(p[i], LO[i] + 1e-3 * (HI - LO)[i], HI[i] - 1e-3 * (HI - LO)[i])
    if kind == "narrow":
        p[5] = rng.uniform(-3, -2)
    if kind == "early":
        p[4:7] = rng.uniform(0.1, 0.35), rng.uniform(-0.15, -0.01), rng.uniform(-3, -1)
    f = rng.uniform(0.02, 0.98)
    if kind == "corner":
        # every parameter close to one of its bounds
        p = LO + (HI - LO) * rng.choice([1e-3, 0.999], size=8)
        f = rng.choice([1e-3, 0.999])
    p = np.clip(p, LO + 1e-4, HI - 1e-4)
    p[7] = p[6] + (0.0 - p[6]) * f
    return p


def mah(rng, kind=None):
    kind = kind or rng.choice(["typical", "typical", "wide", "early_peak", "late_peak"])
    early = rng.uniform(1.5, 5)
    p = np.array([rng.uniform(10.5, 15), rng.uniform(-0.1, 0.7), early, rng.uniform(0.05, min(early, 1.5)), 13.5])
    if kind == "wide":
        p[0] = rng.uniform(8, 16)
        p[1] = rng.uniform(-0.5, 1.0)
        p[2] = rng.uniform(0.5, 8)
        p[3] = rng.uniform(0.0, p[2])
        p[4] = rng.uniform(0.5, 20)
    elif kind == "early_peak":
        p[4] = rng.uniform(0.6, 8)
    elif kind == "late_peak":
        p[4] = rng.uniform(13.8, 30)
    else:
        p[4] = rng.uniform(3, 14)
    return p


def cast(x, x64):
    """Values as the code will see them in the mode's precision."""
    return np.asarray(x, dtype=np.float64 if x64 else np.float32).astype(np.float64)


def opts(rng, cls):
    lgt0, fb = LGT0, FB
    if cls in ("lgt0", "both"):
        lgt0 = float(rng.uniform(0.9, 1.25))
    if cls in ("fb", "both"):
        fb = float(rng.uniform(0.01, 1.0))
    if cls == "tinyfb":
        fb = float(10 ** rng.uniform(-14, -8))
    return lgt0, fb
