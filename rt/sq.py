"""Workloads for synchrosqueezing: transforms with known phase-transform values."""
import numpy as np
from . import gen


def freqs(rng, n, kind, dtype='float64'):
    """Valid increasing frequency vectors."""
    f0 = 10**rng.uniform(-3, 2)
    if kind == 'linear':
        f0 = gen.choice(rng, [0., f0])
        df = 10**rng.uniform(-3, 2)
        if dtype == 'float32':
            f0 = min(f0, 20 * df)   # spacing representable
        v = f0 + df * np.arange(n)
    elif kind == 'log':
        nv = int(gen.choice(rng, [4, 8, 16, 32]))
        v = f0 * 2**(np.arange(n) / nv)
    else:
        # sparser first (low frequencies), denser later
        nv = int(gen.choice(rng, [8, 16, 32]))
        m = int(rng.integers(4, n - 4))
        step = np.full(n - 1, 1 / nv)
        step[:m] = gen.choice(rng, [2, 3, 4]) / nv
        v = f0 * 2**np.hstack([0, np.cumsum(step)])
    return v.astype(dtype)


def scales(rng, na, kind):
    if kind == 'log':
        return 2**(np.arange(1, na + 1) / int(gen.choice(rng, [4, 8, 16, 32])))
    if kind == 'linear':
        return float(rng.integers(1, 4)) + np.arange(na) * gen.choice(rng, [.5, 1., 2.])
    nv = int(gen.choice(rng, [8, 16, 32]))
    m = int(rng.integers(4, na - 4))
    step = np.full(na - 1, 1 / nv)
    step[m:] = 4 / nv
    return 2**np.hstack([0, np.cumsum(step)])


def phases(rng, v, shape):
    """Finite non-negative frequencies in and around `v`, biased to edges, bins and
    boundaries between bins."""
    n = len(v)
    u = rng.random(shape)
    span = v[-1] - v[0]
    w = v[0] + rng.random(shape) * span
    lv = np.log(np.maximum(v, 1e-3 * v[-1]))
    w = np.where(u < .35, np.exp(lv[0] + rng.random(shape) * (lv[-1] - lv[0])), w)
    j = rng.integers(0, n, shape)
    w = np.where((u > .35) & (u < .45), v[j], w)
    j2 = np.minimum(j, n - 2)
    near = v[j2] + (v[j2 + 1] - v[j2]) * (.5 + rng.uniform(-.12, .12, shape))
    w = np.where((u > .45) & (u < .6), near, w)
    w = np.where((u > .6) & (u < .66), v[-1] * rng.uniform(1, 3, shape), w)
    w = np.where((u > .66) & (u < .70), v[-1] * 10**rng.uniform(0, 12, shape), w)
    w = np.where((u > .70) & (u < .76), v[0] * rng.uniform(0, 1, shape), w)
    w = np.where((u > .76) & (u < .78), 0., w)
    w = np.where((u > .78) & (u < .80), v[0] * 10**rng.uniform(-12, 0, shape), w)
    # about the transition and the ends
    w = np.where((u > .80) & (u < .84), v[-1] - rng.random(shape) * (v[-1] - v[-2]), w)
    w = np.where((u > .84) & (u < .88), v[0] + rng.random(shape) * (v[1] - v[0]), w)
    d = np.diff(np.log(v[1:]))
    m = int(np.argmin(np.diff(d))) if n > 5 else 0
    if v[m] > 0:
        w = np.where((u > .88) & (u < .94), v[m] * (v[min(m + 4, n-1)] / v[m])
                     ** rng.random(shape), w)
    return np.abs(w)


def transform(rng, shape, cdtype):
    """Magnitudes spread over decades, all above any default gamma."""
    mag = 10**rng.uniform(-2, 2, shape)
    ph = rng.uniform(0, 2*np.pi, shape)
    return (mag * np.exp(1j*ph)).astype(cdtype)
