"""Workload generators."""
import numpy as np

WAVELETS = ['gmw', 'morlet', 'bump', 'cmhat', 'hhhat']


def choice(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def length(rng, lo=8, hi=700):
    """Lengths biased toward boundaries: powers of 2, their neighbours, midpoints of
    rounding (2^k*sqrt2), odd, tiny."""
    kind = rng.integers(5)
    if kind == 0:
        n = 2**int(rng.integers(3, 10)) + int(rng.integers(-1, 2))
    elif kind == 1:
        n = int(round(2**(int(rng.integers(3, 9)) + .5))) + int(rng.integers(-1, 2))
    elif kind == 2:
        n = int(rng.integers(lo, min(hi, max(40, lo + 20))))
    else:
        n = int(rng.integers(lo, hi))
    return int(min(max(n, lo), hi))


def signal(rng, N, kind=None):
    """Returns `(x, kind)`, float64."""
    kinds = ['noise', 'tones', 'chirp', 'impulse', 'step', 'const+noise', 'big', 'tiny',
             'sparse', 'trend', 'alternating']
    kind = kind or choice(rng, kinds)
    t = np.arange(N)
    if kind == 'noise':
        x = rng.standard_normal(N)
    elif kind == 'tones':
        x = sum(rng.uniform(.2, 1) * np.cos(2*np.pi*rng.uniform(.01, .45)*t
                                            + rng.uniform(0, 6.28)) for _ in range(3))
    elif kind == 'chirp':
        f0, f1 = rng.uniform(.01, .2), rng.uniform(.2, .45)
        x = np.cos(2*np.pi * (f0*t + (f1 - f0) * t**2 / (2*N)))
    elif kind == 'impulse':
        x = np.zeros(N); x[int(rng.integers(N))] = 1.
    elif kind == 'step':
        x = (t >= rng.integers(N)).astype(float)
    elif kind == 'const+noise':
        x = 5 + .1 * rng.standard_normal(N)
    elif kind == 'big':
        x = 1e4 * rng.standard_normal(N)
    elif kind == 'tiny':
        x = 1e-4 * rng.standard_normal(N)
    elif kind == 'sparse':
        x = rng.standard_normal(N) * (rng.random(N) < .1); x[0] = 1.
    elif kind == 'trend':
        x = np.linspace(-1, 2, N) + .05 * rng.standard_normal(N)
    elif kind == 'alternating':
        x = (-1.)**t + .01 * rng.standard_normal(N)
    return x, kind


def batch(rng, B, N):
    out = [signal(rng, N) for _ in range(B)]
    return np.stack([o[0] for o in out]), '+'.join(o[1] for o in out)


def wavelet(rng, order=False, l2=False, names=None):
    """`(name, options)` for well-behaved built-in wavelets."""
    name = choice(rng, names or ['gmw', 'gmw', 'gmw', 'morlet', 'bump', 'cmhat', 'hhhat'])
    o = {}
    if name == 'gmw':
        if rng.random() < .6:
            o['gamma'] = choice(rng, [2., 3., 4., 3])
            o['beta'] = choice(rng, [8., 20, 40., 60., 90.])
        if order:
            o['order'] = int(rng.integers(0, 4))
        if l2:
            o['norm'] = 'energy'
        if rng.random() < .2:
            o['centered_scale'] = True
    elif name == 'morlet' and rng.random() < .6:
        o['mu'] = choice(rng, [5., 6, 10., 13.4, 20.])
    elif name == 'bump' and rng.random() < .6:
        o['mu'], o['s'] = choice(rng, [(5., 1.), (5, 1.2), (4., .8), (6., 1.)])
    elif name == 'cmhat' and rng.random() < .6:
        o['mu'], o['s'] = choice(rng, [(1., 1.), (2., .8), (.5, 1.5)])
    elif name == 'hhhat' and rng.random() < .6:
        o['mu'] = choice(rng, [3., 5., 6])
    return name, o


def scales_arr(rng, N, kind=None, dtype='float64'):
    """Valid arrays of scales (log, linear), any subrange."""
    kind = kind or choice(rng, ['log', 'linear'])
    if kind == 'log':
        nv = int(choice(rng, [4, 8, 16, 32]))
        lo = int(rng.integers(0, 2*nv))
        na = int(rng.integers(3, 5*nv))
        s = 2**(np.arange(lo, lo + na) / nv)
    else:
        na = int(rng.integers(3, 60))
        lo = float(rng.integers(1, 6))
        s = lo + np.arange(na) * choice(rng, [.5, 1., 2.])
    return s.astype(dtype), kind
