"""Helpers which call the code under test."""
import numpy as np
import ssqueezepy as ssq
from ssqueezepy import Wavelet
from . import gen, ref

TOL = {'float32': 3e-4, 'float64': 1e-9}


def custom_fn(w):
    return np.exp(-.5 * (w - 7)**2) * (w > 0)


def make_wavelet(rng, name, opts, dtype=None, form=None, N=None, l1_norm=True):
    """Returns `(wavelet argument, form)`."""
    form = form or gen.choice(rng, ['str', 'tuple', 'instance'])
    o = dict(opts)
    if dtype:
        o['dtype'] = dtype
    if name == 'gmw' and form == 'instance' and not l1_norm:
        o.setdefault('norm', 'energy')
    if form == 'str' and o:
        form = 'tuple'
    if form == 'str':
        return name, form
    if form == 'tuple':
        return (name, o), form
    kw = {'N': N} if N else {}
    if dtype and rng.random() < .5:
        o.pop('dtype')
        kw['dtype'] = dtype
    return Wavelet((name, o), **kw), form


def pick_dtype(rng, name, l1_norm=True):
    """dtype option and the resulting precision."""
    if name == 'gmw' and not l1_norm:
        return gen.choice(rng, [None, 'float64']), 'float64'
    d = gen.choice(rng, [None, 'float32', 'float64', 'float64'])
    return d, d or 'float32'


def cplx(dtype):
    return 'complex128' if dtype == 'float64' else 'complex64'


def kind_of(freqs_or_scales):
    """'log' (also piecewise) or 'linear', judged from values."""
    v = np.asarray(freqs_or_scales, dtype='float64').ravel()
    d1 = np.abs(np.diff(v, 2)).mean() / np.abs(np.diff(v)).mean()
    with np.errstate(all='ignore'):
        lv = np.log(v)
        d2 = np.abs(np.diff(lv, 2)).mean() / np.abs(np.diff(lv)).mean()
    return 'linear' if not np.isfinite(d2) or d1 < d2 else 'log'


def tx_close(ctx, a, b, dtype, key, msg='', strict=None):
    """Equality of synchrosqueezed transforms obtained along numerically different
    routes: column sums agree to float precision; reassignment may differ only where
    rounding decides between bins (practically never in double precision)."""
    ctx.event(key)
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        ctx.violation(key, f'{msg}: {a.shape} {a.dtype} vs {b.shape} {b.dtype}')
        return False
    if not (np.isfinite(a).all() and np.isfinite(b).all()):
        ctx.violation(key, f'{msg}: non-finite values')
        return False
    tot = np.abs(b).sum()
    if tot == 0:
        return ctx.check(np.abs(a).sum() == 0, key, f'{msg}: expected all zeros')
    ca, cb = a.sum(axis=-2), b.sum(axis=-2)
    s = np.abs(b).sum(axis=-2).max()
    e = np.abs(ca - cb).max() / s
    if e > (1e-4 if dtype == 'float32' else 1e-9):
        ctx.violation(key, f'{msg}: column sums differ by {e:.3g}')
        return False
    l1 = np.abs(a - b).sum() / tot
    emd = np.abs(np.cumsum(a - b, axis=-2)).sum() / tot
    lim = ((.25, .3) if dtype == 'float32' else (1e-4, 1e-3))
    if l1 > lim[0] or emd > lim[1]:
        ctx.violation(key, f'{msg}: fraction moved {l1:.3g}, by rows {emd:.3g}')
        return False
    return True


def with_env(**kw):
    """Context manager setting environment variables."""
    import contextlib, os

    @contextlib.contextmanager
    def cm():
        old = {k: os.environ.get(k) for k in kw}
        try:
            for k, v in kw.items():
                if v is None:
                    os.environ.pop(k, None)
                else:
                    os.environ[k] = v
            yield
        finally:
            for k, v in old.items():
                if v is None:
                    os.environ.pop(k, None)
                else:
                    os.environ[k] = v
    return cm()


def window(rng, n_fft):
    """`(window argument, win_len, array used)`; the latter of length n_fft."""
    import scipy.signal as sig
    wl = n_fft if rng.random() < .6 else int(rng.integers(max(2, n_fft // 2), n_fft + 1))
    kind = gen.choice(rng, ([None] if wl >= 12 else []) +
                      ['hann', 'hamming', 'array', 'gauss'])
    if kind is None:
        arr = sig.windows.dpss(wl, max(4, wl // 8), sym=False)
        arg = None
    elif kind in ('hann', 'hamming'):
        arr = sig.get_window(kind, wl, fftbins=True)
        arg = kind
    elif kind == 'gauss':
        arr = sig.windows.gaussian(wl, max(1., wl / 6), sym=False)
        arg = arr.copy()
    else:
        arr = .3 + rng.random(wl)
        arg = arr.copy()
    pl = (n_fft - wl) // 2
    full = np.pad(arr, [pl, n_fft - wl - pl])
    return arg, wl, full, (kind if kind is not None else 'default')
