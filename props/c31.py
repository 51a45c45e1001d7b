"""Catalogue of arguments outside of the documented domain, each with neighbours inside of
it, on random otherwise valid calls: the former must be refused, by name and without any
effect; the latter accepted."""
import copy
import numpy as np
from rt import gen

MODES = {'main': {}}
SHARDS = {'quick': 2, 'thorough': 4}
REQUIRE = {'refused': 200, 'valid neighbour accepted': 200, 'nothing changed': 200,
           'names the argument': 200, 'same result after refusals': 30}
RULE = 'every catalogue entry on random otherwise valid calls'
ASSUMPTIONS = ['only documented domains and refusals are in the catalogue']


class E():
    """bad: list of (needle, overrides); good: list of overrides."""
    def __init__(self, name, fn, base, bad, good):
        self.name, self.fn, self.base, self.bad, self.good = name, fn, base, bad, good


def nonuniform(N, fs):
    t = np.arange(N) / fs
    t[N // 2] += .3 / fs
    return t


def common(x, fs):
    """time & rate arguments"""
    N = x.shape[-1]
    bad = [('fs', dict(fs=f)) for f in (0, -1, -fs, 0., np.inf, -np.inf, np.nan)]
    bad += [('`t`', dict(t=np.arange(N + 1) / fs)),
            ('`t`', dict(t=np.arange(N - 1) / fs)),
            ('increasing', dict(t=np.arange(N)[::-1] / fs)),
            ('uniformly', dict(t=nonuniform(N, fs))),
            ('uniformly', dict(t=np.cumsum(np.linspace(1, 2, N)) / fs)),
            ('uniformly', dict(t=np.where(np.arange(N) == N - 1, np.nan,
                                          np.arange(N) / fs)))]
    good = [dict(fs=fs), dict(fs=int(max(1, fs))), dict(fs=np.float32(fs)),
            dict(t=np.arange(N) / fs), dict(t=5 + np.arange(N) / fs), dict(fs=None)]
    return bad, good


def catalogue(rng):
    from rt.lib import ssq
    from ssqueezepy import Wavelet
    from ssqueezepy.utils import cwt_utils, stft_utils, common as ucommon
    from ssqueezepy.utils.fft_utils import fft, rfft, ifft, irfft
    from ssqueezepy import _gmw, algos, wavelets, ssqueezing
    N = int(rng.integers(120, 260))
    fs = float(10**rng.uniform(-2, 3))
    x = rng.standard_normal(N)
    nv = int(gen.choice(rng, [8, 16]))
    s = 2**(np.arange(4 * nv) / nv + 1)
    out = []
    tb, tg = common(x, fs)
    x3 = np.zeros((2, 2, N))
    scl_bad = [('scales', dict(scales=v)) for v in (
        'logg', '', 'LOG', 5, None, list(s), rng.permutation(s), s[:, None] * s[None],
        np.r_[1., 2., 3., 4.5, 9., 9.5, 11., 30.])]
    nv_bad = [("nv", dict(nv=v, scales='log')) for v in (0, -1, 16.5, -16, np.nan)]
    scl_good = [dict(scales=v) for v in (
        'log', 'log-piecewise', 'linear', s, s.reshape(-1, 1), s.astype('float32'),
        np.arange(1., 30))] + [dict(nv=v, scales='log') for v in (8, 16., np.int64(12))]
    x_bad = [('x', dict(x=v)) for v in (x3, np.float64(3.) * np.ones(()), list(x))]
    wav_bad = [('wavelet', dict(wavelet=v)) for v in (
        'gm', 'foo', '', 5, None, ['gmw', {}], ('foo', {}))]
    wav_bad += [('', dict(wavelet=v)) for v in (('gmw',), ('gmw', 5), ('gmw', {}, {}))]
    wav_bad += [(k, dict(wavelet=('gmw', {k: v}))) for k, v in (
        ('gamma', 0), ('gamma', -3), ('beta', -1), ('norm', 'foo'), ('norm', 'L2'),
        ('order', -1), ('order', 1.5), ('order', '1'))]
    wav_good = [dict(wavelet=v) for v in (
        'gmw', 'morlet', 'GMW', ('gmw', {}), ('gmw', dict(gamma=2.5, beta=12)),
        ('gmw', dict(norm='bandpass')), ('gmw', dict(order=1)), ('morlet', dict(mu=6)),
        Wavelet('bump'), lambda w: np.exp(-.5 * (w - 5)**2))]
    pad_bad = [('padtype', dict(padtype=v)) for v in ('foo', 'reflct', '', 5)]
    pad_good = [dict(padtype=v) for v in ('reflect', 'symmetric', 'replicate', 'wrap',
                                          'zero')]
    gmwL2 = Wavelet(('gmw', dict(norm='energy')))
    gmwL1 = Wavelet('gmw')
    out.append(E('cwt', ssq.cwt, dict(x=x, wavelet='gmw', scales='log'),
                 x_bad + tb + scl_bad + nv_bad + wav_bad + pad_bad + [
                     ('L2', dict(wavelet=gmwL2, l1_norm=True)),
                     ('L1', dict(wavelet=gmwL1, l1_norm=False)),
                     ('order', dict(order=-1)), ('order', dict(order=.5)),
                     ('order', dict(order=(0, -1))),
                     ('GMW', dict(wavelet='morlet', order=1)),
                     ('GMW', dict(wavelet='bump', order=(0, 1)))],
                 tg + scl_good + wav_good + pad_good + [
                     dict(x=np.stack([x, x])), dict(wavelet=gmwL2, l1_norm=False),
                     dict(padtype=None), dict(wavelet=gmwL1), dict(scales=s, nv=nv + 1),
                     dict(order=0), dict(order=2), dict(order=(0, 1)),
                     dict(x=x.astype('float32')), dict(nan_checks=True)]))
    sq_bad = [('squeezing', dict(squeezing=v)) for v in ('foo', '', 'Sum', 5, None)]
    sq_good = [dict(squeezing=v) for v in ('sum', 'lebesgue', 'abs', lambda Wx: Wx * 2)]
    mr_bad = [('maprange', dict(maprange=v, scales='log')) for v in (
        'foo', 'Peak', 5, ('a', 'b'), (.3 * fs, .1 * fs),
        (0, .4 * fs), (-.1 * fs, .4 * fs))]
    mr_bad += [('maprange', dict(maprange='maximal', scales='log-piecewise'))]
    mr_good = [dict(maprange=v, scales='log') for v in (
        'peak', 'maximal', (.05 * fs, .4 * fs), [.05 * fs, .4 * fs])]
    f = np.linspace(.05, .45, 30) * fs
    out.append(E('ssq_cwt', ssq.ssq_cwt, dict(x=x, wavelet='gmw', scales='log', fs=fs),
                 x_bad[:1] + [('', x_bad[2][1])] + tb + scl_bad + nv_bad + wav_bad +
                 pad_bad + sq_bad + mr_bad + [
                     ('difftype', dict(difftype='foo')),
                     ('difftype', dict(difftype='phase', get_w=False)),
                     ('difftype', dict(difftype='numeric', get_w=False)),
                     ('difforder', dict(difftype='numeric', difforder=3, get_w=True)),
                     ('difforder', dict(difftype='numeric', difforder=-1, get_w=True)),
                     ('get_w', dict(x=np.stack([x, x]), get_w=True)),
                     ('', dict(ssq_freqs=np.r_[f[:-1], np.nan])),
                     ('scale', dict(ssq_freqs=rng.permutation(f))),
                     ('order', dict(order=-1))],
                 tg + scl_good + wav_good + pad_good + sq_good + mr_good + [
                     dict(difftype='trig'), dict(difftype='phase', get_w=True),
                     dict(difftype='numeric', get_w=True, difforder=2),
                     dict(difftype='numeric', get_w=True, difforder=4),
                     dict(x=np.stack([x, x])), dict(get_w=True), dict(ssq_freqs=f),
                     dict(ssq_freqs='log'), dict(ssq_freqs='linear'), dict(order=1)]))
    n_fft = int(rng.integers(24, 50))
    win = np.hanning(n_fft + 2)[1:-1]
    st_bad = [('win_len', dict(win_len=n_fft + 1)), ('win_len', dict(win_len=2 * n_fft)),
              ('window', dict(window=5)), ('window', dict(window=list(win))),
              ('indow', dict(window='foo'))]
    st_good = [dict(win_len=n_fft), dict(win_len=n_fft - 3), dict(window=win),
               dict(window='hann'), dict(window='hamming'), dict(window=None)]
    dt_bad = [('dtype', dict(dtype=v)) for v in ('float16', 'foo', 'int32', 'complex64')]
    dt_good = [dict(dtype=v) for v in ('float32', 'float64')]
    for nm, fn in (('stft', ssq.stft), ('ssq_stft', ssq.ssq_stft)):
        b, g = list(sq_bad), list(sq_good)
        if nm == 'stft':
            b, g = [], [dict(derivative=True)]
        else:
            b += [('get_w', dict(x=np.stack([x, x]), get_w=True)),
                  ('ssq_freqs', dict(ssq_freqs=np.geomspace(.01, .4, 20) * fs)),
                  ('', dict(ssq_freqs=np.r_[f[:-1], np.inf]))]
            g += [dict(get_w=True), dict(ssq_freqs=f), dict(ssq_freqs='linear')]
        out.append(E(nm, fn, dict(x=x, n_fft=n_fft),
                     [('', dict(x=x3))] + tb + pad_bad + st_bad + dt_bad + b,
                     tg + pad_good + st_good + dt_good + g + [dict(x=np.stack([x, x]))]))
    Sx = ssq.stft(x, win, n_fft=n_fft)
    out.append(E('istft', ssq.istft, dict(Sx=Sx, window=win, n_fft=n_fft, N=N),
                 st_bad[:2] + st_bad[2:3] + st_bad[4:],
                 [dict(window=win), dict(N=N), dict(N=None), dict(n_fft=n_fft)]))
    Tx = ssq.ssq_stft(x, win, n_fft=n_fft)[0]
    out.append(E('issq_stft', ssq.issq_stft, dict(Tx=Tx, window=win, n_fft=n_fft),
                 st_bad[:2] + st_bad[2:3] + st_bad[4:] + [
                     ('modulated', dict(modulated=False)), ('hop_len', dict(hop_len=2))],
                 [dict(window=win), dict(modulated=True), dict(hop_len=1)]))
    Wx = ssq.cwt(x, 'gmw', scales=s)[0]
    W2 = np.stack([Wx, Wx])
    L2 = ssq.cwt(x, gmwL2, scales=s, l1_norm=False)[0]
    out.append(E('icwt', ssq.icwt, dict(Wx=Wx, wavelet='gmw', scales=s),
                 wav_bad + scl_bad + [
                     ('', dict(scales=s[:-1])), ('', dict(Wx=Wx[:-1])),
                     ('one_int', dict(Wx=W2, one_int=False)),
                     ('L2', dict(wavelet=gmwL2)),
                     ('L1', dict(wavelet=gmwL1, l1_norm=False))],
                 [dict(scales=s), dict(Wx=W2), dict(one_int=False), dict(wavelet=gmwL1),
                  dict(Wx=L2, wavelet=gmwL2, l1_norm=False), dict(x_len=N)]))
    w = np.abs(rng.standard_normal(Wx.shape)) * .2 * fs
    neg = w.copy(); neg[3, 3] = -1.
    sqb = dict(Wx=Wx, w=w, ssq_freqs=f, scales=s, fs=fs, wavelet='gmw')
    out.append(E('ssqueeze', ssqueezing.ssqueeze, sqb,
                 sq_bad + tb + [
                     ('w', dict(w=neg)), ('w', dict(w=None)),
                     ('w', dict(w=None, dWx=Wx)), ('w', dict(w=None, gamma=.1)),
                     ('scales', dict(scales=None)), ('transform', dict(transform='foo')),
                     ('', dict(ssq_freqs=np.r_[f[:-1], np.nan])),
                     ('maprange', dict(maprange='foo')), ('maprange', dict(maprange=5)),
                     ('wavelet', dict(wavelet=None, ssq_freqs=None, maprange='peak'))],
                 sq_good + tg[:1] + tg[3:] + [
                     dict(w=None, dWx=Wx, gamma=.1), dict(ssq_freqs=None),
                     dict(maprange='maximal', ssq_freqs=None),
                     dict(ssq_freqs=f[::-1].copy())]))
    out.append(E('Wavelet', lambda wavelet, **kw: Wavelet(wavelet, **kw)(w=np.arange(3.)),
                 dict(wavelet='gmw'),
                 wav_bad + [('dtype', dict(dtype='float16')), ('dtype', dict(dtype='foo')),
                            ('dtype', dict(dtype=5))],
                 wav_good[:8] + wav_good[9:] + [dict(dtype='float32'), dict(dtype='float64'),
                             dict(dtype=np.float64), dict(dtype=None), dict(N=64)]))
    g_bad = [(k, {k: v}) for k, v in (
        ('gamma', 0), ('gamma', -1.), ('beta', -2), ('norm', 'foo'), ('order', -1),
        ('order', 2.5))]
    g_good = [{k: v} for k, v in (('gamma', .5), ('gamma', 3), ('beta', 2.), ('beta', 1),
                                  ('norm', 'energy'), ('norm', 'bandpass'), ('order', 0),
                                  ('order', 2), ('order', 2.))]
    out.append(E('gmw', lambda **kw: _gmw.gmw(**kw)(np.arange(1., 9)), dict(), g_bad + [
        ('float32', dict(norm='energy', dtype='float32'))],
        g_good + [dict(norm='energy', dtype='float64'), dict(dtype='float32')]))
    out.append(E('compute_gmw', _gmw.compute_gmw, dict(N=64, scale=5.), g_bad + [
        ('scale', dict(scale=0)), ('scale', dict(scale=-2.))],
        g_good + [dict(scale=1), dict(scale=3.5), dict(time=True)]))
    out.append(E('process_scales', cwt_utils.process_scales,
                 dict(scales='log', N=N, wavelet=gmwL1),
                 scl_bad + nv_bad + [('wavelet', dict(wavelet=None)),
                                     ('nv', dict(scales=s, nv=nv + 1))],
                 scl_good + [dict(scales=s, wavelet=None), dict(get_params=True)]))
    out.append(E('cwt_scalebounds', cwt_utils.cwt_scalebounds,
                 dict(wavelet=gmwL1, N=N),
                 [('preset', dict(preset='foo')), ('preset', dict(preset='Maximal')),
                  ('cutoff', dict(min_cutoff=0)), ('cutoff', dict(min_cutoff=-1)),
                  ('cutoff', dict(min_cutoff=.6, max_cutoff=.5))],
                 [dict(preset=v) for v in ('maximal', 'minimal', 'naive', None)] +
                 [dict(min_cutoff=.5, max_cutoff=.8)]))
    out.append(E('infer_scaletype', cwt_utils.infer_scaletype, dict(scales=s),
                 [('scale', dict(scales=v)) for v in (
                     rng.permutation(s), np.r_[1., 2., 3., 4.5, 9., 9.5, 11., 30.])] +
                 [('dtype', dict(scales=v)) for v in (
                     np.arange(1, 20), s.astype('complex128'), s.astype('float16'))],
                 [dict(scales=v) for v in (s, s.astype('float32'), np.arange(1., 30))]))
    out.append(E('center_frequency', wavelets.center_frequency,
                 dict(wavelet=gmwL1, scale=10, N=256),
                 [('kind', dict(kind='foo')), ('kind', dict(kind=''))],
                 [dict(kind=v) for v in ('energy', 'peak', 'peak-ct')]))
    for nm, fn in (('fft', fft), ('rfft', rfft)):
        out.append(E(nm, fn, dict(x=x),
                     [('', dict(axis=2)), ('', dict(axis=-2)),
                        ('patience', dict(patience=3)), ('patience', dict(patience='a')),
                        ('patience', dict(patience=-1))]
                     + ([('', dict(x=x + 0j))] if nm == 'rfft' else []),
                     [dict(x=x.astype('float32')), dict(axis=0), dict(axis=-1)]
                     + ([dict(x=x + 0j)] if nm == 'fft' else [])))
    out.append(E('padsignal', ucommon.padsignal, dict(x=x),
                 x_bad[:2] + pad_bad,
                 pad_good + [dict(x=np.stack([x, x])), dict(padlength=2 * N)]))
    out.append(E('cwt_higher_order', ssq._cwt.cwt_higher_order,
                 dict(x=x, wavelet='gmw', order=1),
                 [('order', dict(order=-1)), ('order', dict(order=(0, -2))),
                  ('order', dict(order=.5)), ('GMW', dict(wavelet='morlet'))],
                 [dict(order=2), dict(order=(0, 1)), dict(order=range(2))]))
    out.append(E('window_area', stft_utils.window_area, dict(window=win),
                 [('', dict(time=False, frequency=False))],
                 [dict(), dict(frequency=True), dict(time=False, frequency=True)]))
    out.append(E('window_resolution', stft_utils.window_resolution, dict(window=win),
                 [('window', dict(window=win - .5))], [dict()]))
    return out


def snap(v):
    if isinstance(v, np.ndarray):
        return v.shape, str(v.dtype), v.strides, v.tobytes()
    if isinstance(v, (list, tuple)):
        return type(v).__name__, tuple(snap(e) for e in v)
    if isinstance(v, dict):
        return tuple(sorted((k, snap(e)) for k, e in v.items()))
    if type(v).__name__ == 'Wavelet':
        return tuple(sorted((k, snap(e)) for k, e in vars(v).items()
                            if isinstance(e, (np.ndarray, list, tuple, dict, str, int,
                                              float, type(None)))))
    return repr(v)


def world():
    import os
    from ssqueezepy import configs
    from ssqueezepy.utils.fft_utils import FFT_GLOBAL
    return (snap(configs.gdefaults.__kwdefaults__ if False else
                 {k: v for k, v in vars(configs).items() if isinstance(v, dict)
                  and not k.startswith('__')}),
            FFT_GLOBAL.patience, FFT_GLOBAL.threads,
            {k: v for k, v in os.environ.items() if k.startswith('SSQ')},
            str(np.geterr()))


def flat(o):
    if isinstance(o, (list, tuple)):
        for e in o:
            yield from flat(e)
    elif isinstance(o, np.ndarray):
        yield o


def run(ctx):
    for i, rng in ctx.cases('catalogue', 6, 150, min_cases=1):
        for e in catalogue(rng):
            before = None
            with ctx.run(fn=e.name):
                before = list(flat(e.fn(**e.base)))
            if before is None:   # reported above, or at a documented limit
                continue
            for kw in e.good:
                with ctx.run(fn=e.name, valid=str({k: _s(v) for k, v in kw.items()})):
                    e.fn(**{**e.base, **kw})
                    ctx.event('valid neighbour accepted')
            for needle, kw in e.bad:
                args = {**e.base, **kw}
                st, wd = snap(args), world()
                with ctx.run(fn=e.name, invalid=str({k: _s(v) for k, v in kw.items()})):
                    try:
                        r = e.fn(**args)
                    except Exception as err:
                        ctx.event('refused')
                        ctx.check(needle.lower() in str(err).lower() or
                                  needle.lower() in type(err).__name__.lower(),
                                  'names the argument', f'{needle!r} not in '
                                  f'{type(err).__name__}: {str(err)[:120]}')
                    else:
                        ctx.violation('invalid accepted', e.name)
                    ctx.check(snap(args) == st, 'nothing changed', 'arguments')
                    ctx.check(world() == wd, 'nothing changed', 'global state')
            with ctx.run(fn=e.name, again=1):
                after = list(flat(e.fn(**e.base)))
                ctx.check(len(before) == len(after) and all(
                    a.dtype == b.dtype and np.array_equal(a, b, equal_nan=True)
                    for a, b in zip(before, after)), 'same result after refusals')


def _s(v):
    if isinstance(v, np.ndarray) and v.size > 6:
        return f'{v.dtype}{v.shape} {v.ravel()[:3]}..'
    return str(v)[:80]
