"""Purity and history independence: each call of a random history over shared objects is
compared with the same call made alone, on fresh objects, in a fresh process (a fork of
one which has only imported the package); shared objects are re-verified after every
call, including calls that fail on their own and calls made to fail by injected faults.
"""
import copy, os, pickle, sys, time, traceback
import numpy as np
from rt import gen, kernels

MODES = {'main': {'env': {'SSQ_PARALLEL': '0', 'NUMBA_DISABLE_JIT': '1',
                          'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1'}}}
SHARDS = {'quick': 6, 'thorough': 8}
BUDGET = {'quick': 30, 'thorough': 420}
REQUIRE = {'history call = pristine call': 150, 'shared objects unchanged': 250,
           'failing calls': 30, 'injected faults': 8, 'globals unchanged': 250,
           'repeated call': 15, 'result for edited arguments': 80,
           'result after editing results': 80, 'earlier results kept': 60}
RULE = ('random histories of ~12 calls over shared wavelets, arrays, option dicts, '
        'windows and scales; counted per call compared with its pristine counterpart')
ASSUMPTIONS = ['documented in-place functions (replace_*, zero_denormals, '
               'preserve_transform=False), the documented caches of Psih() without '
               'arguments and of time-frequency properties with respect to N, and '
               "NumPy's global generator aren't part of the property"]


class Injected(MemoryError):
    pass


FAULT = {'left': None, 'fired': False}


def tick():
    if FAULT['left'] is not None:
        FAULT['left'] -= 1
        if FAULT['left'] < 0:
            FAULT['left'] = None
            FAULT['fired'] = True
            raise Injected('injected')


def before_import(mode):
    kernels.install('record')
    call = kernels.Recorded.__call__

    def faulty(self, *a, **k):
        if any(getattr(u, 'ndim', 0) >= 2 for u in a):
            tick()
        return call(self, *a, **k)
    kernels.Recorded.__call__ = faulty
    import scipy.fft

    def wrap(f):
        def g(*a, **k):
            tick()
            return f(*a, **k)
        g.__name__ = f.__name__
        return g
    for n in ('fft', 'ifft', 'rfft', 'irfft'):
        setattr(scipy.fft, n, wrap(getattr(scipy.fft, n)))


# ---- objects shared by a history's calls ----------------------------------------
def make_objects(seed):
    """Same objects for same `seed`."""
    from rt import lib
    from rt.lib import ssq
    rng = np.random.default_rng(seed)
    o = {}
    N = int(rng.integers(40, 110))
    N2 = int(rng.integers(40, 110))
    o['x0'] = rng.standard_normal(N)
    o['x1'] = rng.standard_normal(N).astype('float32')
    o['x2'] = rng.standard_normal((2, N))
    o['x3'] = rng.standard_normal(N2)
    xn = rng.standard_normal(N)
    xn[rng.integers(0, N, 3)] = [np.nan, np.inf, -np.inf]
    o['xnan'] = xn
    o['xint'] = rng.integers(-9, 9, N)
    o['xs'] = np.asfortranarray(rng.standard_normal((2, N)))[:, ::1]
    for i, (name, opts) in enumerate([('gmw', {}), gen.wavelet(rng), gen.wavelet(rng),
                                      ('gmw', {'norm': 'energy'})]):
        opts = dict(opts)
        if rng.random() < .5 and opts.get('norm') != 'energy':
            opts['dtype'] = gen.choice(rng, ['float64', 'float32'])
        o[f'opts{i}'] = opts
        o[f'tup{i}'] = (name, opts)
        o[f'wav{i}'] = ssq.Wavelet((name, dict(opts)),
                                   N=int(gen.choice(rng, [64, 1024, 100])))
    o['custom'] = ssq.Wavelet(lib.custom_fn)
    o['scales_log'] = 2**(np.arange(3, 3 + int(rng.integers(14, 34))) / 8.)
    o['scales_lin'] = np.arange(2., 2 + int(rng.integers(8, 30)))
    o['scales_2d'] = o['scales_log'].reshape(-1, 1).astype('float32')
    o['t0'] = np.arange(N) / gen.choice(rng, [1., 10.])
    nf = int(rng.integers(12, 36))
    o['win'] = np.hanning(nf + 2)[1:-1]
    o['win32'] = np.hanning(nf + 2)[1:-1].astype('float32')
    o['win'][1] = 1e-310
    o['freqs_lin'] = np.linspace(.01, .45, int(rng.integers(8, 30)))
    o['freqs_log'] = 2**np.linspace(-7, -1.2, int(rng.integers(8, 30)))
    o['orders'] = [0, 1]
    o['Wc'] = (rng.standard_normal((20, 50)) + 1j*rng.standard_normal((20, 50)))
    o['dWc'] = (rng.standard_normal((20, 50)) + 1j*rng.standard_normal((20, 50)))
    o['wc'] = 2**rng.uniform(-8, -1, (20, 50))
    o['wc'][rng.random((20, 50)) < .1] = np.inf
    o['sc20'] = 2**(np.arange(2, 22) / 8.)
    o['W3'] = rng.standard_normal((2, 20, 50)) + 0j
    o['cc'] = rng.integers(2, 18, (50, 2)).astype('float64')
    o['cw'] = np.full((50, 2), 1.)
    o['cc1'] = rng.integers(-1, 18, 50)
    o['cw1'] = np.full(50, 2)
    o['Sx'] = ssq.stft(o['x0'], n_fft=nf, window=o['win'].copy(), dtype='float64')
    o['maprange'] = [.02, .4]
    o['tslist'] = ['lchirp', 'echirp', 'am-cosine']
    o['tsdict'] = [('lchirp', dict(tmax=1, fmax=20)), '#echirp']
    o['fft'] = ssq.FFT(wisdom_dir=os.environ['SSQV_TMP'], cache_fft_objects=True,
                       threads=1, verbose=0)
    o['snr_args'] = dict(fmin=2, fmax=10)
    o['_nf'], o['_N'] = nf, N
    return o


def pick_call(rng, theme=None):
    """`(description, fn(objects, ssq))`, deterministic given `rng`."""
    from rt.lib import ssq
    from ssqueezepy import algos, utils, wavelets as wv, experimental, toolkit
    k = int(rng.integers(0, 100))
    xk = gen.choice(rng, ['x0', 'x0', 'x1', 'x2', 'x3', 'xnan', 'xint', 'xs'])
    wk = gen.choice(rng, ['wav0', 'wav0', 'wav1', 'wav1', 'wav2', 'wav2', 'wav3', 'tup1',
                          'tup2', 'tup0', 'custom', 'str', 'str'])
    sk = gen.choice(rng, ['scales_log', 'scales_log', 'scales_lin', 'scales_2d'])
    if theme:       # dwells on one wavelet instance
        if rng.random() < .75:
            k = int(gen.choice(rng, [5, 5, 5, 25, 70, 70, 70, 95, 95]))
            wk, sk = theme, gen.choice(rng, ['scales_log', 'scales_2d'])
            xk = gen.choice(rng, ['x0', 'x0', 'x3'])
    W = lambda o: ('gmw' if wk == 'str' else o[wk])
    pad = gen.choice(rng, ['reflect', 'reflect', 'zero', 'wrap', 'symmetric', None])
    cw = gen.choice(rng, [None, True, False])
    vec = bool(rng.random() < .75)
    fs = gen.choice(rng, [None, 2., 100])
    flip = bool(rng.random() < .5)
    order = gen.choice(rng, [0] * 7 + [1, (0, 1), 'list'])
    if order != 0 and wk not in ('wav0', 'tup0', 'str'):
        order = 0
    ordf = lambda o: o['orders'] if order == 'list' else order
    der = bool(rng.random() < .5)
    usét = bool(rng.random() < .2) and xk in ('x0', 'x1', 'x2', 'xnan', 'xint', 'xs')
    tkw = lambda o: dict(t=o['t0']) if usét else dict(fs=fs)
    d = dict(x=xk, wavelet=wk, scales=sk, padtype=pad, cache=cw, vec=vec, fs=fs,
             order=order, der=der, t=usét)
    if k < 22:
        l1 = wk not in ('wav3', ) and not (wk == 'tup0' and rng.random() < .2)
        d.update(fn='cwt', l1=l1)
        rp = bool(rng.random() < .2)
        pat = gen.choice(rng, [0, 0, (0, 5)])
        return d, lambda o, s: s.cwt(o[xk], W(o), scales=o[sk], l1_norm=l1,
                                     derivative=der, patience=pat, padtype=pad, rpadded=rp,
                                     vectorized=vec, cache_wavelet=cw, order=ordf(o),
                                     **tkw(o))
    if k < 34:
        if xk in ('x2', 'xs'):
            gw = False
        else:
            gw = bool(rng.random() < .4)
        sq = gen.choice(rng, ['sum', 'lebesgue', 'abs', 'fn'])
        sq_ = (lambda W: W.real + 0j) if sq == 'fn' else sq
        fk = gen.choice(rng, [None, None, 'freqs_lin', 'freqs_log', 'linear', 'log'])
        mr = gen.choice(rng, ['peak', 'maximal', 'energy', 'maprange'])
        dt = gen.choice(rng, ['trig', 'trig', 'trig', 'numeric', 'phase']) \
            if gw and order == 0 and pad is not None else 'trig'
        if wk in ('wav3', 'custom'):
            return pick_call(rng, theme)
        d.update(fn='ssq_cwt', sq=sq, ssq_freqs=fk, maprange=mr, get_w=gw, difftype=dt)
        return d, lambda o, s: s.ssq_cwt(
            o[xk], W(o), scales=o[sk], squeezing=sq_, padtype=pad, vectorized=vec,
            ssq_freqs=o[fk] if fk and fk.startswith('freqs') else fk, order=ordf(o),
            maprange=o['maprange'] if mr == 'maprange' else mr, get_w=gw, difftype=dt,
            flipud=flip, cache_wavelet=cw, get_dWx=der, **tkw(o))
    if k < 46:
        win = gen.choice(rng, ['win', 'win32', None, 'hann'])
        fn = gen.choice(rng, ['stft', 'ssq_stft', 'ssq_stft'])
        dtp = gen.choice(rng, [None, 'float64', 'float32'])
        hop = 1 if fn == 'ssq_stft' else int(rng.integers(1, 4))
        mod = bool(rng.random() < .7)
        fk = gen.choice(rng, [None, 'freqs_lin']) if fn == 'ssq_stft' else None
        d.update(fn=fn, window=win, dtype=dtp, hop=hop)
        pad2 = pad or 'reflect'

        def f(o, s):
            kw = dict(window=o[win] if win and win.startswith('win') else win,
                      n_fft=o['_nf'], hop_len=hop, dtype=dtp, modulated=mod,
                      padtype=pad2, **tkw(o))
            if fn == 'stft':
                return s.stft(o[xk], derivative=der, **kw)
            return s.ssq_stft(o[xk], ssq_freqs=o[fk] if fk else None, flipud=flip,
                              get_dWx=der, **kw)
        return d, f
    if k < 52:
        which = gen.choice(rng, ['istft', 'issq_cwt', 'issq_cwt cc', 'issq_stft',
                                 'issq_stft cc', 'icwt', 'icwt2', 'icwt3'])
        d.update(fn=which)
        wk2 = wk if wk != 'wav3' else 'wav1'
        W2 = lambda o: 'gmw' if wk2 == 'str' else o[wk2]
        f = {
            'istft': lambda o, s: s.istft(o['Sx'], window=o['win'], n_fft=o['_nf']),
            'issq_cwt': lambda o, s: s.issq_cwt(o['Wc'], W2(o)),
            'issq_cwt cc': lambda o, s: s.issq_cwt(o['Wc'], W2(o), o['cc'], o['cw']),
            'issq_stft': lambda o, s: s.issq_stft(o['Sx'], window=o['win'],
                                                  n_fft=o['_nf']),
            'issq_stft cc': lambda o, s: s.issq_stft(o['Wc'], None, o['cc1'], o['cw1']),
            'icwt': lambda o, s: s.icwt(o['Wc'], W2(o), o['sc20'], x_mean=.5),
            'icwt2': lambda o, s: s.icwt(o['Wc'], W2(o), o['sc20'], one_int=False),
            'icwt3': lambda o, s: s.icwt(o['W3'], W2(o), o['sc20']),
        }[which]
        return d, f
    if k < 62:
        which = gen.choice(rng, ['ridges', 'ridges', 'ssqueeze w', 'ssqueeze dWx',
                                 'phase_cwt', 'phase_cwt phase', 'phase_cwt_num',
                                 'phase_stft', 'phase_ssqueeze', 'freq_to_scale',
                                 'scale_to_freq'])
        d.update(fn=which)
        g = gen.choice(rng, [None, .3])
        nr = int(rng.integers(1, 3))
        f = {
            'ridges': lambda o, s: s.extract_ridges(o['Wc'], o['sc20'], n_ridges=nr,
                                                    bw=2, get_params=der,
                                                    parallel=False),
            'ssqueeze w': lambda o, s: s.ssqueeze(o['Wc'], o['wc'], 'log', o['sc20'],
                                                  fs=1., maprange='maximal',
                                                  transform='cwt', flipud=flip,
                                                  gamma=g),
            'ssqueeze dWx': lambda o, s: s.ssqueeze(o['Wc'], None, o['freqs_log'],
                                                    o['sc20'], fs=1., dWx=o['dWc'],
                                                    transform='cwt', maprange='maximal',
                                                    gamma=g or 1e-8),
            'phase_cwt': lambda o, s: s.phase_cwt(o['Wc'], o['dWc'], gamma=g),
            'phase_cwt phase': lambda o, s: s.phase_cwt(o['Wc'], None, 'phase', gamma=g),
            'phase_cwt_num': lambda o, s: s.phase_cwt_num(o['Wc'], 1., gamma=g),
            'phase_stft': lambda o, s: s.phase_stft(o['Wc'], o['dWc'],
                                                    np.linspace(0, .5, 20), gamma=g),
            'phase_ssqueeze': lambda o, s: experimental.phase_ssqueeze(
                o['Wc'], o['dWc'], ssq_freqs=o['freqs_log'], scales=o['sc20'], fs=1.,
                transform='cwt', maprange='maximal'),
            'freq_to_scale': lambda o, s: experimental.freq_to_scale(
                o['freqs_log'], W(o), 128),
            'scale_to_freq': lambda o, s: experimental.scale_to_freq(
                o['scales_log'], W(o), o['_N'], fs=2.),
        }[which]
        return d, f
    if k < 76:
        wi = gen.choice(rng, ['wav0', 'wav1', 'wav2', 'wav3', 'custom'])
        wi = theme if theme and wk == theme else wi
        which = gen.choice(rng, ['call', 'call N', 'psifn', 'Psih', 'Psih N', 'xifn',
                                 'std', 'wc', 'center_frequency', 'time_resolution',
                                 'freq_resolution', 'moments', 'adm_ssq', 'adm_cwt',
                                 'make_scales', 'process_scales', 'desc'])
        if theme and rng.random() < .8:
            which = gen.choice(rng, ['Psih', 'Psih', 'Psih N', 'call', 'psifn'])
        d = dict(fn='wavelet ' + which, wavelet=wi)
        sc = float(rng.uniform(4, 10))
        nn = int(gen.choice(rng, [64, 65]))
        half = bool(rng.random() < .5)
        kind = gen.choice(rng, ['energy', 'peak'])
        f = {
            'call': lambda o, s: o[wi](scale=o[sk], nohalf=half),
            'call N': lambda o, s: o[wi](scale=sc, N=nn, nohalf=half),
            'psifn': lambda o, s: o[wi].psifn(scale=o[sk], N=nn),
            'Psih': lambda o, s: o[wi].Psih(scale=o[sk], nohalf=half).copy(),
            'Psih N': lambda o, s: o[wi].Psih(scale=o[sk], N=nn, nohalf=half).copy(),
            'xifn': lambda o, s: o[wi].xifn(o[sk], nn),
            'std': lambda o, s: (o[wi].std_t, o[wi].std_w, o[wi].harea),
            'wc': lambda o, s: (o[wi].wc, o[wi].wc_ct, o[wi].std_t_d, o[wi].std_w_d),
            'center_frequency': lambda o, s: wv.center_frequency(o[wi], sc, 256,
                                                                 kind=kind),
            'time_resolution': lambda o, s: wv.time_resolution(o[wi], sc, 256),
            'freq_resolution': lambda o, s: wv.freq_resolution(o[wi], sc, 256),
            'moments': lambda o, s: (wv.isinstance_by_name(o[wi], s.Wavelet)),
            'adm_ssq': lambda o, s: utils.adm_ssq(o[wi]),
            'adm_cwt': lambda o, s: utils.adm_cwt(o[wi]),
            'make_scales': lambda o, s: utils.make_scales(
                400, scaletype='log', nv=8, wavelet=o[wi]),
            'process_scales': lambda o, s: utils.process_scales(
                o[sk], 100, o[wi], get_params=True),
            'desc': lambda o, s: (o[wi].name, o[wi].config_str, o[wi]._desc()),
        }[which]
        if wi == 'custom' and which == 'desc':
            return pick_call(rng, theme)
        return d, f
    if k < 86:
        which = gen.choice(rng, ['padsignal', 'padsignal2', 'buffer', 'unbuffer',
                                 'window_norm', 'find_closest', 'find_closest_log',
                                 'isum', 'tests', 'tests2', 'chirp', 'noise', 'fft',
                                 'ifft', 'rfft', 'irfft', 'get_window', 'trigdiff',
                                 'gdefaults', 'infer', 'logidx', 'cos_f'])
        d = dict(fn=which, x=xk)
        if xk == 'xint' and which == 'trigdiff':
            xk = 'x0'
        i = int(rng.integers(0, 4))
        seed = int(rng.integers(0, 3))
        f = {
            'padsignal': lambda o, s: utils.padsignal(o[xk], pad or 'zero',
                                                      get_params=True),
            'padsignal2': lambda o, s: utils.padsignal(o[xk], pad or 'zero',
                                                       padlength=301),
            'buffer': lambda o, s: utils.buffer(o['x0'], 16, 12, der, parallel=False),
            'unbuffer': lambda o, s: utils.unbuffer(
                o['Wc'].real.copy(), np.hanning(20), 2, 20, 60, 1),
            'window_norm': lambda o, s: utils.window_norm(o['win'], 2, o['_nf'], 60),
            'find_closest': lambda o, s: algos.find_closest(o['wc'], o['freqs_lin'],
                                                            logscale=False,
                                                            parallel=False),
            'find_closest_log': lambda o, s: algos.find_closest(o['wc'], o['freqs_log'],
                                                                logscale=True,
                                                                parallel=False),
            'isum': lambda o, s: algos.indexed_sum(
                o['Wc'], np.arange(1000).reshape(20, 50) % 20, parallel=False),
            'tests': lambda o, s: s.TestSignals(64).make_signals(o['tslist'], N=64),
            'tests2': lambda o, s: s.TestSignals(64).make_signals(o['tsdict'], N=64),
            'chirp': lambda o, s: s.TestSignals(64).echirp(**o['snr_args']),
            'noise': lambda o, s: s.TestSignals(64, snr=3, seed=seed).lchirp(64),
            'fft': lambda o, s: o['fft'].fft(o['x0']),
            'ifft': lambda o, s: o['fft'].ifft(o['Wc'], axis=i % 2),
            'rfft': lambda o, s: o['fft'].rfft(o['x2'], axis=1),
            'irfft': lambda o, s: o['fft'].irfft(o['Wc'], axis=0),
            'get_window': lambda o, s: s.get_window(o['win'], len(o['win']),
                                                    len(o['win']) + 3, derivative=True),
            'trigdiff': lambda o, s: utils.trigdiff(o['Wc'], 2.),
            'gdefaults': lambda o, s: s.configs.gdefaults('_gmw.gmw', get_all=True,
                                                          gamma=None, beta=3.),
            'infer': lambda o, s: utils.infer_scaletype(o[sk]),
            'logidx': lambda o, s: utils.logscale_transition_idx(o['scales_log']),
            'cos_f': lambda o, s: s._test_signals.TestSignals(64).par_lchirp(64),
        }[which]
        return d, f
    # calls which fail on their own
    which = gen.choice(rng, [
        '3d', 'list', 'nv', 'padtype', 'maprange', 'squeezing', 'difftype', 'norm', 'fs',
        'win', 'scales', 't', 'Psih2d', 'icwt len', 'wavelet', 'order', 'nan', 'hop',
        'dtype', 'ssqfreqs', 'custom raising', 'patience', 'opts', 'get_w2d', 'scales0'])
    d = dict(fn='fail ' + which, x=xk, wavelet=wk, scales=sk)

    if theme and rng.random() < .5:
        which = 'Psih2d'
    d['fn'] = 'fail ' + which

    def boom(w):
        raise Injected('wavelet')
    f = {
        '3d': lambda o, s: s.cwt(o['W3'], W(o)),
        'list': lambda o, s: s.cwt([1., 2.], W(o)),
        'nv': lambda o, s: s.cwt(o[xk], W(o), scales='log', nv=-3),
        'padtype': lambda o, s: s.cwt(o[xk], W(o), o[sk], padtype='bad'),
        'maprange': lambda o, s: s.ssq_cwt(o[xk], W(o), o[sk], maprange='bad'),
        'squeezing': lambda o, s: s.ssq_cwt(o[xk], W(o), o[sk], squeezing='bad'),
        'difftype': lambda o, s: s.ssq_cwt(o[xk], W(o), o[sk], difftype='bad'),
        'norm': lambda o, s: s.cwt(o[xk], o['wav3'], o[sk], l1_norm=True),
        'fs': lambda o, s: s.cwt(o[xk], W(o), o[sk], fs=-1),
        'win': lambda o, s: s.stft(o['x0'], o['win'], n_fft=len(o['win']) - 2),
        'scales': lambda o, s: s.cwt(o[xk], W(o), scales='bad'),
        't': lambda o, s: s.cwt(o[xk], W(o), o[sk], t=o['t0'][:-3]),
        'Psih2d': lambda o, s: o[theme or 'wav1'].Psih(scale=np.ones((3, 2))),
        'icwt len': lambda o, s: s.icwt(o['Wc'], 'gmw', o['sc20'][:-2]),
        'wavelet': lambda o, s: s.cwt(o[xk], ('morlet', dict(bad=3)), o[sk]),
        'order': lambda o, s: s.cwt(o[xk], 'morlet', o[sk], order=(0, 1)),
        'nan': lambda o, s: s.cwt(o[xk], W(o), o[sk], order=-1, nan_checks='x',
                                  padtype=5),
        'hop': lambda o, s: s.issq_stft(o['Sx'], hop_len=2),
        'dtype': lambda o, s: s.Wavelet(o['tup1'], dtype='float16'),
        'ssqfreqs': lambda o, s: s.ssq_stft(o['x0'], ssq_freqs=o['freqs_log'],
                                            n_fft=o['_nf']),
        'custom raising': lambda o, s: s.cwt(o[xk], boom, o[sk]),
        'patience': lambda o, s: s.cwt(o[xk], W(o), o[sk], patience=9),
        'opts': lambda o, s: s.Wavelet(('gmw', dict(o['opts0'], gamma=-1, beta=-2))),
        'get_w2d': lambda o, s: s.ssq_cwt(o['x2'], W(o), o[sk], get_w=True),
        'scales0': lambda o, s: s.cwt(o[xk], W(o), scales=np.array([3., 1., 2.])),
    }[which]
    return d, f


# ---- observation ------------------------------------------------------------------
def norm_result(v):
    if isinstance(v, (tuple, list)):
        return [norm_result(u) for u in v]
    if isinstance(v, dict):
        return {str(k): norm_result(u) for k, u in v.items()}
    if isinstance(v, (np.ndarray, np.generic)):
        return np.array(v)
    if isinstance(v, (int, float, complex, str, bool, type(None))):
        return v
    return repr(type(v))


def attempt(fn, o, ssq):
    try:
        return ('ok', norm_result(fn(o, ssq)))
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        return ('raised', type(e).__name__, str(e)[:200])


def snapshot(o):
    """Observable state of every shared object."""
    from rt.lib import ssq
    s = {}
    for k, v in o.items():
        s[k] = observe(v)
    return s


def observe(v):
    from ssqueezepy import Wavelet
    if isinstance(v, np.ndarray):
        return (str(v.dtype), v.shape, v.strides, v.tobytes())
    if isinstance(v, dict):
        return {k: observe(u) for k, u in v.items()}
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [observe(u) for u in v])
    if isinstance(v, Wavelet):
        d = dict(N=v.N, dtype=str(v.dtype), config=observe(dict(v.config)), fn=id(v.fn),
                 xi=np.asarray(v.xi).tobytes(),
                 psih=np.asarray(v(scale=7.)).tobytes(),
                 psihN=np.asarray(v(scale=5., N=48)).tobytes())
        return d
    if type(v).__name__ == 'FFT':
        return (v.patience, v.planning_timelimit, v.threads, str(v.wisdom_dir),
                v.cache_fft_objects)
    return repr(v)


def globals_state():
    from ssqueezepy.utils.fft_utils import FFT_GLOBAL as F
    return (F.patience, F.planning_timelimit, F.threads, F.cache_fft_objects,
            str(getattr(F, 'wisdom_dir', '')), dict(os.environ), np.geterr(), os.getcwd(),
            np.get_printoptions().get('precision'))


def same(a, b):
    if type(a) is not type(b):
        return f'{type(a).__name__} vs {type(b).__name__}'
    if isinstance(a, list):
        if len(a) != len(b):
            return f'{len(a)} vs {len(b)} outputs'
        for i, (u, v) in enumerate(zip(a, b)):
            r = same(u, v)
            if r:
                return f'output {i}: {r}'
        return ''
    if isinstance(a, dict):
        return same([a[k] for k in sorted(a)], [b[k] for k in sorted(b)]) \
            if sorted(a) == sorted(b) else 'keys'
    if isinstance(a, np.ndarray):
        if a.shape != b.shape or a.dtype != b.dtype:
            return f'{a.dtype}{a.shape} vs {b.dtype}{b.shape}'
        if a.dtype.kind not in 'fc':
            return '' if np.array_equal(a, b) else 'values differ'
        if np.array_equal(a, b, equal_nan=True):
            return ''
        with np.errstate(all='ignore'):
            fin = np.isfinite(a) & np.isfinite(b)
            m = np.abs(b[fin]).max() if fin.any() else 0
            bad = ~(fin | (a == b) | (np.isnan(a) & np.isnan(b)))
            tol = 1e-5 if a.dtype in (np.float32, np.complex64) else 1e-10
            if bad.any() or (np.abs(a - b)[fin] > tol * m).any():
                return 'values differ by %.3g of %.3g' % (
                    np.abs(a - b)[fin].max() if fin.any() else np.inf, m)
        return ''
    if isinstance(a, float):
        return '' if a == b or (a != a and b != b) or abs(a-b) < 1e-9*abs(b) else f'{a} vs {b}'
    return '' if a == b else f'{str(a)[:80]} vs {str(b)[:80]}'


def in_child(fn, timeout=200):
    """Result of `fn()` in a fork of this process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                data = pickle.dumps(('ok', fn()))
            except BaseException:
                data = pickle.dumps(('error', traceback.format_exc()[-2500:]))
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if not data:
        return ('died', st)
    return pickle.loads(data)


def run(ctx):
    import ssqueezepy as ssq
    L = 12

    def rng_of(seed, j):
        return np.random.default_rng([seed, j, 7])

    for i, rng in ctx.cases('history', 14, 400, min_cases=3):
        seed = int(rng.integers(1 << 30))
        theme = gen.choice(rng, [None, None, 'wav0', 'wav1', 'wav2'])
        calls = []
        for j in range(L):
            calls.append(j)
        # some calls recur, later in the history
        for _ in range(3):
            calls.insert(int(rng.integers(4, len(calls) + 1)),
                         calls[int(rng.integers(0, 4))])
        faults = {int(rng.integers(1, len(calls))): int(rng.integers(0, 5))
                  for _ in range(3)}

        def pristine(j):
            d, f = pick_call(rng_of(seed, j), theme)
            return attempt(f, make_objects(seed), ssq)

        def history():
            o = make_objects(seed)
            s0, g0 = snapshot(o), globals_state()
            out = []
            for n, j in enumerate(calls):
                d, f = pick_call(rng_of(seed, j), theme)
                FAULT.update(left=faults.get(n), fired=False)
                res = attempt(f, o, ssq)
                fired = FAULT['fired']
                FAULT.update(left=None, fired=False)
                s1, g1 = snapshot(o), globals_state()
                out.append((j, d, res, fired, [k for k in s0 if s0[k] != s1[k]],
                            [] if g0 == g1 else
                            [f'{u} -> {v}'[:200] for u, v in zip(g0, g1) if u != v]))
                s0, g0 = s1, g1
            return out

        with ctx.run(seed=seed, theme=theme, calls=calls, faults=faults):
            st, hist = in_child(history)
            assert st == 'ok', hist
            st, ref = in_child(lambda: 0)
            refs, seen, trail = {}, set(), []
            for j, d, res, fired, changed, gl in hist:
                name = d['fn']
                trail.append(name + ('!' if fired else ''))
                where = f'{d}, after {trail[:-1]}'
                ctx.check(not changed, 'shared objects unchanged',
                          f'{changed} modified by {where}')
                ctx.check(not gl, 'globals unchanged', f'{gl} by {where}')
                ctx.event('calls')
                ctx.event('call ' + name)
                if fired:
                    ctx.event('injected faults')
                    continue
                if j not in refs:
                    st, refs[j] = in_child(lambda: pristine(j))
                    assert st == 'ok', refs[j]
                if res[0] == 'raised':
                    ctx.event('failing calls')
                    if not name.startswith('fail'):
                        print(name, res, d)
                if j in seen:
                    ctx.event('repeated call')
                seen.add(j)
                r = refs[j]
                ctx.event('history call = pristine call')
                if res[0] != r[0]:
                    ctx.violation('history call = pristine call',
                                  f'{name}: {str(res)[:200]} but alone {str(r)[:200]}; '
                                  + where)
                elif res[0] == 'raised':
                    ctx.check(res[1:] == r[1:], 'same failure', f'{res} vs {r}, {where}')
                else:
                    m = same(res[1], r[1])
                    if m:
                        ctx.violation('history call = pristine call',
                                      f'{name}: {m}; {where}')

    edited_arguments(ctx)


def edited_arguments(ctx):
    """The caller's arrays change in place between two calls of one function on shared
    instances; results have to be those for the new contents, and results of the first
    call must stay as they were."""
    import ssqueezepy as ssq
    from ssqueezepy import wavelets as wv, utils, experimental
    from ssqueezepy.utils.fft_utils import FFT
    from rt import lib
    for i, rng in ctx.cases('edited', 40, 1500, min_cases=12):
        N = int(gen.choice(rng, [48, 64, 75]))
        name, opts = gen.wavelet(rng)
        opts.pop('centered_scale', None)
        dt = gen.choice(rng, ['float32', 'float64'])
        def wavelet():
            return ssq.Wavelet((name, {**opts, 'dtype': dt}), N=N)
        sdt = gen.choice(rng, [dt, 'float64', 'float32'])
        nv = int(gen.choice(rng, [4, 8]))
        def new(which):
            r = np.random.default_rng([i, which])
            s = (2**(np.arange(12 + 4*0, 40) / nv) * (1 if which == 0 else 2)
                 ).astype(sdt)
            if col:
                s = s.reshape(-1, 1)
            x = r.standard_normal((2, N) if two else N).astype(xdt)
            win = np.abs(r.standard_normal(16)) + .5
            t = np.arange(N) * (.5 if which == 0 else .25)
            W = r.standard_normal((20, N)) + 1j * r.standard_normal((20, N))
            q = np.linspace(.01, .4 if which == 0 else .5, 20)
            return dict(s=s, x=x, win=win, t=t, W=W, dW=W * (.3j + .1 * which), q=q)
        col, two = bool(rng.random() < .5), bool(rng.random() < .3)
        xdt = gen.choice(rng, ['float64', 'float32', 'int64'])
        which = gen.choice(rng, ['Psih', 'Psih', 'Psih nohalf', 'cwt', 'cwt', 'ssq_cwt',
                                 'stft', 'ssq_stft', 'icwt', 'issq', 'ridges', 'fft',
                                 'call', 'ssqueeze', 'cwt order', 'padsignal', 'buffer'])
        cw_, ve, pt, pa = (gen.choice(rng, [True, None]), bool(rng.random() < .8),
                           gen.choice(rng, ['reflect', 'zero', 'wrap', None]), .9)
        F = FFT(threads=1, verbose=0)
        def call(w, a):
            if which == 'Psih': return [w.Psih(scale=a['s'].reshape(-1, 1), N=N)]
            if which == 'Psih nohalf':
                return [w.Psih(scale=a['s'].reshape(-1, 1), N=N, nohalf=False)]
            if which == 'call': return [w(scale=a['s'])]
            if which == 'cwt':
                return list(ssq.cwt(a['x'], w, scales=a['s'], t=a['t'], derivative=True,
                                    cache_wavelet=cw_, vectorized=ve, padtype=pt))
            if which == 'cwt order':
                g = ssq.Wavelet(('gmw', {'dtype': dt}), N=N)
                return list(ssq.cwt(a['x'], g, scales=a['s'], order=1, padtype=pt))
            if which == 'ssq_cwt':
                return list(ssq.ssq_cwt(a['x'], w, scales=a['s'], t=a['t'], maprange=(.1, .9),
                                        ssq_freqs='linear', cache_wavelet=cw_, padtype=pt))
            if which == 'stft':
                return list(ssq.stft(a['x'], a['win'], n_fft=24, derivative=True,
                                     t=a['t'], dtype=dt))
            if which == 'ssq_stft':
                return list(ssq.ssq_stft(a['x'], a['win'], n_fft=24, t=a['t'], dtype=dt))
            if which == 'icwt':
                return [ssq.icwt(a['W'], w, scales=np.resize(a['s'].ravel(), 20).astype(
                    'float64') if 0 else a['s'].ravel()[:20].copy(), nv=None)]
            if which == 'issq': return [ssq.issq_cwt(a['W'], w)]
            if which == 'ridges':
                return list(ssq.extract_ridges(a['W'], a['s'].ravel()[:20], n_ridges=2,
                                               bw=2, get_params=True))
            if which == 'fft':
                return [F.fft(a['W']), F.ifft(a['W']), F.rfft(a['W'].real.copy())]
            if which == 'ssqueeze':
                from ssqueezepy.ssqueezing import ssqueeze
                return list(ssqueeze(a['W'], None, ssq_freqs=a['q'],
                                     scales=a['s'].ravel()[:20].copy(), dWx=a['dW'],
                                     gamma=1e-8, transform='cwt', squeezing=sq,
                                     wavelet=w))
            if which == 'padsignal': return [utils.padsignal(a['x'], pt or 'zero')]
            if which == 'buffer': return [utils.buffer(a['x'], 8, 5)]
        sq = gen.choice(rng, ['sum', 'abs', 'lebesgue'])
        with ctx.run(fn=which, wavelet=name, opts=opts, dtype=dt, scales=sdt, col=col,
                     x=xdt, padtype=pt, cache=cw_, vectorized=ve, sq=sq):
            A, B = new(0), new(1)
            ref = [np.array(v) for v in call(wavelet(), new(1))]
            w = wavelet()
            o1 = call(w, A)
            own = [k for k in A for v in o1 if np.shares_memory(A[k], v)]
            for k in A:
                A[k][...] = B[k]          # the caller edits its arrays
            keep = [np.array(v) for v in o1]
            o2 = call(w, A)
            if not which.startswith('Psih'):      # which returns its cache
                ctx.check(all(np.array_equal(u, v, equal_nan=True)
                              for u, v in zip(keep, o1)), 'earlier results kept',
                          f'{which} altered its earlier result')
            for k, (u, v) in enumerate(zip(o2, ref)):
                m = same([np.asarray(u)], [v])
                ctx.check(not m, 'result for edited arguments', f'{which}: {m}')
            # nor do the caller's edits of results matter
            for u in o2:
                if not any(np.shares_memory(u, A[k]) for k in A) and u.flags.writeable \
                        and not which.startswith('Psih'):
                    u[...] = 7
            o3 = call(w, A)
            for k, (u, v) in enumerate(zip(o3, ref)):
                m = same([np.asarray(u)], [v])
                ctx.check(not m, 'result after editing results', f'{which}: {m}')
            ctx.event('edited: ' + which)
