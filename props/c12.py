"""Memory safety of compiled kernels: bounds-checked builds, guard zones about every
array, and process-crash detection, under hostile inputs to all public functions."""
import numpy as np
from rt import gen, kernels

MODES = {'bounds': {'env': {'NUMBA_BOUNDSCHECK': '1', 'SSQ_PARALLEL': '0'}},
         'bounds-par': {'env': {'NUMBA_BOUNDSCHECK': '1', 'SSQ_PARALLEL': '1'}},
         'guard': {'env': {'SSQ_PARALLEL': '1'}, 'shards': {'quick': 0, 'thorough': 2}}}
SHARDS = {'quick': 1, 'thorough': 2}
BUDGET = {'quick': 45, 'thorough': 360}
REQUIRE = {'kernel calls': 600, 'arrays between guard zones': 1500, 'call: squeeze': 30,
           'call: cwt': 6, 'call: stft': 6, 'call: kernel': 30, 'call: ridges': 12,
           'call: inverse': 6, 'call: wavelet': 6}
RULE = ('random hostile call (function x kind of hostility x layout); counted if it '
        'reached a compiled kernel')
ASSUMPTIONS = ['index arguments of indexed_sum are in range (they are its contract)',
               'guard zones: at least the size of the array, on both sides']


def before_import(mode):
    kernels.install('guard')


def hostile(rng, shape, cdt='float64'):
    """Array with hostile content and layout."""
    kind = gen.choice(rng, ['nan', 'inf', '-inf', 'allnan', 'allinf', 'zeros', 'denormal',
                            'huge', 'mixed', 'one', 'constant', 'plain'])
    real = 'float64' if cdt in ('float64', 'complex128') else 'float32'
    fi = np.finfo(real)
    def part():
        x = rng.standard_normal(shape)
        m = rng.random(shape) < .2
        with np.errstate(all='ignore'):
            if kind == 'nan': x[m] = np.nan
            elif kind == 'inf': x[m] = np.inf
            elif kind == '-inf': x[m] = -np.inf
            elif kind == 'allnan': x[:] = np.nan
            elif kind == 'allinf': x[:] = np.inf
            elif kind == 'zeros': x[:] = 0
            elif kind == 'denormal': x = x * fi.tiny * .01
            elif kind == 'huge': x = np.sign(x) * fi.max * rng.random(shape)
            elif kind == 'mixed':
                for v in (np.nan, np.inf, -np.inf, 0., fi.max, -fi.max, fi.tiny / 8, -0.):
                    x[rng.random(shape) < .1] = v
            elif kind == 'one': x[:] = 0; x.flat[rng.integers(x.size)] = 1
            elif kind == 'constant': x[:] = 3.
        return x
    with np.errstate(all='ignore'):
        x = part()
        if 'complex' in cdt:
            x = x + 1j * (part() if rng.random() < .8 else 0)
        x = x.astype(cdt)
    lay = gen.choice(rng, ['C', 'C', 'strided', 'reversed', 'F', 'readonly', 'offset'])
    if lay == 'strided':
        y = np.zeros(x.shape[:-1] + (2 * x.shape[-1],), x.dtype)
        y[..., ::2] = x; x = y[..., ::2]
    elif lay == 'reversed':
        x = np.ascontiguousarray(x[..., ::-1])[..., ::-1]
    elif lay == 'F':
        x = np.asfortranarray(x)
    elif lay == 'readonly':
        x.flags.writeable = False
    elif lay == 'offset':
        y = np.zeros(x.shape[:-1] + (x.shape[-1] + 3,), x.dtype)
        y[..., 2:-1] = x; x = y[..., 2:-1]
    return x, kind + '/' + lay


def freqvec(rng, n, cdt):
    """Frequencies (mostly valid, some degenerate)."""
    from rt import sq
    kind = gen.choice(rng, ['linear', 'log', 'log-piecewise', 'log', 'log-piecewise',
                            'linear', 'narrow', 'wide', 'constant', 'descending',
                            'negative', 'zero first', 'nan', 'inf'])
    n = max(n, 12) if kind == 'log-piecewise' else max(n, 2)
    if kind in ('linear', 'log', 'log-piecewise'):
        v = sq.freqs(rng, n, kind)
    elif kind == 'narrow':
        v = 1 + 1e-6 * np.arange(n)
    elif kind == 'wide':
        v = 10. ** np.linspace(-30, 30, n)
    elif kind == 'constant':
        v = np.full(n, 2.)
    elif kind == 'descending':
        v = sq.freqs(rng, n, 'log')[::-1].copy()
    elif kind == 'negative':
        v = -1 - np.arange(n)[::-1].astype(float)
    elif kind in ('nan', 'inf'):
        v = sq.freqs(rng, n, 'linear')
        v[gen.choice(rng, [0, 1, n // 2, -1])] = float(kind)
    elif kind == 'zero first':
        v = np.linspace(0, 5, n)
    with np.errstate(all='ignore'):
        return v.astype(cdt), kind


def run(ctx):
    from rt import lib, sq
    from rt.lib import ssq
    from ssqueezepy import algos
    from ssqueezepy.utils import stft_utils
    L = kernels.LOG
    L.drain(ctx)

    def call(kind, fn, **desc):
        """Exceptions are allowed (inputs may be refused); corruption isn't."""
        n0 = sum(L.calls.values())
        with ctx.run(kind=kind, **desc):
            ctx.event('call: ' + kind)
            try:
                with np.errstate(all='ignore'):
                    out = fn()
            except Exception as e:
                ctx.event('refused: ' + type(e).__name__)
                out = None
            reached = sum(L.calls.values()) > n0
            L.drain(ctx)
            if not reached:
                ctx.evaluations -= 1
                from rt.core import HarnessSkip
                ctx.evaluations += 1
                raise HarnessSkip('no kernel reached')
            return out

    W = lambda: gen.choice(rng, ['gmw', 'morlet', 'bump', 'cmhat', 'hhhat'])
    for i, rng in ctx.cases('squeeze', 60, 3000, share=.35, min_cases=24):
        na, n = int(rng.integers(2, 50)), int(rng.integers(1, 40))
        cdt = gen.choice(rng, ['complex64', 'complex128'])
        fdt = 'float32' if cdt == 'complex64' else 'float64'
        Wx, k1 = hostile(rng, (na, n), cdt)
        route = gen.choice(rng, ['ssqueeze w', 'ssqueeze dWx', 'onfly', 'fast', 'stft'])
        v, vk = freqvec(rng, na, fdt)
        flip = bool(rng.random() < .5)
        gamma = gen.choice(rng, [None, 0., 1e-8, 1., np.inf])
        w, k2 = hostile(rng, (na, n), fdt)
        dWx, k3 = hostile(rng, (na, n), cdt)
        if rng.random() < .5:
            w = np.abs(w)
        if rng.random() < .3 and fdt == 'float64':
            w = sq.phases(rng, np.sort(np.abs(v)) + 1e-9, (na, n)).astype(fdt) \
                if len(v) > 2 else w
        const = gen.choice(rng, [1., np.ones(na, fdt), np.full((na, 1), .5, fdt)])
        par = gen.choice(rng, [None, True])
        log = bool(rng.random() < .7)
        if vk == 'wide' and rng.random() < .5:
            log = False
        if route == 'onfly':
            f = lambda: algos.indexed_sum_onfly(Wx, w, v, const, logscale=log, flipud=flip,
                                                parallel=par)
            if len(v) != na and True:
                f = lambda: algos.indexed_sum_onfly(
                    Wx, w, v, const, logscale=log, flipud=flip, parallel=par,
                    out=np.zeros((len(v), n), cdt))
        elif route == 'fast':
            f = lambda: algos.ssqueeze_fast(Wx, dWx, v, const, logscale=log, flipud=flip,
                                            gamma=gamma or 1e-8, parallel=par,
                                            out=np.zeros((len(v), n), cdt))
        elif route == 'stft':
            Sfs = np.linspace(0, .5, na).astype(fdt)
            f = lambda: ssq.ssqueeze(Wx, dWx=dWx, ssq_freqs=Sfs, Sfs=Sfs, gamma=gamma or 0,
                                     transform='stft', flipud=flip)
        else:
            s = sq.scales(rng, na, 'log') if na > 3 else np.array([1., 2., 3.])[:na]
            kw = dict(w=w) if route == 'ssqueeze w' else dict(dWx=dWx)
            f = lambda: ssq.ssqueeze(Wx, ssq_freqs=v, scales=s, gamma=gamma or 1e-8,
                                     transform='cwt', flipud=flip,
                                     squeezing=gen.choice(rng, ['sum', 'lebesgue', 'abs']),
                                     maprange='maximal', **kw)
        call('squeeze', f, route=route, na=na, n=n, cdt=cdt, Wx=k1, w=k2, dWx=k3, v=vk,
             nv=len(v), flip=flip, gamma=gamma, par=par, log=log)
    for i, rng in ctx.cases('transforms', 30, 1200, share=.6, min_cases=10):
        two = rng.random() < .25
        N = int(gen.choice(rng, [2, 3, 4, 5, 8, 9, 17, 33, 64, 100, 161, 200]))
        dt = gen.choice(rng, ['float64', 'float64', 'float32'])
        x, k = hostile(rng, (2, N) if two else (N,), dt)
        if rng.random() < .1:
            x, k = rng.integers(-3, 4, x.shape), 'int'
        d = gen.choice(rng, ['float32', 'float64'])
        nan_checks = gen.choice(rng, [None, True, False])
        if i % 3 < 2:
            wav = (W(), {'dtype': d})
            scales = gen.choice(rng, ['log-piecewise', 'log', 'linear']) \
                if rng.random() < .3 and N >= 100 else gen.scales_arr(rng, N)[0]
            if rng.random() < .15:
                scales = np.array([1e-3, 1., 50., 1e4, 1e6])[:int(rng.integers(2, 6))]
            pad = gen.choice(rng, ['reflect', 'zero', 'wrap', 'symmetric', None])
            if rng.random() < .6:
                f = lambda: ssq.ssq_cwt(x, wav, scales=scales, padtype=pad, maprange=mr,
                                        flipud=flip, nan_checks=nan_checks,
                                        ssq_freqs=sf, gamma=ga, get_w=gw)
            else:
                f = lambda: ssq.cwt(x, wav, scales=scales, padtype=pad, derivative=True,
                                    nan_checks=nan_checks)
            mr = gen.choice(rng, ['peak', 'maximal', 'energy', (.01, .4), (1e-9, 1e9),
                                  (.2, .1)])
            sf = gen.choice(rng, [None, None, 'log', 'linear'])
            ga = gen.choice(rng, [None, 0., 1e-3])
            gw = bool(rng.random() < .4)
            flip = bool(rng.random() < .5)
            call('cwt', f, N=N, x=k, wav=wav[0], d=d, scales=scales, pad=pad, mr=mr, sf=sf,
                 ga=ga, nan_checks=nan_checks, gw=gw)
        else:
            n_fft = int(gen.choice(rng, [1, 2, 3, 4, 5, 9, 16, 31, N, N + 1]))
            hop = int(gen.choice(rng, [1, 1, 2, 3, n_fft, n_fft + 2, N]))
            win = gen.choice(rng, ['hann', 'boxcar', 'array'])
            if win == 'array':
                win, _ = hostile(rng, (n_fft,), dt)
            mod = bool(rng.random() < .7)
            pad = gen.choice(rng, ['reflect', 'zero', 'wrap', 'symmetric'])
            if rng.random() < .5:
                f = lambda: ssq.ssq_stft(x, win, n_fft=n_fft, win_len=n_fft, dtype=d,
                                         padtype=pad, get_w=gw)
                gw = bool(rng.random() < .4)
            else:
                f = lambda: ssq.istft(ssq.stft(x, win, n_fft=n_fft, win_len=n_fft,
                                               hop_len=hop, dtype=d, padtype=pad,
                                               modulated=mod), win, n_fft=n_fft,
                                      win_len=n_fft, hop_len=hop, modulated=mod,
                                      N=gen.choice(rng, [None, N]))
            call('stft', f, N=N, x=k, n_fft=n_fft, hop=hop, win=str(win)[:8], d=d, pad=pad,
                 mod=mod)
    for i, rng in ctx.cases('inverses', 20, 600, share=.7, min_cases=8):
        na, n = int(rng.integers(2, 40)), int(rng.integers(1, 60))
        cdt = gen.choice(rng, ['complex64', 'complex128'])
        T, k = hostile(rng, (na, n), cdt)
        kind = gen.choice(rng, ['istft', 'icwt', 'issq_cwt', 'issq_stft', 'unbuffer'])
        n_fft, hop = 2 * (na - 1), int(rng.integers(1, 6))
        N = gen.choice(rng, [None, n, 3 * n, 1])
        fs = dict(
            istft=lambda: ssq.istft(T, 'hann', n_fft=n_fft, win_len=n_fft, hop_len=hop, N=N),
            icwt=lambda: ssq.icwt(T, 'gmw', scales=sq.scales(rng, na, 'log'), nv=8),
            issq_cwt=lambda: ssq.issq_cwt(T, 'gmw'),
            issq_stft=lambda: ssq.issq_stft(T, 'hann', n_fft=n_fft, win_len=n_fft),
            unbuffer=lambda: stft_utils.unbuffer(
                np.asarray(T.real), np.ones(na, T.real.dtype), hop, na,
                gen.choice(rng, [n, n * hop, None, 1]), win_exp=int(rng.integers(0, 3))))
        call('inverse', fs[kind], which=kind, na=na, n=n, T=k, hop=hop, N=N)
    for i, rng in ctx.cases('ridges', 40, 1200, share=.85, min_cases=16):
        na, n = int(gen.choice(rng, [1, 2, 3, 10, 30])), int(gen.choice(rng, [1, 2, 3, 20]))
        T, k = hostile(rng, (na, n), gen.choice(rng, ['complex64', 'complex128']))
        sc = gen.choice(rng, [1. + np.arange(na), 2**(np.arange(na) / 8), np.zeros(na),
                              np.full(na, np.nan), 1e300 * (1. + np.arange(na))])
        kw = dict(penalty=gen.choice(rng, [0., 2., 1e30, np.inf, np.nan, -1.]),
                  n_ridges=int(gen.choice(rng, [1, 3, na + 1])),
                  bw=int(gen.choice(rng, [0, 1, 15, 1000])),
                  transform=gen.choice(rng, ['cwt', 'stft']), get_params=True,
                  parallel=bool(rng.random() < .5))
        call('ridges', lambda: ssq.extract_ridges(T, sc, **kw), na=na, n=n, T=k,
             sc=sc[:2], **kw)
    for i, rng in ctx.cases('kernels', 60, 2000, share=.95, min_cases=24):
        r, n = int(rng.integers(1, 30)), int(rng.integers(1, 40))
        fdt = gen.choice(rng, ['float32', 'float64'])
        a, k = hostile(rng, (r, n), fdt)
        v, vk = freqvec(rng, int(rng.integers(2, 40)), fdt)
        which = gen.choice(rng, ['find_closest', 'indexed_sum', 'replace', 'under',
                                 'denormals', 'buffer', 'phase', 'window_norm'])
        par = gen.choice(rng, [None, True, False])
        if which == 'find_closest':
            kw = gen.choice(rng, [dict(smart=False, parallel=True),
                                  dict(smart=False, parallel=False)])
            log = bool(rng.random() < .6)
            f = lambda: algos.find_closest(a, v, logscale=log, **kw)
            if rng.random() < .2:
                f = lambda: algos.find_closest_brute(a, v)
        elif which == 'indexed_sum':
            idx = rng.integers(0, r, (r, n))
            f = lambda: algos.indexed_sum(a.astype('complex128'), idx, parallel=par)
        elif which == 'replace':
            g = gen.choice(rng, [algos.replace_at_inf_or_nan, algos.replace_at_inf,
                                 algos.replace_at_nan, algos.replace_at_value])
            b = a.copy() if rng.random() < .7 else a[0].copy()
            f = lambda: g(b)
        elif which == 'under':
            b = np.array(a)
            ref, _ = hostile(rng, (r, n), gen.choice(rng, ['complex64', 'complex128']))
            f = lambda: algos.replace_under_abs(b, ref, value=gen.choice(
                rng, [0., 1., np.nan, np.inf]), replacement=np.inf, parallel=par)
        elif which == 'denormals':
            b = np.array(a)
            f = lambda: algos.zero_denormals(b, parallel=par)
        elif which == 'buffer':
            sl = int(rng.integers(1, n + 1)); ov = int(rng.integers(0, sl))
            x = a if rng.random() < .3 else a[0]
            mod = bool(rng.random() < .5)
            f = lambda: stft_utils.buffer(x, sl, ov, modulated=mod, parallel=par)
        elif which == 'phase':
            A, _ = hostile(rng, (r, n), 'complex64' if fdt == 'float32' else 'complex128')
            B, _ = hostile(rng, (r, n), 'complex64' if fdt == 'float32' else 'complex128')
            g = gen.choice(rng, [0., 1e-8, np.inf])
            if rng.random() < .5:
                f = lambda: ssq.phase_cwt(A, B, gamma=g, parallel=par)
            else:
                Sfs = np.linspace(0, .5, r).astype(fdt)
                f = lambda: ssq.phase_stft(A, B, Sfs, gamma=g, parallel=par)
        else:
            win, _ = hostile(rng, (int(rng.integers(1, 20)),), 'float64')
            hop = int(rng.integers(1, 25))
            f = lambda: stft_utils.window_norm(win, hop, len(win),
                                               int(rng.integers(1, 60)))
        call('kernel', f, which=which, r=r, n=n, a=k, v=vk, par=par)
    for i, rng in ctx.cases('wavelets', 20, 800, min_cases=8):
        name = W()
        d = gen.choice(rng, ['float32', 'float64'])
        o = dict(dtype=d)
        if name == 'gmw':
            o.update(order=int(rng.integers(0, 3)),
                     norm=gen.choice(rng, ['bandpass', 'energy']))
        w, k = hostile(rng, (int(rng.integers(1, 50)),), d)
        if rng.random() < .4:
            w = w.reshape(1, -1)
        call('wavelet', lambda: ssq.Wavelet((name, o))(w), name=name, o=o, w=k)
