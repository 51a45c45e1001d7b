"""Frequencies returned for scales, scales for frequencies, and ranges of synchrosqueezed
transforms against peaks and moments of double-precision wavelets at the DFT's bins."""
import numpy as np
from rt import gen, ref

MODES = {'nojit': {'env': {'SSQ_PARALLEL': '0', 'NUMBA_DISABLE_JIT': '1'},
                   'shards': {'quick': 3, 'thorough': 4}},
         'jit': {'env': {'SSQ_PARALLEL': '1', 'NUMBA_NUM_THREADS': '2'},
                 'shards': {'quick': 1, 'thorough': 2}}}
BUDGET = {'quick': 22, 'thorough': 350}
REQUIRE = {'scale_to_freq': 2000, 'scale_to_freq: Nyquist': 20, 'freq_to_scale': 60,
           'range: peak': 50, 'range: energy': 25, 'range: maximal': 25,
           'range: given': 25, 'padtype None': 20, 'spacing: log': 30,
           'spacing: linear': 20, 'spacing: log-piecewise': 3, 'round trip': 60,
           'stft frequencies': 60, 'odd n_fft': 15, 'even n_fft': 15, 'fs': 60}
RULE = ('random (wavelet, scales, length, rate, padding, range, spacing) and windows; '
        'counted once each frequency was compared')
ASSUMPTIONS = ['peaks of equal height to rounding may be reported at either bin']


def sampled(name, opts, scale, n):
    """Sorted radian frequencies, and |psih|^2 there."""
    w = np.sort(np.where(np.arange(n) <= n // 2, np.arange(n), np.arange(n) - n)
                ) * 2*np.pi / n
    return w, np.abs(ref.psih(name, scale * w, **opts))**2


def peak_bins(name, opts, scale, n, prec):
    """Frequencies (cycles/sample) at which the wavelet is at its maximum, to rounding."""
    w, p = sampled(name, opts, float(scale), n)
    th = 1 - (2e-4 if prec == 'float32' else 1e-11)
    ok = p >= th * p.max()
    return w[ok] / (2*np.pi), p.max()


def energy_wc(name, opts, scale, n):
    w, p = sampled(name, opts, float(scale), n)
    tz = lambda y: (y[1:] + y[:-1]).sum() / 2
    return tz(p * w) / tz(p) / (2*np.pi)


def clean(o):
    return {k: v for k, v in o.items() if k != 'dtype'}


def spacing(ctx, f, kind, scales, prec):
    tol = 1e-5 if prec == 'float32' else 1e-7
    ctx.event('spacing: ' + kind)
    # equal if the wavelets can't be told apart at this length
    ctx.check((np.diff(f) > 0).all() or (kind == 'log-piecewise' or f[0] == f[-1]) and
              (np.diff(f) >= -1e-12 * f[-1]).all(), 'increasing', f'{np.diff(f).min()}')
    na = len(f)
    if kind == 'log':
        ctx.close(f, f[0] * (f[-1]/f[0])**(np.arange(na)/(na - 1)), tol, 'uniform in log',
                  scale=f)
    elif kind == 'linear':
        ctx.close(f, np.linspace(f[0], f[-1], na), tol, 'uniform')


def run(ctx):
    from rt import lib
    from rt.lib import ssq
    from ssqueezepy.experimental import scale_to_freq, freq_to_scale
    jit = ctx.mode == 'jit'
    n_ = 12 if jit else 50
    for i, rng in ctx.cases('scale_to_freq', n_, 700, share=.3, min_cases=n_ // 2):
        N = gen.length(rng, 16, 1200)
        name, opts = gen.wavelet(rng)
        d = gen.choice(rng, [None, 'float64', 'float64'])
        prec = d or 'float32'
        fs = gen.choice(rng, [1, 2., 100., 44100, .01])
        padtype = gen.choice(rng, ['reflect', 'zero', None, None])
        n = N if padtype is None else ref.p2up(N)[0]
        kind = gen.choice(rng, ['log', 'linear', 'log', 'one', 'float', 'unsorted'])
        scales = gen.scales_arr(rng, N, kind if kind in ('log', 'linear') else 'log')[0]
        if kind == 'one':
            scales = scales[:1]
        elif kind == 'float':
            scales = float(scales[1])
        elif kind == 'unsorted':
            scales = rng.permutation(scales)
        # up to where the wavelet's peak is at the second bin
        with ctx.run(N=N, wavelet=name, opts=opts, dtype=d, fs=fs, padtype=padtype,
                     kind=kind, scales=scales):
            wav, form = lib.make_wavelet(rng, name, opts, d)
            f = np.asarray(scale_to_freq(scales, wav, N, fs=fs, padtype=padtype)) / fs
            s = np.atleast_1d(scales)
            ctx.event('fs', fs != 1)
            ctx.event('padtype None', padtype is None)
            if not ctx.check(f.shape == s.shape, 'shape', f'{f.shape}'):
                continue
            for _f, _s in zip(f, s):
                P, pk = peak_bins(name, clean(opts), _s, n, prec)
                if pk < 1e-20 or P.min() <= 0:   # peaks at negative frequencies or DC
                    ctx.check(_f in (.5, 1/n) or abs(_f - (n//2)/n) < 1e-9 or
                              np.abs(P - _f).min() < .1 / n,
                              'scale_to_freq: ill-behaved', f'{_f} at scale {_s}')
                    continue
                ctx.event('scale_to_freq: Nyquist', P.max() * n >= n // 2)
                ctx.check(np.abs(P - _f).min() < .1 / n, 'scale_to_freq',
                          f'{_f:.8g} for scale {_s:.6g}, peak at {P[0]:.8g} '
                          f'(bins: {1/n:.3g})')
    n_ = 6 if jit else 22
    for i, rng in ctx.cases('freq_to_scale', n_, 300, share=.5, min_cases=n_ // 2):
        N = gen.length(rng, 128, 600)
        name, opts = gen.wavelet(rng)
        opts.pop('centered_scale', None)
        d = gen.choice(rng, [None, 'float64'])
        fs = gen.choice(rng, [1, 2., 100., .01])
        f0, f1 = np.sort(rng.uniform(.05, .4, 2))
        f1 = max(f1, f0 + .05)
        M = int(rng.integers(12, 50))
        kind = gen.choice(rng, ['log', 'linear'])
        f = (np.linspace(f0, f1, M) if kind == 'linear' else
             f0 * (f1/f0)**(np.arange(M)/(M - 1)))
        kw = {'kind': gen.choice(rng, ['peak', 'peak', 'energy'])}
        if rng.random() < .4:
            kw['n_search_scales'] = int(rng.integers(200, 500))
        with ctx.run(N=N, wavelet=name, opts=opts, dtype=d, fs=fs, M=M, f0=f0, f1=f1,
                     spacing=kind, **kw):
            wav, form = lib.make_wavelet(rng, name, opts, d)
            s = np.asarray(freq_to_scale(f * fs, wav, N, fs=fs, **kw))
            ctx.event('fs', fs != 1)
            if not ctx.check(s.shape == f.shape and (np.diff(s) < 0).all(),
                             'freq_to_scale: decreasing scales'):
                continue
            ctx.close(np.log(s), np.linspace(np.log(s[0]), np.log(s[-1]), M), 1e-9,
                      'freq_to_scale: span', scale=1.)
            # spacing of searched scales, over the whole range of scales
            step = np.log(8. * N) / kw.get('n_search_scales', 10 * M)
            for _s, _f in ((s[0], f0), (s[-1], f1)):
                w, p = sampled(name, clean(opts), _s, N)
                if kw['kind'] == 'peak':
                    g = peak_bins(name, clean(opts), _s, N, d or 'float32')[0]
                    g = g[np.argmin(np.abs(g - _f))]
                    slack = 1.01 / N + 1.2 * step * _f
                else:
                    g = energy_wc(name, clean(opts), _s, N)
                    slack = 2 * step * _f + .2 / N
                    if _f > .25 or name in ('cmhat', 'hhhat'):
                        ctx.event('energy: not well-behaved')
                        continue
                ctx.check(abs(g - _f) <= slack, 'freq_to_scale',
                          f'scale {_s:.5g} is of frequency {g:.5g}, asked for {_f:.5g} '
                          f'(slack {slack:.2g})')
            # back
            if kw['kind'] == 'peak':
                pad = gen.choice(rng, ['reflect', None])
                n = N if pad is None else ref.p2up(N)[0]
                g = np.asarray(scale_to_freq(s, wav, N, fs=fs, padtype=pad)) / fs
                for k in (0, -1):
                    ctx.check(abs(g[k] - f[k]) <= 1.6 / N + 1.2 * step * f[k],
                              'round trip', f'{g[k]} vs {f[k]}')
    n_ = 14 if jit else 60
    for i, rng in ctx.cases('ssq_cwt', n_, 900, share=.85, min_cases=n_ // 2):
        N = gen.length(rng, *gen.choice(rng, [(24, 320), (180, 420)]))
        name, opts = gen.wavelet(rng)
        d = gen.choice(rng, [None, 'float64', 'float64'])
        prec = d or 'float32'
        x = rng.standard_normal(N)
        strs = rng.random() < .6 and N >= 160
        if strs:
            opts.pop('centered_scale', None)
            scales = gen.choice(rng, ['log', 'log-piecewise', 'log-piecewise', 'linear'])
        else:
            scales = gen.scales_arr(rng, N)[0]
        pad = gen.choice(rng, ['reflect', 'zero', 'wrap', None])
        fs = gen.choice(rng, [1., 2., 100., .01])
        kw = dict(scales=scales, padtype=pad, fs=fs, flipud=bool(rng.random() < .5))
        if rng.random() < .3:
            kw['t'] = 3 + np.arange(N) / fs
            kw.pop('fs')
        mr = gen.choice(rng, [None, 'peak', 'energy', 'maximal', 'given'])
        sk = None
        if strs and scales == 'log-piecewise':
            if mr in ('maximal', 'given'):
                sk = kw['ssq_freqs'] = gen.choice(rng, ['log', 'linear'])
        elif rng.random() < .4:
            sk = kw['ssq_freqs'] = gen.choice(rng, ['log', 'linear'])
        if mr == 'given':
            a, b = .01 * 10**rng.random() * fs, (.2 + .25 * rng.random()) * fs
            kw['maprange'] = gen.choice(rng, [tuple, list])((float(a), float(b)))
        elif mr:
            kw['maprange'] = mr
        if rng.random() < .3:
            kw['order'] = gen.choice(rng, [1, (0, 1)]) if name == 'gmw' else 0
        with ctx.run(N=N, wavelet=name, opts=opts, dtype=d, **kw):
            wav, form = lib.make_wavelet(rng, name, opts, d)
            T, W, f, s = ssq.ssq_cwt(x, wav, **kw)
            f = np.asarray(f, 'float64')
            ctx.check(len(f) == len(s) == len(W) == len(T), 'as many as scales',
                      f'{len(f)} {len(s)}')
            ctx.event('fs', fs != 1)
            ctx.event('padtype None', pad is None)
            f = (f[::-1] if kw['flipud'] else f) / fs
            n = N if pad is None else ref.p2up(N)[0]
            o = clean(opts)
            s64 = np.asarray(s, 'float64')
            mr = mr or 'peak'
            if mr == 'maximal':
                want = [1/N], [.5]
            elif mr == 'given':
                want = [a/fs], [b/fs]
            elif mr == 'peak':
                want = [peak_bins(name, o, k, n, prec)[0] for k in (s64[-1], s64[0])]
            else:
                want = [[energy_wc(name, o, k, n)] for k in (s64[-1], s64[0])]
            ctx.event('range: ' + mr)
            for got, w, which in ((f[0], want[0], 'lowest'), (f[-1], want[1], 'highest')):
                e = np.min(np.abs(np.asarray(w) - got))
                lim = {'peak': .1/n, 'energy': 2e-5 if prec == 'float32' else 1e-9}.get(
                    mr, 1e-7 * (1 if prec == 'float64' else 10))
                ctx.check(e <= lim, f'range of frequencies ({mr})',
                          f'{which}: {got:.8g}, expected {np.asarray(w)[0]:.8g}')
            kind = sk or (scales if strs else None) or lib.kind_of(s64)
            if kind == 'log-piecewise':
                ls = np.log(s64)
                d2 = np.abs(np.diff(ls, 2))
                if d2.max() > 1e-3 * np.diff(ls).mean():
                    idx = int(np.argmax(d2)) + 2
                    g = f[len(f) - 1 - idx]
                    w = (peak_bins(name, o, s64[idx], n, prec)[0] if mr == 'peak' else
                         [energy_wc(name, o, s64[idx], n)])
                    ctx.check(np.min(np.abs(np.asarray(w) - g)) <=
                              (.1/n if mr == 'peak' else 2e-5), 'transition',
                              f'{g} vs {w[0]}')
                    for part in (f[:len(f) - idx], f[len(f) - 1 - idx:]):
                        if len(part) > 2:
                            m = len(part)
                            ctx.close(part, part[0]*(part[-1]/part[0])**(
                                np.arange(m)/(m - 1)), 1e-5, 'uniform in log by piece',
                                scale=part)
                else:
                    kind = 'log'
            spacing(ctx, f, kind, s64, prec)
    n_ = 10 if jit else 50
    for i, rng in ctx.cases('stft', n_, 500, share=.97, min_cases=n_ // 2):
        N = gen.length(rng, 24, 300)
        n_fft = int(rng.integers(6, min(N, 150)))
        arg, wl, _, wk = lib.window(rng, n_fft)
        d = gen.choice(rng, ['float32', 'float64'])
        fs = gen.choice(rng, [1., 2, 1000., .125])
        two = rng.random() < .25
        x = rng.standard_normal((2, N) if two else N)
        kw = dict(n_fft=n_fft, win_len=wl, dtype=d, flipud=bool(rng.random() < .4))
        if rng.random() < .3:
            kw['t'] = np.arange(N) / fs
        else:
            kw['fs'] = fs
        if rng.random() < .3:
            kw['ssq_freqs'] = 'linear'
        if rng.random() < .15:   # default: as in `stft`
            kw.pop('n_fft'), kw.pop('win_len')
            n_fft, arg = N, 'hann'
        if rng.random() < .2:
            kw['hop_len'] = hop = int(rng.integers(2, 4))
            if 'n_fft' not in kw:
                n_fft = N // hop
        with ctx.run(N=N, n=n_fft, window=wk, x=x.shape, **kw):
            T, S, f, Sf = ssq.ssq_stft(x, arg, **kw)
            k = np.arange(n_fft // 2 + 1) * (fs / n_fft)
            ctx.event('odd n_fft' if n_fft % 2 else 'even n_fft')
            ctx.event('fs', fs != 1)
            ctx.close(Sf, k, 1e-6 if d == 'float32' else 1e-12, 'stft frequencies', 'Sfs')
            ctx.close(f, k[::-1] if kw['flipud'] else k,
                      1e-6 if d == 'float32' else 1e-12, 'stft frequencies', 'ssq_freqs')
            ctx.check(T.shape[-2] == S.shape[-2] == len(k), 'rows')
