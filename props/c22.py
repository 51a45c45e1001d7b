"""Pairs of calls differing only in units of time (or in how they're given), or amplitude."""
import numpy as np
from rt import gen

MODES = {'nojit': {'env': {'SSQ_PARALLEL': '0', 'NUMBA_DISABLE_JIT': '1'},
                   'shards': {'quick': 3, 'thorough': 4}},
         'jit': {'env': {'SSQ_PARALLEL': '1', 'NUMBA_NUM_THREADS': '2'},
                 'shards': {'quick': 2, 'thorough': 3}}}
BUDGET = {'quick': 22, 'thorough': 350}
REQUIRE = {'Wx unchanged': 150, 'dWx scaled': 100, 'scales unchanged': 150,
           'Tx unchanged': 120, 'frequencies scaled': 150, 'w scaled': 50,
           'Sx unchanged': 90, 'fs = t': 60, 'amplitude': 60, 'both given': 15,
           'scale_to_freq': 40, 'order > 0': 15, 'numeric': 8, 'default fs is 1': 20}
RULE = ('random call made twice: fs and c*fs, fs and t, t and shifted t, none and fs=1, '
        'x and k*x; counted once all outputs were compared')
ASSUMPTIONS = []


def pairs(rng, N, ctx):
    """Two ways of giving the rate, and the ratio of rates."""
    fs = gen.choice(rng, [1., .1, 3, 50., 44100., 10**rng.uniform(-4, 6)])
    c = gen.choice(rng, [2., 1/8, 1024., 3., .01, 10**rng.uniform(-3, 3)])
    kind = gen.choice(rng, ['fs', 'fs', 't', 'fs=t', 'fs=t', 'both', 'default', 'shift'])

    def t(f, t0=None):
        t0 = t0 if t0 is not None else gen.choice(rng, [0, 0, -1., 5.]) / f
        return t0 + np.arange(N) / f
    if kind == 'fs':
        return {'fs': fs}, {'fs': fs * c}, c, kind
    if kind == 't':
        return {'t': t(fs)}, {'t': t(fs * c)}, c, kind
    if kind == 'fs=t':
        ctx.event('fs = t')
        return {'fs': fs}, {'t': t(fs)}, 1., kind
    if kind == 'both':   # documented: `t` overrides
        ctx.event('both given')
        return {'t': t(fs, 0)}, {'t': t(fs, 0), 'fs': 7.}, 1., kind
    if kind == 'default':
        ctx.event('default fs is 1')
        return {}, gen.choice(rng, [{'fs': 1}, {'fs': 1.}, {'t': np.arange(N)}]), 1., kind
    return {'t': t(fs, 0)}, {'t': t(fs, 100 / fs)}, 1., kind


def draw(rng, N, two):
    # no structured signals, whose frequencies fall halfway between bins exactly
    kinds = ['noise', 'tones', 'chirp', 'trend', 'const+noise', 'big', 'tiny']
    o = [gen.signal(rng, N, gen.choice(rng, kinds)) for _ in range(1 + two)]
    return (np.stack([a for a, _ in o]) if two else o[0][0]), '+'.join(k for _, k in o)


def rate_of(d):
    if 't' in d:
        return float(1 / (d['t'][1] - d['t'][0]))
    return float(d.get('fs', 1.))


def run(ctx):
    from rt import lib
    from rt.lib import ssq, TOL
    from ssqueezepy.experimental import scale_to_freq
    jit = ctx.mode == 'jit'
    n = 30 if jit else 110
    for i, rng in ctx.cases('cwt', n, 1700, share=.6, min_cases=n // 2):
        N = gen.length(rng, 24, 280)
        two = rng.random() < .2
        x, xk = draw(rng, N, two)
        name, opts = gen.wavelet(rng)
        d = gen.choice(rng, [None, 'float64', 'float64', 'float64'])
        dt = d or 'float32'
        A, B, c, kind = pairs(rng, N, ctx)
        fa = rate_of(A)
        strs = rng.random() < .4 and N >= 160
        if strs:
            opts.pop('centered_scale', None)
        scales = (gen.choice(rng, ['log', 'log-piecewise', 'linear']) if strs else
                  gen.scales_arr(rng, N)[0])
        order = (gen.choice(rng, [1, 2, (0, 1)]) if name == 'gmw' and
                 rng.random() < .25 else 0)
        pad = gen.choice(rng, ['reflect', 'reflect', 'zero', 'wrap'] +
                         ([] if strs else [None]))
        kw = dict(scales=scales, padtype=pad, order=order,
                  vectorized=bool(rng.random() < .7))
        do_ssq = rng.random() < .7
        kB = {}
        if do_ssq:
            kw['get_dWx'] = True
            kw['get_w'] = not two and bool(rng.random() < .5)
            kw['flipud'] = bool(rng.random() < .5)
            kw['squeezing'] = gen.choice(rng, ['sum', 'sum', 'abs'])
            if kw['get_w'] and order == 0 and pad and rng.random() < .3:
                kw['difftype'] = gen.choice(rng, ['numeric', 'phase'])
                if kw['difftype'] == 'numeric':
                    kw['difforder'] = gen.choice(rng, [1, 2, 4])
                    ctx.event('numeric')
            u = rng.random()
            if scales is not None and isinstance(scales, str) and \
                    scales == 'log-piecewise':
                u = max(u, .61)
            if u < .3:
                kw['maprange'] = gen.choice(rng, ['maximal', 'peak'] if strs else
                                            ['maximal'])
            elif u < .6 or (u > .6 and not strs):
                if rng.random() < .5 and not (isinstance(scales, str) and
                                              scales == 'log-piecewise'):
                    kw['maprange'] = (.02*fa, .4*fa)
                    kB['maprange'] = (.02*fa*c, .4*fa*c)
                else:
                    f = (np.linspace(.02, .45, 31) if rng.random() < .5 else
                         .01 * 2**(np.arange(36) / 8))
                    kw['ssq_freqs'], kB['ssq_freqs'] = f*fa, f*fa*c
            elif u < .75:
                kw['maprange'] = 'energy'
        else:
            kw['derivative'] = True
            kw['rpadded'] = bool(rng.random() < .2)
            kw['l1_norm'] = bool(rng.random() < .8) or bool(order)
        l1 = kw.get('l1_norm', True)
        if name == 'gmw' and not l1:
            d, dt = None, 'float64'
        with ctx.run(N=N, x=xk, shape=x.shape, wavelet=name, opts=opts, dtype=d,
                     kind=kind, c=c, A=A.get('fs', 't'), ssq=do_ssq, **kw):
            def call(z, **k):
                wav, _ = lib.make_wavelet(rng, name, opts, d, l1_norm=l1)
                return (ssq.ssq_cwt if do_ssq else ssq.cwt)(z, wav, **{**kw, **k})
            a, b = call(x, **A), call(x, **{**B, **kB})
            ctx.event('order > 0', order != 0)
            # rounding of rates obtained from `t`, and of its scale by c
            tol = {'float32': 1e-5, 'float64': 1e-10}[dt]
            W, W2 = (a[1], b[1]) if do_ssq else (a[0], b[0])
            s, s2 = (a[3], b[3]) if do_ssq else (a[1], b[1])
            ctx.close(W2, W, tol, 'Wx unchanged')
            ctx.equal(s2, s, 'scales unchanged', 'scales')
            ctx.close(b[-1] / c, a[-1], tol, 'dWx scaled')
            if do_ssq:
                ctx.close(b[2] / c, a[2], 1e-6 if dt == 'float32' else 1e-9,
                          'frequencies scaled')
                if kw['get_w']:
                    fin = np.isfinite(a[4])
                    ctx.check((np.isfinite(b[4]) != fin).mean() < .01, 'w scaled',
                              'finite')
                    big = np.abs(W) > (1e-3 if dt == 'float32' else 1e-7
                                       ) * np.abs(W).max()
                    ok = fin & np.isfinite(b[4]) & big
                    if kw.get('difftype') == 'phase':
                        # unwrapping is unstable at jumps by pi
                        r = np.abs(b[4] / c - a[4])[ok]
                        if ok.any():
                            ctx.check((r > 1e-3 * a[4][ok].max()).mean() < .02,
                                      'w scaled', 'phase')
                    else:
                        ctx.close(np.where(ok, b[4] / c, 0), np.where(ok, a[4], 0),
                                  2e-3 if dt == 'float32' else 1e-6, 'w scaled',
                                  scale=.5 * fa)
                if kw.get('difftype') != 'phase':
                    lib.tx_close(ctx, b[0], a[0], dt, 'Tx unchanged')
            # amplitude
            if rng.random() < .4:
                k = gen.choice(rng, [2., -1., -3., 1e3, .37])
                o = call(k * x, **A)
                ctx.close((o[1] if do_ssq else o[0]) / k, W, 5*tol, 'amplitude', 'Wx',
                          scale=np.abs(W).max() + .05 * np.abs(x).max())
                ctx.close(o[-1] / k, a[-1], 5*tol, 'amplitude', 'dWx',
                          scale=np.abs(a[-1]).max() + .05 * fa * np.abs(x).max())
                if do_ssq and kw['squeezing'] == 'sum' and k in (2., -1.) and \
                        kw.get('difftype') != 'phase':
                    lib.tx_close(ctx, o[0] / np.array(k, o[0].dtype), a[0], dt,
                                 'amplitude', 'Tx')
            if rng.random() < .5 and order == 0:
                wav, _ = lib.make_wavelet(rng, name, opts, d, form='instance')
                ss = np.asarray(s, 'float64')[:40]
                f1 = scale_to_freq(ss, wav, N, fs=rate_of(A))
                f2 = scale_to_freq(ss, wav, N, fs=rate_of(A) * c)
                ctx.close(f2 / c, f1, 1e-12, 'scale_to_freq')
    n = 20 if jit else 70
    for i, rng in ctx.cases('stft', n, 1200, share=.95, min_cases=n // 2):
        N = gen.length(rng, 24, 280)
        two = rng.random() < .2
        x, xk = draw(rng, N, two)
        n_fft = int(rng.integers(8, min(N, 130)))
        arg, wl, _, wk = lib.window(rng, n_fft)
        dt = gen.choice(rng, ['float32', 'float64', 'float64'])
        A, B, c, kind = pairs(rng, N, ctx)
        fa = rate_of(A)
        kw = dict(n_fft=n_fft, win_len=wl, dtype=dt,
                  padtype=gen.choice(rng, ['reflect', 'zero', 'wrap']))
        do_ssq = rng.random() < .6
        kB = {}
        if do_ssq:
            kw.update(get_dWx=True, flipud=bool(rng.random() < .5),
                      get_w=not two and bool(rng.random() < .5),
                      squeezing=gen.choice(rng, ['sum', 'sum', 'abs']))
            if rng.random() < .3:
                f = np.linspace(0, .5, gen.choice(rng, [n_fft // 2 + 1, 20]))
                kw['ssq_freqs'], kB['ssq_freqs'] = f * fa, f * fa * c
        else:
            kw.update(hop_len=int(rng.integers(1, 5)), derivative=True,
                      modulated=bool(rng.random() < .7))
        with ctx.run(N=N, x=xk, shape=x.shape, window=wk, kind=kind, c=c, ssq=do_ssq,
                     A=A.get('fs', 't'), **kw):
            fn = ssq.ssq_stft if do_ssq else ssq.stft
            a, b = fn(x, arg, **kw, **A), fn(x, arg, **{**kw, **B, **kB})
            tol = {'float32': 1e-5, 'float64': 1e-10}[dt]
            S, S2 = (a[1], b[1]) if do_ssq else (a[0], b[0])
            ctx.close(S2, S, tol, 'Sx unchanged')
            ctx.close(b[-1] / c, a[-1], tol, 'dWx scaled', 'dSx')
            if do_ssq:
                for j in (2, 3):
                    ctx.close(b[j] / c, a[j], 1e-6 if dt == 'float32' else 1e-9,
                              'frequencies scaled')
                if kw['get_w']:
                    ok = np.isfinite(a[4]) & np.isfinite(b[4]) & (
                        np.abs(S) > 1e-3 * np.abs(S).max())
                    ctx.close(np.where(ok, b[4] / c, 0), np.where(ok, a[4], 0),
                              2e-3 if dt == 'float32' else 1e-6, 'w scaled',
                              scale=.5 * fa)
                lib.tx_close(ctx, b[0], a[0], dt, 'Tx unchanged')
            if rng.random() < .4:
                k = gen.choice(rng, [2., -1., -3., 1e3, .37])
                o = fn(k * x, arg, **kw, **A)
                ctx.close((o[1] if do_ssq else o[0]) / k, S, 5*tol, 'amplitude', 'Sx')
                ctx.close(o[-1] / k, a[-1], 5*tol, 'amplitude', 'dSx')
