"""Output-selection flags: every combination of flags is observed for one call, and the
outputs are compared with each other, with `cwt`/`stft`, and with re-squeezing."""
import itertools
import numpy as np
from rt import gen

MODES = {'main': {}, 'serial': {'env': {'SSQ_PARALLEL': '0'}}}
SHARDS = {'quick': 1, 'thorough': 3}
REQUIRE = {'Tx: get_dWx': 60, 'Tx: get_w': 40, 'Tx: preserve_transform=False': 60,
           'Wx = cwt': 30, 'dWx = cwt': 30, 'Sx = stft': 20, 'dSx = stft': 20,
           'squeezing with w': 40, 'w finite where not negligible': 40,
           'squeezing: abs': 8, 'squeezing: lebesgue': 8, 'squeezing: fn': 8,
           'numeric': 3, 'phase': 3}
RULE = ('random call x all combinations of get_w, get_dWx, preserve_transform; counted '
        'once the outputs of a combination were compared')
ASSUMPTIONS = ['single precision: coefficients within rounding of a boundary between '
               'two bins may go to either']


def custom(W):
    return W * np.abs(W)


def flags(two):
    out = []
    for w, d, p in itertools.product([0, 1], [0, 1], [None, True, False]):
        if not (two and w) and (w, d, p) != (0, 0, None):
            out.append((bool(w), bool(d), p))
    return out


def compare(ctx, lib, base, out, w, d, p, dtype, kind):
    """Order of outputs: Tx, transform, freqs, scales[, w][, derivative]"""
    ctx.check(len(out) == 4 + w + d, 'number of outputs', f'{len(out)}')
    tag = 'get_w' if w else 'get_dWx' if d else 'preserve_transform=False'
    if p is False:
        ctx.event('Tx: preserve_transform=False')
    if w:
        lib.tx_close(ctx, out[0], base[0], dtype, 'Tx: get_w', f'{(w, d, p)}')
    else:
        ctx.close(out[0], base[0], 1e-5 if dtype == 'float32' else 1e-11,
                  'Tx: ' + tag, f'{(w, d, p)}')
    ctx.check(out[0].dtype == base[0].dtype, 'dtype of Tx')
    ctx.equal(out[2], base[2], 'frequencies', f'{(w, d, p)}')
    ctx.equal(out[3], base[3], 'scales', f'{(w, d, p)}')
    if p is not False:
        ctx.equal(out[1], base[1], 'transform', f'{(w, d, p)}')


def run(ctx):
    from rt import lib
    from rt.lib import ssq
    from ssqueezepy.ssqueezing import ssqueeze
    for i, rng in ctx.cases('ssq_cwt', 26, 500, share=.55, min_cases=14):
        N = gen.length(rng, 16, 400)
        name, opts = gen.wavelet(rng)
        d, dtype = lib.pick_dtype(rng, name)
        two = rng.random() < .2
        x, xk = gen.batch(rng, 2, N) if two else gen.signal(rng, N)
        sk = gen.choice(rng, ['log-piecewise', 'log', 'array']) if N >= 160 else 'array'
        scales = gen.scales_arr(rng, N)[0] if sk == 'array' else sk
        if sk != 'array':
            opts.pop('centered_scale', None)
        squeezing = gen.choice(rng, ['sum', 'sum', 'abs', 'lebesgue', custom])
        fs = gen.choice(rng, [1., 30.])
        kw = dict(scales=scales, padtype=gen.choice(rng, ['reflect', 'zero', 'wrap']),
                  squeezing=squeezing, flipud=bool(rng.random() < .5), fs=fs)
        if sk != 'log-piecewise':
            kw['maprange'] = gen.choice(rng, ['peak', 'maximal', (.02*fs, .3*fs)])
        if rng.random() < .5:
            kw['gamma'] = gen.choice(rng, [1e-5, .1])
        if name == 'gmw' and rng.random() < .15:
            kw['order'] = gen.choice(rng, [1, (0, 1)]) if not two else 1
        order = kw.get('order', 0)
        difftype = 'trig'
        if not two and rng.random() < .3:
            difftype = gen.choice(rng, ['numeric', 'phase'])
        sqname = squeezing if isinstance(squeezing, str) else 'fn'
        wav, _ = lib.make_wavelet(rng, name, opts, d)
        g = kw.get('gamma') or 10 * np.finfo(dtype).eps
        desc = {**kw, 'squeezing': sqname}

        def resqueeze(out, fl, key):
            Tx, Wx, f, s, w = out[:5]
            v = np.asarray(f)
            v = v[::-1].copy() if kw['flipud'] else v.copy()
            kind = ('log' if sk != 'array' else lib.kind_of(s))
            if len(s) < 8 or np.abs(np.diff(v)).min() == 0:
                return
            T2, _ = ssqueeze(Wx.copy(), w=w.copy(), ssq_freqs=v, scales=s, fs=fs,
                             squeezing=squeezing, flipud=kw['flipud'], gamma=g,
                             transform='cwt')
            lib.tx_close(ctx, T2, Tx, dtype, key, f'{fl}')

        if difftype == 'trig':
            with ctx.run(N=N, x=xk, wavelet=name, opts=opts, dtype=dtype,
                         shape=x.shape, **desc):
                base = ssq.ssq_cwt(x, wav, **kw)
                ckw = {k: kw[k] for k in ('scales', 'padtype', 'fs')}
                if not order:
                    W, s, dW = ssq.cwt(x, wav, derivative=True, nv=32, **ckw)
                    ctx.close(base[1], W, 1e-6 if dtype == 'float32' else 1e-13,
                              'Wx = cwt')
                    ctx.close(base[3], s, 1e-6 if dtype == 'float32' else 1e-13,
                              'scales = cwt')
                else:
                    W, s = ssq.cwt(x, wav, order=order, nv=32, **ckw)
                    ctx.close(base[1], W, 1e-4 if dtype == 'float32' else 1e-11,
                              'Wx = cwt')
                    dW = None
                ctx.event('squeezing: ' + sqname)
            if ctx.viol and ctx.viol[-1].get('case') == i:
                continue
            for fl in flags(two):
                w_, d_, p_ = fl
                with ctx.run(N=N, x=xk, wavelet=name, opts=opts, dtype=dtype,
                             flags=fl, shape=x.shape, **desc):
                    out = ssq.ssq_cwt(x, wav, get_w=w_, get_dWx=d_,
                                      preserve_transform=p_, **kw)
                    compare(ctx, lib, base, out, w_, d_, p_, dtype, 'cwt')
                    if d_ and dW is not None:
                        ctx.close(out[-1], dW, 1e-5 if dtype == 'float32' else 1e-12,
                                  'dWx = cwt')
                    if w_:
                        w = out[4]
                        if p_ is not False:
                            near = np.abs(np.abs(W) - g) < 1e-4 * g
                            ctx.check(((np.abs(W) > g) == np.isfinite(w))[~near].all()
                                      and not np.isnan(w).any() and (w >= 0).all(),
                                      'w finite where not negligible')
                            resqueeze(out, fl, 'squeezing with w')
        else:
            kw['difftype'] = difftype
            if difftype == 'numeric':
                kw['difforder'] = gen.choice(rng, [None, 1, 2, 4])
            base = None
            for d_, p_ in itertools.product([False, True], [None, True]):
                with ctx.run(N=N, x=xk, wavelet=name, opts=opts, dtype=dtype,
                             flags=(d_, p_), difftype=difftype, **desc):
                    out = ssq.ssq_cwt(x, wav, get_w=True, get_dWx=d_,
                                      preserve_transform=p_, **kw)
                    ctx.event(difftype)
                    ctx.check(len(out) == 5 + d_, 'number of outputs')
                    ctx.check(out[4].shape == out[1].shape == (len(out[3]), N),
                              'shapes of w and Wx', f'{out[4].shape} {out[1].shape}')
                    if base is not None:
                        for j in range(5):
                            ctx.close(out[j], base[j], 1e-6, 'Tx: difftype',
                                      f'output {j}')
                    else:
                        base = out
                        resqueeze(out, (d_, p_), 'squeezing with w')
                    W, s, dW = ssq.cwt(x, wav, derivative=True, nv=32,
                                       **{k: kw[k] for k in ('scales', 'padtype', 'fs')}
                                       ) if not order else (None,)*3
                    if W is not None:
                        ctx.close(out[1], W, 1e-6 if dtype == 'float32' else 1e-13,
                                  'Wx = cwt')
                        if d_:
                            ctx.close(out[5], dW, 1e-5 if dtype == 'float32' else
                                      1e-12, 'dWx = cwt')
    for i, rng in ctx.cases('ssq_stft', 16, 400, min_cases=9):
        N = gen.length(rng, 24, 400)
        two = rng.random() < .2
        x, xk = gen.batch(rng, 2, N) if two else gen.signal(rng, N)
        n_fft = int(rng.integers(8, min(N, 130)))
        arg, wl, _, wk = lib.window(rng, n_fft)
        dtype = gen.choice(rng, ['float32', 'float64'])
        squeezing = gen.choice(rng, ['sum', 'sum', 'abs', 'lebesgue', custom])
        sqname = squeezing if isinstance(squeezing, str) else 'fn'
        fs = gen.choice(rng, [1., 50.])
        skw = dict(n_fft=n_fft, win_len=wl, dtype=dtype, fs=fs,
                   modulated=bool(rng.random() < .7),
                   padtype=gen.choice(rng, ['reflect', 'zero']),
                   hop_len=int(gen.choice(rng, [1, 1, 2])))
        kw = dict(squeezing=squeezing, flipud=bool(rng.random() < .5))
        if rng.random() < .4:
            kw['ssq_freqs'] = np.linspace(rng.uniform(0, .1), rng.uniform(.3, .5),
                                          int(rng.integers(8, 90))) * fs
        if rng.random() < .5:
            kw['gamma'] = gen.choice(rng, [1e-5, .1])
        g = kw.get('gamma') or 10 * np.finfo(dtype).eps
        desc = {**skw, **kw, 'squeezing': sqname}
        with ctx.run(N=N, x=xk, window=wk, shape=x.shape, **desc):
            base = ssq.ssq_stft(x, arg, **skw, **kw)
            S, dS = ssq.stft(x, arg, derivative=True, **skw)
            ctx.close(base[1], S, 1e-6 if dtype == 'float32' else 1e-13, 'Sx = stft')
            ctx.event('squeezing: ' + sqname)
        if ctx.viol and ctx.viol[-1].get('case') == i:
            continue
        for fl in flags(two):
            w_, d_, p_ = fl
            with ctx.run(N=N, x=xk, window=wk, shape=x.shape, flags=fl, **desc):
                out = ssq.ssq_stft(x, arg, get_w=w_, get_dWx=d_, preserve_transform=p_,
                                   **skw, **kw)
                compare(ctx, lib, base, out, w_, d_, p_, dtype, 'stft')
                if d_:
                    ctx.close(out[-1], dS, 1e-5 if dtype == 'float32' else 1e-12,
                              'dSx = stft')
                if w_ and p_ is not False:
                    w = out[4]
                    near = np.abs(np.abs(S) - g) < 1e-4 * g
                    ctx.check(((np.abs(S) > g) == np.isfinite(w))[~near].all() and
                              not np.isnan(w).any() and (w >= 0).all(),
                              'w finite where not negligible')
                    v = np.asarray(out[2])
                    v = v[::-1].copy() if kw['flipud'] else v.copy()
                    T2, _ = ssqueeze(out[1].copy(), w=w.copy(), ssq_freqs=v,
                                     Sfs=out[3], fs=fs, squeezing=squeezing,
                                     flipud=kw['flipud'], gamma=g, transform='stft')
                    lib.tx_close(ctx, T2, out[0], dtype, 'squeezing with w', str(fl))
