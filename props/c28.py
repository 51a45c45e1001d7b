"""Higher-order transforms against the double-precision CWT with Morse wavelets of each
order, at scales of the order-0 wavelet."""
import numpy as np
from rt import gen, ref

MODES = {'nojit': {'env': {'SSQ_PARALLEL': '0', 'NUMBA_DISABLE_JIT': '1'},
                   'shards': {'quick': 3, 'thorough': 4}},
         'jit': {'env': {'SSQ_PARALLEL': '1', 'NUMBA_NUM_THREADS': '2'},
                 'shards': {'quick': 1, 'thorough': 2}}}
BUDGET = {'quick': 20, 'thorough': 350}
REQUIRE = {'order k = definition': 120, 'derivative = definition': 60,
           'average of orders': 60, 'list of orders': 60, 'scales of order 0': 30,
           'ssq: transform': 40, 'ssq: own derivative': 30, 'ssq: squeezed': 30,
           'batched': 40, 'l2': 20, 'custom parameters': 60, 'padded output': 20,
           'wavelet left unchanged': 60, 'refused': 6}
RULE = ('random (signal, batch, order(s), average, Morse parameters, wavelet form, scales, '
        'norm, padding, dtype); counted once compared with the definition')
ASSUMPTIONS = ['tolerances scale with the magnitude of Laguerre terms (cancellation)']


def draw_order(rng):
    """`(argument, orders, sequence?)`"""
    u = rng.random()
    if u < .35:
        k = int(rng.integers(1, 5))
        return k, [k], False
    m = int(rng.integers(1, 4)) if u < .9 else 4
    ks = [int(k) for k in rng.permutation(5)[:m]]
    if u > .8:
        m = int(rng.integers(2, 5))
        return range(m), list(range(m)), True
    return gen.choice(rng, [tuple, tuple, list])(ks), ks, True


def wav_arg(rng, lib, opts, d, l1):
    from ssqueezepy import Wavelet
    o = dict(opts)
    if d:
        o['dtype'] = d
    form = gen.choice(rng, ['str', 'tuple', 'instance', 'instance with order'])
    if form == 'str' and not o:
        return 'gmw', form
    if form in ('str', 'tuple'):
        return ('gmw', o), 'tuple'
    if not l1:
        o['norm'] = 'energy'
    if form == 'instance with order':
        # `order` given to the transform is what counts
        o['order'] = int(rng.integers(0, 4))
    return Wavelet(('gmw', o)), form


def tol_for(dtype, opts, ks):
    k = max(ks)
    g = float(opts.get('gamma', 3))
    r = (2 * float(opts.get('beta', 60)) + 1) / g
    amp = (1 + k * k * 4.) * (1 + r / 40)
    return (2e-4 if dtype == 'float32' else 1e-10) * amp


def run(ctx):
    from rt import lib
    from rt.lib import ssq
    from ssqueezepy import Wavelet
    jit = ctx.mode == 'jit'
    pads = ['reflect', 'reflect', 'zero', 'wrap', 'symmetric', 'replicate', None]
    n = 30 if jit else 90
    for i, rng in ctx.cases('cwt', n, 1500, share=.55, min_cases=n // 2):
        N = gen.length(rng, 12, 300)
        two = rng.random() < .3
        x, xk = (gen.batch(rng, int(rng.integers(1, 4)), N) if two else
                 gen.signal(rng, N))
        arg, ks, seq = draw_order(rng)
        opts = {}
        if rng.random() < .6:
            opts = dict(gamma=gen.choice(rng, [2., 3., 3, 4.]),
                        beta=gen.choice(rng, [8., 20, 40., 60.]))
            if rng.random() < .3:
                opts['centered_scale'] = True
        l1 = bool(rng.random() < .75)
        d = gen.choice(rng, [None, 'float64', 'float64'] if l1 else [None, 'float64'])
        dtype = d or ('float32' if l1 else None)
        strs = (rng.random() < .25 and N >= 160 and 'centered_scale' not in opts)
        padtype = gen.choice(rng, pads[:-1] if strs else pads)
        average = gen.choice(rng, [None, None, True, False])
        rpadded = bool(rng.random() < .2)
        kw = dict(padtype=padtype, l1_norm=l1, rpadded=rpadded, average=average,
                  derivative=bool(rng.random() < .6),
                  vectorized=bool(rng.random() < .7))
        if rng.random() < .4:
            kw['fs'] = gen.choice(rng, [.5, 20., 1000])
        if strs:
            kw['scales'] = gen.choice(rng, ['log', 'log-piecewise', 'linear'])
            kw['nv'] = gen.choice(rng, [8, 16, 32])
            if kw['scales'] == 'linear':
                kw.pop('nv')
        else:
            kw['scales'] = gen.scales_arr(rng, N)[0]
            if rng.random() < .2:
                kw['scales'] = kw['scales'][:, None]
        with ctx.run(N=N, x=xk, shape=x.shape, order=arg, opts=opts, dtype=d, **kw):
            wav, form = wav_arg(rng, lib, opts, d, l1)
            before = (dict(wav.config), wav.N) if isinstance(wav, Wavelet) else None
            x0 = x.copy()
            out = ssq.cwt(x, wav, order=arg, **kw)
            if before:
                ctx.check((dict(wav.config), wav.N) == before, 'wavelet left unchanged',
                          f'{wav.config} N={wav.N}')
            ctx.check(np.array_equal(x, x0), 'input left unchanged')
            if dtype is None:
                first = out[0][0] if isinstance(out[0], list) else out[0]
                dtype = 'float32' if first.dtype == 'complex64' else 'float64'
            if strs:
                kk = {k: v for k, v in kw.items() if k in ('scales', 'nv', 'padtype')}
                o0 = dict(opts)
                if d:
                    o0['dtype'] = d
                s0 = ssq.cwt(x, ('gmw', o0), l1_norm=l1, **kk)[1]
                ctx.close(out[1], s0, 1e-6, 'scales of order 0', kw['scales'])
                s0 = s0.astype('float64')
            else:
                s0 = kw['scales'].ravel().astype('float64')
                ctx.close(out[1], s0, 1e-6, 'scales of order 0', 'given')
            if dtype == 'float32':
                s0 = s0.astype('float32').astype('float64')
            R = [ref.cwt(x, 'gmw', s0, padtype, rpadded, l1, kw.get('fs', 1.),
                         order=k, **opts) for k in ks]
            lst = seq and average is False and len(ks) > 1
            tol = tol_for(dtype, opts, ks)
            for j, key in [(0, 'order k = definition'), (2, 'derivative = definition')]:
                if j == 2 and not kw['derivative']:
                    ctx.check(len(out) == 2, 'outputs', str(len(out)))
                    continue
                q = j // 2
                sc = max(np.abs(r[q]).max() for r in R)
                sc = max(sc, 1e-3 * np.abs(x).max() * (kw.get('fs', 1.) if j else 1))
                if lst:
                    if not ctx.check(isinstance(out[j], list) and
                                     len(out[j]) == len(ks), 'list of orders',
                                     f'{type(out[j])}'):
                        continue
                    for a, r in zip(out[j], R):
                        ctx.close(a, r[q], tol, key, 'item of list', scale=sc)
                    continue
                r = np.mean([r[q] for r in R], axis=0)
                if len(ks) > 1:
                    ctx.event('average of orders')
                ctx.close(out[j], r, tol, key, scale=sc)
                ctx.check(out[j].dtype == lib.cplx(dtype), 'precision',
                          str(out[j].dtype))
            ctx.event('batched', two)
            ctx.event('l2', not l1)
            ctx.event('custom parameters', bool(opts))
            ctx.event('padded output', rpadded)
    n = 10 if jit else 45
    for i, rng in ctx.cases('ssq_cwt', n, 700, share=.95, min_cases=n // 2):
        N = gen.length(rng, 24, 260)
        two = rng.random() < .25
        x, xk = (gen.batch(rng, 2, N) if two else
                 gen.signal(rng, N, gen.choice(rng, ['noise', 'tones', 'chirp', 'trend'])))
        arg, ks, seq = draw_order(rng)
        opts = {}
        if rng.random() < .5:
            opts = dict(gamma=gen.choice(rng, [2., 3., 4.]),
                        beta=gen.choice(rng, [10., 20, 60.]))
        d = gen.choice(rng, [None, 'float64', 'float64', 'float64'])
        dtype = d or 'float32'
        strs = rng.random() < .3 and N >= 160
        scales = ('log-piecewise' if rng.random() < .5 else 'log') if strs else \
            gen.scales_arr(rng, N)[0]
        padtype = gen.choice(rng, pads[:3] if strs else pads)
        fs = gen.choice(rng, [1., 1., 50., .2])
        kw = dict(scales=scales, padtype=padtype, flipud=bool(rng.random() < .5),
                  squeezing=gen.choice(rng, ['sum', 'sum', 'abs']), fs=fs,
                  get_w=not two and bool(rng.random() < .4))
        if not (strs and scales == 'log-piecewise'):
            kw['maprange'] = gen.choice(rng, ['maximal', (.02*fs, .4*fs)])
        with ctx.run(N=N, x=xk, shape=x.shape, order=arg, opts=opts, dtype=d, **kw):
            wav, form = wav_arg(rng, lib, opts, d, True)
            out = ssq.ssq_cwt(x, wav, order=arg, get_dWx=True, **kw)
            T, W, f, s = out[:4]
            dW = out[-1]
            s0 = (s if strs else scales).astype('float64')
            if dtype == 'float32':
                s0 = s0.astype('float32').astype('float64')
            R = [ref.cwt(x, 'gmw', s0, padtype, False, True, fs, order=k, **opts)
                 for k in ks]
            rW, rdW = np.mean([r[0] for r in R], 0), np.mean([r[1] for r in R], 0)
            tol = tol_for(dtype, opts, ks)
            sc = max(np.abs(rW).max(), 1e-3 * np.abs(x).max())
            ctx.close(W, rW, tol, 'ssq: transform', 'mean over orders', scale=sc)
            sc = max(np.abs(rdW).max(), 1e-3 * np.abs(x).max() * fs)
            if W.shape != rW.shape:
                continue
            ctx.close(dW[..., :N] if dW.shape[-1] == N else dW, rdW, 2 * tol,
                      'ssq: own derivative', scale=sc)
            if dW.shape != W.shape:
                continue
            kk = dict(scales=s, fs=fs, flipud=kw['flipud'], squeezing=kw['squeezing'],
                      gamma=10 * np.finfo(dtype).eps)
            ff = np.asarray(f)[::-1] if kw['flipud'] else np.asarray(f)
            if kw['get_w']:
                w = out[4]
                pw = ref.phase(W.astype('complex128'), dW.astype('complex128'),
                               10 * np.finfo(dtype).eps)
                fin = np.isfinite(pw) & np.isfinite(w) & (
                    np.abs(W) > 1e-3 * np.abs(W).max())
                ctx.close(np.where(fin, w, 0), np.where(fin, pw, 0),
                          1e-3 if dtype == 'float32' else 1e-8, 'ssq: phase transform')
            if np.any(np.diff(ff) == 0):
                # frequencies of piecewise scales may repeat at the discretization's
                # limits (as `ssqueezing` notes); as an argument they are ambiguous
                ctx.event('repeated frequencies')
                continue
            T2, f2 = ssq.ssqueeze(W.copy(), ssq_freqs=ff.copy(), dWx=dW.copy(), **kk)
            ctx.close(f2, f, 1e-6, 'ssq: frequencies')
            lib.tx_close(ctx, T, T2, dtype, 'ssq: squeezed')
            ctx.event('batched', two)
    if not jit:
        x = gen.signal(ctx.rng, 64)[0]
        for name in ('morlet', 'bump', 'cmhat', 'hhhat'):
            for order in (1, (0, 1)):
                ctx.group = 'refused'
                ctx.raises(lambda: ssq.cwt(x, name, scales=np.arange(2, 12.),
                                           order=order), 'refused',
                           f'{name} with order={order}')
