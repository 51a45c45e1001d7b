"""Execution modes: each observed call is repeated under every other execution mode
and the recorded outputs are compared."""
import os
import numpy as np
from rt import gen

MODES = {'main': {}}
SHARDS = {'quick': 3, 'thorough': 4}
REQUIRE = {'cwt mode': 60, 'ssq_cwt mode': 30, 'stft mode': 10, 'ssq_stft mode': 10,
           'parallel off': 10, 'patience': 3, 'cache_wavelet': 8, 'form': 10}
BUDGET = {'quick': 45, 'thorough': 420}
RULE = 'random call x pair of execution modes; counted once outputs were compared'
ASSUMPTIONS = ['float32 routes may place coefficients differently between two bins '
               'whose boundary is within rounding of their frequency']


def variants(rng, thorough, small):
    v = [dict(vectorized=True), dict(vectorized=False), dict(cache_wavelet=True),
         dict(cache_wavelet=False), dict(parallel='0'),
         dict(parallel='0', vectorized=False), dict(form='instance'),
         dict(form='instance', cache_wavelet=True),
         dict(form='instance', cache_wavelet=True, repeat=True),
         dict(form='tuple'), dict(patience=gen.choice(rng, [0, 1, (1, 2)] if small else [0]))]
    k = 4 if not thorough else 6
    return [v[i] for i in rng.permutation(len(v))[:k]]


def run(ctx):
    from rt import lib
    from rt.lib import ssq, TOL
    for i, rng in ctx.cases('modes', 30, 700, share=.8, min_cases=12):
        N = gen.length(rng, 16, 500)
        name, opts = gen.wavelet(rng)
        d, dtype = lib.pick_dtype(rng, name)
        two = rng.random() < .3
        x, xk = gen.batch(rng, 2, N) if two else gen.signal(rng, N)
        sk = gen.choice(rng, ['log-piecewise', 'array', 'log']) if N >= 160 else 'array'
        if sk != 'array':
            opts.pop('centered_scale', None)
        scales = gen.scales_arr(rng, N)[0] if sk == 'array' else sk
        order = int(rng.integers(1, 3)) if name == 'gmw' and rng.random() < .15 else 0
        kw = dict(scales=scales, padtype=gen.choice(rng, ['reflect', 'zero', 'wrap',
                                                         None]), order=order)
        if kw['padtype'] is None and sk == 'log-piecewise':
            kw['padtype'] = 'reflect'
        # FFTW's planning takes seconds to minutes otherwise
        small = sk == 'array' and N <= 100 and len(scales) <= 60
        deriv = bool(rng.random() < .5)
        l1 = bool(rng.random() < .8) or name != 'gmw'

        def call(fn, form='tuple', parallel='1', repeat=False, **v):
            wav, _ = lib.make_wavelet(rng, name, opts, d, form=form,
                                      l1_norm=l1 or fn is ssq.ssq_cwt)
            with lib.with_env(SSQ_PARALLEL=parallel):
                for _ in range(2 if repeat else 1):
                    if fn is ssq.cwt:
                        out = fn(x, wav, derivative=deriv, l1_norm=l1, **kw, **v)
                    else:
                        out = fn(x, wav, **kw, **v, **sq)
            return out

        sq = dict(squeezing=gen.choice(rng, ['sum', 'sum', 'abs']),
                  maprange=gen.choice(rng, ['peak', 'maximal'] if sk != 'log-piecewise'
                                      else ['peak']),
                  flipud=bool(rng.random() < .5))
        do_ssq = rng.random() < .5
        if do_ssq and dtype == 'float32' and rng.random() < .6:
            d = dtype = 'float64'
        fn = ssq.ssq_cwt if do_ssq else ssq.cwt
        if do_ssq:
            l1 = True
        with ctx.run(N=N, x=xk, wavelet=name, opts=opts, dtype=dtype, fn=fn.__name__,
                     shape=x.shape, l1=l1, deriv=deriv, **kw):
            base = call(fn)
        for v in variants(rng, ctx.thorough, small):
            with ctx.run(N=N, x=xk, wavelet=name, opts=opts, dtype=dtype, variant=v,
                         fn=fn.__name__, shape=x.shape, l1=l1, deriv=deriv, **kw):
                out = call(fn, **v)
                ctx.event('parallel off', 'parallel' in v)
                ctx.event('patience', 'patience' in v)
                ctx.event('cache_wavelet', 'cache_wavelet' in v)
                ctx.event('form', 'form' in v)
                tol = TOL[dtype]
                if fn is ssq.cwt:
                    for j, (a, b) in enumerate(zip(out, base)):
                        ctx.close(a, b, tol, 'cwt mode', f'output {j}, {v}')
                        ctx.check(a.dtype == b.dtype, 'dtypes agree')
                else:
                    lib.tx_close(ctx, out[0], base[0], dtype, 'ssq_cwt mode', str(v))
                    for j in (1, 2, 3):
                        ctx.close(out[j], base[j], tol, 'ssq_cwt mode',
                                  f'output {j}, {v}')
    for i, rng in ctx.cases('stft', 12, 200, min_cases=5):
        N = gen.length(rng, 24, 500)
        two = rng.random() < .3
        x, xk = gen.batch(rng, 2, N) if two else gen.signal(rng, N)
        n_fft = int(rng.integers(6, min(N, 130)))
        arg, wl, _, wk = lib.window(rng, n_fft)
        dtype = gen.choice(rng, ['float32', 'float64', 'float64'])
        kw = dict(window=arg, n_fft=n_fft, win_len=wl, dtype=dtype,
                  modulated=bool(rng.random() < .7), fs=gen.choice(rng, [1., 50.]))
        sq = dict(flipud=bool(rng.random() < .5))
        with ctx.run(N=N, x=xk, window=wk, **{k: v for k, v in kw.items()
                                              if k != 'window'}):
            outs = {}
            for par in ('1', '0'):
                with lib.with_env(SSQ_PARALLEL=par):
                    outs[par] = (ssq.stft(x, derivative=True, **kw),
                                 ssq.ssq_stft(x, **kw, **sq))
            for a, b in zip(outs['0'][0], outs['1'][0]):
                ctx.close(a, b, TOL[dtype], 'stft mode', 'parallel off')
            lib.tx_close(ctx, outs['0'][1][0], outs['1'][1][0], dtype, 'ssq_stft mode')
            for j in (1, 2, 3):
                ctx.close(outs['0'][1][j], outs['1'][1][j], TOL[dtype], 'ssq_stft mode')
