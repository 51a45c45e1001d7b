"""Batches: every batched call is observed next to the calls for its items."""
import numpy as np
from rt import gen

MODES = {'main': {}}
SHARDS = {'quick': 2, 'thorough': 4}
REQUIRE = {'cwt batch': 60, 'ssq_cwt batch': 40, 'stft batch': 30, 'ssq_stft batch': 30,
           'icwt batch': 10, 'isolation': 8}
RULE = 'random batched call and its items; counted once each item was compared'
ASSUMPTIONS = []


def run(ctx):
    from rt import lib
    from rt.lib import ssq, TOL
    for i, rng in ctx.cases('cwt', 40, 800, share=.6, min_cases=24):
        N = gen.length(rng, 16, 400)
        B = int(rng.integers(2, 5))
        name, opts = gen.wavelet(rng)
        d, dtype = lib.pick_dtype(rng, name)
        x, xk = gen.batch(rng, B, N)
        sk = gen.choice(rng, ['log-piecewise', 'array', 'array', 'log']) \
            if N >= 160 else 'array'
        if sk != 'array':
            opts.pop('centered_scale', None)
        scales = gen.scales_arr(rng, N)[0] if sk == 'array' else sk
        u = rng.random()
        order = (0 if name != 'gmw' or u < .7 else gen.choice(rng, [1, 2, (0, 1), (0, 2),
                                                                    [0, 1]]))
        pads = ['reflect', 'zero', 'wrap', 'symmetric', 'replicate']
        if sk != 'log-piecewise':
            pads.append(None)
        kw = dict(scales=scales, padtype=gen.choice(rng, pads), order=order,
                  vectorized=bool(rng.random() < .6))
        if rng.random() < .3:
            kw['fs'] = 20.
        form = gen.choice(rng, ['tuple', 'instance'])
        nan = rng.random() < .15
        if nan:  # NaN in one item
            x[0, int(rng.integers(N))] = np.nan
        do_ssq = rng.random() < .45 and not isinstance(order, list)
        if do_ssq:
            if dtype == 'float32' and rng.random() < .6:
                d = dtype = 'float64'
            sq = dict(squeezing=gen.choice(rng, ['sum', 'sum', 'abs']),
                      flipud=bool(rng.random() < .5), get_dWx=bool(rng.random() < .5))
            sq['preserve_transform'] = gen.choice(rng, [None, True, False])
            if sk != 'log-piecewise':
                sq['maprange'] = gen.choice(rng, ['peak', 'maximal', (.01, .4)])
        else:
            der, l1 = bool(rng.random() < .6), bool(rng.random() < .8) or name != 'gmw'
            ck = dict(derivative=der, l1_norm=l1, rpadded=bool(rng.random() < .2))
        with ctx.run(N=N, B=B, x=xk, wavelet=name, opts=opts, dtype=dtype, nan=nan,
                     ssq=do_ssq, **kw, **(sq if do_ssq else ck)):
            def call(z):
                wav, _ = lib.make_wavelet(rng, name, opts, d, form=form,
                                          l1_norm=do_ssq or l1)
                return (ssq.ssq_cwt(z, wav, **kw, **sq) if do_ssq else
                        ssq.cwt(z, wav, **kw, **ck))
            full = call(x)
            items = [call(x[b]) for b in range(B)]
            for b in range(B):
                if do_ssq:
                    if not ctx.check(full[0].shape == (B,) + items[b][0].shape,
                                     'batch shape', f'{full[0].shape}'):
                        continue
                    if kw['fs'] == 20. if 'fs' in kw else False:
                        ctx.event('batch with fs')
                    lib.tx_close(ctx, full[0][b], items[b][0], dtype, 'ssq_cwt batch')
                    if sq['preserve_transform'] is not False:
                        ctx.close(full[1][b], items[b][1], TOL[dtype], 'ssq_cwt batch')
                    for j in (2, 3):
                        ctx.close(full[j], items[b][j], 1e-6, 'ssq_cwt batch')
                    if sq['get_dWx']:
                        ctx.close(full[4][b], items[b][4], TOL[dtype], 'ssq_cwt batch')
                else:
                    for j in (0, 2):
                        if j >= len(full):
                            continue
                        fj, ij = full[j], items[b][j]
                        if not isinstance(fj, list):
                            fj, ij = [fj], [ij]
                        for f_, i_ in zip(fj, ij):
                            if ctx.check(f_.shape == (B,) + i_.shape, 'batch shape',
                                         f'{f_.shape} vs item {i_.shape}'):
                                ctx.close(f_[b], i_, TOL[dtype], 'cwt batch')
                    ctx.close(full[1], items[b][1], 1e-6, 'cwt batch')
            # an item of a batch doesn't depend on the others
            if not do_ssq and not nan and rng.random() < .5:
                y = x.copy()
                y[0] = 1e3 * gen.signal(rng, N)[0]
                o2 = call(y)
                a, b_ = (o2[0][0], full[0][0]) if isinstance(full[0], list) else (
                    o2[0], full[0])
                ctx.close(a[1:], b_[1:], 1e-12 if dtype == 'float64' else 1e-6,
                          'isolation', 'items 1.. after changing item 0')
            if not do_ssq and not isinstance(full[0], list) and order == 0 \
                    and not ck['rpadded'] and len(full[1]) > 4:
                from ssqueezepy import icwt
                W = full[0]
                xm = rng.standard_normal(B)
                wav, _ = lib.make_wavelet(rng, name, opts, d, form='tuple', l1_norm=l1)
                s_arg = full[1]
                r = icwt(W, wav, scales=s_arg, x_mean=xm, l1_norm=l1)
                for b in range(B):
                    ctx.close(r[b], icwt(W[b], wav, scales=s_arg, x_mean=xm[b],
                                         l1_norm=l1), TOL[dtype], 'icwt batch')
    for i, rng in ctx.cases('stft', 30, 600, min_cases=20):
        N = gen.length(rng, 24, 400)
        B = int(rng.integers(2, 5))
        x, xk = gen.batch(rng, B, N)
        n_fft = int(rng.integers(6, min(N, 130)))
        arg, wl, _, wk = lib.window(rng, n_fft)
        dtype = gen.choice(rng, ['float32', 'float64', 'float64'])
        kw = dict(n_fft=n_fft, win_len=wl, dtype=dtype,
                  modulated=bool(rng.random() < .7), fs=gen.choice(rng, [1., 50.]),
                  padtype=gen.choice(rng, ['reflect', 'zero', 'wrap']))
        hop = int(rng.integers(1, 6))
        sq = dict(flipud=bool(rng.random() < .5),
                  squeezing=gen.choice(rng, ['sum', 'abs']))
        with ctx.run(N=N, B=B, x=xk, window=wk, hop=hop, **kw, **sq):
            S, dS = ssq.stft(x, arg, hop_len=hop, derivative=True, **kw)
            out = ssq.ssq_stft(x, arg, get_dWx=True, **kw, **sq)
            for b in range(B):
                s, ds = ssq.stft(x[b], arg, hop_len=hop, derivative=True, **kw)
                ctx.close(S[b], s, TOL[dtype], 'stft batch')
                ctx.close(dS[b], ds, TOL[dtype], 'stft batch')
                o = ssq.ssq_stft(x[b], arg, get_dWx=True, **kw, **sq)
                lib.tx_close(ctx, out[0][b], o[0], dtype, 'ssq_stft batch')
                ctx.close(out[1][b], o[1], TOL[dtype], 'ssq_stft batch')
                ctx.close(out[4][b], o[4], TOL[dtype], 'ssq_stft batch')
                ctx.close(out[2], o[2], 1e-6, 'ssq_stft batch')
