"""CWT equals its definition: every cwt call is observed and compared with a
double-precision model which shares no code with the implementation."""
import numpy as np
from rt import gen, ref

MODES = {'main': {}, 'serial': {'env': {'SSQ_PARALLEL': '0'}}}
SHARDS = {'quick': 1, 'thorough': 3}
REQUIRE = {'Wx = definition': 120, 'dWx = definition': 60, 'scales returned': 120,
           'padded transform = definition': 15, 'batched': 20}
RULE = ('random (signal kind, length, batch, wavelet and parameters, form of wavelet '
        'argument, dtype, scales kind, padtype, norm, rpadded, derivative, fs/t, '
        'vectorized, patience-free); counted if outputs were compared with the model')
ASSUMPTIONS = ['default wavelet parameters are those of the shipped configs.ini']


def run(ctx):
    from rt import lib
    from rt.lib import ssq, TOL
    for i, rng in ctx.cases('cwt', 130, 2000, min_cases=65):
        N = gen.length(rng, 4 if rng.random() < .15 else 8, 600)
        l1 = bool(rng.random() < .7)
        name, opts = gen.wavelet(rng, names=None if rng.random() < .9 else ['gmw'])
        dtype_opt, dtype = lib.pick_dtype(rng, name, l1)
        custom = rng.random() < .06
        two = rng.random() < .25
        x, xk = (gen.batch(rng, int(rng.integers(1, 4)), N) if two else
                 gen.signal(rng, N))
        xin = x
        if rng.random() < .15:
            xin = x.astype('float32')
            x = xin.astype('float64')
        sk = gen.choice(rng, ['log', 'log-piecewise', 'array', 'array', 'log:minimal',
                              'log:maximal', 'linear' if N < 100 else 'array'])
        if N < 64 or custom:
            sk = 'array'  # tiny inputs lack presets
        scales = gen.scales_arr(rng, N)[0] if sk == 'array' else sk
        padtype = gen.choice(rng, ['reflect', 'reflect', 'zero', 'symmetric',
                                   'replicate', 'wrap', None])
        rpadded = bool(rng.random() < .2)
        deriv = bool(rng.random() < .6)
        nv = int(gen.choice(rng, [8, 16, 32]))
        kw = dict(scales=scales, padtype=padtype, l1_norm=l1, rpadded=rpadded,
                  derivative=deriv, vectorized=bool(rng.random() < .6))
        if sk != 'array':
            kw['nv'] = nv
        fs = 1.
        u = rng.random()
        if u < .4:
            fs = float(gen.choice(rng, [.01, .5, 2., 100., 44100.]))
            kw['fs'] = fs if u < .3 else np.float64(fs)
        elif u < .6:
            fs = float(gen.choice(rng, [.5, 2., 50.]))
            kw['t'] = rng.uniform(-3, 3) + np.arange(N) / fs
            fs = 1 / (kw['t'][1] - kw['t'][0])
        if sk != 'array':
            # presets need an integrable wavelet; not available for this one
            opts.pop('centered_scale', None)
        if custom:
            wav, form, P = lib.custom_fn, 'function', 'custom'
            dtype = 'float32'
        else:
            wav, form = lib.make_wavelet(rng, name, opts, dtype_opt, l1_norm=l1)
        with ctx.run(N=N, x=xk, wavelet=name if not custom else 'custom', opts=opts,
                     form=form, dtype=dtype, shape=x.shape, **{
                         k: v for k, v in kw.items()}):
            out = ssq.cwt(xin, wav, **kw)
            Wx, sc = out[0], out[1]
            ctx.check(len(out) == (3 if deriv else 2), 'number of outputs')
            ctx.check(sc.ndim == 1 and len(sc) == Wx.shape[-2] and (sc > 0).all(),
                      'scales returned', f'scales {sc.shape} for {Wx.shape}')
            if sk == 'array':
                ctx.close(sc, scales, 1e-6 if dtype == 'float32' else 1e-14,
                          'scales returned = scales given')
            n = N if padtype is None else ref.p2up(N)[0]
            s64 = sc.astype('float64')
            if custom:
                P = lib.custom_fn(s64[:, None] * ref.xi(n))
                if n % 2 == 0:
                    P[:, n // 2] /= 2
                name_, o = 'custom', {}
            else:
                o = dict(opts)
                if name == 'gmw':
                    o.setdefault('norm', 'bandpass' if l1 else 'energy')
                P = ref.filterbank(name, s64, n, **o)
            W, dW = ref.cwt(x, name, s64, padtype, rpadded, l1, fs, P=P)
            tol = TOL[dtype]
            # per row: its own magnitude, plus what the largest bin could contribute
            pm = np.abs(P).max(axis=1, keepdims=True) * (
                1 if l1 else np.sqrt(s64[:, None]))
            xm = np.abs(x).max(axis=-1)
            xm = xm[..., None, None] if two else xm
            fl = (.02 * pm + 1e-3 * (1 if l1 else np.sqrt(s64[:, None]))) * xm
            sw = np.abs(W).max(axis=-1, keepdims=True) + fl
            tag = 'padded transform' if rpadded else 'Wx'
            ctx.close(Wx, W, tol, 'Wx = definition', f'Wx ({tag})', scale=sw)
            if rpadded:
                ctx.event('padded transform = definition')
            if two:
                ctx.event('batched')
            if deriv:
                sd = np.abs(dW).max(axis=-1, keepdims=True) + fl * fs
                ctx.close(out[2], dW, tol, 'dWx = definition', 'dWx', scale=sd)
