"""Precision of outputs by precision asked for, over types and layouts of every argument;
double-precision results against double-precision references."""
import numpy as np
from rt import gen, ref

MODES = {'nojit': {'env': {'SSQ_PARALLEL': '0', 'NUMBA_DISABLE_JIT': '1'},
                   'shards': {'quick': 3, 'thorough': 4}},
         'jit': {'env': {'SSQ_PARALLEL': '1', 'NUMBA_NUM_THREADS': '2'},
                 'shards': {'quick': 2, 'thorough': 3}}}
BUDGET = {'quick': 22, 'thorough': 350}
REQUIRE = {'cwt precision': 200, 'cwt value': 160, 'ssq_cwt precision': 100,
           'ssq_cwt value': 80, 'stft precision': 120, 'stft value': 100,
           'ssq_stft precision': 80, 'ssq_stft value': 60, 'double': 150, 'single': 100,
           'integer input': 80, 'float16 input': 20, 'float32 input': 20,
           'foreign byte order': 20, 'strided': 20, 'fs type': 80, 't type': 40,
           'default precision': 20}
RULE = ('random (argument types and layouts, precision and where it is asked for, '
        'options); counted once dtypes and values were compared')
ASSUMPTIONS = ['double: 1e-10 of the maximum (measured: ~1e-13)']
TOL = {'float32': 3e-4, 'float64': 1e-10}


def typed(rng, x, ctx):
    """`(input given to the code, the same values in double)`."""
    kind = gen.choice(rng, ['float64', 'float64', 'float32', 'float16', 'int8', 'uint8',
                            'int16', 'int32', 'int64', 'uint16', 'bool', '>f8', '>f4',
                            '>i2', 'longdouble'])
    x = x / max(np.abs(x).max(), 1e-9) * 100
    if kind == 'bool':
        x = x > 0
    elif kind[0] == 'u':
        x = np.abs(x)
    y = x.astype(kind)
    if np.dtype(kind).kind in 'iub':
        ctx.event('integer input')
    elif kind == 'float16':
        ctx.event('float16 input')
    elif kind == 'float32':
        ctx.event('float32 input')
    if kind[0] == '>':
        ctx.event('foreign byte order')
    v = y.astype('float64')
    lay = gen.choice(rng, ['C', 'C', 'strided', 'reversed', 'F', 'readonly'])
    if lay == 'strided':
        z = np.zeros(y.shape[:-1] + (2*y.shape[-1],), y.dtype)
        z[..., ::2] = y
        y = z[..., ::2]
        ctx.event('strided')
    elif lay == 'reversed':
        y = y[..., ::-1].copy()[..., ::-1]
        ctx.event('strided')
    elif lay == 'F':
        y = np.asfortranarray(y)
    elif lay == 'readonly':
        y = y.copy()
        y.setflags(write=False)
    return y, v, f'{kind} {lay}'


def rate(rng, N, ctx):
    """Arguments giving the sampling rate, and it."""
    u = rng.random()
    if u < .2:
        return {}, 1.
    if u < .7:
        fs = gen.choice(rng, [2, 50, 100])
        ty = gen.choice(rng, [int, float, np.float32, np.float64, np.int32, np.int64,
                              np.uint8, np.float16])
        if ty is float and rng.random() < .5:
            fs = .3
        ctx.event('fs type')
        return {'fs': ty(fs)}, float(ty(fs))
    ctx.event('t type')
    ty = gen.choice(rng, ['float64', 'float64', 'float32', 'int64', 'int32', 'list'])
    if ty in ('int64', 'int32'):
        step = int(rng.integers(1, 5))
        return {'t': np.arange(N, dtype=ty) * np.asarray(step, ty)}, 1 / step
    if ty == 'list':
        return {'t': [float(k) / 4 for k in range(N)]}, 4.
    fs = gen.choice(rng, [2., 64., .5])
    return {'t': (np.arange(N) / fs).astype(ty)}, fs


def asked(rng, lib, name, opts, d, N, l1=True):
    """Wavelet argument by one of the ways to ask for precision `d`."""
    from ssqueezepy import Wavelet
    o = dict(opts)
    if name == 'gmw' and not l1:
        o['norm'] = 'energy'
    way = gen.choice(rng, ['options', 'Wavelet options', 'Wavelet dtype'])
    if d is None:
        way = gen.choice(rng, ['options', 'Wavelet options'])
        if way == 'options' and not o and rng.random() < .7:
            return name, 'name'
    elif way != 'Wavelet dtype':
        o['dtype'] = d
    if way == 'options':
        return (name, o), way
    kw = {'N': int(rng.integers(8, 600))} if rng.random() < .4 else {}
    if way == 'Wavelet dtype':
        kw['dtype'] = d
    return Wavelet((name, o), **kw), way


def run(ctx):
    from rt import lib
    from rt.lib import ssq
    jit = ctx.mode == 'jit'
    n = 30 if jit else 100
    for i, rng in ctx.cases('cwt', n, 1600, share=.5, min_cases=n // 2):
        N = gen.length(rng, 16, 300)
        x = (gen.batch(rng, 2, N)[0] if rng.random() < .25 else gen.signal(rng, N)[0])
        xin, x, xk = typed(rng, x, ctx)
        l1 = bool(rng.random() < .8)
        name, opts = gen.wavelet(rng)
        d = gen.choice(rng, [None, 'float32', 'float64', 'float64'])
        order = int(rng.integers(0, 3)) if name == 'gmw' and rng.random() < .4 else 0
        rk, fs = rate(rng, N, ctx)
        scales = gen.scales_arr(rng, N)[0]
        sdt = gen.choice(rng, ['float64', 'float64', 'float32'])
        scales = scales.astype(sdt)
        do_ssq = rng.random() < .45
        pads = ['reflect', 'zero', 'wrap', 'symmetric', 'replicate', None]
        kw = dict(padtype=gen.choice(rng, pads), vectorized=bool(rng.random() < .7),
                  order=order, **rk)
        if rng.random() < .3:
            kw['nan_checks'] = False
        with ctx.run(N=N, x=xk, shape=x.shape, wavelet=name, opts=opts, dtype=d, l1=l1,
                     scales=sdt, na=len(scales), ssq=do_ssq, **kw):
            wav, way = asked(rng, lib, name, opts, d, N, l1 or do_ssq)
            prec = d or 'float32'
            if name == 'gmw' and not (l1 or do_ssq):
                prec = 'float64'   # documented: the only one supported
            ctx.event('double' if prec == 'float64' else 'single')
            ctx.event('default precision', d is None)
            s = scales.astype('float64')
            if prec == 'float32':
                s = s.astype('float32').astype('float64')
            amp = 1 if not order else (1 + 4 * order**2) * 4
            o = {**opts, **({'order': order} if order else {})}
            if do_ssq:
                get_w = x.ndim == 1 and rng.random() < .5
                sqz = gen.choice(rng, ['sum', 'abs'])
                nf = int(rng.integers(12, 40))
                out = ssq.ssq_cwt(
                    xin, wav, scales=scales, get_w=get_w, get_dWx=True, squeezing=sqz,
                    ssq_freqs=np.linspace(.02, .5, nf) * fs, **kw)
                T, W, dW = out[0], out[1], out[-1]
                w = out[4] if get_w else None
                for a, k in ((T, 'Tx'), (W, 'Wx'), (dW, 'dWx')):
                    want = prec if k == 'Tx' and sqz == 'abs' else lib.cplx(prec)
                    if k == 'Tx' and sqz == 'abs' and a.dtype.kind == 'c':
                        want = lib.cplx(prec)
                    ctx.check(a.dtype == want, 'ssq_cwt precision',
                              f'{k}: {a.dtype}, asked for {prec} ({way})')
                if get_w:
                    ctx.check(w.dtype == prec, 'ssq_cwt precision', f'w: {w.dtype}')
                R, dR = ref.cwt(x, name, s, kw['padtype'], False, True, fs, **o)
                sc = np.abs(R).max() + 1e-3 * np.abs(x).max()
                ctx.close(W, R, TOL[prec] * amp, 'ssq_cwt value', 'Wx', scale=sc)
                sc = np.abs(dR).max() + 1e-3 * np.abs(x).max() * fs
                ctx.close(dW, dR, TOL[prec] * amp, 'ssq_cwt value', 'dWx', scale=sc)
                # what's reassigned: all above threshold, times constant spacing
                if W.shape != R.shape:
                    continue
                ls = np.log(s)
                if np.ptp(np.diff(ls)) < 1e-4 * np.diff(ls).mean() and len(s) > 2:
                    c = np.full((len(s), 1), ls[1] - ls[0])
                elif np.ptp(np.diff(s)) < 1e-4 * np.diff(s).mean() and len(s) > 2:
                    c = ((s[1] - s[0]) / s)[:, None]
                else:
                    continue
                W2 = np.asarray(W, 'complex128')
                if sqz == 'abs':
                    W2 = np.abs(W2)
                keep = np.abs(W) >= 10 * np.finfo(prec).eps
                cs = (W2 * c * keep).sum(axis=-2)
                sc = (np.abs(W2) * c).sum(axis=-2).max()
                if sc > 1e3 * np.finfo(prec).eps * len(s):
                    lo = 10 * np.finfo(prec).eps * c.sum() * 4
                    ctx.close(T.sum(axis=-2, dtype='complex128'), cs,
                              1e-5 if 'float32' in (prec, sdt) else 1e-11,
                              'ssq_cwt value', 'column sums',
                              scale=sc + lo * (1e5 if prec == 'float32' else 1e11))
            else:
                der = bool(rng.random() < .6)
                out = ssq.cwt(xin, wav, scales=scales, derivative=der, l1_norm=l1, **kw)
                for a in (out[0],) + out[2:]:
                    ctx.check(a.dtype == lib.cplx(prec), 'cwt precision',
                              f'{a.dtype}, asked for {prec} ({way})')
                R, dR = ref.cwt(x, name, s, kw['padtype'], False, l1, fs, **o)
                sc = np.abs(R).max() + 1e-3 * np.abs(x).max()
                ctx.close(out[0], R, TOL[prec] * amp, 'cwt value', 'Wx', scale=sc)
                ctx.close(out[1], s, 1e-7 if prec == 'float32' else 1e-14, 'cwt value',
                          'scales')
                if der:
                    sc = np.abs(dR).max() + 1e-3 * np.abs(x).max() * fs
                    ctx.close(out[2], dR, TOL[prec] * amp, 'cwt value', 'dWx', scale=sc)
    n = 24 if jit else 80
    for i, rng in ctx.cases('stft', n, 1400, share=.95, min_cases=n // 2):
        N = gen.length(rng, 20, 300)
        x = (gen.batch(rng, 2, N)[0] if rng.random() < .2 else gen.signal(rng, N)[0])
        xin, x, xk = typed(rng, x, ctx)
        n_fft = int(rng.integers(8, min(N, 120)))
        arg, wl, full, wk = lib.window(rng, n_fft)
        if isinstance(arg, np.ndarray):
            wdt = gen.choice(rng, ['float64', 'float64', 'float32', 'int64'])
            if wdt != 'float64':
                arg = (arg if wdt == 'float32' else
                       1 + np.round(arg * 50)).astype(wdt)
                a2 = arg.astype('float64')
                pl = (n_fft - wl) // 2
                full = np.pad(a2, [pl, n_fft - wl - pl])
            wk = f'array {wdt}'
        d = gen.choice(rng, [None, 'float32', 'float64', 'float64'])
        prec = d or 'float32'
        rk, fs = rate(rng, N, ctx)
        kw = dict(n_fft=n_fft, win_len=wl, **rk)
        if d:
            kw['dtype'] = d
        kw['padtype'] = gen.choice(rng, ['reflect', 'zero', 'wrap'])
        kw['modulated'] = bool(rng.random() < .75)
        do_ssq = rng.random() < .45
        ctx.event('double' if prec == 'float64' else 'single')
        with ctx.run(N=N, x=xk, shape=x.shape, window=wk, ssq=do_ssq, **kw):
            if do_ssq:
                get_w = x.ndim == 1 and rng.random() < .5
                kw['modulated'] = True
                if rng.random() < .3:
                    kw['ssq_freqs'] = np.linspace(0, .5, n_fft // 2 + 1) * fs
                out = ssq.ssq_stft(xin, arg, get_w=get_w, get_dWx=True, **kw)
                T, S, f, Sf, dS = *out[:4], out[-1]
                for a in (T, S, dS):
                    ctx.check(a.dtype == lib.cplx(prec), 'ssq_stft precision',
                              f'{a.dtype}, asked for {prec}')
                if get_w:
                    ctx.check(out[4].dtype == prec, 'ssq_stft precision', 'w')
                R, dR = ref.stft(x, full, 1, kw['padtype'], True, fs)
                key = 'ssq_stft value'
            else:
                hop = int(rng.integers(1, 4))
                S, dS = ssq.stft(xin, arg, hop_len=hop, derivative=True, **kw)
                for a in (S, dS):
                    ctx.check(a.dtype == lib.cplx(prec), 'stft precision',
                              f'{a.dtype}, asked for {prec}')
                R, dR = ref.stft(x, full, hop, kw['padtype'], kw['modulated'], fs)
                key = 'stft value'
            s = np.abs(x).max() * np.abs(full).sum() * .2 + np.abs(R).max()
            ctx.close(S, R, TOL[prec], key, 'Sx', scale=s)
            s = (np.abs(x).max() * np.abs(ref.diff_window(full)).sum() * fs * .2
                 + np.abs(dR).max())
            ctx.close(dS, dR, TOL[prec], key, 'dSx', scale=s)
            if do_ssq and S.shape == R.shape:
                f = np.sort(np.asarray(f, 'float64').ravel())
                c = (f[1] - f[0]) / fs
                keep = np.abs(S) >= 10 * np.finfo(prec).eps
                cs = (S.astype('complex128') * keep).sum(axis=-2) * c
                sc = np.abs(S).astype('float64').sum(axis=-2).max() * c
                lo = 40 * np.finfo(prec).eps * c * S.shape[-2]
                if sc > 0:
                    ctx.close(T.sum(axis=-2, dtype='complex128'), cs,
                              2e-5 if prec == 'float32' else 1e-11,
                              'ssq_stft value', 'column sums',
                              scale=sc + lo * (1e5 if prec == 'float32' else 1e11))
