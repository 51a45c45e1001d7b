"""STFT equals its definition, by explicit DFT sums over explicitly indexed segments."""
import numpy as np
from rt import gen, ref

MODES = {'main': {}, 'serial': {'env': {'SSQ_PARALLEL': '0'}}}
SHARDS = {'quick': 1, 'thorough': 3}
REQUIRE = {'Sx = definition': 150, 'dSx = definition': 90, 'hop > 1': 40,
           'unmodulated': 30, 'win_len < n_fft': 30, 'odd n_fft': 30,
           'array window': 30, 'batched': 20}
RULE = ('random (signal, length, batch, window, n_fft, win_len, hop_len, padtype, '
        'modulated, dtype, fs/t); counted once compared with the definition')
ASSUMPTIONS = []


def run(ctx):
    from rt import lib
    from rt.lib import ssq, TOL
    for i, rng in ctx.cases('stft', 150, 2500, min_cases=80):
        N = gen.length(rng, 12, 500)
        two = rng.random() < .25
        x, xk = (gen.batch(rng, int(rng.integers(1, 4)), N) if two else
                 gen.signal(rng, N))
        xin = x
        if rng.random() < .15:
            xin = x.astype('float32')
            x = xin.astype('float64')
        default_n = rng.random() < .1
        hop = int(gen.choice(rng, [1, 1, 2, 3, 5, 8]))
        n_fft = (min(N // hop, 512) if default_n else
                 int(rng.integers(4, min(N, 140) + 1)))
        if n_fft < 4:
            n_fft, default_n = 4, False
        arg, wl, full, wk = lib.window(rng, n_fft)
        dtype = gen.choice(rng, [None, 'float32', 'float64', 'float64'])
        mod = bool(rng.random() < .65)
        deriv = bool(rng.random() < .7)
        padtype = gen.choice(rng, ['reflect', 'reflect', 'zero', 'wrap', 'symmetric',
                                   'replicate'])
        kw = dict(padtype=padtype, modulated=mod, derivative=deriv)
        if dtype:
            kw['dtype'] = dtype
        if not default_n:
            kw['n_fft'] = n_fft
        if not (wl == n_fft and rng.random() < .5):
            kw['win_len'] = wl
        if isinstance(arg, np.ndarray) and rng.random() < .3:
            arg, wl = full.copy(), n_fft    # of length n_fft already
            kw.pop('win_len', None)
        if hop != 1 or rng.random() < .5:
            kw['hop_len'] = hop
        fs = 1.
        if rng.random() < .4:
            fs = kw['fs'] = gen.choice(rng, [.25, 2, 100., 8000.])
        elif rng.random() < .3:
            fs = float(gen.choice(rng, [.5, 4., 100.]))
            kw['t'] = 1.5 + np.arange(N) / fs
            fs = 1 / (kw['t'][1] - kw['t'][0])
        tol = TOL[dtype or 'float32']
        with ctx.run(N=N, x=xk, window=wk, n=n_fft, wl=wl, shape=x.shape, **kw):
            out = ssq.stft(xin, arg, **kw)
            S = out[0] if deriv else out
            R, dR = ref.stft(x, full, hop, padtype, mod, fs)
            s = np.abs(x).max() * np.abs(full).sum() * .2 + np.abs(R).max()
            ctx.close(S, R, tol, 'Sx = definition', 'Sx', scale=s)
            if deriv:
                s = (np.abs(x).max() * np.abs(ref.diff_window(full)).sum() * fs * .2
                     + np.abs(dR).max())
                ctx.close(out[1], dR, tol, 'dSx = definition', 'dSx', scale=s)
            ctx.event('hop > 1', hop > 1)
            ctx.event('unmodulated', not mod)
            ctx.event('win_len < n_fft', wl < n_fft)
            ctx.event('odd n_fft', n_fft % 2)
            ctx.event('array window', isinstance(arg, np.ndarray))
            ctx.event('batched', two)
