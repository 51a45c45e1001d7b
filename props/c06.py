"""istft(stft(x)) == x wherever windows overlap."""
import numpy as np
from rt import gen, ref

MODES = {'main': {}, 'serial': {'env': {'SSQ_PARALLEL': '0'}}}
SHARDS = {'quick': 1, 'thorough': 3}
REQUIRE = {'perfect inversion': 150, 'hop > 1': 50, 'unmodulated': 30, 'odd n_fft': 30,
           'win_exp': 50, 'inversion at small norm': 20,
           'norm below eps': 8, 'N given': 60, 'output length': 150}
RULE = ('random (signal, length, window, n_fft, win_len, hop_len, modulated, win_exp, '
        'dtype) whose overlap-added window norm is bounded away from zero')
ASSUMPTIONS = ['double precision unless noted; float32 with a looser tolerance']


def run(ctx):
    from rt import lib
    from rt.lib import ssq
    from ssqueezepy import istft
    for i, rng in ctx.cases('istft', 170, 2500, min_cases=100):
        N = gen.length(rng, 8, 500)
        x, xk = gen.signal(rng, N)
        n_fft = int(rng.integers(2 if rng.random() < .2 else 4, min(N, 140) + 1))
        arg, wl, full, wk = lib.window(rng, n_fft)
        hop = int(gen.choice(rng, [1, 1, 2, 3, 4, 7, int(rng.integers(1, n_fft + 1))]))
        mod = bool(rng.random() < .65)
        we = gen.choice(rng, [1, 1, 2, 0, .5])
        if (full < 0).any() and we == .5:
            we = 1
        dtype = gen.choice(rng, ['float64', 'float64', 'float32'])
        padtype = gen.choice(rng, ['reflect', 'zero', 'wrap'])
        # window norm at each sample covered by frames
        nfr = -(-N // hop)
        starts = np.arange(nfr) * hop
        wn = np.zeros(starts[-1] + n_fft + N + n_fft)
        for s in starts:
            wn[s:s + n_fft] += full**(we + 1)
        wn = wn[n_fft//2:n_fft//2 + N]
        if wn.min() < (1e-6 if dtype == 'float64' else 1e-2) * wn.max():
            continue
        with ctx.run(N=N, x=xk, window=wk, n=n_fft, wl=wl, hop=hop, mod=mod, we=we,
                     dtype=dtype, padtype=padtype):
            kw = dict(n_fft=n_fft, win_len=wl, hop_len=hop, modulated=mod)
            S = ssq.stft(x, arg, dtype=dtype, padtype=padtype, **kw)
            ctx.check(S.shape == (n_fft//2 + 1, nfr), 'number of frames',
                      f'{S.shape}, expected {(n_fft//2 + 1, nfr)}')
            ik = dict(kw)
            given = rng.random() < .6 or N % hop
            if given:
                ik['N'] = N
                ctx.event('N given')
            if n_fft % 2 == 0 and n_fft > 2 and rng.random() < .3:
                ik.pop('n_fft')
            Sc = S.copy()
            y = istft(S, arg, win_exp=we, **ik)
            ctx.check(y.shape == (N,), 'output length', f'{y.shape} for N={N}, {ik}')
            # relative noise amplification by the norm's smallest values
            amp = wn.max() / wn.min()
            tol = (1e-12 if dtype == 'float64' else 2e-6) * min(amp, 1e5)
            if y.shape == x.shape:
                ctx.close(y, x, tol, 'perfect inversion', f'istft(stft(x)), amp={amp:.1f}',
                          scale=np.abs(x).max())
            ctx.equal(S, Sc, 'transform not modified')
            ctx.event('hop > 1', hop > 1)
            ctx.event('unmodulated', not mod)
            ctx.event('odd n_fft', n_fft % 2)
            ctx.event('win_exp', we != 1)

    # windows which barely overlap: their norm is positive everywhere, but tiny where
    # they meet, so that samples there are small multiples of noise amplified by it
    for i, rng in ctx.cases('barely overlapping', 24, 400, min_cases=16):
        dtype = gen.choice(rng, ['float64', 'float32'])
        n_fft = int(rng.integers(16, 65))
        hop = n_fft - int(rng.integers(1, 3))
        eps = np.finfo(dtype).eps
        p = rng.uniform(.5, 4)
        if dtype == 'float32':      # least norm about 1e-9..1e-7
            p = rng.uniform(-9, -7) / (2 * np.log10(np.sin(np.pi * .5 * (n_fft - hop)
                                                          / n_fft)))
        full = np.sin(np.pi * (np.arange(n_fft) + .5) / n_fft)**p
        N = hop * int(rng.integers(4, 9))
        wn = np.zeros(N + 2 * n_fft)
        for s0 in range(0, N, hop):
            wn[s0:s0 + n_fft] += full**2
        lo, hi = n_fft // 2, N - n_fft      # frames cover all of these samples
        wn = wn[n_fft // 2:][:N]
        # noise of the transforms is amplified by window / norm
        tol = 40 * eps * np.sqrt(wn.max() / wn[:hi].min())
        if tol > .2 or wn[:hi].min() < 1e-10:
            continue
        x = rng.standard_normal(N)
        mod = bool(rng.random() < .6)
        with ctx.run(n=n_fft, hop=hop, N=N, p=p, dtype=dtype, mod=mod):
            S = ssq.stft(x, full.copy(), n_fft=n_fft, hop_len=hop, dtype=dtype,
                         modulated=mod)
            y = istft(S, full.copy(), n_fft=n_fft, hop_len=hop, N=N, modulated=mod)
            ctx.check(y.shape == x.shape, 'output length', f'{y.shape}')
            ctx.close(y[:hi], x[:hi], tol, 'inversion at small norm',
                      f'least norm {wn[:hi].min():.2g}', scale=np.abs(x).max())
            ctx.event('norm below eps', wn[:hi].min() < eps)
