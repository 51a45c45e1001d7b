"""Reassignment: transforms with a single active coefficient per time show which row it
went to; whole pipelines are compared with reassignment by exhaustive search."""
import numpy as np
from rt import gen, ref, sq

MODES = {'main': {}, 'serial': {'env': {'SSQ_PARALLEL': '0'}}}
SHARDS = {'quick': 1, 'thorough': 3}
REQUIRE = {'nearest row': 20000, 'right value': 100, 'pipeline: ssq_cwt': 30,
           'pipeline: ssq_stft': 20, 'frequencies returned': 100, 'flipud': 40,
           'log': 20, 'linear': 20, 'log-piecewise': 20, 'below range': 500,
           'above range': 500}
RULE = ('random frequencies x kernels with one active coefficient per time; each '
        'coefficient is an observation of the row it was put in')
ASSUMPTIONS = ['distances compared with slack for rounding (1e-6 of bin spacing in '
               'double precision, 2% in single)']


def best(w, f, kind):
    """(distance to nearest, local spacing) for flat `w`."""
    D = ref.bin_distance(w, f, kind)
    return D


def run(ctx):
    from rt import lib
    from rt.lib import ssq
    from ssqueezepy.ssqueezing import ssqueeze
    from props.c04 import weights
    for i, rng in ctx.cases('single', 110, 2500, share=.6, min_cases=70):
        n, na = int(rng.integers(60, 400)), int(rng.integers(12, 60))
        transform = gen.choice(rng, ['cwt', 'cwt', 'cwt', 'stft'])
        cdt = gen.choice(rng, ['complex64', 'complex128', 'complex128'])
        fdt = 'float32' if cdt == 'complex64' else 'float64'
        fk = 'linear' if transform == 'stft' else gen.choice(
            rng, ['linear', 'log', 'log-piecewise'])
        nf = na if rng.random() < .4 else int(rng.integers(12, 120))
        v = sq.freqs(rng, nf, fk, gen.choice(rng, ['float64', 'float64', 'float32']))
        shape = (na, n)
        row = rng.integers(0, na, n)
        w = sq.phases(rng, v.astype('float64'), n)
        if cdt == 'complex64':
            w = np.minimum(w, 1e20)
        W = np.zeros(shape, cdt)
        a = sq.transform(rng, n, cdt)
        W[row, np.arange(n)] = a
        flip = bool(rng.random() < .5)
        fs = gen.choice(rng, [1., 50., .1])
        from_w = rng.random() < .5
        kw = dict(ssq_freqs=v.copy(), flipud=flip, fs=fs, transform=transform)
        if transform == 'cwt':
            kw['scales'] = 2**(np.arange(1, na + 1) / 16)
            const = np.log(2) / 16
        else:
            kw['Sfs'] = np.linspace(0, .5*fs, na).astype(fdt)
            const = float(v[1] - v[0]) / fs
        squeezing = gen.choice(rng, ['sum', 'sum', 'abs'])
        kw['squeezing'] = squeezing
        if from_w:
            ww = np.full(shape, np.inf, fdt)
            ww[row, np.arange(n)] = w
            w = ww[row, np.arange(n)].astype('float64')
            kw['w'] = ww
        else:
            om = w if transform == 'cwt' else kw['Sfs'][row].astype('float64') - w
            dW = np.zeros(shape, cdt)
            dW[row, np.arange(n)] = (a.astype('complex128') * 2j*np.pi*om).astype(cdt)
            kw['dWx'], kw['gamma'] = dW, 1e-6
            # what the quotient of rounded values amounts to
            q = np.imag(dW[row, np.arange(n)].astype('complex128') /
                        a.astype('complex128')) / (2*np.pi)
            w = np.abs(q if transform == 'cwt' else
                       kw['Sfs'][row].astype('float64') - q)
        with ctx.run(na=na, n=n, transform=transform, dtype=cdt, freqs=fk, nf=nf,
                     squeezing=squeezing, flip=flip, from_w=from_w, fdtype=v.dtype):
            Tx, f = ssqueeze(W.copy(), **kw)
            f = np.asarray(f)
            ctx.event('flipud', flip)
            ctx.event(fk)
            ctx.close(f, v[::-1] if flip else v, 1e-7, 'frequencies returned',
                      'returned frequencies vs given (reversed if flipud)')
            if not ctx.check(Tx.shape == (nf, n), 'rows = frequencies', str(Tx.shape)):
                continue
            nz = np.abs(Tx) > 0
            one = nz.sum(axis=0)
            if not ctx.check((one == 1).all(), 'one row per coefficient',
                             f'{one.min()}..{one.max()} rows'):
                continue
            k = nz.argmax(axis=0)
            got = Tx[k, np.arange(n)]
            ctx.close(got, (np.abs(a) if squeezing == 'abs' else a) * const,
                      1e-4 if fdt == 'float32' or v.dtype == 'float32' else 1e-9,
                      'right value', scale=np.abs(a) * const)
            D = ref.bin_distance(w, f, 'linear' if fk == 'linear' else 'log')
            sp = np.diff(np.sort(np.log2(f.astype('float64')) if fk != 'linear'
                                 else f.astype('float64')))
            single = fdt == 'float32' or v.dtype == 'float32'
            d, m = D[np.arange(n), k], D.min(axis=1)
            # single precision: error of w and of bins, in bins
            rnd = (2e-6 * (np.abs(w).clip(v[0], v[-1]) if fk == 'linear' else
                           np.ones(n)) if single else 0)
            if transform == 'stft' and single and not from_w:
                rnd = rnd + 1e-6 * .5 * fs
            slack = rnd + (.03 if single else 1e-6) * sp.min()
            if fk == 'log-piecewise' and single:
                slack = slack + .03 * sp.min()
            bad = d > m + slack
            ctx.event('nearest row', n)
            ctx.event('below range', (w < v[0]).sum())
            ctx.event('above range', (w > v[-1]).sum())
            if bad.any():
                j = int(np.argmax(d - m))
                ctx.violation('nearest row', f'{bad.sum()} of {n} coefficients not in '
                              f'nearest row; e.g. w={w[j]:.6g} put in row {k[j]} '
                              f'(f={f[k[j]]:.6g}), nearest f={f[D[j].argmin()]:.6g}')
    # whole pipelines
    for i, rng in ctx.cases('ssq_cwt', 26, 500, share=.85, min_cases=18):
        N = gen.length(rng, 16, 300)
        name, opts = gen.wavelet(rng)
        x, xk = gen.signal(rng, N, gen.choice(rng, ['noise', 'tones', 'chirp', 'trend',
                                                    'const+noise']))
        sk = gen.choice(rng, ['log-piecewise', 'log', 'array']) if N >= 160 else 'array'
        scales, ak = gen.scales_arr(rng, N) if sk == 'array' else (sk, sk)
        if sk != 'array':
            opts.pop('centered_scale', None)
        fs = gen.choice(rng, [1., 40.])
        kw = dict(scales=scales, flipud=bool(rng.random() < .5), fs=fs,
                  padtype=gen.choice(rng, ['reflect', 'zero', 'wrap']))
        if sk != 'log-piecewise':
            kw['maprange'] = gen.choice(rng, ['peak', 'maximal', (.02*fs, .3*fs)])
            if rng.random() < .3:
                kw['ssq_freqs'] = gen.choice(rng, ['log', 'linear'])
        elif rng.random() < .3:
            kw['ssq_freqs'] = sq.freqs(rng, int(rng.integers(12, 90)),
                                       gen.choice(rng, ['log', 'linear']))
        gamma = gen.choice(rng, [1e-6, 1e-3])
        with ctx.run(N=N, x=xk, wavelet=name, opts=opts, gamma=gamma, **kw):
            wav, _ = lib.make_wavelet(rng, name, opts, 'float64', form='tuple')
            Tx, Wx, f, s, dWx = ssq.ssq_cwt(x, wav, gamma=gamma, get_dWx=True, **kw)
            f = np.asarray(f, dtype='float64')
            if np.min(np.abs(np.diff(f))) <= 0:
                continue      # degenerate, repeated frequencies
            sf = kw.get('ssq_freqs', ak)
            kind = (sf if isinstance(sf, str) else lib.kind_of(f))[:3]
            compare(ctx, Tx, Wx, ref.phase(Wx, dWx, gamma), f,
                    'log' if kind == 'log' else 'linear', weights(s, ak, True),
                    'pipeline: ssq_cwt')
            lo, hi = f.min(), f.max()
            if isinstance(kw.get('maprange'), tuple) and not isinstance(
                    kw.get('ssq_freqs'), np.ndarray):
                ctx.close(np.array([lo, hi]), kw['maprange'], 1e-9, 'frequency range')
            ctx.check((np.diff(f) < 0).all() if kw['flipud'] else
                      (np.diff(f) > 0).all(), 'frequencies ordered')
    for i, rng in ctx.cases('ssq_stft', 24, 500, min_cases=16):
        N = gen.length(rng, 24, 300)
        x, xk = gen.signal(rng, N, gen.choice(rng, ['noise', 'tones', 'chirp', 'trend']))
        n_fft = int(rng.integers(8, min(N, 130)))
        arg, wl, _, wk = lib.window(rng, n_fft)
        fs = gen.choice(rng, [1., 40.])
        kw = dict(n_fft=n_fft, win_len=wl, dtype='float64', fs=fs,
                  modulated=bool(rng.random() < .7), flipud=bool(rng.random() < .5))
        if rng.random() < .4:
            kw['ssq_freqs'] = np.linspace(rng.uniform(0, .1), rng.uniform(.3, .5),
                                          int(rng.integers(8, 90))) * fs
        gamma = gen.choice(rng, [1e-6, 1e-3])
        with ctx.run(N=N, x=xk, window=wk, gamma=gamma, **kw):
            Tx, Sx, f, Sfs, dSx = ssq.ssq_stft(x, arg, gamma=gamma, get_dWx=True, **kw)
            w = np.abs(Sfs[:, None] - np.imag(dSx / np.where(Sx == 0, 1, Sx)) / (2*np.pi))
            w[np.abs(Sx) < gamma] = np.inf
            ff = np.sort(np.asarray(f, dtype='float64'))
            compare(ctx, Tx, Sx, w, np.asarray(f, dtype='float64'), 'linear',
                    np.full(len(Sx), (ff[1] - ff[0]) / fs), 'pipeline: ssq_stft')


def compare(ctx, Tx, W, w, f, kind, wt, key):
    """Builds the reassigned transform by exhaustive search for the nearest row."""
    ok = np.isfinite(w)
    want = np.zeros(Tx.shape, complex)
    D = ref.bin_distance(np.where(ok, w, f.min()), f, kind)     # (na, n, nf)
    D2 = np.sort(D, axis=-1)
    sp = np.abs(np.diff(np.log2(f) if kind == 'log' else f)).min()
    tie = ok & (D2[..., 1] - D2[..., 0] < 1e-6 * sp)
    k = D.argmin(axis=-1)
    n = W.shape[1]
    A = W * wt[:, None]
    for i in range(len(W)):
        m = ok[i]
        np.add.at(want, (k[i][m], np.arange(n)[m]), A[i][m])
    # slack for what's within rounding of a boundary
    s = np.abs(A).sum(axis=0).max()
    tol = 1e-6 * s + np.where(tie, np.abs(A), 0).sum(axis=0)[None]
    e = np.abs(Tx - want) - tol
    ctx.event(key)
    ctx.event('nearest row', int(ok.sum()))
    # noise-level coefficients have ill-defined phase: few, and negligible
    frac = np.maximum(e, 0).sum() / max(np.abs(A).sum(), 1e-300)
    if frac > 1e-4:
        j = np.unravel_index(e.argmax(), e.shape)
        ctx.violation(key, f'{frac:.3g} of the transform is misplaced; e.g. at {j}: '
                      f'{Tx[j]} expected {want[j]}')
