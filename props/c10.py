"""Inverse synchrosqueezing: round trips of band-limited signals, and every inversion of
arbitrary transforms compared with the sum over the band it stands for."""
import numpy as np
from rt import gen, ref

MODES = {'main': {}}
SHARDS = {'quick': 2, 'thorough': 4}
REQUIRE = {'round trip: ssq_cwt': 20, 'round trip: ssq_stft': 2,
           'issq(ssq) = x up to DC & Nyquist': 20, 'component recovered': 8,
           'issq_cwt definition': 12, 'issq_stft definition': 12,
           'component = inverse of its band': 30, 'components sum to full inverse': 16,
           'no curve at that time': 200, 'band beyond edge': 60}
RULE = ('random band-limited signals through ssq and its inverse; random transforms '
        'and curves through the inverses')
ASSUMPTIONS = ['round trips: error off the outer 10%, band well inside of the range']


def run(ctx):
    from rt import lib
    from rt.lib import ssq
    from props.c04 import bandlimited, scales_for, adm
    for i, rng in ctx.cases('cwt', 34, 600, share=.4, min_cases=22):
        N = int(rng.integers(250, 900))
        name, opts = gen.wavelet(rng, names=['gmw', 'gmw', 'morlet', 'bump', 'cmhat'])
        if opts.get('centered_scale') or opts.get('mu') == 20.:
            opts = {}
        if name == 'gmw' and opts.get('gamma') == 2.:
            opts.pop('gamma'); opts.pop('beta')
        d, dtype = lib.pick_dtype(rng, name)
        kind = gen.choice(rng, ['log', 'log-piecewise', 'linear'])
        string = kind != 'linear' and rng.random() < .6
        fs = 10**rng.uniform(-3, 4)
        kw = dict(fs=fs, flipud=bool(rng.random() < .5),
                  padtype=gen.choice(rng, ['reflect', 'wrap', 'symmetric']))
        if string:
            kw.update(scales=kind, nv=int(gen.choice(rng, [16, 32])))
        else:
            kw['scales'] = scales_for(rng, name, opts, kind)
        if kind != 'log-piecewise':
            kw['maprange'] = gen.choice(rng, ['peak', 'maximal', (.01*fs, .45*fs)])
        x = bandlimited(rng, N, .07, .2) * 10**rng.uniform(-1, 2)
        with ctx.run(N=N, wavelet=name, opts=opts, dtype=dtype, kind=kind,
                     string=string, **kw):
            wav, _ = lib.make_wavelet(rng, name, opts, d)
            Tx, *_ = ssq.ssq_cwt(x, wav, **kw)
            r = ssq.issq_cwt(Tx, wav)
            if not ctx.check(r.shape == x.shape, 'inverse shape', str(r.shape)):
                continue
            s = slice(N//10, -(N//10))
            rms = np.sqrt(((r - x)[s]**2).mean() / (x[s]**2).mean())
            lim = .06 if N < 500 else .035
            ctx.check(rms < lim, 'round trip: ssq_cwt',
                      f'relative rms error {rms:.4f} >= {lim}')
    for i, rng in ctx.cases('stft', 40, 700, share=.6, min_cases=24):
        N = int(rng.integers(80, 700))
        n_fft = int(rng.integers(24, min(N, 200)))
        arg, wl, full, wk = lib.window(rng, n_fft)
        dtype = gen.choice(rng, ['float32', 'float64'])
        fs = 10**rng.uniform(-3, 4)
        kw = dict(n_fft=n_fft, win_len=wl, dtype=dtype, fs=fs,
                  flipud=bool(rng.random() < .5),
                  padtype=gen.choice(rng, ['reflect', 'wrap', 'symmetric', 'zero']))
        x = bandlimited(rng, N, .1, .4) * 10**rng.uniform(-1, 2)
        with ctx.run(N=N, window=wk, **kw):
            Tx, *_ = ssq.ssq_stft(x, arg, **kw)
            ikw = dict(n_fft=n_fft, win_len=wl)
            if n_fft % 2 == 0 and rng.random() < .4:
                ikw.pop('n_fft')
            r = ssq.issq_stft(Tx, arg, **ikw)
            if not ctx.check(r.shape == x.shape, 'inverse shape', str(r.shape)):
                continue
            # the one-sided sum counts DC (and Nyquist) twice, else it's exact
            W, _ = ref.stft(x, full, 1, kw['padtype'])
            extra = W[0].real + (W[-1].real if n_fft % 2 == 0 else 0)
            want = x + extra / (n_fft * full[n_fft // 2])
            gamma = 10 * np.finfo(dtype).eps
            lost = 2 * gamma * len(W) / n_fft / full[n_fft // 2]
            tol = 2e-4 if dtype == 'float32' else 1e-9
            ctx.close(r, want, tol, 'issq(ssq) = x up to DC & Nyquist',
                      scale=np.abs(x).max() * (1 + 1 / full[n_fft // 2]) + lost / tol)
            if wk in ('hann', 'default') and wl >= 40:
                rms = np.sqrt(((r - x)**2).mean() / (x**2).mean())
                ctx.check(rms < .02, 'round trip: ssq_stft',
                          f'relative rms error {rms:.4f}')
    for i, rng in ctx.cases('definition', 60, 1500, share=.8, min_cases=40):
        rows, n = int(rng.integers(5, 80)), int(rng.integers(4, 120))
        cdt = gen.choice(rng, ['complex64', 'complex128'])
        Tx = (rng.standard_normal((rows, n)) + 1j * rng.standard_normal((rows, n))
              ).astype(cdt)
        stft = rng.random() < .5
        if stft:
            n_fft = 2 * (rows - 1) + (1 if rng.random() < .4 else 0)
            arg, wl, full, wk = lib.window(rng, n_fft)
            const = 2 / full[n_fft // 2]
            kw = dict(n_fft=n_fft, win_len=wl)
            if n_fft % 2 == 0 and rng.random() < .4:
                kw.pop('n_fft')
            inv = lambda T, **k: ssq.issq_stft(T, arg, **kw, **k)
            desc = dict(window=wk, **kw)
        else:
            name, opts = gen.wavelet(rng)
            opts.pop('centered_scale', None)
            o = dict(opts)
            if name == 'gmw':
                o['norm'] = gen.choice(rng, ['bandpass', 'energy'])
            wav, _ = lib.make_wavelet(rng, name, o, gen.choice(
                rng, ['float32', 'float64']), form='tuple')
            const = 2 / adm(name, o, False)
            inv = lambda T, **k: ssq.issq_cwt(T, wav, **k)
            desc = dict(wavelet=name, opts=o)
        key = 'issq_stft definition' if stft else 'issq_cwt definition'
        tol = 2e-3
        with ctx.run(rows=rows, n=n, dtype=cdt, **desc):
            T0 = Tx.copy()
            full_inv = inv(Tx)
            ctx.close(full_inv, const * Tx.astype('complex128').real.sum(axis=0), tol,
                      key, scale=const * np.abs(Tx).sum(axis=0).max())
            # curves: nonoverlapping bands, and any
            K = int(rng.integers(1, 4))
            overlap = rng.random() < .35
            cc, cw = np.zeros((n, K), int), np.zeros((n, K), int)
            edges = np.linspace(0, rows, K + 1).astype(int)
            for k in range(K):
                a, b = (0, rows) if overlap else (edges[k], edges[k + 1])
                c = rng.integers(a, b, n)
                if rng.random() < .3:
                    c[:] = a          # along an edge
                elif rng.random() < .3:
                    c[:] = b - 1
                if overlap:
                    w = rng.integers(0, rows, n)
                else:
                    w = np.array([rng.integers(0, max(1, min(q - a + 1, b - q)))
                                  for q in c])
                    # beyond edges of the plane there's nothing to overlap with
                    if K == 1:
                        w = w + rng.integers(0, rows, n) * (rng.random() < .4)
                c[rng.random(n) < .15] = -1
                cc[:, k], cw[:, k] = c, w
            ctx.event('no curve at that time', (cc == -1).sum())
            ctx.event('band beyond edge', ((cc >= 0) & ((cc - cw < 0) |
                                                        (cc + cw >= rows))).sum())
            one = K == 1 and rng.random() < .5
            comp = inv(Tx, cc=cc[:, 0] if one else cc, cw=cw[:, 0] if one else cw)
            if not ctx.check(comp.shape == (K + 1, n), 'components + remainder',
                             f'{comp.shape}'):
                continue
            R = np.arange(rows)[:, None]
            inb = [(np.abs(R - cc[:, k]) <= cw[:, k]) & (cc[:, k] >= 0)
                   for k in range(K)]
            for k in range(K):
                # relative to the observed full inverse, hence to float precision
                ctx.close(comp[k], inv(np.where(inb[k], Tx, 0)), 1e-5,
                          'component = inverse of its band', f'component {k}',
                          scale=const * np.abs(Tx).sum(axis=0).max())
            ctx.close(comp[-1], inv(np.where(np.any(inb, axis=0), 0, Tx)), 1e-5,
                      'remainder', scale=const * np.abs(Tx).sum(axis=0).max())
            if not overlap:
                ctx.close(comp.sum(axis=0), full_inv, 1e-5,
                          'components sum to full inverse',
                          scale=const * np.abs(Tx).sum(axis=0).max())
            ctx.equal(Tx, T0, 'input unchanged')
    # whole pipeline with components
    for i, rng in ctx.cases('components', 10, 150, min_cases=6):
        N = int(rng.integers(300, 700))
        t = np.arange(N)
        f1, f2 = rng.uniform(.05, .08), rng.uniform(.2, .28)
        x1 = np.cos(2*np.pi*f1*t + rng.uniform(0, 6)) * rng.uniform(.5, 2)
        x2 = np.cos(2*np.pi*f2*t + rng.uniform(0, 6)) * rng.uniform(.5, 2)
        fs = 10**rng.uniform(-2, 3)
        stft = rng.random() < .5
        flip = bool(rng.random() < .5)
        with ctx.run(N=N, f1=f1, f2=f2, fs=fs, stft=stft, flip=flip):
            if stft:
                Tx, _, f, *_ = ssq.ssq_stft(x1 + x2, n_fft=128, fs=fs, flipud=flip,
                                            dtype='float64')
            else:
                Tx, _, f, *_ = ssq.ssq_cwt(x1 + x2, ('gmw', {'dtype': 'float64'}),
                                           fs=fs, flipud=flip)
            f = np.asarray(f) / fs
            cc, cw = np.zeros((N, 2), int), np.zeros((N, 2), int)
            for k, fk in enumerate((f1, f2)):
                cc[:, k] = np.argmin(np.abs(f - fk))
                lo, hi = np.argmin(np.abs(f - fk*.75)), np.argmin(np.abs(f - fk*1.3))
                cw[:, k] = min(abs(lo - cc[0, k]), abs(hi - cc[0, k]))
            r = (ssq.issq_stft(Tx, n_fft=128, cc=cc, cw=cw) if stft else
                 ssq.issq_cwt(Tx, ('gmw', {'dtype': 'float64'}), cc=cc, cw=cw))
            s = slice(N//6, -(N//6))
            for k, xk in enumerate((x1, x2)):
                rms = np.sqrt(((r[k] - xk)[s]**2).mean() / (xk[s]**2).mean())
                ctx.check(rms < .06, 'component recovered',
                          f'component {k}: relative rms error {rms:.4f}')
