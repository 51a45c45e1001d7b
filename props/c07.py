"""Conservation: at each time the squeezed transform sums to the weighted sum of the
coefficients that aren't negligible."""
import numpy as np
from rt import gen, ref, sq

MODES = {'main': {}, 'serial': {'env': {'SSQ_PARALLEL': '0'}}}
SHARDS = {'quick': 1, 'thorough': 3}
REQUIRE = {'conserved: from dWx': 60, 'conserved: from w': 60, 'conserved: ssq_cwt': 40,
           'conserved: ssq_stft': 30, 'out of range': 1000, 'negligible': 1000,
           'log': 20, 'linear': 20, 'log-piecewise': 20}
RULE = ('random transforms with known phases, and transforms of random signals, '
        'squeezed along every kernel; counted once column sums were compared')
ASSUMPTIONS = ['no coefficient has magnitude within rounding of gamma']


def custom(W):
    return W * W.conj() + 1


def squeezed(W, squeezing):
    if squeezing == 'abs':
        return np.abs(W)
    if squeezing == 'lebesgue':
        return np.ones(W.shape) / W.shape[-2]
    if callable(squeezing):
        return squeezing(W)
    return W


def run(ctx):
    from rt import lib
    from rt.lib import ssq
    from ssqueezepy.ssqueezing import ssqueeze
    from props.c04 import weights
    for i, rng in ctx.cases('ssqueeze', 90, 2500, share=.5, min_cases=60):
        n, na = int(rng.integers(6, 60)), int(rng.integers(12, 90))
        transform = gen.choice(rng, ['cwt', 'cwt', 'stft'])
        cdt = gen.choice(rng, ['complex64', 'complex128'])
        fdt = 'float32' if cdt == 'complex64' else 'float64'
        fk = 'linear' if transform == 'stft' else gen.choice(
            rng, ['linear', 'log', 'log-piecewise'])
        nf = na if rng.random() < .5 else int(rng.integers(12, 120))
        v = sq.freqs(rng, nf, fk)
        shape = (na, n)
        w = sq.phases(rng, v, shape)
        W = sq.transform(rng, shape, cdt)
        gamma = gen.choice(rng, [1e-6, 1e-4])
        dead = rng.random(shape) < gen.choice(rng, [0, .2, .9])
        W[dead] *= gamma * 1e-3
        small = rng.random(shape) < .05
        W[small] = 0
        dead |= small
        squeezing = gen.choice(rng, ['sum', 'sum', 'abs', 'lebesgue', custom])
        flip = bool(rng.random() < .5)
        dt = gen.choice(rng, [1., .02, 10.])
        from_w = rng.random() < .5
        sk = None
        kw = dict(ssq_freqs=v, squeezing=squeezing, flipud=flip, fs=1/dt,
                  transform=transform)
        if transform == 'cwt':
            sk = gen.choice(rng, ['log', 'linear', 'log-piecewise'])
            s = sq.scales(rng, na, sk)
            kw['scales'] = s
            wt = weights(s, sk, True)
        else:
            wt = np.full(na, (v[1] - v[0]) * dt)
            kw['Sfs'] = np.linspace(0, .5/dt, na).astype(fdt)
        if from_w:
            ww = w.astype(fdt)
            ww[dead] = np.inf
            kw['w'] = ww
        else:
            om = w if transform == 'cwt' else kw['Sfs'][:, None].astype('float64') - w
            kw['dWx'] = (W.astype('complex128') * 2j*np.pi * om).astype(cdt)
            kw['gamma'] = gamma
        with ctx.run(na=na, n=n, transform=transform, dtype=cdt, freqs=fk, nf=nf,
                     scales=sk, squeezing=squeezing if isinstance(squeezing, str)
                     else 'fn', flip=flip, from_w=from_w, gamma=gamma):
            Tx, f = ssqueeze(W.copy(), **kw)
            ctx.check(Tx.shape == (nf, n), 'rows = frequencies',
                      f'{Tx.shape} for {nf} frequencies')
            A = squeezed(W.astype('complex128'), squeezing) * wt[:, None]
            A = np.where(dead, 0, A)
            want = A.sum(axis=0)
            ctx.close(Tx.sum(axis=0), want, 2e-5 if fdt == 'float32' else 1e-9,
                      'conserved: from ' + ('w' if from_w else 'dWx'),
                      f'{transform}', scale=np.abs(A).sum(axis=0).max() + 1e-30)
            ctx.event('out of range', ((w < v[0]) | (w > v[-1])).sum())
            ctx.event('negligible', dead.sum())
            ctx.event(fk)
    for i, rng in ctx.cases('ssq_cwt', 36, 700, share=.8, min_cases=22):
        N = gen.length(rng, 16, 400)
        name, opts = gen.wavelet(rng)
        d, dtype = lib.pick_dtype(rng, name)
        two = rng.random() < .25
        x, xk = gen.batch(rng, 2, N) if two else gen.signal(rng, N)
        sk = gen.choice(rng, ['log-piecewise', 'log', 'array']) if N >= 160 else 'array'
        ak = None
        if sk == 'array':
            scales, ak = gen.scales_arr(rng, N)
        else:
            scales = sk
            opts.pop('centered_scale', None)
        squeezing = gen.choice(rng, ['sum', 'sum', 'abs', 'lebesgue'])
        kw = dict(scales=scales, squeezing=squeezing, flipud=bool(rng.random() < .5),
                  padtype=gen.choice(rng, ['reflect', 'zero', 'wrap']))
        if sk != 'log-piecewise':
            kw['maprange'] = gen.choice(rng, ['peak', 'maximal', (.02, .3)])
            if rng.random() < .3:
                kw['ssq_freqs'] = gen.choice(rng, ['log', 'linear'])
        if rng.random() < .4:
            kw['gamma'] = gen.choice(rng, [.05, .5])
        order = 1 if name == 'gmw' and rng.random() < .12 else 0
        if order:
            kw['order'] = order
        get_w = not two and rng.random() < .4
        with ctx.run(N=N, x=xk, wavelet=name, opts=opts, dtype=dtype, get_w=get_w,
                     shape=x.shape, **kw):
            wav, _ = lib.make_wavelet(rng, name, opts, d)
            Tx, Wx, f, s, *_ = ssq.ssq_cwt(x, wav, get_w=get_w, **kw)
            g = kw.get('gamma') or 10 * np.finfo(dtype).eps
            W = Wx.astype('complex128')
            near = np.abs(np.abs(W) - g) < 1e-5 * g
            # weights from the scales as returned (rounded to their precision)
            kind = ak or sk
            wt = weights(s, kind, True)
            tolw = 2e-4 if dtype == 'float32' else 1e-8
            A = squeezed(W, squeezing) * wt[:, None]
            keep = np.abs(W) > g
            want = np.where(keep, A, 0).sum(axis=-2)
            slack = np.where(near, np.abs(A), 0).sum(axis=-2).max()
            tot = np.abs(A).sum(axis=-2).max() + 1e-30
            # finite-phase guarantee: only coefficients with magnitude at `gamma`
            ctx.close(Tx.sum(axis=-2), want, tolw, 'conserved: ssq_cwt',
                      scale=tot + slack / tolw)
    for i, rng in ctx.cases('ssq_stft', 30, 600, min_cases=18):
        N = gen.length(rng, 24, 400)
        two = rng.random() < .25
        x, xk = gen.batch(rng, 2, N) if two else gen.signal(rng, N)
        n_fft = int(rng.integers(6, min(N, 130)))
        arg, wl, _, wk = lib.window(rng, n_fft)
        dtype = gen.choice(rng, ['float32', 'float64'])
        squeezing = gen.choice(rng, ['sum', 'sum', 'abs', 'lebesgue'])
        fs = gen.choice(rng, [1., 50., .5])
        kw = dict(n_fft=n_fft, win_len=wl, dtype=dtype, fs=fs, squeezing=squeezing,
                  modulated=bool(rng.random() < .7), flipud=bool(rng.random() < .5),
                  get_w=bool(not two and rng.random() < .5))
        if rng.random() < .4:
            kw['ssq_freqs'] = np.linspace(rng.uniform(0, .1), rng.uniform(.3, .5),
                                          int(rng.integers(8, 90))) * fs
        if rng.random() < .4:
            kw['gamma'] = gen.choice(rng, [.05, .5])
        with ctx.run(N=N, x=xk, window=wk, shape=x.shape, **kw):
            Tx, Sx, f, Sfs, *_ = ssq.ssq_stft(x, arg, **kw)
            g = kw.get('gamma') or 10 * np.finfo(dtype).eps
            ff = np.sort(np.asarray(kw.get('ssq_freqs', Sfs), dtype='float64'))
            W = Sx.astype('complex128')
            A = squeezed(W, squeezing) * (ff[-1] - ff[0]) / (len(ff) - 1) / fs
            near = np.abs(np.abs(W) - g) < 1e-5 * g
            want = np.where(np.abs(W) > g, A, 0).sum(axis=-2)
            slack = np.where(near, np.abs(A), 0).sum(axis=-2).max()
            tol = 1e-4 if dtype == 'float32' else 1e-9
            ctx.close(Tx.sum(axis=-2), want, tol, 'conserved: ssq_stft',
                      scale=np.abs(A).sum(axis=-2).max() + slack / tol + 1e-30)
