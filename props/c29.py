"""Tones through the whole pipeline: where the energy of the transforms is found
(frequency, time, signal of the batch) against where it was put."""
import numpy as np
from rt import gen, ref

MODES = {'main': {}}
SHARDS = {'quick': 4, 'thorough': 8}
REQUIRE = {'ssq_cwt: tone at its frequency': 30, 'ssq_stft: tone at its frequency': 20,
           'ssq_cwt: concentrated': 24, 'ssq_stft: concentrated': 16,
           'cwt: tone at its frequency': 8, 'stft: tone at its frequency': 16,
           'sharper than the transform': 40, 'two tones: both found': 30,
           'frequency change: at its time': 24, 'impulse: at its time': 10,
           'chirp followed': 10, 'columns seen': 6000}
RULE = ('pure tones, pairs, switches, impulses and chirps at random frequencies, rates, '
        'wavelets, windows and configurations')
ASSUMPTIONS = ['interior: away from the ends by the reach of the wavelet/window at the '
               "tone's scale; tones within the band covered by scales and frequencies"]

# frequency resolution: half-width of |psih(w)| relative to its peak, per wavelet
WAV = [('gmw', {}), ('gmw', dict(gamma=3., beta=20.)), ('gmw', dict(gamma=3., beta=90.)),
       ('gmw', dict(gamma=4., beta=40.)), ('gmw', dict(gamma=2., beta=60.)),
       ('morlet', {}), ('morlet', dict(mu=10.)), ('morlet', dict(mu=20.)),
       ('bump', {}), ('bump', dict(mu=6., s=1.))]


def near(freqs, f, kind):
    """Fractional row at which `f` lies."""
    q = np.asarray(freqs, dtype='float64')
    if kind != 'linear':
        q, f = np.log(q), np.log(f)
    o = np.argsort(q)
    return np.interp(f, q[o], o.astype(float))


def columns(ctx, n):
    ctx.event('columns seen', n)


def tone(N, f, fs, rng, A=1.):
    t = np.arange(N)
    return A * np.cos(2*np.pi * f/fs * t + rng.uniform(0, 2*np.pi))


def share(E, rows, k):
    """Part of each column's energy within `k` rows of `rows`; E (rows, cols)."""
    r = np.arange(E.shape[0])[:, None]
    return (E * (np.abs(r - rows) <= k)).sum(0) / E.sum(0)


def cwt_config(rng, N, fs):
    name, opts = WAV[int(rng.integers(len(WAV)))]
    kind = gen.choice(rng, ['log', 'log', 'log-piecewise', 'linear'])
    kw = dict(fs=fs, flipud=bool(rng.random() < .5),
              padtype=gen.choice(rng, ['reflect', 'wrap', 'symmetric', 'zero',
                                       'replicate']),
              squeezing=gen.choice(rng, ['sum', 'sum', 'lebesgue', 'abs']),
              vectorized=bool(rng.random() < .7))
    if kind == 'log-piecewise':
        kw.update(scales=kind)
    elif kind == 'log' and rng.random() < .5:
        kw.update(scales='log', nv=int(gen.choice(rng, [16, 24, 32])))
    else:
        from props.c04 import scales_for
        kw['scales'] = scales_for(rng, name, opts, kind)
    if kind == 'log' and rng.random() < .4:
        kw['ssq_freqs'] = gen.choice(rng, ['log', 'linear'])
    if kind != 'log-piecewise':
        kw['maprange'] = gen.choice(rng, ['peak', 'maximal', (.012*fs, .48*fs)])
    u = rng.random()
    if u < .2:
        kw.update(difftype='phase', get_w=True)
    elif u < .35:
        kw.update(difftype='numeric', difforder=int(gen.choice(rng, [1, 2, 4])),
                  get_w=True)
    return name, opts, kind, kw


def reach(name, opts, level):
    """Relative frequencies (below, above the peak) where `|psih|` falls to `level`."""
    w = np.linspace(1e-3, 60, 60000)
    p = np.abs(ref.psih(name, w, **opts))
    k = p.argmax()
    inside = np.flatnonzero(p > level * p[k])
    return w[inside[0]] / w[k], w[inside[-1]] / w[k]


def frac_err(freqs, kind, rows, f):
    """Distance of rows from `f`, beyond half a bin, relative to `f`."""
    q = np.asarray(freqs, dtype='float64')
    if kind == 'linear':
        half = np.abs(np.diff(q)).mean() / 2
        return np.maximum(np.abs(q[rows] - f) - half, 0) / f
    half = np.abs(np.gradient(np.log(q)))[rows] / 2
    return np.maximum(np.abs(np.log(q[rows] / f)) - half, 0)


def local(ctx, key, T, freqs, kind, f, tol, msg=''):
    """Every column of T peaks at the bin of `f`."""
    rows = np.abs(T).argmax(0)
    columns(ctx, len(rows))
    e = frac_err(freqs, kind, rows, f)
    j = int(e.argmax())
    ctx.check(e[j] <= tol, key, f'{msg} column {j}: peak at {freqs[rows[j]]:.6g}, '
              f'tone at {f:.6g}; off by {e[j]:.3g} > {tol:.3g} beyond half a bin')
    return rows


def sharp(ctx, which, T, W, row, orig_row, need):
    """Energy is gathered at the tone's rows, more so than in the transform."""
    a = share(np.abs(T)**2, row, 1.01)
    b = share(np.abs(W)**2, orig_row, 1.01)
    ctx.check(np.quantile(a, .1) >= need, f'{which}: concentrated',
              f'{np.quantile(a, .1):.3f} of the energy within one row in 90% of the '
              f'columns, < {need}')
    ctx.check(np.median(a) >= min(np.median(b), .99) - 1e-3, 'sharper than the transform',
              f'{np.median(a):.3f} < {np.median(b):.3f}')


def switched(ctx, key, T, freqs, f1, f2, n0, t, slack, far):
    """`T` (rows, columns at times `t`) shows f1 before n0, f2 after."""
    q = np.log(np.maximum(np.asarray(freqs, dtype='float64')[np.abs(T).argmax(0)],
                          1e-300))
    second = np.abs(q - np.log(f2)) < np.abs(q - np.log(f1))
    columns(ctx, len(q))
    for j in np.flatnonzero(np.abs(t - n0) > far):
        if second[j] != (t[j] > n0):
            ctx.event(key)
            ctx.violation(key, f'time {t[j]:.0f} shows {np.exp(q[j]):.5g}; change from '
                               f'{f1:.5g} to {f2:.5g} was at {n0}')
            return
    # balance point: number of columns which show the second tone
    dt = t[1] - t[0]
    when = t[-1] + dt/2 - second.sum() * dt
    ctx.check(abs(when - n0) <= slack, key, f'change at {when:.1f}, not {n0} '
              f'(+- {slack:.1f})')


def run(ctx):
    from rt import lib
    from rt.lib import ssq
    for i, rng in ctx.cases('cwt tone', 40, 900, share=.35, min_cases=30):
        N = int(rng.integers(350, 1100))
        fs = 10**rng.uniform(-3, 4)
        name, opts, kind, kw = cwt_config(rng, N, fs)
        d, dtype = lib.pick_dtype(rng, name)
        f = fs * np.exp(rng.uniform(np.log(.04), np.log(.3)))
        if kw.get('difftype') == 'numeric':
            f = min(f, fs * rng.uniform(.04, .06))
        A = 10**rng.uniform(-1, 2)
        if kw['squeezing'] == 'lebesgue':   # counts all above the threshold
            kw['gamma'] = .1 * A
        with ctx.run(N=N, wavelet=name, opts=opts, dtype=dtype, kind=kind, f=f/fs, **kw):
            wav, _ = lib.make_wavelet(rng, name, opts, d)
            x = tone(N, f, fs, rng, A)
            Tx, Wx, freqs, scales, *_ = ssq.ssq_cwt(x, wav, preserve_transform=True, **kw)
            fk = lib.kind_of(freqs)
            lo, hi = min(freqs), max(freqs)
            if not lo * 1.2 < f < hi / 1.2:
                ctx.event('tone outside of the range')
                continue
            m = int(min(.35 * N, 12 * fs / f + .1 * N))
            s = slice(m, -m)
            num = kw.get('difftype') == 'numeric'
            Tx, Wx = Tx[:, s], Wx[:, s]
            rows = local(ctx, 'ssq_cwt: tone at its frequency', Tx, freqs, fk, f,
                         .04 if num else 2e-3)
            # (the padding's edges have energy of their own at low frequencies)
            rest = np.abs(np.log(freqs / f))[:, None] > np.log(2)
            sharp(ctx, 'ssq_cwt', np.where(rest, 0, Tx), Wx, rows, np.abs(Wx).argmax(0),
                  .9)
            # center frequencies are defined by the peak for these
            peak = np.asarray(ref_peak(name, opts) / scales.ravel() / (2*np.pi) * fs)
            if peak.min() * 1.2 < f < peak.max() / 1.2:
                local(ctx, 'cwt: tone at its frequency', Wx, peak, 'log', f, .02)

    for i, rng in ctx.cases('stft tone', 40, 900, share=.5, min_cases=26):
        N = int(rng.integers(150, 900))
        fs = 10**rng.uniform(-3, 4)
        arg, wl, n_fft, kw, H, G = stft_config(rng, N, fs)
        f = fs * rng.uniform(H / wl, .5 - H / wl)
        A = 10**rng.uniform(-1, 2)
        if kw['squeezing'] == 'lebesgue':
            kw['gamma'] = .1 * A * G
        with ctx.run(N=N, window=str(arg)[:20], f=f/fs, **kw):
            x = tone(N, f, fs, rng, A)
            Tx, Sx, freqs, Sfs, *_ = ssq.ssq_stft(x, arg, preserve_transform=True, **kw)
            m = -(-(n_fft // 2 + 2) // kw['hop_len'])
            s = slice(m, Tx.shape[1] - m)
            Tx, Sx = Tx[:, s], Sx[:, s]
            if not Tx.shape[1]:
                raise RuntimeError('no columns')
            rows = local(ctx, 'ssq_stft: tone at its frequency', Tx, freqs, 'linear', f,
                         .004)
            o = local(ctx, 'stft: tone at its frequency', Sx, Sfs, 'linear', f, .004)
            sharp(ctx, 'ssq_stft', Tx, Sx, rows, o, .9)

    for i, rng in ctx.cases('cwt pair', 20, 500, share=.68, min_cases=16):
        N = int(rng.integers(500, 1100))
        fs = 10**rng.uniform(-3, 4)
        name, opts, kind, kw = cwt_config(rng, N, fs)
        kw.pop('difftype', None), kw.pop('difforder', None), kw.pop('get_w', None)
        d, dtype = lib.pick_dtype(rng, name)
        if kw['squeezing'] == 'lebesgue':
            kw['squeezing'] = 'sum'
        b, a = reach(name, opts, .01)
        a5, b5 = reach(name, opts, .5)
        ratio = max(a, 1 / b) * rng.uniform(1.05, 1.5)
        f1 = fs * rng.uniform(.04, max(.041, .3 / ratio))
        f2 = f1 * ratio
        if rng.random() < .5:
            f1, f2 = f2, f1
        with ctx.run(N=N, wavelet=name, opts=opts, dtype=dtype, kind=kind, f1=f1/fs,
                     f2=f2/fs, **kw):
            wav, _ = lib.make_wavelet(rng, name, opts, d)
            x = tone(N, f1, fs, rng), tone(N, f2, fs, rng, rng.uniform(.6, 1.6))
            n0 = int(N * rng.uniform(.45, .55))
            X = np.stack([x[0] + x[1], np.where(np.arange(N) < n0, x[0], x[1])])
            Tx, _, freqs, scales, *_ = ssq.ssq_cwt(X, wav, **kw)
            fk = lib.kind_of(freqs)
            m = int(min(.35 * N, 12 * fs / min(f1, f2) + .1 * N))
            if not (min(freqs) * 1.2 < min(f1, f2) and max(f1, f2) < max(freqs) / 1.2):
                ctx.event('tone outside of the range')
                continue
            mid = np.sqrt(f1 * f2)
            for f in (f1, f2):
                part = np.flatnonzero((freqs > mid) == (f > mid))
                local(ctx, 'two tones: both found', Tx[0][part, m:-m], freqs[part], fk, f,
                      .02)
            c = ref_peak(name, opts) / (2*np.pi) * fs
            switched(ctx, 'frequency change: at its time', Tx[1][:, m:-m], freqs, f1, f2,
                     n0, np.arange(m, N - m),
                     .6 * fs / min(f1, f2) / (b5 - a5) + 2, .2 * N)

    for i, rng in ctx.cases('cwt impulse, chirp', 14, 400, share=.82, min_cases=10):
        N = int(rng.integers(450, 1000))
        fs = 10**rng.uniform(-3, 4)
        name, opts, kind, kw = cwt_config(rng, N, fs)
        kw.pop('difftype', None), kw.pop('difforder', None), kw.pop('get_w', None)
        d, dtype = lib.pick_dtype(rng, name)
        if kw['squeezing'] == 'lebesgue':
            kw['squeezing'] = 'abs'
        n0 = int(rng.integers(N // 5, 4 * N // 5))
        f0, f1 = rng.uniform(.08, .12), rng.uniform(.2, .28)
        if rng.random() < .5:
            f0, f1 = f1, f0
        with ctx.run(N=N, wavelet=name, opts=opts, dtype=dtype, kind=kind, n0=n0, f0=f0,
                     f1=f1, **kw):
            wav, _ = lib.make_wavelet(rng, name, opts, d)
            t = np.arange(N)
            imp = np.zeros(N)
            imp[n0] = 1.
            x = np.cos(2*np.pi * (f0*t + (f1 - f0) / (2*N) * t**2) + rng.uniform(0, 6))
            Tx, Wx, freqs, scales, *_ = ssq.ssq_cwt(np.stack([imp, x]), wav,
                                                    preserve_transform=True, **kw)
            at = np.abs(Wx[0]).sum(0).argmax()
            ctx.check(abs(at - n0) <= 1, 'impulse: at its time', f'{at}, not {n0}')
            fk = lib.kind_of(freqs)
            fi = (f0 + (f1 - f0) * t / N) * fs
            s = np.arange(N // 5, 4 * N // 5)
            rows = np.abs(Tx[1]).argmax(0)[s]
            columns(ctx, len(s))
            e = [frac_err(freqs, fk, r, f) for r, f in zip(rows, fi[s])]
            ctx.check(np.max(e) <= .06, 'chirp followed',
                      f'off by {np.max(e):.3g} at {s[np.argmax(e)]}')

    for i, rng in ctx.cases('stft times', 30, 800, share=1., min_cases=20):
        N = int(rng.integers(250, 900))
        fs = 10**rng.uniform(-3, 4)
        arg, wl, n_fft, kw, H, G = stft_config(rng, N, fs)
        if arg is None:
            arg = 'hann'
        if kw['squeezing'] == 'lebesgue':
            kw['squeezing'] = 'sum'
            kw['modulated'] = True
        h = kw['hop_len']
        gap = rng.uniform(8 / wl, 10 / wl)
        f1 = fs * rng.uniform(3 / wl, .5 - 3 / wl - gap)
        f2 = f1 + gap * fs
        if rng.random() < .5:
            f1, f2 = f2, f1
        n0 = int(rng.integers(n_fft + 2, N - n_fft - 2))
        with ctx.run(N=N, window=str(arg)[:20], f1=f1/fs, f2=f2/fs, n0=n0, **kw):
            x = tone(N, f1, fs, rng), tone(N, f2, fs, rng, rng.uniform(.6, 1.6))
            imp = np.zeros(N)
            imp[n0] = 1.
            t = np.arange(N)
            X = np.stack([x[0] + x[1], np.where(t < n0, x[0], x[1]), imp])
            Tx, Sx, freqs, *_ = ssq.ssq_stft(X, arg, preserve_transform=True, **kw)
            at = np.abs(Sx[2]).sum(0)
            at = np.flatnonzero(at > .999 * at.max()).mean() * h
            ctx.check(abs(at - n0) <= (h + 1) / 2 + .5, 'impulse: at its time',
                      f'{at}, not {n0}')
            m = -(-(n_fft // 2 + 2) // h)
            mid = (f1 + f2) / 2
            for f in (f1, f2):
                part = np.flatnonzero((freqs > mid) == (f > mid))
                local(ctx, 'two tones: both found', Tx[0][part, m:-m], freqs[part],
                      'linear', f, .06)
            switched(ctx, 'frequency change: at its time', Tx[1][:, m:-m], freqs, f1, f2,
                     n0, h * np.arange(Tx.shape[-1])[m:-m], .15 * wl + h + 1, wl / 2 + h)


def ref_peak(name, opts):
    if name == 'gmw':
        return ref.peak_gmw(opts.get('gamma', 3.), opts.get('beta', 60.))
    w = np.linspace(1e-3, 60, 600000)
    return w[np.abs(ref.psih(name, w, **opts)).argmax()]


def stft_config(rng, N, fs):
    import scipy.signal as sig
    n_fft = int(rng.integers(48, min(N // 2, 200)))
    wl = n_fft if rng.random() < .5 else int(rng.integers(max(40, n_fft // 2), n_fft + 1))
    k = int(rng.integers(4))
    arg = [None, 'hann', 'hamming', sig.windows.gaussian(wl, wl / 7, sym=False)][k]
    G = [sig.windows.dpss(wl, max(4, wl // 8), sym=False), sig.get_window('hann', wl),
         sig.get_window('hamming', wl), arg][k].sum() / 2
    kw = dict(n_fft=n_fft, win_len=wl, fs=fs,
              dtype=gen.choice(rng, ['float32', 'float64']),
              hop_len=int(gen.choice(rng, [1, 1, 2, 5])), flipud=bool(rng.random() < .5),
              modulated=bool(rng.random() < .6),
              padtype=gen.choice(rng, ['reflect', 'wrap', 'symmetric', 'zero']),
              squeezing=gen.choice(rng, ['sum', 'sum', 'lebesgue', 'abs']))
    if kw['squeezing'] == 'sum':    # else neighboring rows' signs alternate: documented
        kw['modulated'] = True
    return arg, wl, n_fft, kw, [wl // 8, 2, 2, 2][k] + 2, G
