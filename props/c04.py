"""Inversion: every icwt call is compared with the analytic weighted sum it stands for
(on arbitrary coefficient arrays, it being linear), and round trips with the signal."""
import numpy as np
from scipy import integrate
from rt import gen, ref

MODES = {'main': {}}
SHARDS = {'quick': 2, 'thorough': 4}
REQUIRE = {'round trip': 60, 'one-int definition': 60, 'two-int definition': 20,
           'x_mean added once': 40, 'padded inverse': 8, 'batched inverse': 6}
RULE = ('random band-limited signals through cwt and icwt (round trip), and random '
        'complex arrays through icwt (definition)')
ASSUMPTIONS = ['round trips: error measured off the outer 10%, signal band well inside '
               "of the scales' range, linear scales finely spaced"]


def bandlimited(rng, N, f0, f1):
    X = np.zeros(N//2 + 1, complex)
    k = np.arange(N//2 + 1) / N
    m = (k >= f0) & (k <= f1)
    X[m] = rng.standard_normal(m.sum()) + 1j*rng.standard_normal(m.sum())
    x = np.fft.irfft(X, N)
    return x / x.std()


_adm = {}


def adm(name, opts, two):
    key = (name, repr(sorted(opts.items())), two)
    if key not in _adm:
        f = lambda w: np.real(ref.psih(name, np.asarray([w]), **opts)[0]) ** (
            2 if two else 1) / w
        pk = peak(name, opts)
        _adm[key] = sum(integrate.quad(f, a, b, limit=400)[0] for a, b in (
            (1e-7, pk/2), (pk/2, pk), (pk, 2*pk), (2*pk, 12*pk)))
    return _adm[key]


def peak(name, opts):
    w = np.linspace(.01, 40, 40000)
    return w[np.argmax(np.abs(ref.psih(name, w, **opts)))]


def scales_for(rng, name, opts, kind):
    pk = peak(name, opts)
    s0, s1 = pk / np.pi * .5, pk / (2*np.pi*.012)
    if name == 'cmhat':  # broadband
        s0, s1 = s0 * .5, s1 * 2
    if kind == 'log':
        nv = int(gen.choice(rng, [16, 24, 32]))
        n = int(np.ceil(np.log2(s1 / s0) * nv))
        return s0 * 2**(np.arange(n) / nv)
    if kind == 'linear':
        return np.arange(s0, s1, s0 * .25)
    nv = 32
    n0 = int(np.ceil(np.log2(s1 / s0) * nv * rng.uniform(.6, .8)))
    a = s0 * 2**(np.arange(n0) / nv)
    n1 = int(np.ceil(np.log2(s1 / a[-1]) * nv / 4))
    return np.hstack([a, a[-1] * 2**(np.arange(1, max(n1, 5) + 1) * 4 / nv)])


def weights(scales, kind, l1):
    """Integration weights of each row."""
    s = np.asarray(scales, dtype='float64')
    d = np.empty(len(s))
    if kind == 'log':
        d[:] = np.log(s[-1] / s[0]) / (len(s) - 1)
    elif kind == 'linear':
        d = (s[-1] - s[0]) / (len(s) - 1) / s
    else:
        r = np.diff(np.log(s))
        i = int(np.argmax(np.diff(r))) + 1   # rows 0..i spaced at first
        d[:i + 1] = r[0]
        d[i + 1:] = r[-1]
    return d if l1 else d / np.sqrt(s)


def run(ctx):
    from rt import lib
    from rt.lib import ssq
    from ssqueezepy import icwt
    for i, rng in ctx.cases('roundtrip', 40, 700, share=.55, min_cases=26):
        N = int(rng.integers(250, 1100))
        name, opts = gen.wavelet(rng)
        if opts.get('centered_scale') or opts.get('mu') == 20.:
            opts = {}
        if name == 'gmw' and opts.get('gamma') == 2.:
            opts.pop('gamma'); opts.pop('beta')
        d, dtype = lib.pick_dtype(rng, name)
        kind = gen.choice(rng, ['log', 'log-piecewise', 'log', 'linear'])
        string = kind != 'linear' and rng.random() < .5
        scales = kind if string else scales_for(rng, name, opts, kind)
        l1 = bool(rng.random() < .6)
        if name == 'gmw' and not l1:
            d, dtype = 'float64', 'float64'
        two_int = rng.random() < .3
        two = not two_int and rng.random() < .3
        rp = bool(rng.random() < .3)
        x = (np.stack([bandlimited(rng, N, .07, .2) for _ in range(2)]) if two else
             bandlimited(rng, N, .07, .2))
        xm = rng.uniform(-3, 3, 2) if two else float(rng.uniform(-3, 3))
        nv = int(gen.choice(rng, [16, 32]))
        fs = gen.choice(rng, [None, 10.])
        with ctx.run(N=N, wavelet=name, opts=opts, dtype=dtype, scales=kind, l1=l1,
                     string=string, two_int=two_int, batch=two, rpadded=rp, nv=nv):
            wav = lambda: lib.make_wavelet(rng, name, opts, d, form='tuple',
                                           l1_norm=l1)[0]
            kw = dict(scales=scales, l1_norm=l1, rpadded=rp)
            if string:
                kw['nv'] = nv
            W, sc = ssq.cwt(x + (xm[:, None] if two else xm), wav(), fs=fs, **kw)
            ik = dict(kw, one_int=not two_int, x_len=N)
            if not string:
                ik['scales'] = sc
            r = icwt(W, wav(), x_mean=xm, **ik)
            if not ctx.check(r.shape == x.shape, 'inverse shape',
                             f'{r.shape} vs {x.shape}'):
                continue
            s = slice(N//10, -(N//10))
            e = r - (x + (xm[:, None] if two else xm))
            # `.` the mean isn't in the band
            rms = np.sqrt((e[..., s]**2).mean() / (x[..., s]**2).mean())
            lim = .06 if N < 500 else .035
            ctx.check(rms < lim, 'round trip', f'relative rms error {rms:.4f} >= {lim}')
            r0 = icwt(W, wav(), **ik)
            ctx.close(r - r0, np.broadcast_to(xm[:, None] if two else xm, x.shape),
                      3e-6, 'x_mean added once', scale=np.abs(r).max() + 3)
            ctx.event('padded inverse', rp)
            ctx.event('batched inverse', two)
    for i, rng in ctx.cases('definition', 60, 1000, min_cases=40):
        name, opts = gen.wavelet(rng)
        opts.pop('centered_scale', None)
        kind = gen.choice(rng, ['log', 'log-piecewise', 'linear'])
        l1 = bool(rng.random() < .5)
        scales = scales_for(rng, name, opts, kind)
        if kind == 'linear':
            scales = scales[:60]
        two_int = rng.random() < .35
        N = int(rng.integers(20, 300))
        B = int(rng.integers(1, 3)) if not two_int and rng.random() < .3 else None
        rp = rng.random() < .3
        n_up, n1, n2 = ref.p2up(N)
        shape = (len(scales), n_up if rp else N)
        if B:
            shape = (B,) + shape
        cdt = gen.choice(rng, ['complex64', 'complex128'])
        W = (rng.standard_normal(shape) + 1j * rng.standard_normal(shape)).astype(cdt)
        o = dict(opts)
        if name == 'gmw' and rng.random() < .5 and l1:
            o['norm'] = 'bandpass'
        xm = float(rng.normal())
        padtype = gen.choice(rng, ['reflect', 'zero'])
        with ctx.run(N=N, wavelet=name, opts=o, scales=kind, na=len(scales), l1=l1,
                     two_int=two_int, B=B, rpadded=rp, dtype=cdt):
            r = icwt(W, (name, dict(o, dtype='float64')), scales=scales, l1_norm=l1,
                     one_int=not two_int, x_len=N, rpadded=rp, x_mean=xm,
                     padtype=padtype)
            oo = dict(opts)
            if name == 'gmw':
                oo['norm'] = 'bandpass' if l1 else 'energy'
            wt = weights(scales, kind, l1)
            C = adm(name, oo, two_int)
            if not two_int:
                want = 2 / C * (W.real * wt[:, None]).sum(axis=-2)
                if rp:
                    want = want[..., n1:n1 + N]
                key = 'one-int definition'
            else:
                Wp = W if rp else ref.pad(W, padtype, n1, n2)
                P = ref.filterbank(name, scales, n_up, nyq=False, **oo)
                z = np.fft.ifft(np.fft.fft(Wp) * P).real
                want = 2 / C * (z * wt[:, None]).sum(axis=0)[n1:n1 + N]
                key = 'two-int definition'
            ctx.close(r, want + xm, 2e-3, key, f'icwt {kind}')
