"""Numeric building blocks against their definitions: admissibility constants and analytic
integrals against quadratures, searches against exhaustive evaluation, spectral derivative
against an explicit one, thresholds against formulas, standalone squeezing against the
transforms it reproduces."""
import signal
import numpy as np
from scipy import special as sp
from rt import gen, lib, ref

MODES = {'par': {'env': {'SSQ_PARALLEL': '1', 'NUMBA_NUM_THREADS': '3'},
                 'shards': {'quick': 2, 'thorough': 3}},
         'nojit': {'env': {'SSQ_PARALLEL': '0', 'NUMBA_DISABLE_JIT': '1'},
                   'shards': {'quick': 2, 'thorough': 3}}}
BUDGET = {'quick': 22, 'thorough': 400}
REQUIRE = {'adm_ssq': 60, 'adm_cwt': 60, 'integral': 60, 'maximum': 60,
           'no maximum is an error': 10, 'first occurrence': 60,
           'no occurrence is an error': 10, 'trigdiff': 60, 'trigdiff = derivative': 30,
           'threshold': 40, 'mean absolute deviation': 40, 'squeeze: cwt': 20,
           'squeeze: stft': 20, 'phase': 20, 'helpers': 30, 'fs and t': 60}
RULE = ('random wavelets and parameters, functions with known integrals, maxima and '
        'crossings, transforms of random signals; counted once compared')
ASSUMPTIONS = ['integrals: within 3e-4, for functions peaking between .02 and 60 and wide '
               'relative to .002 (documented: unimodal, decaying)',
               'searches: functions with a single maximum, or crossings wide relative to '
               'the step']


class Hang(Exception):
    pass


def limited(fn, seconds=20):
    """Ends a search that doesn't return."""
    def stop(*_):
        raise Hang(f'still searching after {seconds} s')
    old = signal.signal(signal.SIGALRM, stop)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return fn()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def quad(f, hi=160.):
    t = np.concatenate([np.geomspace(1e-9, .1, 4000)[:-1], np.linspace(.1, hi, 160000)])
    return np.trapezoid(f(t), t)


def wavelet(rng):
    name = gen.choice(rng, ['gmw', 'gmw', 'morlet', 'bump', 'cmhat', 'hhhat'])
    o = {}
    if name == 'gmw':
        o['gamma'] = gen.choice(rng, [1.5, 2., 3, 3., 4., 6.])
        o['beta'] = gen.choice(rng, [.7, 1, 2., 5., 12., 60, 60.] +
                               [100.] * (o['gamma'] >= 2))
        o['order'] = int(gen.choice(rng, [0, 0, 1, 2]))
        o['norm'] = gen.choice(rng, ['bandpass', 'energy'])
    elif name == 'morlet':
        o['mu'] = gen.choice(rng, [2., 4., 5., 6, 13.4, 20.])
    elif name == 'bump':
        o.update(mu=gen.choice(rng, [5., 4., 9.]), s=gen.choice(rng, [1., .5, 2.]))
        if rng.random() < .3:
            o['om'] = gen.choice(rng, [.2, -.1])
    elif name == 'cmhat':
        o.update(mu=gen.choice(rng, [1., 0., 3]), s=gen.choice(rng, [1., .6, 2]))
    else:
        o['mu'] = gen.choice(rng, [5., 3., 1, 8.])
    dt = 'float64' if o.get('norm') == 'energy' else gen.choice(rng, ['float32', 'float64'])
    return name, o, dt


def user_wavelet(a, b):
    return lambda w: w**a * np.exp(-b * w) * (w > 0)


def admissibility(ctx):
    from ssqueezepy import Wavelet
    from ssqueezepy.utils import adm_ssq, adm_cwt
    for i, rng in ctx.cases('admissibility', 60, share=0.25, min_cases=30):
        name, o, dt = wavelet(rng)
        user = rng.random() < .15
        if user:
            a, b = float(rng.uniform(1, 12)), float(rng.uniform(.5, 3))
            name, o, dt = 'user', dict(a=a, b=b), None
        with ctx.run(wavelet=name, opts=o, dtype=dt):
            if user:
                wav = Wavelet(user_wavelet(a, b))
                want = sp.gamma(a) / b**a, sp.gamma(2*a) / (2*b)**(2*a)
            else:
                wav = Wavelet((name, dict(o, dtype=dt)))
                f = lambda w: np.asarray(ref.psih(name, w, **o))
                want = (quad(lambda w: np.conj(f(w)) / w),
                        quad(lambda w: np.abs(f(w))**2 / w))
                if np.iscomplexobj(want[0]):
                    ctx.event('complex wavelet')
                if o.get('norm') != 'energy' and rng.random() < .3 and not (
                        set(o) - {'gamma', 'beta'}):
                    wav = (name, dict(o))
            for fn, e, key in ((adm_ssq, want[0], 'adm_ssq'), (adm_cwt, want[1], 'adm_cwt')):
                got = limited(lambda: fn(wav))
                ctx.check(np.ndim(got) == 0, 'scalar')
                # cancelling oscillation of a complex wavelet
                scale = abs(e) if not np.iscomplexobj(e) else max(abs(e), .05 * abs(want[1]))
                ctx.close(got, e, 3e-4, key, scale=scale)


def integrals(ctx):
    from ssqueezepy.utils import integrate_analytic
    for i, rng in ctx.cases('integrals', 60, share=0.35, min_cases=30):
        kind = gen.choice(rng, ['gamma', 'gauss', 'lognormal'])
        amp = float(10**rng.uniform(-2, 3))
        if kind == 'gamma':
            a, b = float(rng.uniform(.3, 20)), float(rng.uniform(.6, 4))
            f, e = (lambda t: amp * t**a * np.exp(-b*t)), amp * sp.gamma(a + 1) / b**(a + 1)
            p = (a, b)
        elif kind == 'gauss':
            s = float(rng.uniform(.1, 3))
            m = float(rng.uniform(6*s + .1, 6*s + 12))
            f, e = (lambda t: amp * np.exp(-.5*((t - m)/s)**2)), amp * s * np.sqrt(2*np.pi)
            p = (m, s)
        else:
            m, s = float(rng.uniform(-2, 1.)), float(rng.uniform(.15, .35))
            f = lambda t: amp * np.exp(-.5*((np.log(t) - m)/s)**2) / t
            e = amp * s * np.sqrt(2*np.pi)
            p = (m, s)
        if f(np.array([110.]))[0] > 1e-16:  # must decay within range
            continue
        with ctx.run(kind=kind, p=p, amp=amp):
            got = limited(lambda: integrate_analytic(f, nowarn=bool(rng.random() < .5)))
            ctx.close(got, e, 3e-4, 'integral', f'{kind}{p}')


def searches(ctx):
    from ssqueezepy.algos import find_maximum, find_first_occurrence
    for i, rng in ctx.cases('searches', 90, share=0.55, min_cases=45):
        step = gen.choice(rng, [1e-3, 1e-3, 1e-2, .1, 2e-3, 1e-4])
        per = gen.choice(rng, [1e4, 1000, 3000, 1e4, 777])
        block = step * per
        start = float(gen.choice(rng, [0, 0, .5, 3.]))
        m = start + float(rng.uniform(.02, min(8 * block, 300)))
        s = float(rng.uniform(30 * step, 30 * step + 5))
        kind = gen.choice(rng, ['gauss', 'cauchy', 'negative', 'complex', 'gamma'])
        amp = float(10**rng.uniform(-3, 4))
        if kind == 'gauss':
            f = lambda w: amp * np.exp(-np.minimum(.5*((w - m)/s)**2, 600))
        elif kind == 'gamma':
            k = max((m/s)**2, 1.5)
            f = lambda w: amp * np.exp(k * (np.log(np.maximum(w, 1e-300)/m) + 1 - w/m)) \
                * (w > 0)
        else:
            c = {'cauchy': 1, 'negative': -1, 'complex': np.exp(1j)}[kind] * amp
            f = lambda w: c / (1 + ((w - m)/s)**2)
        kw = {}
        if rng.random() < .8:
            kw = dict(step_size=step, steps_per_search=per, step_start=start)
        else:
            step, start, block = 1e-3, 0, 10.
        s_eff = s
        with ctx.run(kind=kind, m=m, s=s, amp=amp, kw=kw):
            lim = m + 5 * block + 1
            w, v = limited(lambda: find_maximum(f, step_limit=lim, **kw))
            g = start + step * np.arange(int((m - start)/step) - 3,
                                         int((m - start)/step) + 5)
            ctx.check(abs(w - m) <= 1.01 * step, 'maximum', f'at {w}, is at {m}')
            ctx.check(abs(v - abs(f(np.array([w]))[0])) <= 1e-12 * amp, 'maximum value',
                      f'{v} at {w}')
            if rng.random() < .25:
                ctx.raises(lambda: limited(lambda: find_maximum(
                    lambda w: amp * np.asarray(w, float), step_limit=5 * block + start, **kw)),
                    'no maximum is an error', exc=ValueError)
            # crossings: on either side of the maximum, or of many
            side = gen.choice(rng, ['left', 'right', 'many', 'none'])
            if side in ('left', 'right'):
                q = float(rng.uniform(.05, .95))
                if side == 'left':
                    a, b = start, m
                    lo = abs(f(np.array([start]))[0]) / amp
                    if lo > .8:
                        continue
                    q = lo + (1 - lo) * q
                else:
                    a, b = m, m + 400 * max(s, m) + 10 * block
                k2 = dict(kw, step_start=a, step_limit=b)
                x, y = limited(lambda: find_first_occurrence(f, q * amp, **k2))
                grid_ok = abs(y - abs(f(np.array([x]))[0])) <= 1e-9 * amp
                ctx.check(grid_ok, 'value at occurrence', f'{y} at {x}')
                # between neighbours, function passes the value
                n1 = abs(f(np.array([max(x - step, a), x, min(x + step, b)])))
                ok = n1.min() - 1e-9*amp <= q * amp <= n1.max() + 1e-9*amp
                ctx.check(ok and a <= x <= b, 'first occurrence',
                          f'{side}: {q * amp} not within {n1} about {x}')
            elif side == 'many':
                T = float(rng.uniform(60, 200) * step)
                q = float(rng.uniform(.1, .9))
                h = lambda w: amp * np.abs(np.sin(2*np.pi*(w - a0)/T))
                a0 = start
                x, y = limited(lambda: find_first_occurrence(
                    h, q * amp, step_limit=start + 6 * T + block, **kw))
                e = a0 + T * np.arcsin(q) / (2*np.pi)
                ctx.check(abs(x - e) <= 1.01 * step, 'first occurrence',
                          f'at {x}, first is at {e} (period {T/2})')
            else:
                ctx.raises(lambda: limited(lambda: find_first_occurrence(
                    f, 3 * amp, step_limit=start + 3.5 * block, **kw)),
                    'no occurrence is an error', exc=ValueError)


def derivative(ctx):
    from ssqueezepy import cwt, Wavelet
    from ssqueezepy.utils import trigdiff, est_riskshrink_thresh, mad
    for i, rng in ctx.cases('derivative', 70, share=0.75, min_cases=35):
        N = gen.length(rng, 12, 300)
        dt = gen.choice(rng, ['float32', 'float64'])
        x, kind = gen.signal(rng, N)
        x = x / max(np.abs(x).max(), 1e-12)
        fs = gen.choice(rng, [1., 1., 2, 400., .01])
        tol = 2e-5 if dt == 'float32' else 1e-11
        with ctx.run(N=N, dtype=dt, x=x, fs=fs):
            wav = Wavelet(('gmw', dict(dtype=dt)))
            sc = 2**(np.arange(4, 4 + int(rng.integers(3, 40))) / 8)
            kw = dict(padtype=gen.choice(rng, ['reflect', 'zero', 'wrap', 'symmetric']))
            Wx, _, dWx = cwt(x, wav, scales=sc, fs=fs, derivative=True, **kw)
            Wp, *_ = cwt(x, wav, scales=sc, fs=fs, rpadded=True, **kw)
            scale = np.pi * fs * np.abs(Wp).max()
            keep = Wp.copy()
            got = trigdiff(Wp, fs=fs, rpadded=True, N=N,
                           **({} if rng.random() < .5 else dict(padtype=None)))
            ctx.close(got, dWx, tol, 'trigdiff = derivative', scale=scale)
            # without padding information: pads it itself
            pt = gen.choice(rng, [None, 'reflect', 'zero', 'wrap', 'replicate'])
            A = Wx if rng.random() < .6 else np.stack([Wx, Wx[::-1] * 1j])
            got = trigdiff(A, fs=fs, padtype=pt)
            n_up, n1, n2 = ref.p2up(N)
            ap = np.stack([ref.pad(a, pt or 'reflect', n1, n2)
                           for a in A.reshape(-1, N).astype('c16')])
            xi = ref.xi(n_up)
            want = np.fft.ifft(np.fft.fft(ap) * 1j * xi * fs)[:, n1:n1 + N].reshape(A.shape)
            ctx.close(got, want, tol, 'trigdiff', f'{pt}',
                      scale=np.pi * fs * np.abs(A).max())
            ctx.check(np.array_equal(Wp, keep), 'input left unchanged')
            # thresholds
            nv = int(rng.integers(1, len(sc) + 1))
            a = np.abs(Wx[:nv].astype('c16'))
            e = 1.4826 * np.sqrt(2 * np.log(N)) * np.abs(a - a.mean()).mean()
            ctx.close(est_riskshrink_thresh(Wx, nv), e, 1e-4, 'threshold',
                      scale=abs(e) + 1e-6)
            ax = gen.choice(rng, [None, 0])
            m = a.mean(axis=ax)
            ctx.close(mad(a, ax), np.abs(a - m).mean(axis=ax), 1e-12,
                      'mean absolute deviation', scale=a.max() + 1e-300)


def squeezing(ctx):
    from ssqueezepy import ssq_cwt, ssq_stft, Wavelet
    from ssqueezepy.experimental import phase_ssqueeze, phase_transform
    for i, rng in ctx.cases('squeezing', 26, share=0.92, min_cases=13):
        stft = rng.random() < .5
        N = gen.length(rng, 24 if stft else 90, 220 if stft else 300)
        dt = gen.choice(rng, ['float32', 'float64'])
        x, _ = gen.signal(rng, N)
        fs = gen.choice(rng, [1., 3., 250.])
        sq = gen.choice(rng, ['sum', 'sum', 'lebesgue', 'abs'])
        gw = bool(rng.random() < .5)
        gamma = gen.choice(rng, [None, None, 1e-3])
        with ctx.run(N=N, dtype=dt, x=x, fs=fs, stft=stft, sq=sq, gw=gw, gamma=gamma):
            if stft:
                n_fft = int(rng.integers(12, min(N, 80)))
                kw = dict(n_fft=n_fft, dtype=dt)
                Tx, Sx, f, Sfs, w, dSx = ssq_stft(x, fs=fs, get_w=True, get_dWx=True,
                                                  squeezing=sq, gamma=gamma, **kw)
                out = phase_ssqueeze(Sx, dSx, ssq_freqs=Sfs, Sfs=Sfs, fs=fs, gamma=gamma,
                                     get_w=gw, squeezing=sq, transform='stft')
                lib.tx_close(ctx, out[0], Tx, dt, 'squeeze: stft')
                ctx.check(np.array_equal(out[2], f), 'frequencies')
                pw = phase_transform(Sx, dSx, gamma=gamma, fs=fs, get_w=True,
                                     transform='stft',
                                     **(dict(Sfs=Sfs) if n_fft % 2 or rng.random() < .5 else {}))[0]
            else:
                wav = Wavelet(('gmw', dict(dtype=dt)))
                mr = gen.choice(rng, ['peak', 'maximal', 'energy'])
                nv = int(gen.choice(rng, [8, 16]))
                Tx, Wx, f, sc, w, dWx = ssq_cwt(x, wav, scales='log', nv=nv, fs=fs,
                                                maprange=mr, get_w=True, get_dWx=True,
                                                squeezing=sq, gamma=gamma)
                out = phase_ssqueeze(Wx, dWx, scales=sc, fs=fs, wavelet=wav, maprange=mr,
                                     gamma=gamma, difftype='trig', get_w=gw, squeezing=sq,
                                     flipud=True)
                lib.tx_close(ctx, out[0], Tx, dt, 'squeeze: cwt')
                ctx.close(out[2], f, 1e-6, 'frequencies')
                pw = phase_transform(Wx, dWx, difftype='trig', gamma=gamma, fs=fs,
                                     get_w=True)[0]
            ctx.check(pw.shape == w.shape and pw.dtype == w.dtype, 'phase', 'shape, dtype')
            both = np.isfinite(pw) & np.isfinite(w)
            if ctx.check(np.mean(np.isfinite(pw) != np.isfinite(w)) <= .005, 'phase',
                         'negligible coefficients differ'):
                ctx.close(pw[both], w[both], 1e-5 if dt == 'float32' else 1e-10, 'phase',
                          scale=np.abs(w[both]) + fs)


def helpers(ctx):
    from ssqueezepy import toolkit as tk
    from ssqueezepy.utils import _process_fs_and_t
    for i, rng in ctx.cases('helpers', 60, share=1.0, min_cases=30):
        n = int(rng.integers(1, 6))
        N = int(rng.integers(3, 90))
        fr = rng.uniform(.5, 20, n)
        phi = float(gen.choice(rng, [0, .3, -1.]))
        end = bool(rng.random() < .4)
        with ctx.run(n=n, N=N, fr=fr, phi=phi, end=end):
            for fn, g in ((tk.cos_f, np.cos), (tk.sin_f, np.sin)):
                e = [g(2*np.pi*f*(i + np.arange(N)/(N - 1 if end else N) + phi))
                     for i, f in enumerate(fr)]
                ctx.close(fn(list(fr), N=N, phi=phi, endpoint=end), np.concatenate(e),
                          1e-9, 'helpers', fn.__name__)
            x, y = rng.standard_normal((2, N))
            ctx.close(tk.mad_rms(x, y), np.abs(x - y).mean() / np.sqrt((x**2).mean()),
                      1e-12, 'helpers', 'mad_rms')
            A = rng.integers(-4, 5, size=gen.choice(rng, [(9,), (4, 5), (2, 3, 4)])
                             ) * gen.choice(rng, [1, 1j, .5])
            got = sorted(zip(*tk.where_amax(A)))
            e = [tuple(t) for t in np.argwhere(np.abs(A) == np.abs(A).max())]
            ctx.check([tuple(map(int, g)) for g in got] == [tuple(map(int, g)) for g in e],
                      'helpers', 'where_amax')
            # sampling information
            fs = float(10**rng.uniform(-4, 5))
            t = gen.choice(rng, [0., 5., -30.]) / fs + np.arange(N) / fs
            which = gen.choice(rng, ['fs', 't', 'none', 'both'])
            if which == 'fs':
                d, f, tt = _process_fs_and_t(fs, None, N)
            elif which == 't':
                d, f, tt = _process_fs_and_t(None, t, N)
            elif which == 'both':
                d, f, tt = _process_fs_and_t(3 * fs, t, N)  # `t` overrides
            else:
                fs = 1.
                d, f, tt = _process_fs_and_t(None, None, N)
            ctx.check(abs(f / fs - 1) < 1e-8 and abs(d * fs - 1) < 1e-8, 'fs and t',
                      f'{which}: dt={d}, fs={f} for {fs}')


def run(ctx):
    for fn in (admissibility, integrals, searches, derivative, squeezing, helpers):
        with ctx.guard(fn.__name__):
            fn(ctx)
