"""Phase transform: each value observed is compared with the quotient it stands for;
on tones, with the tone's frequency."""
import numpy as np
from rt import gen, ref

MODES = {'main': {}, 'serial': {'env': {'SSQ_PARALLEL': '0'}}}
SHARDS = {'quick': 1, 'thorough': 3}
REQUIRE = {'phase_cwt = definition': 5000, 'phase_stft = definition': 5000,
           'negligible = inf': 500, 'parallel = serial': 20, 'ssq_cwt w': 4,
           'ssq_stft w': 4, 'tone: stft': 3, 'zeros': 200}
RULE = ('random complex arrays over many magnitudes, one phase value per observation; '
        'transforms of signals; tones at random rates')
ASSUMPTIONS = ['magnitudes whose squares are representable in the precision used',
               'values within rounding of gamma may be either']


def run(ctx):
    from rt import lib
    from rt.lib import ssq
    import itertools
    phase_cwt, phase_stft, phase_cwt_num = (ssq.phase_cwt, ssq.phase_stft,
                                            ssq.phase_cwt_num)
    for i, rng in ctx.cases('arrays', 120, 4000, share=.45, min_cases=60):
        na, n = int(rng.integers(1, 40)), int(rng.integers(1, 60))
        cdt = gen.choice(rng, ['complex64', 'complex128'])
        fdt = 'float32' if cdt == 'complex64' else 'float64'
        emax = 8 if fdt == 'float32' else 60
        mag = 10**rng.uniform(-emax, emax, (na, n)) if rng.random() < .5 else \
            10**rng.uniform(-3, 3, (na, n))
        W = (mag * np.exp(2j*np.pi*rng.random((na, n)))).astype(cdt)
        W[rng.random((na, n)) < .1] = 0
        om = 10**rng.uniform(-6, 6, (na, n)) * rng.choice([-1, 1], (na, n))
        # also real part of quotient, which mustn't matter
        q = om * 2j*np.pi + rng.normal(size=(na, n)) * np.abs(om) * gen.choice(
            rng, [0, 1, 10])
        dW = (W.astype('complex128') * q).astype(cdt)
        gamma = gen.choice(rng, [None, 0, 1e-8, 1e-3, 1., 1e2])
        stft = rng.random() < .5
        fs = 10**rng.uniform(-3, 3)
        Sfs = np.linspace(0, .5*fs, na).astype(fdt)
        par = gen.choice(rng, [None, True, False])
        copies = W.copy(), dW.copy()
        with ctx.run(na=na, n=n, dtype=cdt, gamma=gamma, stft=stft, par=par):
            if stft:
                w = phase_stft(W, dW, Sfs, gamma=gamma, parallel=par)
                g = 10*np.finfo(fdt).eps if gamma is None else gamma
            else:
                w = phase_cwt(W, dW, gamma=gamma, parallel=par)
                g = np.sqrt(np.finfo(fdt).eps) if gamma is None else gamma
            ctx.check(w.shape == W.shape and w.dtype == fdt, 'shape and dtype',
                      f'{w.shape} {w.dtype}')
            a = np.abs(W.astype('complex128'))
            near = np.abs(a - g) <= 1e-5 * g
            neg = (a < g) | (a == 0)
            with np.errstate(all='ignore'):
                Q = np.imag(dW.astype('complex128') / W.astype('complex128')) / (2*np.pi)
                R = np.abs(dW.astype('complex128')) / a / (2*np.pi)
            want = np.abs(Q) if not stft else np.abs(Sfs[:, None].astype('float64') - Q)
            ctx.check(np.isinf(w[neg & ~near]).all(), 'inf where negligible',
                      f'{(~np.isinf(w[neg & ~near])).sum()} finite values')
            ctx.event('negligible = inf', neg.sum())
            ctx.event('zeros', (a == 0).sum())
            m = ~neg & ~near
            key = 'phase_stft = definition' if stft else 'phase_cwt = definition'
            ctx.event(key, m.sum())
            ok = np.isfinite(w[m])
            if ctx.check(ok.all(), 'finite where not negligible',
                         f'{(~ok).sum()} non-finite of {m.sum()}'):
                tol = 2e-5 if fdt == 'float32' else 1e-12
                sc = (R + (Sfs[:, None] if stft else 0))[m]
                ctx.close(w[m], want[m], tol, key + ' ', scale=sc)
            ctx.check(not np.isnan(w).any() and (w >= 0).all(), 'never NaN or negative')
            ctx.equal(W, copies[0], 'inputs unchanged')
            ctx.equal(dW, copies[1], 'inputs unchanged')
            with lib.with_env(SSQ_PARALLEL='0'):
                w2 = (phase_stft(W, dW, Sfs, gamma=gamma) if stft else
                      phase_cwt(W, dW, gamma=gamma))
                w3 = (phase_stft(W, dW, Sfs, gamma=gamma, parallel=True) if stft else
                      phase_cwt(W, dW, gamma=gamma, parallel=True))
            rt = 2e-5 if fdt == 'float32' else 1e-12
            for v in (w2, w3):
                ctx.close(np.where(near, 0, v), np.where(near, 0, w), rt,
                          'parallel = serial',
                          scale=np.where(neg, 1, R + (Sfs[:, None] if stft else 0)))
    for i, rng in ctx.cases('other difftypes', 24, 600, share=.6, min_cases=12):
        na, n = int(rng.integers(2, 30)), int(rng.integers(8, 60))
        W = rng.standard_normal((na, n)) + 1j * rng.standard_normal((na, n))
        W[rng.random((na, n)) < .1] *= 1e-9
        gamma = gen.choice(rng, [1e-6, .3])
        dt = 10**rng.uniform(-3, 3)
        neg = np.abs(W) < gamma
        order = gen.choice(rng, [1, 2, 4])
        with ctx.run(na=na, n=n, gamma=gamma, order=order):
            w = phase_cwt_num(W, dt, difforder=order, gamma=gamma)
            r = lambda k: np.roll(W, -k, axis=1)     # circular
            d = (r(1) - W if order == 1 else (-r(2) + 4*r(1) - 3*W) / 2 if order == 2
                 else (-r(2) + 8*r(1) - 8*r(-1) + r(-2)) / 12) / dt
            want = np.where(neg, np.inf, np.abs(np.imag(d / W) / (2*np.pi)))
            ctx.close(w, want, 1e-9, 'numeric difference', scale=1 / dt / .2)
            ctx.check((w >= 0).all(), 'never NaN or negative')
            w = phase_cwt(W, None, difftype='phase', gamma=gamma)
            ph = np.unwrap(np.angle(W), axis=1)
            want = np.where(neg[:, :-1], np.inf, np.abs(np.diff(ph)) / (2*np.pi))
            ctx.close(w[:, :-1], want, 1e-9, 'phase difference', scale=1.)
            ctx.check((w >= 0).all(), 'never NaN or negative')
    for i, rng in ctx.cases('transforms', 26, 500, share=.8, min_cases=14):
        N = gen.length(rng, 24, 350)
        x, xk = gen.signal(rng, N, gen.choice(rng, ['noise', 'tones', 'impulse', 'step',
                                                    'sparse', 'big', 'tiny']))
        dtype = gen.choice(rng, ['float32', 'float64'])
        fs = gen.choice(rng, [1., 50., .02])
        gamma = gen.choice(rng, [None, 0, 1e-3, .1])
        stft = rng.random() < .5
        with ctx.run(N=N, x=xk, dtype=dtype, fs=fs, gamma=gamma, stft=stft):
            g = 10 * np.finfo(dtype).eps if gamma is None else gamma
            if stft:
                n_fft = int(rng.integers(9, min(N, 100)))
                _, W, _, Sfs, w, dW = ssq.ssq_stft(
                    x, gen.choice(rng, [None, 'hann']), n_fft=n_fft, fs=fs, gamma=gamma,
                    dtype=dtype, get_w=True, get_dWx=True)
                f = np.arange(n_fft//2 + 1) / n_fft * fs
                ctx.close(Sfs, f, 1e-6, 'bin frequencies')
            else:
                s, _ = gen.scales_arr(rng, N)
                name, opts = gen.wavelet(rng)
                _, W, _, _, w, dW = ssq.ssq_cwt(
                    x, (name, dict(opts, dtype=dtype)), scales=s, fs=fs, gamma=gamma,
                    maprange='maximal', get_w=True, get_dWx=True)
                f = np.zeros(len(s))
            W, dW = W.astype('complex128'), dW.astype('complex128')
            a = np.abs(W)
            near = np.abs(a - g) <= 1e-5 * g
            m = (a > g) & ~near & (a > (1e-12 if dtype == 'float32' else 1e-80))
            q = np.imag(dW[m] / W[m]) / (2*np.pi)
            F = np.broadcast_to(f[:, None], W.shape)[m]
            want = np.abs(F - q) if stft else np.abs(q)
            key = 'ssq_stft w' if stft else 'ssq_cwt w'
            ctx.close(w[m], want, 3e-5 if dtype == 'float32' else 1e-11, key,
                      scale=np.abs(dW[m]) / a[m] / (2*np.pi) + F)
            ctx.check(np.isinf(w[(a < g) & ~near]).all(), 'inf where negligible')
            ctx.check(not np.isnan(w).any() and (w >= 0).all(), 'never NaN or negative')
    for i, rng in ctx.cases('tones', 30, 500, min_cases=18):
        N = int(rng.integers(300, 600))
        fs = 10**rng.uniform(-4, 5)
        dtype = gen.choice(rng, ['float32', 'float64'])
        kind = gen.choice(rng, ['trig', 'phase', 'numeric', 'stft', 'stft'])
        f0 = rng.uniform(.05, .2 if kind == 'numeric' else .35)
        x = np.cos(2*np.pi*f0*np.arange(N) + rng.uniform(0, 6)) * 10**rng.uniform(-1, 2)
        with ctx.run(N=N, fs=fs, dtype=dtype, kind=kind, f0=f0):
            if kind == 'stft':
                n_fft = int(rng.integers(60, 130))
                _, W, _, _, w = ssq.ssq_stft(x, n_fft=n_fft, fs=fs, dtype=dtype,
                                             get_w=True, padtype='wrap')
                tol = .01
            else:
                _, W, _, _, w = ssq.ssq_cwt(x, ('gmw', {'dtype': dtype}), fs=fs,
                                            difftype=kind, get_w=True)
                # rounding noise of finite differences
                tol = .04 if kind == 'numeric' and dtype == 'float32' else .01
            s = slice(N//4, -(N//4))
            a = np.abs(W[:, s])
            m = a > .3 * a.max()
            om = 2*np.pi*f0
            # what 4th-order differences of a tone amount to
            fe = (f0 if kind != 'numeric' else
                  (8*np.sin(om) - np.sin(2*om)) / 6 / (2*np.pi))
            e = np.abs(w[:, s][m] / (fe * fs) - 1).max()
            ctx.check(e < tol, 'tone: ' + kind, f'relative error {e:.3g} of frequency '
                      f'{f0*fs:.6g} at significant coefficients')
