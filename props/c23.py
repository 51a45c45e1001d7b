"""Reported center frequencies and widths of wavelets (and windows) against moments computed
from double-precision samples."""
import contextlib, io, re
import numpy as np
from rt import gen, ref

MODES = {'nojit': {'env': {'SSQ_PARALLEL': '0', 'NUMBA_DISABLE_JIT': '1'},
                   'shards': {'quick': 3, 'thorough': 6}}}
BUDGET = {'quick': 24, 'thorough': 250}
REQUIRE = {'energy center': 150, 'peak center': 150, 'continuous peak': 60,
           'frequency width': 150, 'time width': 120, 'by formula': 80,
           'non-dimensional': 150, 'Heisenberg bound': 25, 'scaling laws': 40,
           'formula = integration': 60, 'instance properties': 60, 'repeated': 60,
           'after reset': 30, 'printed': 30, 'no decay refused': 4,
           'window widths': 60, 'window areas': 60, 'analytic shifts': 30,
           'odd length': 60}
RULE = ('random (wavelet, parameters, dtype, scale, length, dimensional, forced integration '
        'or formula) and windows; counted once compared')
ASSUMPTIONS = ['bump with om=0; order 0 (single maximum)']
TOL = {'float32': 3e-4, 'float64': 1e-9}


def trapz(y, x):
    return ((y[1:] + y[:-1]) * np.diff(x)).sum() / 2


class Model():
    def __init__(self, name, opts, N):
        self.name, self.o, self.N = name, opts, N

    def psi(self, w):
        if self.name == 'custom':
            return np.exp(-.5 * (w - 7)**2) * (w > 0)
        return np.abs(ref.psih(self.name, w, **self.o))

    def grid(self):
        N = self.N
        return 2*np.pi / N * np.arange(-((N - 1) // 2), N // 2 + 1)

    def energy(self, s):
        w = self.grid()
        a = self.psi(s * w)**2
        return trapz(a * w, w) / trapz(a, w)

    def std_w(self, s):
        w = self.grid()
        a = self.psi(s * w)**2
        wc = trapz(a * w, w) / trapz(a, w)
        return np.sqrt(trapz((w - wc)**2 * a, w) / trapz(a, w))

    def std_t(self, s, mult=2):
        """Also the ratio of peak to ends."""
        n = int(mult * self.N)
        w = ref.xi(n)
        P = self.psi(s * w)
        if n % 2 == 0:
            P[n // 2] /= 2
        t = np.arange(n) - n / 2
        a = np.abs(np.fft.ifft(P * np.exp(-1j * np.pi * np.arange(n))))**2
        dec = a.max() / a[:max(10, n // 100)].mean()
        return np.sqrt(trapz(t * t * a, t) / trapz(a, t)), dec

    def peak_ct(self):
        w = np.linspace(0, 200, 2000001)
        p = self.psi(w)
        return w[p.argmax()], p.max()


def run(ctx):
    from rt.lib import ssq, custom_fn
    from ssqueezepy import Wavelet
    from ssqueezepy import wavelets as WV
    from ssqueezepy.utils.stft_utils import window_resolution, window_area
    TR, FR, CF = WV.time_resolution, WV.freq_resolution, WV.center_frequency

    for i, rng in ctx.cases('wavelet', 110, 2500, share=.85, min_cases=50):
        if rng.random() < .08:
            name, opts = 'custom', {}
        else:
            name, opts = gen.wavelet(rng, l2=bool(rng.random() < .15))
        d = gen.choice(rng, ['float64', 'float64', 'float64', 'float32'])
        if opts.get('norm') == 'energy':
            d = 'float64'
        N = int(gen.choice(rng, [64, 128, 250, 255, 256, 257, 300, 511, 512, 777, 1024]))
        with ctx.run(name=name, opts=opts, dtype=d, N=N):
            ctx.event('odd length', N % 2)
            if name == 'custom':
                wav = Wavelet(custom_fn, N=N)
                d = wav.dtype
            else:
                wav = Wavelet((name, dict(opts, dtype=d)), N=N)
            tol = TOL[d]
            m = Model(name, opts, N)
            # continuous-time peak
            wct, pmax = m.peak_ct()
            g = CF(wav, kind='peak-ct', N=N)
            ctx.check(abs(g - wct) < 2e-3 or m.psi(np.array([g]))[0] > pmax * (1 - 1e-5),
                      'continuous peak', f'{g} expected {wct}')
            sc = 4 / np.pi * g
            wlo = wct / (.9 * np.pi)         # wavelet's peak below Nyquist
            s = float(wlo * 2**rng.uniform(0, np.log2(max(2, N / 6 / max(wlo, .5)))))
            if rng.random() < .15:
                s = sc
            if rng.random() < .2:
                s = max(1, int(s))
            ctx._desc['scale'] = s
            # center frequencies
            e = m.energy(s)
            if not np.isfinite(e):
                continue
            ctx.close(CF(wav, s, N), e, tol, 'energy center')
            if rng.random() < .5:
                ctx.close(CF(wav, scale=s, N=N, kind='energy', force_int=True), e, tol,
                          'energy center')
            ec = m.energy(sc)
            ctx.close(CF(wav, s, N, kind='energy', force_int=False), ec * sc / s, tol,
                      'by formula', 'center')
            ctx.close(CF(wav, N=N), ec, tol, 'energy center', 'default scale')
            w = m.grid()
            a = m.psi(s * w)
            wp = CF(wav, s, N, kind='peak')
            ctx.check(np.abs(w - wp).min() < 1e-5 and
                      a[np.abs(w - wp).argmin()] >= a.max() * (1 - 1e-5),
                      'peak center', f'{wp} expected {w[a.argmax()]}')
            # widths
            sw = m.std_w(s)
            wid = trapz(a, w) / a.max()
            far = sw * N < .3          # less than a bin: cancellation
            ctx.close(FR(wav, s, N, nondim=False), sw, tol * (300 if far else 10),
                      'frequency width', scale=max(sw, 2e-2 / N * 6))
            ctx.close(FR(wav, s, N), sw / wp, tol * (300 if far else 10),
                      'non-dimensional', 'frequency', scale=max(sw, .12 / N) / wp)
            form = s < 4 or s > N / 5
            wce = ec * sc / s
            if form:
                ctx.close(FR(wav, s, N, nondim=False, force_int=False),
                          m.std_w(sc) * sc / s, tol * 10, 'by formula', 'frequency')
            st, dec = m.std_t(s)
            if 500 < dec < 2000:
                pass
            elif dec < 1e3:
                ctx.raises(lambda: TR(wav, s, N), 'no decay refused')
            else:
                ctx.close(TR(wav, s, N, nondim=False), st, tol * 10, 'time width')
                ctx.close(TR(wav, s, N), st * wp, tol * 10, 'non-dimensional', 'time')
                if form:
                    stc, dc = m.std_t(sc)
                    if dc > 2000:
                        ctx.close(TR(wav, s, N, nondim=False, force_int=False),
                                  stc * s / sc, tol * 10, 'by formula', 'time')
            # well-behaved: bell several bins wide and clear of ends, decayed
            swc = m.std_w(sc) * sc
            ok = (lambda z: swc / z * N / (2*np.pi) > 3 and
                  (wct + 7 * swc) / z < np.pi and m.std_t(z)[1] > 1e6 and 4 < z < N / 5)
            if ok(s) and name not in ('hhhat', 'bump'):
                T, F = TR(wav, s, N), FR(wav, s, N)
                ctx.check(T * F > .5 * (1 - 3e-3), 'Heisenberg bound', f'{T * F}')
                if ok(s * 1.3):
                    ctx.event('scaling laws')
                    ctx.close(CF(wav, 1.3 * s, N) * 1.3, CF(wav, s, N), 5e-3,
                              'scaling laws', 'center')
                    ctx.close(TR(wav, 1.3 * s, N, nondim=False) / 1.3,
                              TR(wav, s, N, nondim=False), 1e-2, 'scaling laws', 'time')
                    ctx.close(FR(wav, 1.3 * s, N, nondim=False) * 1.3,
                              FR(wav, s, N, nondim=False), 1e-2, 'scaling laws',
                              'frequency')
                for f in (CF, lambda *a, **k: TR(*a, nondim=False, **k),
                          lambda *a, **k: FR(*a, nondim=False, **k)):
                    ctx.close(f(wav, s, N, force_int=False), f(wav, s, N,
                              force_int=True), 1e-2, 'formula = integration')
            # properties of the instance, at the scale centering it
            if m.std_t(sc)[1] < 2000:
                continue
            wpc = CF(wav, sc, N, kind='peak')
            exp = dict(wc=ec, wc_ct=g, scalec_ct=sc, std_t_d=m.std_t(sc)[0],
                       std_w_d=m.std_w(sc))
            exp['std_f_d'] = exp['std_w_d'] / (2*np.pi)
            exp['std_t'] = exp['std_t_d'] * wpc
            exp['std_w'] = exp['std_w_d'] / wpc
            exp['std_f'] = exp['std_w'] / (2*np.pi)
            exp['harea'] = exp['std_t_d'] * exp['std_w_d']

            def props(W, exp, key):
                for k in rng.permutation(sorted(exp)):
                    ctx.close(getattr(W, k), exp[k], tol * 20, key, k)
            props(wav, exp, 'instance properties')
            props(wav, exp, 'repeated')
            if rng.random() < .6:
                M = int(gen.choice(rng, [256, 301, 400, 640]))
                m2 = Model(name, opts, M)
                wav.N = M
                if m2.std_t(sc)[1] > 2000:
                    if rng.random() < .5:
                        wav.reset_properties()
                    else:
                        with contextlib.redirect_stdout(io.StringIO()):
                            wav.info(reset=True)
                    wpc = CF(wav, sc, M, kind='peak')
                    exp = dict(wc=m2.energy(sc), wc_ct=g, scalec_ct=sc,
                               std_t_d=m2.std_t(sc)[0], std_w_d=m2.std_w(sc))
                    exp['std_t'] = exp['std_t_d'] * wpc
                    exp['std_w'] = exp['std_w_d'] / wpc
                    exp['harea'] = exp['std_t_d'] * exp['std_w_d']
                    props(wav, exp, 'after reset')
                else:
                    continue
            nd = bool(rng.random() < .5)
            with contextlib.redirect_stdout(io.StringIO()) as f:
                wav.info(nondim=nd)
            out = f.getvalue()
            vals = [float(v) for v in re.findall(
                r'(?:frequency|resolution|area): +([0-9.]+)', out)]
            if ctx.check(len(vals) == 4, 'printed', out[:200]):
                x = [exp['wc_ct' if nd else 'wc'], exp['std_t' if nd else 'std_t_d'],
                     exp['std_w' if nd else 'std_w_d'], exp['harea']]
                ctx.close(np.array(vals), np.array(x), max(1e-5, tol * 20), 'printed',
                          scale=np.maximum(np.abs(x), .1))

    for i, rng in ctx.cases('windows', 40, 800, share=1, min_cases=25):
        N = int(rng.integers(8, 200))
        u = rng.random()
        if u < .4:
            win = .05 + rng.random(N)
        elif u < .7:
            n = np.arange(N) - N / 2
            win = np.exp(-.5 * (n / (N * rng.uniform(.05, .3)))**2)
        else:
            win = np.hanning(N + 2)[1:-1]**rng.uniform(.5, 3)
        with ctx.run(N=N, win=win):
            w0 = win.copy()
            W = np.fft.fft(win)
            k = np.arange(-((N - 1) // 2), N // 2 + 1)
            w, a = 2*np.pi / N * k, np.abs(W[k])**2
            t, b = np.arange(N) - N / 2, win**2
            sw = np.sqrt(trapz(w*w*a, w) / trapz(a, w))
            st = np.sqrt(trapz(t*t*b, t) / trapz(b, t))
            got = window_resolution(win)
            ctx.close(np.array(got), np.array([sw, st, sw * st]), 1e-9, 'window widths',
                      scale=np.array([sw, st, sw * st]) + 1e-9)
            at, aw = window_area(win, time=True, frequency=True)
            ctx.close(np.array([at, aw, window_area(win), window_area(
                win, time=False, frequency=True)]), np.array([trapz(b, t), trapz(a, w)] * 2),
                1e-9, 'window areas')
            ctx.check(np.array_equal(win, w0), 'window widths', 'input changed')
            # shifts keeping Nyquist positive
            f = WV.aifftshift(ref.xi(N))
            ctx.close(f, w, 1e-12, 'analytic shifts', scale=np.pi)
            z = rng.standard_normal(N) + 1j * rng.standard_normal(N)
            ctx.equal(WV.afftshift(WV.aifftshift(z)), z, 'analytic shifts', 'round trip')
