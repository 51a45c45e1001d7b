"""Every sample of a wavelet against its formula in double precision; norms, orthogonality,
analyticity and time-domain samples against quadratures and explicit inverse DFTs."""
import numpy as np
from scipy import special as sp
from rt import gen, ref

MODES = {'main': {'env': {'SSQ_PARALLEL': '0'}, 'shards': {'quick': 2, 'thorough': 3}},
         'par': {'env': {'SSQ_PARALLEL': '1', 'NUMBA_NUM_THREADS': '2'},
                 'shards': {'quick': 2, 'thorough': 2}},
         'nojit': {'env': {'SSQ_PARALLEL': '0', 'NUMBA_DISABLE_JIT': '1'},
                   'shards': {'quick': 3, 'thorough': 3}}}
BUDGET = {'quick': 25, 'thorough': 400}
REQUIRE = {'formula': 300, 'analytic': 100, 'unit energy': 60, 'orthogonal': 60,
           'peak': 40, 'inverse DFT': 80, 'sampled': 120, 'morsewave': 40,
           'frequency measures': 40}
RULE = ('random wavelets, parameters (ordinary and extreme), precisions, frequencies, '
        'scales, lengths, shapes; counted once every sample was compared')
ASSUMPTIONS = ['relative error bound follows the rounding of the formula\'s terms '
               '(sum of magnitudes of terms, and of exponents, times machine precision)']


def draw(rng):
    """`(name, opts, dtype)`, wider than what's useful in transforms."""
    name = gen.choice(rng, ['gmw', 'gmw', 'gmw', 'morlet', 'bump', 'cmhat', 'hhhat'])
    o = {}
    dt = gen.choice(rng, [None, 'float32', 'float64', 'float64'])
    if name == 'gmw':
        if rng.random() < .9:
            o['gamma'] = gen.choice(rng, [.75, 1, 1., 2, 3., 3, 4., 6, 9.,
                                          rng.uniform(.6, 8)])
            o['beta'] = gen.choice(rng, [1, .5, 2., 10., 30, 60., 90., 150., 250, 400.,
                                         rng.uniform(.5, 300)])
            if o['gamma'] < 2 and o['beta'] > 120 and rng.random() < .5:
                o['beta'] = 90.
        if rng.random() < .55:
            o['order'] = int(gen.choice(rng, [1, 1, 2, 2, 3, 4, 5]))
        if rng.random() < .4:
            o['norm'] = 'energy'
            dt = gen.choice(rng, [None, 'float64'])
        if rng.random() < .3:
            o['centered_scale'] = True
    elif rng.random() < .8:
        if name == 'morlet':
            o['mu'] = gen.choice(rng, [1., 2, 4., 5., 6, 13.4, 25., rng.uniform(1, 30)])
        elif name == 'bump':
            o.update(mu=gen.choice(rng, [5., 5, 1., 3., 9.]),
                     s=gen.choice(rng, [1., 1, .3, 2.]),
                     om=gen.choice(rng, [0., 0, .3, -1.]))
        elif name == 'cmhat':
            o.update(mu=gen.choice(rng, [1., 1, 0., 3., 8.]),
                     s=gen.choice(rng, [1., 1, .25, 2.5]))
        elif name == 'hhhat':
            o['mu'] = gen.choice(rng, [5., 5, 0., 2., 9.])
    if dt:
        o['dtype'] = dt
    prec = 'float64' if (dt == 'float64' or o.get('norm') == 'energy') else 'float32'
    return name, o, prec


def opts_ref(o):
    return {k: v for k, v in o.items() if k != 'dtype'}


def bound(name, o, w, eps):
    """Rounding error bound for a straightforward evaluation at `w`, and the reference."""
    p = {**ref.DEFAULTS[name], **opts_ref(o)}
    w = np.asarray(w, 'float64')
    P = ref.psih(name, w, **opts_ref(o))
    with np.errstate(all='ignore'):
        if name == 'gmw':
            g, b, k = float(p['gamma']), float(p['beta']), int(p['order'])
            wc = ref.peak_gmw(g, b)
            v = w * wc if p['centered_scale'] else w
            v = np.where(v > 0, v, 1.)
            L = (b * (1 + abs(np.log(v)) + abs(np.log(wc))) + (1 + g) * v**g * (
                1 + abs(np.log(v))) + b / g * (1 + abs(np.log(b / g))) + 20)
            mag = np.abs(P)
            if k:
                r = (2*b + 1) / g
                m = np.arange(k + 1)
                lc = (sp.gammaln(k + r) - sp.gammaln(r + m) - sp.gammaln(k - m + 1)
                      - sp.gammaln(m + 1))
                lz = np.log(2 * v**g)[..., None] * m
                o0 = dict(opts_ref(o), order=0)
                lam = .5 * (sp.gammaln(r) + sp.gammaln(k + 1) - sp.gammaln(k + r))
                P0 = np.abs(ref.psih(name, w, **o0))
                mag = P0 * np.exp(lam) * np.where(P0 > 0, np.exp(lc + lz).sum(-1), 0)
                L = L + 4 * k * (1 + g * np.abs(np.log(v)) + r)
        elif name == 'morlet':
            mu = p['mu']
            u = w - mu
            L = 8 + 2 * np.abs(u) * (np.abs(w) + mu) + w**2 + mu**2 * (np.exp(
                -.5*mu**2) > 1e-20)
            mag = 2.7 * (np.exp(-.5 * u**2) + np.exp(-.5 * (mu**2 + w**2))) * (
                1 - 2*np.exp(-.75*mu**2) + np.exp(-mu**2))**-.5
        elif name == 'bump':
            u = (w - p['mu']) / p['s']
            q = np.where(np.abs(u) < .9999, 1 - u**2, 1e-3)
            L = 30 + (2 / q**2) * 4 * (1 + np.abs(w) + p['mu']) / p['s'] + 50 * np.abs(
                p['om'] * w)
            mag = np.abs(P)
        elif name == 'cmhat':
            u, s = w - p['mu'], p['s']
            L = 20 + 4 * s**2 * np.abs(u) * (np.abs(w) + p['mu']) + 2 * (
                np.abs(w) + p['mu']) / np.maximum(np.abs(u), 1e-30)
            mag = np.abs(P)
        else:
            u = w - p['mu']
            L = 20 + 4 * np.abs(u) * (np.abs(w) + p['mu']) + 2 * (
                np.abs(w) + p['mu']) / np.maximum(np.abs(u), 1e-30)
            mag = np.abs(P)
    return P, 12 * eps * L * mag


def compare(ctx, got, name, o, w, prec, key, msg='', scale=None):
    eps = 6e-8 if prec == 'float32' else 1.2e-16
    P, tol = bound(name, o, w, eps)
    ctx.event(key)
    got = np.asarray(got)
    if got.shape != P.shape:
        ctx.violation(key, f'{msg}shape {got.shape}, expected {P.shape}')
        return False
    if not np.isfinite(got).all():
        ctx.violation('finite', f'{msg}non-finite at w='
                      f'{np.asarray(w)[~np.isfinite(got)][:3]}')
        return False
    floor = 1e-30 if prec == 'float32' else 1e-280
    bad = ~(np.abs(got - P) <= tol + floor)
    # at the edges of bump's and the half-supported wavelets' support
    pmu = {**ref.DEFAULTS[name], **opts_ref(o)}.get('mu')
    if pmu is not None and name in ('cmhat', 'hhhat', 'bump'):
        e = 3 * eps * (np.abs(w) + abs(pmu))
        if name == 'bump':
            s = {**ref.DEFAULTS[name], **opts_ref(o)}['s']
            bad &= ~(np.abs(np.abs(w - pmu) / s - .999) < 1e-3)
        else:
            bad &= ~((np.abs(w - pmu) <= e) & (np.abs(got) < 1e-3))
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        ctx.violation(key, f'{msg}psih({np.asarray(w)[i]!r}) = {got[i]!r}, formula gives '
                      f'{P[i]!r} +- {tol[i]:.2g} ({bad.sum()} of {bad.size})')
        return False
    return True


def freqs(rng, name, o, dtype):
    """Hostile frequencies: both signs, zero, tiny, huge, around the peak; any shape."""
    p = {**ref.DEFAULTS[name], **opts_ref(o)}
    pk = ref.peak_gmw(float(p['gamma']), float(p['beta'])) if name == 'gmw' else p['mu']
    pk = 1. if p.get('centered_scale') else max(pk, .5)
    n = int(rng.integers(8, 60))
    parts = [pk * rng.uniform(.3, 2, n), np.linspace(-3 * pk, 5 * pk, n),
             pk * 10.**rng.uniform(-6, 4, n), -pk * 10.**rng.uniform(-6, 4, n),
             [0., -0., pk, 1e-30, 3e4, 1e9]]
    w = np.hstack(parts)
    w = w[rng.permutation(len(w))].astype(dtype)
    k = gen.choice(rng, ['1d', '2d', '3d', 'strided'])
    if k == '2d':
        w = w[:len(w) // 3 * 3].reshape(3, -1)
    elif k == '3d':
        w = w[:len(w) // 6 * 6].reshape(2, -1, 3)
    elif k == 'strided':
        w = np.repeat(w, 2)[::2]
    return w, k


def run(ctx):
    from rt.lib import ssq
    from rt.core import HarnessSkip
    from ssqueezepy import _gmw, wavelets
    Wavelet = ssq.Wavelet
    jit = ctx.mode != 'nojit'

    # ---- formula at any frequency
    for i, rng in ctx.cases('formula', 80, 6000, share=.35, min_cases=25):
        name, o, prec = draw(rng)
        wd = gen.choice(rng, ['float32', 'float64']) if prec == 'float64' else 'float32'
        w, shape = freqs(rng, name, o, wd)
        with ctx.run(name=name, opts=o, prec=prec, wd=wd, shape=shape, w=w):
            W = Wavelet((name, o))
            ctx.check(W.dtype == prec, 'precision', f'{W.dtype}')
            w0 = w.copy()
            p = W(w)
            ctx.equal(w, w0, 'input unchanged')
            ctx.check(p.dtype in (prec, 'complex' + str(2 * int(prec[5:]))), 'precision',
                      f'{p.dtype}')
            compare(ctx, p, name, o, w, prec, 'formula')
            q = {**ref.DEFAULTS[name], **opts_ref(o)}
            if name != 'morlet' and not (name == 'bump' and q['mu'] <= q['s']):
                ctx.check(not np.any(p[np.asarray(w) < 0]), 'analytic',
                          'non-zero at negative frequency')
            # scalars, lists
            v = float(np.ravel(w)[0])
            compare(ctx, W(v), name, o, np.atleast_1d(np.float64(np.dtype(prec).type(v))),
                    prec, 'formula', 'scalar: ')
            if not jit:
                l = [float(a) for a in np.ravel(w)[:5]]
                compare(ctx, W(l), name, o, np.array(l, prec), prec, 'formula', 'list: ')

    # ---- sampling: scale, N, halving, time domain, sampled cache
    for i, rng in ctx.cases('sampling', 40, 3000, share=.6, min_cases=12):
        name, o, prec = draw(rng)
        N = gen.length(rng, 4, 300)
        N0 = gen.choice(rng, [None, gen.length(rng, 4, 300)])
        na = int(rng.integers(1, 9))
        sc = gen.choice(rng, ['float', 'int', '1d', '2d', '1'])
        s = (np.sort(rng.uniform(.5, 40, na)) if 'd' in sc else
             rng.uniform(.5, 40) if sc == 'float' else int(rng.integers(1, 40)))
        s = s.reshape(-1, 1) if sc == '2d' else s
        nohalf = bool(rng.random() < .5)
        with ctx.run(name=name, opts=o, N=N, N0=N0, sc=sc, s=s, nohalf=nohalf):
            W = Wavelet((name, o), **({'N': N0} if N0 else {}))
            n = N
            kw = dict(scale=s, N=N)
            if N0 and rng.random() < .4:
                n = N0
                del kw['N']
            sv = np.asarray(s).astype(prec).astype('float64')
            w = (sv.reshape(-1, 1) if sv.size > 1 else sv.ravel()) * ref.xi(n)
            if sc == '2d' and sv.size == 1:
                w = w.reshape(1, -1)
            xi = W.xifn(**kw)
            ctx.close(xi, w, 2e-6 if prec == 'float32' else 1e-14, 'sampled', 'xifn')
            xi0 = W.xi.copy()
            p = W(**kw, nohalf=True)
            p2 = W(**kw, nohalf=False)
            wq = np.asarray(xi, 'float64')    # formula at the frequencies used
            compare(ctx, p, name, o, wq, prec, 'sampled', 'call: ')
            h = np.array(p)
            if n % 2 == 0:
                h[..., n // 2] /= 2
            ctx.close(p2, h, 1e-6 if prec == 'float32' else 1e-14, 'sampled', 'halved')
            tm = W.psifn(**kw)
            sgn = (-1.)**np.arange(n)
            # (float32: subnormals)
            flo = max(np.abs(h).max(), 1e-30)
            ctx.close(tm, np.fft.ifft(h.astype('complex128') * sgn), 3e-6 if prec ==
                      'float32' else 1e-13, 'inverse DFT', 'psifn', scale=flo)
            ctx.check(tm.dtype == ('complex64' if prec == 'float32' else 'complex128'),
                      'precision', f'psifn {tm.dtype}')
            if n % 2 == 0 and n > 8 and sv.size == 1:
                t0 = np.fft.ifft(h.astype('complex128').ravel())
                ctx.close(np.ravel(tm), np.roll(t0, n // 2), 3e-6 if prec == 'float32'
                          else 1e-13, 'inverse DFT', 'centring', scale=flo)
            if '1d' in sc or '2d' in sc:
                P = W.Psih(scale=np.asarray(s, prec), N=n, nohalf=nohalf)
                ctx.close(P, p if nohalf else p2, 1e-6 if prec == 'float32' else 1e-13,
                          'sampled', 'Psih')
            ctx.equal(W.xi, xi0, 'xi unchanged')

    # ---- norms, orders
    for i, rng in ctx.cases('norms', 26, 1500, share=.8, min_cases=8):
        g = gen.choice(rng, [1, 2., 3, 4., rng.uniform(.8, 6)])
        b = gen.choice(rng, [2., 10, 60., 90, 200., 300, rng.uniform(1, 350)])
        cs = bool(rng.random() < .3)
        norm = gen.choice(rng, ['bandpass', 'energy', 'energy'])
        K = int(rng.integers(2, 5))
        with ctx.run(gamma=g, beta=b, centered=cs, norm=norm, K=K):
            wc = ref.peak_gmw(float(g), float(b))
            u = np.linspace(0, wc * (1 + 14 / np.sqrt(g * b + g)) + 60 / g**2 * (g < 2),
                            40001)
            if g < 1.5 or b < 6:
                u = np.linspace(0, (wc**g + 14 * np.sqrt(b / g + 1) + 60)**(1/g), 200001)
            v = u / wc if cs else u
            dv = v[1] - v[0]
            ps = []
            for k in range(K):
                W = Wavelet(('gmw', dict(gamma=g, beta=b, norm=norm, order=k,
                                         centered_scale=cs, dtype='float64')))
                ps.append(np.asarray(W(v)))
            G = np.array([[(p * q).sum() * dv / (2*np.pi) for p in ps] for q in ps])
            if cs:
                G *= wc
            if norm == 'energy':
                ctx.check(np.abs(np.diag(G) - 1).max() < 1e-6, 'unit energy',
                          f'{np.diag(G)}')
            d = np.sqrt(np.diag(G))
            ctx.check((d > 0).all() and np.abs(G / d / d[:, None] - np.eye(K)).max() <
                      1e-6, 'orthogonal', f'{G}')
            if norm == 'bandpass':
                pk = float(_gmw.morsefreq(g, b))
                ctx.check(abs(pk / wc - 1) < 1e-12, 'peak', f'morsefreq {pk}, {wc}')
                pk = 1. if cs else pk
                W = Wavelet(('gmw', dict(gamma=g, beta=b, centered_scale=cs,
                                         dtype='float64')))
                z = W(pk * np.linspace(.8, 1.2, 401))
                ctx.check(abs(W(pk)[0] - 2) < 1e-9 and z.argmax() == 200 and
                          z.max() <= 2 + 1e-9, 'peak', f'{W(pk)}, {z.max()}')
                # all orders have the same energy
                ctx.check(np.abs(np.diag(G) / G[0, 0] - 1).max() < 1e-6, 'orthogonal',
                          f'energies {np.diag(G)}')

    # ---- arrays: compute_gmw, morsewave
    for i, rng in ctx.cases('arrays', 22, 1500, share=.9, min_cases=8):
        g = gen.choice(rng, [1., 2, 3, 4., rng.uniform(1, 5)])
        b = gen.choice(rng, [2., 10, 60, 90., 200., rng.uniform(1, 300)])
        norm = gen.choice(rng, ['bandpass', 'energy'])
        cs = bool(rng.random() < .4)
        k = int(rng.integers(0, 4))
        N = gen.length(rng, 24, 300)
        s = float(rng.uniform(1, 30))
        ns = bool(rng.random() < .7)
        K = int(rng.integers(1, 4))
        dt = gen.choice(rng, [None, 'float64'])
        nf = int(rng.integers(1, 4))
        f = gen.choice(rng, [1, 1, -1]) * np.round(rng.uniform(.1, 2, nf), 3)
        f[-1] *= gen.choice(rng, [1, -1])
        form = gen.choice(rng, ['array', 'list', 'scalar'])
        with ctx.run(gamma=g, beta=b, norm=norm, cs=cs, k=k, N=N, s=s, ns=ns, K=K,
                     f=f, form=form, dtype=dt):
            X, x = _gmw.compute_gmw(N, s, g, b, time=True, norm=norm, order=k,
                                    centered_scale=cs, norm_scale=ns, dtype=dt)
            r = ref.psih('gmw', s * ref.xi(N), gamma=g, beta=b, norm=norm, order=k,
                         centered_scale=cs)
            wc = ref.peak_gmw(float(g), float(b))
            if norm == 'energy' and ns:
                r = r * np.sqrt(s * (wc if cs else 1))
            # float32 by default for 'bandpass'
            eps = 1.2e-16 if (dt == 'float64' or norm == 'energy') else 6e-8
            o = dict(gamma=g, beta=b, norm=norm, order=k, centered_scale=cs)
            _, tol = bound('gmw', o, s * ref.xi(N), eps)
            if norm == 'energy' and ns:
                tol = tol * np.sqrt(s * (wc if cs else 1))
            ctx.check(X.shape == r.shape and np.all(np.abs(X - r) <= 2 * tol + 1e-30),
                      'morsewave', f'compute_gmw: off by {np.abs(X - r).max():.3g}, max '
                      f'{np.abs(r).max():.3g}')
            Xr = X.copy()
            if N % 2 == 0:
                Xr[N // 2] /= 2
            ctx.close(x, np.fft.ifft(Xr * (-1.)**np.arange(N)), 1e-12, 'inverse DFT',
                      'compute_gmw')
            ctx.equal(_gmw.compute_gmw(N, s, g, b, norm=norm, order=k, centered_scale=cs,
                                       norm_scale=ns, dtype=dt), X, 'morsewave')
            fa = f if form == 'array' else f.tolist() if form == 'list' else float(f[0])
            P, T = _gmw.morsewave(N, fa, g, b, K=K, norm=norm)
            fv = f if form != 'scalar' else f[:1]
            want = np.zeros((N, len(fv), K))
            for j, _f in enumerate(fv):
                fact = abs(_f) / wc
                for kk in range(K):
                    w = np.where(np.arange(N) <= N // 2, 2*np.pi*np.arange(N) / N, 0)
                    p = ref.psih('gmw', w / fact, gamma=g, beta=b, norm=norm, order=kk)
                    p = p / (np.sqrt(fact) if norm == 'energy' else 1)
                    if _f < 0:
                        p[1:] = p[1:][::-1]
                    want[:, j, kk] = p
            sq = [d for d in want.shape if d != 1]
            ctx.check(list(P.shape) == sq == list(T.shape), 'morsewave', f'{P.shape}')
            if list(P.shape) == sq:
                P, T = P.reshape(want.shape), T.reshape(want.shape)
                pt = 1e-15 * (1 + b) * (1 + (2*b + 1) / g)**(K - 1) * 20
                ctx.close(P, want, max(pt, 1e-9), 'morsewave', 'frequency domain',
                          scale=np.maximum(np.abs(want).max(axis=0, keepdims=True), 1e-3))
                h = want.copy()
                if N % 2 == 0:
                    h[N // 2] /= 2
                sg = (-1.)**np.arange(N)[:, None, None]
                t = np.fft.ifft(np.where(np.array(fv)[None, :, None] < 0, 0, h) * sg,
                                axis=0)
                hn = np.zeros_like(h)
                hn[0], hn[1:] = h[0], h[1:][::-1]
                tn = np.fft.ifft(hn * sg, axis=0).conj()
                t = np.where(np.array(fv)[None, :, None] < 0, tn, t)
                ctx.close(T, t, max(pt, 1e-9), 'morsewave', 'time domain',
                          scale=max(np.abs(t).max(), 1e-6))

    # ---- lowpass (beta=0), frequency measures
    for i, rng in ctx.cases('measures', 16, 600, min_cases=6):
        g = gen.choice(rng, [1., 2, 3, 4., rng.uniform(1, 5)])
        b = gen.choice(rng, [3., 10, 20, 60, 90., rng.uniform(2, 100)])
        N = gen.length(rng, 24, 300)
        f = float(rng.uniform(.1, 1.5))
        with ctx.run(gamma=g, beta=b, N=N, f=f):
            wm, we, wi, cwi = _gmw.morsefreq(g, b, n_out=4)
            ctx.equal(np.array(_gmw.morsefreq(g, b, n_out=2)), np.array([wm, we]),
                      'frequency measures')
            ctx.equal(np.array(_gmw.morsefreq(g, b, n_out=3)), np.array([wm, we, wi]),
                      'frequency measures')
            hi = (b / g + 16 * np.sqrt(b / g + 1) + 60)**(1 / g)
            u = np.linspace(0, hi, 400001)
            p = ref.psih('gmw', u, gamma=g, beta=b)
            m = lambda n, q: (u**n * q).sum() / q.sum()
            # cumulants of the wavelet taken as a density
            k1 = m(1, p)
            k2 = ((u - k1)**2 * p).sum() / p.sum()
            k3 = ((u - k1)**3 * p).sum() / p.sum()
            for got, want, nm in [(wm, ref.peak_gmw(float(g), float(b)), 'modal'),
                                  (we, m(1, p**2), 'energy'), (wi, k1, 'instantaneous')]:
                ctx.check(abs(got / want - 1) < 1e-6, 'frequency measures',
                          f'{nm} {got}, expected {want}')
            ctx.check(abs(cwi + k3 / k2**1.5) < 1e-4 * (1 + abs(cwi)),
                      'frequency measures', f'curvature {cwi}, {-k3 / k2**1.5}')
            for k in range(1, 4):
                A = float(_gmw.morseafun(g, b, k=k, norm='energy'))
                r = (2*b + 1) / g
                la = .5 * (np.log(2*np.pi*g) + r*np.log(2) + sp.gammaln(k)
                           - sp.gammaln(k + r - 1))
                ctx.check(abs(np.log(A) - la) < 1e-9 * (1 + abs(la)),
                          'frequency measures', f'amplitude {A}, {np.exp(la)}')
            x = u[1::4000]
            L = _gmw.laguerre(x, 3, r - 1)
            ctx.close(L, sp.eval_genlaguerre(3, r - 1, x), 1e-9, 'frequency measures',
                      'laguerre')
            # lowpass: half of peak at `f`, one at zero frequency's bin
            P, T = _gmw.morsewave(N, f, g, 0)
            w = np.log(2)**(1/g) / f * 2*np.pi*np.arange(N) / N
            want = np.where(np.arange(N) <= N // 2, 2 * np.exp(-w**g), 0)
            want[0] = 1
            ctx.close(P, want, 1e-9, 'frequency measures', 'lowpass')
