"""Extracted ridges against per-time maxima, constructed dominant components, a replay of
the removal, and the energies at the indices; serial against parallel kernels."""
import numpy as np
from rt import gen

MODES = {'nojit': {'env': {'NUMBA_DISABLE_JIT': '1'}, 'shards': {'quick': 5,
                                                                 'thorough': 6}},
         'main': {'env': {'NUMBA_NUM_THREADS': '3'}, 'shards': {'quick': 2,
                                                                'thorough': 2}}}
BUDGET = {'quick': 20, 'thorough': 400}
REQUIRE = {'indices': 300, 'maximum of energy': 60, 'dominant component': 150,
           'removal': 150, 'values at indices': 150, 'serial = parallel': 300,
           'next to an edge': 60, 'optimal path': 30}
RULE = ('random transforms, precisions, scales, penalties, bandwidths; counted once every '
        'ridge of a call was checked')
ASSUMPTIONS = ['a dominant component is one whose energy exceeds all else at each time by '
               'more than its own jumps can be penalized for, within the dynamic range '
               'which the epsilon added to energies leaves']


def axis(rng, F):
    """`(scales or frequencies, transform)`."""
    tr = gen.choice(rng, ['cwt', 'cwt', 'stft'])
    if tr == 'cwt':
        s = gen.choice(rng, [1., 2., .01]) * 2**(np.arange(F) / gen.choice(
            rng, [4, 8, 16, 32]))
        if rng.random() < .3:
            s = s[::-1].copy()
    else:
        s = np.arange(F) * gen.choice(rng, [1., .5 / F, 10.])
    return s, tr


def run(ctx):
    import ssqueezepy as ssq
    ex = ssq.extract_ridges
    jit = ctx.mode == 'main'

    def call(rng, Tf, s, **kw):
        """Every option spelled some way; both kernels; `(idx, f, e)`."""
        T0, s0 = np.array(Tf), np.array(s)
        par = ex(Tf, s, parallel=True, get_params=True, **kw)
        ser = ex(Tf, s, parallel=False, get_params=True, **kw)
        for a, b, nm in zip(par, ser, ('indices', 'frequencies', 'energies')):
            ctx.equal(a, b, 'serial = parallel', nm)
        if rng.random() < .4:
            ctx.equal(ex(Tf, s, **kw), ser[0], 'serial = parallel', 'without params')
            ctx.equal(ex(Tf, s, **kw), ser[0], 'serial = parallel', 'again')
        ctx.equal(Tf, T0, 'inputs unchanged', 'Tf')
        ctx.equal(np.array(s), s0, 'inputs unchanged', 'scales')
        F, T = Tf.shape
        n = kw.get('n_ridges', 1)
        idx, f, e = ser
        ctx.check(idx.shape == f.shape == e.shape == (T, n), 'indices', f'{idx.shape}')
        ctx.check(idx.dtype.kind == 'i' and idx.min() >= 0 and idx.max() < F, 'indices',
                  f'{idx.min()}..{idx.max()} of {F}')
        return ser

    def after(Tf, idx, bw, s, f, e, upto):
        """`Tf` with what's around ridges before `upto` zeroed."""
        Z = np.array(Tf)
        for k in range(upto):
            for t in range(Tf.shape[1]):
                lo = max(idx[t, k] - bw, 0)
                Z[lo:idx[t, k] + bw, t] = 0
        return Z

    def values(Tf, s, idx, f, e, bw):
        sv = np.asarray(s, 'float64').ravel()
        for k in range(idx.shape[1]):
            Z = after(Tf, idx, bw, s, f, e, k)
            t = np.arange(Tf.shape[1])
            ctx.close(f[:, k], sv[idx[:, k]], 1e-6, 'values at indices', 'frequencies',
                      scale=np.abs(sv[idx[:, k]]))
            en = np.abs(Z[idx[:, k], t]).astype('float64')**2
            ctx.close(e[:, k], en, 1e-5, 'values at indices', f'energies, ridge {k}',
                      scale=np.maximum(en, 1e-37))

    def sform(rng, s):
        k = gen.choice(rng, ['1d', '1d', '2d', 'list', 'f32'])
        return {'1d': s, '2d': s.reshape(-1, 1), 'list': s.tolist(),
                'f32': s.astype('float32')}[k], k

    # ---- any transform: removal, zero penalty
    for i, rng in ctx.cases('any', 60, 4000, share=.5, min_cases=30):
        F, T = int(rng.integers(1 if i % 9 == 0 else 3, 34)), int(rng.integers(1, 50))
        s, tr = axis(rng, F)
        dt = gen.choice(rng, ['complex64', 'complex128', 'complex128'] + (
            [] if jit else ['float32', 'float64']))
        kind = gen.choice(rng, ['noise', 'sparse', 'zeros columns', 'bursts', 'edges',
                                'ties'])
        A = rng.standard_normal((F, T)) + (1j * rng.standard_normal((F, T))
                                           if dt[0] == 'c' else 0)
        if kind == 'sparse':
            A = A * (rng.random((F, T)) < .15)
        elif kind == 'zeros columns':
            A[:, rng.random(T) < .3] = 0
        elif kind == 'bursts':
            A = A * 10.**rng.uniform(-5, 5, T)
        elif kind == 'edges':
            A[gen.choice(rng, [0, -1])] *= 30
        elif kind == 'ties':
            A = np.round(A)
        A = (A * gen.choice(rng, [1., 1e-3, 1e4])).astype(dt)
        if rng.random() < .3 and not jit:     # (each layout is compiled for)
            A = np.asfortranarray(A)
        pen = float(gen.choice(rng, [0, 0, 0, .1, 2, 20, 1000]))
        n = int(rng.integers(1, 5))
        bw = int(gen.choice(rng, [0, 1, 2, 4, 15, F, 2*F]))
        sv, form = sform(rng, s)
        with ctx.run(F=F, T=T, dt=dt, kind=kind, pen=pen, n=n, bw=bw, tr=tr, form=form,
                     A=A):
            if tr == 'stft' or np.min(s) > 0:
                pass
            kw = dict(penalty=pen, bw=bw, transform=tr)
            idx, f, e = call(rng, A, sv, n_ridges=n, **kw)
            values(A, s, idx, f, e, bw)
            for k in range(1, n):
                Z = after(A, idx, bw, s, f, e, k)
                one = ex(Z, sv, n_ridges=1, parallel=bool(rng.integers(2)), **kw)
                ctx.equal(one[:, 0], idx[:, k], 'removal', f'ridge {k}')
                if ((idx[:, :k] < bw) | (idx[:, :k] + bw > F)).any():
                    ctx.event('next to an edge')
            fewer = ex(A, sv, n_ridges=1, **kw)
            ctx.equal(fewer[:, 0], idx[:, 0], 'removal', 'first of several = only one')
            # zero columns accumulate -log(eps) each
            if pen == 0:
                en = np.abs(A).astype('float64')**2
                mx = en.max(axis=0)
                got = en[idx[:, 0], np.arange(T)]
                z = (mx == 0).sum()
                tol = (1e-5 if dt in ('complex64', 'float32', 'float64') else 1e-9
                       ) * (1 + 3 * z)
                ctx.check((got >= mx * (1 - tol)).all(), 'maximum of energy',
                          f'{np.min(got / np.maximum(mx, 1e-300)):.6f} of maximum')

    # ---- dominant separated components
    for i, rng in ctx.cases('dominant', 50, 4000, share=.85, min_cases=15):
        F, T = int(rng.integers(12, 48)), int(rng.integers(3, 70))
        s, tr = axis(rng, F)
        dt = gen.choice(rng, ['complex64', 'complex128'])
        pen = float(gen.choice(rng, [0, .5, 2, 5, 20, 40]))
        lv = np.log(s) if tr == 'cwt' else s
        two = bool(rng.random() < .5)
        bw = int(rng.integers(1, max(2, F // 8)))
        where = gen.choice(rng, ['edge0', 'edge1', 'mid', 'mid', 'cross'])
        lo, hi = (0, F - 1) if not two else (0, F // 2 - bw - 2)
        p = np.zeros(T, int)
        p[0] = {'edge0': lo, 'edge1': hi, 'mid': (lo + hi) // 2, 'cross': lo}[where]
        for t in range(1, T):
            st = int(gen.choice(rng, [0, 0, 1, -1, 1])) if where != 'cross' else 1
            p[t] = min(max(p[t-1] + st, lo), hi)
        pm = pen * np.max(np.diff(lv[p])**2, initial=0)
        # e gap: -log(eps) bounds it
        cap = 15.5 if dt == 'complex64' else 35.5
        gap = 2 * pm + 1.5
        with ctx.run(F=F, T=T, tr=tr, dt=dt, pen=pen, two=two, bw=bw, where=where,
                     gap=gap, p=p):
            if gap > cap - 1:
                from rt.core import HarnessSkip
                raise HarnessSkip('jumps too penalized')
            gap = float(rng.uniform(gap, cap - .8)) if rng.random() < .6 else gap
            amp = gen.choice(rng, [np.ones(T), 10.**rng.uniform(-3, 3, T),
                                   np.linspace(1, 1e-4, T), np.linspace(1e-4, 1, T)])
            ph = np.exp(2j * np.pi * rng.random((F, T)))
            A = rng.uniform(.2, 1, (F, T)) * np.exp(-gap / 2)
            A[p, np.arange(T)] = 1
            n = 1
            if two:
                q = p[::-1] + F // 2 + bw + 1
                q = np.minimum(q, F - 1)
                r2 = np.exp(-1.5 / 2)
                # relative to what's left after the first is removed
                pm2 = pen * np.max(np.diff(lv[q])**2, initial=0)
                if gap < 2 * max(pm, pm2) + 2.5 or pm2 * 2 + 1.5 > gap - 1.5:
                    two = False
                else:
                    A[q, np.arange(T)] = r2 if 1.5 > 2 * pm else np.nan
                    n = 2
                if two and not np.isfinite(A).all():
                    two, n = False, 1
                    A[q, np.arange(T)] = np.exp(-gap / 2)
            A = (A * ph * amp * gen.choice(rng, [1., 1e-4, 1e3])).astype(dt)
            sv, form = sform(rng, s)
            idx, f, e = call(rng, A, sv, penalty=pen, bw=bw, transform=tr, n_ridges=n)
            ctx.equal(idx[:, 0], p.astype(idx.dtype), 'dominant component',
                      f'at times {np.flatnonzero(idx[:, 0] != p)[:5]}')
            if ((p < bw) | (p + bw > F)).any():
                ctx.event('next to an edge')
            if two:
                ctx.equal(idx[:, 1], q.astype(idx.dtype), 'dominant component',
                          f'second, at times {np.flatnonzero(idx[:, 1] != q)[:5]}')
                ctx.event('two components')
            values(A, s, idx, f, e, bw)

    # ---- where the path ends: on the least penalized one
    # (walking back along it isn't exact: predecessors are matched to within rounding)
    for i, rng in ctx.cases('optimal', 25, 3000, min_cases=8):
        F, T = int(rng.integers(2, 20)), int(rng.integers(2, 40))
        s, tr = axis(rng, F)
        pen = float(gen.choice(rng, [0, .5, 2, 20, 200]))
        A = (rng.standard_normal((F, T)) + 1j * rng.standard_normal((F, T)))
        with ctx.run(F=F, T=T, tr=tr, pen=pen, A=A):
            idx = call(rng, A, s, penalty=pen, transform=tr)[0][:, 0]
            en = np.abs(A)**2
            c = -np.log(en / en.max(axis=0) + np.finfo(float).eps)
            lv = np.log(s) if tr == 'cwt' else s
            P = pen * (lv[:, None] - lv)**2
            tot = c[:, 0]
            for t in range(1, T):
                tot = (tot[None] + P).min(axis=1) + c[:, t]
            # last index is on an optimal path
            ctx.check(tot[idx[-1]] <= tot.min() + 1e-5 * (1 + abs(tot.min())),
                      'optimal path', f'ends at cost {tot[idx[-1]]}, least {tot.min()}')
