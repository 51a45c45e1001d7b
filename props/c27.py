"""Index searches, indexed summation, denormal zeroing, segmenting and overlap-add against
executable specifications."""
import numpy as np
from rt import gen

MODES = {'nojit': {'env': {'SSQ_PARALLEL': '0', 'NUMBA_DISABLE_JIT': '1'},
                   'shards': {'quick': 1, 'thorough': 2}},
         'jit': {'env': {'SSQ_PARALLEL': '1', 'NUMBA_NUM_THREADS': '4'},
                 'shards': {'quick': 2, 'thorough': 4}}}
BUDGET = {'quick': 22, 'thorough': 250}
REQUIRE = {'find_closest: exact': 60, 'find_closest: linear': 60, 'find_closest: log': 50,
           'find_closest: piecewise': 50, 'find_closest: default is exact': 50,
           'values searched': 8000, 'values out of range': 1200, 'ties': 300,
           'indexed_sum': 60, 'zero_denormals': 60, 'zero_denormals: strided': 15,
           'buffer': 100, 'buffer: batched': 25, 'buffer: modulated': 40,
           'overlap-add': 60, 'window norm': 60, 'weighted inverse': 60,
           'input left unchanged': 150}
RULE = ('random arrays, shapes, bins, values at, between and outside of bins, dtypes, '
        'serial and parallel variants; counted once compared')
ASSUMPTIONS = ['log and linear variants: ties within float error may go either way']


def values(ctx, rng, v, log):
    """2D array of values to search: on bins, at midpoints, near them, out of range."""
    m = (int(rng.integers(1, 20)), int(rng.integers(1, 16)))
    lo, hi = v.min(), v.max()
    u = rng.random(m)
    if log:
        a = lo * (hi / lo) ** (1.6 * rng.random(m) - .3)
        mid = np.sqrt(v[1:] * v[:-1])
    else:
        a = lo + (hi - lo) * (1.6 * rng.random(m) - .3)
        mid = (v[1:] + v[:-1]) / 2
    a = np.where(u < .2, v[rng.integers(len(v), size=m)], a)
    tie = (u > .2) & (u < .35)
    a = np.where(tie, mid[rng.integers(len(mid), size=m)], a)
    near = (u > .35) & (u < .5)
    a = np.where(near, mid[rng.integers(len(mid), size=m)] * (1 + 1e-5 * rng.choice([-1, 1])),
                 a)
    far = (u > .5) & (u < .6)
    a = np.where(far, np.where(rng.random(m) < .5, hi * 1e6,
                               lo * 1e-6 if log else lo - 1e6 * (hi - lo)), a)
    if log and rng.random() < .3:
        a[int(rng.integers(m[0])), int(rng.integers(m[1]))] = 0
    ctx.event('ties', tie.sum())
    ctx.event('values searched', a.size)
    ctx.event('values out of range', ((a < lo) | (a > hi)).sum())
    return a


def nearest(ctx, idx, a, v, tol, key, msg=''):
    """Each index is that of a nearest bin, to within `tol`."""
    ctx.event(key)
    idx = np.asarray(idx)
    if idx.shape != a.shape or idx.dtype.kind not in 'iu':
        return ctx.violation(key, f'{msg}: {idx.shape} {idx.dtype} for {a.shape}')
    if idx.min() < 0 or idx.max() >= len(v):
        return ctx.violation(key, f'{msg}: index {idx.min()}..{idx.max()} of {len(v)}')
    with np.errstate(all='ignore'):
        d = np.abs(a[..., None] - v)
        got = np.take_along_axis(d, idx[..., None].astype(int), -1)[..., 0]
        best = d.min(-1)
        # infinitely far from all: nearest is the end
        far = ~np.isfinite(a)
        bad = np.where(far, idx != np.where(a < 0, v.argmin(), v.argmax()),
                       got > best + tol)
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        ctx.violation(key, f'{msg}: value {a[i]!r} given bin {int(idx[i])} '
                      f'({v[idx[i]]!r}), nearest {int(d[i].argmin())} '
                      f'({v[d[i].argmin()]!r}) of {len(v)}')


def overlap_add(xb, win, hop, n_fft, N):
    x = np.zeros(N + n_fft - 1, dtype=np.result_type(xb, 'f8'))
    for i in range(xb.shape[1]):
        for j in range(n_fft):
            x[i*hop + j] += xb[j, i] * win[j]
    return x


def run(ctx):
    from rt.lib import ssq  # noqa: F401
    from ssqueezepy import algos
    from ssqueezepy.utils.stft_utils import buffer, unbuffer, window_norm
    jit = ctx.mode == 'jit'

    n = 90
    for i, rng in ctx.cases('find_closest', n, 3000, share=.5, min_cases=n // 2):
        vd = gen.choice(rng, ['float64', 'float64', 'float32'])
        kind = gen.choice(rng, ['linear', 'log', 'piecewise', 'piecewise', 'any'])
        nb = int(rng.integers(3, 60))
        log = kind in ('log', 'piecewise')
        if kind == 'linear':
            v = rng.uniform(-5, 5) + np.arange(nb) * 10**rng.uniform(-2, 2)
        elif kind == 'log':
            v = 10**rng.uniform(-3, 3) * 2**(np.arange(nb) / gen.choice(rng, [2, 8, 32]))
        elif kind == 'piecewise':
            n0, n1 = int(rng.integers(3, 40)), int(rng.integers(3, 40))
            p = gen.choice(rng, [(8, 2), (32, 8), (2, 8), (16, 4), (4, 32)])
            st = np.concatenate([np.full(n0, 1 / p[0]), np.full(n1, 1 / p[1])])
            v = 10**rng.uniform(-1, 1) * 2**np.concatenate([[0], np.cumsum(st)])
        else:
            v = rng.permutation(np.cumsum(rng.uniform(.1, 2, nb)) + rng.uniform(-5, 5))
        v = v.astype(vd)
        a = values(ctx, rng, v.astype('f8'), log).astype(
            gen.choice(rng, ['float64', 'float64', 'float32']))
        eps = np.finfo(vd).eps
        with ctx.run(kind=kind, v=v, a=a):
            v0, a0 = v.copy(), a.copy()
            v64, a64 = v.astype('f8'), a.astype('f8')
            if kind != 'any':
                kw = dict(logscale=log)
                t = (16 * eps * len(v) * (np.abs(np.log2(v64)).max() + 1) if log else
                     16 * eps * len(v) * np.abs(v64).max())
                for par in (False, True):
                    if kind == 'linear' and rng.random() < .3:
                        out = algos.find_closest(a, v, parallel=par)
                    else:
                        out = algos.find_closest(a, v, parallel=par, **kw)
                    with np.errstate(all='ignore'):
                        nearest(ctx, out, np.log2(a64) if log else a64,
                                np.log2(v64) if log else v64,
                                t + (16 * np.finfo(a.dtype).eps * (np.abs(np.log2(
                                    a64[a64 > 0])).max() + 1 if log and (a64 > 0).any()
                                    else 0)),
                                'find_closest: ' + kind, f'parallel={par}')
            # exact searches; values infinitely far in log-scale aside
            w, b = ((np.log2(v64), np.log2(np.where(a64 > 0, a64, v64[0]))) if log
                    else (v64, a64))
            nearest(ctx, algos.find_closest_smart(b, w), b, w, 0, 'find_closest: exact',
                    'smart')
            nearest(ctx, algos.find_closest_brute(b, w), b, w, 0, 'find_closest: exact',
                    'brute')
            aa = np.where(a64 > 0, a64, v64[0]) if log else a64
            d = algos.find_closest(aa, v64, logscale=log,
                                   smart=gen.choice(rng, [None, True]))
            nearest(ctx, d, b, w, 0, 'find_closest: default is exact')
            ctx.check(np.array_equal(v, v0) and np.array_equal(a, a0),
                      'input left unchanged')

    n = 50
    for i, rng in ctx.cases('indexed_sum', n, 1500, share=.62, min_cases=n // 2):
        m = (int(rng.integers(1, 25)), int(rng.integers(1, 40)))
        dt = gen.choice(rng, ['float32', 'float64', 'complex64', 'complex128'])
        a = rng.standard_normal(m)
        if dt[0] == 'c':
            a = a + 1j * rng.standard_normal(m)
        a = a.astype(dt)
        k = rng.integers(m[0], size=m).astype(gen.choice(rng, ['int32', 'int64']))
        if rng.random() < .3:
            k[:] = int(rng.integers(m[0]))
        with ctx.run(m=m, dt=dt, a=a, k=k):
            a0, k0 = a.copy(), k.copy()
            ref = np.zeros(m, dtype='complex128')
            np.add.at(ref, (k, np.broadcast_to(np.arange(m[1]), m)), a)
            for par in (None, False, True):
                out = algos.indexed_sum(a, k, parallel=par)
                ctx.check(out.dtype == a.dtype, 'indexed_sum', str(out.dtype))
                # any order of summation
                ctx.close(out, ref, 20 * np.finfo(dt).eps, 'indexed_sum',
                          f'parallel={par}', scale=np.abs(a).sum(0).max())
            ctx.check(np.array_equal(a, a0) and np.array_equal(k, k0),
                      'input left unchanged')

    n = 50
    for i, rng in ctx.cases('zero_denormals', n, 1500, share=.72, min_cases=n // 2):
        dt = gen.choice(rng, ['float32', 'float64'])
        tiny = np.finfo(dt).tiny * np.array(1000, dtype=dt)
        up, dn = np.nextafter(tiny, np.array(1, dt)), np.nextafter(tiny, np.array(0, dt))
        pool = np.array([0, -0., tiny, -tiny, up, -up, dn, -dn, tiny / 1e4, -tiny / 1e3,
                         tiny * 2, 1, -1, 1e-30, 1e30, np.inf, -np.inf, np.nan,
                         np.finfo(dt).smallest_subnormal], dtype=dt)
        shape = tuple(int(k) for k in rng.integers(1, 9, size=int(rng.integers(1, 4))))
        x = pool[rng.integers(len(pool), size=shape)]
        strided = bool(rng.random() < .35)
        with ctx.run(shape=shape, dt=dt, strided=strided, x=x):
            with np.errstate(all='ignore'):
                ref = np.where(np.abs(x) < tiny, np.array(0, dt), x)
            for par in (None, False, True):
                if strided:
                    base = np.full(shape[:-1] + (2 * shape[-1],), dn, dtype=dt)
                    y = base[..., ::2]
                    y[...] = x
                    ctx.event('zero_denormals: strided')
                else:
                    y = x.copy()
                algos.zero_denormals(y, parallel=par)
                ctx.equal(y, ref, 'zero_denormals', f'parallel={par}')
                if strided:
                    ctx.check((base[..., 1::2] == dn).all(), 'zero_denormals',
                              'changed elements which are not of the input')

    n = 80
    for i, rng in ctx.cases('buffer', n, 2500, share=1., min_cases=n // 2):
        L = int(rng.integers(1, 24)) if rng.random() < .8 else int(rng.integers(24, 90))
        N = int(L + rng.integers(0, 120)) if rng.random() < .9 else L
        hop = int(rng.integers(1, L + 1))
        mod = bool(rng.random() < .5)
        dt = gen.choice(rng, ['float64', 'float32', 'complex128', 'int64'])
        two = rng.random() < .3
        shape = (int(rng.integers(1, 4)), N) if two else (N,)
        x = (10 * rng.standard_normal(shape)).astype(dt)
        if rng.random() < .25:
            x = np.repeat(x, 2, -1)[..., ::2]
        with ctx.run(N=N, L=L, hop=hop, mod=mod, dt=dt, shape=shape, x=x):
            x0 = x.copy()
            ns = (N - L) // hop + 1
            idx = np.arange(L)[:, None] + hop * np.arange(ns)
            if mod:
                idx = np.fft.ifftshift(idx, axes=0)
                ctx.event('buffer: modulated')
            for par in (None, False, True):
                out = buffer(x, L, L - hop, mod, parallel=par)
                ctx.equal(out, x[..., idx], 'buffer', f'parallel={par}')
                if two:
                    ctx.event('buffer: batched')
            ctx.check(np.array_equal(x, x0), 'input left unchanged')
            if two:
                continue
            # overlap-add: input of `N + n_fft - 1` samples
            M = N
            x = rng.standard_normal(M + L - 1).astype(
                gen.choice(rng, ['float64', 'float32']))
            win = (rng.random(L) + .2) * rng.choice([-1., 1.]) if rng.random() < .5 \
                else np.hanning(L + 2)[1:-1]
            we = gen.choice(rng, [0, 1, 1, 2])
            xb = buffer(x, L, L - hop)
            f8 = x.dtype == 'float64'
            xw = xb * win[:, None]
            w0, b0 = win.copy(), xw.copy()
            wp = win**we
            got = unbuffer(xw, win, hop, L, M, win_exp=we)
            ref = overlap_add(xw, wp, hop, L, M)
            sc = overlap_add(np.abs(xw), np.abs(wp), hop, L, M).max()
            ctx.close(got, ref, 1e-12, 'overlap-add', scale=sc)
            wn = window_norm(win, hop, L, M, win_exp=we)
            rn = overlap_add(np.repeat(win[:, None], xb.shape[1], 1), wp, hop, L, M)
            ctx.close(wn, rn, 1e-12, 'window norm',
                      scale=(np.abs(win)**(we + 1)).max() * L)
            ctx.check(np.array_equal(win, w0) and np.array_equal(xw, b0),
                      'input left unchanged')
            ok = np.abs(wn) > 1e-3 * np.abs(wn).max()
            ctx.event('weighted inverse', ok.any())
            ctx.close(got[ok] / wn[ok], x[ok], 1e-9 if f8 else 2e-3,
                      'weighted inverse', scale=np.abs(x).max())
            if rng.random() < .3:
                # longest signal from which segments can come
                g = unbuffer(xw, win, hop, L, None, win_exp=we)
                ctx.check(len(g) >= M + L - 1 - (hop - 1) and np.allclose(
                    g[:min(len(g), len(ref))], ref[:len(g)], atol=1e-10 * (1 + sc)),
                    'overlap-add', f'N=None: length {len(g)}')
