"""Data races: parallel kernels interpreted over recording arrays in permuted orders of
their iterations (shadow-memory monitor), and stressed as compiled under 1..8 threads."""
import numpy as np
from rt import gen, kernels

MODES = {'record': {'env': {'NUMBA_DISABLE_JIT': '1', 'SSQ_PARALLEL': '1'},
                    'shards': {'quick': 3, 'thorough': 4}},
         'stress': {'env': {'SSQ_PARALLEL': '1', 'NUMBA_NUM_THREADS': '8'},
                    'shards': {'quick': 1, 'thorough': 2}}}
BUDGET = {'quick': 40, 'thorough': 400}
REQUIRE = {'parallel loops monitored': 300, 'parallel iterations monitored': 5000,
           'array accesses monitored': 50000, 'outputs equal across orders': 60,
           'parallel = serial': 60, 'stress runs': 300}
RULE = ('random call of a function with parallel kernels x orders of iterations or '
        'numbers of threads; counted once outputs were compared with serial ones')
ASSUMPTIONS = ['recording is exact for element and slice accesses of kernel arguments and '
               'of arrays made in kernels; scalars carried between iterations show as '
               'order-dependent results']


def before_import(mode):
    kernels.install('record' if mode == 'record' else 'guard')
    if mode != 'record':
        # no guard zones: full speed
        kernels.Guarded.__call__ = kernels.Guarded._direct


def calls(rng, small):
    """`(name, fn(parallel), exact)`; `exact`: outputs must be bitwise equal between
    serial and parallel (integer-valued data), otherwise to rounding."""
    from rt import sq
    from rt.lib import ssq
    from ssqueezepy import algos
    from ssqueezepy.utils import stft_utils
    if small:
        r, n = int(rng.integers(2, 14)), int(rng.integers(1, 14))
    else:
        r, n = [(3, 20000), (300, 400), (2000, 7), (64, 64), (1, 5000), (5000, 1),
                (17, 1001), (8, 16)][int(rng.integers(8))]
        r = max(r, 2)
    cdt = gen.choice(rng, ['complex64', 'complex128'])
    fdt = 'float32' if cdt == 'complex64' else 'float64'
    W = (rng.integers(-8, 9, (r, n)) + 1j * rng.integers(-8, 9, (r, n))).astype(cdt)
    dW = (rng.integers(-8, 9, (r, n)) + 1j * rng.integers(-8, 9, (r, n))).astype(cdt)
    which = gen.choice(rng, ['onfly', 'onfly', 'onfly', 'fast', 'fast', 'fast stft',
                             'find', 'brute', 'isum', 'under', 'denorm', 'phase_cwt',
                             'phase_stft', 'ridges', 'ridges', 'ridges', 'buffer',
                             'buffer', 'pipeline', 'wavelet'])
    kind = gen.choice(rng, ['log', 'linear', 'log-piecewise'])
    nv = max(r, 12) if kind == 'log-piecewise' else max(r, 5)
    nv = min(nv, 120)       # representable
    v = sq.freqs(rng, nv, kind, fdt)
    w = sq.phases(rng, v.astype('float64'), (r, n)).astype(fdt)
    w[rng.random((r, n)) < .1] = np.inf
    flip = bool(rng.random() < .5)
    log = kind != 'linear'
    out0 = np.zeros((nv, n), cdt)
    if which == 'onfly':
        return which + ' ' + kind, lambda p: algos.indexed_sum_onfly(
            W, w, v, 1., logscale=log, flipud=flip, out=out0.copy(), parallel=p), True
    if which == 'fast':
        om = 2*np.pi * np.where(np.isinf(w), 0, w)
        om = np.minimum(om, 1e6 * v[-1])
        D = (W * (1j * om)).astype(cdt)
        return which + ' ' + kind, lambda p: algos.ssqueeze_fast(
            W, D, v, 1., logscale=log, flipud=flip, gamma=.5, out=out0.copy(),
            parallel=p), True
    Sfs = np.linspace(0, .5, max(r, 2)).astype(fdt)[:r]
    if which == 'fast stft':
        if r < 2:
            return calls(rng, small)
        D = dW
        return which, lambda p: algos.ssqueeze_fast(
            W, D, Sfs, 1., logscale=False, flipud=flip, gamma=.5, Sfs=Sfs,
            parallel=p), True
    if which == 'find':
        a = np.where(np.isinf(w), 1, w)
        if log:
            a = np.maximum(a, 1e-30).astype(fdt)
        return which + ' ' + kind, lambda p: algos.find_closest(
            a, v, logscale=log, parallel=p, smart=False), True
    if which == 'brute':
        a = np.where(np.isinf(w), 1, w)
        return which, lambda p: (algos.find_closest_brute(a, v) if p else
                                 np.array([[np.argmin(np.abs(q - v)) for q in row]
                                           for row in a[:, :64]], np.int32)
                                 if a.shape[1] <= 64 and a.shape[0] <= 64
                                 else algos.find_closest_brute(a, v)), True
    if which == 'isum':
        k = rng.integers(0, r, (r, n))
        return which, lambda p: algos.indexed_sum(W, k, parallel=p), True
    if which == 'under':
        def f(p):
            x = w.copy()
            algos.replace_under_abs(x, W, value=4., replacement=-7., parallel=p)
            return x
        return which, f, True
    if which == 'denorm':
        def f(p):
            x = np.where(rngmask, w, np.finfo(fdt).tiny).astype(fdt)
            algos.zero_denormals(x, parallel=p)
            return x
        rngmask = rng.random((r, n)) < .5
        return which, f, True
    if which == 'phase_cwt':
        return which, lambda p: ssq.phase_cwt(W, dW, gamma=.5, parallel=p), False
    if which == 'phase_stft':
        return which, lambda p: ssq.phase_stft(W, dW, Sfs, gamma=.5, parallel=p), False
    if which == 'ridges':
        m = n if small else min(n, 300)
        q = r if small else min(r, 120)
        T = W[:q, :m]
        sc = 2**(np.arange(q) / 8) if rng.random() < .5 else 1. + np.arange(q)
        kw = dict(penalty=gen.choice(rng, [0., .5, 2., 20.]), n_ridges=int(
            rng.integers(1, 4)), bw=int(rng.integers(1, 6)), get_params=True,
            transform=gen.choice(rng, ['cwt', 'stft']))
        return which, lambda p: ssq.extract_ridges(T, sc, parallel=p, **kw), True
    if which == 'buffer':
        x = rng.standard_normal(n + r).astype(fdt)
        if rng.random() < .3:
            x = np.stack([x, x[::-1]])
        sl = int(rng.integers(1, min(len(x.T), 200) + 1))
        ov = int(rng.integers(0, sl))
        if len(x.T) / (sl - ov) * sl > 2e6:
            ov = 0
        mod = bool(rng.random() < .6)
        return which, lambda p: stft_utils.buffer(x, sl, ov, modulated=mod,
                                                  parallel=p), True
    if which == 'wavelet':
        name = gen.choice(rng, gen.WAVELETS)
        o = dict(dtype=gen.choice(rng, ['float32', 'float64']))
        if name == 'gmw':
            o.update(order=int(rng.integers(0, 3)),
                     norm=gen.choice(rng, ['bandpass', 'energy']))
        s = np.logspace(0, 4, 6 if small else 40, base=2).reshape(-1, 1)
        N = int(rng.integers(8, 30 if small else 3000))
        return which, lambda p: ssq.Wavelet((name, o)).Psih(s, N=N, nohalf=False), False
    N = int(rng.integers(24, 60)) if small else int(rng.integers(300, 2500))
    x = gen.signal(rng, N)[0]
    s = gen.scales_arr(rng, N)[0][:10 if small else None]
    if rng.random() < .6:
        return which, lambda p: ssq.cwt(x, 'gmw', scales=s, derivative=True), False
    return which, lambda p: ssq.stft(x, n_fft=24, derivative=True), False


def outs(o):
    return [np.asarray(u) for u in (o if isinstance(o, tuple) else (o,))]


def run(ctx):
    import os
    from rt import lib
    rec = ctx.mode == 'record'
    L = kernels.LOG
    L.drain(ctx)
    if not rec:
        import numba

    def serial(fn):
        with lib.with_env(SSQ_PARALLEL='0'):
            return outs(fn(False))

    for i, rng in ctx.cases('calls', 400 if rec else 160, 20000, min_cases=60):
        name, fn, exact = calls(rng, rec)
        with ctx.run(which=name, i=i):
            kernels.S.order = None
            base = serial(fn)
            if rec:
                L.drain(ctx)
            variants = ([('in order', None), ('reversed', lambda m: range(m)[::-1])] +
                        [(f'order {q}', lambda m, q=q: np.random.default_rng(
                            q).permutation(m)) for q in range(2)] if rec else
                        [(f'{t} threads', t) for t in (8, 8, 3, 5, 2, 8, 7, 8)])
            first = None
            for label, o in variants:
                if rec:
                    kernels.S.order = o
                else:
                    numba.set_num_threads(o)
                got = outs(fn(True))
                if not rec:
                    ctx.event('stress runs')
                else:
                    for k in L.par_calls:
                        ctx.event(f'parallel kernel {k}', L.par_calls[k])
                    L.drain(ctx)
                if first is None:
                    first = got
                for a, b in zip(got, first):
                    ctx.equal(a, b, 'outputs equal across orders' if rec else
                              'outputs equal across runs', f'{name}, {label}')
                for a, b in zip(got, base):
                    if exact:
                        ctx.equal(a, b, 'parallel = serial', f'{name}, {label}')
                    else:
                        fl = a.dtype.kind in 'fc' and a.dtype.itemsize in (4, 8) and \
                            a.dtype != np.float64
                        fin = np.isfinite(b)
                        m = np.abs(b[fin]).max() if fin.any() else 1.
                        ctx.close(a, b, 1e-5 if fl else 1e-11, 'parallel = serial',
                                  f'{name}, {label}', scale=m)
    kernels.S.order = None
