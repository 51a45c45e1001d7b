"""NaN and infinities in inputs: outputs are exactly those of the input with these samples
set to zero; replacement utilities change exactly the matching samples."""
import numpy as np
from rt import gen

MODES = {'nojit': {'env': {'SSQ_PARALLEL': '0', 'NUMBA_DISABLE_JIT': '1'},
                   'shards': {'quick': 2, 'thorough': 3}},
         'jit': {'env': {'SSQ_PARALLEL': '1', 'NUMBA_NUM_THREADS': '2'},
                 'shards': {'quick': 1, 'thorough': 2}}}
BUDGET = {'quick': 20, 'thorough': 250}
REQUIRE = {'cwt: as zeroed': 80, 'ssq_cwt: as zeroed': 30, 'outputs finite': 110,
           'input left unchanged': 150, 'only -inf': 8, 'only NaN': 8, 'only +inf': 8,
           'mixed': 8, 'all samples': 6, 'end samples': 20, 'batch: others unaffected': 8,
           'higher order': 8, 'nan_checks=False: nothing replaced': 20,
           'finite input: nan_checks has no effect': 20, 'replace_at_inf': 30,
           'replace_at_nan': 30, 'replace_at_inf_or_nan': 30, 'replace_at_value': 30,
           'replace_under_abs': 30, 'huge finite values kept': 10}
RULE = ('random (signal, kind and positions of non-finite samples, dtype, batch, order, '
        'options) and (array, reference, replacement); counted once compared')
ASSUMPTIONS = ['NumPy inputs; finite samples within float32 range']


def poison(rng, x, what):
    """Returns `(x with non-finite samples, x with these zeroed, description)`."""
    bad, N = x.copy(), x.shape[-1]
    vals = {'only NaN': [np.nan], 'only +inf': [np.inf], 'only -inf': [-np.inf],
            'mixed': [np.nan, np.inf, -np.inf]}[what]
    where = gen.choice(rng, ['one', 'one', 'few', 'few', 'first', 'last', 'run', 'all'])
    rows = [None] if x.ndim == 1 else (
        [int(rng.integers(len(x)))] if rng.random() < .6 else list(range(len(x))))
    for r in rows:
        v = bad if r is None else bad[r]
        if where == 'one':
            i = [int(rng.integers(N))]
        elif where == 'few':
            i = rng.permutation(N)[:max(2, N // 10)]
        elif where == 'first':
            i = [0]
        elif where == 'last':
            i = [N - 1]
        elif where == 'run':
            a = int(rng.integers(N)); i = np.arange(a, min(N, a + 1 + N // 5))
        else:
            i = np.arange(N)
        v[i] = [vals[int(k)] for k in rng.integers(len(vals), size=len(i))]
    z = bad.copy()
    z[~np.isfinite(z)] = 0
    return bad, z, where, rows


def same(ctx, out, ref, key):
    ctx.check(len(out) == len(ref), key, f'{len(out)} outputs, expected {len(ref)}')
    for j, (a, b) in enumerate(zip(out, ref)):
        if isinstance(b, list):
            ctx.check(isinstance(a, list) and len(a) == len(b), key, 'list')
            for p, q in zip(a, b):
                ctx.equal(p, q, key, f'output {j}')
        else:
            ctx.equal(a, b, key, f'output {j}')


def finite(out):
    return all(np.isfinite(v).all() for o in out
               for v in (o if isinstance(o, list) else [o]))


def run(ctx):
    from rt import lib
    from rt.lib import ssq
    from ssqueezepy import algos
    jit = ctx.mode == 'jit'
    kinds = ['only NaN', 'only +inf', 'only -inf', 'mixed']

    n = 30 if jit else 70
    for i, rng in ctx.cases('cwt', n, 900, share=.4, min_cases=n // 2):
        N = gen.length(rng, 12, 300)
        two = rng.random() < .35
        x, xk = (gen.batch(rng, int(rng.integers(1, 4)), N) if two else
                 gen.signal(rng, N))
        x = x.astype(gen.choice(rng, ['float64', 'float64', 'float32', '>f8', 'float16',
                                  'longdouble']))
        if rng.random() < .2:
            x = x[..., ::-1]
        what = gen.choice(rng, kinds)
        bad, z, where, rows = poison(rng, x, what)
        if rng.random() < .3:
            big = np.zeros(bad.shape[:-1] + (2 * N,), dtype=bad.dtype)
            big[..., ::2] = bad
            bad = big[..., ::2]          # not contiguous
        name, opts = gen.wavelet(rng)
        dt, _ = lib.pick_dtype(rng, name)
        wav, form = lib.make_wavelet(rng, name, opts, dt)
        order = (gen.choice(rng, [0, 0, 0, 1, (0, 1), (0, 2)])
                 if name == 'gmw' else 0)
        kw = dict(scales=gen.scales_arr(rng, N)[0], order=order,
                  padtype=gen.choice(rng, ['reflect', 'zero', 'wrap', 'symmetric',
                                           'replicate', None]),
                  derivative=bool(rng.random() < .5),
                  vectorized=bool(rng.random() < .7),
                  rpadded=bool(rng.random() < .2))
        if order != 0 and isinstance(order, tuple):
            kw['average'] = gen.choice(rng, [None, False])
        if rng.random() < .3:
            kw['nan_checks'] = True
        if rng.random() < .3:
            kw['fs'] = 50.
        with ctx.run(N=N, x=xk, shape=x.shape, dt=str(x.dtype), what=what, where=where,
                     wavelet=name, opts=opts, **kw):
            b0 = bad.copy()
            out = ssq.cwt(bad, wav, **kw)
            ctx.equal(bad, b0, 'input left unchanged')
            ref = ssq.cwt(z, wav, **kw)
            same(ctx, out, ref, 'cwt: as zeroed')
            ctx.check(finite(out), 'outputs finite')
            ctx.event(what)
            ctx.event('all samples', where == 'all')
            ctx.event('end samples', where in ('first', 'last', 'all'))
            ctx.event('higher order', order != 0)
            if two and len(rows) == 1 and len(x) > 1 and not isinstance(out[0], list):
                o = [r for r in range(len(x)) if r not in rows]
                alone = ssq.cwt(x[o], wav, **kw)
                ctx.event('batch: others unaffected')
                s = np.abs(alone[0]).max()
                ctx.close(out[0][o], alone[0], 1e-3 if
                          out[0].dtype == 'complex64' else 1e-9,
                          'batch: others unaffected', scale=max(s, 1e-6))
    for i, rng in ctx.cases('nan_checks', 12 if jit else 35, 300, share=.5, min_cases=8):
        N = gen.length(rng, 12, 200)
        two = rng.random() < .3
        x, xk = (gen.batch(rng, 2, N) if two else gen.signal(rng, N))
        name, opts = gen.wavelet(rng)
        kw = dict(scales=gen.scales_arr(rng, N)[0],
                  padtype=gen.choice(rng, ['reflect', 'zero', None]))
        fn = gen.choice(rng, ['cwt', 'ssq_cwt'])
        what = gen.choice(rng, kinds)
        bad, z, where, rows = poison(rng, x, what)
        with ctx.run(N=N, x=xk, what=what, where=where, wavelet=name, opts=opts, fn=fn,
                     **kw):
            # without checks nothing is replaced: values reach the transform
            for v in (bad, z):
                v0 = v.copy()
                with np.errstate(all='ignore'):
                    out = ssq.cwt(v, (name, opts), nan_checks=False, **kw)
                ctx.equal(v, v0, 'input left unchanged')
                ctx.check(finite(out[:1]) == (v is z),
                          'nan_checks=False: nothing replaced', f'{what} {where}')
            if fn == 'ssq_cwt':
                kw['maprange'] = 'maximal'
            f = getattr(ssq, fn)
            a, b, c = [f(z, (name, opts), nan_checks=k, **kw) for k in
                       (None, True, False)]
            same(ctx, b, a, 'finite input: nan_checks has no effect')
            same(ctx, c, a, 'finite input: nan_checks has no effect')
            h = z.copy()
            h[..., int(rng.integers(N))] = gen.choice(rng, [1e30, -1e30])
            a, b = [ssq.cwt(h, (name, dict(opts, dtype='float64')), nan_checks=k,
                            scales=kw['scales'], padtype=kw['padtype'])
                    for k in (None, False)]
            same(ctx, a, b, 'huge finite values kept')
    n = 12 if jit else 30
    for i, rng in ctx.cases('ssq_cwt', n, 500, share=.75, min_cases=n // 2):
        N = gen.length(rng, 24, 260)
        two = rng.random() < .3
        x, xk = (gen.batch(rng, 2, N) if two else gen.signal(rng, N))
        x = x.astype(gen.choice(rng, ["float64", "float32", ">f8", "longdouble"]))
        what = gen.choice(rng, kinds)
        bad, z, where, rows = poison(rng, x, what)
        name, opts = gen.wavelet(rng)
        dt, _ = lib.pick_dtype(rng, name)
        wav, form = lib.make_wavelet(rng, name, opts, dt)
        kw = dict(scales=gen.scales_arr(rng, N)[0], maprange='maximal',
                  padtype=gen.choice(rng, ['reflect', 'zero', 'wrap', 'symmetric']),
                  squeezing=gen.choice(rng, ['sum', 'sum', 'abs', 'lebesgue']),
                  flipud=bool(rng.random() < .5), get_dWx=bool(rng.random() < .5),
                  preserve_transform=bool(rng.random() < .5))
        if not two and kw['squeezing'] == 'sum':
            kw['get_w'] = bool(rng.random() < .4)
        if kw.get('get_w'):
            kw['difftype'] = gen.choice(rng, ['trig', 'phase', 'numeric'])
        if name == 'gmw' and rng.random() < .3:
            kw['order'] = gen.choice(rng, [1, (0, 1)])
            kw.pop('difftype', 0)
        if kw.get('difftype', 'trig') != 'trig':
            kw['get_dWx'] = False
        with ctx.run(N=N, x=xk, shape=x.shape, dt=str(x.dtype), what=what, where=where,
                     wavelet=name, opts=opts, **kw):
            b0 = bad.copy()
            out = ssq.ssq_cwt(bad, wav, **kw)
            ctx.equal(bad, b0, 'input left unchanged')
            ref = ssq.ssq_cwt(z, wav, **kw)
            same(ctx, out, ref, 'ssq_cwt: as zeroed')
            ctx.check(finite(out[:4]), 'outputs finite')
            ctx.event(what)
            ctx.event('all samples', where == 'all')
            ctx.event('end samples', where in ('first', 'last', 'all'))
            ctx.event('higher order', bool(kw.get('order')))

    n = 60
    for i, rng in ctx.cases('replacers', n, 1500, share=1, min_cases=n // 2):
        nd = int(rng.integers(1, 4))
        shape = tuple(int(k) for k in rng.integers(1, 7, size=nd))
        dt = gen.choice(rng, ['float64', 'float32'])
        own = bool(rng.random() < .5)
        r = rng.integers(-3, 4, size=shape).astype(dt)
        m = rng.random(shape)
        r[m < .1], r[(m > .1) & (m < .2)], r[(m > .2) & (m < .3)] = (
            np.nan, np.inf, -np.inf)
        r[(m > .3) & (m < .35)] = -0.
        x = r.copy() if own else rng.standard_normal(shape).astype(dt)
        if not own and rng.random() < .3:
            x.ravel()[int(rng.integers(x.size))] = np.nan
        cplx = bool(rng.random() < .25)
        if cplx:
            r = (r + 1j * np.roll(r, 1)).astype(lib.cplx(dt)); x = r.copy()
        val = gen.choice(rng, [0., 1., -2., np.inf, -np.inf])
        rep = gen.choice(rng, [0., 7.5, -1., np.nan, np.inf])
        with ctx.run(shape=shape, dt=dt, own=own, value=val, rep=rep, cplx=cplx, i=i):
            conds = {'replace_at_inf': np.isinf(r), 'replace_at_nan': np.isnan(r),
                     'replace_at_inf_or_nan': np.isinf(r) | np.isnan(r),
                     'replace_at_value': r == val}
            for name, cond in conds.items():
                exp = np.where(cond, np.array(rep, dtype=x.dtype), x)
                kw = {'value': val} if name == 'replace_at_value' else {}
                for default in (False, True):
                    if default and (rep != 0 or val != 0):
                        continue
                    xi, ri = x.copy(), r.copy()
                    kk = {} if default else dict(replacement=rep, **kw)
                    if not own:
                        kk['ref'] = ri
                    with np.errstate(all='ignore'):
                        got = getattr(algos, name)(xi, **kk)
                    ctx.equal(got, exp, name)
                    if not own:
                        ctx.equal(ri, r, name, 'reference changed')
            if nd == 2:
                thr = gen.choice(rng, [0., .5, 1., 2., 3., np.inf])
                cond = np.abs(r) < thr
                exp = np.where(cond, np.array(rep, dtype=x.dtype), x)
                for par in (None, False, True):
                    xi, ri = x.copy(), r.copy()
                    ref_ = xi if own else ri
                    algos.replace_under_abs(xi, ref=ref_, value=thr, replacement=rep,
                                            parallel=par)
                    ctx.equal(xi, exp, 'replace_under_abs', f'parallel={par}')
                    if not own:
                        ctx.equal(ri, r, 'replace_under_abs', 'reference changed')
