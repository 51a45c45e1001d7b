"""Random histories of calls to the FFT wrappers; every result against NumPy's DFT in
double precision, everything returned or passed earlier re-verified after every call."""
import contextlib, os
import numpy as np
from rt import gen

MODES = {'main': {'env': {'NUMBA_DISABLE_JIT': '1'}}}
SHARDS = {'quick': 6, 'thorough': 8}
BUDGET = {'quick': 20, 'thorough': 400}
REQUIRE = {'equals DFT': 1500, 'earlier outputs unchanged': 1000, 'planned': 400,
           'plan reused': 60, 'inputs unchanged': 1500, 'shifts': 200, 'refused': 30}
RULE = ('random histories of calls on one instance of `FFT` (or the module-level '
        'functions): shapes, dtypes, layouts, axes, output lengths, threads, patience, '
        'caching; counted once per history whose every call was compared')
ASSUMPTIONS = ['lengths planned by FFTW are at most 40, with planning time limited']


def make_input(rng, op, planned):
    nd = int(gen.choice(rng, [1, 1, 2, 2, 3]))
    shp = [int(rng.integers(2, 6)) for _ in range(nd)]
    axis = int(gen.choice(rng, [-1, 0] + ([1] if nd > 1 else [])))
    n = int(gen.choice(rng, [rng.integers(2, 12), rng.integers(2, 40), 16, 32, 31]))
    shp[axis] = n
    dts = ['float32', 'float64'] + (['complex64', 'complex128'] * 2 if op != 'rfft'
                                    else [])
    if not planned:
        dts += ['int64', 'float16', 'int32']
        if op in ('fft', 'ifft'):
            dts += ['bool']
    dt = gen.choice(rng, dts)
    x = rng.standard_normal(shp) * 10.**rng.integers(-3, 4)
    if dt.startswith('complex'):
        x = x + 1j * rng.standard_normal(shp)
    x = (x > 0) if dt == 'bool' else x.astype(dt)
    lay = gen.choice(rng, ['C', 'C', 'F', 'neg', 'strided', 'offset', 'readonly'])
    if lay == 'F':
        x = np.asfortranarray(x)
    elif lay == 'neg':
        x = np.ascontiguousarray(np.flip(x))[tuple([slice(None, None, -1)] * nd)]
    elif lay == 'strided':
        x = np.repeat(x, 2, axis=-1)[..., ::2]
    elif lay == 'offset':    # misaligned for SIMD
        buf = np.zeros(x.nbytes + 64, 'uint8')
        o = x.dtype.itemsize
        y = buf[o:o + x.nbytes].view(x.dtype).reshape(x.shape)
        y[...] = x
        x = y
    elif lay == 'readonly':
        x.flags.writeable = False
    return x, axis, lay


def expected(op, x, axis, n):
    x = np.asarray(x)
    v = x.astype('complex128' if x.dtype.kind == 'c' else 'float64')
    if op == 'irfft':
        return np.fft.irfft(v, n=n, axis=axis)
    return getattr(np.fft, op)(v, axis=axis)


def out_dtype(op, dt):
    single = str(dt) in ('float32', 'complex64', 'float16')
    if op == 'irfft':
        return 'float32' if single else 'float64'
    return 'complex64' if single else 'complex128'


def run(ctx):
    from ssqueezepy.utils import fft_utils
    FFT = fft_utils.FFT

    for i, rng in ctx.cases('history', 150, 20000, min_cases=40):
        d = os.path.join(ctx.tmp, f'w{i}')
        os.makedirs(d, exist_ok=True)
        glob = rng.random() < .15
        kw = dict(threads=gen.choice(rng, [None, 1, 2, 3]),
                  patience=gen.choice(rng, [0, 0, 1, (1, .02), 2]),
                  cache_fft_objects=bool(rng.random() < .7),
                  planning_timelimit=gen.choice(rng, [.01, .05, 1]))
        npar = gen.choice(rng, ['0', '1', None])
        nops = int(rng.integers(4, 16))
        with ctx.run(glob=glob, par=npar, nops=nops, **{k: str(v) for k, v in kw.items()}):
            if npar is None:
                os.environ.pop('SSQ_PARALLEL', None)
            else:
                os.environ['SSQ_PARALLEL'] = npar
            with open(os.devnull, 'w') as null, contextlib.redirect_stdout(null):
                F = FFT(wisdom_dir=d, verbose=int(rng.integers(2)), **kw)
                F = fft_utils.FFT_GLOBAL if glob else F
                _history(ctx, F, rng, nops, glob, fft_utils)
    os.environ.pop('SSQ_PARALLEL', None)


def _history(ctx, F, rng, nops, glob, fu):
    kept, ins, seen, last = [], [], set(), None
    for j in range(nops):
        if rng.random() < .12 and not glob:
            F.patience = gen.choice(rng, [0, 1, (1, .03), (2, .01)])
            ctx.event('default patience changed')
        op = gen.choice(rng, ['fft', 'ifft', 'rfft', 'irfft'])
        p = gen.choice(rng, [None, 0, 1, (1, .02), 2, (2, .02)])
        if glob:
            p = gen.choice(rng, [None, 0, 0, (1, .01)])
        eff = F.patience if p is None else p
        planned = (eff[0] if isinstance(eff, tuple) else eff) != 0
        # (0, limit) isn't a documented value
        x = None
        if ins and rng.random() < .55:
            # again, or different content of the same kind, or another op on it
            k = int(rng.integers(len(ins)))
            op0, x0, axis, n, lay, _ = ins[k]
            if rng.random() < .7:
                op = op0
            ok = not (op == 'rfft' and x0.dtype.kind == 'c') and (
                not planned or x0.dtype.kind in 'fc' and x0.dtype.itemsize >= 4)
            if op == 'irfft' and op0 != 'irfft':
                ok = False
            if ok and x0.dtype.kind in 'fc' and rng.random() < .7:
                x = (rng.standard_normal(x0.shape) * np.abs(x0).max()).astype(x0.dtype)
                if x.dtype.kind == 'c':
                    x = x * np.exp(1j * rng.uniform(0, 6, x.shape)).astype(x.dtype)
            elif ok:
                x = x0
                if rng.random() < .25:    # same shape, other precision
                    kinds = [('complex64', 'complex128'), ('float32', 'float64')]
                    for pair in kinds:
                        if str(x.dtype) in pair:
                            x = x.astype(gen.choice(rng, pair))
            if x is not None and x.ndim > 1 and rng.random() < .3:
                axis = int(gen.choice(rng, [0, 1, -1]))
                n = None
            if x is not None and op == 'irfft':
                n = gen.choice(rng, [n, None, 2*(x.shape[axis] - 1),
                                     2*x.shape[axis] - 1])
            if op != 'irfft':
                n = None
            if last is not None and rng.random() < .6:
                p = last
                eff = F.patience if p is None else p
                planned = (eff[0] if isinstance(eff, tuple) else eff) != 0
                if planned and x is not None and not (x.dtype.kind in 'fc' and
                                                      x.dtype.itemsize >= 4):
                    p, planned, eff = 0, False, 0
        if x is None:
            x, axis, lay = make_input(rng, op, planned)
            m = x.shape[axis]
            n = None
            if op == 'irfft':
                n = gen.choice(rng, [None, 2*(m - 1), 2*m - 1])
                if not planned and rng.random() < .3:
                    n = int(rng.integers(1, 3 * m))
        if op == 'irfft' and (n is not None and planned and n // 2 + 1 != x.shape[axis]
                              or n == 0 or n is None and x.shape[axis] == 1):
            n = 2*x.shape[axis] - 1
        last = p
        key = (op, x.shape, str(x.dtype), axis, n, eff)
        if planned:
            ctx.event('planned')
            if key in seen and F.cache_fft_objects:
                ctx.event('plan reused')
            seen.add(key)
        x_copy = np.array(x)
        ins.append((op, x, axis, n, lay, x_copy))
        # omitted options take their defaults
        kw = {} if p is None else dict(patience=p)
        if axis != -1 or rng.random() < .5:
            kw['axis'] = axis
        if n is not None:
            kw['n'] = n
        call = getattr(fu if glob and rng.random() < .5 else F, op)
        got = call(x, **kw)
        want = expected(op, x_copy, axis, n)
        single = out_dtype(op, x.dtype) in ('float32', 'complex64')
        tol = 3e-6 if single else 1e-13
        if x.dtype == np.float16:
            tol, single = 3e-3, None
        what = f'{op} of {x.dtype}{x.shape} ({lay}) axis={axis} n={n} patience={eff}'
        ok = ctx.close(got, want, tol, 'equals DFT', what,
                       scale=max(np.abs(want).max(), np.abs(x_copy).max()))
        if single is not None:
            ctx.check(str(got.dtype) == out_dtype(op, x.dtype), 'precision',
                      f'{what}: {got.dtype}')
        kept.append((got, np.array(got), what, j))
        for op0, x0, *_, c in ins:
            if not ctx.equal(x0, c, 'inputs unchanged', f'input of {op0} after {what}'):
                return
        for g, c, w0, j0 in kept[:-1]:
            if not ctx.equal(g, c, 'earlier outputs unchanged',
                             f'output {j0} ({w0}) after {what}'):
                return
            if np.shares_memory(g, kept[-1][0]):
                ctx.violation('earlier outputs unchanged', f'{what} shares memory with '
                              f'output {j0}')
                return
        if rng.random() < .2:
            # the caller may write into its arrays
            kept[-1][0][...] = 7
            kept[-1] = (kept[-1][0], np.array(kept[-1][0]), what, j)
        if not ok:
            return
        if rng.random() < .3:
            ax = gen.choice(rng, [-1, 0])
            ctx.equal(fu.fftshift(x_copy, axes=ax), np.fft.fftshift(x_copy, axes=ax),
                      'shifts')
            ctx.equal(fu.ifftshift(x_copy, axes=ax), np.fft.ifftshift(x_copy, axes=ax),
                      'shifts')
            ctx.equal(fu.ifftshift(fu.fftshift(x_copy)), x_copy, 'shifts')
        if rng.random() < .05:
            z = np.ones(8, 'complex64')
            ctx.raises(lambda: F.rfft(z), 'refused', 'rfft of complex')
            ctx.raises(lambda: F.rfft(z, patience=(1, .01)), 'refused', 'rfft of complex')
            ctx.raises(lambda: F.fft(np.arange(8), patience=1), 'refused', 'int, planned')
            ctx.raises(lambda: F.fft(z, patience=3), 'refused', 'patience=3')
            ctx.raises(lambda: F.fft(z, patience='1'), 'refused', "patience='1'")
            ctx.raises(lambda: setattr(F, 'patience', 5), 'refused', 'patience=5')
