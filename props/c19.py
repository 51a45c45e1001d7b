"""The package is copied into scratch and its configuration file edited there, entry by
entry, between calls; what calls give is compared with the same values passed explicitly."""
import os, shutil, subprocess, sys
import numpy as np
from rt import gen, ref

IMPORT_SSQ = False
MODES = {'main': {'env': {'NUMBA_DISABLE_JIT': '1', 'SSQ_PARALLEL': '1'}}}
SHARDS = {'quick': 6, 'thorough': 8}
BUDGET = {'quick': 20, 'thorough': 400}
REQUIRE = {'configured = explicit': 200, 'explicit overrides': 200, 'falsy overrides': 60,
           'parallel flag': 150, 'title': 20, 'config change seen': 100,
           'instances keep': 60, 'gdefaults': 100, 'transforms': 30}
RULE = ('random edits of entries of configs.ini in random notations, between calls in one '
        'process; counted once a call under the edited file was compared with explicit '
        'arguments under the original one')

# entry: section, object, alternative values
VALUES = {
    'morlet': dict(mu=[5, 6., 20, 10.5]),
    'bump': dict(mu=[4., 6], s=[1.2, .5], om=[.25, -.5]),
    'cmhat': dict(mu=[2., .5], s=[.8, 2]),
    'hhhat': dict(mu=[3., 6]),
    'gmw': dict(gamma=[2., 4, 3.5], beta=[10, 40., 90], norm=['energy', 'bandpass'],
                order=[1, 2, 0], centered_scale=[True, False]),
}
FALSY = {'bump': dict(om=0), 'cmhat': dict(mu=0), 'hhhat': dict(mu=0),
         'gmw': dict(order=0, centered_scale=False)}
ORIG = {'morlet': dict(mu=13.4), 'bump': dict(mu=5, s=1, om=0), 'cmhat': dict(mu=1, s=1),
        'hhhat': dict(mu=5), 'gmw': dict(gamma=3, beta=60, norm='bandpass', order=0,
                                         centered_scale=False)}


def edit(base, entries, rng):
    """Text of the file with `{(object, key): value}` set, in a random notation."""
    out, obj = [], None
    end = False
    for line in base.split('\n'):
        l = line.strip()
        end |= l == '#### END'
        if not end and l.startswith('# '):
            obj = l[2:]
        elif not end and '=' in l:
            k = l.split('=')[0].strip()
            if (obj, k) in entries:
                v = entries[(obj, k)]
                v = str(v)
                if v[0].isalpha() and rng.random() < .5:
                    q = gen.choice(rng, ['"', "'"])
                    v = q + v + q
                line = k + gen.choice(rng, ['=', ' =', ' = ', '= ']) + v
        out.append(line)
    return '\n'.join(out)


def run(ctx):
    root = os.path.join(ctx.tmp, 'pkg')
    shutil.copytree(os.path.join(ctx.repo, 'ssqueezepy'),
                    os.path.join(root, 'ssqueezepy'),
                    ignore=shutil.ignore_patterns('__pycache__'))
    sys.path.insert(0, root)
    for m in [m for m in sys.modules if m.split('.')[0] == 'ssqueezepy']:
        del sys.modules[m]
    ctx.repo = root                     # exceptions are those from this copy
    with ctx.guard('import'):
        import ssqueezepy as ssq
        assert ssq.__file__.startswith(root), ssq.__file__
    if ctx.viol:
        return
    from ssqueezepy import configs, wavelets, _gmw, utils, visuals
    from ssqueezepy._stft import stft
    from ssqueezepy.utils.fft_utils import FFT
    ini = os.path.join(root, 'ssqueezepy', 'configs.ini')
    base = open(ini).read()

    def setcfg(entries, rng):
        with open(ini, 'w') as f:
            f.write(edit(base, entries, rng))

    # ---- wavelets
    w = np.linspace(-3, 12, 301)
    for i, rng in ctx.cases('wavelets', 90, 6000, share=.45, min_cases=30):
        setcfg({}, rng)
        name = gen.choice(rng, ['gmw', 'gmw', 'morlet', 'bump', 'bump', 'cmhat', 'hhhat'])
        keys = list(VALUES[name])
        sel = [k for k in keys if rng.random() < .5] or [gen.choice(rng, keys)]
        cfg = {k: gen.choice(rng, VALUES[name][k]) for k in sel}
        dt = gen.choice(rng, [None, 'float64', 'float32'])
        if dt == 'float32' and cfg.get('norm') == 'energy':
            dt = 'float64'
        over = {k: gen.choice(rng, VALUES[name][k] + [ORIG[name][k]])
                for k in keys if rng.random() < .25}
        over.update({k: v for k, v in FALSY.get(name, {}).items() if rng.random() < .6})
        with ctx.run(name=name, cfg=cfg, dtype=dt, over=over):
            W0 = ssq.Wavelet(name)
            p0 = W0(w)
            full = {**ORIG[name], **cfg}
            d = dt or 'float32'
            want = ssq.Wavelet((name, dict(full, dtype=d)))(w)
            both = {**full, **over}
            want2 = ssq.Wavelet((name, dict(both, dtype=d)))(w)
            fn = getattr(_gmw if name == 'gmw' else wavelets, name)
            dd = {} if 'energy' in (full.get('norm'),) else dict(dtype=d)
            wantf = fn(**full, **(dd or dict(dtype='float64')))(w)
            setcfg({**{(name, k): v for k, v in cfg.items()},
                    **({(name, 'dtype'): dt} if dt else {})}, rng)
            ctx.event('config change seen')
            W = ssq.Wavelet(name)
            ctx.equal(W(w), want, 'configured = explicit', f'Wavelet({name!r})')
            ctx.equal(ssq.Wavelet((name, {}))(w), want, 'configured = explicit',
                      'Wavelet((name, {}))')
            ctx.equal(fn()(w), wantf, 'configured = explicit', f'{name}()')
            W2 = ssq.Wavelet((name, dict(over)))
            ctx.equal(W2(w), want2, 'explicit overrides', f'{over}')
            for k, v in both.items():
                ctx.check(W2.config[k] == v and type(W2.config[k]) in
                          (type(v), float, int, str, bool), 'explicit overrides',
                          f'config[{k!r}] = {W2.config[k]!r}, given {v!r}')
            for k in FALSY.get(name, {}):
                o = {k: FALSY[name][k]}
                a = {kk: v for kk, v in full.items()}
                a.update(o)
                f1 = fn(**o)(w)
                setcfg({}, rng)
                f2 = fn(**a, **dict(dtype='float64' if full.get('norm') == 'energy'
                                    else d))(w)
                setcfg({**{(name, kk): v for kk, v in cfg.items()},
                        **({(name, 'dtype'): dt} if dt else {})}, rng)
                ctx.equal(f1, f2, 'falsy overrides', f'{o} with {cfg} configured')
            for d2 in ('float32', 'float64'):
                if 'energy' in (full.get('norm'), over.get('norm')):
                    continue
                ctx.check(ssq.Wavelet(name, dtype=d2).dtype == d2 ==
                          ssq.Wavelet((name, dict(dtype=d2))).dtype,
                          'explicit overrides', f'dtype {d2} with {dt} configured')
            ctx.equal(W0(w), p0, 'instances keep', 'made before the file was changed')
            setcfg({}, rng)
            ctx.equal(W(w), want, 'instances keep', 'after the file was restored')
            ctx.equal(ssq.Wavelet(name)(w), p0, 'config change seen', 'restored')

    # ---- transforms
    for i, rng in ctx.cases('transforms', 14, 1200, share=.7, min_cases=6):
        setcfg({}, rng)
        name = gen.choice(rng, ['gmw', 'morlet', 'bump'])
        cfg = {k: gen.choice(rng, v) for k, v in VALUES[name].items()
               if rng.random() < .6 and k not in ('norm', 'om')}
        if cfg.get('s') == .5:     # too narrow for such lengths
            cfg.pop('s')
        dt = gen.choice(rng, [None, 'float64'])
        ds = gen.choice(rng, [None, 2, 3])
        sd = gen.choice(rng, [None, 'float64'])
        N = int(rng.integers(60, 200))
        x, _ = gen.signal(rng, N, 'noise')
        kind = gen.choice(rng, ['log-piecewise', 'log'])
        with ctx.run(name=name, cfg=cfg, dtype=dt, downsample=ds, stft=sd, N=N,
                     kind=kind):
            full = (name, dict({**ORIG[name], **cfg}, dtype=dt or 'float32'))
            mx = 70.
            s0 = utils.make_scales(N, 1.5, mx, nv=16, scaletype='log-piecewise',
                                   wavelet=ssq.Wavelet(full), downsample=ds or 4)
            s4 = utils.make_scales(N, 1.5, mx, nv=16, scaletype='log-piecewise',
                                   wavelet=ssq.Wavelet(full), downsample=5)
            wav = full
            sc = 'log'
            W1, sc1 = ssq.cwt(x, wav, scales=sc)
            T1 = ssq.ssq_cwt(x, wav, scales=sc)[0]
            r1 = ssq.icwt(W1, wav, scales=sc1)
            n_fft = int(gen.choice(rng, [32, 48]))
            S1 = stft(x, n_fft=n_fft, dtype=sd or 'float32')
            S32 = stft(x, n_fft=n_fft, dtype='float32')
            Q1 = ssq.ssq_stft(x, n_fft=n_fft, dtype=sd or 'float32')[0]
            setcfg({**{(name, k): v for k, v in cfg.items()},
                    **({(name, 'dtype'): dt} if dt else {}),
                    **({('make_scales', 'downsample'): ds} if ds else {}),
                    **({('stft', 'dtype'): sd} if sd else {})}, rng)
            kw = dict(nv=16, scaletype='log-piecewise')
            ctx.equal(utils.make_scales(N, 1.5, mx, wavelet=ssq.Wavelet(name), **kw), s0,
                      'transforms', f'make_scales, downsample={ds}')
            ctx.equal(utils.make_scales(N, 1.5, mx, wavelet=ssq.Wavelet(name),
                                        downsample=5, **kw), s4, 'explicit overrides')
            W2, sc2 = ssq.cwt(x, name, scales=sc)
            ctx.equal(W2, W1, 'transforms', 'cwt')
            ctx.equal(sc2, sc1, 'transforms', 'cwt scales')
            ctx.equal(ssq.ssq_cwt(x, name, scales=sc)[0], T1, 'transforms', 'ssq_cwt')
            ctx.equal(ssq.icwt(W2, name, scales=sc2), r1, 'transforms', 'icwt')
            ctx.equal(stft(x, n_fft=n_fft), S1, 'transforms', 'stft')
            ctx.equal(stft(x, n_fft=n_fft, dtype='float32'), S32, 'explicit overrides',
                      'stft dtype')
            ctx.equal(ssq.ssq_stft(x, n_fft=n_fft)[0], Q1, 'transforms', 'ssq_stft')

    # ---- parallelism
    x = np.ones(16)
    for i, rng in ctx.cases('parallel', 60, 2000, share=.8, min_cases=30):
        c = gen.choice(rng, [0, 1, '0', None, '0.', 'False', 'True', '1'])
        e = gen.choice(rng, ['0', '1', None])
        with ctx.run(configured=c, env=e):
            setcfg({('IS_PARALLEL', 'parallel'): c} if c is not None else {}, rng)
            if e is None:
                os.environ.pop('SSQ_PARALLEL', None)
            else:
                os.environ['SSQ_PARALLEL'] = e
            want = e != '0' and c not in (0, '0', '0.', 'False')
            ctx.check(bool(configs.IS_PARALLEL()) == want, 'parallel flag',
                      f'{configs.IS_PARALLEL()} with {c!r} configured, {e!r} set')
            F = FFT(wisdom_dir=ctx.tmp, verbose=0)
            ctx.check((F.threads > 1) == (want and os.cpu_count() > 1), 'parallel flag',
                      f'threads {F.threads}')
            ctx.check(FFT(wisdom_dir=ctx.tmp, threads=3).threads == 3,
                      'explicit overrides', 'threads')
            # which kernels are picked: those compiled serially if it's disabled
            used = kernels_used(ssq, ctx)
            ctx.check(used is None or used == want, 'parallel flag',
                      f'parallel kernels {"" if used else "not "}used with {c!r} '
                      f'configured, {e!r} set')
    os.environ['SSQ_PARALLEL'] = '1'

    # ---- the function itself
    defaults = dict(visuals=dict(fontsize=16., weight='bold', loc='left'))
    for i, rng in ctx.cases('gdefaults', 40, 1000, share=.9, min_cases=20):
        name = gen.choice(rng, list(VALUES))
        mod = '_gmw' if name == 'gmw' else 'wavelets'
        sel = {k: gen.choice(rng, [None, 0, False, '', 3.5, 'a', ()])
               for k in VALUES[name] if rng.random() < .7}
        cfg = {k: gen.choice(rng, v) for k, v in VALUES[name].items()
               if rng.random() < .5}
        with ctx.run(name=name, given=sel, cfg=cfg):
            setcfg({(name, k): v for k, v in cfg.items()}, rng)
            now = {**ORIG[name], **cfg, 'dtype': 'float32'}
            got = configs.gdefaults(f'{mod}.{name}', as_dict=True, **sel)
            want = {k: (now[k] if v is None else v) for k, v in sel.items()}
            ctx.check(got == want and list(got) == list(want) and all(
                (got[k] is sel[k]) for k in sel if sel[k] is not None), 'gdefaults',
                f'{got}, expected {want}')
            if len(sel) > 1:
                ctx.check(list(configs.gdefaults(f'{mod}.{name}', **sel)) ==
                          list(want.values()), 'gdefaults', 'as values')
            elif len(sel) == 1:
                ctx.check(configs.gdefaults(f'{mod}.{name}', **sel) ==
                          list(want.values())[0], 'gdefaults', 'single value')
            got = configs.gdefaults(f'{mod}.{name}', get_all=True, **sel)
            ctx.check(got == {**now, **want}, 'gdefaults', f'all: {got}')
            got = configs.gdefaults(f'{mod}.{name}', get_all=True, default_order=True,
                                    **sel)
            ctx.check(got == {**now, **want} and list(got) == list(ORIG[name]) + [
                'dtype'], 'gdefaults', f'ordered: {got}')

    # ---- titles
    import matplotlib.pyplot as plt
    for i, rng in ctx.cases('title', 8, 200, min_cases=5):
        fs = gen.choice(rng, [8, 16, 21.5])
        wt = gen.choice(rng, ['bold', 'normal'])
        loc = gen.choice(rng, ['left', 'right', 'center'])
        kw = {k: v for k, v in dict(fontsize=11., weight='light', loc='center').items()
              if rng.random() < .4}
        with ctx.run(fs=fs, weight=wt, loc=loc, kw=kw):
            setcfg({('_maybe_title', 'fontsize'): fs, ('_maybe_title', 'weight'): wt,
                    ('_maybe_title', 'loc'): loc}, rng)
            visuals.plot(np.arange(4.), title=('abc', dict(kw)) if kw else 'abc')
            ax = plt.gca()
            want = {**dict(fontsize=fs, weight=wt, loc=loc), **kw}
            t = {'left': ax._left_title, 'right': ax._right_title,
                 'center': ax.title}[want['loc']]
            ctx.check(t.get_text() == 'abc', 'title', f'not at {want["loc"]}')
            ctx.check(t.get_fontsize() == want['fontsize'] and
                      t.get_weight() == want['weight'], 'title',
                      f'{t.get_fontsize()}, {t.get_weight()}, expected {want}')
            plt.close('all')
    # a process started under the edited file
    for i, rng in ctx.cases('process', 1, 6):
        with ctx.run(process=i):
            setcfg({('gmw', 'beta'): 24, ('stft', 'dtype'): 'float64'}, rng)
            r = subprocess.run(
                [sys.executable, '-c', 'import ssqueezepy as s, numpy as n; '
                 "print(s.Wavelet().config['beta'], s.configs.GDEFAULTS['_stft']['stft']"
                 "['dtype'], s.stft(n.ones(40), n_fft=16).dtype)"],
                env={**os.environ, 'PYTHONPATH': root}, capture_output=True, text=True)
            ctx.check(r.stdout.split() == ['24.0', 'float64', 'complex128'],
                      'config change seen', f'{r.stdout} {r.stderr[-500:]}')
    setcfg({}, np.random.default_rng(0))


def kernels_used(ssq, ctx):
    """Whether kernels made for parallel execution ran, None if it can't be told."""
    import ssqueezepy.wavelets as wv
    if not (hasattr(wv, '_morlet') and hasattr(wv, '_morlet_par')):
        return None
    hit = []
    a, b = wv._morlet, wv._morlet_par
    try:
        wv._morlet = lambda *x: (hit.append(False), a(*x))[1]
        wv._morlet_par = lambda *x: (hit.append(True), b(*x))[1]
        wv.morlet()(np.linspace(0, 9, 5))
    finally:
        wv._morlet, wv._morlet_par = a, b
    return hit[-1] if hit else None
