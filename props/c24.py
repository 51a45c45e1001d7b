"""Test signals against analytic phases, lengths, noise levels and combinations."""
import numpy as np
from rt import gen

MODES = {'nojit': {'env': {'SSQ_PARALLEL': '0', 'NUMBA_DISABLE_JIT': '1'},
                   'shards': {'quick': 3, 'thorough': 6}}}
BUDGET = {'quick': 14, 'thorough': 180}
REQUIRE = {'phase of sweep': 300, 'limits attained': 300, 'length asked for': 300,
           'smallest non-aliasing length': 60, 'time vector': 300, 'parallel sweeps': 90,
           'tone': 60, 'modulator': 90, 'modulated': 90, 'reversed': 60,
           'noise level': 90, 'noise reported': 90, 'noise reproducible': 90,
           'zero dB': 15, 'seed 0': 10, 'no noise by default': 60, 'several': 40,
           'defaults overridden': 60, 'jumps': 30, 'packed': 30, 'polynomials': 30,
           "caller's dicts unchanged": 100, 'test_transforms': 15}
RULE = ('random (signal, length, limits of time and frequency, endpoint, modulator, noise, '
        'seed, default overrides); counted once compared')
ASSUMPTIONS = ['sweeps have distinct positive limits (zero for linear ones)']
SWEEPS = ['lchirp', 'echirp', 'hchirp', 'echirp_pc']


def phase(kind, t, a, b, f0, f1):
    """`2 pi` times integral from `a` to `t` of the instantaneous frequency."""
    T, u = b - a, t - a
    if kind == 'lchirp':
        p = f0 * u + (f1 - f0) * u * u / 2 / T
    elif kind == 'echirp':
        r = f1 / f0
        p = f0 * T / np.log(r) * (r**(u / T) - 1)
    elif kind == 'hchirp':
        # 1 / sqrt(f) varies linearly
        g0, g1 = f0**-.5, f1**-.5
        p = u / (g0 * (g0 + (g1 - g0) * u / T))
    else:
        A = (f1 - f0) / (np.exp(T) - 1)
        p = A * (np.exp(u) - 1 - u) + f0 * u
    return 2 * np.pi * p


def limits(rng, kind):
    lo = 0 if kind in ('lchirp', 'echirp_pc') and rng.random() < .3 else \
        float(rng.uniform(.5, 10))
    hi = float(lo + rng.uniform(3, 120))
    if rng.random() < .3 and lo > 0:
        lo, hi = hi, lo
    u = rng.random()
    if u < .4:
        a, T = 0, 1
    elif u < .6:
        a, T = 0, float(rng.uniform(.3, 4))
    else:
        a, T = float(rng.uniform(-4, 4)), float(rng.uniform(.3, 4))
        if rng.random() < .25:
            a = -T                # ends at zero
    if rng.random() < .3:
        lo, hi = (int(lo) or (0 if lo == 0 else 1)), int(hi) or 1
        if lo == hi:
            hi += 5
    return a, a + T, lo, hi


def am(name, t, p):
    """Amplitude modulators."""
    lo, hi = p.get('amin', 0), p.get('amax', 1)
    if name in ('am-sine', 'am-cosine'):
        w = 2 * np.pi * p.get('f', 1) * t + p.get('phi', 0)
        return lo + (hi - lo) * ((np.sin if name == 'am-sine' else np.cos)(w) + 1) / 2
    if name == 'am-exp':
        lo = p.get('amin', .1)
        return lo * (hi / lo)**((t - t[0]) / (p['tmax'] - p['tmin']))
    lo = p.get('amin', .1)
    N = len(t)
    s = np.arange(N) * 2 / N
    return lo + (hi - lo) * np.exp(-5 * (s - s.mean())**2)


def run(ctx):
    from rt.lib import ssq  # noqa: F401
    from ssqueezepy import TestSignals
    from ssqueezepy import _test_signals as M

    for i, rng in ctx.cases('sweeps', 180, 4000, share=.4, min_cases=100):
        kind = gen.choice(rng, SWEEPS[:3] + SWEEPS)
        a, b, f0, f1 = limits(rng, kind)
        N = gen.length(rng, 8, 900)
        end = gen.choice(rng, [None, None, True, False])
        how = gen.choice(rng, ['N', 'N', 'instance', 'auto', 'fmax default'])
        if kind != 'lchirp' and how == 'fmax default' and f0 == 0:
            f0 = 1.
        with ctx.run(kind=kind, tmin=a, tmax=b, fmin=f0, fmax=f1, N=N, endpoint=end,
                     how=how):
            dt = None
            ts = TestSignals(N=N if how == 'instance' else None, warn_alias=False,
                             default_tkw=dt)
            kw = dict(fmin=f0, fmax=f1)
            if not (a == 0 and b == 1 and rng.random() < .5):
                kw.update(tmin=a, tmax=b)
            if end is not None:
                kw['endpoint'] = end
            n = N
            if how == 'fmax default':
                kw.pop('fmax')
                f1 = N // 2
                if f1 == f0:
                    kw['fmin'] = f0 = f0 + 1.5
                x, t = getattr(ts, kind)(N, **kw)
            elif how == 'N':
                x, t = getattr(ts, kind)(N, **kw)
            elif how == 'auto' or rng.random() < .4:
                x, t = getattr(ts, kind)(**kw)
                ex = 1 + 2 * max(f0, f1) * (b - a)
                n = len(x)
                # rounding may make an exact integer exceed itself
                ctx.check(n in (int(np.ceil(ex)), int(np.ceil(ex * (1 + 1e-12))),
                                int(np.ceil(ex * (1 - 1e-12)))),
                          'smallest non-aliasing length', f'{n}, expected {ex}')
            else:
                x, t = ts.make_signals((kind, kw), N=N, get_params=True)[kind][:2]
            ctx.check(x.shape == t.shape == (n,), 'length asked for', f'{x.shape} {n}')
            et = np.linspace(a, b, n, endpoint=end is not False)
            ctx.close(t, et, 1e-12, 'time vector', scale=abs(a) + abs(b))
            p = phase(kind, et, a, b, f0, f1)
            tol = 1e-9 * (1 + np.abs(p).max() / 100)
            ctx.close(x, np.cos(p), tol, 'phase of sweep', kind, scale=1)
            # angular frequencies at the ends
            fn = getattr(ts, f'_{kind}_fn', None)
            if fn is not None:
                w = fn(np.array([a, b], dtype=float), a, b, f0, f1, get_w=True)[1]
                ctx.close(w / (2*np.pi), np.array([f0, f1], dtype=float), 1e-9,
                          'limits attained', kind, scale=max(f0, f1))
            else:
                ctx.event('limits attained')

    for i, rng in ctx.cases('parallel', 50, 1000, share=.5, min_cases=30):
        kind = gen.choice(rng, SWEEPS[:3])
        N = int(rng.integers(64, 700))
        g = {k: v for k, v in dict(
            fmin1=float(rng.uniform(1, 5)), fmin2=float(rng.uniform(6, 12)),
            fmax1=float(rng.uniform(14, 20)), fmax2=float(rng.uniform(21, 30))).items()
            if rng.random() < .5}
        a, b = (0, 1) if rng.random() < .6 else (-1., .5)
        tk = {} if (a, b) == (0, 1) else dict(tmin=a, tmax=b)
        with ctx.run(kind=kind, N=N, tk=str(tk), **g):
            ts = TestSignals(N=N, warn_alias=False)
            name = 'par_' + kind
            if rng.random() < .5:
                x, t = getattr(ts, name)(N if rng.random() < .5 else None, **g, **tk)
            else:
                x, t = ts.make_signals((name.replace('_', '-'), dict(g, **tk)), N=N,
                                       get_params=True)[name.replace('_', '-')][:2]
            c = {'lchirp': N/10, 'echirp': 1.5, 'hchirp': 3}[kind]
            up, dn = ((lambda f: f + c), (lambda f: f - c)) if kind == 'lchirp' else (
                (lambda f: f * c), (lambda f: f / c))
            p = dict(g)
            p.setdefault('fmin1', 0 if kind == 'lchirp' else 1)
            p.setdefault('fmin2', up(p['fmin1']))
            if 'fmax1' in p:
                p.setdefault('fmax2', min(N/2, up(p['fmax1'])))
            else:
                p.setdefault('fmax2', N/2)
                p['fmax1'] = dn(p['fmax2'])
            if p['fmax1'] <= 0 or abs(p['fmax1'] - p['fmin1']) < .1 or (
                    abs(p['fmax2'] - p['fmin2']) < .1):
                continue
            et = np.linspace(a, b, N)
            ref = sum(np.cos(phase(kind, et, a, b, p['fmin' + k], p['fmax' + k]))
                      for k in '12')
            ctx.close(x, ref, 1e-8, 'parallel sweeps', f'{kind} {p}', scale=1)
            ctx.close(t, et, 1e-12, 'time vector', scale=1)

    for i, rng in ctx.cases('tones, modulators', 60, 1200, share=.62, min_cases=40):
        N = gen.length(rng, 8, 700)
        f, phi = float(rng.uniform(0, 60)), gen.choice(rng, [0, .7, -2.])
        a, b = (0, 1) if rng.random() < .5 else (float(rng.uniform(-2, 1)), 2.5)
        tk = {} if (a, b) == (0, 1) else dict(tmin=a, tmax=b)
        end = gen.choice(rng, [None, True, False])
        if end is not None:
            tk['endpoint'] = end
        with ctx.run(N=N, f=f, phi=phi, tk=str(tk)):
            ts = TestSignals(N=N, warn_alias=False)
            et = np.linspace(a, b, N, endpoint=bool(end))
            for nm, fn in [('sine', np.sin), ('cosine', np.cos)]:
                x, t = getattr(ts, nm)(N if rng.random() < .5 else None, f=f,
                                       phi0=phi, **tk)
                ctx.close(x, fn(2*np.pi*f*et + phi), 1e-9, 'tone', nm, scale=1)
                ctx.close(t, et, 1e-12, 'time vector', scale=3)
            lo = float(rng.uniform(.05, .5))
            hi = float(lo + rng.uniform(.2, 2))
            for nm in ('am-sine', 'am-cosine', 'am-exp', 'am-gauss'):
                kw = dict(amin=lo, amax=hi)
                if nm in ('am-sine', 'am-cosine'):
                    kw.update(f=f, phi=phi)
                A, t = getattr(ts, nm.replace('-', '_'))(N, **kw, **tk)
                e = et if nm not in ('am-exp',) else np.linspace(
                    a, b, N, endpoint=end is not False)
                ctx.close(A, am(nm, e, dict(kw, tmin=a, tmax=b)), 1e-9, 'modulator', nm,
                          scale=hi)

    names = ['cosine', 'sine', 'lchirp', 'echirp', 'hchirp', 'echirp_pc', 'par-lchirp',
             'par-echirp', 'par-hchirp', 'jumps', 'packed', 'packed-poly', 'poly-cubic']
    for i, rng in ctx.cases('combinations', 90, 2000, share=.9, min_cases=50):
        N = 4 * gen.length(rng, 16, 200)
        seed = gen.choice(rng, [0, 1, 7, 1234])
        snr = gen.choice(rng, [0, 0., -5, 3.5, 20, 40])
        da = None
        over = {}
        if rng.random() < .4:
            over = {'lchirp': dict(fmin=2., fmax=N/3), 'cosine': dict(f=5),
                    'am-exp': dict(amin=.3), 'echirp': dict(fmin=3)}
            over = {k: v for k, v in over.items() if rng.random() < .7}
            da = over
        base = gen.choice(rng, names)
        mod = gen.choice(rng, [None, None, 'am-sine', 'am-cosine', 'am-exp', 'am-gauss'])
        fp = {}
        if base in ('lchirp', 'echirp', 'hchirp'):
            fp = dict(fmin=float(rng.uniform(1, 4)), fmax=float(rng.uniform(N/8, N/2)))
        elif base in ('sine', 'cosine'):
            fp = dict(f=float(rng.uniform(1, N/3))) if rng.random() < .7 else {}
        ap = {}
        if mod and rng.random() < .6:
            ap = dict(amin=float(rng.uniform(.1, .4)))
            if mod in ('am-sine', 'am-cosine'):
                ap['f'] = float(rng.uniform(1, 8))
        refl = bool(rng.random() < .4)
        tkw = {}
        if base in ('lchirp', 'echirp', 'hchirp') and rng.random() < .4:
            tkw = dict(tmin=gen.choice(rng, [0, -1.]), tmax=gen.choice(rng, [.5, 2.]))
            (ap if mod in ('am-sine', 'am-cosine', 'am-exp') and rng.random() < .3
             else fp).update(tkw)
        with ctx.run(N=N, seed=seed, snr=snr, base=base, mod=mod, fp=str(fp),
                     ap=str(ap), refl=refl, over=str(over)):
            da0 = {k: dict(v) for k, v in over.items()}
            g0 = repr(M.DEFAULT_ARGS) + repr(M.DEFAULT_TKW)
            mk = lambda **k: TestSignals(N=N, warn_alias=False, default_args=da, **k)
            ts = mk()
            full = base + (':' + mod if mod else '')
            # with all limits given and not the length, the latter is found
            Ng = N if rng.random() < .7 else None
            fp0, ap0 = dict(fp), dict(ap)
            spec = (full, (fp, ap)) if mod else (
                (full, fp) if fp or rng.random() < .5 else full)
            out = ts.make_signals(spec, Ng, get_params=True)
            ctx.check(len(out) == 1, 'modulated', str(list(out)))
            x, t, _ = list(out.values())[0]
            # carrier
            pair = M.DEFAULT_ARGS.get(full) if mod else None
            ck = {**(pair[0] if pair else over.get(base) or M.DEFAULT_ARGS.get(base, {})),
                  **fp}
            car, ct = getattr(ts, base.replace('-', '_'))(Ng, **ck)
            if over.get(base):
                ctx.event('defaults overridden')
            else:
                ctx.event('defaults overridden', bool(fp) and base in M.DEFAULT_ARGS)
            ref = car.copy()
            if mod:
                n = len(car)
                md = dict(M.DEFAULT_ARGS['am-' + mod[3:]])
                if full in M.DEFAULT_ARGS:
                    md = dict(M.DEFAULT_ARGS[full][1])
                elif over.get(mod):
                    md = dict(over[mod])
                mp = {**{'tmin': 0, 'tmax': 1}, **{k: v for k, v in ck.items()
                      if k in ('tmin', 'tmax')}, **md, **ap}
                end = mod == 'am-exp'
                ref = ref * am(mod, np.linspace(mp['tmin'], mp['tmax'], n, endpoint=end),
                               mp)
                ctx.close(x, ref, 1e-9, 'modulated', full, scale=np.abs(ref).max())
            else:
                ctx.close(x, ref, 1e-12, 'no noise by default', full, scale=1)
            rs = ts.make_signals(('#' + full,) + tuple(spec[1:]) if isinstance(
                spec, tuple) else '#' + full, Ng)
            ctx.close(rs, ref + ref[::-1], 1e-9, 'reversed', full,
                      scale=np.abs(ref).max())
            if refl:
                spec = (('#' + full,) + tuple(spec[1:]) if isinstance(spec, tuple)
                        else '#' + full)
                clean = rs
            else:
                clean = x
            # noise
            own = bool(rng.random() < .4) and isinstance(spec, tuple)
            if own:      # `snr` of one signal
                sp = ((spec[0], (dict(fp, snr=snr), ap)) if mod else
                      (spec[0], dict(fp, snr=snr)))
                tn = mk(seed=seed, snr=gen.choice(rng, [None, 11.]))
            else:
                sp, tn = spec, mk(seed=seed, snr=snr)
            st = np.random.get_state()
            o1 = list(tn.make_signals(sp, Ng, get_params=True).values())[0]
            np.random.rand(3)
            o2 = list(mk(seed=seed, snr=tn.snr).make_signals(
                sp, Ng, get_params=True).values())[0]
            np.random.set_state(st)
            noise = o1[0] - clean
            ctx.equal(o1[0], o2[0], 'noise reproducible', f'seed {seed}')
            ctx.event('seed 0', seed == 0)
            ctx.event('zero dB', snr == 0)
            act = 10 * np.log10(clean.var() / noise.var())
            ctx.check(abs(act - snr) < 6 * 4.35 * np.sqrt(2 / len(clean)), 'noise level',
                      f'{act:.3f} dB, asked for {snr}')
            rep = o1[2][0].get('snr')
            ctx.check(rep is not None and abs(rep - act) < 1e-6, 'noise reported',
                      f'{rep} actual {act}')
            ctx.check(abs(noise.mean()) < 6 * noise.std() / np.sqrt(len(noise)),
                      'noise level', f'mean {noise.mean()}')
            o3 = mk(seed=seed + 1, snr=snr).make_signals(spec, Ng)
            ctx.check(not np.array_equal(o3, o1[0]), 'noise reproducible',
                      'same with other seed')
            ctx.check(fp == fp0 and ap == ap0 and (
                da is None or da == da0) and g0 == repr(M.DEFAULT_ARGS)
                + repr(M.DEFAULT_TKW), "caller's dicts unchanged", f'{fp} {ap} {da}')
            if rng.random() < .5:
                other = gen.choice(rng, names[:6] + [base])
                xs = mk().make_signals([spec, other], Ng)
                ctx.check(isinstance(xs, list) and len(xs) == 2 and np.allclose(
                    xs[0], clean, atol=1e-9), 'several', f'{len(xs)}')
            if rng.random() < .3:
                seen = []
                mk().test_transforms(lambda x, t, p: seen.append((x, t, p)), [spec],
                                     Ng)
                ctx.check(len(seen) == 1 and np.allclose(seen[0][0], clean, atol=1e-9)
                          and seen[0][2][0] == spec[0] if isinstance(spec, tuple)
                          else len(seen) == 1, 'test_transforms', f'{len(seen)}')

    for i, rng in ctx.cases('other', 30, 600, share=1, min_cases=20):
        N = gen.length(rng, 40, 700)
        nf = int(rng.integers(1, 6))
        freqs = [float(f) for f in rng.uniform(1, 40, nf)]
        ov = float(rng.uniform(.3, 1))
        with ctx.run(N=N, freqs=str(freqs), ov=ov):
            ts = TestSignals(N=N, warn_alias=False)
            x, t = ts.jumps(N if rng.random() < .5 else None, freqs=freqs)
            m = N // nf
            ctx.check(len(x) == len(t) == m * nf, 'jumps', f'length {len(x)}')
            ctx.close(x, np.cos(2*np.pi*np.repeat(freqs, m)*t), 1e-9, 'jumps', scale=1)
            ctx.close(t, np.linspace(0, nf, m * nf), 1e-12, 'jumps', 'times', scale=nf)
            x, t = ts.packed(N, freqs=freqs, overlap=ov)
            ref, no = np.zeros(N), int(ov * N)
            et = np.linspace(0, 1, N)
            for k, f in enumerate(freqs):
                on = np.arange(N) < no if k % 2 == 0 else np.arange(N) >= N - no
                ref += on * np.cos(2*np.pi*f*et)
            ctx.close(x, ref, 1e-9, 'packed', scale=1)
            et = np.linspace(0, 10, N)
            x, t = ts.poly_cubic(N)
            c = N / 256
            ref = (np.cos(2*np.pi*c*(.025*et**4/4 - .12*et**3 + 1.25*et**2/2 + 2*et))
                   + np.cos(2*np.pi*c*(.01*et**4/4 - .25*et**3/3 + .75*et**2 + 4*et))
                   + np.sin(2*np.pi*.5*c*et))
            ctx.close(x, ref, 1e-9, 'polynomials', 'cubic', scale=1)
            ctx.close(t, et, 1e-12, 'polynomials', 'times', scale=10)
            x, t = ts.packed_poly(N)
            j = N / 512
            w = 2 * np.pi
            ref = ((1 + .3*np.cos(et)) * np.cos(w*j*(10*et - .3*np.sin(et)
                                                     - 1.8*et**1.5))
                   + (1 + .2*np.cos(2*et)) * np.exp(-et/15) * np.cos(
                       w*(2.4*j*et + .5*j*et**1.2 + .3*np.sin(et)))
                   + np.cos(w*j*(4.8*et + .2*et**1.3)))
            ctx.close(x, ref, 1e-9, 'polynomials', 'packed', scale=1)
