"""Invariants of every generated vector of scales, and what's inferred from it when it's
given back."""
import numpy as np
from rt import gen, ref

MODES = {'main': {'env': {'SSQ_PARALLEL': '0'}}}
SHARDS = {'quick': 6, 'thorough': 8}
BUDGET = {'quick': 30, 'thorough': 400}
REQUIRE = {'make_scales': 100, 'bounds': 40, 'inferred': 250, 'string = array': 15,
           'preset': 30}
RULE = ('random bounds, voices, wavelets, lengths, presets and representations; counted '
        'once all invariants of the scales were evaluated')
ASSUMPTIONS = ["the 'minimal' preset is unavailable (refused with advice) for lengths too "
               'small for the wavelet']


def grid(s, nv):
    return np.log2(np.asarray(s, 'float64').ravel()) * nv


def check_scales(ctx, s, kind, mn, mx, nv, ds):
    """`s` spans `mn` to `mx` as specified."""
    v = np.asarray(s, 'float64').ravel()
    ok = ctx.check(s.ndim == 2 and s.shape[1] == 1, 'make_scales', f'shape {s.shape}')
    ok &= ctx.check((v > 0).all() and (np.diff(v) > 0).all(), 'increasing',
                    f'{v[:4]} .. {v[-3:]}')
    if not ok:
        return
    k0, k1 = np.floor(nv * np.log2(mn) + 1e-9), nv * np.log2(mx)
    g = grid(v, nv)
    if kind == 'linear':
        d = np.diff(v)
        ctx.check(np.ptp(d) <= 1e-9 * v[-1], 'linear spacing')
        ctx.check(v[0] <= mn * (1 + 1e-9) and v[0] >= mn * 2**(-1/nv) * (1 - 1e-9),
                  'first scale', f'{v[0]} for {mn}')
        ctx.check(mx * 2**(-1/nv) <= v[-1] * (1 + 1e-9) <= mx * 2**(1/nv) * (1 + 1e-8),
                  'last scale', f'{v[-1]} for {mx}')
        return
    ctx.check(np.abs(g - np.round(g)).max() < 1e-6, 'powers of 2^(1/nv)',
              f'{g[:3]}')
    g = np.round(g)
    ctx.check(abs(g[0] - k0) <= (0 if abs(nv * np.log2(mn) - np.round(
        nv * np.log2(mn))) > 1e-6 else 1), 'first scale', f'{v[0]} for {mn} (nv={nv})')
    top = g[-1] + (0 if kind == 'log' else ds - 1)
    ctx.check(g[-1] <= k1 + 1e-6 and top >= k1 - 2 - 1e-6, 'last scale',
              f'{v[-1]} for {mx} (nv={nv})')
    st = np.diff(g)
    if kind == 'log':
        ctx.check((st == 1).all(), 'consecutive', f'{st}')
    else:
        m = int(np.argmax(st != 1)) if (st != 1).any() else len(st)
        ctx.check((st[:m] == 1).all() and (st[m:] == ds).all(), 'piecewise spacing',
                  f'{st}')
        ctx.event('piecewise with transition', m < len(st))


def run(ctx):
    from rt import lib
    from rt.lib import ssq
    from ssqueezepy import utils

    # ---- given bounds
    for i, rng in ctx.cases('make', 60, 3000, share=.25, min_cases=30):
        name, opts = gen.wavelet(rng)
        opts.pop('centered_scale', None)
        nv = int(gen.choice(rng, [1, 2, 4, 8, 12, 16, 24, 32, 48]))
        kind = gen.choice(rng, ['log', 'log', 'log-piecewise', 'linear'])
        mn = float(gen.choice(rng, [1, 2, rng.uniform(.5, 9), 2**(3/8)]))
        mx = mn * float(gen.choice(rng, [rng.uniform(3, 40), 8, 16, rng.uniform(20, 200)]))
        ds = int(gen.choice(rng, [2, 3, 4, 4, 5]))
        dflt = rng.random() < .4
        with ctx.run(name=name, opts=opts, nv=nv, kind=kind, mn=mn, mx=mx, ds=ds,
                     dflt=dflt):
            w = ssq.Wavelet((name, opts))
            s = utils.make_scales(int(mx) + 1, mn, mx, nv=nv, scaletype=kind, wavelet=w,
                                  **({} if dflt else dict(downsample=ds)))
            if len(s) < 3:
                from rt.core import HarnessSkip
                raise HarnessSkip('too few scales')
            check_scales(ctx, s, kind, mn, mx, nv, 4 if dflt else ds)

    # ---- presets
    for i, rng in ctx.cases('preset', 20, 1200, share=.5, min_cases=6):
        name, opts = gen.wavelet(rng)
        if opts.pop('centered_scale', None) or rng.random() < .15:
            name, opts = 'gmw', dict(gamma=3, beta=60)
        N = gen.length(rng, 100, 2500)
        preset = gen.choice(rng, ['maximal', 'maximal', 'minimal', 'naive', None])
        padded = bool(rng.random() < .8)
        kind = gen.choice(rng, ['log', 'log-piecewise', 'linear'])
        nv = int(gen.choice(rng, [16, 32, 32]))
        with ctx.run(N=N, name=name, opts=opts, preset=preset, padded=padded, kind=kind,
                     nv=nv):
            w = ssq.Wavelet((name, opts))
            mn, mx = utils.cwt_scalebounds(w, N, preset=preset, use_padded_N=padded)
            ctx.event('preset')
            if preset == 'naive':
                ctx.check((mn, mx) == (1, N), 'naive bounds', f'{mn}, {mx}')
            else:
                M = utils.p2up(N)[0] if padded else N
                u = np.linspace(0, 60, 240001)
                P = np.abs(ref.psih(name, u, **opts))
                wp, pk = u[P.argmax()], P.max()
                at = lambda v: np.abs(ref.psih(name, v, **opts)) / pk
                # at the least scale, Nyquist is left of the peak, at half of it
                ctx.check(np.pi * mn < wp, 'bounds', 'least scale excludes the peak')
                ctx.check(abs(at(np.pi * mn) - .5) < .02, 'bounds',
                          f'amplitude {at(np.pi * mn):.3f} of peak at Nyquist, least '
                          'scale')
                # at the greatest one, peak at the bin specified
                b = mx * 2 * np.pi / M
                if preset == 'maximal':
                    ctx.check(abs(2 * b / wp - 1) < 24 / M + .01, 'bounds',
                              f'peak at {wp / b:.3f} bins at greatest scale')
                elif M >= 500:
                    # (amplitude beside is not specified exactly: 1/M search step)
                    n = wp / b - .5
                    ctx.check(abs(n - np.round(n)) < .38 and .4 < at(b * np.round(n)) <
                              .92, 'bounds', f'peak at {wp / b:.3f} bins, amplitude '
                              f'{at(b * np.round(n)):.3f} beside')
            arg = kind if preset is None else f'{kind}:{preset}'
            pp = (preset or ('maximal' if kind == 'log-piecewise' else None))
            if padded and mx > 2 * mn:
                mn2, mx2 = utils.cwt_scalebounds(w, N, preset=pp)
                s, st, na, nvo = utils.process_scales(arg, N, w, nv=nv, get_params=True)
                ctx.check(st == kind and na == len(s), 'params', f'{st}, {na}')
                check_scales(ctx, s, kind, mn2, mx2, nv, 4)
                if ctx.thorough or rng.random() < .5:
                    ctx.equal(utils.process_scales(arg, N, w, nv=nv), s, 'params')

    # ---- inference
    for i, rng in ctx.cases('infer', 120, 6000, share=.7, min_cases=60):
        kind = gen.choice(rng, ['log', 'linear', 'log-piecewise', 'log-piecewise'])
        na = int(rng.integers(12, 260))
        nv, ds, m = int(gen.choice(rng, [4, 8, 12, 16, 32, 64])), None, None
        s0 = 2**rng.uniform(0, 3)
        dtype = gen.choice(rng, ['float64', 'float32', '32 in 64'])
        if kind == 'log':
            na = min(na, 12 * nv)
            s = s0 * 2**(np.arange(na) / nv)
        elif kind == 'linear':
            step = 10**rng.uniform(-1, 1.5)
            s = step * int(rng.integers(1, 12)) + step * np.arange(na)
        else:
            na = max(min(na, 10 * nv), 12)
            m = int(rng.integers(4, na - 4))
            ds = int(gen.choice(rng, [2, 3, 4]))
            while m + (na - m) * ds > 14 * nv and na - m > 5:
                na -= 1
            st = np.where(np.arange(na - 1) < m, 1, ds) / nv
            s = s0 * 2**np.hstack([0, np.cumsum(st)])
        a = s.astype('float32') if dtype != 'float64' else s
        if dtype == '32 in 64':
            a = a.astype('float64')
        shape = gen.choice(rng, ['1d', '2d'])
        a = a.reshape(-1, 1) if shape == '2d' else a
        with ctx.run(kind=kind, na=na, nv=nv, ds=ds, m=m, s0=s0, dtype=dtype,
                     shape=shape):
            a0 = a.copy()
            st, n = utils.infer_scaletype(a)
            ctx.check(st == kind, 'inferred', f'{st} for {kind}')
            idx = utils.logscale_transition_idx(a)
            if kind == 'log-piecewise':
                ctx.check(idx == m + 1, 'transition', f'{idx} for {m + 1}')
                n = np.asarray(n).ravel()
                want = np.hstack([np.full(m + 1, nv), np.full(na - m - 1, nv / ds)])
                ctx.check(n.shape == want.shape and np.abs(n / want - 1).max() < 1e-3,
                          'voices', f'{n[:3]}..{n[-3:]} for {nv}, {nv / ds}')
            elif kind == 'log':
                ctx.check(n == nv and idx is None, 'voices', f'{n} for {nv}; {idx}')
            else:
                ctx.check(n is None, 'voices', f'{n}')
            v, st2, na2, nv2 = utils.process_scales(a, 500, get_params=True)
            ctx.check(st2 == kind and na2 == na and v.shape == (na, 1) and
                      np.array_equal(v.ravel(), a.ravel()), 'inferred',
                      f'{st2}, {na2}, {v.shape}')
            ctx.equal(a, a0, 'input unchanged')

    # ---- transforms
    for i, rng in ctx.cases('string = array', 8, 400, min_cases=3):
        name, opts = gen.wavelet(rng, names=['gmw', 'gmw', 'morlet', 'bump'])
        opts.pop('centered_scale', None)
        dtype = gen.choice(rng, ['float32', 'float64'])
        N = int(rng.integers(160, 500))
        kind = gen.choice(rng, ['log', 'log-piecewise', 'log:maximal',
                                'log-piecewise:maximal'])
        shape, sd = gen.choice(rng, ['1d', '2d']), gen.choice(rng, ['float32', 'float64'])
        x, _ = gen.signal(rng, N)
        nv = int(gen.choice(rng, [8, 16, 32])) if kind == 'log' else 32
        with ctx.run(N=N, name=name, opts=opts, dtype=dtype, kind=kind, shape=shape,
                     sd=sd, nv=nv):
            w = lambda: (name, dict(opts, dtype=dtype))
            W, s = ssq.cwt(x, w(), scales=kind, nv=nv)
            a = np.asarray(s).astype(sd)
            a = a.reshape(-1, 1) if shape == '2d' else a
            W2, s2 = ssq.cwt(x, w(), scales=a)
            # float32 rounds scales
            tol = 3e-4 if 'float32' in (sd, dtype) else 1e-9
            ctx.close(W2, W, tol * (30 if sd == 'float32' else 1), 'string = array')
            ctx.close(s2, s, 1e-6, 'scales')
            xi = ssq.icwt(W, w(), scales=kind, nv=nv)
            ctx.close(ssq.icwt(W, w(), scales=s), xi, 2e-3, 'icwt string = array')
            ctx.close(ssq.icwt(W, w(), scales=a), xi, 2e-3, 'icwt string = array')
            o = ssq.ssq_cwt(x, w(), scales=kind, nv=nv)
            o2 = ssq.ssq_cwt(x, w(), scales=a)
            ctx.close(o2[2], o[2], 1e-3, 'frequencies string = array')
            if 'float32' not in (sd, dtype):
                lib.tx_close(ctx, o2[0], o[0], dtype, 'ssq_cwt string = array')
            else:
                # bins shift by rounding: column sums only
                c, c2 = o[0].sum(0), o2[0].sum(0)
                ctx.close(c2, c, 1e-2, 'ssq_cwt string = array')
