"""What plotting functions put on a figure (artists recorded by the Agg backend) against the
arrays given: curves, points, images, colour limits, labels of ticks, which axes; returned
sweeps against single measurements; arguments left alone."""
import copy
import numpy as np
from rt import gen

MODES = {'nojit': {'env': {'SSQ_PARALLEL': '0', 'NUMBA_DISABLE_JIT': '1',
                           'MPLBACKEND': 'Agg'},
                   'shards': {'quick': 4, 'thorough': 6}}}
BUDGET = {'quick': 25, 'thorough': 300}
REQUIRE = {'plot': 150, 'plot: axes': 60, 'scatter': 80, 'image': 120, 'image: limits': 120,
           'image: tick labels': 40, 'image: ridge': 20, 'grid of plots': 25,
           'histogram': 30, 'labels': 100, 'limits': 60, 'lines': 40, 'title': 80,
           'shown only if asked': 250, 'arguments left alone': 250, 'sweep': 24,
           'wavelet plots': 24, 'filterbank': 16, 'higher order': 12, 'band': 12}
RULE = ('random arrays, shapes, dtypes and options of plotting functions, wavelets and '
        'scales of visuals; counted once every artist was compared with the data')
ASSUMPTIONS = ['observed at the level of matplotlib artists, not of pixels']


class Shown():
    """Counts calls to `plt.show`."""
    def __init__(self):
        import matplotlib.pyplot as plt
        self.plt, self.orig, self.n, self.figs = plt, plt.show, 0, []

    def __enter__(self):
        self.plt.close('all')

        def show(*a, **k):
            self.n += 1
            self.figs.append(self.plt.gcf())
            self.plt.figure()  # as after closing of a shown window
        self.plt.show = show
        return self

    def __exit__(self, *a):
        self.plt.show = self.orig
        self.plt.close('all')


def snap(v):
    return copy.deepcopy(v)


def same(a, b):
    if isinstance(a, np.ndarray):
        return (isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape
                and np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc'))
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(
            same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(map(same, a, b))
    return a == b or a is b


def curves(ctx, ax, want, key, skip=0):
    """Curves on `ax` are exactly `want`: list of (x, y)."""
    got = [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float))
           for l in ax.lines][skip:]
    ok = len(got) == len(want) and all(
        g[0].shape == np.shape(w[0]) and g[1].shape == np.shape(w[1]) and
        np.array_equal(g[0], np.asarray(w[0], float)) and
        np.allclose(g[1], np.asarray(w[1], float), rtol=1e-12, atol=0)
        for g, w in zip(got, want))
    return ctx.check(ok, key, f'{len(got)} curves for {len(want)}: '
                     f'{[(g[0][:3], g[1][:3]) for g in got][:2]}, expected '
                     f'{[(np.asarray(w[0])[:3], np.asarray(w[1])[:3]) for w in want][:2]}')


def points(ctx, ax, want, key):
    got = [np.asarray(c.get_offsets(), float) for c in ax.collections]
    want = [np.stack([np.asarray(x, float), np.asarray(y, float)], 1) for x, y in want]
    ok = len(got) == len(want) and all(g.shape == w.shape and np.array_equal(g, w)
                                       for g, w in zip(got, want))
    return ctx.check(ok, key, f'{[g[:2].tolist() for g in got]} for '
                     f'{[w[:2].tolist() for w in want]}')


def title_of(ax):
    return [t for t in (ax.get_title(loc=k) for k in ('left', 'center', 'right')) if t]


def array(rng, n, kind=None):
    kind = kind or gen.choice(rng, ['f8', 'f8', 'f4', 'c16', 'i8'])
    x = rng.standard_normal(n) * 10**rng.uniform(-3, 3)
    if kind == 'c16':
        return x + 1j*rng.standard_normal(n)
    return (10*x).astype('i8') if kind == 'i8' else x.astype(kind)


def style(ctx, rng, shape=None):
    """Random options shared by `plot` and `scat`."""
    kw = {}
    for k, f in (('xlabel', lambda: 'time'), ('ylabel', lambda: 'value'),
                 ('title', lambda: gen.choice(rng, ['a title', ('two', dict(loc='right'))])),
                 ('xlims', lambda: (-1.5, float(rng.integers(2, 40)))),
                 ('ylims', lambda: (-3., float(rng.integers(1, 9)))),
                 ('vlines', lambda: gen.choice(rng, [3., [1., 4.],
                                                     ([2., 5.], dict(color='r')),
                                                     (2.5, dict(color='k'))])),
                 ('hlines', lambda: gen.choice(rng, [.5, [0.25, 1.],
                                                     ([.7], dict(linestyle='--'))])),
                 ('w', lambda: .5), ('h', lambda: 1.5)):
        if rng.random() < .3:
            kw[k] = f()
    return kw


def lines_of(v):
    if isinstance(v, tuple):
        v = v[0]
    return list(v) if isinstance(v, (list, np.ndarray)) else [v]


def check_style(ctx, ax, kw, n_data, other=None):
    for k in ('xlabel', 'ylabel'):
        got = getattr(ax, 'get_' + k)()
        ctx.check(got == kw.get(k, ''), 'labels', f'{k}: {got!r} for {kw.get(k)!r}')
        if other is not None:
            ctx.check(getattr(other, 'get_' + k)() == '', 'labels',
                      f'{k}: on axes other than the given')
    t = kw.get('title')
    want = [] if t is None else [t[0] if isinstance(t, tuple) else t]
    ctx.check(title_of(ax) == want, 'title', f'{title_of(ax)} for {want}')
    if isinstance(t, tuple):
        ctx.check(ax.get_title(loc=t[1]['loc']) == t[0], 'title', 'placement')
    for k in ('xlims', 'ylims'):
        if k in kw:
            got = getattr(ax, f'get_{k[:-1]}')()
            ctx.check(np.allclose(got, kw[k]), 'limits', f'{k}: {got} for {kw[k]}')
    extra = ax.lines[n_data:]
    want = [(np.array([v, v]), 'x') for v in lines_of(kw.get('vlines', []))] + \
        [(np.array([v, v]), 'y') for v in lines_of(kw.get('hlines', []))]
    if 'vlines' in kw or 'hlines' in kw:
        ctx.check(len(extra) == len(want) and all(
            np.array_equal(np.asarray(l.get_xdata() if c == 'x' else l.get_ydata(), float), v)
            for l, (v, c) in zip(extra, want)), 'lines',
            f'{[(l.get_xdata(), l.get_ydata()) for l in extra]} for {want}')
    if 'w' in kw or 'h' in kw:
        got = ax.figure.get_size_inches()
        ctx.check(np.allclose(got, (14*kw.get('w', 1), 8*kw.get('h', 1))), 'figure size',
                  f'{got}')


def plotting(ctx):
    import matplotlib.pyplot as plt
    from ssqueezepy.visuals import plot, scat, plotscat
    for i, rng in ctx.cases('plotting', 130, share=.35, min_cases=60):
        n = int(rng.integers(2, 40))
        which = gen.choice(rng, ['plot', 'plot', 'scat', 'plotscat'])
        y = array(rng, n)
        cx = y.dtype.kind == 'c'
        x = gen.choice(rng, [None, np.sort(rng.standard_normal(n)), np.arange(n) * 2.])
        kw = style(ctx, rng)
        mode = 'complex' if cx and rng.random() < .6 else ('abs' if cx or rng.random() < .25
                                                           else None)
        if mode:
            kw[mode] = (int(gen.choice(rng, [1, 2])) if mode == 'complex' and which == 'plot'
                        else True)
        if which == 'plot' and rng.random() < .2:
            kw['auto_xlims'] = gen.choice(rng, [None, False])
        if rng.random() < .15 and which == 'plot' and not cx and mode is None:
            kw['vert'] = True
        if rng.random() < .2 and which != 'plotscat':
            kw['ax_equal'] = True
            kw.pop('w', 0); kw.pop('h', 0); kw.pop('ylims', 0)
            if 'xlims' in kw and rng.random() < .5:
                kw.pop('xlims')
        show = bool(rng.random() < .3)
        with ctx.run(fn=which, n=n, y=y, x=x, kw=kw, show=show), Shown() as sh:
            fn = dict(plot=plot, scat=scat, plotscat=plotscat)[which]
            other = None
            if rng.random() < .4:
                fig, (ax, other) = plt.subplots(1, 2)
                plt.sca(other)
                kw['ax'] = ax
                if rng.random() < .5:
                    kw['fig'] = fig
            else:
                ax = plt.gca()
            keep = snap({k: v for k, v in kw.items() if k not in ('ax', 'fig')})
            y0, x0 = y.copy(), None if x is None else x.copy()
            if x is None:
                args, kk = gen.choice(rng, [((y,), {}), ((None, y), {}), ((None,), {'y': y})])
            else:
                args, kk = (x, y), {}
            sq = which == 'plot' and x is None and rng.random() < .2
            if sq:
                args = tuple(a if a is None else a[None] for a in args)
                kk = {k: v[:, None] for k, v in kk.items()}
            fn(*args, **kk, **kw, show=show)
            xx = np.arange(n) if x is None else x
            ys = ([y.real, y.imag] + [np.abs(y)] * (kw[mode] == 2 and kw[mode] is not True)
                  if mode == 'complex' else [np.abs(y)] if mode == 'abs' else [y])
            data = [(xx, v) for v in ys]
            if kw.get('vert'):
                data = [(b, a) for a, b in data]
            nd = 0
            if which in ('plot', 'plotscat'):
                nd = len(data)
                lines = ax.lines[:nd]
                got = [(l.get_xdata(), l.get_ydata()) for l in lines]
                ctx.check(len(lines) == nd and all(
                    np.array_equal(np.asarray(g[0], float), np.asarray(d[0], float)) and
                    np.allclose(np.asarray(g[1], float), np.asarray(d[1], float),
                                rtol=1e-12, atol=0)
                    for g, d in zip(got, data)), 'plot',
                    f'drawn {[(g[0][:3], g[1][:3]) for g in got]}')
                n_extra = len(lines_of(kw['vlines'])) * ('vlines' in kw) if 'vlines' in kw \
                    else 0
                n_extra += len(lines_of(kw['hlines'])) if 'hlines' in kw else 0
                ctx.check(len(ax.lines) == nd + n_extra * (1 + (which == 'plotscat')),
                          'plot', f'{len(ax.lines)} curves')
            else:
                ctx.check(len(ax.lines) == sum(len(lines_of(kw[k])) for k in
                                               ('vlines', 'hlines') if k in kw), 'lines')
            if which in ('scat', 'plotscat'):
                points(ctx, ax, data, 'scatter')
            if other is not None:
                ctx.check(not other.lines and not other.collections, 'plot: axes',
                          'drawn on axes other than the given')
            if which != 'plotscat' and 'ax_equal' not in kw:
                check_style(ctx, ax, kw, nd, other)
            if kw.get('ax_equal') and 'xlims' not in kw and mode != 'abs':
                a, b = ax.get_xlim(), ax.get_ylim()
                ctx.check(np.allclose(a, b) and np.isclose(a[0], -a[1]), 'limits',
                          f'{a} {b} not equal')
            if mode == 'abs' and which == 'plot' and 'ylims' not in kw and \
                    'ax_equal' not in kw:
                ctx.check(ax.get_ylim()[0] == 0, 'limits', 'abs starts at zero')
            ctx.check((sh.n > 0) == show, 'shown only if asked', f'{sh.n} for {show}')
            ctx.check(same(keep, {k: v for k, v in kw.items() if k not in ('ax', 'fig')})
                      and same(y, y0) and (x is None or same(x, x0)),
                      'arguments left alone', f'{keep} -> {kw}')


def number(s):
    return float(s.replace('\u2212', '-'))


def images(ctx):
    import matplotlib.pyplot as plt
    from ssqueezepy.visuals import imshow
    for i, rng in ctx.cases('images', 100, share=.6, min_cases=50):
        m, n = int(rng.integers(2, 30)), int(rng.integers(2, 30))
        A = array(rng, (m, n), gen.choice(rng, ['f8', 'f4', 'c16', 'c16']))
        mode = gen.choice(rng, [None, 'abs', 'abs', 'complex'])
        if mode == 'complex' and A.dtype.kind != 'c':
            mode = 'abs'
        kw = {mode: 1} if mode else {}
        for k, f in (('norm', lambda: (float(-rng.integers(1, 5)), 4.5)),
                     ('norm_scaling', lambda: .5), ('cmap', lambda: 'jet'),
                     ('ridge', lambda: 1), ('xlabel', lambda: 'samples'),
                     ('ylabel', lambda: 'scales'), ('title', lambda: gen.choice(
                         rng, ['img', ('t', dict(fontsize=9))])),
                     ('ticks', lambda: 0), ('borders', lambda: 0), ('w', lambda: .5),
                     ('interpolation', lambda: 'none')):
            if rng.random() < .3 and not (mode == 'complex' and k in (
                    'ridge', 'xlabel', 'ylabel', 'title', 'ticks', 'borders')):
                kw[k] = f()
        if mode != 'complex':
            for k, c in (('yticks', m), ('xticks', n)):
                if rng.random() < .45:
                    kw[k] = gen.choice(rng, [
                        2**(np.arange(c)/8.), np.linspace(0, 5, c), np.arange(c) * 3,
                        list(np.arange(c) + .5), [f's{j}' for j in range(c)],
                        np.sort(rng.random(c))[::-1] * 100])
        show = bool(rng.random() < .3)
        with ctx.run(A=A, mode=mode, kw={k: v for k, v in kw.items()}, show=show), \
                Shown() as sh:
            other = None
            if rng.random() < .4 and mode != 'complex':
                fig, (ax, other) = plt.subplots(1, 2)
                kw['ax'] = ax
            elif mode != 'complex':
                ax = plt.gca()
            fig = plt.gcf() if mode != 'complex' else None
            keep = snap({k: v for k, v in kw.items() if k != 'ax'})
            A0 = A.copy()
            imshow(A, show=show, **kw)
            if mode == 'complex':
                fig = sh.figs[0] if show else plt.gcf()
                axes = fig.axes
            else:
                axes = [ax]
            want = ([A.real, A.imag] if mode == 'complex' else
                    [np.abs(A)] if mode == 'abs' else [A.real])
            got = [np.asarray(a.images[0].get_array()) if len(a.images) == 1 else None
                   for a in axes]
            ctx.check(len(got) == len(want) and all(
                g is not None and g.shape == w.shape and np.allclose(g, w, rtol=1e-6, atol=0)
                for g, w in zip(got, want)), 'image', f'{mode}: drawn {got[:1]}')
            mx = np.abs(A).max()
            lims = kw.get('norm') or ((0, mx) if mode == 'abs' else (-mx, mx))
            lims = np.array(lims) * kw.get('norm_scaling', 1)
            ctx.check(all(np.allclose(a.images[0].get_clim(), lims, rtol=1e-6)
                          for a in axes), 'image: limits',
                      f'{[a.images[0].get_clim() for a in axes]} for {lims}')
            for a in axes:
                ext = a.images[0].get_extent()
                ctx.check(np.allclose(ext, (-.5, n - .5, m - .5, -.5)), 'image: extent',
                          f'{ext}')
            if mode != 'complex':
                if 'cmap' in kw:
                    ctx.check(ax.images[0].get_cmap().name == kw['cmap'], 'image', 'cmap')
                if kw.get('ridge'):
                    mm = np.abs(A)
                    r, c = np.where(mm == mm.max(axis=0))
                    points(ctx, ax, [(c, r)], 'image: ridge')
                for k, c in (('yticks', 'y'), ('xticks', 'x')):
                    axis = getattr(ax, c + 'axis')
                    if k in kw:
                        locs = axis.get_ticklocs()
                        labs = [t.get_text() for t in axis.get_ticklabels()]
                        size = m if c == 'y' else n
                        ok = len(labs) == len(locs) > 0 and min(locs) == 0 and \
                            max(locs) == size - 1
                        for l, s in zip(locs, labs):
                            v = kw[k][int(l)]
                            ok &= float(l).is_integer() and (
                                s == v if isinstance(v, str) else
                                abs(number(s) - v) <= .00501)
                        ctx.check(ok, 'image: tick labels',
                                  f'{k}: {list(zip(locs, labs))} for {kw[k]}')
                    elif kw.get('ticks', 1) == 0:
                        ctx.check(len(axis.get_ticklocs()) == 0, 'image: no ticks')
                lab = (ax.get_xlabel(), ax.get_ylabel())
                ctx.check(lab == (kw.get('xlabel', ''), kw.get('ylabel', '')), 'labels',
                          f'{lab}')
                t = kw.get('title')
                ctx.check(title_of(ax) == ([] if t is None else
                                           [t[0] if isinstance(t, tuple) else t]), 'title')
                if 'borders' in kw:
                    ctx.check(not any(s.get_visible() for s in ax.spines.values()),
                              'image: borders')
                if other is not None:
                    ctx.check(not other.images and not other.collections, 'plot: axes')
            ctx.check((sh.n > 0) == show, 'shown only if asked', f'{sh.n} for {show}')
            ctx.check(same(keep, {k: v for k, v in kw.items() if k != 'ax'})
                      and same(A, A0), 'arguments left alone', f'{keep} -> {kw}')


def grids(ctx):
    import matplotlib.pyplot as plt
    from ssqueezepy.visuals import plots, hist
    for i, rng in ctx.cases('grids', 40, share=.72, min_cases=20):
        r, c = int(rng.integers(1, 4)), int(rng.integers(1, 4))
        k = r * c
        X, Y, want = [], [], []
        for j in range(k):
            n = int(rng.integers(2, 20))
            if rng.random() < .35:
                q = int(rng.integers(1, 4))
                ys = [rng.standard_normal(n) for _ in range(q)]
                xs = [gen.choice(rng, [None, np.sort(rng.random(n))]) for _ in range(q)]
                X.append(xs); Y.append(ys)
                want.append([(np.arange(n) if a is None else a, b)
                             for a, b in zip(xs, ys)])
            else:
                y = rng.standard_normal(n)
                x = gen.choice(rng, [None, np.sort(rng.random(n))])
                X.append(x); Y.append(y)
                want.append([(np.arange(n) if x is None else x, y)])
        pkw = None
        if rng.random() < .5:
            pkw = [[dict(color='r') for _ in x] if isinstance(x, list) else dict(color='g')
                   for x in X]
        elif any(isinstance(x, list) for x in X):
            pkw = [[{} for _ in x] if isinstance(x, list) else {} for x in X]
        kw = gen.choice(rng, [dict(nrows=r, ncols=c), dict(nrows=r, ncols=c),
                              dict(nrows=r), dict(ncols=c)])
        if r > 1 and c > 1 and len(kw) == 2 and rng.random() < .3:
            kw['sharex'] = gen.choice(rng, [True, 'col'])
        sc = bool(rng.random() < .3)
        tight = gen.choice(rng, [True, False, dict(left=.1)])
        show = bool(rng.random() < .5)
        with ctx.run(r=r, c=c, kw=kw, tight=tight, sc=sc, show=show, k=k), Shown() as sh:
            keep = snap((X, Y, pkw, kw, tight))
            plots(X, Y, pkw=pkw, tight=tight, _scat=sc, show=show, **kw)
            fig = sh.figs[0] if show else plt.gcf()
            ctx.check(len(fig.axes) == k, 'grid of plots', f'{len(fig.axes)} of {k}')
            for ax, w in zip(fig.axes, want):
                curves(ctx, ax, w, 'grid of plots')
                if sc:
                    points(ctx, ax, w, 'scatter')
            ctx.check(same(keep, (X, Y, pkw, kw, tight)), 'arguments left alone',
                      f'{keep[2:]} -> {(pkw, kw, tight)}')
            ctx.check((sh.n > 0) == show, 'shown only if asked', f'{sh.n} for {show}')
        x = rng.standard_normal(gen.choice(rng, [(50,), (8, 9)])) * 10**rng.uniform(-4, 4)
        bins = int(rng.integers(2, 60))
        show = bool(rng.random() < .5)
        with ctx.run(hist=x, bins=bins, show=show), Shown() as sh:
            ax = plt.gca()
            st = bool(rng.random() < .5)
            arg = x.tolist() if rng.random() < .2 else x
            out = hist(arg, bins=bins, title='h', show=show, stats=st, xlabel='v')
            cnt, edges = np.histogram(x, bins)
            h = np.array([p.get_height() for p in ax.patches])
            e = np.array([p.get_x() for p in ax.patches])
            ctx.check(np.array_equal(h, cnt) and np.allclose(e, edges[:-1]), 'histogram')
            if st:
                ctx.close(np.array(out), np.array([x.mean(), x.std(), x.min(), x.max()]),
                          1e-12, 'histogram', 'stats')
            ctx.check((sh.n > 0) == show, 'shown only if asked', f'{sh.n} for {show}')


def wavelets(ctx):
    import matplotlib.pyplot as plt
    from ssqueezepy import Wavelet, visuals as V, wavelets as W
    for i, rng in ctx.cases('wavelets', 16, min_cases=8):
        N = int(gen.choice(rng, [128, 200, 256]))
        spec = gen.choice(rng, ['gmw', ('gmw', dict(beta=20)), 'morlet',
                                ('morlet', dict(mu=6)), 'bump'])
        sc = 2**(np.arange(12, 12 + int(rng.integers(5, 14))) / 4.)
        scj = float(sc[len(sc) // 2])
        with ctx.run(N=N, wavelet=spec, sc=sc), Shown() as sh:
            wav = Wavelet(spec, N=N)
            keep = sc.copy()
            nd = bool(rng.random() < .5)
            fi = bool(rng.random() < .5)
            st = V.sweep_std_t(wav, N, sc, get=True, nondim=nd, force_int=fi)
            e = [W.time_resolution(wav, scale=s, N=N, min_decay=1, max_mult=2, min_mult=2,
                                   nondim=nd, force_int=fi) for s in sc]
            ctx.close(st, np.array(e), 1e-9, 'sweep', 'std_t')
            sw = V.sweep_std_w(wav, N, sc, get=True, nondim=nd, force_int=fi)
            e = [W.freq_resolution(wav, scale=s, N=N, nondim=nd, force_int=fi) for s in sc]
            ctx.close(sw, np.array(e), 1e-9, 'sweep', 'std_w')
            drawn = [f.axes[0].lines[0].get_ydata() for f in sh.figs]
            ctx.check(len(drawn) == 2 and np.array_equal(drawn[0], st) and
                      np.array_equal(drawn[1], sw), 'sweep', 'drawn')
            sh.figs.clear()
            ha, w2, t2 = V.sweep_harea(wav, N, sc, get=True, kw_w=dict(nondim=nd),
                                       kw_t=dict(nondim=nd))
            ctx.close(ha, w2 * t2, 1e-12, 'sweep', 'area')
            if fi:
                ctx.close(np.stack([w2, t2]), np.stack([sw, st]), 1e-9, 'sweep', 'area')
            sh.figs.clear(); plt.close('all')
            # filter bank
            pos, skips = bool(rng.random() < .4), int(rng.integers(0, 3))
            P = V.wavelet_filterbank(wav, N, scales=sc, skips=skips, positives=pos,
                                     get=True, show=False)
            e = np.stack([np.asarray(wav(scale=s, N=N)).ravel() for s in sc])
            ctx.close(P, e, 1e-6, 'filterbank')
            ax = plt.gca()
            ll = [l for l in ax.lines if len(l.get_xdata()) > 2]
            sub = e[::skips + 1]
            ctx.check(len(ll) == len(sub) and all(
                np.allclose(l.get_ydata(), (s if pos else s[:N//2]), atol=1e-6)
                for l, s in zip(ll, sub)), 'filterbank', f'{len(ll)} of {len(sub)}')
            x = ll[0].get_xdata()
            ctx.check(abs(x[0]) < 1e-12 and abs(x[-1] - (N - 1 if pos else np.pi)) < .06
                      and np.ptp(np.diff(x)) < 1e-9, 'filterbank', 'abscissa')
            plt.close('all'); sh.figs.clear()
            # images of the wavelets
            V.wavelet_heatmap(wav, scales=sc, N=N)
            psi = np.stack([np.asarray(wav.psifn(scale=s, N=N)).ravel() for s in sc])
            w = np.arange(N//2 + 1) * 2*np.pi / N
            psih = np.stack([np.asarray(wav(s * w)).ravel() for s in sc])
            ims = [np.asarray(f.axes[0].images[0].get_array()) for f in sh.figs[:3]]
            ctx.check(len(ims) == 3 and all(
                a.shape == b.shape and np.abs(a - b).max() <= 1e-5 * np.abs(b).max()
                for a, b in zip(ims, (psi.real, np.abs(psi), np.abs(psih)))),
                'wavelet plots', 'heatmap')
            plt.close('all'); sh.figs.clear()
            V.wavelet_waveforms(wav, N, scj, zoom=False)
            f1, f2, f3 = sh.figs[:3]
            w = np.linspace(0, np.pi, N//2) * scj
            ps = np.asarray(wav(w)).ravel()
            o = np.asarray(f1.axes[0].collections[0].get_offsets())
            ok = np.allclose(o[:, 0], w) and np.allclose(o[:, 1], ps, atol=1e-6)
            l = f1.axes[0].lines[0]
            ok &= np.allclose(l.get_ydata(), np.asarray(wav(l.get_xdata())).ravel(),
                              atol=1e-6)
            psi = np.asarray(wav.psifn(scale=scj, N=N)).ravel()
            ls = f3.axes[0].lines
            ok &= len(ls) == 3 and all(
                np.allclose(a.get_ydata(), b, atol=1e-6 * np.abs(psi).max())
                for a, b in zip(ls, (psi.real, psi.imag, np.abs(psi))))
            ok &= np.allclose(f2.axes[0].lines[0].get_ydata(), ps, atol=1e-6)
            ctx.check(ok, 'wavelet plots', 'waveforms')
            plt.close('all'); sh.figs.clear()
            n0 = wav.N
            wav.viz('time-frequency', scale=scj)
            ls = sh.figs[0].axes[0].lines
            psi = np.asarray(wav.psifn(scale=scj, N=N)).ravel()
            g = np.pi * 1 / np.abs(psi).max() / 5
            mx = (np.arange(N//2 + 1) * 2*np.pi/N).max()
            g = mx / np.abs(psi).max() / 5
            ctx.check(np.allclose(ls[0].get_ydata(), psi.real * g, atol=1e-5) and
                      np.allclose(ls[1].get_ydata(), psi.imag * g, atol=1e-5) and
                      np.allclose(ls[2].get_ydata(), np.abs(psi) * g, atol=1e-5),
                      'wavelet plots', 'time-frequency')
            txt = ' '.join(t.get_text() for t in sh.figs[0].axes[0].texts)
            for nm, fn in (('wc', W.center_frequency), ('std_w', W.freq_resolution)):
                v = fn(wav, scj, N)if nm == 'wc' else fn(wav, scj, N, nondim=0)
                ctx.check('%.4f' % v in txt or '%.5f' % v in txt, 'wavelet plots',
                          f'annotated {nm}: {v} not in {txt[:90]}')
            ctx.check(wav.N == n0 and np.array_equal(sc, keep), 'arguments left alone')
        # higher orders; band
        with ctx.run(orders=True, N=N), Shown() as sh:
            k, m = int(rng.integers(2, 4)), int(rng.integers(3, 9))
            Ws = [array(rng, (m, N), 'c16') for _ in range(k)]
            s2 = 2.**np.arange(m)
            one = rng.random() < .3
            V.viz_cwt_higher_order(Ws[0] if one else Ws, s2 if rng.random() < .5 else
                                   s2[:, None], gen.choice(rng, [None, 'gmw']))
            want = ([np.abs(Ws[0])] if one else [np.abs(a) for a in Ws] +
                    [np.mean(np.abs(Ws), axis=0)])
            ims = [np.asarray(f.axes[0].images[0].get_array()) for f in sh.figs]
            ctx.check(len(ims) == len(want) and all(map(np.allclose, ims, want)),
                      'higher order', f'{len(ims)} images')
            f = sh.figs[0]
            ax = f.axes[0].yaxis
            ctx.check(all(abs(number(t.get_text()) - s2[int(l)]) < .006 for l, t in zip(
                ax.get_ticklocs(), ax.get_ticklabels())), 'higher order', 'labels')
        with ctx.run(band=True, N=N), Shown() as sh:
            from ssqueezepy.toolkit import lin_band
            T = array(rng, (int(rng.integers(10, 60)), N), 'c16')
            sl, off, bw = rng.uniform(.1, .9), rng.uniform(0, .5), rng.uniform(.01, .1)
            Cs, fb = lin_band(T, sl, off, bw)
            na = len(T)
            eC = (sl * (np.linspace(0, 1, N) + off) * na).astype(int)
            eb = int(bw * na)
            ax = sh.figs[-1].axes[0]
            ctx.check(np.abs(Cs - eC).max() <= 1 and (np.abs(fb - eb) <= 1).all() and
                      len(Cs) == len(fb) == N, 'band')
            ctx.check(np.array_equal(ax.lines[0].get_ydata(), Cs + fb) and
                      np.array_equal(ax.lines[1].get_ydata(), Cs - fb) and
                      np.allclose(np.asarray(ax.images[0].get_array()), np.abs(T)),
                      'band', 'drawn')


def run(ctx):
    import matplotlib
    matplotlib.use('Agg')
    for fn in (plotting, images, grids, wavelets):
        with ctx.guard(fn.__name__):
            fn(ctx)
