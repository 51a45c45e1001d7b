"""Every sample of every padded array is compared with an explicit index map."""
import numpy as np
from rt import gen

MODES = {'main': {'env': {'NUMBA_DISABLE_JIT': '1', 'SSQ_PARALLEL': '0'}}}
SHARDS = {'quick': 3, 'thorough': 6}
BUDGET = {'quick': 20, 'thorough': 250}
REQUIRE = {'padded samples': 300, 'lengths': 300, 'p2up': 200, 'rows independent': 60,
           'input unchanged': 300}
RULE = 'random array x scheme x length; counted once every sample was compared'


def index_map(N, n1, n2, padtype):
    """Index into the input of each sample (-1: zero), from the scheme's definition."""
    i = np.arange(-n1, N + n2)
    if padtype == 'zero':
        return np.where((i >= 0) & (i < N), i, -1)
    if padtype == 'replicate':
        return np.clip(i, 0, N - 1)
    if padtype == 'wrap':
        return i % N
    if padtype == 'symmetric':       # edge repeated: period 2N
        j = i % (2*N)
        return np.where(j < N, j, 2*N - 1 - j)
    if N == 1:                       # 'reflect': edge not repeated: period 2N - 2
        return np.zeros(len(i), int)
    j = i % (2*N - 2)
    return np.where(j < N, j, 2*N - 2 - j)


def p2(n):
    """Power of 2 next to the one nearest to `n` in the logarithmic sense."""
    k = 0
    while n * n > 2 * 4**k:           # n > 2**(k + .5)
        k += 1
    return 2**(k + 1)


def run(ctx):
    from ssqueezepy import utils
    for i, rng in ctx.cases('pad', 700, 30000, share=.75, min_cases=150):
        u = rng.random()
        N = (int(rng.integers(1, 9)) if u < .2 else gen.length(rng, 2, 700) if u < .9
             else int(rng.integers(700, 9000)))
        two = rng.random() < .4
        B = int(rng.integers(1, 5))
        dt = gen.choice(rng, ['float64', 'float32', 'complex128', 'int64', 'float64'])
        x = rng.standard_normal((B, N) if two else N) * 100
        if dt == 'complex128':
            x = x + 1j * rng.standard_normal(x.shape)
        x = x.astype(dt)
        lay = gen.choice(rng, ['c', 'c', 'strided', 'f', 'readonly'])
        if lay == 'strided':
            x = np.repeat(x, 2, axis=-1)[..., ::2]
        elif lay == 'f':
            x = np.asfortranarray(x)
        elif lay == 'readonly':
            x.setflags(write=False)
        padtype = gen.choice(rng, ['zero', 'reflect', 'symmetric', 'replicate', 'wrap'])
        pl = gen.choice(rng, [None, None, 'any', 'near', 'far'])
        if pl == 'any':
            pl = N + int(rng.integers(0, N + 10))
        elif pl == 'near':
            pl = N + int(rng.integers(0, 4))
        elif pl == 'far':
            pl = N + int(rng.integers(0, 12*N + 12))
        if pl is not None and rng.random() < .2:
            pl = np.int64(pl)
        with ctx.run(N=N, shape=x.shape, dtype=dt, layout=lay, padtype=padtype,
                     padlength=pl):
            x0 = x.copy()
            kw = {} if pl is None and rng.random() < .5 else dict(padlength=pl)
            if padtype != 'reflect' or rng.random() < .5:
                kw['padtype'] = padtype
            xp, n_up, n1, n2 = utils.padsignal(x, get_params=True, **kw)
            total = p2(N) if pl is None else int(pl)
            extra = total - N
            ctx.check(n_up == total and n1 + n2 == extra and xp.shape[-1] == total,
                      'lengths', f'total {n_up}, sides {n1}, {n2}, output {xp.shape}; '
                      f'expected total {total}')
            ctx.check(n2 == extra // 2, 'centering', f'sides {n1}, {n2} of {extra}')
            im = index_map(N, extra - extra // 2, extra // 2, padtype)
            want = np.where(im >= 0, x0[..., np.maximum(im, 0)], 0)
            ctx.event('samples', want.size)
            ctx.equal(xp, want.astype(dt), 'padded samples')
            ctx.equal(x, x0, 'input unchanged')
            only = utils.padsignal(x, **kw)
            ctx.equal(only, xp, 'get_params changes nothing')
            ctx.check(not np.shares_memory(xp, x), 'output is a copy')
            if two and B > 1:
                y = x0.copy()
                y[0] = -7
                ctx.equal(utils.padsignal(y, **kw)[1:], xp[1:], 'rows independent')
                ctx.equal(utils.padsignal(x0[1], **kw), xp[1], 'rows independent')
    for i, rng in ctx.cases('p2up', 300, 20000, min_cases=120):
        n = (int(rng.integers(1, 4000)) if rng.random() < .6 else
             max(1, int(2**(rng.integers(1, 40) / 2)) + int(rng.integers(-2, 3))))
        with ctx.run(n=n):
            up, n1, n2 = utils.p2up(n)
            ctx.check(up == p2(n) and n1 + n2 == up - n and n2 == (up - n) // 2
                      and all(isinstance(v, (int, np.integer)) for v in (up, n1, n2)),
                      'p2up', f'{(up, n1, n2)}, expected total {p2(n)}')
