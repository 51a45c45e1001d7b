"""Wisdom files are damaged (enumerated and random faults), writers killed midway; whatever
runs next must import and transform correctly, and leave wisdom that loads."""
import os, shutil, subprocess, sys
import numpy as np
from rt import gen

IMPORT_SSQ = False
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODES = {'main': {'env': {'NUMBA_DISABLE_JIT': '1'}}}
SHARDS = {'quick': 6, 'thorough': 8}
BUDGET = {'quick': 25, 'thorough': 420}
REQUIRE = {'transform after fault': 800, 'saved wisdom loads': 150, 'import after fault': 12,
           'killed writer': 5, 'import after kill': 5, 'truncated': 300,
           'known to the next': 60}
RULE = ('states of the two wisdom files (absent, empty, truncated, flipped, swapped, '
        'random, directories, cut by SIGKILL of a writer), before import or before an '
        'instance is made; counted once transforms under it were compared with NumPy')
ASSUMPTIONS = ["FFTW's own parser of wisdom is trusted not to be driven to memory errors "
               'by damaged text (crashes would be reported)']

CHILD = r'''
import os, sys, signal, builtins
import numpy as np
cut = int(sys.argv[1]); wdir = sys.argv[2]; tmp = sys.argv[3]
seed = int(sys.argv[4])
import ssqueezepy as ssq
from ssqueezepy.utils import fft_utils as fu
F = fu.FFT_GLOBAL
assert os.path.dirname(os.path.abspath(F._wisdom32_path)) == wdir if hasattr(
    F, '_wisdom32_path') else True
rng = np.random.default_rng(seed)
if cut >= 0:
    # die once `cut` bytes were written into files of the wisdom's folder
    left = [cut]
    orig = builtins.open
    def _open(file, mode='r', *a, **k):
        f = orig(file, mode, *a, **k)
        if any(c in mode for c in 'wax+') and str(file).startswith(wdir):
            class W:
                def __getattr__(self, n): return getattr(f, n)
                def __enter__(self): return self
                def __exit__(self, *e): f.close()
                def write(self, b):
                    n = min(len(b), left[0])
                    f.write(b[:n]); f.flush()
                    left[0] -= n
                    if n < len(b):
                        os.kill(os.getpid(), signal.SIGKILL)
                    return n
            return W()
        return f
    builtins.open = _open
F.verbose = 0
for p in ((0, (1, .02)) if seed % 2 else ((1, .02), 0)):
    for dt in ('float32', 'float64'):
        for n in rng.permutation([8, 12, 15, 16])[:2]:
            x = rng.standard_normal(n).astype(dt)
            for nm in ('rfft', 'fft'):
                o = getattr(fu, nm)(x, patience=p)
                r = getattr(np.fft, nm)(x.astype('float64'))
                assert np.abs(o - r).max() < (1e-5 if dt == 'float32' else 1e-12), (nm, p)
x = rng.standard_normal(64)
from rt import ref
sc = 2**np.arange(1, 4, .25)
W, s = ssq.cwt(x, ('gmw', {'dtype': 'float64'}), scales=sc)
assert np.abs(W - ref.cwt(x, 'gmw', sc)[0]).max() < 1e-9
o = fu.FFT_GLOBAL.patience
fu.FFT_GLOBAL.patience = (1, .01)
W2 = ssq.cwt(x, ('gmw', {'dtype': 'float64'}), scales=sc)[0]
fu.FFT_GLOBAL.patience = o
assert np.abs(W - W2).max() < 1e-10
print('DONE', float(np.abs(W).sum()))
'''


def damage(rng, good, kind):
    """`(bytes or None or 'dir')` for one file."""
    if kind == 'absent':
        return None
    if kind == 'dir':
        return 'dir'
    g = good
    return {
        'empty': lambda: b'', 'good': lambda: g,
        'truncated': lambda: g[:int(rng.integers(len(g)))],
        'headless': lambda: g[int(rng.integers(1, len(g))):],
        'flipped': lambda: flip(rng, g, int(gen.choice(rng, [1, 3, 40]))),
        'random': lambda: rng.integers(0, 256, int(rng.integers(1, 5000)), 'uint8'
                                       ).tobytes(),
        'nul': lambda: g[:60] + b'\0' * 30 + g[60:],
        'twice': lambda: g + g, 'tail': lambda: g + b'(((((',
        'nested': lambda: b'(' * 3000,
        'digits': lambda: g.replace(b'#x', b'#x' + b'f' * 40),
        'long': lambda: b'(fftw-3.3.5 fftwf_wisdom ' + b'a' * 100000,
        'crlf': lambda: g.replace(b'\n', b'\r\n'),
        'fields': lambda: fields(rng, g),
        'version': lambda: g.replace(b'3.3.', b'2.1.'),
    }[kind]()


KINDS = ['fields', 'fields', 'absent', 'empty', 'truncated', 'truncated', 'headless', 'flipped', 'flipped',
         'random', 'nul', 'twice', 'tail', 'nested', 'digits', 'long', 'crlf', 'version',
         'swapped', 'dir', 'good']


def flip(rng, g, n):
    a = np.frombuffer(g, 'uint8').copy()
    i = rng.integers(0, len(a), n)
    a[i] ^= (1 << rng.integers(0, 8, n)).astype('uint8')
    return a.tobytes()


def fields(rng, g):
    """Values of hexadecimal or decimal fields replaced by others, format kept."""
    import re
    def sub(m):
        if rng.random() > .1:
            return m.group(0)
        v = int(rng.integers(2**int(rng.integers(1, 33))))
        return (b' #x%x' % v) if m.group(1) else (b' %d ' % v)
    return re.sub(rb' (#x)[\da-f]+| ()\d+ ', sub, g)


def put(d, name, v):
    p = os.path.join(d, name)
    if os.path.isdir(p):
        shutil.rmtree(p)
    elif os.path.exists(p):
        os.remove(p)
    if v == 'dir':
        os.mkdir(p)
    elif v is not None:
        with open(p, 'wb') as f:
            f.write(v)


def run(ctx):
    root = os.path.join(ctx.tmp, 'pkg')
    shutil.copytree(os.path.join(ctx.repo, 'ssqueezepy'),
                    os.path.join(root, 'ssqueezepy'),
                    ignore=shutil.ignore_patterns('__pycache__'))
    pdir = os.path.join(root, 'ssqueezepy', 'utils')
    sys.path.insert(0, root)
    ctx.repo = root
    child = os.path.join(ctx.tmp, 'child.py')
    with open(child, 'w') as f:
        f.write(CHILD)
    with ctx.guard('import'):
        import ssqueezepy
        assert ssqueezepy.__file__.startswith(root)
        import pyfftw
        from ssqueezepy.utils.fft_utils import FFT
    if ctx.viol:
        return
    # known-good wisdom of both precisions
    gd = os.path.join(ctx.tmp, 'good')
    os.makedirs(gd)
    F = FFT(wisdom_dir=gd, patience=(1, .05), verbose=0)
    for n in (8, 12, 15, 30):
        for dt in ('float32', 'float64'):
            F.fft(np.ones(n, dt)), F.rfft(np.ones(n, dt))
            F.ifft(np.ones(n, 'complex64'))
    names = ('wisdom32', 'wisdom64')
    good = {}
    for n in names:
        p = os.path.join(gd, n)
        if not os.path.isfile(p):
            ctx.violation('saved wisdom loads', f'{n} not written into `wisdom_dir`')
            return
        good[n] = open(p, 'rb').read()
    known = [l for l in good['wisdom64'].split(b'\n')[1:] if l.strip(b' )')]

    def spawn(cut, wdir, seed):
        return subprocess.run(
            [sys.executable, child, str(cut), wdir, ctx.tmp, str(seed)],
            env={**os.environ, 'PYTHONPATH': root + os.pathsep + HERE}, capture_output=True, text=True,
            timeout=200, cwd=ctx.tmp)

    def state(rng):
        ks = [gen.choice(rng, KINDS) for _ in names]
        vs = []
        for n, k in zip(names, ks):
            if k == 'swapped':
                vs.append(good[names[1 - names.index(n)]])
            else:
                vs.append(damage(rng, good[n], k))
        return ks, vs

    # ---- killed while writing; then import
    for i, rng in ctx.cases('killed', 2, 40, share=.35, min_cases=1):
        d = pdir
        for n in names:
            put(d, n, gen.choice(rng, [None, good[n]]))
        cut = int(gen.choice(rng, [0, 1, 30, 74, rng.integers(1, 400),
                                   rng.integers(400, 20000)]))
        with ctx.run(cut=cut):
            r = spawn(cut, d, i)
            ctx.event('killed writer', r.returncode == -9)
            ctx.event('writer finished', r.returncode == 0)
            ctx.check(r.returncode in (-9, 0), 'import after fault',
                      f'rc {r.returncode}: {r.stderr[-500:]}')
            r = spawn(-1, d, i + 1)
            ctx.check(r.returncode == 0 and 'DONE' in r.stdout, 'import after kill',
                      f'rc {r.returncode} with files cut at {cut}: {r.stderr[-600:]}')

    # ---- damaged before import
    for i, rng in ctx.cases('import', 6, 120, share=.7, min_cases=2):
        ks, vs = state(rng)
        for n, v in zip(names, vs):
            put(pdir, n, v)
        with ctx.run(kinds=ks, i=i):
            r = spawn(-1, pdir, i)
            ctx.check(r.returncode == 0 and 'DONE' in r.stdout, 'import after fault',
                      f'rc {r.returncode} with wisdom files {ks}: {r.stderr[-600:]}')
    for n in names:
        put(pdir, n, None)

    # ---- damaged before an instance is made
    d = os.path.join(ctx.tmp, 'use')
    os.makedirs(d)
    cuts = ctx.rng.permutation(len(good['wisdom32']))
    for i, rng in ctx.cases('use', 260, 40000, min_cases=80):
        if i % 3 == 0:
            c = int(cuts[(i // 3) % len(cuts)])
            ks = [f'truncated at {c}'] * 2
            vs = [good[names[0]][:c], good[names[1]][:c * 7 % len(good[names[1]])]]
            ctx.event('truncated', 2)
        else:
            ks, vs = state(rng)
        forget = rng.random() < .7
        n = int(gen.choice(rng, [8, 12, 15, 30, 10]))
        with ctx.run(kinds=ks, h=hash(str(vs)) % 10**9, forget=forget, n=n):
            for nm, v in zip(names, vs):
                put(d, nm, v)
            if forget:
                pyfftw.forget_wisdom()
            F = FFT(wisdom_dir=d, patience=gen.choice(rng, [1, (1, .02), 2]),
                    planning_timelimit=.02, verbose=0,
                    cache_fft_objects=bool(rng.random() < .5))
            for dt in ('float32', 'float64'):
                x = rng.standard_normal(n).astype(dt)
                for op in ('fft', 'rfft', 'ifft'):
                    for p in (None, 0):
                        r = getattr(np.fft, op)(x.astype('float64'))
                        ctx.close(getattr(F, op)(x, patience=p), r, 1e-5 if dt ==
                                  'float32' else 1e-12, 'transform after fault',
                                  f'{op}, files {ks}')
            if 'dir' in ks:
                continue
            pyfftw.forget_wisdom()
            b = {nm: open(os.path.join(d, nm), 'rb').read() for nm in names}
            ok = pyfftw.import_wisdom((b['wisdom64'], b['wisdom32'], b''))
            ctx.check(ok[0] and ok[1], 'saved wisdom loads', f'{ok} after {ks}')
            # the next instance knows it
            pyfftw.forget_wisdom()
            FFT(wisdom_dir=d, verbose=0)
            w64 = pyfftw.export_wisdom()[0]
            have = [l for l in b['wisdom64'].split(b'\n')[1:] if l.strip(b' )')]
            ctx.check(all(l.strip(b' )') in w64 for l in have), 'known to the next',
                      f'{len(have)} entries saved, not all known to the next instance')
            ctx.check(len(have) > 0, 'known to the next', 'nothing saved')
