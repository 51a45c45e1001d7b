"""Monitors attached to compiled kernels, from outside of the code under test:
`numba.jit` (and `prange`) are replaced before it's imported, so every kernel - whatever
its name - is called through a monitor.

- `Guarded`: each array argument is placed between guard zones, which are inspected
  after the call; out-of-bounds errors (NUMBA_BOUNDSCHECK=1) are recorded.
- `Recorded` (NUMBA_DISABLE_JIT=1): kernels run interpreted over arrays which log every
  element read and written, by iteration of the parallel loop, in permuted orders.
"""
import numpy as np

PAT = 0xA5


class Log():
    def __init__(self):
        self.calls = {}         # kernel: number of calls
        self.oob = []           # (kernel, what)
        self.guarded = 0        # arrays between guard zones
        self.races = []
        self.iters = 0
        self.accesses = 0
        self.loops = 0
        self.orders = set()
        self.par_calls = {}

    def drain(self, ctx, prefix=''):
        """Reports to `ctx`."""
        for k, v in self.calls.items():
            ctx.event(f'{prefix}kernel calls', v)
            ctx.event(f'{prefix}kernel {k}', v)
        if self.guarded:
            ctx.event('arrays between guard zones', self.guarded)
        if self.loops:
            ctx.event('parallel loops monitored', self.loops)
            ctx.event('parallel iterations monitored', self.iters)
            ctx.event('array accesses monitored', self.accesses)
        for k, what in self.oob:
            ctx.violation(f'out of bounds:{k}', f'kernel {k}: {what}')
        for k, what in self.races:
            ctx.violation(f'race:{k}', f'kernel {k}: {what}')
        self.__init__()


LOG = Log()


def _guard(a):
    """Copy of contiguous `a` between guard zones; `(copy, raw, g, nbytes)`."""
    nb = a.nbytes
    g = max(4096, (nb + 63) // 64 * 64)
    raw = np.full(2*g + nb + 128, PAT, dtype=np.uint8)
    off = (-raw.ctypes.data) % 64 + g
    order = 'C' if a.flags.c_contiguous else 'F'
    b = np.ndarray(a.shape, a.dtype, buffer=raw.data, offset=off, order=order)
    b[...] = a
    return b, raw, off, nb


class Guarded():
    """Stands for a numba dispatcher, also when referenced by other kernels."""
    def __init__(self, disp, name, guard=True):
        self.__dict__.update(_d=disp, _name=name, _guard=guard)
        self.__name__ = name
        self.__doc__ = getattr(disp, '__doc__', None)
        self.__module__ = getattr(disp, '__module__', None)

    @property
    def _numba_type_(self):
        return self._d._numba_type_

    def __getattr__(self, k):
        return getattr(self.__dict__['_d'], k)

    def _direct(self, *args, **kw):
        LOG.calls[self._name] = LOG.calls.get(self._name, 0) + 1
        return self._d(*args, **kw)

    def __call__(self, *args, **kw):
        LOG.calls[self._name] = LOG.calls.get(self._name, 0) + 1
        arrs = [('a', i, v) for i, v in enumerate(args)] + \
               [('k', k, v) for k, v in kw.items()]
        arrs = [t for t in arrs if isinstance(t[2], np.ndarray) and t[2].ndim and
                t[2].size and (t[2].flags.c_contiguous or t[2].flags.f_contiguous)]
        if not self._guard:
            arrs = []
        alias = any(np.may_share_memory(p[2], q[2]) for n, p in enumerate(arrs)
                    for q in arrs[:n])
        if alias:
            arrs = []
        args, kw = list(args), dict(kw)
        gs = []
        for t, i, v in arrs:
            b, raw, off, nb = _guard(v)
            if not v.flags.writeable:
                b.flags.writeable = False
            (args if t == 'a' else kw)[i] = b
            gs.append((i, v, b, raw, off, nb))
            LOG.guarded += 1
        try:
            out = self._d(*args, **kw)
        except (IndexError, SystemError) as e:
            if isinstance(e, IndexError) or isinstance(e.__cause__, IndexError):
                LOG.oob.append((self._name, f'{type(e).__name__}: {e}'))
            raise
        finally:
            for i, v, b, raw, off, nb in gs:
                bad = np.flatnonzero(raw[:off] != PAT)
                bad2 = np.flatnonzero(raw[off + nb:] != PAT)
                if bad.size or bad2.size:
                    LOG.oob.append((self._name, f'wrote outside of argument {i} '
                                    f'({v.dtype}{v.shape}): {bad.size} bytes before, '
                                    f'{bad2.size} bytes after it'))
                if v.flags.writeable:
                    v[...] = b
        for i, v, b, *_ in gs:
            if out is b:
                out = v
            elif isinstance(out, np.ndarray) and np.may_share_memory(out, b):
                out = out.copy()
        return out


# ---- interpreted kernels -------------------------------------------------------------
class State():
    on = False          # inside of a parallel kernel
    name = None
    it = None           # current iteration
    log = None          # {address: [readers, writers]}
    order = None        # function of n giving an order of iterations


S = State()


def _addr(v):
    ptr = v.__array_interface__['data'][0]
    a = np.array(ptr, dtype=np.int64)
    for n, st in zip(v.shape, v.strides):
        a = a[..., None] + np.arange(n, dtype=np.int64) * st
    return a.ravel().tolist()


def _touch(v, w):
    if S.it is None:
        return
    v = v.view(np.ndarray) if isinstance(v, Rec) else v
    for a in _addr(v):
        e = S.log.setdefault(a, (set(), set()))
        e[w].add(S.it)
        LOG.accesses += 1


def _plain(v, w=0):
    if isinstance(v, Rec):
        _touch(v, w)
        return v.view(np.ndarray)
    if isinstance(v, (tuple, list)):
        return type(v)(_plain(u, w) for u in v)
    return v


class Rec(np.ndarray):
    def _at(self, i):
        """View (also of single elements)."""
        p = self.view(np.ndarray)
        if not isinstance(i, tuple):
            i = (i,)
        i = tuple(int(u) if isinstance(u, (np.integer, Rec)) and np.ndim(u) == 0 else u
                  for u in i)
        basic = all(isinstance(u, (int, slice, type(None), type(Ellipsis))) for u in i)
        if not basic:
            return None, i
        v = p[i + (Ellipsis,)] if Ellipsis not in i else p[i]
        return v, i

    def __getitem__(self, i):
        i = _plain(i)
        v, j = self._at(i)
        if v is None:
            _touch(self.view(np.ndarray), 0)
            return self.view(np.ndarray)[j]
        if v.ndim == 0:
            _touch(v, 0)
            return v[()]
        return v.view(Rec)

    def __setitem__(self, i, value):
        i = _plain(i)
        value = _plain(value)
        v, j = self._at(i)
        p = self.view(np.ndarray)
        if v is None:
            sel = np.zeros(p.shape, bool); sel[j] = True
            ad = np.array(_addr(p)).reshape(p.shape)[sel]
            if S.it is not None:
                for a in ad.tolist():
                    S.log.setdefault(a, (set(), set()))[1].add(S.it)
        else:
            _touch(v, 1)
        p[j] = value

    def __iter__(self):
        for k in range(len(self)):
            yield self[k]

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        ins = _plain(tuple(inputs))
        if out is not None:
            kw['out'] = _plain(tuple(out), 1)
        if method == 'at':
            _touch(inputs[0], 1)
        r = getattr(ufunc, method)(*ins, **kw)
        if out is not None and isinstance(out[0], Rec):
            return out[0]
        return r

    def __array_function__(self, func, types, args, kwargs):
        kw = {k: _plain(v) for k, v in kwargs.items()}
        return func(*[_plain(a) for a in args], **kw)

    def fill(self, value):
        self[...] = value


for _m in ('sum min max argmin argmax mean copy any all std var cumsum prod astype ravel '
           'tolist clip round dot argsort').split():
    def _f(self, *a, _m=_m, **k):
        if _m == 'ravel' and self.flags.c_contiguous:
            return self.view(np.ndarray).ravel().view(Rec)
        return getattr(_plain(self), _m)(*[_plain(u) for u in a], **k)
    setattr(Rec, _m, _f)


class _NP():
    """numpy, whose new arrays are recorded too."""
    def __getattr__(self, k):
        f = getattr(np, k)
        if k in ('zeros', 'empty', 'ones', 'full', 'zeros_like', 'empty_like',
                 'ones_like', 'full_like'):
            return lambda *a, **q: f(*[_plain(u) for u in a], **q).view(Rec)
        return f


class prange():
    """Iterations in the order chosen by the monitor, each identified."""
    def __new__(cls, *a):
        r = range(*[int(u) for u in a])
        if not S.on or S.it is not None:    # nested loops aren't parallel
            return iter(r)
        return cls._loop(r)

    @staticmethod
    def _loop(r):
        S.log = {}
        order = S.order(len(r)) if S.order else range(len(r))
        LOG.loops += 1
        try:
            for k in order:
                S.it = int(k)
                LOG.iters += 1
                yield r[int(k)]
        finally:
            S.it = None
            LOG.orders.add((len(r), tuple(int(k) for k in order)[:12]))
            for rd, wr in S.log.values():
                if len(wr) > 1 or (wr and rd - wr):
                    LOG.races.append((S.name, f'iterations {sorted(wr)[:4]} write, '
                                      f'{sorted(rd - wr)[:4]} read one element'
                                      if len(wr) == 1 else
                                      f'iterations {sorted(wr)[:6]} write one element'))
                    break
            S.log = None


IMIN = -2**63


class _int(int):
    """`int` as compiled: no exception upon non-finite values."""
    def __new__(cls, v=0, *a):
        if isinstance(v, (float, np.floating)) and not np.isfinite(v):
            return IMIN
        return int(v, *a)


def _round(v, *a):
    if not a and isinstance(v, (float, np.floating)):
        return int(round(float(v))) if np.isfinite(v) else IMIN
    return round(v, *a)


class Recorded():
    def __init__(self, fn, name, parallel):
        self.py_func, self._name, self._par = fn, name, parallel
        self.__name__, self.__doc__ = name, fn.__doc__

    def __call__(self, *args, **kw):
        LOG.calls[self._name] = LOG.calls.get(self._name, 0) + 1
        if S.on:                            # called by another kernel
            return self.py_func(*args, **kw)
        rec = lambda v: (v.view(Rec) if isinstance(v, np.ndarray) and v.ndim and self._par
                         else v)
        g = self.py_func.__globals__
        old = {k: g[k] for k in ('np', 'int', 'round') if k in g}
        S.on, S.name = bool(self._par), self._name
        try:
            if self._par:
                LOG.par_calls[self._name] = LOG.par_calls.get(self._name, 0) + 1
                g['np'] = _NP()
            g['int'], g['round'] = _int, _round
            with np.errstate(all='ignore'):
                out = self.py_func(*[rec(v) for v in args],
                                   **{k: rec(v) for k, v in kw.items()})
        except IndexError as e:
            LOG.oob.append((self._name, f'IndexError: {e}'))
            raise
        finally:
            S.on, S.name, S.it = False, None, None
            for k in ('np', 'int', 'round'):
                g.pop(k, None)
            g.update(old)
        return out.view(np.ndarray) if isinstance(out, Rec) else out


def install(mode):
    """`mode`: 'guard', 'bounds' (no guard zones) or 'record'."""
    import numba
    real = numba.jit

    def jit(*a, **k):
        fn = a[0] if a and callable(a[0]) else None
        def deco(f):
            if mode == 'record':
                return Recorded(f, f.__name__, k.get('parallel', False))
            return Guarded(real(**k)(f), f.__name__, mode == 'guard')
        return deco(fn) if fn is not None else deco
    numba.jit = numba.njit = jit
    if mode == 'record':
        numba.prange = prange
