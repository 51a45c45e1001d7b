"""Case loop, verdicts and event counting shared by all checks."""
import contextlib, hashlib, json, os, sys, time, traceback
import numpy as np


class HarnessSkip(Exception):
    """Case turned out to be outside of the property's domain."""


# explicit refusals with advice to the user: the 'minimal' preset isn't available for
# signals too short for the wavelet
LIMITS = ['integer xi divisions', 'yields invalid frequency range']


class Ctx():
    def __init__(self, pid, mode, shard, tier, seed, budget, out, repo, only=None):
        self.pid, self.mode, self.shard = pid, mode, shard
        self.tier, self.seed, self.out, self.repo = tier, seed, out, repo
        self.budget = budget
        self.only = only
        self.thorough = tier == 'thorough'
        self.t0 = time.time()
        self.tmp = os.environ['SSQV_TMP']
        self.evaluations, self.distinct, self.events = 0, set(), {}
        self.samples, self.viol, self.incon, self.notes = [], [], [], {}
        self.case, self.group, self._desc = None, None, None
        self.rng = self._rng('static')

    # ---- randomness -------------------------------------------------------
    def _rng(self, *tag):
        h = hashlib.sha256(repr((self.pid, self.mode, self.shard, self.seed) + tag)
                           .encode()).digest()
        return np.random.default_rng(int.from_bytes(h[:8], 'little'))

    # ---- cases ------------------------------------------------------------
    def elapsed(self):
        return time.time() - self.t0

    def cases(self, name, n_quick, n_thorough=None, share=1., min_cases=1):
        """Yields `(index, rng)`; stops at `share` of the time budget, but not before
        `min_cases`. Each case's randomness is its own, so it can be replayed alone."""
        n = n_quick if not self.thorough else (n_thorough or 12 * n_quick)
        for i in range(n):
            if i >= min_cases and self.elapsed() > self.budget * share:
                self.notes[f'{name}: stopped by time at case'] = i
                break
            if self.only is not None and self.only != i:
                continue
            self.group, self.case = name, i
            yield i, self._rng(name, i)
        self.case = None

    @contextlib.contextmanager
    def run(self, **desc):
        """One evaluation of the code under test with parameters `desc`. Exceptions
        raised by the code under test are violations (all generated cases are valid)."""
        self._desc = {k: _short(v) for k, v in desc.items()}
        self.evaluations += 1
        t0 = time.time()
        try:
            yield
            if time.time() - t0 > 2.5:   # compilation, planning: shown by -v
                print('slow', round(time.time() - t0, 1), self._desc)
        except HarnessSkip as e:
            self.evaluations -= 1
            self.event('skipped:' + str(e)[:40])
            return
        except Exception as e:
            if not from_repo(e, self.repo):
                if isinstance(e, (ImportError, NameError, OSError, MemoryError)) or (
                        isinstance(e, AttributeError) and 'module' in str(e)):
                    raise
                # outputs too malformed for the oracle to be evaluated on
                self.violation('malformed:%s@%s' % (type(e).__name__, self.group),
                               '%s: %s' % (type(e).__name__, str(e)[:300]),
                               traceback.format_exc()[-1800:])
                return
            if any(m in str(e) for m in LIMITS):
                self.evaluations -= 1
                self.event('documented limit: ' + str(e)[:40])
                return
            self.violation('exception:%s@%s' % (type(e).__name__, self.group),
                           '%s: %s' % (type(e).__name__, str(e)[:300]),
                           traceback.format_exc()[-1800:])
            return
        h = hashlib.sha1(repr((self.group, sorted(self._desc.items()))).encode()
                         ).hexdigest()[:16]
        if h not in self.distinct:
            self.distinct.add(h)
            if len(self.samples) < 6:
                self.samples.append(dict(group=self.group, **self._desc))

    @contextlib.contextmanager
    def guard(self, name):
        self.group = name
        try:
            yield
        except Exception as e:
            if not from_repo(e, self.repo):
                raise
            self.violation('exception:%s@%s' % (type(e).__name__, name),
                           '%s: %s' % (type(e).__name__, str(e)[:300]),
                           traceback.format_exc()[-1800:])

    # ---- oracles ----------------------------------------------------------
    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def violation(self, key, msg, witness=None):
        if sum(v['key'] == key for v in self.viol) < 20:
            self.viol.append(dict(key=key, msg=str(msg), witness=_short(witness, 3000),
                                  mode=self.mode, shard=self.shard, case=self.case,
                                  group=self.group, params=self._desc))
            self.viol[-1]['msg'] += '  | params: ' + json.dumps(self._desc)[:500]

    def check(self, cond, key, msg='', witness=None):
        self.event(key)
        if not bool(cond):
            self.violation(key, msg or key, witness)
        return bool(cond)

    def close(self, got, ref, tol, key, msg='', axis=None, scale=None):
        """`|got - ref| <= tol * scale`; `scale` defaults to the reference's maximum
        magnitude. Shapes must be equal and values finite where the reference is."""
        self.event(key)
        got, ref = np.asarray(got), np.asarray(ref)
        if got.shape != ref.shape:
            self.violation(key, f'{msg} shape {got.shape} != {ref.shape}')
            return False
        if got.size == 0:
            return True
        fin = np.isfinite(ref)
        if not np.array_equal(np.isfinite(got), fin):
            self.violation(key, f'{msg} non-finite values at {np.argwhere(np.isfinite(got) != fin)[:3].tolist()}')
            return False
        if not fin.all():
            got, ref = np.where(fin, got, 0), np.where(fin, ref, 0)
        s = (np.abs(ref).max(axis=axis, keepdims=axis is not None)
             if scale is None else scale)
        err = np.abs(got - ref) - tol * np.maximum(s, 1e-300)
        # tiny subnormal-level references
        if np.max(err) > 0:
            i = np.unravel_index(np.argmax(err), err.shape)
            g, r = got[i], ref[i]
            e = np.max(np.abs(got - ref) / np.maximum(s, 1e-300))
            self.violation(key, f'{msg} relative error {e:.3g} > {tol:g} '
                                f'(got {g}, expected {r} at {tuple(map(int, i))} of '
                                f'{got.shape})')
            return False
        return True

    def equal(self, a, b, key, msg=''):
        """Bitwise equality (NaN equal to itself)."""
        self.event(key)
        a, b = np.asarray(a), np.asarray(b)
        ok = (a.shape == b.shape and a.dtype == b.dtype and
              np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc'))
        if not ok:
            self.violation(key, f'{msg}: {a.shape} {a.dtype} vs {b.shape} {b.dtype}')
        return ok

    def raises(self, fn, key, msg='', exc=Exception):
        self.event(key)
        try:
            fn()
        except exc:
            return True
        self.violation(key, msg + ': accepted')
        return False

    def finish(self):
        d = dict(evaluations=self.evaluations, distinct=sorted(self.distinct),
                 events=self.events, samples=self.samples, viol=self.viol,
                 incon=self.incon, notes=self.notes, current=self.case)
        with open(self.out + '.tmp', 'w') as f:
            json.dump(d, f, default=str)
        os.replace(self.out + '.tmp', self.out)


def _short(v, n=160):
    if isinstance(v, np.ndarray):
        if v.size <= 6:
            return f'{v.dtype}{v.tolist()}'
        return (f'{v.dtype}{list(v.shape)}#'
                + hashlib.sha1(np.ascontiguousarray(v).tobytes()).hexdigest()[:8])
    if isinstance(v, (bool, int, float, type(None))):
        return v
    if isinstance(v, np.generic):
        return v.item() if v.dtype.kind in 'biuf' else str(v)
    return str(v)[:n]


def from_repo(e, repo):
    """Whether the exception passed through the code under test."""
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        tb = e.__traceback__
        while tb is not None:
            if tb.tb_frame.f_code.co_filename.startswith(
                    os.path.join(repo, 'ssqueezepy')):
                return True
            tb = tb.tb_next
        if type(e).__module__.startswith('numba'):
            return True
        e = e.__cause__ or e.__context__
    return False


def import_ssq(ctx):
    """Imports the code under test with FFTW wisdom redirected to scratch."""
    import ssqueezepy
    assert ssqueezepy.__file__.startswith(ctx.repo + os.sep), ssqueezepy.__file__
    redirect_wisdom(ctx.tmp)
    return ssqueezepy


def redirect_wisdom(tmp):
    from ssqueezepy.utils.fft_utils import FFT_GLOBAL
    for name in ('_wisdom32_path', '_wisdom64_path'):
        if hasattr(FFT_GLOBAL, name):
            setattr(FFT_GLOBAL, name, os.path.join(tmp, name.strip('_')))
    FFT_GLOBAL.verbose = 0
