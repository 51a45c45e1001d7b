"""Reference models, in double precision, written from the documentation and the
literature rather than from the code under test (no import of it here)."""
import numpy as np
from scipy import special as sp

pi = np.pi


# ---- wavelets --------------------------------------------------------------
DEFAULTS = dict(gmw=dict(gamma=3., beta=60., norm='bandpass', order=0,
                         centered_scale=False),
                morlet=dict(mu=13.4), bump=dict(mu=5., s=1., om=0.),
                cmhat=dict(mu=1., s=1.), hhhat=dict(mu=5.))


def peak_gmw(gamma, beta):
    return (beta / gamma)**(1 / gamma)


def psih(name, w, **opts):
    """Frequency-domain wavelet at radian frequencies `w` (continuous-time)."""
    o = {**DEFAULTS[name], **{k: v for k, v in opts.items() if v is not None}}
    w = np.asarray(w, dtype='float64')
    with np.errstate(all='ignore'):
        if name == 'gmw':
            g, b, k = o['gamma'], o['beta'], int(o['order'])
            wc = peak_gmw(g, b)
            if o['centered_scale']:
                w = w * wc
            pos = w > 0
            wp = np.where(pos, w, 1.)
            r = (2*b + 1) / g
            lb = b * np.log(wp) - wp**g
            if o['norm'] == 'bandpass':
                lc = np.log(2.) - b * np.log(wc) + wc**g
                if k:
                    lc += .5 * (sp.gammaln(r) + sp.gammaln(k + 1) - sp.gammaln(k + r))
            else:
                lc = .5 * (np.log(2*pi*g) + r*np.log(2.) + sp.gammaln(k + 1)
                           - sp.gammaln(k + r))
            out = np.exp(lb + lc)
            if k:
                z = np.where(out > 0, 2 * wp**g, 0)
                out = out * sp.eval_genlaguerre(k, r - 1, z)
            return np.where(pos, out, 0.)
        if name == 'morlet':
            mu = o['mu']
            cs = (1 + np.exp(-mu**2) - 2*np.exp(-.75 * mu**2))**-.5
            return np.sqrt(2) * cs * pi**.25 * (np.exp(-.5 * (w - mu)**2) -
                                               np.exp(-.5 * mu**2) * np.exp(-.5 * w**2))
        if name == 'bump':
            u = (w - o['mu']) / o['s']
            m = np.abs(u) < .999
            um = np.where(m, u, 0)
            return (np.exp(2j * pi * o['om'] * w) / o['s'] *
                    np.where(m, np.exp(-1 / (1 - um**2)), 0) / .443993816053287)
        if name == 'cmhat':
            u, s = w - o['mu'], o['s']
            return np.where(u >= 0, 2 * np.sqrt(2/3) * pi**-.25 * s**2.5 * u**2 *
                            np.exp(-s**2 * u**2 / 2), 0)
        if name == 'hhhat':
            u = w - o['mu']
            return (2 / np.sqrt(5) * pi**-.25 * u * (1 + u) * np.exp(-u**2 / 2) *
                    (1 + np.sign(u)))
    raise KeyError(name)


def xi(n):
    """Radian frequencies of DFT bins, Nyquist taken as positive."""
    k = np.arange(n)
    return 2*pi / n * np.where(k <= n // 2, k, k - n)


def filterbank(name, scales, n, nyq=True, **opts):
    P = psih(name, np.asarray(scales, dtype='float64').reshape(-1, 1) * xi(n), **opts)
    if nyq and n % 2 == 0:
        P = P.copy()
        P[:, n // 2] /= 2
    return P


# ---- padding ---------------------------------------------------------------
def p2up(n):
    up = int(2**(1 + np.round(np.log2(n))))
    n2 = (up - n) // 2
    return up, up - n - n2, n2


def pad(x, padtype, n1, n2):
    """Index-map padding of the last axis."""
    N = x.shape[-1]
    i = np.arange(-n1, N + n2)
    if padtype == 'zero':
        ok = (i >= 0) & (i < N)
        return np.where(ok, x[..., np.clip(i, 0, N - 1)], 0)
    if padtype == 'replicate':
        j = np.clip(i, 0, N - 1)
    elif padtype == 'wrap':
        j = i % N
    elif padtype == 'symmetric':
        j = i % (2*N)
        j = np.where(j < N, j, 2*N - 1 - j)
    elif padtype == 'reflect':
        if N == 1:
            j = np.zeros_like(i)
        else:
            j = i % (2*N - 2)
            j = np.where(j < N, j, 2*N - 2 - j)
    return x[..., j]


# ---- transforms ------------------------------------------------------------
def cwt(x, name, scales, padtype='reflect', rpadded=False, l1_norm=True, fs=1.,
        P=None, **opts):
    """Returns `(Wx, dWx)`."""
    x = np.asarray(x, dtype='float64')
    N = x.shape[-1]
    n, n1, n2 = (N, 0, 0) if padtype is None else p2up(N)
    xp = x if padtype is None else pad(x, padtype, n1, n2)
    if P is None:
        if name == 'gmw' and 'norm' not in opts:
            opts['norm'] = 'bandpass' if l1_norm else 'energy'
        P = filterbank(name, scales, n, **opts)
    X = np.fft.fft(xp)[..., None, :]
    Wx = np.fft.ifft(X * P)
    dWx = np.fft.ifft(X * P * 1j * xi(n) * fs)
    if not l1_norm:
        s = np.sqrt(np.asarray(scales, dtype='float64').reshape(-1, 1))
        Wx, dWx = Wx * s, dWx * s
    if not rpadded:
        Wx, dWx = Wx[..., n1:n1 + N], dWx[..., n1:n1 + N]
    return Wx, dWx


def diff_window(window):
    n = len(window)
    k = xi(n)
    if n % 2 == 0:
        k[n // 2] = 0
    return np.fft.ifft(np.fft.fft(window) * 1j * k).real


def stft(x, window, hop, padtype='reflect', modulated=True, fs=1.):
    """`window`: of length n_fft. Returns `(Sx, dSx)`, by explicit DFT sums."""
    x = np.asarray(x, dtype='float64')
    if x.ndim == 2:
        o = [stft(_x, window, hop, padtype, modulated, fs) for _x in x]
        return np.stack([a for a, _ in o]), np.stack([b for _, b in o])
    N, n = len(x), len(window)
    tot = n - 1
    n2 = tot // 2
    n1 = tot - n2
    xp = pad(x, padtype, n1, n2)
    starts = np.arange(0, N, hop)[:(len(xp) - n) // hop + 1]
    seg = np.stack([xp[s:s + n] for s in starts], axis=1)     # (n, frames)
    f = np.arange(n // 2 + 1)[:, None]
    m = np.arange(n)[None]
    # phase reference: the segment's centre sample or its start
    c = (n // 2) if modulated else 0
    D = np.exp(-2j * pi * f * (m - c) / n)
    dw = diff_window(window) * fs
    return D @ (seg * window[:, None]), D @ (seg * dw[:, None])


def phase(W, dW, gamma):
    with np.errstate(all='ignore'):
        w = np.abs(np.imag(dW / W)) / (2*pi)
    return np.where(np.abs(W) < gamma, np.inf, w)


# ---- bins ------------------------------------------------------------------
def bin_distance(w, freqs, kind):
    """Distance of `w` (any shape) to each of `freqs` (last axis added), in the
    spacing the bins are uniform in; `w` clipped to the range first."""
    f = np.asarray(freqs, dtype='float64')
    w = np.clip(w, f.min(), f.max())
    with np.errstate(all='ignore'):
        if kind == 'log':
            return np.abs(np.log2(w)[..., None] - np.log2(f))
        return np.abs(w[..., None] - f)


def rel(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return float(np.abs(a - b).max() / max(np.abs(b).max(), 1e-300))
