"""Reference spectra: windows, detrending and a direct Fourier sum."""
import functools
import numpy as np

V = [0., 1., -2., 3.5, 2.25, 10., .25, -7.]


def signal(n, pat, s=0):
    k = np.arange(n)
    if pat == 'wave':
        return np.cos(k * (1.3 + .4 * s) + s) * 4 + k % (3 + s)
    if pat == 'trend':
        return .3 * k * (1 + s) + np.sin(k * .9 + s)
    if pat == 'mix':
        return np.array([V[(i * i + 2 * i + s * (i // 3) + s) % 8] for i in range(n)])
    if pat == 'gap':
        a = signal(n, 'mix', s)
        a[(2 * n) // 3] = np.nan
        return a
    if pat == 'big':
        return 1500 + signal(n, 'mix', s)
    raise KeyError(pat)


def window(w, n):
    if isinstance(w, np.ndarray):
        return w
    if w is None or w == 1:
        return np.ones(n)
    k = np.arange(n)
    c = np.cos(2 * np.pi * k / (n - 1))
    return .5 - .5 * c if 'hann' in w else .54 - .46 * c


def starts(l, nfft, step=None, nens=None):
    """Windows: default at least 50 % overlap, the fewest, spread over the record."""
    if nens is None and step is None:
        if l == nfft:
            return [0], 1
        nens = int(2 * l // nfft)
        step = (l - nfft) // (nens - 1)
    elif step is None:
        if nens == 1:
            return [0], 1
        step = (l - nfft) // (nens - 1)
    else:
        nens = (l - nfft) // step + 1
    out, i = [], 0
    while i + nfft <= l:
        out.append(i)
        i += step
    return out, nens


@functools.lru_cache(None)
def dft(n):
    k = np.arange(1, n // 2 + 1)
    return np.exp(-2j * np.pi * np.outer(k, np.arange(n)) / n)


def piece(a, i, n, w):
    y = np.asarray(a[i:i + n], dtype=float)
    x = np.arange(n) - (n - 1) / 2
    if np.isnan(y).any():
        return np.full(n // 2, np.nan + 0j)
    y = y - y.mean() - (x * y).sum() / (x ** 2).sum() * x
    return dft(n) @ (y * w)


def cross(a, b, nfft, fs, win='hann', step=None):
    la, lb = len(a), len(b)
    nfft = min(nfft, la, lb)
    w = window(win, nfft)
    if la <= lb:
        sa, nens = starts(la, nfft, step)
        sb = sa if la == lb else starts(lb, nfft, None, nens)[0]
    else:
        sb, nens = starts(lb, nfft, step)
        sa = starts(la, nfft, None, nens)[0]
    pw = [piece(a, i, nfft, w) * np.conj(piece(b, j, nfft, w)) for i, j in zip(sa, sb)]
    return np.mean(pw, 0) * 2 / (w ** 2).sum() / fs


def psd(a, nfft, fs, win='hann', step=None):
    return np.abs(cross(a, a, nfft, fs, win, step))


def coherence(a, b, nfft, win, debias, noise):
    if len(a) > len(b):
        a, b, noise = b, a, noise[::-1]
    sa, nens = starts(len(a), nfft)
    st = [(l - nfft) // (nens - 1) for l in (len(a), len(b))]
    c = np.abs(cross(a, b, nfft, 1., win)) ** 2 / ((psd(a, nfft, 1., win, st[0]) - 2 * noise[0] ** 2) *
                                                  (psd(b, nfft, 1., win, st[1]) - 2 * noise[1] ** 2))
    return c * (1 + 1. / nens) - 1. / nens if debias else c


def phase(a, b, nfft, win, step=None):
    """Mean over the windows of the unit phasor of b against a; and the same with a in place of b after the first window."""
    w = window(win, nfft)
    if len(a) <= len(b):
        sa, nens = starts(len(a), nfft, step)
        sb = sa if len(a) == len(b) else starts(len(b), nfft, None, nens)[0]
    else:
        sb, nens = starts(len(b), nfft, step)
        sa = starts(len(a), nfft, None, nens)[0]

    def unit(p, q):
        r = np.conj(p) * q
        with np.errstate(all='ignore'):
            return np.where((np.abs(p) < 1e-9) | (np.abs(q) < 1e-9), np.nan, r / np.abs(r))
    good = [unit(piece(a, i, nfft, w), piece(b, j, nfft, w)) for i, j in zip(sa, sb)]
    sw = starts(len(a), nfft, step)[0]
    bad = good[:1] + [unit(piece(a, i, nfft, w), piece(a, i, nfft, w)) for i in sw[1:]]
    return np.mean(good, 0), np.mean(bad, 0)


def bins(a, n, p):
    """Bins of n samples with p neighbouring samples, zeros outside the record."""
    m = len(a) // n
    p0, p1 = p // 2, (p + 1) // 2
    z = np.concatenate([np.zeros(p0), np.asarray(a[:m * n], float), np.zeros(p1)])
    return [z[i * n:i * n + n + p] for i in range(m)]


def freq(n, fs):
    return np.arange(1, n // 2 + 1) * fs / n
