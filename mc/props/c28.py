"""C28  Cross-spectra, coherence and phase of two signals."""
import itertools
import numpy as np
import xarray as xr
from dolfyn.tools import psd as P
from dolfyn.adv.turbulence import ADVBinner
from dolfyn.velocity import VelBinner
from .. import spec_ref as S
from ..core import need, product, Fail
from ..util import same, attr_same
from .c27 import TimeMean

LEVEL = "exploration"


def cross(c):
    a, b = S.signal(c['la'], c['pat']), S.signal(c['lb'], c['pat'], c['sb'])
    n = c['nfft']
    if n > min(c['la'], c['lb']):
        return None
    a0, b0 = a.copy(), b.copy()
    if c['la'] == c['lb']:
        g = P.cpsd(a, b, n, 4., window=c['win'], step=c['step'])
        e = S.cross(a, b, n, 4., c['win'], c['step'])
        same('cpsd', g, e, 1e-8, 1e-9 * (1 + np.nanmax(np.abs(e))))
    if c['step'] is None:
        g = P.cpsd_quasisync(a, b, n, 4., window=c['win'])
        e = S.cross(a, b, n, 4., c['win'])
        same('cpsd_quasisync', g, e, 1e-8, 1e-9 * (1 + np.nanmax(np.abs(e))))
    same('input a', a, a0, 0, 0)
    same('input b', b, b0, 0, 0)
    return np.round(np.nan_to_num(e), 3).tolist()


def cohere(c):
    a, b = S.signal(c['la'], c['pat']), S.signal(c['lb'], c['pat'], c['sb'])
    n = c['nfft']
    l = min(c['la'], c['lb'])
    if n > l:
        return None
    nens = 1 if l == n else int(2 * l // n)
    noise = {'0': (0, 0), 'one': .2, 'list1': [.2], 'two': (.2, .5), 'arr': np.array([.2, .5])}[c['noise']]
    nz = {'0': (0, 0), 'one': (.2, .2), 'list1': (.2, .2), 'two': (.2, .5), 'arr': (.2, .5)}[c['noise']]
    if nens <= 2:
        try:
            P.coherence(a, b, n, window=c['win'], debias=c['deb'], noise=noise)
        except Exception:
            return 'refused'
        raise Fail("coherence from %d windows" % nens)
    g = P.coherence(a, b, n, window=c['win'], debias=c['deb'], noise=noise)
    e = S.coherence(a, b, n, c['win'], c['deb'], nz)
    ok = np.abs(e) < 1e6
    same('coherence', g[ok], e[ok], 1e-6, 1e-6)
    if c['la'] == c['lb'] and c['noise'] == '0' and not c['deb'] and c['pat'] != 'gap':
        need((g <= 1 + 1e-9).all() and (g >= 0).all(), "coherence outside 0..1")
        same('coherence with itself', P.coherence(a, 2 * a, n, window=c['win'], debias=False), np.ones(n // 2), 1e-6)
    return np.round(np.nan_to_num(e[ok]), 3).tolist()


def phase_one(c):
    """A single window."""
    a, b = S.signal(c['l'], 'mix'), S.signal(c['l'], 'wave', 1)
    g = P.phase_angle(a, b, c['l'], window=c['win'])
    e = S.phase(a, b, c['l'], c['win'])[0]
    check_phase('phase', g, e, e, 1e-7)
    return c['l']


def check_phase(name, g, good, bad, tol):
    """A phase that is not defined (no amplitude at that frequency) may be anything."""
    ok = lambda e: (~(np.abs(g - e) > tol)).all() and (np.isnan(e) | ~np.isnan(g)).all()
    if ok(good):
        return
    if ok(bad):
        raise Fail("only the first window counts in the phase angle (a against a in the others)")
    raise Fail("%s: %s, expected %s" % (name, g.ravel()[:4], good.ravel()[:4]))


def phase_many(c):
    a, b = S.signal(c['l'], c['pat']), S.signal(c['l'], c['pat'], 1)
    if c['nfft'] > c['l']:
        return None
    good, bad = S.phase(a, b, c['nfft'], c['win'], c['step'])
    check_phase('phase', P.phase_angle(a, b, c['nfft'], window=c['win'], step=c['step']), good, bad, 1e-6)
    return 1


def sig(L, dims, pat, s=0, fs=4., dt='f8'):
    t = np.datetime64('2020-01-01', 'ns') + (np.arange(L) * int(1e9 / fs)).astype('timedelta64[ns]')
    if dims == 1:
        return xr.DataArray(S.signal(L, pat, s).astype(dt), dims=['time'], coords={'time': t})
    return xr.DataArray(np.stack([S.signal(L, pat, s + k) for k in range(3)]).astype(dt), dims=['dir', 'time'],
                        coords={'dir': ['X', 'Y', 'Z'], 'time': t})


def pairs(c, x, y, n, nfft, f, nout):
    n1 = len(x) * n // len(y)
    m = min(len(x) // n1, len(y) // n)
    return np.array([f(p, q) for p, q in list(zip(S.bins(x, n1, nfft), S.bins(y, n, nfft)))[:m]])


def binner(c, cls=VelBinner):
    n, k = c['n'], c['k']
    if c['over'] == 'n_bin':
        return cls(n + 5, 4., n_fft_coh=k), dict(n_bin=n)
    if c['over'] == 'n_fft':
        return cls(n, 4., n_fft_coh=max(3, k - 1)), dict(n_fft_coh=k)
    return cls(n, 4., n_fft_coh=k), {}


def velcoh(c):
    if c['k'] > c['n'] or c['n'] > c['L2'] or c['L2'] > c['L1']:
        return None
    if c['dims'] == 'mixed' and c['L1'] != c['L2']:
        return None
    d1, d2 = (3, 3) if c['dims'] == 3 else (1, 1)
    x, y = sig(c['L1'], d1, c['pat'], fs=4. * c['L1'] / c['L2']), sig(c['L2'], d2, c['pat'], 1)
    x0, y0 = x.copy(deep=True), y.copy(deep=True)
    b, kw = binner(c)
    n, k = c['n'], c['k']
    if c['what'] == 'coh':
        kw.update(debias=c['deb'], noise=(.1, .3) if c['deb'] else (0, 0), window=c['win'])
        g = b.calc_coh(x, y, **kw)
        f = lambda p, q: S.coherence(p, q, k, c['win'], c['deb'], kw['noise'])
        e = np.array([pairs(c, *v, n, k, f, k // 2) for v in zip(np.atleast_2d(x.values), np.atleast_2d(y.values))])
        e = e if d1 == 3 else e[0]
        ok = np.abs(e) < 1e4
        need(g.shape == e.shape, "shape %s, expected %s", g.shape, e.shape)
        same('coherence', g.values[ok], e[ok], 1e-3, 1e-4)
    else:
        g = b.calc_phase_angle(x, y, window=c['win'], **kw)
        both = [[pairs(c, *v, n, k, lambda p, q: S.phase(p, q, k, c['win'])[i], k // 2)
                 for v in zip(np.atleast_2d(x.values), np.atleast_2d(y.values))] for i in (0, 1)]
        both = [np.array(e if d1 == 3 else e[0]) for e in both]
        need(g.shape == both[0].shape, "shape %s, expected %s", g.shape, both[0].shape)
    need(g.dims == y.dims + ('f',), "dims %s", g.dims)
    same('f', g.f.values, S.freq(k, 4.), 1e-6)
    attr_same('f units', g.f.attrs['units'], 'Hz')
    same('time', g.time.values, TimeMean(y.time.values, n), 0, 2e-6)
    need(x0.identical(x) and y0.identical(y), "the inputs were changed")
    if c['what'] != 'coh':
        check_phase('phase', g.values, both[0], both[1], 1e-5)
        return 1
    return np.round(np.nan_to_num(e[ok]), 2).tolist()


def order(c):
    b = VelBinner(8, 4., n_fft_coh=4)
    try:
        (b.calc_coh if c['what'] == 'coh' else b.calc_phase_angle)(sig(24, 1, 'mix'), sig(32, 1, 'mix'))
    except Exception:
        return 1
    raise Fail("the first signal is the shorter one")


def csd(c):
    if c['k'] > c['n'] or c['n'] > c['L']:
        return None
    v = sig(c['L'], 3, c['pat'])
    v0 = v.copy(deep=True)
    b, kw = binner(c, ADVBinner)
    if c['fs']:
        kw['fs'] = c['fs']
    g = b.calc_csd(v, freq_units=c['units'], window=c['win'], **kw)
    fs = (c['fs'] or 4.) * (2 * np.pi if 'rad' in c['units'] else 1)
    e = np.array([[S.cross(p, q, c['k'], fs, c['win']) for p, q in zip(S.bins(v.values[i], c['n'], c['k']), S.bins(v.values[j], c['n'], c['k']))]
                  for i, j in ((0, 1), (0, 2), (1, 2))])
    same('csd', g.values, e, 1e-4, 1e-5 * (1 + np.nanmax(np.abs(e)) if np.isfinite(e).any() else 1))
    need(g.dims == ('C', 'time', 'coh_freq'), "dims %s", g.dims)
    same('C', g.C.values, np.array(['Cxy', 'Cxz', 'Cyz']))
    same('coh_freq', g.coh_freq.values, S.freq(c['k'], fs), 1e-5)
    same('time', g.time.values, TimeMean(v.time.values, c['n']), 0, 2e-6)
    attr_same('units', g.attrs['units'], 'm2 s-1 rad-1' if 'rad' in c['units'] else 'm2 s-2 Hz-1')
    attr_same('freq units', g.coh_freq.attrs['units'], 'rad s-1' if 'rad' in c['units'] else 'Hz')
    attr_same('n_fft_coh', g.attrs['n_fft_coh'], c['k'])
    need(v0.identical(v), "the velocity was changed")
    return np.round(np.nan_to_num(e), 2).tolist()


def base(c):
    """calc_csd_base of signals of different lengths."""
    x, y = S.signal(c['L1'], 'mix'), S.signal(c['L2'], 'wave', 1)
    if c['n'] > c['L2'] or c['L2'] > c['L1'] or c['k'] > c['n']:
        return None
    b, kw = binner(c)
    if 'n_fft_coh' in kw:
        kw = dict(n_fft=kw['n_fft_coh'])
    g = b.calc_csd_base(x, y, window=c['win'], **kw)
    e = pairs(c, x, y, c['n'], c['k'], lambda p, q: S.cross(p, q, c['k'], 4., c['win']), None)
    same('csd', g, e, 1e-6, 1e-8 * (1 + np.abs(e).max()))
    return np.round(e, 2).tolist()


def imaginary(c):
    """Velocities are real: complex ones are refused, whichever of the two it is."""
    la, lb = c['L']
    x, y = S.signal(la, 'mix'), S.signal(lb, 'wave', 1)
    x, y = [v.astype('c16') if w else v for v, w in zip((x, y), c['z'])]
    f = getattr(P, c['f'])
    try:
        f(x, y, 8, **({} if c['f'] == 'coherence' else dict(fs=4.)))
    except Exception:
        need(any(c['z']), "real signals are refused")
        return c['z']
    need(not any(c['z']), "a complex velocity is accepted")
    return c['z']


def run(ex):
    ls = ex.pick([5, 9, 16, 23], range(4, 34))
    ex.cases('cross', product(la=ls, lb=ls, nfft=ex.pick([3, 4, 5, 8], range(3, 17)), win=[None, 'hann', 'hamm'], pat=['mix', 'wave', 'gap'], sb=[0, 1],
                              step=ex.pick([None, 1, 4], [None, 1, 2, 3, 4, 7])), lambda c: cross(c) if c['step'] is None or c['la'] == c['lb'] else None,
             "two signals of every pair of lengths")
    ex.cases('coherence', product(la=ls, lb=ls, nfft=ex.pick([3, 4, 5, 8], range(3, 17)), win=[None, 'hann'], pat=['mix', 'wave', 'gap'], sb=[1],
                                  deb=[0, 1], noise=['0', 'one', 'list1', 'two', 'arr']), cohere, "coherence x noise levels x bias correction")
    ex.cases('phase_one', product(l=range(3, 40), win=[None, 'hann', 'hamm']), phase_one, "phase of one window")
    ex.cases('phase', product(l=[8, 13, 20], nfft=[4, 5, 8], win=['hann', None], pat=['mix', 'wave'], step=[None, 2, 30]), phase_many, "phase of several windows")
    # equal lengths for which the ratio of lengths rounds down
    ln = [(L, L, n) for L in range(8, 80) for n in range(8, 20) if n <= L and int(L / (L / n)) != n]
    ln = ln[::ex.pick(4, 1)] + [(24, 24, 8), (33, 33, 8), (30, 24, 8), (48, 24, 8), (25, 24, 12), (50, 33, 11), (20, 20, 10), (20, 19, 10), (30, 29, 10)]
    cs = [dict(L1=a, L2=b, n=n, k=k, dims=d, pat=p, win=w, over=o, what=q, deb=z) for a, b, n in ln for k in ex.pick((4, 7), (3, 4, 5, 7, 8))
          for d in (1, 3) for p in ('mix', 'gap') for w in ('hann', 1) for o in ('', 'n_bin', 'n_fft') for z in (0, 1) for q in ('coh',)]
    ex.cases('calc_coh', cs, velcoh, "binned coherence: lengths x settings")
    cs = [dict(c, what='phase') for c in cs if not c['deb']]
    ex.cases('calc_phase', cs, velcoh, "binned phase: lengths x settings")
    ex.cases('complex', [dict(f=f, L=L, z=z) for f in ('cpsd', 'cpsd_quasisync', 'coherence') for L in ((24, 24), (24, 36), (36, 24))
                         for z in ((0, 0), (0, 1), (1, 0), (1, 1)) if f != 'cpsd' or L[0] == L[1]], imaginary, "which of the two is complex")
    ex.cases('order', [dict(what=w) for w in ('coh', 'phase')], order, "a first signal shorter than the second")
    ex.cases('calc_csd', product(L=[8, 25, 40], n=ex.pick([8, 10], range(4, 16)), k=ex.pick([4, 5, 8], range(3, 13)), pat=['mix', 'gap', 'trend'],
                                 over=['', 'n_bin', 'n_fft'], units=['Hz', 'rad/s'], win=['hann', 'hamm', 1], fs=[None, 9.]), csd,
             "binned cross-spectra: every override x units x window")
    ex.cases('csd_base', [dict(L1=a, L2=b, n=n, k=k, win=w, over=o) for a, b, n in ln for k in (4, 7) for w in ('hann', None) for o in ('', 'n_bin', 'n_fft')],
             base, "cross-spectra of signals of different lengths")
    ex.assume("n_fft >= 3")
