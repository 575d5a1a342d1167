"""C27  Power spectra: averaged periodograms of the detrended, windowed record."""
import itertools
import warnings
import numpy as np
import xarray as xr
import dolfyn
from dolfyn.tools import psd as P
from dolfyn.velocity import VelBinner
from .. import spec_ref as S
from ..core import need, product, Fail
from ..util import same, attr_same

LEVEL = "exploration"


def win(c, n):
    return {'ramp': np.linspace(.2, 1, n)}.get(c['win'], c['win']) if isinstance(c['win'], str) else c['win']


def periodogram(c):
    a = S.signal(c['l'], c['pat']).astype(c['dt'])
    b0 = a.copy()
    n = c['nfft']
    if n > c['l'] or (c['win'] == 'ramp' and n > c['l']):
        return None
    w = win(c, n)
    st = None if c['step'] is None else max(1, int(c['step'] * n))
    g = P.psd(a, n, c['fs'], window=w, step=st)
    e = S.psd(a, n, c['fs'], w, st)
    sc = np.nanmax(np.abs(e)) if np.isfinite(e).any() else 1
    same('psd', g, e, 2e-4 if c['dt'] == 'f4' else 1e-8, (1e-4 if c['dt'] == 'f4' else 1e-9) * sc)
    same('input', a, b0, 0, 0)
    return np.round(np.nan_to_num(e), 3).tolist()


def short(c):
    """A record shorter than the fft."""
    a = S.signal(c['l'], 'mix')
    same('psd', P.psd(a, c['nfft'], 4., window=c['win']), S.psd(a, c['l'], 4., c['win']), 1e-8, 1e-9)
    return 1


def freqs(c):
    n, fs = c['n'], c['fs']
    same('psd_freq', P.psd_freq(n, fs), S.freq(n, fs), 1e-12, 0)
    b = VelBinner(max(n, c['nb']), fs, n_fft=n, n_fft_coh=max(2, n - 1))
    for units, k in (('Hz', 1.), ('rad/s', 2 * np.pi), ('rad s-1', 2 * np.pi)):
        same('f', b.calc_freq(units=units), S.freq(n, fs) * k, 1e-9, 0)
        same('f coh', b.calc_freq(units=units, coh=True), S.freq(max(2, n - 1), fs) * k, 1e-9, 0)
        same('f n_fft', b.calc_freq(units=units, n_fft=n + 2), S.freq(n + 2, fs) * k, 1e-9, 0)
        same('f fs', b.calc_freq(fs=7, units=units), S.freq(n, 7) * k, 1e-9, 0)
    try:
        b.calc_freq(units='m')
    except Exception:
        return n // 2
    raise Fail("frequency unit 'm' accepted")


def vel(c, dt='f4'):
    L = c['L']
    t = np.datetime64('2020-01-01', 'ns') + (np.arange(L) * 250000000).astype('timedelta64[ns]')
    if c['dims'] == 1:
        return xr.DataArray(S.signal(L, c['pat']).astype(dt), dims=[c['tn']], coords={c['tn']: t})
    return xr.DataArray(np.stack([S.signal(L, c['pat'], k) for k in range(3)]).astype(dt), dims=['dir', 'time'],
                        coords={'dir': ['X', 'Y', 'Z'], 'time': t})


def expect(da, n, nfft, pad, fs, w, step, noise):
    v = np.atleast_2d(da.values)
    out = []
    for k in range(len(v)):
        p = np.array([S.psd(x, nfft, fs, w, step) for x in S.bins(v[k], n, pad)])
        if noise[k]:
            p = p - noise[k] ** 2 * 2 / fs
            p[p < 0] = np.nanmin(np.abs(p)) / 100 if np.isfinite(p).any() else 0
        out.append(p)
    return np.array(out if da.ndim > 1 else out[0])


def calc(c):
    da = vel(c)
    k0 = da.copy(deep=True)
    n, nfft = c['n'], c['nfft']
    if nfft > n or n > c['L']:
        return None
    if c['over'] == 'n_bin':
        b, kw = VelBinner(n + 3, 4., n_fft=nfft), dict(n_bin=n)
    elif c['over'] == 'n_fft':
        b, kw = VelBinner(n, 4., n_fft=max(3, nfft - 1)), dict(n_fft=nfft)
    elif c['over'] == 'fs':
        b, kw = VelBinner(n, 9., n_fft=nfft), dict(fs=4.)
    else:
        b, kw = VelBinner(n, 4., n_fft=nfft), {}
    pad = min(n - nfft, nfft)
    if c['pad'] is not None:
        pad = kw['n_pad'] = c['pad']
    if c['step']:
        kw['step'] = c['step']
    noise = [0, 0, 0] if not c['noise'] else [.5, .8, .1]
    if c['noise']:
        kw['noise'] = .5 if c['dims'] == 1 else (xr.DataArray(np.array(noise), dims=['S']) if c['noise'] == 'da' else noise)
        if c['dims'] == 1 and c['noise'] == 'da':
            kw['noise'] = xr.DataArray(.5)
    fs = 4. * (2 * np.pi if 'rad' in c['units'] else 1)
    g = b.calc_psd(da, freq_units=c['units'], window=c['win'], **kw)
    e = expect(da, n, nfft, pad, fs, c['win'], c['step'], noise)
    sc = np.nanmax(np.abs(e)) if np.isfinite(e).any() else 1
    same('psd', g.values, e, 1e-3, 1e-5 * sc)
    need(g.dtype == np.float32, "dtype")
    need(g.dims == (('S',) if c['dims'] == 3 else ()) + (da.dims[-1], 'freq'), "dims %s", g.dims)
    same('freq', g.freq.values, S.freq(nfft, fs), 1e-5, 0)
    same('time', g[da.dims[-1]].values, TimeMean(da[da.dims[-1]].values, n), 0, 2e-6)
    if c['dims'] == 3:
        same('S', g.S.values, np.array(['Sxx', 'Syy', 'Szz']))
    attr_same('n_fft', g.attrs['n_fft'], nfft)
    attr_same('units', g.attrs['units'], 'm2 s-1 rad-1' if 'rad' in c['units'] else 'm2 s-2 Hz-1')
    attr_same('freq units', g.freq.attrs['units'], 'rad s-1' if 'rad' in c['units'] else 'Hz')
    if c['noise']:
        need(not (g.values < 0).any(), "a negative spectral density")
    need(k0.identical(da), "the velocity was changed")
    return np.round(np.nan_to_num(e), 2).tolist()


def TimeMean(t, n):
    m = len(t) // n
    i = t.astype('datetime64[ns]').astype('int64')
    return np.array([i[0] + int(round(float((i[k * n:(k + 1) * n] - i[0]).mean()))) for k in range(m)]).astype('datetime64[ns]')


def variance(c):
    """Boxcar spectra hold the variance about the straight line of each bin."""
    n = c['n']
    a = S.signal(3 * n, c['pat'])
    g = VelBinner(n, c['fs']).calc_psd(xr.DataArray(a, dims=['time'], coords={'time': np.arange(3 * n).astype('datetime64[s]').astype('datetime64[ns]')}),
                                       freq_units=c['units'], window=1)
    w = np.ones(n // 2)
    if n % 2 == 0:
        w[-1] = .5
    got = (g.values * w).sum(-1) * float(g.freq.values[0])
    x = np.arange(n) - (n - 1) / 2
    e = []
    for i in range(3):
        y = a[i * n:(i + 1) * n]
        y = y - y.mean() - (x * y).sum() / (x ** 2).sum() * x
        e.append((y ** 2).mean())
    same('variance', got, e, 1e-3, 1e-4)
    return np.round(e, 2).tolist()


def refuse(c):
    da = vel(dict(L=24, dims=c['dims'], pat='mix', tn='time'))
    b = VelBinner(8, 4.)
    w = c['what']
    kw = {}
    if w == 'units':
        kw['freq_units'] = 'm'
    elif w == 'noise':
        kw['noise'] = [.1, .1] if c['dims'] == 1 else .1
    elif w == 'rows':
        if c['dims'] == 1:
            return None
        da = da.isel(dir=[0, 1])
    elif w == 'window':
        kw['window'] = 'kaiser'
    try:
        b.calc_psd(da, **kw)
    except Exception:
        return w
    raise Fail("accepted")


def settings(c):
    """n_fft never exceeds n_bin."""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        b = VelBinner(c['n'], 4., n_fft=c['f'], n_fft_coh=c['k'])
        f = min(c['f'] or c['n'], c['n'])
        k = min(c['k'] or f, c['n'])
        need(b.n_fft == f and b.n_fft_coh == k, "n_fft %s n_fft_coh %s, expected %s %s", b.n_fft, b.n_fft_coh, f, k)
        if c['o']:
            da = vel(dict(L=3 * c['n'], dims=1, pat='mix', tn='time'))
            g = b.calc_psd(da, freq_units='Hz', n_fft=c['o'])
            o = min(c['o'], c['n'])
            same('freq', g.freq.values, S.freq(o, 4.), 1e-6)
            e = expect(da, c['n'], o, min(c['n'] - o, o), 4., 'hann', None, [0])
            same('psd', g.values, e, 1e-3, 1e-5 * np.abs(e).max())
    return (f, k)


def run(ex):
    wins = [None, 1, 'hann', 'hamm', 'ramp']
    ex.cases('periodogram', product(l=ex.pick([3, 5, 8, 11, 16, 23, 31], range(3, 50)), nfft=ex.pick([3, 4, 5, 6, 7, 8, 11], range(3, 26)), win=wins,
                                    pat=['wave', 'trend', 'mix', 'gap', 'big'], step=[None, .5, 1, 2, .1], dt=['f8', 'f4'], fs=[1., 4.]),
             periodogram, "record length x fft size x window x values x overlap")
    ex.cases('short', product(l=range(3, 12), nfft=[13, 20], win=[None, 'hann', 'hamm']), short, "records shorter than the fft")
    ex.cases('frequencies', product(n=ex.pick(range(2, 40), range(2, 300)), fs=[1., 4, 32., 12.5], nb=[0, 50]), freqs, "fft size x rate x units")
    ex.cases('calc_psd', product(L=ex.pick([8, 25], [4, 8, 13, 24, 37]), n=ex.pick([4, 7, 8], range(3, 14)), nfft=ex.pick([3, 4, 8], range(3, 14)), dims=[1, 3],
                                 pat=ex.pick(['mix', 'gap'], ['mix', 'gap', 'trend']), tn=['time', 'time_b5'], over=['', 'n_bin', 'n_fft', 'fs'], units=['Hz', 'rad/s'],
                                 win=ex.pick(['hann', 1], ['hann', 'hamm', 1]), noise=[0, 'list', 'da'], pad=[None, 0, 2], step=ex.pick([None], [None, 2])),
             lambda c: calc(c) if c['dims'] == 1 or c['tn'] == 'time' else None,
             "binned spectra: every override x units x window x noise x padding")
    ex.cases('overlap', product(L=[40], n=[16, 20], nfft=[5, 8], dims=[1, 3], pat=['mix'], tn=['time'], over=['', 'n_bin'], units=['Hz'], win=['hann'],
                                noise=[0], pad=[None, 3], step=[1, 2, 3, 5, 8, 11]), calc, "overlap of the windows")
    ex.cases('variance', product(n=ex.pick(range(3, 24), range(3, 100)), pat=['mix', 'wave', 'trend'], units=['Hz', 'rad/s'], fs=[1., 4., 32.]), variance,
             "integral of the spectrum")
    ex.cases('refuse', product(dims=[1, 3], what=['units', 'noise', 'rows', 'window']), refuse, "unusable requests")
    ex.cases('settings', product(n=[6, 9], f=[None, 4, 9, 12], k=[None, 3, 9, 15], o=[None, 4, 8, 20]), settings, "fft sizes larger than the bin")
    ex.assume("a Nyquist term is doubled like the other frequencies; n_fft >= 3")
