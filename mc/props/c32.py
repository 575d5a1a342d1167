"""C32  Dissipation rates, noise floor, spectral slope, integral scale."""
import warnings
import numpy as np
import xarray as xr
from dolfyn.adp.turbulence import ADPBinner
from dolfyn.adv.turbulence import ADVBinner
from .. import dsets as D
from .. import spec_ref as S
from ..core import need, product, Fail
from ..util import same, attr_same, quiet
from .c27 import TimeMean
from .c31 import DT, grid
from .c30 import mean

LEVEL = "exploration"
FS = 8.
EPS = np.array([1e-6, 3e-4, 2e-5, 5e-3])
U = np.array([1.3, .2, 2.5, .7])


def spectrum(c, comps, noise, m=3):
    """psd (comps, time, freq) of chosen dissipation: 0.5 eps^2/3 f^-5/3 (U/2pi)^2/3 + noise level."""
    f = S.freq(32, FS)
    rad = c['units'] == 'rad'
    if rad:
        f = f * 2 * np.pi
    u = U[:m] if rad else U[:m] / (2 * np.pi)
    e = np.stack([np.roll(EPS, k)[:m] * (1 + k) for k in range(comps)])
    s = .5 * e[..., None] ** (2 / 3) * f ** (-5 / 3) * u[:, None] ** (2 / 3)
    if c['rip']:
        s = s * (1 + .3 * np.cos(np.arange(f.size) + np.arange(m)[:, None]))
    level = np.asarray(noise) ** 2 / (np.pi * FS if rad else FS / 2)
    t = np.datetime64('2020-01-01', 'ns') + np.arange(m) * DT * 32
    p = xr.DataArray(s + (level[..., None] if level.ndim else level), dims=['S', 'time', 'freq'],
                     coords={'S': ['Sxx', 'Syy', 'Szz'][:comps], 'time': t, 'freq': f})
    p.freq.attrs['units'] = 'rad s-1' if rad else 'Hz'
    return p, s, f, u, xr.DataArray(U[:m], dims=['time'], coords={'time': t}), e


def lt83(c):
    """ADV: any number of components; noise as number, list or array."""
    comps = 3 if c['nd'] == 3 else 1
    m = 3 if comps == 3 or c['m'] == 3 else c['m']
    nz = {'0': 0., 'num': .004, 'list': [.002, .004, .006], 'arr': np.array([.002, .004, .006]),
          'da': np.arange(1, 3 * m + 1).reshape(3, m) * .001}[c['noise']]
    if c['noise'] in ('list', 'arr', 'da') and comps == 1:
        return None
    lev = np.asarray(nz)
    lev = lev[:, None] if lev.ndim == 1 else lev
    p, s, f, u, um, e = spectrum(c, comps, lev, m)
    noise = None if c['noise'] == '0' else xr.DataArray(nz, dims=['S', 'time'], coords={'S': p.S, 'time': p.time}) if c['noise'] == 'da' else nz
    p = p if comps == 3 else p[0]
    p0, u0 = p.copy(deep=True), um.copy(deep=True)
    fr = np.array(c['fr']) * (2 * np.pi if c['units'] == 'rad' else 1)
    kw = {} if c['dflt'] else dict(freq_range=list(fr))
    if c['dflt']:
        fr = [6.28, 12.57]
    g = ADVBinner(32, FS).calc_epsilon_LT83(p, um, noise=noise, **kw)
    i = (fr[0] < f) & (f < fr[1])
    def ref(s):
        x = (np.mean(s[..., i] * f[i] ** (5 / 3), -1) / .5) ** 1.5 / u
        return x if comps == 3 else x[0]
    x = ref(s)
    if not c['rip']:
        same('reference (harness)', x, e if comps == 3 else e[0], 1e-6, 0)
    need(g.dims == p.dims[:-1], "dims %s", g.dims)
    same('time', g.time.values, p.time.values)
    attr_same('units', g.attrs['units'], 'm2 s-3')
    need(p.identical(p0) and um.identical(u0), "inputs were changed")
    try:
        same('epsilon', g.values, x, 1e-4, 0)
    except Fail:
        if c['units'] == 'rad' and c['noise'] != '0':
            q = s + (lev[..., None] if lev.ndim else lev) ** 2 * (1 / (np.pi * FS) - 2 / FS)
            q = np.where(q > 0, q, np.abs(q).min() / 100)
            same('epsilon', g.values, ref(q), 1e-4, 0)
            raise Fail("the noise level in Hz was subtracted from spectra in rad/s")
        raise
    return ['%.3g' % v for v in x.ravel()]


def lt83_adp(c):
    nz = {'0': 0., 'num': .004, 'arr': np.array([.002, .004, .006]), 'list': np.array([.002, .004, .006]),
          'da': np.array([.002, .004, .006])}[c['noise']]
    p, s, f, u, um, e = spectrum(c, 1, nz)
    p, s = p[0].drop_vars('S'), s[0]
    noise = {'0': None, 'da': xr.DataArray(nz, dims=['time'], coords={'time': p.time}), 'list': [.002, .004, .006]}.get(c['noise'], nz)
    p0, u0 = p.copy(deep=True), um.copy(deep=True)
    fr = np.array(c['fr']) * (2 * np.pi if c['units'] == 'rad' else 1)
    kw = {} if c['dflt'] else dict(freq_range=list(fr))
    if c['dflt']:
        fr = [.2, .4]
        p['freq'] = p.freq / 10
        p.freq.attrs.update(p0.freq.attrs)
        f = f / 10
        p0 = p.copy(deep=True)
    g = ADPBinner(32, FS).calc_dissipation_LT83(p, um, noise=noise, **kw)
    i = (fr[0] < f) & (f < fr[1])
    need(i.any() or c['dflt'], "harness")
    if not i.any():
        return None
    x = (np.mean(s[..., i] * f[i] ** (5 / 3), -1) / .5) ** 1.5 / u
    same('dissipation rate', g.values, x, 1e-4, 0)
    need(g.dims == ('time',), "dims %s", g.dims)
    same('time', g.time.values, p.time.values)
    attr_same('units', g.attrs['units'], 'm2 s-3')
    need(p.identical(p0) and um.identical(u0), "inputs were changed")
    return ['%.3g' % v for v in x.ravel()]


def negative(c):
    """Noise above the spectrum never gives a negative or missing rate."""
    p, s, f, u, um, e = spectrum(dict(units=c['units'], rip=1), 3, 0.)
    no = np.array([.1, .01, 1.]) * c['amp']
    if c['inst'] == 'adv':
        g = ADVBinner(32, FS).calc_epsilon_LT83(p, um, freq_range=[.6, 3.], noise=xr.DataArray(no, dims=['S']))
    else:
        g = ADPBinner(32, FS).calc_dissipation_LT83(p[0], um, freq_range=[.6, 3.], noise=no)
    need(np.isfinite(g.values).all() and (g.values >= 0).all(), "rates %s", g.values)
    return np.isfinite(g.values).tolist()


def lt83_missing(c):
    """A bin without a spectrum has no rate; the others have theirs."""
    adv = c['inst'] == 'adv'
    p, s, f, u, um, e = spectrum(dict(units='Hz', rip=0), 3 if adv else 1, c['noise'] or 0.)
    if not adv or c['nd'] == 1:
        p, e = p[0].drop_vars('S'), e[0]
    lost = np.zeros(e.shape, bool)
    for k in c['lost']:
        lost[(0, k) if c.get('comp') and lost.ndim == 2 else (Ellipsis, k)] = True
    p.values[lost] = np.nan
    if c['speed'] is not None:
        um = um.copy(deep=True)
        um.values[c['speed']] = np.nan
        lost[..., c['speed']] = True
    m = ADVBinner(32, FS).calc_epsilon_LT83 if adv else ADPBinner(32, FS).calc_dissipation_LT83
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        g = m(p, um, freq_range=[.6, 3.], noise=c['noise'])
    same('rate', g.values, np.where(lost, np.nan, e), 1e-4, 0)
    return np.isnan(g.values).tolist()


def sf_adv(c):
    fs = c['fs']
    x = S.signal(c['L'], c['pat'])
    if c['pat'] == 'mix':
        x = x * .01
    t = np.datetime64('2020-01-01', 'ns') + np.arange(c['L']) * DT
    v = xr.DataArray(x, dims=['time'], coords={'time': t})
    m = c['L'] // c['n']
    um = xr.DataArray(U[:m], dims=['time'], coords={'time': TimeMean(t, c['n'])})
    v0 = v.copy(deep=True)
    b, kw = ADVBinner(c['n'], fs), {}
    if c['by'] == 'arg':
        b, kw = ADVBinner(c['n'], fs * 3), dict(fs=fs)
    fr = [2., 4.]
    if c['fr']:
        fr = kw['freq_range'] = c['fr']
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        g = b.calc_epsilon_SF(v, um, **kw)
    e = []
    for i in range(m):
        y = x[i * c['n']:(i + 1) * c['n']]
        r = [mean((y[k:] - y[:-k]) ** 2) / (U[i] * k / fs) ** (2 / 3) for k in range(int(fs / fr[1]), int(fs / fr[0]))]
        r = [q for q in r if not np.isnan(q)]
        e.append((np.median(r) / 2.1) ** 1.5)
    same('epsilon', g.values, e, 1e-4, 0)
    need(g.dims == ('time',), "dims %s", g.dims)
    same('time', g.time.values, um.time.values)
    attr_same('units', g.attrs['units'], 'm2 s-3')
    need(v.identical(v0), "the velocity was changed")
    return ['%.4g' % q for q in e]


def te01(c):
    L, n = 3 * c['n'] + 5, c['n']
    ds = D.get('vector', n=9, fs=2).isel(time=np.arange(L) % 6).copy(deep=True)
    ds['time'] = np.datetime64('2020-01-01', 'ns') + np.arange(L) * DT / 2
    ds.attrs['fs'] = FS
    x = np.stack([S.signal(L, 'wave', 0) * .1, S.signal(L, 'mix', 1) * .03, S.signal(L, 'mix', 2) * .01])
    w = np.radians(c['dir'])
    x[0], x[1] = np.cos(w) * x[0] - np.sin(w) * x[1], np.sin(w) * x[0] + np.cos(w) * x[1]
    x[0] += c['u'] * np.cos(np.radians(c['mean']))
    x[1] += c['u'] * np.sin(np.radians(c['mean']))
    ds['vel'] = ds.vel.astype('float64')
    ds['vel'].values = x
    b = ADVBinner(n, FS, n_fft=n)
    avg = b(ds, freq_units='rad/s' if c['units'] == 'rad' else 'Hz')
    r0, a0 = ds.copy(deep=True), avg.copy(deep=True)
    fr = [1.2, 3.1] if c['units'] == 'Hz' else [7.5, 19.5]
    g = b.calc_epsilon_TE01(ds, avg, freq_range=fr)
    need(ds.identical(r0) and avg.identical(a0), "inputs were changed")
    e = []
    f = avg.psd.freq.values.astype(float)
    i = (fr[0] < f) & (f < fr[1])
    X = np.arange(-12, 12, 2e-3)
    for k in range(3):
        y = x[:2, k * n:(k + 1) * n]
        um = np.hypot(*y.mean(1))
        q = sum(mean((z - np.polyval(np.polyfit(np.arange(n), z, 1), np.arange(n))) ** 2) for z in x[:, k * n:(k + 1) * n])
        beta = np.sqrt(q) / um                          # sqrt(2 tke) / U, tke = half the sum of the variances
        z = y[0] + 1j * y[1]
        z = z - z.mean()
        z = np.where(z.imag <= 0, -z, z)
        th = np.arctan2(y[1].mean(), y[0].mean()) - np.angle(z.mean())
        # [U/sigma]^2-scaled integrand: (x^2 - 2 x cos(th)/beta + 1/beta^2)^(1/3)
        h = np.cbrt(X ** 2 - 2 / beta * np.cos(th) * X + beta ** -2) * np.exp(-.5 * X ** 2)
        I = h.sum() * 2e-3 / np.sqrt(2 * np.pi) * beta ** (2 / 3)
        s = avg.psd.values[:, k].astype(float)
        c1 = np.mean((s[0] + s[1])[i] * f[i] ** (5 / 3))
        c2 = np.mean(s[2][i] * f[i] ** (5 / 3))
        uu = um if c['units'] == 'rad' else um / (2 * np.pi)
        e.append(.5 * ((c1 / (21 / 55 * 1.5 * I)) ** 1.5 + (c2 / (12 / 55 * 1.5 * I)) ** 1.5) / uu)
    same('epsilon', g.values, e, 2e-3, 0)
    need(g.dims == ('time',), "dims")
    same('time', g.time.values, avg.time.values)
    attr_same('units', g.attrs['units'], 'm2 s-3')
    return ['%.3g' % q for q in e]


def lint(c):
    fs, m, nl = 4., 3, 12
    k = np.arange(nl)
    rows = []
    for j in range(3):
        a = np.stack([np.exp(-k / T) for T in (c['T'], c['T'] * 2, 40.)])
        if c['shape'] == 'osc':
            a = a * np.cos(k * .5 * (1 + j))
        if c['shape'] == 'step':
            a = np.where(k < c['T'] + j, 1., .1) * np.ones((3, 1))
        rows.append(a * (j + 1) * .3)
    a = np.array(rows)
    t = np.datetime64('2020-01-01', 'ns') + np.arange(m) * DT
    ac = xr.DataArray(a, dims=['dir', 'time', 'lag'], coords={'dir': ['X', 'Y', 'Z'], 'time': t, 'lag': k})
    um = xr.DataArray(U[:m], dims=['time'], coords={'time': t})
    a0 = ac.copy(deep=True)
    g = ADVBinner(32, fs if c['by'] == 'obj' else 16.).calc_L_int(ac, um, **({} if c['by'] == 'obj' else dict(fs=fs)))
    e = np.zeros((3, m))
    for j in range(3):
        for i in range(m):
            low = [q for q in k if a[j, i, q] / a[j, i, 0] <= 1 / np.e]
            e[j, i] = U[i] / fs * (low[0] if low else 0)
    same('integral scale', g.values, e, 1e-5, 0)
    need(g.dims == ('dir', 'time'), "dims %s", g.dims)
    same('time', g.time.values, t)
    attr_same('units', g.attrs['units'], 'm')
    need(ac.identical(a0), "input changed")
    return np.round(e, 3).tolist()


def doppler(c):
    p, s, f, u, um, e = spectrum(dict(units=c['units'], rip=1), 3, .05)
    k = np.radians(0) if c['units'] == 'Hz' else 0
    if c['white']:
        p.values[...] = np.array([1e-4, 3e-3, .2])[:, None, None]
    p.values[...] = p.values * (1 + np.arange(3)[:, None])
    p0 = p.copy(deep=True)
    kw = {} if c['pct'] is None else dict(pct_fN=c['pct'])
    pct = c['pct'] or .8
    if c['inst'] == 'adv':
        g = ADVBinner(32, FS).calc_doppler_noise(p, **kw)
        need(g.dims == ('S', 'time'), "dims %s", g.dims)
        x = p.values
    else:
        q = p[1].drop_vars('S')
        if c['inst'] == 'adp5':
            q = q.rename(time='time_b5')
        g = ADPBinner(32, FS).calc_doppler_noise(q, **kw)
        need(g.dims == q.dims[:1], "dims %s", g.dims)
        same('time', g[q.dims[0]].values, p.time.values)
        x = q.values
    fn = FS / 2 * (2 * np.pi if c['units'] == 'rad' else 1)
    i = (f >= pct * fn * (1 - 1e-9)) & (f <= fn * (1 + 1e-6))
    e = np.sqrt(np.mean(x[..., i] * f[i], -1))
    same('noise', g.values, e, 1e-5, 0)
    need(p.identical(p0), "input changed")
    return ['%.4g' % v for v in e.ravel()]


def slope(c):
    f = S.freq(40, FS)
    m = c['m']
    b = np.array([-3., .5, 1.])
    s = 10 ** b[:, None] * f ** m
    if c['rip']:
        s = s * (1 + .4 * np.cos(np.arange(f.size) * (1 + np.arange(3)[:, None])))
    s = {1: s[0], 2: s, 3: np.stack([s, 2 * s])}[c['nd']]
    p = xr.DataArray(s, dims=['range', 'time', 'freq'][3 - c['nd']:], coords={'freq': f})
    p0 = p.copy(deep=True)
    fr = c['fr']
    kw = {} if fr is None else dict(freq_range=fr)
    B = {'adv': ADVBinner, 'adp': ADPBinner}[c['inst']](40, FS)
    if fr is None:
        fr = [6.28, 12.57] if c['inst'] == 'adv' else [.2, .4]
        p['freq'] = f * (3.3 if c['inst'] == 'adv' else .11)
        f = p.freq.values
        p0 = p.copy(deep=True)
    g = B.check_turbulence_cascade_slope(p, **kw)
    i = (fr[0] < f) & (f < fr[1])
    x = np.log10(f[i])
    e = np.array([np.polyfit(x, np.log10(r[i]), 1) for r in s.reshape(-1, f.size)])
    same('slope', g[0].values, e[:, 0].reshape(s.shape[:-1]), 1e-6, 1e-8)
    same('intercept', g[1].values, e[:, 1].reshape(s.shape[:-1]), 1e-6, 1e-8)
    need(p.identical(p0), "input changed")
    return np.round(e, 4).tolist()


def sf_adp(c):
    nr, L, n, dx = c['nr'], c['L'], c['n'], c['dx']
    v = grid(L, nr, c['pat'], dx, z0=.3 + dx)[0].drop_vars('dir')
    v.values[:] *= .05
    if c['gap'] == 'top':
        v.values[-2:, :] = np.nan
    elif c['gap'] == 'spot':
        v.values[2, ::3] = np.nan
    elif c['gap'] == 'ens':
        v.values[3, :n] = np.nan
    t, r0 = v.time.values, v.range.values
    if c['b5']:
        v = v.rename(time='time_b5', range='range_b5')
    v0 = v.copy(deep=True)
    R = [c['lo'] * dx, c['hi'] * dx]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        eps, no, d = ADPBinner(n, 4.).calc_dissipation_SF(v, r_range=R)
    need(v.identical(v0), "the velocity was changed")
    m = L // n
    x = v.values[:, :m * n].reshape(nr, m, n)
    x = x - np.array([[mean(q) for q in y] for y in x])[..., None]
    rs = d.range_SF.values
    same('separations', rs[:c['hi']], dx * np.arange(1, c['hi'] + 1), 1e-9, 1e-9)
    need(len(rs) in (c['hi'], c['hi'] + 1), "%d separations", len(rs))
    e = np.full((nr, len(rs), m), np.nan)
    for z in range(nr):
        for j in range(len(rs)):
            if z - (j + 1) >= 0:
                for i in range(m):
                    e[z, j, i] = mean((x[z, i] - x[z - j - 1, i]) ** 2)
    dims = v.dims
    need(d.dims == (dims[0], 'range_SF', dims[1]) and eps.dims == dims and no.dims == dims, "dims %s %s %s", d.dims, eps.dims, no.dims)
    same('structure function', d.values, e, 1e-5, 1e-7)
    for q in (eps, no, d):
        same('range', q[dims[0]].values, r0)
        same('time', q[dims[1]].values, TimeMean(t, n), 0, 2e-6)
    attr_same('units', eps.attrs['units'], 'm2 s-3')

    if not c.get('fit'):
        need(np.isnan(eps.values[:len(rs)]).all() and np.isnan(no.values[:len(rs)]).all(), "cells without all separations have a rate")
        return np.round(np.nan_to_num(e), 3).tolist()

    def fit(xs, lo):
        a, b = np.full((nr, m), np.nan), np.full((nr, m), np.nan)
        for z in range(len(rs), nr):
            for i in range(m):
                y = e[z, lo:, i]
                if not np.isnan(y).any() and len(y) > 1:
                    a[z, i], b[z, i] = np.polyfit(xs[lo:], y, 1)
        with np.errstate(all='ignore'):
            return (a / 2.1) ** 1.5, np.sqrt(b / 2)
    good = fit(rs ** (2 / 3), c['lo'] - 1)
    code = fit(rs ** 2 / 3, c['lo'])

    def eq(w):
        # tiny negative slopes/offsets: the sign is rounding
        for nm, g, r in (('dissipation rate', eps.values, w[0]), ('noise', no.values, w[1])):
            same(nm, g, r, 2e-3, 1e-7)
    try:
        eq(good)
    except Fail as f1:
        try:
            eq(code)
        except Fail:
            raise f1
        raise Fail("fitted against r**2/3 instead of r**(2/3), without the lowest separation")
    return np.round(np.nan_to_num(e), 3).tolist()


def run(ex):
    q = ex.tier == 'quick'
    FR = [[.5, 2.], [.3, 3.9], [1.1, 1.9]]
    base = list(product(units=['Hz', 'rad'], rip=[0, 1], nd=[3, 2], m=[3, 1] if q else [3, 1, 2], fr=FR, dflt=[0, 1],
                        noise=['0', 'num', 'list', 'arr', 'da']))
    ex.cases('lt83_adv', [c for c in base if not (c['dflt'] and c['fr'] != FR[0]) and not (c['dflt'] and c['units'] == 'Hz') and
                          (c['units'] == 'Hz' or c['noise'] == '0')], lt83,
             "inertial-range spectra of known dissipation: units x components x frequency range x noise form")
    ex.cases('lt83_adv_rad_noise', [c for c in base if not (c['dflt'] and c['fr'] != FR[0]) and c['units'] == 'rad' and c['noise'] != '0'],
             lt83, "as above, spectra in rad/s with noise")
    ex.cases('lt83_adp', [c for c in product(units=['Hz', 'rad'], rip=[0, 1], fr=FR, dflt=[0, 1], noise=['0', 'num', 'list', 'arr', 'da'])
                          if not (c['dflt'] and c['fr'] != FR[0])], lt83_adp, "ADCP spectra of known dissipation")
    ex.cases('lt83_missing', [dict(inst=i, nd=n, noise=z, lost=list(l), comp=k, speed=v) for i, n in (('adv', 3), ('adv', 1), ('adp', 1)) for z in (None, 0., .004)
                              for l in ((), (0,), (1,), (2,), (0, 2), (0, 1, 2)) for k in (0, 1) for v in (None, 1)], lt83_missing, "bins without a spectrum or a speed")
    ex.cases('negative', list(product(units=['Hz', 'rad'], inst=['adv', 'adp'], amp=[.01, .1, 1, 10])), negative, "noise above the spectrum")
    ex.cases('sf_adv', list(product(L=[64, 70], n=[16, 32], fs=[16., 10.], pat=['mix', 'wave', 'gap'], by=['obj', 'arg'],
                                    fr=[None, [1., 8.], [1.5, 5.]])), sf_adv, "ADV structure function: bins x rates x ranges")
    ex.cases('te01', list(product(n=[16, 32] if q else [16, 31, 32, 64], units=['rad', 'Hz'], dir=[0, 40, 115], mean=[0, 75, 200, -100],
                                  u=[1., .3])), te01, "TE01: spectra units x direction of the mean flow x direction of the fluctuations")
    ex.cases('l_int', list(product(shape=['exp', 'osc', 'step'], T=[.5, 1, 2, 3.5, 6], by=['obj', 'arg'])), lint, "integral scale")
    ex.cases('doppler', list(product(inst=['adv', 'adp', 'adp5'], units=['Hz', 'rad'], pct=[None, .5, .9], white=[0, 1])), doppler, "noise floor")
    ex.cases('slope', list(product(inst=['adv', 'adp'], nd=[1, 2, 3], m=[-5 / 3, -1., .5], rip=[0, 1], fr=[None, [.3, 2.], [1., 3.9]])), slope,
             "spectral slope")
    F = list(product(nr=ex.pick([7, 10], [7, 10, 14]), L=[24, 26], n=[8, 12], dx=[.5, 1., .1, .7, .3], lo=[1, 2], hi=[4, 5], b5=[0, 1],
                     pat=['mix', 'wave'], gap=['', 'top', 'spot', 'ens']))
    ex.cases('sf_short', list(product(nr=[2, 3, 5, 7], L=[24, 26], n=[8], dx=[.5, .7], lo=[1, 2], hi=[5, 6, 7, 8, 11], b5=[0, 1], pat=['mix'],
                                      gap=[''])), sf_adp, "ADCP structure function with separations beyond the profile")
    ex.cases('sf_adp', F, sf_adp, "ADCP structure function: cells x bin size x range of separations x missing data")
    ex.cases('sf_fit', [dict(c, fit=1) for c in F if c['L'] == 26 and not c['b5']], sf_adp, "ADCP dissipation and noise from the structure function")
