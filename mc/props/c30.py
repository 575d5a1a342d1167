"""C30  Turbulent kinetic energy, intensity, stresses, auto- and cross-covariance."""
import itertools
import numpy as np
import xarray as xr
from dolfyn.adv.turbulence import ADVBinner
from dolfyn.velocity import VelBinner
from .. import spec_ref as S
from ..core import need, product, Fail
from ..util import same, attr_same
from .c27 import TimeMean
from .c28 import sig

LEVEL = "exploration"


def fluct(x, n, detrend):
    out = []
    for i in range(len(x) // n):
        y = np.asarray(x[i * n:(i + 1) * n], float)
        ok = ~np.isnan(y)
        k = np.arange(n, dtype=float)
        r = np.full(n, np.nan)
        if ok.any():
            if detrend and ok.sum() > 1:
                p = np.polyfit(k[ok], y[ok], 1)
                r = y - np.polyval(p, k)
            else:
                r = y - y[ok].mean()
        out.append(r)
    return out


def mean(v):
    ok = ~np.isnan(v)
    return v[ok].mean() if ok.any() else np.nan


def data(c, dims):
    v = sig(c['L'], dims, c['pat'] if c['pat'] not in ('holes', 'out') else 'mix', dt=c.get('dt', 'f8'))
    if c['pat'] == 'holes':
        a = np.atleast_2d(v.values)
        for k in range(len(a)):
            a[k, 1 + k::5] = np.nan
    if c['pat'] == 'out':
        v.values[..., c['n']:2 * c['n']] = np.nan
    return v


def tol(e):
    return 1e-5 * (1 + (np.nanmax(np.abs(e)) if np.isfinite(e).any() else 0))


def tke(c):
    v = data(c, c['dims'])
    v0 = v.copy(deep=True)
    b = VelBinner(c['n'], 4.)
    no = dict(zip('0abc', (None, .3, xr.DataArray(.3), xr.DataArray(np.linspace(.1, .2, c['L'] // c['n']), dims=['time'])))).get(c['noise'])
    if c['dims'] == 3:
        no = {'0': None, 'a': [.1, .3, .2], 'b': np.array([.1, .3, .2]),
              'c': xr.DataArray(np.arange(3 * (c['L'] // c['n'])).reshape(3, -1) * .05, dims=['S', 'time'])}[c['noise']]
    g = b.calc_tke(v, noise=no, detrend=bool(c['det']))
    e = np.array([[mean(r ** 2) for r in fluct(x, c['n'], c['det'])] for x in np.atleast_2d(v.values)])
    nz = 0 if no is None else np.asarray(no.values if hasattr(no, 'values') else no)
    if c['dims'] == 3:
        e = e - (np.asarray(nz).reshape(3, -1) if no is not None else 0) ** 2
    else:
        e = (e - nz ** 2)[0]
    same('tke', g.values, e, 1e-4, tol(e))
    need(g.dims == (('tke', 'time') if c['dims'] == 3 else ('time',)), "dims %s", g.dims)
    same('time', g.time.values, TimeMean(v.time.values, c['n']), 0, 2e-6)
    if c['dims'] == 3:
        same('tke names', g.tke.values, np.array(['upup_', 'vpvp_', 'wpwp_']))
    attr_same('units', g.attrs['units'], 'm2 s-2')
    need(v0.identical(v), "the velocity was changed")
    return np.round(np.nan_to_num(e), 2).tolist()


def range_tke(c):
    """One beam of an ADCP: range x time."""
    x = np.stack([S.signal(c['L'], c['pat'], k) for k in range(4)])
    t = sig(c['L'], 1, 'mix').time.values
    v = xr.DataArray(x, dims=['range', 'time'], coords={'range': [1., 2, 3, 4], 'time': t})
    g = VelBinner(c['n'], 4.).calc_tke(v, detrend=bool(c['det']), noise=c['noise'] or None)
    e = np.array([[mean(r ** 2) for r in fluct(y, c['n'], c['det'])] for y in x]) - c['noise'] ** 2
    same('tke', g.values, e, 1e-4, tol(e))
    need(g.dims == ('range', 'time'), "dims")
    same('range', g.range.values, v.range.values, 0, 0)
    same('time', g.time.values, TimeMean(t, c['n']), 0, 2e-6)
    return np.round(np.nan_to_num(e), 2).tolist()


def stress(c):
    v = data(c, 3)
    v0 = v.copy(deep=True)
    g = ADVBinner(c['n'], 4.).calc_stress(v, detrend=bool(c['det']))
    f = [fluct(x, c['n'], c['det']) for x in v.values]
    e = np.array([[mean(p * q) for p, q in zip(f[i], f[j])] for i, j in ((0, 1), (0, 2), (1, 2))])
    same('stress', g.values, e, 1e-4, tol(e))
    need(g.dims == ('tau', 'time'), "dims %s", g.dims)
    same('tau', g.tau.values, np.array(['upvp_', 'upwp_', 'vpwp_']))
    same('time', g.time.values, TimeMean(v.time.values, c['n']), 0, 2e-6)
    attr_same('units', g.attrs['units'], 'm2 s-2')
    need(v0.identical(v), "the velocity was changed")
    return np.round(np.nan_to_num(e), 2).tolist()


def ti(c):
    u = data(c, 1)
    u = np.abs(u) + .5 * (u.time.dt.second % 3)
    if c['rng']:
        u = xr.concat([u, 2 * u, .1 * u], 'range').assign_coords(range=[1., 2., 3.])
    u0 = u.copy(deep=True)
    m = c['L'] // c['n']
    no = xr.DataArray(np.linspace(.01, .1, m), dims=['time']) if c['noise'] == 'da' else c['noise']
    with np.errstate(all='ignore'):
        g = VelBinner(c['n'], 4.).calc_ti(u, noise=no, thresh=c['th'], detrend=bool(c['det']))
        a = np.atleast_2d(u.values)
        nz = np.asarray(no.values if c['noise'] == 'da' else no)
        sq = np.array([[mean(r ** 2) for r in fluct(x, c['n'], c['det'])] for x in a])
        mu = np.array([[mean(x[i * c['n']:(i + 1) * c['n']]) for i in range(m)] for x in a])
        e = np.sqrt(sq - nz ** 2) / mu
        e[mu < c['th']] = np.nan
    skip = np.abs(sq - nz ** 2) < 1e-9 * (1 + sq)
    e = e if c['rng'] else e[0]
    skip = skip if c['rng'] else skip[0]
    need(g.shape == e.shape, "shape %s", g.shape)
    same('ti', g.values[~skip], e[~skip], 1e-4, 1e-4)
    need(g.dims == u.dims, "dims %s", g.dims)
    same('time', g.time.values, TimeMean(u.time.values, c['n']), 0, 2e-6)
    if c['rng']:
        same('range', g.range.values, u.range.values, 0, 0)
    need(u0.identical(u), "the speed was changed")
    return np.round(np.nan_to_num(e), 2).tolist()


def binner(c):
    return (VelBinner(c['n'] + 5, 4.), dict(n_bin=c['n'])) if c['over'] else (VelBinner(c['n'], 4.), {})


def acov(c):
    v = data(c, c['dims'])
    v0 = v.copy(deep=True)
    b, kw = binner(c)
    n, m, q = c['n'], c['L'] // c['n'], c['n'] // 4
    if m < 2:
        return None
    g = b.calc_acov(v, **kw)
    e = []
    for x in np.atleast_2d(v.values):
        x = x[:m * n].astype(float)
        row = []
        for i in range(m):
            d = x[i * n:(i + 1) * n]
            d = d - d.mean()
            def lag(k):
                s = i * n + k
                y = x[s:s + n]
                return np.dot(y, d) if len(y) == n and s >= 0 else None
            f, r = [lag(k) for k in range(q)], [lag(-k) for k in range(q)]
            row.append(f if i == 0 else r if i == m - 1 else [(p + o) / 2 for p, o in zip(f, r)])
        e.append(row)
    e = np.array(e, float)
    e = e if c['dims'] == 3 else e[0]
    need(g.dims == v.dims + ('lag',), "dims %s", g.dims)
    same('acov', g.values, e, 1e-4, 1e-3 + tol(e))
    same('lag', g.lag.values, np.arange(q), 0, 0)
    same('time', g.time.values, TimeMean(v.time.values, n), 0, 2e-6)
    need(v0.identical(v), "the velocity was changed")
    return np.round(e, 1).tolist()


def xcov(c):
    x = data(c, c['dims'])
    y = data(dict(c, pat='wave'), c['dims'])
    y.values[...] = np.roll(y.values, 1, -1)
    x0, y0 = x.copy(deep=True), y.copy(deep=True)
    b, kw = binner(c)
    n, m, npt = c['n'], c['L'] // c['n'], c['npt']
    g = b.calc_xcov(x, y, npt=npt, normed=bool(c['norm']), **kw)
    p0 = (npt - 1) // 2
    lags = np.arange(npt) - p0
    need(g.dims == x.dims + ('dt',), "dims %s", g.dims)
    same('dt', g['dt'].values, lags, 0, 0)
    same('time', g.time.values, TimeMean(x.time.values, n), 0, 2e-6)
    e = []
    for p, q in zip(np.atleast_2d(x.values), np.atleast_2d(y.values)):
        row = []
        for i in range(m):
            d = q[i * n:(i + 1) * n]
            d = d - d.mean()
            r = []
            for k in lags:
                s = i * n + k
                w = p[s:s + n] if 0 <= s and s + n <= m * n else None
                r.append(np.dot(w, d) if w is not None else np.nan)
            if c['norm']:
                r = np.array(r) / (p[i * n:(i + 1) * n].std() * d.std() * n)
            row.append(r)
        e.append(row)
    e = np.array(e)
    e = e if c['dims'] == 3 else e[0]
    need(g.shape == e.shape, "shape %s, expected %s", g.shape, e.shape)
    ok = np.isfinite(e)
    same('xcov', g.values[ok], e[ok], 1e-4, 1e-3 + tol(e))
    if c['norm']:
        z = g.values[..., list(lags).index(0)]
        need((np.abs(z) < 1.0001).all(), "correlation coefficient outside -1..1")
        one = b.calc_xcov(x, 3 * x + 2, normed=True, **kw).values
        same('correlation with itself', one, np.ones_like(one), 1e-4)
    need(x0.identical(x) and y0.identical(y), "the inputs were changed")
    return np.round(e[ok], 1).tolist()


def refuse(c):
    t = sig(24, 1, 'mix').time.values
    v = sig(24, 3, 'mix')
    try:
        if c['what'] == 'range':
            VelBinner(8, 4.).calc_tke(xr.DataArray(np.ones((3, 4, 24)), dims=['dir', 'range', 'time'],
                                                   coords={'dir': [1, 2, 3], 'range': [1, 2, 3, 4], 'time': t}))
        elif c['what'] == 'noise':
            VelBinner(8, 4.).calc_tke(v, noise=[.1, .2])
        else:
            ADVBinner(8, 4.).calc_csd(v[0])
    except Exception:
        return c['what']
    raise Fail("accepted")


def run(ex):
    pats = ['mix', 'wave', 'trend', 'gap', 'holes', 'out', 'big']
    L, N = ex.pick([8, 25], [4, 8, 13, 24, 37]), ex.pick([2, 4, 7, 8], range(2, 14))
    fit = lambda f: (lambda c: f(c) if c['L'] >= c['n'] else None)
    ex.cases('tke', product(L=L, n=N, dims=[1, 3], pat=pats, det=[0, 1], noise=list('0abc'), dt=['f8', 'f4']), 
             fit(lambda c: tke(c) if not (c['pat'] == 'big' and c['dt'] == 'f4') else None),
             "variances: length x bin x values x noise given")
    ex.cases('tke_beam', product(L=L, n=N, pat=['mix', 'trend', 'gap'], det=[0, 1], noise=[0, .2]), fit(range_tke), "variances of one ADCP beam")
    ex.cases('stress', product(L=L, n=N, pat=pats, det=[0, 1]), fit(stress), "covariances of the components")
    ex.cases('ti', product(L=L, n=N, pat=pats, det=[0, 1], noise=[0, .1, 'da'], th=[0, 2., 50.], rng=[0, 1]), fit(ti), "turbulence intensity x noise x threshold")
    ex.cases('acov', product(L=ex.pick([16, 33], range(16, 60, 5)), n=range(4, ex.pick(15, 24)), dims=[1, 3], pat=['mix', 'wave', 'trend', 'big'], over=[0, 1]), fit(acov),
             "auto-covariance at every lag")
    ex.cases('xcov', product(L=ex.pick([16, 33], range(16, 60, 5)), n=range(4, ex.pick(15, 24)), dims=[1, 3], pat=['mix', 'trend', 'big'], over=[0, 1], npt=[1, 2, 3, 4],
                             norm=[0, 1]), fit(xcov), "cross-covariance at every lag")
    ex.cases('refuse', [dict(what=w) for w in ('range', 'noise', 'csd')], refuse, "unusable requests")
    ex.assume("lags that reach outside the record (padding) are not compared; auto-covariance of records with at least two bins")
