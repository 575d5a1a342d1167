"""C33  The binned turbulence dataset (ADVBinner call, calc_turbulence)."""
import warnings
import numpy as np
import xarray as xr
import dolfyn
from dolfyn.adv import api as avm
from .. import dsets as D
from .. import spec_ref as S
from ..core import need, product
from ..util import same, attr_same, quiet
from .c27 import TimeMean
from .c31 import DT
from .c30 import fluct, mean, tol

LEVEL = "exploration"
FS = 4.


def raw(c):
    L = c['L']
    ds = D.full(c['ds'])
    k = {d: np.arange(L) % 6 for d in ds.dims if d.startswith('time')}
    ds = ds.isel(**k).copy(deep=True)
    for d in k:
        ds[d] = np.datetime64('2020-01-01', 'ns') + np.arange(L) * DT
    ds.attrs['fs'] = FS
    v = np.stack([S.signal(L, p, i) for i, p in enumerate(c['pat'])]).astype(c['dt'])
    ds['vel'] = ds.vel.astype(c['dt'])
    ds['vel'].values = v
    if c.get('gap'):
        ds['vel'].values[1, 2] = np.nan
    if c.get('frame') and c['frame'] != ds.coord_sys:
        with quiet():
            dolfyn.rotate2(ds, c['frame'])
    if c.get('cfg'):
        ds.attrs['burst_config'] = {'a': 1}
        ds.attrs['my_list'] = [1, 2]
    if c['noise'] == 'var':
        ds['doppler_noise'] = ('dir', np.array([.05, .1, .02]))
    return ds


def bundle(c):
    ds = raw(c)
    n, L = c['n'], c['L']
    nf = c['nfft']
    ds0 = ds.copy(deep=True)
    a0 = dict(ds.attrs)
    u = {'rad': 'rad/s', 'Hz': 'Hz'}[c['units']]
    kw = dict(freq_units=u, window=c['win']) if not c['dflt'] else {}
    units = 'rad' if c['dflt'] else c['units']
    win = 'hann' if c['dflt'] else c['win']
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if c['how'] == 'func':
            g = avm.calc_turbulence(ds, n_bin=n, fs=FS, n_fft=nf, **kw)
        else:
            b = avm.ADVBinner(n, FS, n_fft=nf, n_fft_coh=c.get('coh'))
            g = b(ds, **kw)
        av = dolfyn.VelBinner(n, FS).do_avg(ds0.copy(deep=True))
    need(ds.identical(ds0), "the raw dataset was changed")
    need(dict(ds.attrs) == a0 or all(ds.attrs[k] is a0[k] for k in a0), "the raw attributes were changed")
    m = L // n
    for v in av.data_vars:
        need(v in g, "%s missing", v)
        need(g[v].dims == av[v].dims, "dims of %s", v)
        same(v, g[v].values, av[v].values, 1e-5, 1e-6)
    need(set(g.data_vars) - set(av.data_vars) == {'tke_vec', 'stress_vec', 'psd'}, "variables %s", set(g.data_vars) ^ set(av.data_vars))
    x = ds0.vel.values
    nz = np.array([.05, .1, .02]) if c['noise'] == 'var' else np.zeros(3)
    f = [fluct(r, n, True) for r in x]
    e = np.array([[mean(q ** 2) for q in r] for r in f]) - nz[:, None] ** 2
    same('tke_vec', g.tke_vec.values, e, 1e-4, tol(e))
    st = np.array([[mean(p * q) for p, q in zip(f[i], f[j])] for i, j in ((0, 1), (0, 2), (1, 2))])
    same('stress_vec', g.stress_vec.values, st, 1e-4, tol(st))
    nf = nf or n
    w = 2 * np.pi if units == 'rad' else 1
    p = np.array([[S.psd(r[i * n:(i + 1) * n], nf, FS * w, win) for i in range(m)] for r in x])
    nl = nz ** 2 / (FS / 2 * w)
    p = p - nl[:, None, None]
    q = g.psd.values.astype(float)
    need(q.shape == p.shape, "psd shape %s, expected %s", q.shape, p.shape)
    pos = p > 1e-6 * np.nanmax(p) if np.isfinite(p).any() else np.zeros(p.shape, bool)
    pos |= np.isnan(p)
    same('psd', np.where(pos, q, 0), np.where(pos, p, 0), 1e-3, 1e-6 * (1 + np.nanmax(p)) if np.isfinite(p).any() else 1)
    need(not (q < 0).any(), "negative spectra")
    same('freq', g.freq.values, S.freq(nf, FS) * w, 1e-6, 1e-7)
    for k in ('tke_vec', 'stress_vec', 'psd'):
        same('time', g[k].time.values, TimeMean(ds0.time.values, n), 0, 2e-6)
    exp = {k: v for k, v in a0.items() if 'config' not in k}
    exp.update(n_bin=n, n_fft=nf, n_fft_coh=c.get('coh') or nf)
    got = dict(g.attrs)
    need(set(got) == set(exp), "attributes differ: %s", set(got) ^ set(exp))
    for k in exp:
        attr_same(k, got[k], exp[k])
    need(g.coord_sys == ds0.coord_sys, "frame")
    return np.round(np.nan_to_num(e), 3).tolist()


def twice(c):
    """The same object applied to one raw dataset after another: each result depends on its own data alone."""
    sets = [raw(dict(c, pat=p, noise=z)) for p, z in ((['mix'] * 3, '0'), (['wave', 'mix', 'trend'], 'var'), (['trend'] * 3, '0'))]
    b = avm.ADVBinner(c['n'], FS)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        alone = [avm.ADVBinner(c['n'], FS)(s.copy(deep=True)) for s in sets]
        for k in c['seq']:
            g = b(sets[k])
            need(g.identical(alone[k]), "result %d depends on what was computed before", k)
            need(set(g.attrs) == set(alone[k].attrs) and all(np.array_equal(g.attrs[a], alone[k].attrs[a]) for a in ('n_bin', 'n_fft', 'n_fft_coh')),
                 "attributes")
            for a in alone:
                pass
    return c['seq']


def run(ex):
    import itertools
    q = ex.tier == 'quick'
    base = list(product(ds=['vector', 'vector_imu'], L=[24, 29] if q else [24, 29, 48], n=[8, 12] if q else [6, 7, 8, 12, 24],
                        units=['rad', 'Hz'], win=['hann', 1, None], noise=['0', 'var'], how=['func', 'call'], dt=['f4', 'f8'],
                        pat=[['mix', 'wave', 'trend'], ['wave', 'wave', 'mix']], dflt=[0]))
    ex.cases('bundle', [dict(c, nfft=None) for c in base if q is False or c['dt'] == 'f4' or c['win'] == 'hann'], bundle,
             "raw datasets x bins x units x window x noise")
    b0 = dict(ds='vector', L=29, n=8, units='rad', win='hann', noise='0', how='call', dt='f4', pat=['mix', 'wave', 'trend'], dflt=0, nfft=None)
    ex.cases('options', [dict(b0, **c) for c in product(ds=['vector', 'vector_imu'], dflt=[0, 1], frame=['inst', 'earth'], gap=[0, 1], cfg=[0, 1],
                                                        how=['func', 'call'])] + [dict(b0, coh=4)], bundle,
             "defaults x frame x missing samples x attributes")
    ex.cases('twice', [dict(ds='vector', L=24, n=8, dt='f4', seq=list(s)) for k in (2, 3) for s in itertools.product(range(3), repeat=k)], twice,
             "every sequence of two or three uses of one object")
