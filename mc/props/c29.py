"""C29  The velds shortcuts: components, speed, direction, energies, intensities."""
import itertools
import os
import numpy as np
import xarray as xr
import dolfyn
from dolfyn.adv.turbulence import ADVBinner
from dolfyn.tools.misc import convert_degrees
from .. import dsets as D
from ..core import need, product, Fail, scratch
from ..util import same, attr_same, angle_same, ds_same, quiet

LEVEL = "exploration"
ALL = ['rdi', 'rdi_earth', 'sig', 'sig_bt', 'vector', 'vector_imu', 'awac', 'vno']


def dataset(c):
    ds = D.full(c['ds'])
    if c.get('frame') and ds.coord_sys != c['frame']:
        with quiet():
            if c['frame'] == 'principal':
                ds.attrs['principal_heading'] = 30.
            dolfyn.rotate2(ds, c['frame'])
    return ds


def grid(c, ds):
    """Velocities that point in every direction (and missing ones)."""
    v = ds['vel'].values
    n = int(np.prod(v.shape[1:]))
    a = np.deg2rad(np.arange(n) * c['step'] + c['off'])
    s = c['speed'] * (1 + np.arange(n) % 3)
    f = v.reshape(v.shape[0], n)
    f[0], f[1] = s * np.cos(a), s * np.sin(a)
    if c['nan']:
        f[1, c['nan']::4] = np.nan
    ds['vel'].values[...] = f.reshape(v.shape)
    return ds


def shortcuts(c):
    ds = grid(c, dataset(c))
    k0 = ds.copy(deep=True)
    V = ds.velds
    v = ds.vel.values.astype(float)
    with np.errstate(all='ignore'):
        for n, i in (('u', 0), ('v', 1), ('w', 2)):
            g = getattr(V, n)
            same(n, g.values, v[i], 0, 0)
            need(g.dims == ds.vel.dims[1:] and 'dir' not in g.coords, "dims of %s", n)
        need(V.U.dtype == np.complex64, "dtype of U")
        ok = np.isfinite(v[:2]).all(0)
        same('U real', V.U.values.real[ok], v[0][ok], 1e-6)
        same('U imag', V.U.values.imag[ok], v[1][ok], 1e-6)
        need(np.isnan(V.U.values[~ok]).all(), "U where a component is missing")
        mag = np.sqrt(v[0] ** 2 + v[1] ** 2)
        same('U_mag', V.U_mag.values, mag, 1e-5)
        ang = np.rad2deg(np.arctan2(v[1], v[0]))
        e = (90 - ang) if ds.coord_sys == 'earth' else -ang
        g = V.U_dir
        ok = np.isfinite(e) & (mag > 0)
        angle_same('U_dir', g.values[ok], e[ok] % 360, .01)
        need(np.isnan(g.values[~np.isfinite(e)]).all(), 'direction of a missing velocity')
        need((g.values[ok] >= 0).all() and (g.values[ok] <= 360).all(), "direction outside 0..360")
        attr_same('U_dir units', g.attrs['units'], 'degrees_CW_from_' + str(ds.dir.values[1 if ds.coord_sys == 'earth' else 0]))
        for q in (V.U, V.U_mag, g):
            need(q.dims == ds.vel.dims[1:], "dims %s", q.dims)
            for d in q.dims:
                same(d, q[d].values, ds[d].values, 0, 0)
        need(V.variables == sorted(ds.variables), "variables")
        need(V.attrs is ds.attrs and set(V.coords) == set(ds.coords), "attrs and coords")
        need('vel' in V and 'nothing' not in V and V['vel'].identical(ds['vel']), "item access")
    need(k0.identical(ds), "the dataset was changed")
    return np.round(np.nan_to_num(e), 1).tolist()


NAMES = [('tke_vec', 'tke', ['upup_', 'vpvp_', 'wpwp_']), ('stress_vec', 'tau', ['upvp_', 'upwp_', 'vpwp_'])]


def turb(c):
    """Energies and stresses in any order of the components, profiles or time series."""
    ds = grid(dict(c, step=50, off=3, speed=1.5, nan=0), dataset(c))
    if ds.vel.shape[0] < 3:
        return None
    with quiet():
        ds = dolfyn.VelBinner(2, ds.fs).do_avg(ds)
    sh = ds.vel.shape[1:]
    n = int(np.prod(sh))
    order = list(itertools.permutations(range(3)))[c['perm']]
    val = {}
    for var, dim, names in NAMES:
        a = (np.arange(3 * n) * .37 % 1.9).reshape((3,) + sh)
        if var == 'stress_vec':
            a = a - .8
        if c['nan']:
            a.reshape(3, n)[c['nan'] - 1, ::2] = np.nan
        for k, i in enumerate(order):
            val[names[i]] = a[k]
        ds[var] = xr.DataArray(a, dims=(dim,) + ds.vel.dims[1:], coords=dict({dim: [names[i] for i in order]}, **{d: ds[d] for d in ds.vel.dims[1:]}),
                               attrs={'units': 'm2 s-2'})
    k0 = ds.copy(deep=True)
    V = ds.velds
    with np.errstate(all='ignore'):
        for k in val:
            same(k, getattr(V, k).values, val[k], 0, 0)
        t = (val['upup_'] + val['vpvp_'] + val['wpwp_']) / 2
        same('tke', V.tke.values, t, 1e-6, 1e-9)
        same('E_coh', V.E_coh.values, np.sqrt(val['upvp_'] ** 2 + val['upwp_'] ** 2 + val['vpwp_'] ** 2), 1e-5, 1e-7)
        mag = np.hypot(ds.vel.values[0].astype(float), ds.vel.values[1])
        same('I_tke', V.I_tke.values, np.sqrt(2 * t) / mag, 1e-4, 1e-6)
        same('I', V.I.values, ds['U_std'].values / mag, 1e-4, 1e-6)
        for k in ('tke', 'E_coh', 'I_tke', 'I'):
            q = getattr(V, k)
            need(q.dims == ds.vel.dims[1:], "dims of %s: %s", k, q.dims)
            for d in q.dims:
                same(d, q[d].values, ds[d].values, 0, 0)
        for k in ('tke', 'E_coh'):
            attr_same(k + ' units', getattr(V, k).attrs['units'], 'm2 s-2')
    need(k0.identical(ds), "the dataset was changed")
    return np.round(np.nan_to_num(t), 2).tolist()


def methods(c):
    """The methods do what the functions of the package do."""
    a, b = dataset(dict(ds=c['ds'])), dataset(dict(ds=c['ds']))
    inst = a.inst_type
    with quiet():
        if c['what'] == 'rotate2':
            if c['ds'] == 'vno':
                return None
            r1 = a.velds.rotate2(c['arg'], inplace=bool(c['inp']))
            r2 = dolfyn.rotate2(b, c['arg'], inplace=bool(c['inp']))
        elif c['what'] == 'declination':
            if c['ds'] == 'vno':
                return None
            r1 = a.velds.set_declination(7.5, inplace=bool(c['inp']))
            r2 = dolfyn.set_declination(b, 7.5, inplace=bool(c['inp']))
        elif c['what'] == 'rotmat':
            if c['ds'] not in ('vector', 'vector_imu'):
                return None
            R = np.array([[0, 1., 0], [-1, 0, 0], [0, 0, 1]])
            r1 = a.velds.set_inst2head_rotmat(R, inplace=bool(c['inp']))
            r2 = dolfyn.set_inst2head_rotmat(b, R, inplace=bool(c['inp']))
        else:
            d = scratch()
            a.velds.save(os.path.join(d, 'x.nc'))
            dolfyn.save(b, os.path.join(d, 'y.nc'))
            r1, r2 = dolfyn.load(os.path.join(d, 'x.nc')), dolfyn.load(os.path.join(d, 'y.nc'))
            need('vel' in r1, "nothing saved")
    need((r1 is None) == (r2 is None), "return value")
    if r1 is not None:
        ds_same(r1, r2)
        if c['what'] != 'save':
            ds_same(a, dataset(dict(ds=c['ds'])), 'input')
    else:
        ds_same(a, b)
        need(not a.identical(dataset(dict(ds=c['ds']))) or a.coord_sys == c['arg'], "nothing changed in place")
    return (c['what'], c['arg'])


def degrees(c):
    d = c['d']
    e = (90 - d) % 360
    if c['tidal'] and e > 180:
        e -= 360
    a = np.array([d, d + 90., np.nan])
    k = a.copy()
    g = convert_degrees(a, tidal_mode=bool(c['tidal']))
    need(abs(g[0] - e) < 1e-9, "%s -> %s, expected %s", d, g[0], e)
    need(np.isnan(g[2]), "missing value")
    same('input', a, k, 0, 0)
    h = convert_degrees(d, tidal_mode=bool(c['tidal']))
    need(abs(h - e) < 1e-9, "number %s -> %s, expected %s", d, h, e)
    angle_same('back', convert_degrees(g[:2], tidal_mode=bool(c['tidal'])), a[:2], 1e-9)
    x = convert_degrees(xr.DataArray(a), tidal_mode=bool(c['tidal']))
    same('DataArray', x.values, g, 0, 0)
    return round(e, 3)


def text(c):
    """The printed summary names the instrument, frame, rate, start and duration."""
    ds = dataset(dict(ds=c['ds']))
    n = ds.time.size
    t0 = np.datetime64('2021-03-04T05:06:07', 'ns')
    ds = ds.assign_coords(time=t0 + (np.arange(n) * int(c['dur'] * 1e9 / (n - 1))).astype('timedelta64[ns]'))
    if c.get('gone'):
        t = ds.time.values.copy()
        t[dict(first=[0], all=slice(None), last=[-1], mid=[n // 2])[c['gone']]] = np.datetime64('NaT')
        ds = ds.assign_coords(time=t)
    s = repr(ds.velds)
    dur = c['dur']
    for u, k in (('days', 86400), ('hours', 3600), ('minutes', 60), ('seconds', 1)):
        if dur > k or u == 'seconds':
            break
    if c.get('gone') in ('first', 'all'):
        need('No Time Information' in s and 'started' not in s, "the first time is missing: %r", s)
    w = '' if c.get('gone') not in (None, 'mid') else '%.2f %s (started: Mar 04, 2021 05:06)' % (dur / k, u)
    for part in (w, '%s-frame' % ds.coord_sys, '(%d pings @ %sHz)' % (n, ds.fs), ds.inst_model, ds.inst_make, ds.inst_type, '- vel '):
        need(part in s, "%r not in %r", part, s)
    return w


def run(ex):
    cs = []
    for d in ALL:
        for f in (None, 'beam', 'inst', 'earth', 'principal'):
            if d == 'vno' and f:
                continue
            if d.startswith('rdi') and f == 'beam' and d == 'rdi_earth':
                continue
            for step in ex.pick((45, 61), (15, 30, 45, 61, 90)):
                for off in ex.pick((0, 20), (0, 20, 180, 200)):
                    for nan in (0, 1, 2):
                        for sp in ex.pick((1.5,), (0., 1e-3, 1.5)):
                            cs.append(dict(ds=d, frame=f, step=step, off=off, nan=nan, speed=sp))
    ex.cases('shortcuts', cs, shortcuts, "instrument x frame x directions x missing values")
    ex.cases('turbulence', product(ds=ALL, frame=[None], perm=range(6), nan=[0, 1, 2, 3]), turb, "instrument x order of the components x missing components")
    ex.cases('methods', list(product(ds=ALL, what=['rotate2'], arg=['inst', 'earth', 'beam'], inp=[0, 1])) +
             list(product(ds=ALL, what=['declination', 'rotmat', 'save'], arg=[''], inp=[0, 1])), methods, "methods against functions")
    ex.cases('degrees', product(d=[k * 7.5 for k in range(-100, 101)], tidal=[0, 1]), degrees, "angles from East against from North")
    ex.cases('text', list(product(ds=ALL, dur=[.5, 1, 1.5, 59, 61, 3599, 3601, 7300, 86300, 90000, 200000])) + list(product(ds=ALL, dur=[61], gone=['first', 'mid', 'last', 'all'])), text, "printed summary")
