"""C17  Saving to MATLAB files and loading again."""
import itertools
import os
import numpy as np
import scipy.io as sio
import xarray as xr
import dolfyn
from .. import dsets as D
from ..core import need, product, scratch, Fail
from ..util import ds_same, same, attr_same, quiet
from . import c15, c16

LEVEL = "model_checking"


def mat_same(a, b, what):
    need(set(a.variables) == set(b.variables), "%s: variables differ %s", what, sorted(set(a.variables) ^ set(b.variables)))
    for v in b.variables:
        need(a[v].dims == b[v].dims, "%s: dims of %s: %s, expected %s", what, v, a[v].dims, b[v].dims)
        if b[v].dtype.kind == 'M':
            same("%s: %s" % (what, v), a[v].values, b[v].values, 0, 1.0e-4)
        elif np.iscomplexobj(b[v]):
            same("%s: %s" % (what, v), a[v].values.real, b[v].values.real)
            same("%s: %s" % (what, v), a[v].values.imag, b[v].values.imag)
        else:
            same("%s: %s" % (what, v), a[v].values, b[v].values, 1e-6, 1e-9)
        if b[v].dtype.kind == 'b' and v == 'orientation_down':       # ~ and indexing depend on it
            need(a[v].dtype.kind == 'b', "%s: the flag %s is now %s", what, v, a[v].dtype)
        for k in ('units', 'long_name', 'standard_name'):
            if k in b[v].attrs and not b[v].dtype.kind == 'M' and b[v].attrs[k] != '':
                need(a[v].attrs.get(k) == b[v].attrs[k], "%s: %s.%s = %r, expected %r", what, v, k, a[v].attrs.get(k), b[v].attrs[k])
    need(set(a.attrs) == set(b.attrs), "%s: attributes differ %s", what, sorted(set(a.attrs) ^ set(b.attrs)))
    for k in b.attrs:
        attr_same(what + ' ' + k, a.attrs[k], b.attrs[k])
        if isinstance(b.attrs[k], list) and (len(b.attrs[k]) > 1 or k == 'rotate_vars'):
            need(isinstance(a.attrs[k], list), "%s: attribute %s is no longer a list", what, k)
        if isinstance(b.attrs[k], str):
            need(isinstance(a.attrs[k], str), "%s: attribute %s is no longer text", what, k)


def via(ds, datenum, n):
    f = os.path.join(scratch(), 'a%d.mat' % n)
    dolfyn.save_mat(ds, f, datenum=bool(datenum))
    return dolfyn.load_mat(f, datenum=bool(datenum))


def step(c):
    real = D.full(c['init'])
    twin = real.copy(deep=True)
    for n, ev in enumerate(c['hist']):
        if ev[0] == 'mat':
            real = via(real, ev[1], n)
            mat_same(real, twin, 'after %d steps' % (n + 1))
        elif ev[0] == 'nc':
            real = c15.nc(real, 0, 0, n)
        else:
            real, twin = c15.apply(real, ev, n), c15.apply(twin, ev, n)
        if ev[0] == 'nc':
            twin = real.copy(deep=True)
    return (twin.attrs['coord_sys'], twin.attrs.get('declination'), sorted(twin.sizes.items()), sorted(twin.variables),
            [h[0] for h in c['hist'] if h[0] in ('mat', 'nc')][-1:], str(twin.time.values[0]),
            sorted((v, str(real[v].dtype), sorted(real[v].attrs)) for v in real.variables))


def events(init, hist):
    used = [h[0] for h in hist]
    evs = [['mat', 1], ['mat', 0], ['nc']]
    if 'slice' not in used:
        evs.append(['slice', 1, None])
    for e in (['cplx', 'S'], ['attr2'], ['shift', 123500]):
        if e not in hist and e[0] != 'attr2':
            evs.append(e)
    if init != 'vno':
        evs += [['rot', f] for f in ('inst', 'earth')] + ([['rot', 'beam']] if init != 'sig_bt' else [])
        if 'decl' not in used:
            evs.append(['decl', 11.5])
    return evs


def content(c):
    n = c['n']
    ds = D.full(c['kind'])
    ds = ds.isel(time=slice(0, n))
    t0 = np.datetime64(c['t0'], 'ns')
    ds = ds.assign_coords(time=('time', t0 + (np.arange(ds.time.size) * c['dt_us']).astype('timedelta64[us]'), ds.time.attrs))
    gone = [i for i in c.get('gone', []) if i < ds.time.size]
    if gone:
        t = ds.time.values.copy()
        t[gone] = np.datetime64('NaT')
        ds = ds.assign_coords(time=('time', t, ds.time.attrs))
    if c['tv']:
        ds['hdwtime'] = ('time', ds.time.values + np.timedelta64(300, 'us'))
    a = via(ds, c['dn'], 0)
    mat_same(a, ds, 'loaded')
    return (n, str(a.time.values[-1]))


def layout(c):
    """The file is the documented structure: vars, coords, config, units; times in datenum or epoch."""
    ds = D.full(c['kind'])
    f = os.path.join(scratch(), 'x.mat')
    dolfyn.save_mat(ds, f, datenum=bool(c['dn']))
    m = sio.loadmat(f, struct_as_record=False, squeeze_me=True)
    for k in ('vars', 'coords', 'config', 'units'):
        need(k in m, "%s missing", k)
    for v in ds.data_vars:
        if ds[v].dtype.kind in 'fiu':
            same(v, getattr(m['vars'], v), ds[v].values.squeeze(), 1e-6)
        if ds[v].attrs.get('units'):
            need(getattr(m['units'], v) == ds[v].attrs['units'], "units of %s", v)
    for v in ds.coords:
        if ds[v].dtype.kind == 'M':
            e = ds[v].values.astype('int64') / 1e9
            same(v, getattr(m['coords'], v), e / 86400 + 719529 if c['dn'] else e, 0, 5e-10 if c['dn'] else 2e-6)
    for k, v in ds.attrs.items():
        if isinstance(v, str):
            need(getattr(m['config'], k) == v or v.strip() == '', "config.%s", k)
    return sorted(ds.variables)


def trip(ds, c):
    """Through a .mat file (dn: datenum or epoch) or a netCDF file (comp: compressed or not)."""
    if 'comp' in c:
        return c15.nc(ds, c['comp'], 0, 0), c15.nc_same
    return via(ds, c['dn'], 0), mat_same


def single(c):
    """Dimensions with one entry survive."""
    ds = D.full(c['kind'])
    cut = {d: slice(k, k + 1) for d, k in c['cut'] if d in ds.dims}
    need(cut, "nothing to cut")
    ds = ds.isel(cut)
    a, same_ = trip(ds, c)
    need(a.sizes == ds.sizes, "one-entry dimension lost: %s, expected %s", dict(a.sizes), dict(ds.sizes))
    same_(a, ds, 'loaded')
    return sorted(ds.sizes.items())


def older(c):
    """A file written before the dimensions were kept in it loads as it did."""
    ds = D.full(c['kind'])
    f = os.path.join(scratch(), 'o.mat')
    dolfyn.save_mat(ds, f, datenum=bool(c['dn']))
    m = sio.loadmat(f, struct_as_record=False, squeeze_me=True)
    new = {k: {n: getattr(m[k], n) for n in m[k]._fieldnames} for k in ('vars', 'coords', 'config', 'units', 'long_name', 'standard_name')}
    os.remove(f)
    sio.savemat(f, new)
    a = dolfyn.load_mat(f, datenum=bool(c['dn']))
    mat_same(a, ds, 'older file')
    return sorted(ds.variables)


# what users add to a dataset, and what the toolbox makes of one, before saving it
def _shortcut(name):
    def f(ds):
        ds[name] = getattr(ds.velds, name)
        return ds
    return f


def _plain(dims, name='extra', dtype='f8', **kw):
    def f(ds):
        shp = [ds.sizes[d] if d in ds.sizes else kw[d] for d in dims]
        ds[name] = (dims, (np.arange(int(np.prod(shp))).reshape(shp) * (1 if dtype[0] in 'iub' else 1.25)).astype(dtype), {'units': 'm'})
        return ds
    return f


def _binned(op):
    def f(ds):
        from . import c41
        return c41.BIN[op][1](ds)
    return f


def _twice(op, name):
    def f(ds):
        r = _binned(op)(ds)
        out = xr.Dataset({name: r}, attrs=dict(ds.attrs))
        return out
    return f


DERIVE = {'U': _shortcut('U'), 'U_mag': _shortcut('U_mag'), 'U_dir': _shortcut('U_dir'), 'u': _shortcut('u'), 'w': _shortcut('w'),
          'scalar': _plain(()), 'count': _plain((), dtype='i4'), 'series': _plain(('time',)), 'flag': _plain(('time',), dtype='?'), 'per_beam': _plain(('beam',)), 'per_dir': _plain(('dir',)),
          'turned': _plain(('time', 'dir')), 'square': _plain(('dir', 'beam')), 'own_dim': _plain(('fold',), fold=3), 'own_dims': _plain(('fold', 'time', 'dir'), fold=2),
          'one': _plain(('fold',), fold=1), 'one_by': _plain(('fold', 'time'), fold=1), 'four': _plain(('a', 'b', 'dir', 'time'), a=1, b=2),
          'mat_name': _plain(('time',), name='matched'), 'inst_name': _plain(('time',), name='inst_mat_age'), 'tag_name': _plain(('time',), name='speed_avg'),
          'sl_name': _plain(('time',), name='depth_slope'), 'vel_name': _plain(('time', 'dir', 'beam'), name='vel_fit'), 'echo_name': _plain(('time', 'dir'), name='echo'),
          'cell': _plain(('range',)), 'cell_t': _plain(('range', 'time')), 't_cell': _plain(('time', 'range')), 'avg': _binned('avg'), 'var': _binned('var'), 'turb': _binned('turb'), 'call': _binned('call')}
DERIVE.update({'only_' + o: _twice(o, o) for o in ('tke', 'ti', 'psd1', 'acov', 'xcov')})
NAMED = ('U', 'U_mag', 'U_dir', 'u', 'w', 'mat_name', 'inst_name', 'tag_name', 'sl_name', 'vel_name', 'echo_name')
CELLS = ('cell', 'cell_t', 't_cell')


def derived(c):
    """Whatever variables and dimensions a dataset has come back."""
    from . import c41
    ds = (c16.make(c['kind'], c41.BINIT) if c['from'] == 'long' else D.full(c['kind']))
    with quiet():
        for k in c['do']:
            ds = DERIVE[k](ds)
        if c['frame']:
            ds = dolfyn.rotate2(ds, c['frame'], inplace=False)
    a, same_ = trip(ds, c)
    same_(a, ds, 'loaded')
    need(set(a.coords) == set(ds.coords), "coordinates: %s", sorted(set(a.coords) ^ set(ds.coords)))
    return sorted(ds.sizes.items())


def singles(ex, w):
    dims = ('time', 'range', 'beam', 'dir', 'time_bt', 'time_b5', 'range_b5', 'time_echo', 'range_echo', 'n_altraw', 'dirIMU', 'time_gps', 'range_avg', 'time_avg', 'inst', 'x1', 'q')
    return [dict({w: f}, kind=k, cut=[[d, p] for d in g]) for k in D.FULL for f in (0, 1)
            for have in [[d for d in dims if d in D.full(k).dims]] for n in range(1, ex.pick(3, 5)) for g in itertools.combinations(have, n)
            for p in ([0, 1] if n == 1 else [0])]


def deriveds(ex, w):
    one = [d for d in DERIVE if not DERIVE[d].__qualname__.startswith(('_binned', '_twice'))]
    cases = []
    for k in D.FULL:
        can = [d for d in one if (d not in CELLS or 'range' in D.full(k).dims)]
        cases += [dict({'from': 'short'}, kind=k, do=list(g), **{w: dn}, frame='') for n in range(1, ex.pick(3, 4)) for g in itertools.combinations(can, n)
                  if len(set(x if x not in ('own_dim', 'own_dims', 'one', 'one_by') else 'fold' for x in g)) == n and sum(x not in NAMED for x in g) <= 1
                  for dn in ((0, 1) if n == 1 else (1,))]
    from . import c41
    for k in c41.BINIT:
        for d in DERIVE:
            if d not in one and k in c41.BIN[d.replace('only_', '')][0] and not (k == 'vno' and d in ('turb', 'call')) and (d != 'only_tke' or k in ('vector', 'imu')):
                cases += [dict({'from': 'long'}, kind=k, do=[d], **{w: dn}, frame='') for dn in (0, 1)]
        if k in ('vector', 'imu', 'awac'):
            cases += [dict({'from': 'long'}, kind=k, do=['avg'], **{w: 1}, frame=f) for f in ('earth', 'principal')]
    return cases


def run(ex):
    ex.bfs('histories', list(D.FULL), events, step, ex.pick(3, 4),
           "all histories of .mat save/load (datenum and epoch), netCDF, rotations, declination, slicing, added variables")
    ex.cases('content', [dict(c) for c in product(
        kind=('vector', 'awac', 'rdi', 'vno'), n=(2, 3, 5), dn=(1, 0), tv=(0, 1),
        t0=('1970-01-01T00:00:00', '1999-12-31T23:59:59.9', '2000-02-28T23:59:59.5', '2020-02-29T12:00:00.0625',
            '2038-01-19T03:14:07', '2004-12-31T00:00:00'), dt_us=(100, 31200, 125000, 1000000, 600000000, 86400000000))], content,
        "instrument x length x time format x time variable x times")
    n = ex.pick(3, 5)
    ex.cases('no_time', [dict(kind=k, n=n, dn=d, tv=v, t0='2020-02-29T12:00:00', dt_us=125000, gone=list(g)) for k in ('vector', 'awac', 'rdi', 'vno', 'sig') for d in (1, 0)
                         for v in (0, 1) for m in range(1, n + 1) for g in itertools.combinations(range(n), m)], content, "every set of samples without a time")
    ex.cases('layout', [dict(kind=k, dn=d) for k in D.FULL for d in (0, 1)], layout, "documented structure of the file")
    ex.cases('single', singles(ex, 'dn'), single, "every dimension, pair (thorough: up to four) of dimensions cut to one entry")
    ex.cases('older', [dict(kind=k, dn=d) for k in D.FULL for d in (0, 1)], older, "files without the dimensions")
    ex.cases('derived', deriveds(ex, 'dn'), derived, "what users add and what the binning makes, saved to .mat and loaded")
    ex.assume("times are kept to the documented resolution of 100 microseconds")
