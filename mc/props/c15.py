"""C15  Saving to netCDF and loading again is the identity."""
import itertools
import os
import numpy as np
import xarray as xr
import dolfyn
from .. import dsets as D
from ..core import need, product, scratch, Fail
from ..util import ds_same, same, attr_same, quiet

LEVEL = "model_checking"


def nc_same(a, b, what):
    """b: what was in memory.  netCDF keeps float64 data variables as float32."""
    ds_same(a, b, what, rtol=3e-6, atol=3e-6)
    for v in b.variables:
        for k in b[v].attrs:
            if k == 'units' and b[v].dtype.kind == 'M':
                continue
            need(k in a[v].attrs and a[v].attrs[k] == b[v].attrs[k], "%s: %s.%s = %r, expected %r", what, v, k,
                 a[v].attrs.get(k), b[v].attrs[k])
    for k, v in b.attrs.items():
        if isinstance(v, str):
            need(isinstance(a.attrs[k], str), "%s: type of attribute %s: %s", what, k, type(a.attrs[k]))
        elif isinstance(v, list) and (len(v) > 1 or k == 'rotate_vars'):
            need(isinstance(a.attrs[k], list), "%s: attribute %s is no longer a list", what, k)
    for v in b.data_vars:
        kb, ka = b[v].dtype.kind, a[v].dtype.kind
        need(ka == kb, "%s: kind of %s: %s, expected %s", what, v, a[v].dtype, b[v].dtype)


def exact(a, b, what):
    """Saved once: coordinates as they were, data rounded to single precision at most."""
    for v in b.variables:
        x, y = a[v].values, b[v].values
        if v in b.coords:
            need(x.dtype.kind == y.dtype.kind and np.array_equal(x, y, equal_nan=x.dtype.kind in 'fcM'), "%s: coordinate %s: %s, expected %s", what, v, x, y)
        elif y.dtype.kind in 'fc':
            with np.errstate(over='ignore'):
                s = y.astype('f4' if y.dtype.kind == 'f' else 'c8')
            need(((x == y) | (x == s) | (np.isnan(x) & np.isnan(y))).all(), "%s: %s: %s, expected %s", what, v, x, y)


def apply(ds, ev, n):
    e, *a = ev
    with quiet():
        if e == 'rot':
            dolfyn.rotate2(ds, a[0])
        elif e == 'decl':
            dolfyn.set_declination(ds, a[0])
        elif e == 'slice':
            for t in [d for d in ds.dims if d.startswith('time')]:
                ds = ds.isel({t: slice(a[0], a[1])})
        elif e == 'cplx':
            ds[a[0]] = xr.DataArray(np.arange(ds.time.size) * (1 + .5j) - 1j, coords=dict(time=ds.time), dims='time')
        elif e == 'shift':
            for t in [d for d in ds.dims if d.startswith('time')]:
                ds = ds.assign_coords({t: (t, ds[t].values + np.timedelta64(a[0], 'us'), ds[t].attrs)})
        elif e == 'nan':
            ds['vel'].values[..., 0] = np.nan
        elif e == 'attr':
            ds.attrs.update(name='x', note='', num=3, flt=.25, vec=[1., .5, .2], names=['ab', 'c', ''])
    return ds


def nc(ds, comp, enc, n, ext=True):
    f = os.path.join(scratch(), 'a.b%d' % n + '.nc')
    kw = dict(compression=bool(comp))
    if enc:
        kw['encoding'] = {'vel': dict(zlib=True, complevel=3, shuffle=True)}
    dolfyn.save(ds, f, **kw)
    if enc:
        v = h5(f, 'vel')
        need(v['zlib'] and v['complevel'] == 3 and v['shuffle'], "encoding given: %s, written: %s", kw['encoding'], v)
    return dolfyn.load(f)


def h5(f, name):
    """How a variable lies in the file."""
    import netCDF4
    with netCDF4.Dataset(f) as d:
        v = d.variables[name]
        return dict(v.filters(), dtype=str(v.dtype), least=getattr(v, 'least_significant_digit', None), names=v.ncattrs())


def encoding(c):
    """Every variable is stored the way the caller asked for, the others as without an encoding."""
    ds = D.full(c['k'])
    if c['pre']:
        ds = nc(ds, 1, 0, 0)
    b = ds.copy(deep=True)
    d = scratch()
    e = {c['v']: dict(c['e'])}
    kw = {} if c['comp'] is None else dict(compression=c['comp'])
    dolfyn.save(ds, os.path.join(d, 'a'), encoding=e, **kw)
    dolfyn.save(ds, os.path.join(d, 'b'), **kw)
    w = h5(os.path.join(d, 'a.nc'), c['v'])
    for k, v in c['e'].items():
        g = w['dtype'] if k == 'dtype' else w[k]
        need(g == v, "%s of %s: %s, asked for %s", k, c['v'], g, v)
    for v in ('amp', 'pressure', 'pitch', 'heading'):
        if v in ds and v != c['v']:
            need(h5(os.path.join(d, 'a.nc'), v) == h5(os.path.join(d, 'b.nc'), v), "encoding of %s changed", v)
            z = h5(os.path.join(d, 'a.nc'), v)
            need(z['zlib'] == bool(c['comp']) or c['pre'], "%s: compression %s, asked for %s", v, z['zlib'], c['comp'])
    nc_same(dolfyn.load(os.path.join(d, 'a.nc')), b, 'loaded')
    return str(w)


def step(c):
    real = D.full(c['init'])
    twin = real.copy(deep=True)
    for n, ev in enumerate(c['hist']):
        if ev[0] == 'nc':
            real = nc(real, ev[1], ev[2], n)
        else:
            real = apply(real, ev, n)
            twin = apply(twin, ev, n)
        if ev[0] == 'nc':
            nc_same(real, twin, 'after %d steps' % (n + 1))
    enc = sorted((v, sorted((k, str(x)) for k, x in real[v].encoding.items() if k not in ('source', 'original_shape')))
                 for v in ('vel', 'time'))
    return (twin.attrs['coord_sys'], twin.attrs.get('declination'), sorted(twin.sizes.items()), sorted(twin.variables),
            sorted(twin.attrs), str(twin.time.values[:1]), bool(np.isnan(twin.vel.values[..., 0]).all()), str(enc))


QUICK = True


def events(init, hist):
    used = [h[0] for h in hist]
    evs = [['nc', 0, 0], ['nc', 1, 1]] + ([] if QUICK else [['nc', 1, 0], ['nc', 0, 1], ['cplx', 'Sxy'], ['nan'], ['attr']])
    if 'slice' not in used:
        evs += [['slice', 1, None]]
    for e in (['cplx', 'S'], ['shift', 123457]):
        if e not in hist:
            evs.append(e)
    if init != 'vno':
        evs += [['rot', f] for f in ('beam', 'inst', 'earth')] if not (init == 'sig_bt') else [['rot', 'inst'], ['rot', 'earth']]
        if 'decl' not in used:
            evs.append(['decl', 11.5])
    return evs


# ------------------------------------------------------------------ contents
def content(c):
    """One dataset, one unusual content."""
    n = c['n']
    t0 = np.datetime64(c['t0'], 'ns')
    time = t0 + (np.arange(n) * c['dt_us']).astype('timedelta64[us]')
    ds = xr.Dataset(coords=dict(time=time, beam=[1, 2, 3], dir=['X', 'Y', 'Z']))
    val = np.arange(3 * n).reshape(3, n)
    ds['vel'] = (('dir', 'time'), val.astype('float32'))
    ds['v'] = ('time', (val[0] * c['scale'] + c['off']).astype(c['dtype']))
    if c['attrs']:
        ds['v'].attrs = dict(units='m s-1', long_name='var', standard_name='x')
    if np.dtype(c['dtype']).kind == 'f' and c['nan']:
        ds['v'].values[0] = np.nan
    for i in c.get('gone', []):
        time = np.where(np.arange(n) == i, np.datetime64('NaT'), time)
        ds = ds.assign_coords(time=time)
    ds['tv'] = ('time', time + np.timedelta64(7, 'us'))
    ds = ds.assign_coords(f=np.arange(1, 4) / 7., range=(np.arange(2) * .05 + .1).astype('float32'))
    ds['eps'] = (('f', 'time'), (val + 1) ** -3. * 1e-7)
    ds['p'] = (('range', 'time'), (val[:2] / 3.).astype('float32'))
    for k in range(c['ncplx']):
        ds['s' + 'abcdef'[k] * c['lname']] = ('f', (np.arange(3) / 3. - 1j / 7) * 1e-5)
        ds['abcdef'[k] * c['lname']] = ('time', val[k].astype(complex) * (1 + 2j))
        if c['nan']:
            ds['abcdef'[k] * c['lname']].values[-1] = np.nan
    ds.attrs = dict(inst_make='Nortek', inst_model='Vector', rotate_vars=['vel', 'accel'][:c['nrot']], coord_sys='inst')
    b = ds.copy(deep=True)
    f = os.path.join(scratch(), 'x')
    name = f + c['ext']
    dolfyn.save(ds, name, compression=bool(c['comp']))
    need(os.listdir(os.path.dirname(f)) == ['x.nc'], "file written: %s", os.listdir(os.path.dirname(f)))
    a = dolfyn.load(name)
    nc_same(a, b, 'loaded')
    exact(a, b, 'loaded')
    return (n, str(a['v'].values[-1]))


def ext(c):
    ds = D.full('vector')
    d = scratch()
    f = os.path.join(d, c['name'])
    os.makedirs(os.path.dirname(f), exist_ok=True)
    ok = c['ok']
    try:
        dolfyn.save(ds, f) if c['kind'] == 'nc' else dolfyn.save_mat(ds, f)
    except IOError:
        need(not ok, "save refused %s", c['name'])
        return 'refused'
    need(ok, "save accepted %s", c['name'])
    need(os.path.isfile(os.path.join(d, ok)), "%s was not written", ok)
    return ok


def lfs(c):
    d = scratch()
    p = os.path.join(d, 'x.nc')
    open(p, 'w').write('version https://git-lfs.github.com/spec/v1\noid sha256:0\n')
    try:
        dolfyn.load(p)
    except IOError as e:
        need('git-lfs' in str(e), "message")
        return 1
    raise Fail("loaded a pointer")


def run(ex):
    global QUICK
    QUICK = ex.quick
    ex.bfs('histories', list(D.FULL), events, step, ex.pick(3, 4),
           "all histories of save/load (4 ways), rotations, declination, slicing, new variables and attributes")
    ex.cases('content', [dict(c) for c in product(
        n=(2, 1, 5), comp=(0, 1), ext=('', '.nc'), ncplx=(0, 1, 2, 3), lname=(1, 3), nrot=(1, 2), nan=(0, 1), attrs=(1,),
        dtype=('float32',), scale=(1,), off=(0,), t0=('2020-02-29T23:59:59.9',), dt_us=(125000,)) if c['ncplx'] or c['lname'] == 1] +
        [dict(c) for c in product(
            n=(2, 7), comp=(0, 1), ext=('',), ncplx=(0, 1), lname=(2,), nrot=(2,), nan=(0, 1), attrs=(0, 1),
            dtype=('float32', 'float64', 'int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64', 'bool'),
            scale=(1, -1, 13), off=(0, 100), t0=('2020-02-29T23:59:59.9',), dt_us=(125000,))
         if not (c['dtype'][0] == 'u' and c['scale'] < 0) and not (c['dtype'].endswith('int8') and c['scale'] * 6 + c['off'] > 127)] +
        [dict(c) for c in product(
            n=(2, 1, 7), comp=(0,), ext=('',), ncplx=(0,), lname=(2,), nrot=(2,), nan=(0,), attrs=(1,), dtype=('float32',),
            scale=(1,), off=(0,), t0=('1970-01-01T00:00:00', '1999-12-31T23:59:59.999999', '2020-02-29T23:59:59.9',
                                      '2038-01-19T03:14:07', '2100-01-01T00:00:00.000001'),
            dt_us=(1, 3, 125000, 1000000, 600000000, 86400000000, 31250))], content,
        "lengths x compression x complex variables x types x times")
    n = ex.pick(3, 5)
    ex.cases('no_time', [dict(n=n, comp=z, ext='.nc', ncplx=k, lname=1, nrot=2, nan=0, attrs=1, dtype='float32', scale=1, off=0, t0='2020-02-29T23:59:59.9',
                              dt_us=125000, gone=list(g)) for z in (0, 1) for k in (0, 1) for m in range(1, n + 1) for g in itertools.combinations(range(n), m)], content,
             "every set of samples without a time")
    ex.cases('name', [dict(kind=k, name=n.replace('EXT', k), ok=o and o.replace('EXT', k)) for k in ('nc', 'mat') for n, o in
                      [('a', 'a.EXT'), ('a.EXT', 'a.EXT'), ('a.b.c.EXT', 'a.b.c.EXT'), ('d.x/a', 'd.x/a.EXT'), ('a.txt', None),
                       ('a.EXT.bak', None), ('d.nc/a.EXT', 'd.nc/a.EXT'), ('a.ncx', None), ('d.mat/a', 'd.mat/a.EXT'),
                       ('a.EXT1', None)]], ext, "file names")
    es = [dict(zlib=True), dict(zlib=True, complevel=3), dict(zlib=True, complevel=9, shuffle=False), dict(zlib=False), dict(dtype='float64'),
          dict(zlib=True, complevel=2, shuffle=True, fletcher32=True)]
    ex.cases('encoding', [dict(c) for c in product(k=('rdi', 'sig', 'vector', 'awac') if ex.quick else tuple(D.FULL), v=('vel', 'temp', 'c_sound'), e=es,
                                                   comp=(None, True, False), pre=(0, 1)) if not (c['v'] == 'c_sound' and c['k'] == 'rdi')], encoding,
             "encoding arguments x variable x compression x saved before")
    from . import c17
    ex.cases('single', c17.singles(ex, 'comp'), c17.single, "every dimension, pair (thorough: up to four) of dimensions cut to one entry")
    ex.cases('derived', c17.deriveds(ex, 'comp'), c17.derived, "what users add and what the binning makes, saved and loaded")
    ex.cases('lfs', [0], lfs, "Git-LFS pointer")
