"""C31  ADCP shear, Reynolds stresses from beam variances, friction velocity."""
import warnings
import numpy as np
import xarray as xr
from dolfyn.adp.turbulence import ADPBinner
from .. import dsets as D
from .. import spec_ref as S
from ..core import need, product, Fail
from ..util import same, attr_same, ds_same, quiet
from .c27 import TimeMean
from .c30 import fluct, mean, tol

LEVEL = "exploration"
DT = np.timedelta64(250, 'ms')


def beams(T):
    return np.linalg.inv(T)


def grid(L, nr, pat, dx=.5, ncomp=3, z0=.7):
    x = np.stack([np.stack([S.signal(L, pat, k + 3 * j) * (1 + .2 * k) + .3 * j * j for j in range(nr)]) for k in range(ncomp)])
    t = np.datetime64('2020-01-01', 'ns') + np.arange(L) * DT
    return xr.DataArray(x, dims=['dir', 'range', 'time'], coords={'dir': list('ABCD')[:ncomp], 'range': z0 + dx * np.arange(nr),
                                                                 'time': t})


def shear(c):
    v = grid(4, c['nr'], c['pat'], c['dx'])
    if c['pat'] == 'gap':
        v.values[:, c['nr'] // 2, 1] = np.nan
    v0 = v.copy(deep=True)
    b = ADPBinner(4, 4., orientation=c['o'], diff_style=c['st']) if c['st'] else ADPBinner(4, 4., orientation=c['o'])
    o = c['over'] or c['o']
    g = [b.calc_dudz(v, orientation=c['over']), b.calc_dvdz(v), b.calc_dwdz(v)]
    z, e = v.range.values, []
    st = c['st'] or 'centered_extended'
    for k in range(3):
        x = v.values[k]
        mid = [(x[i + 1] - x[i - 1]) / (z[i + 1] - z[i - 1]) for i in range(1, c['nr'] - 1)]
        if st == 'first':
            r, zz = [(x[i] - x[i - 1]) / (z[i] - z[i - 1]) for i in range(1, c['nr'])], z[1:]
        elif st == 'centered':
            r, zz = mid, z[1:-1]
        else:
            r, zz = [(x[1] - x[0]) / (z[1] - z[0])] + mid + [(x[-1] - x[-2]) / (z[-1] - z[-2])], z
        e.append(np.array(r))
    for k, n in enumerate(('dudz', 'dvdz', 'dwdz')):
        same(n, g[k].values, e[k] * (-1 if k == 0 and o == 'down' else 1), 1e-6, 1e-8)
        need(g[k].dims == ('range', 'time'), "dims %s", g[k].dims)
        same('range', g[k].range.values, zz, 1e-9, 1e-9)
        same('time', g[k].time.values, v.time.values)
        attr_same('units', g[k].attrs['units'], 's-1')
    s2 = b.calc_shear2(v)
    same('shear2', s2.values, e[0] ** 2 + e[1] ** 2, 1e-6, 1e-8)
    attr_same('units', s2.attrs['units'], 's-2')
    need(v0.identical(v), "the velocity was changed")
    return np.round(np.nan_to_num(e[0]), 3).tolist()


def source(c):
    """Raw dataset in the beam frame, made of chosen instrument-frame velocities."""
    L, nr = c['L'], c.get('nr', 2)
    five = c.get('five', False)
    if c['kind'] == 'sig':
        ds = D.get('sig', n=4, nc=nr, lay=[21, 24] if five else [21], fl=['vel', 'amp', 'corr'])
    else:
        ds = D.get('rdi', n=5, blk='vcaps', ncells=nr)
    ds = ds.isel(time=np.arange(L) % 4, **({'time_b5': np.arange(L) % 4} if five else {}))
    t = np.datetime64('2020-01-01', 'ns') + np.arange(L) * DT
    ds['time'] = t
    if five:
        ds['time_b5'] = t
    ds = ds.copy(deep=True)
    a = c.get('ang', 0)
    if a:                                   # other head geometry
        s, k = np.sin(np.radians(a)), np.cos(np.radians(a))
        T = ds['beam2inst_orientmat'].values
        if c['kind'] == 'sig':
            T = np.array([[1 / (2 * s), 0, -1 / (2 * s), 0], [0, -1 / (2 * s), 0, 1 / (2 * s)], [1 / (2 * k), 0, 1 / (2 * k), 0],
                          [0, 1 / (2 * k), 0, 1 / (2 * k)]])
        else:
            d = 1 / (2 * s) / 2 ** .5
            T = np.array([[1 / (2 * s), -1 / (2 * s), 0, 0], [0, 0, -1 / (2 * s), 1 / (2 * s)], [1 / (4 * k)] * 4, [d, d, -d, -d]])
        ds['beam2inst_orientmat'].values = T
    T = ds['beam2inst_orientmat'].values.astype(float)
    x = grid(L, nr, c['pat'], ncomp=4).values
    x[0] += .6 * x[2]                       # correlated components
    x[1] -= .4 * x[2]
    if c['kind'] == 'rdi' or five:
        x[3] = 0 if c['kind'] == 'rdi' else x[2]
    ds['vel'] = ds.vel.astype('float64')
    ds['vel'].values = np.einsum('ij,jrt->irt', beams(T), x)
    if five:
        ds['vel_b5'] = ds.vel_b5.astype('float64')
        ds['vel_b5'].values = x[2].copy()
    ds['pitch'].values[:] = c.get('p', 0)
    ds['roll'].values[:] = c.get('r', 0)
    if c.get('gap'):
        ds['vel'].values[c['gap'] - 1, 0, 1] = np.nan
        ds['vel'].values[c['gap'] - 1, -1, :c['n']] = np.nan
    return ds, x


def var(ds, n, k):
    v = ds.vel.values[k] if k < 4 else ds.vel_b5.values
    return np.array([[mean(r ** 2) for r in fluct(y, n, False)] for y in v])


def noise_of(c, m):
    return {'none': None, 'num': .2, 'da': xr.DataArray(np.linspace(.1, .3, m), dims=['time'])}[c['noise']]


def pre(c):
    ds, x = source(c)
    m = c['L'] // c['n']
    no = noise_of(c, m)
    n2 = 0 if no is None else np.asarray(getattr(no, 'values', no)) ** 2
    if c['how'] == 'attr':
        ds.attrs['orientation'] = c['o']
        kw, b = {}, ADPBinner(c['n'], 4., orientation='down' if c['o'] == 'up' else 'up')
    elif c['how'] == 'arg':
        ds.attrs['orientation'] = 'down' if c['o'] == 'up' else 'up'
        kw, b = dict(orientation=c['o']), ADPBinner(c['n'], 4.)
    else:
        del ds.attrs['orientation']
        kw, b = {}, ADPBinner(c['n'], 4., orientation=c['o'])
    ang = ds.attrs['beam_angle']
    if c.get('ang'):
        ang = c['ang']
        if c['angby'] == 'arg':
            kw['beam_angle'] = ang
        elif c['angby'] == 'only':
            del ds.attrs['beam_angle']
            kw['beam_angle'] = ang
        else:
            ds.attrs['beam_angle'] = ang
    return ds, x, m, no, n2, kw, b, np.radians(ang)


def stress4(c):
    ds, x, m, no, n2, kw, b, th = pre(c)
    d0 = ds.copy(deep=True)
    with quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        g = b.calc_stress_4beam(ds, noise=no, **kw)
    need(ds.identical(d0), "the raw dataset was changed")
    sc = 4 * np.sin(th) * np.cos(th)
    n = c['n']
    if c['kind'] == 'sig':                  # x: beam 3 to 1, y: beam 2 to 4
        uw, vw = (var(ds, n, 0) - var(ds, n, 2)) / sc, (var(ds, n, 3) - var(ds, n, 1)) / sc
        zu, zv = x[2], x[3]
        if c['o'] == 'down':
            uw = -uw                        # y and z point the other way
    else:                                   # x: beam 1 to 2, y: beam 4 to 3, speeds towards the head are positive
        uw, vw = (var(ds, n, 0) - var(ds, n, 1)) / sc, (var(ds, n, 3) - var(ds, n, 2)) / sc
        zu = zv = x[2]
        if c['o'] == 'up':
            vw = -vw                        # x and z point the other way
    e = np.stack([uw * np.nan, uw, vw])
    if not c.get('gap'):                    # the same from the flow itself
        cov = lambda p, q: np.array([[mean(f * h) for f, h in zip(fluct(i, n, False), fluct(j, n, False))] for i, j in zip(p, q)])
        flow = [cov(x[0], zu), cov(x[1], zv)]
        if c['kind'] == 'sig' and c['o'] == 'down':
            flow[0] = -flow[0]
        if c['kind'] == 'rdi' and c['o'] == 'up':
            flow[1] = -flow[1]
        same("u'w' of the beams and of the flow (harness)", uw, flow[0], 1e-4, tol(flow[0]))
        same("v'w' of the beams and of the flow (harness)", vw, flow[1], 1e-4, tol(flow[1]))
    same('stress', g.values, e, 1e-4, tol(e))
    need(g.dims == ('tau', 'range', 'time'), "dims %s", g.dims)
    same('tau', g.tau.values, np.array(['upvp_', 'upwp_', 'vpwp_']))
    same('range', g.range.values, ds.range.values)
    same('time', g.time.values, TimeMean(ds.time.values, n), 0, 2e-6)
    attr_same('units', g.attrs['units'], 'm2 s-2')
    return np.round(np.nan_to_num(e), 2).tolist()


def formulas(b, w, th, p2, p3, uv, code):
    """Guerra & Thomson (2017); with code=True the expressions as they stand in the package."""
    s, k = np.sin(th), np.cos(th)
    den = -4 * s ** 6 * k ** 2
    uu = (-2 * s ** 4 * k ** 2 * (b[1] + b[0] - 2 * k ** 2 * w) + 2 * s ** 5 * k * p3 * (b[1] - b[0])) / den
    vv = (-2 * s ** 4 * k ** 2 * (b[3] + b[0 if code else 2] - 2 * k ** 2 * w) - 2 * s ** 4 * k ** 2 * p3 * (b[1] - b[0]) +
          2 * s ** 3 * k ** 3 * p3 * (b[1] - b[0]) - 2 * s ** 5 * k * p2 * (b[3] - b[2])) / den
    if code:
        ww = -2 * s ** 5 * k * (b[1] - b[0] + 2 * s ** 5 * k * p2 * (b[3] - b[2]) - 4 * s ** 6 * k ** 2 * w) / den
        q = 2 * k
    else:
        ww = (-2 * s ** 5 * k * p3 * (b[1] - b[0]) + 2 * s ** 5 * k * p2 * (b[3] - b[2]) - 4 * s ** 6 * k ** 2 * w) / den
        q = k ** 2
    uw = (s ** 5 * k * (b[1] - b[0]) + 2 * s ** 4 * q * p3 * (b[1] + b[0]) - 4 * s ** 4 * q * p3 * w - 4 * s ** 6 * q * p2 * uv) / den
    vw = (s ** 5 * k * (b[3] - b[2]) - 2 * s ** 4 * q * p2 * (b[3] + b[2]) + 4 * s ** 4 * q * p2 * w + 4 * s ** 6 * q * p3 * uv) / den
    return [uu, vv, ww, uv, uw, vw]


def stress5(c):
    ds, x, m, no, n2, kw, b, th = pre(dict(c, kind='sig', five=True))
    d0 = ds.copy(deep=True)
    with quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        t, s = b.calc_stress_5beam(ds, noise=no, **kw)
        t1 = b.calc_stress_5beam(ds, noise=no, tke_only=True, **kw)
    need(ds.identical(d0), "the raw dataset was changed")
    need(t1.identical(t), "tke_only gives another result")
    n = c['n']
    order = [0, 2, 3, 1] if c['o'] == 'up' else [2, 0, 3, 1]
    bb = [var(ds, n, k) - n2 for k in order]
    w = var(ds, n, 4) - n2
    p2 = np.radians(np.full(m, float(c['r'])))
    p3 = -np.radians(np.full(m, float(c['p'])))
    uv = np.array([[mean(f * h) for f, h in zip(fluct(i, n, True), fluct(j, n, True))] for i, j in zip(x[0], x[1])])
    ref, old = formulas(bb, w, th, p2, p3, uv, False), formulas(bb, w, th, p2, p3, uv, True)
    if c['p'] == c['r'] == 0 and c['noise'] == 'none':
        sgn = 1 if c['o'] == 'up' else -1
        f = [[fluct(y, n, False) for y in x[k]] for k in range(3)]
        cov = lambda i, j: np.array([[mean(p * q) for p, q in zip(f[i][r], f[j][r])] for r in range(len(f[0]))])
        for nm, k, e in (('u', 0, cov(0, 0)), ('v', 1, cov(1, 1)), ('w', 2, cov(2, 2)), ('uw', 4, sgn * cov(0, 2)),
                         ('vw', 5, cov(1, 2))):
            same('reference %s and flow (harness)' % nm, ref[k], e, 1e-4, tol(e))
    for nm, da, dim, names in (('tke', t, 'tke', ['upup_', 'vpvp_', 'wpwp_']), ('stress', s, 'tau', ['upvp_', 'upwp_', 'vpwp_'])):
        need(da.dims == (dim, 'range', 'time'), "dims %s", da.dims)
        same(dim, da[dim].values, np.array(names))
        same('range', da.range.values, ds.range.values)
        same('time', da.time.values, TimeMean(ds.time.values, n), 0, 2e-6)
        attr_same('units', da.attrs['units'], 'm2 s-2')
    got = list(t.values) + list(s.values)
    bad = []
    for k, nm in enumerate(('upup_', 'vpvp_', 'wpwp_', 'upvp_', 'upwp_', 'vpwp_')):
        tl = 1e-4 * (1 + max(np.nanmax(np.abs(ref[k])), np.nanmax(np.abs(old[k]))))
        try:
            same(nm, got[k], ref[k], 1e-4, tl)
        except Fail:
            same(nm, got[k], old[k], 1e-4, tl)
            bad.append(nm)
    if bad:
        raise Fail("not the published expression: " + ' '.join(bad))
    return np.round(np.nan_to_num(ref), 2).tolist()


def rotated(c):
    """A raw dataset in another frame is rotated (and the caller warned)."""
    ds, x = source(dict(c, pat='mix'))
    b = ADPBinner(6, 4.)
    ds.attrs['orientation'] = 'up'
    with quiet(), warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        e = b.calc_stress_4beam(ds, noise=.1)
        d2 = ds.copy(deep=True)
        d2.velds.rotate2(c['frame'])
        n0 = len(ws)
        g = b.calc_stress_4beam(d2, noise=.1)
    need(any('Rotating' in str(w.message) for w in ws[n0:]), "no warning")
    same('stress', g.values, e.values, 1e-4, tol(e.values))
    need(d2.coord_sys == 'beam', "frame afterwards %s", d2.coord_sys)
    return np.round(np.nan_to_num(e.values), 2).tolist()


def refused(c):
    ds, x = source(dict(kind=c['kind'], L=12, n=6, pat='mix', five=c['what'] == 'orient5'))
    b = ADPBinner(6, 4., orientation='up')
    if c['what'] == 'angle':
        del ds.attrs['beam_angle']
    elif c['what'].startswith('orient'):
        ds.attrs['orientation'] = 'sideways'
    f = b.calc_stress_5beam if c['what'] in ('nob5', 'orient5') else b.calc_stress_4beam
    try:
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            f(ds)
    except Exception as e:
        return str(e)[:30]
    raise Fail("accepted")


def ustar(c):
    nr, m = c['nr'], 3
    z = .7 + c['dx'] * np.arange(nr)
    H = c['H']
    u2 = np.array([.01, .04, .0009])
    x = u2 * (1 - z[:, None] / H) * np.array([1, -1, 1]) * (-1 if c['neg'] else 1)
    if c['rip']:
        x = x * (1 + .1 * np.cos(np.arange(nr))[:, None])
    if c['gap']:
        x[2, 1] = np.nan
    t = np.datetime64('2020-01-01', 'ns') + np.arange(m) * DT
    up = xr.DataArray(x, dims=['range', 'time'], coords={'range': z, 'time': t})
    ds = xr.Dataset({'depth': ('time', np.full(m, H + 0.))}, coords={'range': z, 'time': t})
    kw = {}
    if c['by'] == 'arg':
        kw['H'] = H
        ds['depth'] = ds.depth * 3
    sl = slice(1, 5)
    if c['sl']:
        sl = slice(*c['sl'])
        kw['z_inds'] = sl
    d0, u0 = ds.copy(deep=True), up.copy(deep=True)
    g = ADPBinner(4, 4.).calc_ustar_fit(ds, up, **kw)
    y = np.abs(x[sl]) / (1 - z[sl, None] / H)
    e = np.sqrt(np.array([mean(y[:, k]) for k in range(m)]))
    same('friction velocity', g.values, e, 1e-5, 1e-7)
    if not c['rip']:
        same('friction velocity of a linear stress profile', g.values, np.sqrt(u2), 1e-5, 1e-7)
    need(g.dims == ('time',), "dims")
    same('time', g.time.values, t)
    need(ds.identical(d0) and up.identical(u0), "inputs were changed")
    return np.round(e, 4).tolist()


def run(ex):
    P = ['mix', 'wave', 'gap']
    ex.cases('shear', list(product(nr=ex.pick([3, 5], [3, 4, 5, 9]), pat=P, dx=[.5, 1., .13], o=['up', 'down'], over=[None, 'up', 'down'],
                                   st=['', 'first', 'centered', 'centered_extended'])), shear,
             "cells x spacing x orientation (of the object, given) x difference scheme")
    B = [dict(L=13, n=6), dict(L=12, n=4)]
    B = B if ex.tier == 'quick' else B + [dict(L=24, n=24), dict(L=25, n=5)]
    ex.cases('stress4', [dict(b, **c) for b in B for c in product(kind=['sig', 'rdi'], o=['up', 'down'], how=['attr', 'arg', 'obj'],
                                                                   pat=ex.pick(['mix', 'wave'], ['mix', 'wave', 'trend', 'big']),
                                                                   noise=['none', 'num', 'da'], gap=[0, 1, 2, 3, 4])], stress4,
             "make x orientation and its source x flow x noise x missing samples")
    ex.cases('angle', [dict(L=12, n=6, **c) for c in product(kind=['sig', 'rdi'], o=['up', 'down'], how=['attr'], pat=['mix'], noise=['none'],
                                                             ang=[15, 20, 25, 30], angby=['arg', 'attr', 'only'])], stress4,
             "beam angle x where it is given")
    T5 = list(product(p=[0], r=[0])) if ex.tier == 'quick' else [dict(p=0, r=0)]
    ex.cases('stress5', [dict(b, p=0, r=0, **c) for b in B for c in product(o=['up', 'down'], how=['attr', 'arg', 'obj'], pat=['mix', 'wave'],
                                                                             noise=['none', 'num', 'da'], nr=[2, 3])], stress5,
             "five beams, level: orientation x flow x noise")
    ex.cases('stress5_tilt', [dict(L=12, n=6, **c) for c in product(o=['up', 'down'], how=['arg'], pat=['mix', 'wave'], noise=['none', 'da'],
                                                                    p=[-4, 0, 3], r=[-2, 0, 5], ang=[0, 20], angby=['arg']) if c['p'] or c['r']],
             stress5, "five beams, tilted")
    ex.cases('rotated', list(product(L=[12], kind=['sig', 'rdi'], frame=['inst', 'earth'])), rotated, "raw data in another frame")
    ex.cases('refused', list(product(kind=['sig', 'rdi'], what=['angle', 'orient', 'nob5'])) + [dict(kind='sig', what='orient5')], refused,
             "missing geometry")
    ex.cases('ustar', list(product(nr=[5, 8], dx=[.5, 2.], H=[40., 25.], neg=[0, 1], rip=[0, 1], gap=[0, 1], by=['arg', 'ds'],
                                   sl=[None, (0, 3), (2, 5)])), ustar, "friction velocity: profiles x cells used x depth source")
