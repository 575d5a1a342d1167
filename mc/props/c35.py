"""C35  ADCP cleaning: surface, cells beyond it, correlation, orientation filter, gap filling."""
import itertools
import numpy as np
import xarray as xr
from dolfyn.adp import clean
from dolfyn.rotate.api import rotate2, set_declination
from .. import dsets as D
from .. import rot_ref as RR
from .. import spec_ref as S
from ..core import need, product, Fail
from ..util import same, attr_same, ds_same, quiet
from .c34 import linfill, runs

LEVEL = "exploration"
KINDS = dict(
    rdi=('rdi', dict(n=4, blk='vcaps')),
    rdi_earth=('rdi', dict(n=4, frame=3)),
    rdi3=('rdi', dict(n=4, ncells=3)),
    sig=('sig', dict(n=4, lay=[21, 24, 28], fl=['vel', 'amp', 'corr'])),
    sig_b5=('sig', dict(n=4, lay=[21, 24], nc24=4, fl=['vel', 'amp', 'corr'])),
    sig_imu=('sig', dict(n=4, lay=[21, 24], fl=['vel', 'amp', 'corr', 'ahrs'])),
    sig_enu=('sig', dict(n=4, lay=[21, 24], cy='ENU', fl=['vel', 'amp', 'corr'])),
    awac=('awac', dict(n=4)),
)


def get(k):
    t, kw = KINDS[k]
    return D.get(t, **dict(kw))


def rdims(ds, v):
    return [d for d in ds[v].dims if 'range' in d]


# ---------------------------------------------------------------- range offset

def offset(c):
    ds = get(c['k'])
    b = ds.copy(deep=True)
    for h in c['h']:
        clean.set_range_offset(ds, h)
    tot = sum(c['h'])
    rs = [d for d in b.dims if 'range' in d]
    need(rs, "no range")
    for r in rs:
        same(r, ds[r].values, b[r].values + tot, 1e-6, 1e-5)
        attr_same('units', ds[r].attrs.get('units'), 'm')
    attr_same('h_deploy', ds.attrs['h_deploy'], tot)
    ds_same(ds, b, skip_vars=rs, skip_attrs=('h_deploy',))
    return [tot, rs]


# ---------------------------------------------------------------- depth from pressure

def from_p(c):
    ds = get(c['k'])
    n = ds.time.size
    P = np.array([c['P'] + .7 * i for i in range(n)])
    T = np.array([c['T'] + i for i in range(n)], float)
    ds['pressure'] = ('time', P.astype('f4'))
    ds['temp'] = ('time', T.astype('f4'))
    if c['h'] is not None:
        ds.attrs['h_deploy'] = c['h']
    b = ds.copy(deep=True)
    clean.find_surface_from_P(ds, **({} if c['S'] is None else dict(salinity=c['S'])))
    sal = 35 if c['S'] is None else c['S']
    rho = 1027 - .15 * (T - 10) + .78 * (sal - 35) + 4.5e-3 * P
    same('water_density', ds.water_density.values, rho, 1e-6, 1e-3)
    same('depth', ds.depth.values, P * 1e4 / (9.81 * rho) + (c['h'] or 0), 1e-5, 1e-4)
    need(ds.depth.dims == ('time',) and ds.water_density.dims == ('time',), "dims")
    attr_same('long_name', ds.depth.attrs['long_name'], 'Depth to Instrument' if c['h'] is None else 'Depth to Seafloor')
    ds_same(ds, b, skip_vars=('depth', 'water_density'))
    return np.round(rho, 3).tolist()


# ---------------------------------------------------------------- cells beyond the surface

def beyond(c):
    ds = get(c['k'])
    n = ds.time.size
    R = ds.range.values.astype(float)
    cell = float(ds.cell_size)
    ds['depth'] = ('time', np.array([np.nan if d is None else d for d in c['d']], 'f4'))
    if c['h']:
        ds.attrs['h_deploy'] = c['h']
    ang = ds.attrs.get('beam_angle')
    kw = {}
    if c['ang'] is not None:
        kw['beam_angle'] = ang = c['ang']
    if c['val'] is not None:
        kw['val'] = c['val']
    val = np.nan if c['val'] is None else c['val']
    b = ds.copy(deep=True)
    if ang is None:
        try:
            clean.nan_beyond_surface(ds, **kw)
        except Exception:
            ds_same(ds, b, 'caller')
            return 'no angle'
        raise Fail("no beam angle, yet a result")
    g = clean.nan_beyond_surface(ds, inplace=bool(c['in']), **kw)
    if c['in']:
        need(g is None, "returned something")
        g = ds
    else:
        ds_same(ds, b, 'caller')
    depth = b.depth.values.astype(float)
    h = c['h'] or 0

    def expect(cos):
        e = b.copy(deep=True)
        for v in b.data_vars:
            rd = rdims(b, v)
            if not rd:
                continue
            r = b[rd[0]].values.astype(float)
            cs = float(b.attrs.get('cell_size_b5', cell)) if rd[0] == 'range_b5' else cell
            lim = depth if rd[0] == 'range_echo' else (depth - h) * cos - cs + h
            with np.errstate(all='ignore'):
                m = r[:, None] > lim[None, :]
            need(b[v].dims[-2:] == (rd[0], b[v].dims[-1]), "harness: dims of %s", v)
            a = e[v].values
            a[..., m] = 0 if a.dtype.kind in 'iu' and np.isnan(val) else val
            e[v].values = a
        return e
    e = expect(np.cos(np.deg2rad(ang)))
    try:
        ds_same(g, e)
    except Fail:
        if c['ang'] is None:
            raise
        ds_same(g, expect(np.cos(ang)))
        raise Fail("beam_angle is taken in radians")
    for v in b.data_vars:
        need(g[v].dtype == b[v].dtype, "type of %s", v)
    return [int(np.isnan(e.vel.values).sum()) if np.isnan(val) else 0, ang]


# ---------------------------------------------------------------- correlation

def corrfilt(c):
    ds = get(c['k'])
    if c['fr'] is not None and c['fr'] != ds.coord_sys:
        if c['fr'] == 'principal':
            ds.attrs['principal_heading'] = 33.
        rotate2(ds, c['fr'])
    fr = ds.coord_sys
    tags = [''] + (['_b5'] if 'vel_b5' in ds else [])
    lv = [20, 49, 50, 51, 90]
    for t in tags:
        a = ds['corr' + t].values
        k = np.arange(a.size).reshape(a.shape)
        ds['corr' + t].values = np.array(lv)[(k * c['step'] + c['s']) % 5].astype(a.dtype)
    b = ds.copy(deep=True)
    g = clean.correlation_filter(ds, inplace=bool(c['in']), **({} if c['th'] is None else dict(thresh=c['th'])))
    if c['in']:
        need(g is None, "returned something")
        g = ds
    else:
        ds_same(ds, b, 'caller')
    th = 50 if c['th'] is None else c['th']
    need(g.coord_sys == fr, "frame %s, was %s", g.coord_sys, fr)
    e = b.copy(deep=True)
    rotate2(e, 'beam')
    cnt = 0
    for t in tags:
        m = b['corr' + t].values <= th
        cnt += int(m.sum())
        for v in ('vel', 'corr', 'amp'):
            a = e[v + t].values
            need(a.shape == m.shape, "harness: shape of %s", v)
            a[m] = 0 if a.dtype.kind in 'iu' else np.nan
            e[v + t].values = a
    rotate2(e, fr)
    ds_same(g, e, skip_attrs=('rotate_vars',), rtol=1e-5, atol=1e-5)
    for t in tags:
        for v in ('corr', 'amp'):
            need(g[v + t].dtype == b[v + t].dtype, "type of %s%s", v, t)
    return [fr, cnt]


# ---------------------------------------------------------------- orientation filter

def run_median(x, k):
    """Interior values only."""
    h = k // 2
    return {i: sorted(x[i - h:i + h + 1])[h] for i in range(h, len(x) - h)}


def orient(c):
    imu = c['k'] == 'sig_imu'
    n, k = c['n'], c['nf']
    t, kw = KINDS[c['k']]
    ds = D.get(t, **dict(kw, n=n))
    if imu:
        j = np.arange(n)
        q = np.array([.8 - .02 * j, .3 + .03 * j, .35 + .01 * j ** 1.5, .2 + .02 * j])
        q[:, n // 2] += [-.3, .2, .4, .1]
        q[1, n // 3] *= -1
        q = q / np.sqrt((q ** 2).sum(0))
        ds.quaternions.values[:] = q
    else:
        for i, v in enumerate(('pitch', 'roll', 'heading')):
            ds[v].values[:] = S.signal(n, 'mix', i + c['s']) * 5 + 40 * (i == 2)
    if c['dec']:
        set_declination(ds, c['dec'])
    b = ds.copy(deep=True)
    g = clean.medfilt_orient(ds, **({} if k == 7 else dict(nfilt=k)))
    ds_same(ds, b, 'caller')
    h = k // 2
    if imu:
        e = {}
        for i in range(4):
            m = run_median(list(b.quaternions.values[i].astype(float)), k)
            for j, v in m.items():
                need(abs(float(g.quaternions.values[i, j]) - v) < 1e-6, "quaternion %d at %d: %s, expected %s", i, j, g.quaternions.values[i, j], v)
        need(g.orientmat.dims == b.orientmat.dims, "orientmat dims")
        Q = g.quaternions.values.astype(float)
        o = np.stack([quat2mat(Q[:, j] / np.sqrt((Q[:, j] ** 2).sum())) for j in range(n)], -1)
        if c['dec']:
            w = ds.drop_vars([v for v in ds.data_vars if v not in ('orientmat', 'heading')])
            for a in ('declination', 'declination_in_orientmat'):
                del w.attrs[a]
            w.attrs['coord_sys'] = 'inst'
            w['orientmat'].values = o
            set_declination(w, c['dec'])
            try:
                same('orientmat', g.orientmat.values, w.orientmat.values, 1e-5, 1e-5)
            except Fail as f:
                raise Fail('with declination: %s' % f)
        else:
            same('orientmat', g.orientmat.values, o, 1e-5, 1e-5)
        ds_same(g, b, skip_vars=('quaternions', 'orientmat'))
    else:
        need('orientmat' not in g, "the old orientation matrix was kept")
        for v in ('pitch', 'roll', 'heading'):
            for j, w in run_median(list(b[v].values.astype(float)), k).items():
                need(abs(float(g[v].values[j]) - w) < 1e-5, "%s at %d: %s, expected %s", v, j, g[v].values[j], w)
        ds_same(g, b, skip_vars=('pitch', 'roll', 'heading', 'orientmat'))
    return [n, k]


def quat2mat(q):
    """Signature quaternions: rows earth, columns instrument."""
    w, x, y, z = q
    return np.array([[w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)],
                     [2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)],
                     [2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z]]).T


# ---------------------------------------------------------------- threshold, gap filling

V = [0., 4.9, 5.1, -5.1, np.nan, -2.]


def exceeds(c):
    x = np.array([V[k] for k in c['v']])
    if c['nd'] == 2:
        x = np.array([x, x[::-1]])
    u = xr.DataArray(x.astype(c['dt']), dims=['range', 'time'][2 - c['nd']:], attrs={'units': 'm s-1'})
    u0 = u.copy(deep=True)
    kw = {}
    if c['th'] is not None:
        kw['thresh'] = c['th']
    if c['val'] is not None:
        kw['val'] = c['val']
    g = clean.val_exceeds_thresh(u, **kw)
    need(u.identical(u0), "the data were changed")
    th, val = c['th'] or 5, np.nan if c['val'] is None else c['val']
    e = np.array([val if abs(y) > th else y for y in x.ravel()]).reshape(x.shape)
    same('values', g.values, e, 1e-6)
    need(g.dims == u.dims and g.attrs == u.attrs and g.dtype == u.dtype, "dims, attributes, type")
    return np.nan_to_num(e).tolist()


def gaps(c):
    n, time = c['n'], c['f'] == 'time'
    fn = clean.fillgaps_time if time else clean.fillgaps_depth
    t = {'even': np.arange(n) * .5, 'odd': np.cumsum(1 + np.arange(n) % 3)}[c['t']].astype(float)
    M = [[(b >> k) & 1 for k in range(n)] for b in c['m']]
    cub = c['method'] != 'linear'
    tt = t if time else np.arange(n, dtype=float)
    rows = []
    for k in range(len(M)):
        rows.append((.02 - .01 * k) * tt ** 3 - .2 * tt ** 2 + k * tt + 1 if cub else S.signal(n, 'mix', k) * (k + 1) + k)
    x = np.where(np.array(M, bool), np.nan, np.array(rows))
    tn = 'time_b5' if c['b5'] else 'time'
    rn = 'range_b5' if c['b5'] else 'range'
    ns = np.datetime64('2020-01-01', 'ns') + (t * 1e9).astype('int64').astype('timedelta64[ns]')
    k = len(M)
    if time:
        u = xr.DataArray(x, dims=[rn, tn], coords={rn: 1. + np.arange(k), tn: ns})
    else:
        u = xr.DataArray(x.T, dims=[rn, tn], coords={rn: 1. + t, tn: ns[:1] + np.arange(k).astype('timedelta64[s]')})
    if c['nd'] == 3:
        u = xr.concat([u, u * 2], 'dir').assign_coords(dir=['E', 'N'])
    u.attrs['units'] = 'm s-1'
    u0 = u.copy(deep=True)
    kw = {}
    if c['method'] != 'cubic':
        kw['method'] = c['method']
    if c['gap'] is not None:
        kw['maxgap'] = c['gap']
    g = fn(u, **kw)
    need(u.identical(u0), "the data were changed")
    gap = n if c['gap'] is None else c['gap']
    if cub:
        ref = np.array(rows)
        e = np.empty_like(ref)
        z = np.empty_like(ref)
        for r in range(k):
            bad = np.array(M[r], bool)
            e[r] = z[r] = np.where(bad, np.nan, ref[r])
            for i, j in runs(M[r]):
                if i == 0 or j == n:
                    continue
                if j - i <= gap:
                    e[r, i:j] = ref[r, i:j]
                z[r, i:min(j, i + gap)] = ref[r, i:min(j, i + gap)]
    else:
        e, z = (np.array([linfill(r, tt, np.array(m, bool), gap)[w] for r, m in zip(rows, M)]) for w in (0, 1))
    if not time:
        e, z = e.T, z.T
    if c['nd'] == 3:
        e, z = np.array([e, 2 * e]), np.array([z, 2 * z])
    need(g.dims == u.dims, "dims %s", g.dims)
    for d in u.coords:
        same(d, g[d].values, u[d].values)
    tol = 1e-4 if cub else 1e-6
    try:
        same('filled', g.values, e, tol, tol)
    except Fail:
        same('filled', g.values, z, tol, tol)
        raise Fail("the first maxgap cells of a longer gap were filled")
    return np.isnan(e).astype(int).ravel().tolist()


# ---------------------------------------------------------------- surface from the echo

def code_formula(amp, R, vshape, thresh):
    """What the code is known to compute (see the known finding)."""
    inds = amp.argmax(1)
    edf = np.diff(amp.astype(int), axis=1)
    last = np.array([[max([k for k in range(edf.shape[1]) if edf[b, k, t] < 0], default=0) + 1 for t in range(amp.shape[2])]
                     for b in range(amp.shape[0])])
    d = np.median(np.vstack([R[inds], R[last]]), 0)
    for ip in range(vshape[1]):
        i = inds[:, ip].min()
        if (edf[i:, :, ip] < thresh).all():
            d[ip] = np.nan
    return d


def surface(c):
    nb, nr, nt = c['nb'], c['nr'], c['nt']
    R = .7 + .5 * np.arange(nr)
    amp = np.zeros((nb, nr, nt), int)
    truth = np.empty(nt)
    for t in range(nt):
        p = (c['p'] + t * c['dp']) % nr
        truth[t] = R[p]
        for b in range(nb):
            for k in range(nr):
                amp[b, k, t] = 100 - k * (60 // nr) - b if c['bg'] == 'decay' else 60 + b
            amp[b, p, t] = 150 + b if c['jump'] == 'peak' else amp[b, p, t]
            if c['tail'] == 'high':
                amp[b, p + 1:, t] = 149 + b - np.arange(nr - p - 1)
    co = dict(range=R, time=np.arange(nt).astype('M8[s]').astype('M8[ns]'))
    ds = xr.Dataset({'amp': (('beam', 'range', 'time'), amp.astype(c['dt'])), 'vel': (('dir', 'range', 'time'), np.zeros((nb, nr, nt), 'f4'))}, co)
    b = ds.copy(deep=True)
    kw = {} if c['th'] is None else dict(thresh=c['th'])
    th = c['th'] or 10
    e = truth if c['jump'] == 'peak' else np.full(nt, np.nan)
    try:
        want = code_formula(amp, R, (nb, nr, nt), th)
    except IndexError:
        want = None
    try:
        clean.find_surface(ds, **kw)
    except IndexError:
        if want is None:
            raise Fail("depth is not the range of the echo peak: no result with more cells than profiles")
        raise
    try:
        same('depth', ds.depth.values, e, 1e-5, 1e-4)
    except Fail:
        if want is None:
            raise
        same('depth', ds.depth.values, want, 1e-5, 1e-4)
        if (np.isnan(want) == np.isnan(e)).all() and not (np.abs(want - e) > .51).any():
            return 'within a cell'
        raise Fail("depth is not the range of the echo peak: echoes after the peak or misplaced threshold test")
    need(ds.depth.dims == ('time',), "dims")
    ds_same(ds, b, skip_vars=('depth',))
    return np.round(np.nan_to_num(e, nan=-1), 3).tolist()


def run(ex):
    q = ex.tier == 'quick'
    H = [.6, -1.25, 3]
    ex.cases('offset', [dict(k=k, h=list(s)) for k in KINDS for l in (1, 2, 3) for s in itertools.product(H, repeat=l) if l < 3 or not q or
                        k.startswith('sig')], offset, "every instrument x sequence of offsets")
    ex.cases('from_p', list(product(k=list(KINDS), P=[0, 5, 60], T=[-1.5, 10, 24], S=[None, 0, 31], h=[None, .6])), from_p,
             "instrument x pressure x temperature x salinity x deployment height")
    dv = [None, .5, 1.3, 1.9, 2.6, 3.4, 9.]
    ds_ = [list(s) for s in itertools.product(dv, repeat=4)]
    ds_ = ds_[::23] if q else ds_[::3]
    B = [dict(k=k, d=d, h=h, ang=None, val=v, **{'in': i}) for k in KINDS for d in ds_ for h, v, i in ((0, None, 0), (.6, None, 1), (-1.25, 0, 0), (.6, -9.5, 0))]
    B = [c for c in B if not (c['val'] == -9.5)]
    ex.cases('beyond', [c for c in B], beyond, "instrument x depth sequence x deployment height x value x in place")
    ex.cases('beyond_angle', [dict(k=k, d=d, h=h, ang=a, val=None, **{'in': 0}) for k in KINDS for d in ds_[::4] for h in (0, .6) for a in (0, 20, 25)],
             beyond, "the beam angle given by the caller")
    fr = dict(rdi=['beam', 'inst', 'earth', 'principal'], rdi_earth=['earth', 'inst', 'beam'], rdi3=['beam', 'earth'], sig=['beam', 'inst', 'earth'],
              sig_b5=['beam', 'earth'], sig_imu=['beam', 'inst', 'earth', 'principal'], sig_enu=['earth', 'beam'])
    ex.cases('correlation', [dict(k=k, fr=f, th=th, s=s, step=st, **{'in': i}) for k in fr for f in fr[k] for th in (None, 0, 20, 49, 51, 95)
                             for s in range(5) for st, i in ((1, 0), (2, 1)) + (() if q else ((2, 0), (1, 1)))], corrfilt, "instrument x frame x threshold x pattern x in place")
    ex.cases('orientation', list(product(k=['rdi', 'sig', 'awac', 'sig_imu'], n=[7, 9, 12], nf=[1, 3, 5, 7], s=[0, 1], dec=[0, 12.5, -100])), orient,
             "instrument x length x filter")
    ex.cases('exceeds', [dict(v=list(s), nd=nd, th=th, val=v, dt=dt) for l in (1, 2, 3) + (() if q else (4,)) for s in itertools.product(range(6), repeat=l)
                         for nd, th, v, dt in ((1, None, None, 'f8'), (2, 3, -9.5, 'f4'), (1, 1, 0, 'f8'))], exceeds, "every sequence over six values")
    N = 7 if q else 9

    def fits(c):
        return all(j - i <= (c['gap'] or 99) or i == 0 or j == c['n'] for b in c['m'] for i, j in runs([(b >> k) & 1 for k in range(c['n'])]))
    G = [dict(f=f, n=N, m=[b, (b * 5 + 3) % 2 ** N, (b * 3) % 2 ** N], nd=nd, gap=g, t=t, method='linear', b5=b5) for f in ('time', 'depth')
         for b in range(2 ** N) for nd, t, b5 in ((2, 'odd', 0), (3, 'odd', 1), (2, 'even', 0)) for g in (None, 1, 3) if not q or (b + nd + b5) % 2 == 0]
    C = 12
    def enough(b):
        return C - bin(b).count('1') >= 5
    G += [dict(f=f, n=C, m=[b, b2], nd=2, gap=g, t=t, method='cubic', b5=0) for f in ('time', 'depth') for i in range(C) for l in (1, 2, 3) for i2 in
          range(0, C, 3) for g in (None, 2) for t in ('even', 'odd') for b in [((1 << l) - 1) << i & (1 << C) - 1] for b2 in [b | 1 << i2] if enough(b2)]
    ex.cases('gaps', [c for c in G if fits(c)], gaps, "every pattern of missing cells x largest gap x dimension x method")
    ex.cases('gaps_long', [c for c in G if not fits(c)], gaps, "patterns with gaps longer than maxgap")
    ex.cases('surface', list(product(nb=[3, 4], nr=[5, 8], nt=[6, 9], p=range(1, 5), dp=[0, 1], bg=['decay', 'flat'], jump=['peak', 'none'], tail=['bg', 'high'],
                                     th=[None, 60], dt=['u1', 'f4'])) +
             list(product(nb=[3], nr=[257, 300], nt=[310], p=[1, 250], dp=[0, 1], bg=['decay', 'flat'], jump=['peak'], tail=['bg'], th=[None], dt=['u1'])), surface, "position of the peak x background x threshold x shape")
