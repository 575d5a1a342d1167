"""C34  ADV cleaning: spikes, limits, despiking, gap filling."""
import itertools
import warnings
import numpy as np
import xarray as xr
from dolfyn.adv import clean
from .. import spec_ref as S
from ..core import need, product, Fail
from ..util import same
from .c30 import mean

LEVEL = "exploration"
NAN = float('nan')
A = [0., 1.5, 12., -12., NAN]


def da(x, t=None):
    x = np.asarray(x)
    n = x.shape[-1]
    t = np.arange(n) if t is None else np.asarray(t)
    dims = ['time'] if x.ndim == 1 else ['dir', 'time']
    co = {'time': np.datetime64('2020-01-01', 'ns') + (t * 1e9).astype('int64').astype('timedelta64[ns]')}
    if x.ndim == 2:
        co['dir'] = list('XYZ')[:len(x)]
    return xr.DataArray(x, dims=dims, coords=co, attrs={'units': 'm s-1'})


def spike(c):
    rows = [[A[k] for k in r] for r in c['v']]
    u = da(np.array(rows if c['nd'] == 2 else rows[0]))
    u0 = u.copy(deep=True)
    g = clean.spike_thresh(u, **({} if c['th'] is None else dict(thresh=c['th'])))
    th = c['th'] or 10
    e = np.zeros(u.shape, bool)
    x = u.values
    with np.errstate(all='ignore'):
        e[..., 1:] = np.abs(x[..., 1:] - x[..., :-1]) > th
    need(g.shape == e.shape and g.dtype == bool, "mask shape %s", g.shape)
    same('spikes', g[..., 1:], e[..., 1:])
    need(u.identical(u0), "the data were changed")
    if g[..., 0].any():
        same('first sample', g[..., 0], np.abs(x[..., 0]) > th)
        raise Fail("the first sample is compared with 0")
    return e.astype(int).tolist()


def limit(c):
    L = [-5., 5., -4.9, 4.9, 7., NAN, -5.1, 0.]
    u = da(np.array([L[k] for k in c['v']] * (1 if c['nd'] == 1 else 2)).reshape([-1] if c['nd'] == 1 else [2, -1]))
    u0 = u.copy(deep=True)
    r = {'0': None, 'a': [-4.95, 6], 'b': [0, 8]}[c['r']]
    g = clean.range_limit(u, **({} if r is None else dict(range=r)))
    lo, hi = r or [-5, 5]
    same('limit', g, np.array([[not (lo < x < hi) for x in y] for y in np.atleast_2d(u.values)]).reshape(u.shape))
    need(u.identical(u0), "the data were changed")
    return g.astype(int).tolist()


def runs(m):
    out, i = [], 0
    while i < len(m):
        j = i
        while j < len(m) and m[j] == m[i]:
            j += 1
        if m[i]:
            out.append((i, j))
        i = j
    return out


def linfill(x, t, bad, maxgap):
    """Expected values; and those where longer gaps are filled up to maxgap samples."""
    y, z = np.where(bad, np.nan, x), np.where(bad, np.nan, x)
    for i, j in runs(list(np.isnan(y))):
        if i == 0 or j == len(x):
            continue
        for k in range(i, j):
            v = x[i - 1] + (x[j] - x[i - 1]) * (t[k] - t[i - 1]) / (t[j] - t[i - 1])
            if j - i <= maxgap:
                y[k] = v
            if k - i < maxgap:
                z[k] = v
    return y, z


def fill(c):
    n = c['n']
    t = {'even': np.arange(n) * .5, 'odd': np.cumsum(1 + np.arange(n) % 3)}[c['t']].astype(float)
    M = [[(b >> k) & 1 for k in range(n)] for b in c['m']]
    x = S.signal(n, 'mix')
    if c['nd'] == 1:
        u, mask = da(x, t), np.array(M[0], bool)
        rows = [(x, mask)]
    else:
        xs = np.array([x * (k + 1) + k for k in range(len(M))]) if c['nd'] == 2 else np.array([x, 2 * x])
        u = da(xs, t)
        mask = np.array(M, bool) if c['nd'] == 2 else np.array(M[0], bool)
        rows = [(r, mask[k] if c['nd'] == 2 else mask) for k, r in enumerate(xs)]
    if c['pre']:
        u.values[..., 3] = np.nan
        rows = [(r, m | (np.arange(n) == 3)) for r, m in rows]
    u0, m0 = u.copy(deep=True), mask.copy()
    try:
        g = clean.clean_fill(u, mask, npt=c['npt'], method='linear', maxgap=c['gap'])
    finally:
        need(u.identical(u0) and (mask == m0).all(), "the caller's data were changed")
    e = np.array([linfill(r, t, m, c['gap'])[0] for r, m in rows])
    z = np.array([linfill(r, t, m, c['gap'])[1] for r, m in rows])
    if c['nd'] == 1:
        e, z = e[0], z[0]
    need(g.dims == u.dims and g.attrs == u.attrs, "dims, attrs")
    same('time', g.time.values, u.time.values)
    try:
        same('filled', g.values, e, 1e-6, 1e-9)
    except Fail:
        same('filled', g.values, z, 1e-6, 1e-9)
        raise Fail("the first maxgap samples of a longer gap were filled")
    return np.isnan(e).astype(int).tolist()


def cubic(c):
    n = 26
    t = np.arange(n) * .25
    p = lambda s: (.3 - s) * t ** 3 - 2 * t ** 2 + s * t + 1
    x = np.array([p(s) for s in (0, .2, .5)])
    m = np.zeros(n, bool)
    for i, k in c['g']:
        m[i:i + k] = True
    u = da(x, t)
    kw = {} if c['npt'] == 12 else dict(npt=c['npt'])
    if c['method']:
        kw['method'] = c['method']
    v = u.copy(deep=True)
    v.values[:, m] = 999.
    g = clean.clean_fill(v, m, **kw)
    end = np.zeros(n, bool)
    for i, j in runs(list(m)):
        if i == 0 or j == n:
            end[i:j] = True
    tl = 1e-4 if c['method'] != 'pchip' else 1.
    same('filled', g.values[:, ~end], x[:, ~end], tl, tl)
    need(c['method'] == 'pchip' or np.isnan(g.values[:, end]).all(), "extrapolated")
    same('valid samples', g.values[:, ~m], x[:, ~m], 0, 0)
    return m.astype(int).tolist()


def ensmean(c):
    n, w = c['n'], c['w']
    m = np.array([(c['m'] >> k) & 1 for k in range(n)], bool)
    x = S.signal(n, 'mix')
    if c['pre']:
        x[2] = np.nan
    rows = np.array([x]) if c['nd'] == 1 else np.array([x, x * 2 + 1, x - 3])[:c['nd2']]
    mask = m if c['nd'] == 1 else np.array([np.roll(m, k) for k in range(len(rows))])
    u = da(rows[0] if c['nd'] == 1 else rows)
    u0, m0 = u.copy(deep=True), mask.copy()
    fs, win = (1, w) if c['fs'] == 1 else (.5, 2 * w) if c['fs'] == .5 else (float(w), 1)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        g = clean.fill_nan_ensemble_mean(u, mask, fs, win)
    need(u.identical(u0) and (mask == m0).all(), "the caller's data were changed")
    e = np.where(np.atleast_2d(mask), np.nan, rows)
    o = e.copy()
    for r in range(len(e)):
        for i in range(0, n, w):
            b = e[r, i:i + w]
            o[r, i:i + w] = np.where(np.isnan(b), mean(b), b)
    need(g.dims == u.dims, "dims")
    same('time', g.time.values, u.time.values)
    same('filled', g.values, o[0] if c['nd'] == 1 else o, 1e-6, 1e-9)
    return np.round(np.nan_to_num(o), 3).tolist()


def gn_ref(u):
    """Goring & Nikora 2002 with Wahl 2003: outside the ellipsoid of the universal threshold; distance of each sample from it."""
    n = len(u)
    ok = ~np.isnan(u)
    u = u - u[ok].mean()
    d, dd = np.zeros(n), np.zeros(n)
    for i in range(1, n - 1):
        d[i] = (u[i + 1] - u[i - 1]) / 2
    for i in range(2, n - 2):
        dd[i] = (d[i + 1] - d[i - 1]) / 2
    lam2 = 2 * np.log(n)
    v = lambda q: q[~np.isnan(q)].var()
    k = ~np.isnan(u * dd)
    al = np.arctan2((u * dd)[k].sum(), (u[ok] ** 2).sum())
    c2, s2 = np.cos(al) ** 2, np.sin(al) ** 2
    su, sd = lam2 * v(u), lam2 * v(dd)
    det = c2 * c2 - s2 * s2
    a, b = (c2 * su - s2 * sd) / det, (c2 * sd - s2 * su) / det
    x, z = u * np.cos(al) + dd * np.sin(al), u * np.sin(al) - dd * np.cos(al)
    with np.errstate(all='ignore'):
        return x ** 2 / a + z ** 2 / b + d ** 2 / (lam2 * v(d))


def gn_expect(u, npt):
    n = len(u)
    q = np.zeros(n)
    for i in range(n // npt):
        q[i * npt:(i + 1) * npt] = gn_ref(u[i * npt:(i + 1) * npt])
    q[-npt:] = gn_ref(u[-npt:])
    return q


def base(n, s):
    k = np.arange(n)
    return np.cos(k * (.3 + .1 * s)) + .1 * np.cos(k * 2.1 + s)


def gn(c):
    n = c['n']
    u = base(n, c['s']) + c.get('off', 0)
    for p, a in c['sp']:
        u[p] += a
    u = u.astype(c.get('dt', 'f8'))
    if c.get('nan'):
        for p in c['nan']:
            u[p] = np.nan
    u0 = u.copy()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        g = clean.GN2002(u, npt=c['npt'])
        need(np.array_equal(u, u0, equal_nan=True), "the data were changed")
        w = np.array([u, base(n, 1).astype(u.dtype), u[::-1]])
        h = clean.GN2002(da(w), npt=c['npt'])
        need(h.shape == w.shape and h.dtype == bool, "mask shape %s", h.shape)
        same('rows', h, np.array([clean.GN2002(r, npt=c['npt']) for r in w]))
        same('array and DataArray', clean.GN2002(da(u), npt=c['npt']), g)
    q = gn_expect(u.astype(float), c['npt'])
    sure = ~(np.abs(q - 1) < (1e-6 if u.dtype == 'f8' else 1e-3))
    same('spikes', g[sure], (q > 1)[sure])
    for p, a in c['sp']:
        if abs(a) >= 6 and not any(p - 4 <= k <= p + 4 for k in c.get('nan', [])) and 2 <= p < n - 2 and p % c['npt'] not in (
                0, 1, c['npt'] - 1, c['npt'] - 2) and c['npt'] >= 20 and len(c['sp']) == 1:
            need(g[p], "a spike of %s at %d is not found", a, p)
    return np.nonzero(g)[0].tolist()


def gn_seg(c):
    """Three or more long gaps: every stretch between them is treated by itself."""
    npt, gap = c['npt'], c['gap']
    parts, u = [], []
    if c['lead']:
        u += [np.nan] * gap
    for k, ln in enumerate(c['len']):
        x = base(ln, k)
        x[c['at'] % ln] += 9
        parts.append((len(u), x))
        u += list(x) + [np.nan] * gap
    if not c['trail']:
        u = u[:-gap]
    u = np.array(u)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        g = clean.GN2002(u, npt=npt)
    e = np.zeros(len(u), bool)
    sure = np.ones(len(u), bool)
    for i, x in parts:
        q = gn_expect(x, min(npt, len(x)))
        e[i:i + len(x)] = q > 1
        sure[i:i + len(x)] = ~(np.abs(q - 1) < 1e-6)
    same('spikes', g[sure], e[sure])
    return np.nonzero(e)[0].tolist()


def run(ex):
    q = ex.tier == 'quick'
    seqs = [list(s) for k in range(1, 5 if q else 6) for s in itertools.product(range(5), repeat=k)]
    first = lambda s: s[0] in (2, 3)
    ex.cases('spike', [dict(v=[s], nd=1, th=th) for s in seqs for th in (None, 1) if not (first(s) or (s[0] == 1 and th == 1))] +
             [dict(v=[[0] + s, [4] + s[::-1], [0] + s], nd=2, th=th) for s in seqs if len(s) < 4 for th in (None, 1)], spike,
             "every sequence over five values x threshold x shape")
    ex.cases('spike_first', [dict(v=[s], nd=1, th=th) for s in seqs for th in (None, 1) if len(s) < 3 and (first(s) or (s[0] == 1 and th == 1))],
             spike, "sequences whose first value is larger than the threshold")
    ex.cases('limit', [dict(v=list(s), nd=nd, r=r) for k in (1, 2, 3) for s in itertools.product(range(8), repeat=k) for nd in (1, 2)
                       for r in '0ab'], limit, "every sequence over the values around the limits x limits x shape")
    N = 8 if q else 11
    ok = lambda b, n, gap, pre: all(j - i <= gap or i == 0 or j == n for i, j in runs([((b >> k) & 1) or (pre and k == 3) for k in range(n)]))
    F = [dict(n=N, m=[b, (b * 5 + 3) % 2 ** N, (b * 3) % 2 ** N] if nd == 2 else [b], nd=nd, gap=gap, npt=npt, t=t, pre=pre)
         for b in range(2 ** N) for gap in (1, 2, 6) for nd, npt, t, pre in ((1, 12, 'even', 0), (1, 2, 'odd', 0), (1, 12, 'odd', 1), (2, 12, 'odd', 0),
                                                                              (3, 3, 'even', 0))]
    F = [dict(c, long=not all(ok(b, N, c['gap'], c['pre']) for b in c['m'])) for c in F]
    ex.cases('fill', [c for c in F if not c['long']], fill, "every mask x largest gap x reach x time spacing x shape")
    ex.cases('fill_long', [c for c in F if c['long'] and (not q or c['m'][0] % 3 == 0)], fill, "masks with gaps longer than maxgap")
    G = [[(i, k)] for i in range(26) for k in (1, 2, 3, 6) if i + k <= 26 and not (i + k > 22 and i + k < 26)]
    G += [[(i, k), (i + k + s, l)] for i in range(0, 12, 1 if not q else 2) for k in (1, 3) for s in (1, 2, 5) for l in (1, 2)]
    ex.cases('cubic', list(product(npt=[12, 6], g=G, method=[None, 'cubic', 'pchip'])), cubic, "cubic data: one or two gaps anywhere x reach x method")
    ex.cases('ensemble_mean', [dict(n=n, w=w, m=b, nd=nd, nd2=nd2, fs=fs, pre=pre) for n, w in ((7, 3), (6, 3), (8, 4)) for b in range(2 ** n)
                               for nd, nd2, fs, pre in ((1, 1, 1, 0), (2, 3, 1, 0), (2, 1, 1, 1), (1, 1, .5, 1), (2, 2, 'float', 0))], ensmean,
             "every mask x shape x window x rate")
    sp = [[]] + [[[p, a]] for p in range(0, 48, 1) for a in (8, -6, .6)] + [[[p, 8], [p + d, a]] for p in range(4, 40, 5) for d in (1, 4, 8) for a in (8, -7)]
    ex.cases('gn2002', [dict(n=n, npt=npt, sp=s, s=k) for n, npt in ((48, 48), (48, 20), (48, 100), (53, 24)) for s in sp for k in (0, 1) if
                        npt != 100 or True] + [dict(n=48, npt=24, sp=s, s=0, off=o, dt=dt) for s in sp for o in (0, 50) for dt in ('f4',)], gn,
             "a spike (or two) at every position x size x stretch length")
    ex.cases('gn_nan', [dict(n=48, npt=npt, sp=[[p, 8]], s=0, nan=nn) for npt in (48, 24) for p in range(2, 46, 1 if not q else 3) for nn in
                        ([0], [47], [7], [20, 21], [30, 40], [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10], [5, 6, 7, 8, 30, 31, 32, 33]) if p not in nn], gn,
             "missing samples: one spike anywhere")
    ex.cases('gn_seg', list(product(npt=[20, 40], gap=[5], len=[[30, 33, 29], [45, 21, 40, 25]], at=range(2, 28, 5), lead=[0, 1], trail=[0, 1])),
             lambda c: gn_seg(c) if len(c['len']) - 1 + c['lead'] + c['trail'] > 2 else None, "long gaps")
