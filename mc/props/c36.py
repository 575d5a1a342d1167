"""C36  Array tools: groups, slices, gap filling, median filter."""
import itertools
import numpy as np
from dolfyn.tools import misc
from .. import spec_ref as S
from ..core import need, product, Fail
from ..util import same
from .c34 import runs

LEVEL = "exploration"


def group(c):
    b = np.array([(c['b'] >> k) & 1 for k in range(c['n'])], bool)
    b0 = b.copy()
    kw = {} if c['min'] == 0 else dict(min_length=c['min'])
    g = misc.group(b, **kw)
    e = [(i, j) for i, j in runs(list(b)) if j - i >= c['min']]
    need([(s.start, s.stop) for s in g] == e and all(s.step is None for s in g), "groups %s, expected %s", list(g), e)
    need((b == b0).all(), "input changed")
    return e


def slices(c):
    shp, ax = tuple(c['shape']), c['axis']
    a = np.arange(int(np.prod(shp))).reshape(shp)
    e = np.moveaxis(a, ax, -1).reshape(-1, shp[ax])
    got = [a[s] for s in misc.slice1d_along_axis(shp, ax)]
    need(len(got) == len(e), "%d slices, expected %d", len(got), len(e))
    for k, (p, q) in enumerate(zip(got, e)):
        need(p.shape == q.shape and (p == q).all(), "slice %d: %s, expected %s", k, p.tolist(), q.tolist())
    out = np.zeros(shp)
    for s in misc.slice1d_along_axis(shp, ax):
        out[s] += 1
    need((out == 1).all(), "cells visited %s times", np.unique(out))
    return len(e)


def ref_fill(x, t, maxgap, ext):
    y = x.copy()
    n = len(x)
    ok = [k for k in range(n) if not np.isnan(x[k])]
    for i, j in runs(list(np.isnan(x))):
        if i == 0 and j == n:
            continue
        if j - i > maxgap:
            continue
        if i == 0:
            if ext:
                y[:j] = x[j]
        elif j == n:
            if ext:
                y[i:] = x[i - 1]
        else:
            for k in range(i, j):
                y[k] = x[i - 1] + (x[j] - x[i - 1]) * (t[k] - t[i - 1]) / (t[j] - t[i - 1])
    return y


def fill(c):
    n = c['n']
    t = np.arange(n) + 0. if c['t'] == 'even' else np.cumsum(1 + np.arange(n) ** 2 % 3) + .5
    x = S.signal(n, 'mix')
    M = [[(b >> k) & 1 for k in range(n)] for b in c['m']]
    rows = np.array([np.where(m, np.nan, x * (k + 1) + k) for k, m in enumerate(M)]).astype(c['dt'])
    if c['nd'] == 1:
        a, dim = rows[0].copy(), 0
    elif c['nd'] == 2:
        a, dim = rows.copy(), c['dim']
        if dim in (0, -2):
            a = a.T.copy()
    else:
        a = np.array([rows, rows[::-1]])
        dim = c['dim']
        a = np.moveaxis(a, -1, dim).copy()
    gap = np.inf if c['gap'] is None else c['gap']
    kw = {}
    if c['gap'] is not None:
        kw['maxgap'] = c['gap']
    if c['ext']:
        kw['extrapFlg'] = True
    if dim != 0 or c['nd'] == 1:
        kw['dim'] = dim
    if c['nd'] > 1 and dim == 0:
        kw['dim'] = 0
    e = np.apply_along_axis(lambda r: ref_fill(r.astype(float), t if c['f'] == 'interp' else np.arange(n), gap, c['ext']), dim, a)
    g = misc.fillgaps(a, **kw) if c['f'] == 'fill' else misc.interpgaps(a, t, **kw)
    need(g is not None, "nothing returned")
    same('filled', g, e, 1e-5 if c['dt'] == 'f4' else 1e-12, 1e-5 if c['dt'] == 'f4' else 1e-12)
    need(g.dtype == np.dtype(c['dt']), "type %s", g.dtype)
    return np.isnan(e).astype(int).ravel().tolist()


def medfilt(c):
    n = c['n']
    if c['nd'] == 1:
        a = S.signal(n, 'mix')
        k = [1, c['k']]
        b = a[None]
        arg = c['k']
    else:
        a = np.array([S.signal(n, 'mix', s) for s in range(c['rows'])])
        k = [c['k']] * 2 if c['k2'] is None else [c['k'], c['k2']]
        b = a
        arg = k if not (c['k2'] is None) else [c['k'], c['k']]
    if c['nan']:
        b[0, c['nan']] = np.nan
        if c['nd'] == 1:
            a = b[0]
    a0 = a.copy()
    g = misc.medfiltnan(a, arg, **({} if c['th'] is None else dict(thresh=c['th'])))
    need(np.array_equal(a, a0, equal_nan=True), "input changed")
    need(g.shape == a.shape, "shape %s", g.shape)
    h = np.atleast_2d(g)
    out = []
    for i in range(b.shape[0]):
        for j in range(n):
            w = [b[p, q] if 0 <= p < b.shape[0] and 0 <= q < n else 0. for p in range(i - k[0] // 2, i + k[0] // 2 + 1)
                 for q in range(j - k[1] // 2, j + k[1] // 2 + 1)]
            frac = np.isnan(w).mean()
            if c['th'] and frac > c['th'] + 1e-9:
                need(np.isnan(h[i, j]), "[%d,%d] = %s although %.2f of the window is missing", i, j, h[i, j], frac)
            elif frac == 0:
                e = sorted(w)[len(w) // 2]
                need(abs(h[i, j] - e) < 1e-9, "[%d,%d] = %s, expected %s", i, j, h[i, j], e)
            out.append(bool(frac))
    return [int(x) for x in out]


def run(ex):
    q = ex.tier == 'quick'
    N = 10 if q else 13
    ex.cases('group', [dict(n=n, b=b, min=m) for n in range(1, N + 1) for b in range(2 ** n) for m in (0, 1, 2, 3)], group,
             "every boolean array x minimum length")
    shapes = [list(s) for k in (1, 2, 3, 4) for s in itertools.product((1, 2, 3), repeat=k)]
    if not q:
        shapes += [list(s) for s in itertools.product((1, 2), repeat=5)] + [[4, 1, 5], [2, 7, 3]]
    ex.cases('slices', [dict(shape=s, axis=a) for s in shapes for a in range(-len(s), len(s)) if len(s) > 1], slices, "every small shape x axis")
    L = 7 if q else 9
    ex.cases('fill', [dict(f=f, n=L, m=[b], nd=1, gap=g, ext=e, t=t, dt=dt) for f in ('fill', 'interp') for b in range(2 ** L) for g in
                      (None, 1, 2, 3) for e in (0, 1) for t, dt in (('even', 'f8'), ('odd', 'f8'), ('odd', 'f4'))], fill,
             "every pattern of missing samples x largest gap x extrapolation x spacing")
    ex.cases('fill_nd', [dict(f=f, n=L, m=[b, (b * 5 + 3) % 2 ** L, (b * 3) % 2 ** L], nd=nd, dim=d, gap=g, ext=e, t='odd', dt='f8')
                         for f in ('fill', 'interp') for b in range(2 ** L) for g in (None, 2) for e in (0, 1)
                         for nd, d in ((2, 0), (2, 1), (2, -1), (2, -2), (3, 0), (3, 1), (3, 2), (3, -1)) if not q or b % 3 == 0], fill,
             "the same along each dimension of 2-D and 3-D arrays")
    ex.cases('medfilt', [dict(nd=1, n=n, k=k, th=th, nan=nn, k2=None) for n in (5, 9) for k in (1, 3, 5) for th in (None, .3, .5, .7) for nn in
                         ([], [0], [4], [1, 2], [2, 3, 4], [0, 1, 2, 3, 4])] +
             [dict(nd=2, rows=r, n=7, k=k, k2=k2, th=th, nan=nn) for r in (3, 4) for k in (1, 3) for k2 in (None, 1, 3, 5) for th in (None, .3, .5)
              for nn in ([], [0], [3], [1, 2], [4, 5, 6])], medfilt, "length x kernel x missing samples x threshold")
