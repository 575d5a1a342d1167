"""C24  Principal heading: the axis (or direction) of the flow, whatever the array's form."""
import itertools
import numpy as np
import xarray as xr
import dolfyn
from .. import rot_ref as R
from ..core import need, product, Fail
from ..util import angle_same, quiet, same

LEVEL = "exploration"


def calc(v, mode):
    with quiet(), np.errstate(all='ignore'):
        return dolfyn.calc_principal_heading(v) if mode is None else dolfyn.calc_principal_heading(v, mode)


def ref(v, tidal):
    u = np.asarray(v[0], float) + 1j * np.asarray(v[1], float)
    s = u ** 2 / np.where(np.abs(u) == 0, 1, np.abs(u)) if tidal else u
    ok = ~np.isnan(s)
    s = np.where(ok, s, 0).sum(-1)
    if not tidal:
        return (90 - np.degrees(np.angle(s))) % 360, np.abs(s) / np.maximum(ok.sum(-1), 1), ok.any(-1)
    return (90 - np.degrees(np.angle(s)) / 2), np.abs(s) / np.maximum(ok.sum(-1), 1), ok.any(-1)


def form(v, f):
    if f == 'np':
        return v.copy()
    if f == 'np2':
        return v[:2].copy()
    if f == 'f4':
        return v.astype('f4')
    dims = ['dir'] + ['range'] * (v.ndim == 3) + ['time']
    return xr.DataArray(v.astype('f4' if f == 'da4' else 'f8'), dims=dims, name='vel')


def compare(v, c):
    tidal = c['mode'] is not False
    x = form(v, c['form'])
    before = np.array(x, copy=True)
    got = calc(x, c['mode'])
    same('the velocities passed in', np.asarray(x), before, 0, 0)
    e, mag, any_ = ref(v, tidal)
    g = np.asarray(np.ma.filled(got, np.nan), float)
    need(g.shape == e.shape, "shape %s, expected %s", g.shape, e.shape)
    d = (g - e + (90 if tidal else 180)) % (180 if tidal else 360) - (90 if tidal else 180)
    clear = (mag > 1e-3) & any_
    need(np.all(np.abs(d[clear]) < 2e-3) if d.ndim else (not clear or abs(d) < 2e-3), "heading %s, expected %s", g, e)
    if tidal:
        gg = g[clear] if g.ndim else g
        need(not np.any(clear) or np.all((gg >= 0) & (gg <= 180)), "tidal heading %s outside 0-180", g)
    else:
        gg = g[clear] if g.ndim else g
        need(not np.any(clear) or np.all((gg >= 0) & (gg <= 360)), "heading %s outside 0-360", g)
    if not np.any(any_):
        need(np.all(np.isnan(g)), "heading %s without any velocity", g)
    return np.round(g, 1).tolist() if g.ndim == 0 else 1


def axis(c):
    """Flow along one direction, both ways or one way, plus symmetric scatter."""
    a = np.radians(90 - c['a'])
    s = np.array([1, 2, .5, 1.5, 3, .2]) * (np.array([1, -1, 1, 1, -1, 1]) if c['both'] else 1)
    v = np.array([s * np.cos(a), s * np.sin(a), s * 0 + .3])
    x = compare(v, c)
    if c['both'] == 0 or c['mode'] is not False:
        g = float(calc(form(v, c['form']), c['mode']))
        p = 180 if c['mode'] is not False else 360
        d = (g - c['a'] + p / 2) % p - p / 2
        need(abs(d) < 2e-3, "flow towards %s: heading %s", c['a'], g)
    return x


def combos(c):
    u = [0, 1, -1, .5, -2, np.nan]
    pts = [complex(u[i], u[j]) for i, j in c['p']]
    v = np.array([[z.real for z in pts], [z.imag for z in pts], [9.] * len(pts)])
    return compare(v, c)


def profile(c):
    t = np.arange(c['n'])
    v = np.stack([np.stack([np.cos(t * .7 + k) * (k + 1) + .3 * k, np.sin(t * 1.1 + .5 * k) + .2, t * 0.]) for k in range(c['nz'])], 1)
    v[0, 0, c['n'] // 2] = np.nan
    if c['allnan']:
        v[:2, 0] = np.nan
    return compare(v, c)


def rotated(c):
    """In the principal frame the mean flow along that heading is streamwise."""
    ds = R.dataset(c['src'], c['hpr'], salt=c['salt'])
    with quiet():
        if ds.coord_sys != 'earth':
            dolfyn.rotate2(ds, 'earth')
        v = ds['vel']
        if 'range' in v.dims:
            v = v.mean('range')
        ds.attrs['principal_heading'] = ph = calc(v, c['mode'])
    e = np.asarray(v.values, float)
    with quiet():
        dolfyn.rotate2(ds, 'principal')
    p = ds['vel']
    if 'range' in p.dims:
        p = p.mean('range')
    p = p.values.astype(float)
    same('speed', (p[:2] ** 2).sum(0), (e[:2] ** 2).sum(0), 1e-4, 1e-4)
    if c['mode'] is False:
        need(p[0].mean() > 0, "mean streamwise velocity %s", p[0].mean())
        need(abs(p[1].mean()) < 1e-3, "mean cross-stream velocity %s", p[1].mean())
    else:
        z = p[0] + 1j * p[1]
        s = (z ** 2 / np.abs(z)).mean()
        need(abs(np.angle(s)) < 2e-3, "principal axis at %s rad after rotation", np.angle(s) / 2)
    return round(float(ph), 1)


def run(ex):
    forms = ['np', 'np2', 'f4', 'da', 'da4']
    ex.cases('axes', product(a=ex.pick(range(0, 360, 5), range(0, 360)), both=[0, 1], mode=[None, True, False], form=forms), axis,
             "direction of the flow x one way or both x mode x array type")
    cells = list(itertools.product(range(6), repeat=2))
    pairs = [[a, b] for a in cells for b in cells] if not ex.quick else [[a, b] for a in cells for b in cells if sum(b) % 3 == 0]
    ex.cases('samples', product(p=pairs, mode=[None, False], form=['np', 'da']), combos,
             "all pairs of samples from a grid of velocities with missing components")
    if not ex.quick:
        small = [x for x in cells if 4 not in x]
        ex.cases('samples3', product(p=[[a, b, d] for a in small for b in small for d in small if sum(d) % 2 == 0], mode=[None, False],
                                     form=['np']), combos, "all triples")
    ex.cases('profiles', product(n=[2, 7], nz=[1, 3], allnan=[0, 1], mode=[None, False], form=['np', 'np2', 'f4']), profile,
             "arrays with a range dimension")
    ex.cases('rotated', product(src=[s for s in R.SRC], hpr=['level', 'tilt', 'mix'], salt=ex.pick([0, 1], range(6)), mode=[None, False]),
             rotated, "heading of real datasets used for the principal frame")
