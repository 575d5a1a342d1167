"""C25  Angles, quaternions and orientation matrices are one orientation."""
import itertools
import numpy as np
import xarray as xr
import dolfyn
from dolfyn.rotate import base as rb
from .. import rot_ref as R
from .. import dsets as D
from ..core import need, product, Fail
from ..util import angle_same, quiet, same

LEVEL = "exploration"


def euler(c):
    h, p, r = c['h'], c['p'], np.arange(-180, 180, c['dr'], dtype=float)
    n = len(r)
    H, P = np.full(n, float(h)), np.full(n, float(p))
    exp = R.omat([(h, p, x) for x in r])
    if c['form'] == 'rad':
        om = rb.euler2orient(np.radians(H), np.radians(P), np.radians(r), units='radians')
    elif c['form'] == 'scalar':
        om = np.stack([rb.euler2orient(float(h), float(p), float(x)) for x in r], -1)
    else:
        om = rb.euler2orient(H, P, r, **({} if c['form'] == 'deg' else dict(units='Degrees')))
    same('euler2orient', om, exp, 1e-9, 1e-9)
    same('orthonormal', np.einsum('ij...,kj...->ik...', om, om), np.eye(3)[..., None] * np.ones(n), 1e-9, 1e-9)
    a, b = om, None
    if abs(p) < 90:
        g = rb.orient2euler(a)
        angle_same('heading', g[0], H % 360, 1e-6)
        need((g[0] >= 0).all() and (g[0] <= 360).all(), "heading outside 0-360: %s", g[0])
        same('pitch', g[1], P, 1e-6, 1e-6)
        angle_same('roll', g[2], r, 1e-6)
        ds = xr.Dataset({'orientmat': (('earth', 'inst', 'time'), om)})
        g2 = rb.orient2euler(ds)
        for x, y in zip(g, g2):
            same('from a dataset', np.asarray(y), x, 0, 0)
    return round(float(om[0, 0, 0]), 4)


def units(c):
    try:
        rb.euler2orient(np.zeros(2), np.zeros(2), np.zeros(2), units=c['u'])
    except Exception:
        return 1
    raise Fail("units %r accepted" % c['u'])


def quats(c):
    w = c['w']
    q = np.array([[w, x, y, z] for x, y, z in itertools.product(c['v'], repeat=3) if w or x or y or z], float).T
    qn = q / np.sqrt((q ** 2).sum(0))
    t = np.datetime64('2020-01-01', 'ns') + np.arange(q.shape[1]) * np.timedelta64(1, 's')
    da = xr.DataArray(q if c['scale'] else qn, dims=('q', 'time'), coords={'q': ['w', 'x', 'y', 'z'], 'time': t})
    om = rb.quaternion2orient(da)
    w, x, y, z = qn
    # inst -> earth of a unit quaternion; the orientation matrix is its transpose
    M = np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                  [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                  [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])
    same('matrix', om.values, np.swapaxes(M, 0, 1), 1e-9, 1e-9)
    need(om.dims == ('earth', 'inst', 'time'), "dims %s", om.dims)
    need(list(om['earth'].values) == list('ENU') and list(om['inst'].values) == list('XYZ'), "coordinates")
    same('time', om['time'].values, t, 0, 0)
    return q.shape[1]


def tilt(c):
    p = np.arange(-80., 81, c['d'])
    r = np.full(p.shape, float(c['r']))
    e = np.degrees(np.arccos(1 / np.sqrt(1 + np.tan(np.radians(p)) ** 2 + np.tan(np.radians(r)) ** 2)))
    P, Q = dict(np=(p, r), da=(xr.DataArray(p), xr.DataArray(r)), mix=(p, xr.DataArray(r)), mix2=(xr.DataArray(p), r))[c['form']]
    g = rb.calc_tilt(P, Q)
    same('tilt', np.asarray(g), e, 1e-9, 1e-6)
    same('single', np.array([rb.calc_tilt(a, b) for a, b in zip(p, r)]), e, 1e-9, 1e-6)
    same('symmetry', np.asarray(rb.calc_tilt(Q, P)), e, 1e-9, 1e-6)
    return 1


def fromdata(c):
    """orientmat of a dataset read from file -> heading, pitch, roll."""
    ds = R.dataset(c['src'], R.HPR[c['hpr']])
    with quiet():
        h, p, r = (np.asarray(x, float) for x in rb.orient2euler(ds))
    e = np.array(R.HPR[c['hpr']], float)
    angle_same('heading', h, e[:, 0], 0.02)
    same('pitch', p, e[:, 1], 0, 0.02)
    angle_same('roll', r, e[:, 2], 0.02)
    with quiet():
        dolfyn.set_declination(ds, c['decl'])
        h2, p2, r2 = (np.asarray(x, float) for x in rb.orient2euler(ds))
    angle_same('heading with declination', h2, e[:, 0] + c['decl'], 0.02)
    same('pitch with declination', p2, e[:, 1], 0, 0.02)
    angle_same('roll with declination', r2, e[:, 2], 0.02)
    return c['src']


def run(ex):
    d = ex.pick(15, 5)
    ex.cases('euler', product(h=range(0, 361, d), p=range(-90, 91, d), form=['deg', 'Deg', 'rad', 'scalar'], dr=[d]), euler,
             "grid of heading, pitch and roll x units and array forms")
    ex.cases('units', product(u=['deg', 'grad', '', 'rad']), units, "unknown units")
    ex.cases('quaternions', product(w=[-1., -.5, 0., .3, 1.], v=ex.pick([[-1, -.3, 0, .5, 1]], [[-1, -.7, -.3, 0, .1, .5, 1]]),
                                    scale=[0, 1]), quats, "grid of quaternions, normalised or not")
    ex.cases('tilt', product(r=range(-80, 81, d), d=[d], form=['np', 'da', 'mix', 'mix2']), tilt, "grid of pitch and roll x forms")
    ex.cases('datasets', product(src=list(R.SRC), hpr=['level', 'tilt', 'mix'], decl=[0., 20., -95.]), fromdata,
             "instrument x orientations x declination")
