"""C23  The head matrix of a Vector is applied once, to its velocity only, in the instrument's frame."""
import itertools
import numpy as np
import dolfyn
from .. import rot_ref as R
from ..core import need, product, Fail
from ..util import ds_same, quiet, same

LEVEL = "model_checking"
V = [s for s in R.SRC if s.startswith(('vec', 'imu'))]


def mats():
    out = []
    for p in itertools.permutations(range(3)):          # the 24 axis rotations
        for s in itertools.product([1, -1], repeat=3):
            M = np.zeros((3, 3))
            for i in range(3):
                M[i, p[i]] = s[i]
            if np.linalg.det(M) > 0:
                out.append(M)
    for h, pi, r in [(10, 20, 30), (200, -60, 100), (359, 1, -1), (123.4, 45, 90)]:
        out.append(R.omat([(h, pi, r)])[..., 0])
    return out


MATS = mats()
BAD = [np.eye(3) * 1.01, -np.eye(3), np.zeros((3, 3)), np.diag([1, 1, -1.]), np.ones((3, 3)), np.diag([2., 1, 1]), np.diag([1, .99, 1])]


def put(ds, M, how):
    with quiet():
        if how == 'fn':
            need(dolfyn.set_inst2head_rotmat(ds, M) is None, "in-place call returned a value")
        elif how == 'acc':
            need(ds.velds.set_inst2head_rotmat(M) is None, "in-place call returned a value")
        elif how == 'list':
            dolfyn.set_inst2head_rotmat(ds, np.asarray(M).tolist())
        else:
            b = ds.copy(deep=True)
            r = dolfyn.set_inst2head_rotmat(ds, M, inplace=False)
            ds_same(ds, b, "caller's dataset", rtol=0, atol=0)
            return r
    return ds


def good(c):
    ds = R.dataset(c['src'])
    m = R.Model(ds, c['src'])
    M = MATS[c['m']]
    if c.get('decl') is not None and c['order'] == 'decl first':
        with quiet():
            dolfyn.set_declination(ds, c['decl'])
        m.declin(c['decl'])
    ds.attrs['principal_heading'] = m.ph = 77.
    with quiet():
        if c['frame'] != m.frame:
            dolfyn.rotate2(ds, c['frame'])
    m.frame = c['frame']
    ds = put(ds, M, c['how'])
    m.H = M
    m.check(ds, 'head set: ')
    same('inst2head_rotmat', ds['inst2head_rotmat'].values, M, 0, 0)
    need(ds.attrs['inst2head_rotmat_was_set'] == 1, "was_set")
    if c.get('decl') is not None and c['order'] == 'decl last':
        with quiet():
            dolfyn.set_declination(ds, c['decl'])
        m.declin(c['decl'])
        m.check(ds, 'declination after: ')
    for f in c['then']:
        with quiet():
            dolfyn.rotate2(ds, f)
        m.frame = f
        m.check(ds, 'rotated to %s: ' % f)
    return c['m']


def twice(c):
    ds = R.dataset(c['src'])
    with quiet():
        if c['frame'] != ds.coord_sys:
            dolfyn.rotate2(ds, c['frame'])
        dolfyn.set_inst2head_rotmat(ds, MATS[c['m']])
    b = ds.copy(deep=True)
    try:
        put(ds, MATS[c['m2']], c['how'])
    except Exception:
        ds_same(ds, b, 'dataset after the refused second matrix', rtol=0, atol=0)
        return 1
    raise Fail("a second head matrix was accepted")


def bad(c):
    """A matrix that is no rotation never changes velocities."""
    ds = R.dataset(c['src'])
    with quiet():
        if c['frame'] != ds.coord_sys:
            dolfyn.rotate2(ds, c['frame'])
    v = ds['vel'].values.copy()
    try:
        ds = put(ds, BAD[c['m']], c['how'])
        # in beam coordinates the matrix is used (and refused) by the next rotation
        need(c['frame'] == 'beam', "determinant %g accepted", np.linalg.det(BAD[c['m']]))
        same('vel', ds['vel'].values, v, 0, 0)
        with quiet():
            dolfyn.rotate2(ds, 'inst')
    except Fail:
        raise
    except Exception:
        if c['how'] == 'copy' or c['frame'] in ('inst', 'beam'):
            same('vel', ds['vel'].values, v, 0, 0)
        return 1
    raise Fail("determinant %g accepted" % np.linalg.det(BAD[c['m']]))


def other(c):
    ds = R.dataset(c['src'])
    b = ds.copy(deep=True)
    try:
        put(ds, MATS[0], c['how'])
    except Exception:
        ds_same(ds, b, 'dataset', rtol=0, atol=0)
        return 1
    raise Fail("head matrix accepted for %s" % c['src'])


def run(ex):
    F = ['inst', 'beam', 'earth', 'principal']
    then = [[], ['beam', 'inst'], ['earth'], ['principal', 'beam', 'earth']]
    ex.cases('matrices', product(src=V, m=range(len(MATS)), frame=F, how=ex.pick(['fn'], ['fn', 'copy']), then=then[1:]), good,
             "every axis rotation and four oblique ones x frame when set x what follows")
    ex.cases('calls', product(src=V, m=[1, 9, 25], frame=F, how=['fn', 'acc', 'copy', 'list'], then=then,
                              decl=[None, 14.], order=['decl first', 'decl last']), good, "way of calling x declination before or after")
    ex.cases('twice', product(src=V, m=[0, 24], m2=[0, 25], frame=F[:3], how=['fn', 'acc', 'copy']), twice, "second matrix")
    ex.cases('bad', product(src=V, m=range(len(BAD)), frame=F[:3], how=['fn', 'acc', 'copy']), bad, "matrices that are no rotation")
    ex.cases('others', product(src=[s for s in R.SRC if s not in V], how=['fn', 'acc', 'copy']), other, "instruments without head matrix")
