"""C37  Motion correction removes the head's motion, in every frame."""
import itertools
import warnings
import numpy as np
import scipy.signal as ss
from dolfyn.adv.motion import correct_motion, CalcMotion
from dolfyn.rotate.api import rotate2, set_inst2head_rotmat
from .. import dsets as D
from .. import rot_ref as RR
from .. import spec_ref as S
from ..core import need, product, Fail
from ..util import same, attr_same, ds_same, quiet

LEVEL = "exploration"
IMU = np.array([.00635, .00635, .14986])
VEC = [[.48, -.07, -.27], [0, 0, 1.], [0, .5, 0]]


def dataset(c, n):
    ds = D.get('vector', n=n, imu=195, fs=4, cy=1)
    need(ds.time.size == n, "harness: %d samples", ds.time.size)
    ds['time'] = np.datetime64('2020-01-01', 'ns') + np.arange(n) * np.timedelta64(250, 'ms')
    h = RR.HPR[c['hpr']]
    ds['orientmat'].values = RR.omat([h[k % len(h)] for k in range(n)]).astype('f4')
    for v in ('vel', 'accel', 'angrt'):
        ds[v].values[:] = 0
    if c.get('imp'):
        v, i, t = c['imp']
        ds[v].values[i, t] = 2.
    else:
        for k, v in enumerate(('vel', 'accel', 'angrt')):
            ds[v].values[:] = np.array([S.signal(n, 'mix', 3 * k + i) for i in range(3)]) * (1, 2, .3)[k]
    with quiet():
        set_inst2head_rotmat(ds, RR.HEAD[c['head']])
    ds.attrs['inst2head_vec'] = np.array(VEC[c['vec']])
    return ds


def low(x, f, fs):
    if f == 0:
        return np.repeat(x.mean(-1, keepdims=True), x.shape[-1], -1)
    b, a = ss.butter(1, f / (fs / 2))
    return ss.filtfilt(b, a, x, axis=-1)


def velacc(acc, lo, f, fs):
    hp = acc - lo
    v = np.zeros_like(hp)
    for k in range(1, hp.shape[-1]):
        v[..., k] = v[..., k - 1] + (hp[..., k] + hp[..., k - 1]) / 2 / fs
    if f > 0:
        b, a = ss.butter(2, f / (fs / 2))
        v = v - ss.filtfilt(b, a, v, axis=-1)
    return v


def expected(b, c):
    """b: dataset in the instrument frame; -> dict of inst-frame and earth-frame arrays"""
    O = b['orientmat'].values.astype(float)
    fs = b.fs
    fa = c['fa'] if c['fa'] is not None else (c['pre'] if c['pre'] is not None else .03)
    fv = c['fv'] if c['fv'] is not None else fa / 3
    E = lambda x: np.einsum('ijt,it->jt', O, x)
    I = lambda x: np.einsum('ijt,jt->it', O, x)
    a, w = b.accel.values.astype(float), b.angrt.values.astype(float)
    ae = E(a)
    nb = c.get('burst') or ae.shape[1]
    lo, va = np.zeros_like(ae), np.zeros_like(ae)
    for s in range(0, ae.shape[1], nb):
        k = slice(s, s + nb)
        lo[:, k] = low(ae[:, k], fa, fs)
        va[:, k] = velacc(ae[:, k], lo[:, k], fv, fs)
    r = np.array(VEC[c['vec']]) - IMU
    R = RR.HEAD[c['head']]
    T = b['beam2inst_orientmat'].values.astype(float)
    if c.get('probes'):
        ph, th = np.radians(-30), np.radians([0, 120, 240])
        P = R.T @ (.076 * np.array([np.cos(th), np.sin(th), np.tan(ph) * np.ones(3)])) + np.array(VEC[c['vec']])[:, None]
        beams = []
        V = []
        for k in range(3):
            v = np.cross(w.T, P[:, k] - IMU).T               # instrument frame, of receiver k
            V.append(v)
            beams.append((np.linalg.inv(T) @ R @ v)[k])
        rot = R.T @ T @ np.array(beams)
        # what the code is known to compute: the axes of component and probe are exchanged
        V = np.moveaxis(np.array(V), 0, 1)                   # comp, probe, t
        W = np.dot(R, V)
        W = np.einsum('ij,j...->i...', np.linalg.inv(T), W)
        bad = R.T @ np.einsum('ij,kj->ik', T, np.diagonal(W))
    else:
        rot, bad = np.cross(w.T, r).T, None
    out = {}
    for nm, x in (('accel', a), ('angrt', w), ('vel_raw', b.vel.values.astype(float)), ('velrot', rot)) + ((('bad', bad),) if bad is not None else ()):
        out[nm] = (x, E(x))
    for nm, x in (('acclow', lo), ('velacc', va)):
        out[nm] = (I(x), x)
    for nm, src in (('vel', 'velrot'), ('badvel', 'bad')):
        if src in out:
            out[nm] = tuple(out['vel_raw'][k] + out[src][k] + out['velacc'][k] for k in (0, 1))
    return out, fa


def correct(c):
    n = c['n']
    ds = dataset(c, n)
    if c['pre'] is not None:
        ds.attrs['motion accel_filtfreq Hz'] = c['pre']
    if c.get('burst'):
        ds.attrs['duty_cycle_n_burst'] = c['burst']
        ds.attrs['duty_cycle_interval'] = 60
        k = np.arange(n)
        ds['time'] = np.datetime64('2020-01-01', 'ns') + (k // c['burst'] * 60000 + k % c['burst'] * 250) * np.timedelta64(1, 'ms')
    base = ds.copy(deep=True)
    if c['fr'] != 'inst':
        with quiet():
            rotate2(ds, c['fr'])
    b = ds.copy(deep=True)
    kw = {}
    if c['fa'] is not None:
        kw['accel_filtfreq'] = c['fa']
    if c['fv'] is not None:
        kw['vel_filtfreq'] = c['fv']
    if not c['earth']:
        kw['to_earth'] = False
    if c.get('probes'):
        kw['separate_probes'] = True
    with quiet():
        g = correct_motion(ds, **kw)
    ds_same(ds, b, 'caller')
    e, fa = expected(base, c)
    k = 1 if c['earth'] else 0
    need(g.coord_sys == ('earth' if k else 'inst'), "frame %s", g.coord_sys)
    S_ = max(1., max(np.abs(v[k]).max() for v in e.values()))
    tol = 2e-5 * S_
    cmpv = ('accel', 'angrt', 'vel_raw', 'acclow', 'velacc')
    for v in cmpv:
        same(v, g[v].values, e[v][k], 1e-4, tol)
    try:
        for v in ('velrot', 'vel'):
            same(v, g[v].values, e[v][k], 1e-4, tol)
    except Fail:
        if 'bad' not in e:
            raise
        for v, w in (('velrot', 'bad'), ('vel', 'badvel')):
            same(v, g[v].values, e[w][k], 1e-4, tol)
        raise Fail("separate_probes: components and probes are exchanged")
    attr_same('motion corrected', g.attrs['motion corrected'], 1)
    attr_same('accel_filtfreq', g.attrs['motion accel_filtfreq Hz'], fa)
    want = list(base.attrs['rotate_vars']) + ['velrot', 'velacc', 'acclow', 'vel_raw']
    need(sorted(g.attrs['rotate_vars']) == sorted(want), "rotate_vars %s", g.attrs['rotate_vars'])
    for v in base.data_vars:
        if v not in ('vel', 'accel', 'angrt'):
            same(v, g[v].values, base[v].values, 1e-6, 1e-6)
    need(g.vel.dims == base.vel.dims and g.velrot.dims[-1] == 'time', "dims")
    for v, u in (('velrot', 'm s-1'), ('velacc', 'm s-1'), ('acclow', 'm s-2')):
        attr_same('units of ' + v, g[v].attrs['units'], u)
    # into the other frame
    o = 1 - k
    with quiet():
        rotate2(g, 'earth' if o else 'inst')
    for v in cmpv + ('velrot', 'vel'):
        same('%s, rotated on' % v, g[v].values, e[v][o], 1e-4, tol)
    # a second correction is refused
    b = g.copy(deep=True)
    try:
        with quiet():
            correct_motion(g)
    except Exception:
        ds_same(g, b, 'after the refusal')
    else:
        raise Fail("corrected twice")
    return [c['fr'], k, np.round(np.abs(e['vel'][k]).max(), 2)]


def calculator(c):
    """CalcMotion: velocity of any points of the body."""
    n = 20
    ds = dataset(dict(c, imp=None), n)
    if c['fr'] == 'earth':
        with quiet():
            rotate2(ds, 'earth')
    b = ds.copy(deep=True)
    w = ds.angrt.values.astype(float)
    with quiet():
        m = CalcMotion(ds, accel_filtfreq=.2, vel_filtfreq=0, **({} if c['te'] is None else dict(to_earth=c['te'])))
        va = m.calc_velacc()
        p = np.array(VEC[:c['m']]).T if c['m'] else np.array(VEC[0])
        p0 = p.copy()
        vr = m.calc_velrot(p, **({} if c['arg'] is None else dict(to_earth=c['arg'])))
    ds_same(ds, b, 'caller')
    need((p == p0).all(), "the points were changed")
    O = b['orientmat'].values.astype(float)
    ae = b.accel.values.astype(float)
    if c['fr'] == 'inst':
        ae = np.einsum('ijt,it->jt', O, ae)
    lo = low(ae, .2, 4)
    same('accel', m.accel, ae, 1e-4, 1e-4)
    same('acclow', m.acclow, lo, 1e-4, 1e-4)
    same('velacc', va, velacc(ae, lo, 0, 4), 1e-4, 1e-4)
    te = c['arg'] if c['arg'] is not None else (True if c['te'] is None else c['te'])
    P = p.T if c['m'] else p[None]
    e = np.array([np.cross(w.T, q - IMU).T for q in P])      # point, comp, t
    if te:
        e = np.einsum('ijt,pit->pjt', O, e)
    e = np.moveaxis(e, 0, 1) if c['m'] else e[0]
    same('velrot', vr, e, 1e-4, 1e-5)
    return [list(e.shape), te]


def refused(c):
    base = dict(hpr='mix', head=0, vec=0)
    ds = dataset(base, 24)
    w = c['what']
    if w in ('nan_accel', 'nan_angrt'):
        ds[w[4:]].values[c['i'], c['t']] = np.nan
    elif w == 'done':
        ds.attrs['motion corrected'] = 1
    elif w == 'velrot':
        ds['velrot'] = ds.vel * 0
    elif w == 'no_imu':
        ds = D.get('vector', n=24, fs=4)
    elif w == 'det':
        ds['inst2head_rotmat'].values[c['i'], c['i']] *= -1
    elif w == 'not_set':
        ds.attrs['inst2head_rotmat_was_set'] = 0
    elif w == 'no_vec':
        del ds.attrs['inst2head_vec']
    b = ds.copy(deep=True)
    try:
        with quiet():
            g = correct_motion(ds)
    except Exception:
        ds_same(ds, b, 'caller')
        return w
    raise Fail("%s is not refused" % w)


def run(ex):
    q = ex.tier == 'quick'
    F = [(None, None, None), (0, None, None), (0, 0, None), (.1, 0, None), (.1, None, None), (.05, .5, None), (None, None, .2), (.1, None, .2), (None, .4, .2)]
    fr = ['inst', 'earth', 'beam']
    base = [dict(n=24, hpr=h, head=hd, vec=v, fr=f, earth=e, fa=a, fv=b, pre=p) for h in ('level', 'tilt', 'flip', 'mix') for hd in range(4) for v in range(3)
            for f in fr for e in (1, 0) for a, b, p in F]
    ex.cases('filters', [c for i, c in enumerate(base) if not q or (i // 9 + i) % 3 == 0], correct,
             "orientations x heads x positions x frames x filter settings")
    I = [dict(n=20, hpr='mix', head=hd, vec=v, fr=f, earth=e, fa=a, fv=b, pre=None, imp=[x, i, t]) for x in ('vel', 'accel', 'angrt') for i in range(3)
         for t in range(20) for hd, v, f, e, (a, b) in (((2, 0, 'inst', 1, (.1, None)), (1, 2, 'earth', 0, (0, 0)), (3, 1, 'beam', 1, (0, .5))) if q else
                                                       itertools.product((0, 2, 3), (0, 1), ('inst', 'beam'), (0, 1), ((.1, None), (0, 0))))]
    ex.cases('basis', I, correct, "a unit of every component of every signal at every sample (the correction is linear) x settings")
    ex.cases('bursts', list(product(n=[24, 36, 60], hpr=['mix', 'tilt'], head=[0, 2], vec=[0], fr=fr, earth=[1, 0], fa=[None, 0, .1], fv=[None, 0], pre=[None], burst=[12])) +
             list(product(n=[30, 45], hpr=['mix'], head=[0], vec=[0], fr=fr, earth=[1, 0], fa=[0, .1], fv=[None, 0], pre=[None], burst=[15])), correct,
             "duty cycles: bursts x filters x frames")
    ex.cases('cut_burst', list(product(n=[22, 34, 35], hpr=['mix'], head=[0], vec=[0], fr=['inst'], earth=[1, 0], fa=[0, .1], fv=[None], pre=[None], burst=[12])), correct,
             "duty cycles that end inside a burst")
    ex.cases('probes', list(product(n=[24], hpr=['mix', 'level'], head=range(4), vec=range(3), fr=fr, earth=[1, 0], fa=[.1], fv=[None], pre=[None], probes=[1])), correct,
             "separate probes: heads x positions x frames")
    ex.cases('calculator', list(product(hpr=['mix', 'flip'], head=[0, 2], vec=[0], fr=['inst', 'earth'], te=[None, True, False], arg=[None, True, False], m=[0, 1, 2, 3])), calculator,
             "points x frames")
    ex.cases('refused', [dict(what=w, i=i, t=t) for w in ('nan_accel', 'nan_angrt') for i in range(3) for t in (0, 11, 23)] +
             [dict(what=w, i=0, t=0) for w in ('done', 'velrot', 'no_imu', 'not_set', 'no_vec')] + [dict(what='det', i=i, t=0) for i in range(3)], refused, "unusable data")
