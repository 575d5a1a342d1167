"""Reference model of frames: what every vector is in every frame."""
import numpy as np
from . import dsets as D
from .core import need
from .util import same

# heading, pitch, roll (DOLfYN convention: x-axis heading cw from N, pitch up positive, roll right-handed)
HPR = dict(level=[(0, 0, 0), (90, 0, 0), (217, 0, 0)], tilt=[(12, 7, -4), (135, -25, 33), (300, 40, 160), (359.9, -3, -178)],
           flip=[(45, 0, 180), (10, 0, -90), (200, 80, 5)], mix=[(i * 37.3 % 360, (i * 17) % 61 - 30, (i * 53) % 359 - 179) for i in range(6)])


def omat(hpr):
    """earth->inst, 3x3xn"""
    out = []
    for h, p, r in hpr:
        h, p, r = np.radians([h, p, r])
        x = np.array([np.sin(h) * np.cos(p), np.cos(h) * np.cos(p), np.sin(p)])      # instrument x axis in ENU
        y0 = np.array([-np.cos(h), np.sin(h), 0.])                                   # to the left of x, level
        z0 = np.cross(x, y0)
        y = np.cos(r) * y0 + np.sin(r) * z0
        out.append(np.array([x, y, np.cross(x, y)]))
    return np.moveaxis(np.array(out), 0, -1)


HEAD = [np.eye(3), np.array([[0, 0, -1], [0, -1, 0], [-1, 0, 0.]]), np.array([[.6, .8, 0], [-.8, .6, 0], [0, 0, 1]]),
        np.array([[0, 1, 0], [0, 0, 1], [1, 0, 0.]])]
SRC = dict(
    rdi_beam=('rdi', dict(frame=0, blk='vcapsb'), 4), rdi_inst=('rdi', dict(frame=1, blk='vb'), 4),
    rdi_ship=('rdi', dict(frame=2, blk='vb'), 4), rdi_earth=('rdi', dict(frame=3), 4),
    sig_beam=('sig', dict(cy='beam', lay=[21, 24], fl=['vel', 'ahrs']), 4), sig_inst=('sig', dict(cy='XYZ', lay=[21, 23]), 4),
    sig_earth=('sig', dict(cy='ENU'), 4), sig_down=('sig', dict(cy='beam', lay=[21, 23], fl=['vel', 'ahrs']), 4),
    sigd_earth=('sig', dict(cy='ENU'), 4), sigd_inst=('sig', dict(cy='XYZ', fl=['vel', 'ahrs']), 4),
    vec_beam=('vector', dict(cy=2), 3), vec_inst=('vector', dict(cy=1), 3), vec_earth=('vector', dict(cy=0), 3),
    imu_inst=('vector', dict(cy=1, imu=195), 3), imu_earth=('vector', dict(cy=0, imu=204), 3),
    imu_mag=('vector', dict(cy=1, imu=211), 3),
    awac_beam=('awac', dict(cy=2), 3), awac_inst=('awac', dict(cy=1), 3), awac_earth=('awac', dict(cy=0), 3))
DIRS = dict(rdi=(['X', 'Y', 'Z', 'err'], ['E', 'N', 'U', 'err'], ['streamwise', 'x-stream', 'vert', 'err']),
            sig=(['X', 'Y', 'Z1', 'Z2'], ['E', 'N', 'U1', 'U2'], ['streamwise', 'x-stream', 'vert1', 'vert2']),
            vector=(['X', 'Y', 'Z'], ['E', 'N', 'U'], ['streamwise', 'x-stream', 'vert']))
DIRS['awac'] = DIRS['vector']


def dataset(name, hpr='mix', salt=0, n=None):
    """Real dataset of this kind with chosen orientation and vector values."""
    kind, kw, nb = SRC[name]
    h = HPR[hpr] if isinstance(hpr, str) else hpr
    kw = dict(kw)
    if kind == 'vector':
        kw.setdefault('fs', 2)
        kw['n'] = max(min(len(h), 9), 6)
    else:
        kw['n'] = min(len(h), 9) + (kind == 'rdi')
    ds = D.get(kind, **kw)
    for d in [d for d in ds.dims if d.startswith('time')]:
        if len(h) <= 9:
            ds = ds.isel({d: slice(0, len(h))})
        else:
            ds = ds.isel({d: np.arange(len(h)) % 6})
            ds[d] = np.datetime64('2020-01-01', 'ns') + np.arange(len(h)) * np.timedelta64(500, 'ms')
    ds = ds.copy(deep=True)
    need(ds.time.size == len(h), "harness: %d samples", ds.time.size)
    if name.startswith('sigd') or name == 'sig_down':
        ds.attrs['orientation'] = 'down'
    elif kind == 'sig':
        ds.attrs['orientation'] = 'AHRS' if 'ahrs' in kw.get('fl', []) else 'up'
    ds['orientmat'].values = omat(h)
    for k, v in enumerate(ds.attrs['rotate_vars']):
        shp = ds[v].shape
        x = np.arange(ds[v].size).reshape(shp)
        ds[v].values = (((x * 37 + 11 * k + salt * 29) % 83) / 20. - 2).astype('float32')
    return ds


class Model:
    def __init__(self, ds, name):
        self.kind = SRC[name][0]
        self.T = ds['beam2inst_orientmat'].values.astype(float)
        self.O = ds['orientmat'].values.astype(float)
        self.down = self.kind == 'sig' and ds.attrs['orientation'] == 'down'
        self.frame = ds.attrs['coord_sys']
        self.H = np.eye(3)
        self.decl = None
        self.ph = None
        self.v = {v: ds[v].values.astype(float) for v in ds.attrs['rotate_vars']}
        # keep everything in the frame of the head
        self.h = {v: self._to_inst(v, x, 'inst' if self.frame == 'ship' else self.frame) for v, x in self.v.items()}

    def m4(self):
        R = np.moveaxis(self.O, 0, 1)              # inst->earth
        M = np.zeros((4, 4, R.shape[-1]))
        M[:3, :3] = R
        M[3, :2] = R[2, :2]
        M[3, 3] = R[2, 2]
        M[:2, 2] = R[:2, 2] / 2
        M[:2, 3] = R[:2, 2] / 2
        return M

    def _n(self, x):
        return x.shape[0]

    def _to_inst(self, v, x, frame):
        if frame == 'beam':
            if len(x) == len(self.T):
                x = np.einsum('ij,j...->i...', self.T, x)
            return x
        if frame == 'principal':
            x = self._pr(x, -1)
        if frame in ('earth', 'principal'):
            x = x.copy()
            if self.kind == 'rdi' or len(x) == 3:
                x[:3] = np.einsum('ijk,j...k->i...k', self.O, x[:3])
            else:
                inv = np.moveaxis(np.linalg.inv(np.moveaxis(self.m4(), -1, 0)), 0, -1)
                x = np.einsum('ijk,j...k->i...k', inv, x)
            if self.down:
                x[1:] *= -1
        return x

    def _pr(self, x, s):
        a = np.radians(self.ph)
        x = x.copy()
        e, n = x[0].copy(), x[1].copy()
        if s > 0:
            x[0], x[1] = e * np.sin(a) + n * np.cos(a), -e * np.cos(a) + n * np.sin(a)
        else:
            x[0], x[1] = e * np.sin(a) - n * np.cos(a), e * np.cos(a) + n * np.sin(a)
        return x

    def get(self, v, frame=None):
        frame = frame or self.frame
        x = self.h[v].copy()
        if frame == 'beam':
            if len(x) == len(self.T):
                x = np.einsum('ij,j...->i...', np.linalg.inv(self.T), x)
            return x
        if v == 'vel' and self.kind == 'vector':
            x = np.einsum('ij,j...->i...', self.H, x)
        if frame in ('inst', 'ship'):
            return x
        if self.down:
            x[1:] *= -1
        if self.kind == 'rdi' or len(x) == 3:
            x[:3] = np.einsum('jik,j...k->i...k', self.O, x[:3])
        else:
            x = np.einsum('ijk,j...k->i...k', self.m4(), x)
        if frame == 'principal':
            x = self._pr(x, 1)
        return x

    def declin(self, d):
        a = d - (self.decl or 0)
        self.decl = d
        if self.frame == 'earth' or True:
            c, s = np.cos(np.radians(a)), np.sin(np.radians(a))
            Rd = np.array([[c, s, 0], [-s, c, 0], [0, 0, 1]])     # magnetic -> true ENU
            self.O = np.einsum('ijk,lj->ilk', self.O, Rd)
        if self.ph is not None:
            self.ph += a

    def check(self, ds, what='', atol=2e-4):
        f = self.frame
        need(ds.attrs['coord_sys'] == f, "%scoord_sys %s, expected %s", what, ds.attrs['coord_sys'], f)
        for v in self.h:
            same('%s%s[%s]' % (what, v, f), ds[v].values, self.get(v), rtol=1e-4, atol=atol)
        same(what + 'orientmat', ds['orientmat'].values, self.O, rtol=1e-5, atol=1e-5)
        i, e, p = DIRS[self.kind]
        exp = {'beam': list(range(1, len(i) + 1)), 'inst': i, 'ship': i, 'earth': e, 'principal': p}[f]
        need(list(ds['dir'].values) == exp, "%sdir coordinate %s in the %s frame", what, list(ds['dir'].values), f)
        need(ds['dir'].attrs['ref_frame'] == f, "%sref_frame %s", what, ds['dir'].attrs['ref_frame'])
        if 'dirIMU' in ds:
            need(list(ds['dirIMU'].values) == [x.rstrip('1') for x in (exp[:3] if f != 'beam' else 'XYZ')],
                 "%sdirIMU coordinate %s", what, list(ds['dirIMU'].values))
        need(ds.attrs.get('declination') == self.decl, "%sdeclination attribute %s", what, ds.attrs.get('declination'))
        if self.ph is None:
            need('principal_heading' not in ds.attrs, "%sprincipal_heading", what)
        else:
            need(abs(ds.attrs['principal_heading'] - self.ph) < 1e-6, "%sprincipal_heading %s, expected %s", what,
                 ds.attrs['principal_heading'], self.ph)
