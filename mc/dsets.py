"""Datasets read from encoded instrument files (all built here, no example data)."""
import numpy as np
from . import enc_ad2cp as A
from . import nortek_ref as N
from . import rdi_ref as R
from .props import c01
from .util import write, read, quiet

_cache = {}


def make(kind, **kw):
    if kind == 'rdi':
        return b''.join(R.build(dict(dict(n=kw.pop('n', 3), blk=kw.pop('blk', 'vcaps'), seq=kw.pop('seq', {})),
                                     cfg=dict(dict(ncells=2), **kw)))[1])
    if kind == 'sig':
        c = dict(n=kw.get('n', 3), lay=kw.get('lay', [21]), fl=kw.get('fl', ['vel', 'amp', 'corr']), nc=kw.get('nc', 2),
                 cy=kw.get('cy', 'beam'))
        for k in ('status', 'pat', 'nce', 'nc24', 'blank', 'cell_size'):
            if k in kw:
                c[k] = kw[k]
        return A.file_bytes([r for e in c01.build(c) for r in e])
    if kind == 'vector':
        h, b = N.vector(dict(dict(n=9, fs=4, imu=None, nb=0, cy=1), **kw))
    elif kind == 'awac':
        h, b = N.awac(dict(dict(n=3, nbins=2), **kw))
    elif kind == 'vno':
        h, b = N.vno(dict(dict(n=5), **kw))
    return h + b''.join(x[1] for x in b)


def get(kind, **kw):
    """A private deep copy of the dataset of this configuration."""
    k = repr((kind, sorted(kw.items())))
    if k not in _cache:
        with np.errstate(all='ignore'):
            _cache[k] = read(write(make(kind, **kw), 'd.bin'), userdata=False)
    ds = _cache[k]
    if isinstance(ds, (list, tuple)):
        ds = ds[0]
    return ds.copy(deep=True)


FULL = dict(
    rdi=('rdi', dict(n=4, blk='vcapsb')),
    rdi_earth=('rdi', dict(n=4, frame=3)),
    sig=('sig', dict(n=4, lay=[21, 24], fl=['vel', 'amp', 'corr', 'ahrs', 'le'])),
    sig_bt=('sig', dict(n=3, lay=[21, 23, 28], fl=['vel', 'amp', 'corr'], cy='ENU')),
    vector=('vector', dict(n=9)),
    vector_imu=('vector', dict(n=9, imu=195)),
    awac=('awac', dict(n=4)),
    vno=('vno', dict(n=5)),
)


def full(name):
    k, kw = FULL[name]
    return get(k, **dict(kw))
