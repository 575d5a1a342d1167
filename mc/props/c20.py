"""C20  Frames are a state machine: only the state counts, not the path to it."""
import numpy as np
import dolfyn
from .. import rot_ref as R
from ..core import need, Fail
from ..util import ds_same, quiet, same

LEVEL = "model_checking"
FRAMES = ('beam', 'inst', 'earth', 'principal')


def do(ds, m, ev):
    """Apply one event to the real dataset and the model; returns the dataset to go on with."""
    e, *a = ev
    copy = e.endswith('_c')
    if copy:
        before = ds.copy(deep=True)
    with quiet():
        if e.startswith('rot'):
            r = dolfyn.rotate2(ds, a[0], inplace=not copy)
            m.frame = a[0].lower()
        elif e.startswith('decl'):
            r = dolfyn.set_declination(ds, a[0], inplace=not copy)
            m.declin(a[0])
        elif e.startswith('head'):
            r = dolfyn.set_inst2head_rotmat(ds, R.HEAD[a[0]].tolist(), inplace=not copy)
            m.H = R.HEAD[a[0]]
        elif e == 'ph':
            ds.attrs['principal_heading'] = a[0]
            m.ph = a[0]
            r = None
    if copy:
        need(r is not None and r is not ds, "%s(inplace=False) returned %s", e, type(r).__name__)
        ds_same(ds, before, 'the caller\'s dataset after %s(inplace=False)' % e, rtol=0, atol=0)
        return r
    need(r is None, "%s in place returned %s", e, type(r).__name__)
    return ds


def step(c):
    ds = R.dataset(c['init'])
    m = R.Model(ds, c['init'])
    fixed = {v: ds[v].values.copy() for v in ds.data_vars if v not in ds.attrs['rotate_vars'] + ['orientmat', 'heading']}
    head0 = ds['heading'].values.copy() if 'heading' in ds else None
    other = {k: v for k, v in ds.attrs.items() if k not in ('coord_sys', 'principal_heading', 'declination',
                                                          'declination_in_orientmat', 'inst2head_rotmat_was_set')}
    m.check(ds, 'before: ')
    for ev in c['hist']:
        ds = do(ds, m, ev)
        m.check(ds, 'after %s: ' % ev)
    for v in fixed:
        same(v + ' (no vector)', ds[v].values, fixed[v], 0, 0)
    if head0 is not None:
        same('heading', ds['heading'].values, head0 + (m.decl or 0), 1e-6, 1e-3)
    for k in other:
        need(k in ds.attrs and np.all(np.asarray(ds.attrs[k]) == np.asarray(other[k])), "attribute %s changed", k)
    return (m.frame, m.decl, None if m.ph is None else round(m.ph, 6), R.SRC[c['init']][0] == 'vector' and m.H.tolist(),
            sorted(ds.attrs), sorted(ds.variables), sorted((v, ds[v].dtype.kind) for v in ds.variables))


def events(deep):
    def ev(init, hist):
        frame = dict(beam='beam', inst='inst', ship='ship', earth='earth', down='beam', mag='inst')[init.split('_')[1]]
        ph = False
        nhead = 0
        for h in hist:
            if h[0].startswith('rot'):
                frame = h[1].lower()
            ph |= h[0] == 'ph'
            nhead += h[0].startswith('head')
        out = []
        for f in FRAMES:
            if f == 'principal' and not ph or frame == 'ship' and f in ('inst', 'beam') or frame == 'ship' and f == 'principal' and 0:
                continue
            out += [['rot', f], ['rot_c', f]]
        out += [['decl', 10.], ['decl', -25.5], ['decl_c', 10.]]
        if not ph:
            out.append(['ph', 35.])
        elif deep:
            out.append(['ph', -100.])
        if R.SRC[init][0] == 'vector' and not nhead:
            out += [['head', 1], ['head_c', 2]] + ([['head', 3]] if deep else [])
        return out
    return ev


def run(ex):
    inits = list(R.SRC)
    ex.bfs('histories', inits, events(not ex.quick), step, ex.pick(12, 14),
           "all histories of rotations, declinations, principal headings and head matrices until no new state appears")
    ex.bfs('unmerged', ex.pick(['rdi_beam', 'sig_down', 'imu_inst'], inits), events(False), step, ex.pick(2, 3),
           "all histories to this depth without merging states", merge=False)
    ex.assume("the principal heading is set while it is not in use (data not in the principal frame when it is changed)",
              "all rotated variables have as many samples as the orientation matrix")
