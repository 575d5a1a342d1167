"""C21  One rotation is the instrument's documented transform, for every orientation and value."""
import warnings
import numpy as np
import xarray as xr
import dolfyn
from .. import rot_ref as R
from ..core import need, product, Fail
from ..util import ds_same, quiet, same

LEVEL = "exploration"
FRAMES = ('beam', 'inst', 'earth', 'principal')


def grid(dh, dp, dr, src=''):
    g = [(h, p, r) for h in np.arange(0, 360, dh) for p in np.arange(-90, 91, dp) for r in np.arange(-180, 180, dr)]
    if src.startswith('sig'):      # the 4-beam transform has no inverse for an instrument on its side
        g = [(h, p, r) for h, p, r in g if abs(np.cos(np.radians(p)) * np.cos(np.radians(r))) > .3]
    return g


def call(ds, f, how):
    with quiet():
        if how == 'fn':
            dolfyn.rotate2(ds, f)
        elif how == 'acc':
            ds.velds.rotate2(f)
        elif how == 'copy':
            return dolfyn.rotate2(ds, f, inplace=False)
        elif how == 'acccopy':
            return ds.velds.rotate2(f, inplace=False)
        elif how == 'default':
            dolfyn.rotate2(ds)
    return ds


def orient(c):
    ds = R.dataset(c['src'], grid(*c['grid'], src=c['src']), salt=c['salt'])
    m = R.Model(ds, c['src'])
    if c['ph'] is not None:
        ds.attrs['principal_heading'] = m.ph = c['ph']
    if c.get('head'):
        with quiet():
            dolfyn.set_inst2head_rotmat(ds, R.HEAD[c['head']])
        m.H = R.HEAD[c['head']]
    v0 = {v: ds[v].values.copy() for v in m.v}
    f0 = m.frame
    for f in c['path']:
        ds = call(ds, f, c['how'])
        m.frame = f.lower()
        m.check(ds)
        if f0 not in ('beam', 'ship') and m.frame != 'beam' and not (m.kind == 'rdi' and 0):
            for v in v0:
                a, b = np.asarray(v0[v], float), ds[v].values
                if len(a) == 3 or m.kind == 'rdi':
                    same('length of ' + v, (b[:3] ** 2).sum(0), (a[:3] ** 2).sum(0), 1e-4, 1e-3)
    return [c['src'], m.frame]


def one(ds, src, frame, ph=None, how='fn'):
    m = R.Model(ds, src)
    if ph is not None:
        ds.attrs['principal_heading'] = m.ph = ph
    ds = call(ds, frame, how)
    m.frame = frame.lower()
    m.check(ds)
    return ds


def names(c):
    """Any capitalisation of the frame; accessor, copies."""
    ds = R.dataset(c['src'])
    if c['f'].lower() == 'earth' and c['how'] == 'default':
        one(ds, c['src'], 'earth', how='default')
    else:
        one(ds, c['src'], c['f'], 20., c['how'])
    return 1


def badframe(c):
    ds = R.dataset(c['src'])
    if c['bad'] == 'csys':
        ds.attrs['coord_sys'] = 'world'
    if c['bad'] == 'model':
        ds.attrs['inst_model'] = 'Vectrino'
    if c['bad'] == 'nohead':
        one_ = ds.copy(deep=True)
        try:
            call(ds, 'principal', 'fn')
        except Exception:
            m = R.Model(one_, c['src'])
            m.frame = ds.attrs['coord_sys']
            need(m.frame in ('earth', one_.attrs['coord_sys']), "left in frame %s", m.frame)
            if m.frame != one_.attrs['coord_sys']:
                m.check(ds, 'after the refused rotation: ')
            return 1
        raise Fail("rotated to principal without a principal heading")
    if c['bad'] == 'vec':
        ds.attrs['rotate_vars'] = list(ds.attrs['rotate_vars']) + ['pair']
        ds['pair'] = xr.DataArray(np.zeros((2, ds.time.size), 'f4'), dims=('q2', 'time'))
        ds['pair'].values[:] = 3.
        ds = ds
    before = ds.copy(deep=True)
    try:
        call(ds, c['f'], 'fn')
    except Exception:
        if c['bad'] not in ('vec',):
            ds_same(ds, before, 'dataset after the refused rotation', rtol=0, atol=0)
        return 1
    raise Fail("%s accepted" % c['bad'])


def nans(c):
    """A missing value concerns its own sample and cell only; fourth component of TRDI never mixes."""
    ds = R.dataset(c['src'])
    v = ds['vel'].values
    comp = c['comp'] % len(v)
    v[comp, ..., c['t']] = np.nan
    ref = R.dataset(c['src'])
    ref['vel'].values[comp, ..., c['t']] = 0
    m = R.Model(ref, c['src'])
    f0 = m.frame
    call(ds, c['f'], 'fn')
    call(ref, c['f'], 'fn')
    m.frame = c['f']
    m.check(ref)
    for u in m.v:
        a, b = ds[u].values, ref[u].values.copy()
        if u == 'vel':
            bad = np.isnan(a)
            need(not bad[..., [i for i in range(a.shape[-1]) if i != c['t']]].any(), "nan spread to other samples")
            if f0 != c['f']:
                T = bad[..., c['t']]
                if m.kind == 'rdi' and f0 in ('inst', 'earth') and c['f'] in ('inst', 'earth') and comp == 3:
                    need(T[3].all() and not T[:3].any(), "missing error velocity changed others")
            a, b = np.where(bad, 0, a), np.where(bad, 0, b)
        same(u, a, b, 1e-6, 1e-6)
    return 1


def uservar(c):
    ds = R.dataset(c['src'])
    ds['vel2'] = ds['vel'].copy(deep=True)
    ds['vel2'].values = ds['vel2'].values[..., ::-1].copy()
    ds['scalar'] = ds['heading'].copy(deep=True)
    rv = list(ds.attrs['rotate_vars'])
    ds.attrs['rotate_vars'] = {'all': rv + ['vel2'], 'only': ['vel2'], 'tuple': tuple(rv + ['vel2'])}[c['which']]
    keep = ds.copy(deep=True)
    m = R.Model(ds, c['src'])
    ds.attrs['principal_heading'] = m.ph = 250.
    ds = call(ds, c['f'], c['how'])
    m.frame = c['f']
    m.check(ds)
    same('unlisted variable', ds['scalar'].values, keep['scalar'].values, 0, 0)
    if c['which'] == 'only':
        same('unlisted vel', ds['vel'].values, keep['vel'].values, 0, 0)
    return 1


def nomat(c):
    """Without orientmat the recorded heading, pitch and roll are used."""
    a = R.dataset(c['src'])
    h = R.HPR['mix']
    kind = R.SRC[c['src']][0]
    for i, k in enumerate(('heading', 'pitch', 'roll')):
        a[k].values[:] = np.array([x[i] for x in h], 'f4')[:a[k].size]
    if 'orientation_down' in a:
        a['orientation_down'].values[:] = [bool(c['down'] >> i & 1) for i in range(a.time.size)]
    b = a.copy(deep=True)
    if kind == 'rdi':
        up = a.attrs['orientation'] == 'up'
        om = []
        for hh, p, r in np.array(h, 'f4').astype(float):
            hh, p, r = np.radians([hh, p, r])
            p = np.arctan(np.tan(p) * np.cos(r))
            r = r + np.pi * up
            if a.attrs['coord_sys'] == 'ship' and a.attrs.get('use_pitchroll') == 'yes':
                p = r = 0.
            H = np.array([[np.cos(hh), np.sin(hh), 0], [-np.sin(hh), np.cos(hh), 0], [0, 0, 1]])
            P = np.array([[1, 0, 0], [0, np.cos(p), -np.sin(p)], [0, np.sin(p), np.cos(p)]])
            Q = np.array([[np.cos(r), 0, np.sin(r)], [0, 1, 0], [-np.sin(r), 0, np.cos(r)]])
            om.append((H @ P @ Q).T)
        om = np.moveaxis(np.array(om), 0, -1)
    else:
        om = []
        for i, (hh, p, r) in enumerate(h):
            if kind == 'vector' and c['down'] >> i & 1:
                r += 180
            om.append((hh, p, r))
        om = R.omat(om)
        # Nortek's "pitch up" is x up and its heading that of x, see Transforms.m
    a['orientmat'].values = om
    b = b.drop_vars('orientmat')
    call(a, c['f'], 'fn')
    call(b, c['f'], 'fn')
    for v in a.attrs['rotate_vars']:
        same(v, b[v].values, a[v].values, 1e-4, 2e-4)
    return 1


def badmat(c):
    """Samples with an impossible orientation matrix are named in a warning and spoil nothing else."""
    ds = R.dataset(c['src'])
    m = R.Model(ds, c['src'])
    bad = [i for i in range(ds.time.size) if c['set'] >> i & 1]
    om = ds['orientmat'].values
    om[..., bad] *= c['by']
    with warnings.catch_warnings(record=True) as w, quiet():
        warnings.simplefilter('always')
        dolfyn.rotate2(ds, c['f'])
    msg = [str(x.message) for x in w if 'orientation matrix' in str(x.message)]
    need(bool(msg) == bool(bad), "warnings for bad samples %s: %s", bad, msg)
    if bad:
        need(str(np.array(bad)) in msg[0], "warning %r for bad samples %s", msg[0], bad)
    good = [i for i in range(ds.time.size) if i not in bad]
    m.frame = c['f']
    for v in m.v:
        same(v, ds[v].values[..., good], m.get(v)[..., good], 1e-4, 2e-4)
    return 1


def run(ex):
    g = ex.pick((30, 18, 30), (15, 10, 15))
    cs = []
    for s in R.SRC:
        f0 = dict(beam='beam', inst='inst', ship='ship', earth='earth', down='beam', mag='inst')[s.split('_')[1]]
        paths = [[f] for f in FRAMES] + [[a, b] for a in FRAMES for b in FRAMES if a != b]
        for p in paths:
            if f0 == 'ship' and p[0] in ('beam', 'inst'):
                continue
            for salt in ex.pick([0], [0, 1, 2]):
                cs.append(dict(src=s, path=p, ph=47.25, grid=g, salt=salt, how='fn'))
                if s.startswith(('vec', 'imu')):
                    cs.append(dict(src=s, path=p, ph=-170., grid=g, salt=salt, how='copy', head=3))
    ex.cases('orientations', cs, orient, "instrument and recorded frame x path of one or two rotations x dense grid of "
             "headings, pitches and rolls")
    ex.cases('headings', product(src=['rdi_earth', 'sig_earth', 'sig_inst', 'vec_earth', 'imu_inst', 'awac_inst', 'sigd_earth'],
                                 path=[['principal'], ['principal', 'earth'], ['principal', 'inst']],
                                 ph=list(map(float, range(-360, 361, ex.pick(15, 5)))),
                                 grid=[(45, 45, 60)], salt=[0], how=['fn']), orient, "principal headings x instrument x path")
    ex.cases('names', [c for c in product(src=list(R.SRC), f=['Earth', 'EARTH', 'earth', 'Inst', 'BEAM', 'Principal', 'principal'],
                                          how=['fn', 'acc', 'copy', 'acccopy', 'default'])
                       if not ('ship' in c['src'] and c['f'].lower() in ('inst', 'beam')) and
                       not (c['how'] == 'default' and c['f'] != 'earth')], names, "capitalisation x way of calling")
    ex.cases('refused', [dict(src=s, f=f, bad=b) for s in R.SRC for f, b in
                         [('world', 'name'), ('', 'name'), ('ship', 'name'), ('earth', 'csys'), ('inst', 'csys'), ('earth', 'model')][:6 - s.startswith('rdi')] + [
                          ('principal', 'nohead')] + ([('earth', 'vec')] if s.startswith(('vec_inst', 'imu_inst', 'awac_inst', 'sig_inst')) else [])
                         + ([('inst', 'ship'), ('beam', 'ship')] if s == 'rdi_ship' else [])], badframe,
             "unknown frames and instruments, missing heading, variables that are no vectors")
    ex.cases('missing', [c for c in product(src=list(R.SRC), f=['beam', 'inst', 'earth'], comp=[0, 1, 2, 3], t=[0, 3])
                         if not ('ship' in c['src'] and c['f'] != 'earth')], nans, "missing component x sample x frame")
    ex.cases('user_variables', [c for c in product(src=list(R.SRC), f=FRAMES, which=['all', 'only', 'tuple'], how=['fn', 'copy'])
                                if not ('ship' in c['src'] and c['f'] in ('beam', 'inst'))], uservar,
             "which variables are listed in rotate_vars x frame")
    ex.cases('no_matrix', [c for c in product(src=[s for s in R.SRC if not s.startswith('sigd') and s != 'sig_down'],
                                              f=['earth', 'inst', 'beam'], down=[0, 1, 42, 63])
                           if not ('ship' in c['src'] and c['f'] != 'earth') and (c['down'] == 0 or c['src'].startswith(('vec', 'imu')))],
             nomat, "instrument x frame x cable orientation of every sample")
    ex.cases('bad_matrix', [c for c in product(src=['vec_inst', 'imu_inst', 'awac_inst', 'awac_earth', 'vec_earth', 'sig_inst'],
                                               f=['earth', 'inst'], set=[0, 1, 2, 32, 63, 21], by=[1.01, 0.9, -1.])
                            if c['f'] not in c['src']], badmat, "which samples x damage")
