"""C16  What is not an in-place call leaves the caller's data alone, and its result is independent of them."""
import os
import numpy as np
import xarray as xr
import dolfyn
from dolfyn.adp import clean as pc, turbulence as pt
from dolfyn.adv import clean as vc, turbulence as vt
from dolfyn.adv.motion import correct_motion
from dolfyn.rotate import api as ra
from dolfyn import rotate as rot
from dolfyn.tools import misc
from .. import dsets as D
from .. import rot_ref as RR
from .. import spec_ref as S
from ..core import need, Fail, scratch
from ..util import quiet

LEVEL = "model_checking"
INIT = dict(
    rdi=('rdi', dict(n=9, blk='vcapsb', ncells=6)),
    rdi_earth=('rdi', dict(n=9, frame=3)),
    sig=('sig', dict(n=12, lay=[21, 24, 28], fl=['vel', 'amp', 'corr'])),
    sig_imu=('sig', dict(n=12, nc=3, lay=[21, 24], fl=['vel', 'amp', 'corr', 'ahrs'])),
    vector=('vector', dict(n=24, cy=1, fs=4)),
    imu=('vector', dict(n=24, imu=195, cy=1, fs=4)),
    awac=('awac', dict(n=9)),
    vno=('vno', dict(n=24)),
)


def make(name, init=INIT):
    k, kw = init[name]
    ds = D.get(k, **dict(kw))
    n = ds.time.size
    fs = float(ds.attrs.get('fs', 1) or 1)
    for d in [d for d in ds.dims if d.startswith('time')]:
        ds[d] = np.datetime64('2020-01-01', 'ns') + (np.arange(ds[d].size) * (1e9 / fs)).astype('int64') * np.timedelta64(1, 'ns')
    if 'orientmat' in ds:
        h = RR.HPR['mix']
        ds['orientmat'].values = RR.omat([h[i % 6] for i in range(n)]).astype(ds.orientmat.dtype)
        for v in ('heading', 'pitch', 'roll'):
            if v in ds and ds[v].size == n:
                ds[v].values = np.array([h[i % 6]['heading pitch roll'.split().index(v)] for i in range(n)], ds[v].dtype)
    for j, v in enumerate(('vel', 'vel_b5', 'accel', 'angrt')):
        if v in ds:
            s = ds[v].shape
            flat = np.array([S.signal(s[-1], 'mix', i + j) for i in range(int(np.prod(s[:-1])))])
            ds[v].values = flat.reshape(s).astype(ds[v].dtype)
    if 'pressure' not in ds:
        ds['pressure'] = ('time', np.full(n, 3., 'f4'))
    if k == 'vector':
        ds.attrs['inst2head_vec'] = [.4, 0, -.2]
    ds.attrs['principal_heading'] = 30.
    return ds


# ---------------------------------------------------------------- snapshots

def snap(x):
    """Everything observable of an object, as comparable bytes."""
    if isinstance(x, xr.Dataset):
        return ('ds', [(k, x[k].dims, snap(x[k].values), snap(dict(x[k].attrs)), sorted(map(str, x[k].coords)),
                        snap({a: b for a, b in x[k].encoding.items() if a not in ('source', 'original_shape')})) for k in sorted(map(str, x.variables))],
                snap(dict(x.attrs)))
    if isinstance(x, xr.DataArray):
        return ('da', x.name, x.dims, snap(x.values), snap(dict(x.attrs)), [(k, snap(x[k].values)) for k in sorted(map(str, x.coords))])
    if isinstance(x, np.ndarray):
        return ('a', str(x.dtype), x.shape, x.tobytes() if x.dtype.kind != 'O' else repr(x.tolist()))
    if isinstance(x, dict):
        return ('d', [(str(k), snap(x[k])) for k in sorted(x, key=str)])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(y) for y in x])
    return repr(x)


def differ(a, b, path=''):
    if a == b:
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for i, (p, q) in enumerate(zip(a, b)):
            r = differ(p, q, path + '/' + (str(p[0]) if isinstance(p, tuple) and p and isinstance(p[0], str) and len(p[0]) < 30 else str(i)))
            if r:
                return r
    if isinstance(a, list) and isinstance(b, list):
        n = lambda z: [y[0] if isinstance(y, tuple) else y for y in z]
        return '%s: %s' % (path, sorted(set(map(str, n(a))) ^ set(map(str, n(b))))[:6])
    return '%s: %.60r -> %.60r' % (path, a, b)


def same_snap(what, before, x):
    d = differ(before, snap(x))
    need(d is None, "%s changed: %s", what, d)


def scribble(x):
    """The user edits a result: every value and the attributes (lists in attributes are shared, as xarray itself does)."""
    if isinstance(x, xr.Dataset):
        for k in x.data_vars:
            scribble(x[k])
        _attrs(x.attrs)
    elif isinstance(x, xr.DataArray):
        v = x.values
        if v.size and v.flags.writeable and v.dtype.kind in 'fiubc':
            v[...] = 77
        _attrs(x.attrs)
    elif isinstance(x, np.ndarray):
        if x.size and x.flags.writeable and x.dtype.kind in 'fiubc':
            x[...] = 77
    elif isinstance(x, (list, tuple)):
        for y in x:
            scribble(y)


def _attrs(a):
    for k in list(a):
        if isinstance(a[k], (int, float, str)) and k not in ('coord_sys', 'inst_make', 'inst_model', 'inst_type'):
            a[k] = 'scribble'
    a['scribble'] = 1


# ---------------------------------------------------------------- operations
# name -> (kind, fn); kind: 'b' pure on beam data only; 'c' returns an independent dataset, 'i' acts in place, 'p' pure (returns something else, may be a view), 'q' pure, independent result

def _mask(ds):
    m = np.zeros(ds.vel.shape, bool)
    m[..., 4:6] = True
    return m


def _bin(ds, cls=dolfyn.VelBinner):
    fs = ds.attrs.get('fs') or 1
    return cls(n_bin=6 if ds.time.size < 24 else 12, fs=fs, n_fft=4)


def _w(ds):
    return dict(vel=ds.vel, V=ds.vel[0])


def vb(f, cls=None):
    return lambda ds: f(ds, _bin(ds, cls or dolfyn.VelBinner))


def _psd(ds, b):
    return b.calc_psd(ds.vel if b.__class__ is vt.ADVBinner else ds.vel[0, 0] if ds.vel.ndim == 3 else ds.vel[0])


def _enc(ds):
    e = {'vel': {'zlib': True}}
    e0 = snap(e)
    dolfyn.save(ds, os.path.join(scratch(), 'e.nc'), encoding=e)
    need(snap(e) == e0, "the encoding argument was changed")


def _names(ds, b):
    names = ['vel', 'pressure']
    r = b.do_avg(ds, names=names)
    need(names == ['vel', 'pressure'], "the list of names was changed")
    return r


def _rot(ds):
    m = [[0., 1, 0], [-1, 0, 0], [0, 0, 1]]
    r = ra.set_inst2head_rotmat(ds, m, inplace=False)
    need(m == [[0, 1, 0], [-1, 0, 0], [0, 0, 1]], "the matrix was changed")
    return r


def _rota(ds):
    m = np.array([[0., 1, 0], [-1, 0, 0], [0, 0, 1]])
    r = ra.set_inst2head_rotmat(ds, m, inplace=False)
    m[:] = 5
    need(abs(np.linalg.det(r.inst2head_rotmat.values) - 1) < 1e-6, "the dataset holds the caller's matrix itself")
    return r


def _load(ds):
    p = os.path.join(scratch(), 'x.nc')
    dolfyn.save(ds, p)
    h = open(p, 'rb').read()
    r = dolfyn.load(p)
    scribble(r)
    need(open(p, 'rb').read() == h, "the file was changed")
    return dolfyn.load(p)


def _lmat(ds):
    p = os.path.join(scratch(), 'x.mat')
    dolfyn.save_mat(ds, p)
    h = open(p, 'rb').read()
    r = dolfyn.load_mat(p)
    need(open(p, 'rb').read() == h, "the file was changed")
    scribble(r)


def _cl(f):
    def g(ds):
        m = _mask(ds)
        m0 = m.copy()
        r = f(ds, m)
        need((m == m0).all(), "the mask was changed")
        return r
    return g


OPS = dict(
    rot_beam=('c', lambda d: ra.rotate2(d, 'beam', inplace=False)), rot_inst=('c', lambda d: ra.rotate2(d, 'inst', inplace=False)),
    rot_earth=('c', lambda d: ra.rotate2(d, 'earth', inplace=False)), rot_principal=('c', lambda d: ra.rotate2(d, 'principal', inplace=False)),
    vrot=('c', lambda d: d.velds.rotate2('earth', inplace=False)),
    decl=('c', lambda d: ra.set_declination(d, 12., inplace=False)), vdecl=('c', lambda d: d.velds.set_declination(-5., inplace=False)),
    head=('c', _rot), head_a=('c', _rota),
    irot_beam=('i', lambda d: ra.rotate2(d, 'beam')), irot_inst=('i', lambda d: ra.rotate2(d, 'inst')), irot_earth=('i', lambda d: ra.rotate2(d, 'earth')),
    irot_principal=('i', lambda d: ra.rotate2(d, 'principal')), idecl=('i', lambda d: ra.set_declination(d, 20.)),
    ihead=('i', lambda d: ra.set_inst2head_rotmat(d, RR.HEAD[2])),
    scribble=('i', scribble),
    offset=('i', lambda d: pc.set_range_offset(d, .6)), from_p=('i', lambda d: pc.find_surface_from_P(d, salinity=30)), surface=('i', lambda d: pc.find_surface(d)),
    beyond=('c', lambda d: pc.nan_beyond_surface(d)), ibeyond=('i', lambda d: pc.nan_beyond_surface(d, inplace=True)),
    corr=('c', lambda d: pc.correlation_filter(d, thresh=60)), icorr=('i', lambda d: pc.correlation_filter(d, thresh=60, inplace=True)),
    orient=('c', lambda d: pc.medfilt_orient(d, nfilt=3)), motion=('c', correct_motion), motion_inst=('c', lambda d: correct_motion(d, accel_filtfreq=.1, to_earth=False)),
    exceeds=('q', lambda d: pc.val_exceeds_thresh(d.vel, thresh=.5)), gaps_t=('q', lambda d: pc.fillgaps_time(d.vel)), gaps_d=('q', lambda d: pc.fillgaps_depth(d.vel)),
    fill=('q', _cl(lambda d, m: vc.clean_fill(d.vel, m, npt=4))), fill_mean=('q', _cl(lambda d, m: vc.fill_nan_ensemble_mean(d.vel, m, 4, 2))),
    spike=('q', lambda d: vc.spike_thresh(d.vel, thresh=1)), limit=('q', lambda d: vc.range_limit(d.vel)), gn=('q', lambda d: vc.GN2002(d.vel, npt=12)),
    avg=('c', vb(lambda d, b: b.do_avg(d))), avg_names=('c', vb(_names)), var=('c', vb(lambda d, b: b.do_var(d))),
    turb=('c', lambda d: vt.calc_turbulence(d, n_bin=12, fs=d.fs, n_fft=4)),
    advbin=('c', lambda d: vt.ADVBinner(n_bin=12, fs=d.fs, n_fft=4)(d)),
    tke=('q', vb(lambda d, b: b.calc_tke(d.vel[:3]))), tke_noise=('q', vb(lambda d, b: b.calc_tke(d.vel[:3], noise=[.01, .01, .01], detrend=False))),
    ti=('q', vb(lambda d, b: b.calc_ti(d.velds.U_mag, detrend=True))), acov=('q', vb(lambda d, b: b.calc_acov(d.vel))),
    xcov=('q', vb(lambda d, b: b.calc_xcov(d.vel[0], d.vel[1], npt=3))), coh=('q', vb(lambda d, b: b.calc_coh(d.vel[0], d.vel[1]))),
    phase=('q', vb(lambda d, b: b.calc_phase_angle(d.vel[0], d.vel[1]))), psd=('q', vb(_psd)), apsd=('q', vb(_psd, vt.ADVBinner)),
    stress=('q', vb(lambda d, b: b.calc_stress(d.vel), vt.ADVBinner)), csd=('q', vb(lambda d, b: b.calc_csd(d.vel), vt.ADVBinner)),
    reshape=('p', vb(lambda d, b: b.reshape(d.vel.values))), detrend=('q', vb(lambda d, b: b.detrend(d.vel.values))), demean=('q', vb(lambda d, b: b.demean(d.vel.values))),
    mean=('q', vb(lambda d, b: b.mean(d.vel.values))),
    dissip=('q', vb(lambda d, b: b.calc_epsilon_LT83(_psd(d, b), b.do_avg(d).velds.U_mag, freq_range=[2, 10], noise=[0, 0, 0]), vt.ADVBinner)),
    sf=('q', vb(lambda d, b: b.calc_epsilon_SF(d.vel[0], b.do_avg(d).velds.U_mag), vt.ADVBinner)),
    te01=('q', vb(lambda d, b: b.calc_epsilon_TE01(d, b(d), freq_range=[2, 10]), vt.ADVBinner)),
    l_int=('q', vb(lambda d, b: b.calc_L_int(b.calc_acov(d.vel), b.do_avg(d).velds.U_mag), vt.ADVBinner)),
    dudz=('q', vb(lambda d, b: b.calc_dudz(d.vel), pt.ADPBinner)), shear=('q', vb(lambda d, b: b.calc_shear2(d.vel), pt.ADPBinner)),
    stress4=('b', vb(lambda d, b: b.calc_stress_4beam(d, orientation='up', noise=.01), pt.ADPBinner)),
    stress5=('b', vb(lambda d, b: b.calc_stress_5beam(d, orientation='up', beam_angle=25), pt.ADPBinner)),
    sf_adp=('q', vb(lambda d, b: b.calc_dissipation_SF(d.vel[2], r_range=[.4, 5]), pt.ADPBinner)),
    ustar=('b', vb(lambda d, b: b.calc_ustar_fit(b.do_avg(d), b.calc_stress_4beam(d, orientation='up')[1], z_inds=slice(0, 2)), pt.ADPBinner)),
    principal=('q', lambda d: ra.calc_principal_heading(d.vel)), shortcuts=('p', lambda d: [getattr(d.velds, k) for k in ('u', 'v', 'w', 'U', 'U_mag', 'U_dir')]),
    text=('p', lambda d: [repr(d.velds), d.velds.variables, d.velds.attrs, d.velds.coords]), item=('p', lambda d: [d.velds[k] for k in list(d.data_vars)]),
    euler=('q', lambda d: rot.base.orient2euler(d)), euler_a=('q', lambda d: rot.base.orient2euler(d.orientmat.values)),
    orientmat=('q', lambda d: rot.base.euler2orient(d.heading, d['pitch'], d['roll'])), quat=('q', lambda d: rot.base.quaternion2orient(d.quaternions)),
    tilt=('q', lambda d: rot.base.calc_tilt(d['pitch'], d['roll'])), omat=('q', lambda d: rot.base.calc_tilt(d['pitch'].values, d['roll'].values)),
    save=('q', lambda d: dolfyn.save(d, os.path.join(scratch(), 'a.nc'))), save_z=('q', lambda d: dolfyn.save(d, os.path.join(scratch(), 'a.nc'), compression=True)),
    save_e=('q', _enc), vsave=('q', lambda d: d.velds.save(os.path.join(scratch(), 'b.nc'))), save_mat=('q', lambda d: dolfyn.save_mat(d, os.path.join(scratch(), 'a.mat'))),
    save_matp=('q', lambda d: dolfyn.save_mat(d, os.path.join(scratch(), 'a.mat'), datenum=False)), load=('c', _load), load_mat=('q', _lmat),
    times=('q', lambda d: [dolfyn.time.dt642epoch(d.time), dolfyn.time.dt642epoch(d.time.values), dolfyn.time.dt642date(d.time), dolfyn.time.epoch2date(dolfyn.time.dt642epoch(d.time))]),
    misc=('q', lambda d: [misc.fillgaps(d.vel.values.astype(float)), misc.interpgaps(d.vel.values.astype(float), np.arange(d.time.size), dim=-1),
                          misc.detrend(d.vel.values), misc.medfiltnan(d.vel.values.reshape(-1, d.time.size).astype(float), 3), misc.convert_degrees(d.heading.values)]),
    misc_da=('q', lambda d: [misc.detrend(d.vel), misc.convert_degrees(d.heading)]),
)


def step(c):
    """Replays a history: pure calls, in-place calls, edits; every dataset met before stays as it was left."""
    ds = make(c['init'])
    kept = []                                    # (label, object, snapshot)
    out = []
    for op in c['hist']:
        kind, fn = OPS[op]
        before = snap(ds)
        if kind == 'b':                          # these announce that they rotate the raw dataset to the beam frame
            kind = 'q' if ds.coord_sys == 'beam' else 'i'
        try:
            with quiet():
                r = fn(ds)
        except Fail:
            raise
        except Exception as e:
            r, err = None, type(e).__name__
        else:
            err = None
        if kind != 'i':
            same_snap("the dataset given to %s" % op, before, ds)
        elif err:
            # a refused in-place call ends the history: its dataset may be half changed
            out.append((op, err))
            break
        for lab, x, s in kept:
            same_snap("%s, by the later %s," % (lab, op), s, x)
        if kind == 'c' and err is None:
            need(isinstance(r, xr.Dataset) and r is not ds, "%s returned %s", op, type(r).__name__)
            kept.append(("the dataset given to %s" % op, ds, before))
            ds = r
        elif kind == 'i':
            need(r is None or OPS[op][0] == 'b', "%s (in place) returned %s", op, type(r).__name__)
        elif kind == 'q' and err is None:
            scribble(r)
            same_snap("the dataset given to %s, when its result was edited," % op, before, ds)
            for lab, x, s in kept:
                same_snap("%s, when the result of %s was edited," % (lab, op), s, x)
        out.append((op, err))
    # the user edits the last result: nothing before it may follow
    s = snap(ds)
    if kept:
        scribble(ds)
        for lab, x, b in kept:
            same_snap("%s, when the result was edited," % lab, b, x)
    return ([o for o, e in out if e], s)


# ---------------------------------------------------------------- arguments of every call

INPLACE = {'set_range_offset', 'find_surface', 'find_surface_from_P', 'fillgaps', 'interpgaps', 'rotate2', 'set_declination', 'set_inst2head_rotmat', 'calc_stress_4beam', 'calc_stress_5beam'}


class Monitor:
    """Every public function looks at its arguments before and after."""

    def __init__(self):
        import dolfyn.binned, dolfyn.velocity, dolfyn.time, dolfyn.adv.motion, dolfyn.tools.psd
        self.depth, self.n, self.undo, self.names = 0, 0, [], set()
        cl = [dolfyn.binned.TimeBinner, dolfyn.velocity.VelBinner, vt.ADVBinner, pt.ADPBinner, dolfyn.adv.motion.CalcMotion]
        mods = [vc, pc, ra, rot.base, misc, dolfyn.tools.psd, dolfyn.time]
        for o, pub in [(x, False) for x in cl] + [(x, True) for x in mods]:
            for k, f in list(vars(o).items()):
                if type(f).__name__ != 'function' or k.startswith('_') and k != '__call__' or f.__code__.co_flags & 0x20:
                    continue
                if pub and f.__module__ != o.__name__:
                    continue
                self.undo.append((o, k, f))
                setattr(o, k, self.wrap(k, f))

    def wrap(self, name, f):
        import functools, inspect
        sig = inspect.signature(f)

        @functools.wraps(f)
        def g(*a, **kw):
            if self.depth:
                return f(*a, **kw)
            try:
                b = sig.bind(*a, **kw)
                b.apply_defaults()
            except TypeError:
                return f(*a, **kw)
            inp = b.arguments.get('inplace')
            args = {} if inp is True or inp is None and name in INPLACE else {k: v for k, v in b.arguments.items() if k not in ('self', 'out_ds')}
            before = {k: snap(v) for k, v in args.items()}
            self.depth += 1
            try:
                return f(*a, **kw)
            finally:
                self.depth -= 1
                self.n += 1
                self.names.add(name)
                for k, v in args.items():
                    same_snap("the argument %s of %s" % (k, name), before[k], v)
        return g

    def close(self):
        for o, k, f in self.undo:
            setattr(o, k, f)


def arguments(c):
    """One tool: no call in it changes an argument, given or computed before (a spectrum, an average, a noise level)."""
    from . import c43
    ds = c43.prepare(c['ds']) if c['of'] == 'c43' else make(c['ds'])
    m = Monitor()
    try:
        with quiet():
            if c['of'] == 'c43':
                c43.OPS[c['op']][1](ds, c43.U(ds, 1, 1, c['nfft']))
            else:
                OPS[c['op']][1](ds)
    except Fail:
        raise
    except Exception as e:
        if c['of'] == 'c43':
            raise
        return type(e).__name__
    finally:
        m.close()
    return sorted(m.names)


def events(only_c):
    def ev(init, hist):
        if hist and OPS[hist[-1]][0] in 'pqb':
            return []                            # leaves the state as it was
        if hist and (hist[-1] == 'scribble' or only_c == 1 and init in ('rdi_earth', 'sig', 'vector', 'vno')):
            return []
        return [o for o in OPS if not (only_c and len(hist) >= only_c and OPS[o][0] in 'pqb')]
    return ev


def run(ex):
    q = ex.tier == 'quick'
    ex.bfs('histories', list(INIT), events(1 if q else 2), step, ex.pick(2, 3), "every sequence of calls: copies, in-place calls, results edited by the user")
    from . import c43
    ex.cases('arguments', [dict(of='c43', op=o, ds=k, nfft=f) for o, (ks, _) in c43.OPS.items() for k in ks for f in (8, 16)] +
             [dict(of='c16', op=o, ds=k) for o in OPS for k in INIT], arguments, "every argument of every call, intermediate results included")
