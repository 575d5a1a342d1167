"""C43  Results carry their units, and do not depend on when the data were taken."""
import re
import os
import warnings
import numpy as np
import xarray as xr
import dolfyn
from dolfyn.adp import clean as pc, turbulence as pt
from dolfyn.adv import clean as vc, motion as vm, turbulence as vt
from dolfyn.rotate import api as ra
from .. import dsets as D
from .. import rot_ref as RR
from ..core import need, scratch
from ..util import quiet, same
from . import c16

LEVEL = "model_checking"
NB, NP = 16, 4
INIT = dict(
    rdi=('rdi', dict(n=NB * NP, blk='vcapsb', ncells=5)), sig=('sig', dict(n=NB * NP, nc=5, lay=[21, 24], fl=['vel', 'amp', 'corr', 'ahrs'])),
    vector=('vector', dict(n=NB * NP, cy=1, fs=4)), imu=('vector', dict(n=NB * NP, imu=195, cy=1, fs=4)), awac=('awac', dict(n=NB * NP, nbins=5)), vno=('vno', dict(n=NB * NP)))
V3 = ('vector', 'imu')
ROT = ('rdi', 'sig', 'vector', 'imu', 'awac')
V, S2, ALL = ('vector', 'imu', 'vno'), ('rdi', 'sig'), tuple(INIT)
COARSE = ('gaps_t', 'gaps_c', 'cubic', 'fill')              # xarray interpolates along whole nanoseconds since 1970: to 256 of them
CHANGED = ('vel', 'depth', 'dist_bt', 'accel', 'angrt')
DIMS = {'m': (1, 0), 's': (0, 1), 'Hz': (0, -1), 'rad': (0, 0), '1': (0, 0), 'degree': (0, 0), 'degrees': (0, 0), '%': (0, 0)}


def dimension(u):
    """'m2 s-2 Hz-1' -> powers of length and time."""
    if u is None or u.startswith(('degrees', '%', 'timestep')):
        return (0, 0)
    u = u.replace('m/s', 'm s-1').replace('rad/s', 's-1').replace('m^2/s^2', 'm2 s-2')
    L = T = 0
    for w in re.split('[ *]+', u.replace('^', '')):
        m = re.fullmatch(r'([A-Za-z%1]+?)\(?(-?\d+)?\)?', w)
        need(m and m[1] in DIMS, "unit %r is not understood", u)
        p = int(m[2] or 1)
        L, T = L + p * DIMS[m[1]][0], T + p * DIMS[m[1]][1]
    return (L, T)


def prepare(kind):
    ds = c16.make(kind, INIT)
    n = ds.time.size
    k = np.arange(n)
    for v in ('vel', 'vel_b5'):
        if v in ds:
            x = ds[v].values.astype('float64')
            x = (x - np.nanmean(x)) / np.nanstd(x) * .25
            x[0] += 1 + .3 * np.sin(k * .21)
            ds[v].values = x.astype(ds[v].dtype)
    t = [t for t in ds.dims if t.startswith('time') and t != 'time_gps']
    fs = float(ds.attrs.get('fs') or 1)
    if ds.attrs['inst_model'] == 'AWAC' or 'fs' not in ds.attrs:
        fs = .5
    fs = 2. ** round(np.log2(fs))
    ds.attrs['fs'] = fs
    for d in t:
        ds = ds.assign_coords({d: (d, np.datetime64('2020-02-29T12:00:00', 'ns') + (k * 1e9 / fs).astype('timedelta64[ns]'), ds[d].attrs)})
    return ds


def change(ds, a, b, shift):
    """The same data with lengths a times and times b times as large a number, and taken `shift` later."""
    ds = ds.copy(deep=True)
    for v in list(ds.variables):
        x = ds[v]
        if x.dtype.kind == 'M':
            new = x.values[0] + np.round((x.values - x.values[0]).astype('int64') * b).astype('timedelta64[ns]') + np.timedelta64(shift, 'ms')
            ds = ds.assign_coords({v: (x.dims, new, x.attrs)}) if v in ds.coords else ds.assign({v: (x.dims, new, x.attrs)})
        elif v.startswith(CHANGED + ('range',)):
            L, T = (1, 0) if v.startswith('range') else dimension(x.attrs.get('units'))
            new = (x.values * (a ** L * b ** T)).astype(x.dtype)
            ds = ds.assign_coords({v: (x.dims, new, x.attrs)}) if v in ds.coords else ds.assign({v: (x.dims, new, x.attrs)})
    ds.attrs['fs'] = ds.attrs['fs'] / b
    for k in ds.attrs:
        if k.startswith(('cell_size', 'blank_dist', 'h_deploy')):
            ds.attrs[k] = ds.attrs[k] * a
    return ds


class U:
    """Binners and numbers in the changed units."""

    def __init__(self, ds, a, b, nfft):
        self.a, self.b = a, b
        kw = dict(n_bin=NB, fs=ds.attrs['fs'], n_fft=nfft)
        self.bin, self.adv, self.adp = dolfyn.VelBinner(**kw), vt.ADVBinner(**kw), pt.ADPBinner(**kw)
        self.v, self.f, self.m, self.s = a / b, 1 / b, a, b          # m/s, Hz, m, s
        self.fs = ds.attrs['fs']


def one(d):
    """One component (of one cell)."""
    return d['vel'][0, 1] if d['vel'].ndim == 3 else d['vel'][0]


def hv(d):
    return d['vel'][:, 1] if d['vel'].ndim == 3 else d['vel']


def two(d):
    return d['vel'][1, 1] if d['vel'].ndim == 3 else d['vel'][1]


def speed(d, u):
    m = u.bin.do_avg(d).velds.U_mag
    return m.isel(range=1) if 'range' in m.dims else m


def at(da, *dims):
    """A result without (the right) unit of its own."""
    return ('at', da, dims)


def ds_of(f):
    """In-place tools."""
    def g(d, u):
        f(d, u)
        return d
    return g


def mask(d, x):
    return xr.DataArray(np.asarray(x).astype(float), dims=d['vel'].dims, attrs=dict(units='1'))


def gappy(d):
    v = d['vel']
    v.values[..., 5:7] = np.nan
    v.values[..., 20] = np.nan
    return v


def rng(u, lo, hi, units):
    k = u.f * u.fs * u.b * (2 * np.pi if units == 'rad/s' else 1)          # fractions of the sampling rate
    return [lo * k, hi * k]


def avg5(d, u):
    m = u.bin.do_avg(d)
    return m


OPS = {}
for un in ('Hz', 'rad/s'):
    t = un[0]
    OPS.update({
        'psd_' + t: (ALL, lambda d, u, un=un: u.bin.calc_psd(one(d), freq_units=un)), 'psdn_' + t: (ALL, lambda d, u, un=un: u.bin.calc_psd(one(d), freq_units=un, noise=.02 * u.v, window='hamm')),
        'psd3_' + t: (V, lambda d, u, un=un: u.adv.calc_psd(d['vel'][:3], freq_units=un, noise=[.01 * u.v, .03 * u.v, .02 * u.v])), 'csd_' + t: (V, lambda d, u, un=un: u.adv.calc_csd(d['vel'][:3], freq_units=un)),
        'lt83_' + t: (V, lambda d, u, un=un: u.adv.calc_epsilon_LT83(u.adv.calc_psd(d['vel'][:3], freq_units=un), speed(d, u), freq_range=rng(u, .1, .4, un))),
        'lt83n_' + t: (V, lambda d, u, un=un: u.adv.calc_epsilon_LT83(u.adv.calc_psd(d['vel'][:3], freq_units=un), speed(d, u), freq_range=rng(u, .1, .4, un), noise=[.01 * u.v, .02 * u.v, .03 * u.v])),
        'te01_' + t: (V3, lambda d, u, un=un: u.adv.calc_epsilon_TE01(d.isel(dir=slice(3)) if d.sizes['dir'] > 3 else d, u.adv(d, freq_units=un), freq_range=rng(u, .1, .4, un))),
        'ltp_' + t: (S2, lambda d, u, un=un: u.adp.calc_dissipation_LT83(u.adp.calc_psd(one(d), freq_units=un), speed(d, u), freq_range=rng(u, .1, .4, un))),
        'ltpn_' + t: (S2, lambda d, u, un=un: u.adp.calc_dissipation_LT83(u.adp.calc_psd(one(d), freq_units=un), speed(d, u), freq_range=rng(u, .1, .4, un), noise=.01 * u.v)),
        'noise_' + t: (V, lambda d, u, un=un: u.adv.calc_doppler_noise(u.adv.calc_psd(d['vel'][:3], freq_units=un), pct_fN=.6)),
        'noisep_' + t: (S2, lambda d, u, un=un: u.adp.calc_doppler_noise(u.adp.calc_psd(one(d), freq_units=un), pct_fN=.6)),
        'slope_' + t: (V, lambda d, u, un=un: [at(x, 0, 0) for x in u.adv.check_turbulence_cascade_slope(u.adv.calc_psd(d['vel'][:3], freq_units=un).mean('time'), freq_range=rng(u, .1, .4, un))[:1]]),
        'call_' + t: (V3, lambda d, u, un=un: u.adv(d, freq_units=un, window='hamm')),
    })
OPS.update(
    turb=(V3, lambda d, u: vt.calc_turbulence(d, n_bin=NB, fs=u.fs, n_fft=u.bin.n_fft)), avg=(ALL, lambda d, u: u.bin.do_avg(d)),
    tke=(V3, lambda d, u: u.bin.calc_tke(d['vel'][:3])), tke_n=(V3, lambda d, u: u.bin.calc_tke(d['vel'][:3], noise=[.01 * u.v, .02 * u.v, .01 * u.v], detrend=False)),
    ti=(ALL, lambda d, u: u.bin.calc_ti(d.velds.U_mag, noise=.01 * u.v)), ti_t=(ALL, lambda d, u: u.bin.calc_ti(d.velds.U_mag, thresh=1. * u.v, detrend=True)),
    coh=(ALL, lambda d, u: at(u.bin.calc_coh(one(d), two(d), n_fft_coh=4), 0, 0)), phase=(ALL, lambda d, u: at(u.bin.calc_phase_angle(one(d), two(d), n_fft_coh=4), 0, 0)),
    acov=(ALL, lambda d, u: at(u.bin.calc_acov(d['vel']), 2, -2)), xcov=(ALL, lambda d, u: at(u.bin.calc_xcov(one(d), two(d), npt=3), 2, -2)),
    xcovn=(ALL, lambda d, u: at(u.bin.calc_xcov(one(d), two(d), npt=3, normed=True), 0, 0)), freq=(ALL, lambda d, u: at(xr.DataArray(u.bin.calc_freq(units='Hz')), 0, -1)),
    short=(ALL, lambda d, u: [getattr(d.velds, k) for k in ('u', 'v', 'w', 'U', 'U_mag', 'U_dir')]), ashort=(V3, lambda d, u: [getattr(u.adv(d).velds, k) for k in ('I_tke', 'tke', 'E_coh', 'I', 'upwp_', 'wpwp_', 'vpvp_', 'U_mag', 'U_dir')]),
    ithresh=(V3, lambda d, u: [u.adv(d).velds.I_tke, at(vt.ADVBinner(NB, u.fs)(d).velds.I, 0, 0)]),
    stress=(V, lambda d, u: u.adv.calc_stress(d['vel'][:3])), sf=(V, lambda d, u: u.adv.calc_epsilon_SF(d['vel'][0], speed(d, u), freq_range=rng(u, .1, .45, 'Hz'))),
    l_int=(V, lambda d, u: u.adv.calc_L_int(u.adv.calc_acov(d['vel']), speed(d, u))),
    dudz=(ALL[:2] + ('awac',), lambda d, u: [f(u.bin.do_avg(d)['vel']) for f in (u.adp.calc_dudz, u.adp.calc_dvdz, u.adp.calc_dwdz, u.adp.calc_shear2)]),
    dudzf=(S2, lambda d, u: pt.ADPBinner(NB, u.fs, diff_style='first').calc_dudz(u.bin.do_avg(d)['vel'])), dudzc=(S2, lambda d, u: pt.ADPBinner(NB, u.fs, diff_style='centered').calc_dwdz(u.bin.do_avg(d)['vel'])),
    stress4=(S2, lambda d, u: u.adp.calc_stress_4beam(d, noise=.01 * u.v, orientation='up', beam_angle=25)),
    stress5=(('sig',), lambda d, u: list(u.adp.calc_stress_5beam(d, noise=.01 * u.v, orientation='up', beam_angle=25))),
    ustar=(S2, lambda d, u: u.adp.calc_ustar_fit(u.bin.do_avg(d), u.adp.calc_stress_4beam(d, orientation='up', beam_angle=25)[1], z_inds=slice(0, 4), H=20. * u.m)),
    sfp=(S2, lambda d, u: list(u.adp.calc_dissipation_SF(d['vel'][0], r_range=[1., 2.]))),
    motion=(('imu',), lambda d, u: vm.correct_motion(d, accel_filtfreq=.3 * u.f, vel_filtfreq=.2 * u.f, to_earth=False)),
    motion_e=(('imu',), lambda d, u: vm.correct_motion(d, accel_filtfreq=.3 * u.f)),
    # rotations
    beam=(ROT, lambda d, u: ra.rotate2(d, 'beam', inplace=False)), inst=(ROT, lambda d, u: ra.rotate2(d, 'inst', inplace=False)),
    earth=(ROT, lambda d, u: ra.rotate2(d, 'earth', inplace=False)), decl=(ROT, lambda d, u: ra.set_declination(d, 12., inplace=False)),
    principal=(ROT, lambda d, u: ra.rotate2(pc_set(d), 'principal', inplace=False)), pheading=(ALL, lambda d, u: at(xr.DataArray(ra.calc_principal_heading(hv(d))), 0, 0)),
    mheading=(ALL, lambda d, u: at(xr.DataArray(ra.calc_principal_heading(hv(d), tidal_mode=False)), 0, 0)), head=(('vector', 'imu'), lambda d, u: ra.set_inst2head_rotmat(d, RR.HEAD[2], inplace=False)),
    # cleaning
    limit=(ALL, lambda d, u: mask(d, vc.range_limit(d['vel'], [-.4 * u.v, 1.2 * u.v]))), spike=(ALL, lambda d, u: mask(d, vc.spike_thresh(d['vel'], thresh=.3 * u.v))),
    gn=(V, lambda d, u: mask(d, vc.GN2002(d['vel'], npt=30))), fill=(V, lambda d, u: vc.clean_fill(d['vel'], np.abs(d['vel'].values) > .5 * u.v, npt=4, method='linear', maxgap=3)),
    cubic=(V, lambda d, u: vc.clean_fill(d['vel'], np.abs(d['vel'].values) > 1.2 * u.v, npt=6, method='cubic', maxgap=3)),
    exceeds=(ALL, lambda d, u: pc.val_exceeds_thresh(d['vel'], thresh=.5 * u.v)), gaps_t=(ALL, lambda d, u: pc.fillgaps_time(gappy(d), method='linear', maxgap=3)),
    gaps_c=(ALL, lambda d, u: pc.fillgaps_time(gappy(d), method='pchip')), gaps_d=(S2, lambda d, u: pc.fillgaps_depth(d['vel'].where(d['vel'] < 1.1 * u.v), method='linear')),
    offset=(S2 + ('awac',), ds_of(lambda d, u: pc.set_range_offset(d, .5 * u.m))),
    beyond=(S2 + ('awac',), lambda d, u: pc.nan_beyond_surface(depth(d, u))),
    ens_mean=(V, lambda d, u: vc.fill_nan_ensemble_mean(d['vel'], np.abs(d['vel'].values) > .5 * u.v, u.fs, 8 / u.fs)),
)


def pc_set(d):
    d.attrs['principal_heading'] = ra.calc_principal_heading(hv(d))
    return d


def depth(d, u):
    r = d['range'].values
    d['depth'] = ('time', r[1] + (r[-1] - r[1]) * (np.arange(d.time.size) % 7) / 5., dict(units='m'))
    for v in ('vel_b5', 'amp_b5', 'corr_b5'):
        if v in d:                                             # cells of their own
            d = d.drop_vars(v)
    d.attrs.setdefault('beam_angle', 25)
    return d


def flat(r):
    if isinstance(r, tuple) and r and isinstance(r[0], str) and r[0] == 'at':
        return {k: (v, r[2] if k == 'result' else None) for k, (v, _) in flat(r[1]).items()}
    if isinstance(r, xr.Dataset):
        return {str(v): (r[v], None) for v in r.variables}
    if isinstance(r, xr.DataArray):
        return dict({'result': (r, None)}, **{str(k): (r[k], None) for k in r.coords})
    if isinstance(r, (list, tuple)):
        return {'%d.%s' % (i, k): v for i, x in enumerate(r) for k, v in flat(x).items()}
    return {'result': (xr.DataArray(np.asarray(r)), None)}


def call(c, ds, a, b):
    u = U(ds, a, b, c['nfft'])
    with quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return flat(OPS[c['op']][1](ds.copy(deep=True), u))


def dims_of(name, v, own, raw):
    if own is not None:
        return own
    k = name.split('.')[-1]
    if k.startswith('range'):
        return (1, 0)
    if k in raw and not k.startswith(CHANGED):                   # counts, volts, degrees ...: not changed
        return (0, 0)
    return dimension(v.attrs.get('units'))


def units(c):
    """The same data in other units, or taken at another time."""
    raw = prepare(c['ds'])
    full = call(c, change(raw, 1, 1, 0), 1, 1)
    for la, lb, sh in c['to']:
        if c['op'] in ('sfp', 'motion', 'motion_e') and la:       # C32's known finding; the instrument's own dimensions
            continue
        a, b = 2. ** la, 2. ** lb
        got = call(c, change(raw, a, b, sh), a, b)
        need(set(got) == set(full), "results %s", set(got) ^ set(full))
        for k, (v, own) in full.items():
            g = got[k][0]
            need(g.dims == v.dims and g.shape == v.shape, "dims of %s: %s %s, expected %s %s", k, g.dims, g.shape, v.dims, v.shape)
            need({q: str(w) for q, w in g.attrs.items() if q != 'comment'} == {q: str(w) for q, w in v.attrs.items() if q != 'comment'}, "attributes of %s: %s, expected %s", k, g.attrs, v.attrs)
            x, y = v.values, g.values
            need(x.dtype.kind == y.dtype.kind, "type of %s: %s, expected %s", k, y.dtype, x.dtype)
            if x.dtype.kind == 'M':
                t0 = raw.time.values[0]
                e = t0 + np.round((x - t0).astype('int64') * b).astype('timedelta64[ns]') + np.timedelta64(sh, 'ms')
                need((np.abs((y - e).astype('int64')) <= 4000).all(), "times %s: %s, expected %s", k, y, e)
                continue
            if k.split('.')[-1].startswith('time'):               # averaged times
                t0 = raw.time.values[0].astype('datetime64[ns]').astype('int64') / 1e9
                e = t0 + (x.astype(float) - t0) * b + sh / 1e3
                need(np.abs(y - e).max() < 4e-6, "times %s: %s, expected %s", k, y, e)
                continue
            if x.dtype.kind not in 'fc':
                need(np.array_equal(x, y), "%s changed", k)
                continue
            L, T = dims_of(k, v, own, raw)
            e = x * (a ** L * b ** T)
            ok = np.isfinite(e)
            need(np.array_equal(ok, np.isfinite(y)), "%s: missing values %s, expected %s (lengths x %s, times x %s)", k, np.flatnonzero(~np.isfinite(y))[:5], np.flatnonzero(~ok)[:5], a, b)
            if not ok.any():
                continue
            tol = 4e-6 * np.abs(e) + (2e-4 if c['op'] in COARSE else 1e-6) * np.abs(e[ok]).max()
            need((np.abs(y - e) <= tol)[ok].all(), "%s: %s, expected %s: its unit is %s (lengths x %s, times x %s, taken %s ms later)", k, y[ok][:4], e[ok][:4],
                 v.attrs.get('units', own), a, b, sh)
    return [c['op'], sorted(full)]


def run(ex):
    T = [(1, 0), (0, 1), (-10, 0), (0, -3), (0, 5), (6, 6), (10, -2)]
    SH = [1000, 86400000 * 366, -86400000 * 365 * 60]
    to = [(p, q, 0) for p, q in T] + [(0, 0, s) for s in SH] + [(3, 1, 12345000)]
    if not ex.quick:
        to += [(p, q, s) for p in (-7, -1, 1, 7) for q in (-2, -1, 1, 2) for s in (0, 86400000 * 3650)]
    ex.cases('units', [dict(ds=k, op=o, nfft=f, to=to) for o, (ks, _) in OPS.items() for k in ks for f in (8, 16)], units,
             "every calculation x instrument x FFT size, in units of length and time from 1/1024 to 1024 of the given ones, and taken from sixty years earlier to a year later")
