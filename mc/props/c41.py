"""C41  A part of the data is processed as it is inside the whole."""
import os
import warnings
import numpy as np
import xarray as xr
import dolfyn
from dolfyn.adp import clean as pc, turbulence as pt
from dolfyn.adv import clean as vc, turbulence as vt
from dolfyn.rotate import api as ra, base as rb
from dolfyn.tools import misc
from .. import dsets as D
from .. import rot_ref as RR
from ..core import need, Fail, scratch
from ..util import ds_same, same, quiet
from . import c16

LEVEL = "model_checking"
INIT = dict(
    rdi=('rdi', dict(n=6, blk='vcapsb', ncells=4)),
    rdi_earth=('rdi', dict(n=6, frame=3, ncells=4)),
    sig=('sig', dict(n=6, nc=4, lay=[21, 24, 28], fl=['vel', 'amp', 'corr'])),
    sig_imu=('sig', dict(n=6, nc=4, lay=[21, 24], fl=['vel', 'amp', 'corr', 'ahrs'])),
    vector=('vector', dict(n=6, cy=1, fs=4)),
    imu=('vector', dict(n=6, imu=195, cy=1, fs=4)),
    awac=('awac', dict(n=6)),
    vno=('vno', dict(n=6)),
)
ADP = ('rdi', 'rdi_earth', 'sig', 'sig_imu', 'awac')


def shortcuts(ds):
    for k in ('u', 'v', 'w', 'U_mag', 'U_dir'):
        ds['x_' + k] = getattr(ds.velds, k)
    return ds


def euler(ds):
    for k, v in zip(('x_h', 'x_p', 'x_r'), rb.orient2euler(ds)):
        ds[k] = v if isinstance(v, xr.DataArray) else ('time', np.asarray(v))
    return ds


def omat(ds):
    ds['x_o'] = (('earth', 'inst', 'time'), np.asarray(rb.euler2orient(ds['heading'], ds['pitch'], ds['roll'])))
    return ds


def nc(ds):
    p = os.path.join(scratch(), 'a.nc')
    dolfyn.save(ds, p)
    return dolfyn.load(p)


def setv(k, f):
    def g(ds):
        ds[k] = f(ds)
        return ds
    return g


def inpl(f):
    def g(ds):
        f(ds)
        return ds
    return g


def stamps(ds):
    for t in [t for t in ds.dims if t.startswith('time')]:
        ds['e_' + t] = (t, np.asarray(dolfyn.time.dt642epoch(ds[t])))
        ds['m_' + t] = (t, np.asarray(dolfyn.time.date2matlab(dolfyn.time.dt642date(ds[t]))))
    return ds


# name -> (applies to, operation, works on parts of 'time' and / or 'range')
OPS = dict(
    beam=(None, lambda d: ra.rotate2(d, 'beam', inplace=False), 'tr'), inst=(None, lambda d: ra.rotate2(d, 'inst', inplace=False), 'tr'),
    earth=(None, lambda d: ra.rotate2(d, 'earth', inplace=False), 'tr'), principal=(None, lambda d: ra.rotate2(d, 'principal', inplace=False), 'tr'),
    decl=(None, lambda d: ra.set_declination(d, 12., inplace=False), 'tr'), head=(('vector', 'imu'), lambda d: ra.set_inst2head_rotmat(d, RR.HEAD[2], inplace=False), 'tr'),
    shortcuts=(None, shortcuts, 'tr'), euler=(None, euler, 'tr'), omat=(None, omat, 'tr'), nc=(None, nc, 'tr'), stamps=(None, stamps, 'tr'),
    degrees=(None, setv('x_d', lambda d: misc.convert_degrees(d['heading'])), 'tr'),
    offset=(ADP, inpl(lambda d: pc.set_range_offset(d, .6)), 'tr'), from_p=(ADP, inpl(lambda d: pc.find_surface_from_P(d, salinity=30)), 'tr'),
    beyond=(ADP, lambda d: pc.nan_beyond_surface(d), 'tr'),
    corr=(ADP, lambda d: pc.correlation_filter(d, thresh=60), 'tr'), exceeds=(None, setv('vel', lambda d: pc.val_exceeds_thresh(d['vel'], thresh=.5)), 'tr'),
    gaps_d=(ADP, setv('vel', lambda d: pc.fillgaps_depth(d['vel'])), 't'), gaps_t=(ADP, setv('vel', lambda d: pc.fillgaps_time(d['vel'])), 'r'),
    orient=(ADP, lambda d: pc.medfilt_orient(d, nfilt=3), 'r'),
    limit=(None, setv('x_l', lambda d: (d['vel'].dims, np.asarray(vc.range_limit(d['vel'], [-.5, .5])))), 'tr'),
)


LEAF = ('shortcuts', 'euler', 'omat', 'stamps', 'degrees', 'limit')


def parts(dim, n):
    """All contiguous parts, all strides, single samples (as parts of length one), scattered, reversed, repeated and by mask."""
    ps = [('slice', [i, j, 1]) for i in range(n) for j in range(i + 1, n + 1) if j - i < n]
    ps += [('slice', [i, n, s]) for s in (2, 3) for i in range(s) if i < n]
    ps += [('list', [0, n - 1]), ('list', [n - 2, n - 1])]
    if dim == 'time':
        ps += [('mask', [k % 3 != 1 for k in range(n)])]
    return [[dim] + list(p) for p in ps]


def cut(ds, part):
    dim, kind, a = part
    n = ds.sizes.get(dim)
    out = ds
    for d in ([d for d in ds.dims if d.startswith(dim) and d not in ('time_gps',)]):
        if n and ds.sizes[d] != n:
            continue
        k = slice(*a) if kind == 'slice' else np.array(a)
        out = out.isel({d: k})
    return out


def work(ds, prog, part, at):
    errs = []
    for i, op in enumerate(prog + [None]):
        if i == at:
            ds = cut(ds, part)
        if op is not None:
            try:
                with quiet(), warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    ds = OPS[op][1](ds)
            except Exception as e:
                errs.append((i, type(e).__name__))
                break
    if at > len(prog):
        ds = cut(ds, part)
    return ds, errs


def sample(c):
    raw = c16.make(c['ds'], INIT)
    full, e0 = work(raw.copy(deep=True), c['prog'], None, -1)
    if e0:
        return e0
    for part in c['parts']:
        exp = cut(full, part)
        for at in range(len(c['prog'])):
            got, e = work(raw.copy(deep=True), c['prog'], part, at)
            need(not e, "%s of a part (%s, taken before step %d): %s", c['prog'], part, at, e)
            ds_same(got, exp, '%s, part %s taken before step %d' % (c['prog'], part, at), rtol=2e-5, atol=2e-5)
            need({v: got[v].dtype.kind for v in got.variables} == {v: exp[v].dtype.kind for v in exp.variables}, "types")
            for v in exp.variables:
                need(set(got[v].attrs) == set(exp[v].attrs) and all(str(got[v].attrs[k]) == str(exp[v].attrs[k]) for k in exp[v].attrs),
                     "attributes of %s: %s, expected %s", v, got[v].attrs, exp[v].attrs)
    return [sorted(full.variables), full.attrs.get('coord_sys')]


# ---------------------------------------------------------------- whole bins
NB, NP = 8, 5                                    # samples per bin, bins
BINIT = dict(
    rdi=('rdi', dict(n=NB * NP, blk='vcapsb', ncells=4)), sig=('sig', dict(n=NB * NP, nc=4, lay=[21, 24], fl=['vel', 'amp', 'corr', 'ahrs'])),
    vector=('vector', dict(n=NB * NP, cy=1, fs=4)), imu=('vector', dict(n=NB * NP, imu=195, cy=1, fs=4)), awac=('awac', dict(n=NB * NP)), vno=('vno', dict(n=NB * NP)))


def B(d, cls=dolfyn.VelBinner, **kw):
    return cls(n_bin=NB, fs=d.attrs.get('fs') or 1, **dict(dict(n_fft=4), **kw))


def adv(f):
    return lambda d, n_fft=4: f(d, B(d, vt.ADVBinner, n_fft=n_fft))


def adp(f):
    return lambda d, n_fft=4: f(d, B(d, pt.ADPBinner, n_fft=n_fft))


def vel(f):
    return lambda d, n_fft=4: f(d, B(d, n_fft=n_fft))


def spec(d, b):
    return b.calc_psd(d['vel'], freq_units='rad/s')


V, S2, ALL = ('vector', 'imu', 'vno'), ('rdi', 'sig'), tuple(BINIT)
BIN = dict(
    avg=(ALL, vel(lambda d, b: b.do_avg(d))), var=(ALL, vel(lambda d, b: b.do_var(d))),
    tke=(ALL, vel(lambda d, b: b.calc_tke(d['vel'][:3]))), tke_m=(ALL, vel(lambda d, b: b.calc_tke(d['vel'][:3], noise=[.01, .01, .02], detrend=False))),
    ti=(ALL, vel(lambda d, b: b.calc_ti(d.velds.U_mag, detrend=True))), ti_m=(ALL, vel(lambda d, b: b.calc_ti(d.velds.U_mag, detrend=False))),
    psd1=(ALL, vel(lambda d, b: b.calc_psd(d['vel'][0, 0] if d['vel'].ndim == 3 else d['vel'][0], window='hann'))),
    psd1n=(ALL, vel(lambda d, b: b.calc_psd(d['vel'][0, 0] if d['vel'].ndim == 3 else d['vel'][0], noise=.01, n_pad=2, freq_units='Hz'))),
    coh=(ALL, vel(lambda d, b: b.calc_coh(d['vel'][0], d['vel'][1]))), phase=(ALL, vel(lambda d, b: b.calc_phase_angle(d['vel'][0], d['vel'][1]))),
    acov=(ALL, vel(lambda d, b: b.calc_acov(d['vel']))), xcov=(ALL, vel(lambda d, b: b.calc_xcov(d['vel'][0], d['vel'][1]))),
    xcov3=(ALL, vel(lambda d, b: b.calc_xcov(d['vel'][0], d['vel'][1], npt=3, normed=True))),
    reshape=(ALL, vel(lambda d, b: bins(b.reshape(d['vel'].values)))), detrend=(ALL, vel(lambda d, b: bins(b.detrend(d['vel'].values)))),
    demean=(ALL, vel(lambda d, b: bins(b.demean(d['vel'].values)))), std=(ALL, vel(lambda d, b: last(b.std(d['vel'].values)))),
    turb=(V, lambda d, n_fft=4: vt.calc_turbulence(d, n_bin=NB, fs=d.attrs['fs'], n_fft=n_fft)), call=(V, adv(lambda d, b: b(d, freq_units='Hz', window=1))),
    stress=(V, adv(lambda d, b: b.calc_stress(d['vel']))), stress_m=(V, adv(lambda d, b: b.calc_stress(d['vel'], detrend=False))),
    csd=(V, adv(lambda d, b: b.calc_csd(d['vel']))), psd=(V, adv(spec)), psdn=(V, adv(lambda d, b: b.calc_psd(d['vel'], noise=[.1, 0, .2], window=None))),
    lt83=(V, adv(lambda d, b: b.calc_epsilon_LT83(spec(d, b), b.do_avg(d).velds.U_mag, freq_range=[2, 12]))),
    sf=(V, adv(lambda d, b: b.calc_epsilon_SF(d['vel'][0], b.do_avg(d).velds.U_mag, freq_range=[.1, 2]))),
    te01=(V, adv(lambda d, b: b.calc_epsilon_TE01(d, b(d), freq_range=[2, 12]))), l_int=(V, adv(lambda d, b: b.calc_L_int(b.calc_acov(d['vel']), b.do_avg(d).velds.U_mag))),
    dudz=(ALL, adp(lambda d, b: b.calc_dudz(b.do_avg(d)['vel']) if d['vel'].ndim == 3 else b.do_avg(d))), shear=(S2, adp(lambda d, b: b.calc_shear2(b.do_avg(d)['vel']))),
    stress4=(S2, adp(lambda d, b: b.calc_stress_4beam(d, noise=.01, orientation='up', beam_angle=25))), stress5=(('sig',), adp(lambda d, b: b.calc_stress_5beam(d, noise=.01, orientation='up', beam_angle=25, tke_only=False))),
    tke5=(('sig',), adp(lambda d, b: b.calc_stress_5beam(d, orientation='down', beam_angle=25, tke_only=True))),
    sf_adp=(S2, adp(lambda d, b: list(b.calc_dissipation_SF(d['vel'][2], r_range=[.4, 5])))),
    lt_adp=(S2, adp(lambda d, b: b.calc_dissipation_LT83(b.calc_psd(d['vel'][0, 1], freq_units='Hz'), b.do_avg(d).velds.U_mag.isel(range=1), f_range=[.1, .5]))),
    ustar=(S2, adp(lambda d, b: b.calc_ustar_fit(b.do_avg(d), b.calc_stress_4beam(d, orientation='up', beam_angle=25)[1], z_inds=slice(0, 2)))),
)


PAD = ('acov', 'csd', 'psd1n', 'xcov', 'xcov3', 'l_int', 'coh', 'phase')           # reach into the neighbouring bins
FFT = ('psd1', 'psd1n', 'turb', 'call', 'psd', 'psdn', 'lt83', 'te01', 'lt_adp')      # do if the FFT is shorter than the bin


def bins(a):
    return xr.DataArray(np.moveaxis(np.asarray(a), -2, 0), dims=['time'] + ['x%d' % k for k in range(np.ndim(a) - 1)])


def last(a):
    return xr.DataArray(np.asarray(a), dims=['x%d' % k for k in range(np.ndim(a) - 1)] + ['time'])


def flat(r):
    """-> name -> DataArray"""
    if isinstance(r, xr.Dataset):
        return {str(v): r[v] for v in r.variables}
    if isinstance(r, xr.DataArray):
        return dict({'result': r}, **{str(k): r[k] for k in r.coords})
    return {'%d.%s' % (i, k): v for i, x in enumerate(r) for k, v in flat(x).items()}


def binned(c):
    raw = c16.make(c['ds'], BINIT)
    if c.get('gap'):
        raw['vel'].values[0, ..., NB + 2] = np.nan
    raw['vel'].values[...] += np.arange(raw.time.size) * .01
    f = BIN[c['op']][1]
    if c['op'] in FFT:
        g, f = f, lambda d: g(d, c['nfft'])
    pad = c['op'] in PAD or c.get('nfft') == 4

    def call(d):
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return flat(f(d))
    try:
        full = call(raw.copy(deep=True))
    except Exception as e:
        full = type(e).__name__
    for i in range(NP):
        for j in range(i + 1, NP + 1):
            if j - i == NP:
                continue
            part = raw.isel({t: slice(i * NB, j * NB) for t in raw.dims if t.startswith('time')}).copy(deep=True)
            try:
                got = call(part)
            except Exception as e:
                need(full == type(e).__name__, "bins %d-%d alone: %s, in the whole record: %s", i, j, repr(e)[:90], 'fine' if isinstance(full, dict) else full)
                continue
            need(isinstance(full, dict), "works on bins %d-%d alone, on the whole record: %s", i, j, full)
            need(set(got) == set(full), "results %s", set(got) ^ set(full))
            for k, v in full.items():
                t = [t for t in v.dims if t.startswith('time')]
                # where a bin is extended into its neighbours, only bins that have theirs can be compared
                a, z = (i + (pad and i > 0), j - (pad and j < NP)) if t else (i, j)
                e = v.isel({x: slice(a, max(a, z)) for x in t})
                got[k] = got[k].isel({x: slice(a - i, max(a, z) - i) for x in t})
                need(got[k].dims == e.dims, "dims of %s: %s, expected %s", k, got[k].dims, e.dims)
                same('%s of bins %d-%d alone' % (k, i, j), got[k].values, e.values, 2e-5, 1e-6 * (1 + (np.nanmax(np.abs(e.values)) if e.dtype.kind in 'fc' and e.size and not np.isnan(e.values).all() else 0)))
    return c['op'] if not isinstance(full, dict) else sorted(full)


CELL = ('avg', 'var', 'ti', 'ti_m', 'acov', 'xcov', 'xcov3', 'coh', 'phase', 'stress4', 'stress5', 'tke5')


def cells(c):
    """Cells (and beams' own cells) are processed one by one."""
    raw = c16.make(c['ds'], BINIT)
    if c.get('gap'):
        raw['vel'].values[0, 1, NB + 2] = np.nan
    f = BIN[c['op']][1]

    def call(d):
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return flat(f(d))
    full = call(raw.copy(deep=True))
    for p in parts('range', raw.sizes['range']):
        got = call(cut(raw, p).copy(deep=True))
        need(set(got) == set(full), "results %s", set(got) ^ set(full))
        for k, v in full.items():
            e = cut(v.to_dataset(name='q').drop_vars([x for x in v.coords if not x.startswith('range')]), p)['q'] if any(x.startswith('range') for x in v.dims) else v
            need(got[k].dims == e.dims, "dims of %s: %s, expected %s", k, got[k].dims, e.dims)
            same('%s of cells %s alone' % (k, p), got[k].values, e.values, 2e-5, 1e-6 * (1 + (np.nanmax(np.abs(e.values)) if e.dtype.kind in 'fc' and e.size and not np.isnan(e.values).all() else 0)))
    return c['op']


def components(c):
    """What is done for all components is what is done for each."""
    raw = c16.make(c['ds'], BINIT)
    raw['vel'].values[1, ..., NB + 1] = np.nan
    fs = raw.attrs.get('fs') or 1
    b, a, q = (k(n_bin=NB, fs=fs, n_fft=c['nfft']) for k in (dolfyn.VelBinner, vt.ADVBinner, pt.ADPBinner))
    v = raw['vel']
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        m = b.do_avg(raw).velds.U_mag
        run = dict(
            psd=lambda x, w: a.calc_psd(x, freq_units=c['units']), psd_noise=lambda x, w: a.calc_psd(x, freq_units=c['units'], noise=[.3, .1, .2] if w is None else [.3, .1, .2][w]),
            lt83=lambda x, w: a.calc_epsilon_LT83(a.calc_psd(x, freq_units=c['units']), m, freq_range=[.3, 9]),
            lt83_noise=lambda x, w: a.calc_epsilon_LT83(a.calc_psd(x, freq_units=c['units']), m, freq_range=[.3, 9], noise=[.001, .002, .003] if w is None else [.001, .002, .003][w]),
            acov=lambda x, w: b.calc_acov(x),
            mean=lambda x, w: xr.DataArray(b.mean(x.values)), var=lambda x, w: xr.DataArray(b.var(x.values)), detrend=lambda x, w: xr.DataArray(b.detrend(x.values)),
            demean=lambda x, w: xr.DataArray(b.demean(x.values)), std=lambda x, w: xr.DataArray(b.std(x.values)), exceeds=lambda x, w: pc.val_exceeds_thresh(x, thresh=.5),
            gaps=lambda x, w: pc.fillgaps_time(x), fill=lambda x, w: vc.clean_fill(x, np.abs(np.asarray(x.values)) > .8, npt=3, maxgap=4), gn=lambda x, w: xr.DataArray(vc.GN2002(x, npt=20)),
            spike=lambda x, w: xr.DataArray(np.asarray(vc.spike_thresh(x, thresh=.5))), limit=lambda x, w: xr.DataArray(np.asarray(vc.range_limit(x, [-.4, .4]))))[c['op']]
        v0 = v.copy(deep=True)
        full = run(v.copy(deep=True), None)
        need(v.identical(v0), "input changed")
        for i in range(v.shape[0]):
            one = run(v[i].copy(deep=True), i)
            e = full[i]
            need(one.dims == e.dims or all(str(x).startswith('dim_') for x in one.dims), "dims %s, expected %s", one.dims, e.dims)
            same('component %d alone' % i, one.values, e.values, 2e-5, 1e-6 * (1 + (np.nanmax(np.abs(e.values)) if e.dtype.kind in 'fc' and e.size and not np.isnan(e.values).all() else 0)))
    return c['op']


def missing(c):
    """A bin without samples has no result, and costs the others nothing (its neighbours, where they reach into it)."""
    raw = c16.make(c['ds'], BINIT)
    raw['vel'].values[...] += np.arange(raw.time.size) * .01
    bad = raw.copy(deep=True)
    v = bad['vel'].values
    (v if c['comp'] is None else v[c['comp']])[..., c['bin'] * NB:(c['bin'] + 1) * NB] = np.nan
    f = BIN[c['op']][1]
    if c['op'] in FFT:
        g, f = f, lambda d: g(d, c['nfft'])
    pad = c['op'] in PAD or c.get('nfft') == 4
    with quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            a = flat(f(raw))
        except Exception as e:
            return type(e).__name__
        b = flat(f(bad))
    need(set(a) == set(b), "results %s", set(a) ^ set(b))
    for k, x in a.items():
        t = [t for t in x.dims if t.startswith('time')]
        y = b[k]
        need(y.dims == x.dims and y.shape == x.shape, "dims of %s", k)
        for i in range(NP if t else 1):
            if t and pad and abs(i - c['bin']) == 1:
                continue
            p, q = (x.isel({t[0]: i}).values, y.isel({t[0]: i}).values) if t else (x.values, y.values)
            if t and i == c['bin']:
                if c['comp'] is None and x.dtype.kind in 'fc':
                    need(np.isnan(q).all() or np.array_equal(p, q), "%s of a bin without samples: %s", k, q.ravel()[:3])
                continue
            same('%s of bin %d, bin %d being empty' % (k, i, c['bin']), q, p, 2e-5, 1e-6 * (1 + (np.nanmax(np.abs(p)) if p.dtype.kind in 'fc' and p.size and not np.isnan(p).all() else 0)))
    return c['op']


def run(ex):
    ex.cases('missing', [dict(ds=k, op=o, bin=i, comp=m, nfft=n) for o in BIN for k in BIN[o][0] for i in range(NP) for m in (None, 0, 2) for n in ((4, NB) if o in FFT else (None,))],
             missing, "methods x instruments x empty bin x component")
    ex.cases('cells', [dict(ds=k, op=o, gap=g) for o in CELL for k in BIN[o][0] if k in ('rdi', 'sig', 'awac') for g in (0, 1)], cells, "methods x instruments x parts of the profile")
    ex.cases('components', [dict(ds=k, op=o, units=u, nfft=n) for k in BINIT for o in ('psd', 'psd_noise', 'lt83', 'lt83_noise', 'acov', 'mean', 'var', 'detrend', 'demean',
             'std', 'exceeds', 'gaps', 'fill', 'gn', 'spike', 'limit') if k in V[:2] or o in ('acov', 'mean', 'var', 'detrend', 'demean', 'std', 'exceeds', 'gaps')
             for u in (('Hz', 'rad/s') if o in ('psd', 'psd_noise', 'lt83', 'lt83_noise') else ('Hz',)) for n in (4, NB)], components, "methods x components")
    ex.cases('bins', [dict(ds=k, op=o, gap=g, nfft=n) for o in BIN for k in BIN[o][0] for g in (0, 1) for n in ((4, NB) if o in FFT else (None,))], binned, "methods x instruments x every run of bins")
    cs = []
    for k in INIT:
        ops = [o for o in OPS if OPS[o][0] is None or k in OPS[o][0]]
        first = [o for o in ops if o not in LEAF]       # the others only add variables
        progs = [[o] for o in ops] + [[a, b] for a in (first if ex.quick else ops) for b in ops if a != b]
        if not ex.quick:
            progs += [[a, b, d] for a in first for b in first if a != b for d in ops if d not in (a, b)]
        n = c16.make(k, INIT).sizes
        for p in progs:
            for dim in ('time', 'range'):
                if dim in n and all(dim[0] in OPS[o][2] for o in p):
                    ps = parts(dim, n[dim])
                    if ex.quick and len(p) > 1 or len(p) > 2:
                        ps = ps[len(cs) % 6::6]
                    cs.append(dict(ds=k, prog=p, parts=ps))
    ex.cases('samples', cs, sample, "programs x instruments x parts x where the part is taken")
