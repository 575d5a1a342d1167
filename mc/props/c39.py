"""C39  What cannot be done is refused, and a refusal leaves no trace."""
import itertools
import os
import numpy as np
import dolfyn
from dolfyn.adv import clean as vc, turbulence as vt
from dolfyn.adv.motion import correct_motion
from dolfyn.adp import clean as pc, turbulence as pt
from dolfyn.rotate import api as ra, base as rb
from dolfyn.tools import psd as tp
from .. import dsets, rot_ref
from ..core import need, Fail, scratch
from ..util import ds_same, quiet, read, write
from . import c16

LEVEL = "exploration"


def B(ds, n=12, fs=None, cls=dolfyn.VelBinner, **kw):
    return cls(n_bin=n, fs=fs or ds.attrs.get('fs') or 1, n_fft=4, **kw)


def without(d, *names):
    d = d.copy()
    for n in names:
        if n in d.attrs:
            del d.attrs[n]
        else:
            d = d.drop_vars(n)
    return d


def avg(d, cls=dolfyn.VelBinner):
    b = B(d, cls=cls)
    return b, b.do_avg(d)


def vpsd(d):
    b, a = avg(d, vt.ADVBinner)
    return b, b.calc_psd(d.vel), a.velds.U_mag


def ppsd(d):
    b, a = avg(d, pt.ADPBinner)
    return b, b.calc_psd(d.vel[2, 0]), a.velds.U_mag[0]


ADV, IMU, SIG, RDI, ALL = ['vector', 'imu'], ['imu'], ['sig', 'sig5'], ['rdi'], ['vector', 'imu', 'rdi', 'sig']
BAD_M = {'mirror': np.diag([1., 1, -1]), 'stretch': np.diag([1., 2, 1]), 'null': np.zeros((3, 3))}

INIT = dict(
    rdi=('rdi', dict(n=24, blk='vcapsb', ncells=6)), sig=('sig', dict(n=24, nc=6, lay=[21], fl=['vel', 'amp', 'corr', 'ahrs'])),
    sig5=('sig', dict(n=24, nc=6, nc24=6, lay=[21, 24], fl=['vel', 'amp', 'corr', 'ahrs'])),
    vector=('vector', dict(n=24, cy=1, fs=4)), imu=('vector', dict(n=36, imu=195, cy=1, fs=4)))


def make(name):
    return c16.make(name, INIT)


# name -> (datasets, the request that cannot be met, a like request that can)
REQ = {}


def req(name, kinds, bad, good):
    REQ[name] = (kinds, bad, good)


for f in ('xyz', 'instrument', '', 'true', 'earth ', 'beams', 'principal_axes', 'ship2'):
    req('frame_%s' % f, ALL, lambda d, f=f: ra.rotate2(d, f), lambda d: ra.rotate2(d, 'earth', inplace=False))
    req('frame_copy_%s' % f, ALL, lambda d, f=f: ra.rotate2(d, f, inplace=False), lambda d: ra.rotate2(d, 'inst', inplace=False))
req('vframe', ALL, lambda d: d.velds.rotate2('magnetic'), lambda d: d.velds.rotate2('inst', inplace=False))


def _model(d):
    d = d.copy()
    d.attrs.update(inst_make='Acme', inst_model='X1')
    return ra.rotate2(d, 'inst' if d.coord_sys != 'inst' else 'earth')


def _frame_in(d):
    d = d.copy()
    d.attrs['coord_sys'] = 'polar'
    return ra.rotate2(d, 'earth')


req('model', ALL, _model, lambda d: ra.rotate2(d, 'earth', inplace=False))
req('frame_in', ALL, _frame_in, lambda d: ra.rotate2(d, 'earth', inplace=False))
for k, m in BAD_M.items():
    req('head_' + k, ['vector', 'imu'], lambda d, m=m: ra.set_inst2head_rotmat(d, m), lambda d: ra.set_inst2head_rotmat(d, rot_ref.HEAD[1], inplace=False))
req('head_adcp', ['rdi', 'sig'], lambda d: ra.set_inst2head_rotmat(d, np.eye(3)), lambda d: ra.set_declination(d, 3., inplace=False))
req('head_twice', ADV, lambda d: ra.set_inst2head_rotmat(ra.set_inst2head_rotmat(d, rot_ref.HEAD[1], inplace=False), rot_ref.HEAD[2]),
    lambda d: ra.set_inst2head_rotmat(d, rot_ref.HEAD[1], inplace=False))
for u in ('deg', 'rad', 'turns', ''):
    req('euler_units_' + u, ALL, lambda d, u=u: rb.euler2orient(d.heading, d['pitch'], d['roll'], units=u), lambda d: rb.euler2orient(d.heading, d['pitch'], d['roll'], units='degrees'))

# averaging
req('bin_long', ALL, lambda d: B(d, n=d.time.size + 1).do_avg(d), lambda d: B(d, n=d.time.size).do_avg(d))
req('bin_long_var', ALL, lambda d: B(d, n=d.time.size + 1).do_var(d), lambda d: B(d, n=d.time.size).do_var(d))
req('bin_long_arr', ALL, lambda d: B(d, n=d.time.size + 1).mean(d.vel.values), lambda d: B(d, n=d.time.size).mean(d.vel.values))
req('bin_fs', ALL, lambda d: B(d, fs=d.fs * 2).do_avg(d), lambda d: B(d).do_avg(d))
req('bin_fs_var', ALL, lambda d: B(d, fs=d.fs * 2).do_var(d), lambda d: B(d).do_var(d))
req('empty', ALL, lambda d: B(d).do_avg(d.assign(none=(('q', 'time'), np.zeros((0, d.time.size), 'f4')))), lambda d: B(d).do_avg(d))


def _out(d, k, v):
    o = B(d).do_avg(d)
    o.attrs[k] = v
    return B(d).do_avg(d, out_ds=o)


req('out_fs', ALL, lambda d: _out(d, 'n_bin', 99), lambda d: _out(d, 'n_bin', 12))
req('out_make', ALL, lambda d: _out(d, 'inst_make', 'Acme'), lambda d: _out(d, 'inst_make', d.inst_make))
# spectra
for u in ('hz!', 'cycles', '', 'deg/s', 'degrees'):
    req('units_' + u, ADV, lambda d, u=u: B(d).calc_psd(d.vel, freq_units=u), lambda d: B(d).calc_psd(d.vel, freq_units='Hz'))
    req('units_freq_' + u, ADV, lambda d, u=u: B(d).calc_freq(units=u), lambda d: B(d).calc_freq(units='Hz'))
for n in (1, 2, 4):
    req('noise_psd_%d' % n, ADV, lambda d, n=n: B(d, cls=vt.ADVBinner).calc_psd(d.vel, noise=[.1] * n), lambda d: B(d, cls=vt.ADVBinner).calc_psd(d.vel, noise=[.1] * 3))
    if n > 1:
        req('noise_psd1_%d' % n, ADV, lambda d, n=n: B(d, cls=vt.ADVBinner).calc_psd(d.vel[0], noise=[.1] * n), lambda d: B(d, cls=vt.ADVBinner).calc_psd(d.vel[0], noise=.1))
    req('noise_tke_%d' % n, ADV, lambda d, n=n: B(d).calc_tke(d.vel, noise=[.1] * n), lambda d: B(d).calc_tke(d.vel, noise=[.1] * 3))
req('psd_3d', RDI + SIG, lambda d: B(d).calc_psd(d.vel[:2, :2]), lambda d: B(d).calc_psd(d.vel[0, 0]))
req('tke_3d', RDI + SIG, lambda d: vt.ADVBinner(n_bin=12, fs=d.fs).calc_stress(d.vel), lambda d: d)
req('cplx_psd', ADV, lambda d: tp.psd(d.vel[0].values + 1j, 4, d.fs), lambda d: tp.psd(d.vel[0].values, 4, d.fs))
req('window_name', ADV, lambda d: tp.psd(d.vel[0].values.astype(float), 4, 4., window='boxy'), lambda d: tp.psd(d.vel[0].values.astype(float), 4, 4., window='hann'))
for n in (1, 3, 5, 8):
    req('window_len_%d' % n, ADV, lambda d, n=n: tp.psd(d.vel[0].values.astype(float), 4, 4., window=np.ones(n)),
        lambda d: tp.psd(d.vel[0].values.astype(float), 4, 4., window=np.ones(4)))
req('window_type', ADV, lambda d: tp.psd(d.vel[0].values.astype(float), 4, 4., window={}), lambda d: tp.psd(d.vel[0].values.astype(float), 4, 4., window=None))
for m in ('calc_coh', 'calc_phase_angle'):
    req('short_' + m, ADV, lambda d, m=m: getattr(B(d), m)(d.vel[0, :12], d.vel[1]), lambda d, m=m: getattr(B(d), m)(d.vel[0], d.vel[1]))
# turbulence, ADV
for r in ((.1,), (.1, .2, .3), 5, ()):
    req('lt83_range_%s' % (r,), ADV, lambda d, r=r: (lambda b, s, U: b.calc_epsilon_LT83(s, U, freq_range=r))(*vpsd(d)),
        lambda d: (lambda b, s, U: b.calc_epsilon_LT83(s, U, freq_range=[1, 10]))(*vpsd(d)))
    req('lt83p_range_%s' % (r,), SIG, lambda d, r=r: (lambda b, s, U: b.calc_dissipation_LT83(s, U, freq_range=r))(*ppsd(d)),
        lambda d: (lambda b, s, U: b.calc_dissipation_LT83(s, U, freq_range=[.1, 2]))(*ppsd(d)))
req('lt83_raw', ADV, lambda d: (lambda b, s, U: b.calc_epsilon_LT83(s, d.velds.U_mag, freq_range=[1, 10]))(*vpsd(d)),
    lambda d: (lambda b, s, U: b.calc_epsilon_LT83(s, U, freq_range=[1, 10]))(*vpsd(d)))
for n in (2, 4):
    req('lt83_noise_%d' % n, ADV, lambda d, n=n: (lambda b, s, U: b.calc_epsilon_LT83(s, U, freq_range=[1, 10], noise=[.1] * n))(*vpsd(d)),
        lambda d: (lambda b, s, U: b.calc_epsilon_LT83(s, U, freq_range=[1, 10], noise=[.1] * 3))(*vpsd(d)))
req('sf_vector', ADV, lambda d: B(d, cls=vt.ADVBinner).calc_epsilon_SF(d.vel, avg(d)[1].velds.U_mag), lambda d: B(d, cls=vt.ADVBinner).calc_epsilon_SF(d.vel[0], avg(d)[1].velds.U_mag))
# turbulence, ADCP
req('lt83p_1d', SIG, lambda d: (lambda b, s, U: b.calc_dissipation_LT83(s[0], U))(*ppsd(d)), lambda d: (lambda b, s, U: b.calc_dissipation_LT83(s, U, freq_range=[.1, 2]))(*ppsd(d)))
req('lt83p_U', SIG, lambda d: (lambda b, s, U: b.calc_dissipation_LT83(s, avg(d)[1].velds.U_mag))(*ppsd(d)), lambda d: (lambda b, s, U: b.calc_dissipation_LT83(s, U, freq_range=[.1, 2]))(*ppsd(d)))
req('noise_1d', SIG, lambda d: (lambda b, s, U: b.calc_doppler_noise(s[0]))(*ppsd(d)), lambda d: (lambda b, s, U: b.calc_doppler_noise(s, pct_fN=.5))(*ppsd(d)))
req('sf_3d', SIG + RDI, lambda d: B(d, cls=pt.ADPBinner).calc_dissipation_SF(d.vel), lambda d: B(d, cls=pt.ADPBinner).calc_dissipation_SF(d.vel[2], r_range=[.4, 5]))
for w in ('', 'side', 'sideways'):
    req('stress_orient_%s' % w, RDI + SIG, lambda d, w=w: B(d, cls=pt.ADPBinner).calc_stress_4beam(d, orientation=w), lambda d: B(d, cls=pt.ADPBinner).calc_stress_4beam(d, orientation='up'))
    req('stress5_orient_%s' % w, ['sig5'], lambda d, w=w: B(d, cls=pt.ADPBinner).calc_stress_5beam(d, orientation=w), lambda d: B(d, cls=pt.ADPBinner).calc_stress_5beam(d, orientation='up'))
req('stress_angle', RDI + SIG, lambda d: B(d, cls=pt.ADPBinner).calc_stress_4beam(without(d, 'beam_angle'), orientation='up'),
    lambda d: B(d, cls=pt.ADPBinner).calc_stress_4beam(without(d, 'beam_angle'), orientation='up', beam_angle=25))
req('stress5_b5', RDI + ['sig'], lambda d: B(d, cls=pt.ADPBinner).calc_stress_5beam(d, orientation='up'), lambda d: B(d, cls=pt.ADPBinner).calc_stress_4beam(d, orientation='up'))
req('tke5_b5', RDI + ['sig'], lambda d: B(d, cls=pt.ADPBinner).calc_total_tke(d, orientation='up'), lambda d: B(d, cls=pt.ADPBinner).calc_stress_4beam(d, orientation='up'))
# cleaning
for i in (False, True):
    req('surface_angle_%d' % i, RDI + SIG, lambda d, i=i: pc.nan_beyond_surface(without(d.assign(depth=('time', np.full(d.time.size, 2.))), 'beam_angle'), inplace=i),
        lambda d: pc.nan_beyond_surface(d.assign(depth=('time', np.full(d.time.size, 2.)))))
# motion
req('motion_no_imu', ['vector'], lambda d: correct_motion(d), lambda d: ra.rotate2(d, 'earth', inplace=False))
req('motion_twice', IMU, lambda d: correct_motion(correct_motion(d)), lambda d: correct_motion(d))


def _gap(d, v, t):
    d = d.copy(deep=True)
    d[v].values[1, t] = np.nan
    return d


for v in ('accel', 'angrt'):
    for t in (0, 11, -1):
        req('motion_gap_%s_%d' % (v, t), IMU, lambda d, v=v, t=t: correct_motion(_gap(d, v, t)), lambda d: correct_motion(d))


def _calc(d, frame):
    from dolfyn.adv.motion import CalcMotion
    d = d.copy(deep=True)
    d.attrs['coord_sys'] = frame
    return CalcMotion(d, accel_filtfreq=.2, vel_filtfreq=.1)


for f in ('beam', 'principal', 'polar'):
    req('motion_frame_' + f, IMU, lambda d, f=f: _calc(d, f), lambda d: _calc(d, 'inst').calc_velacc())


def _duty(d, irregular):
    d = d.copy(deep=True)
    n = 12
    d.attrs.update(duty_cycle_n_burst=n, duty_cycle_interval=60)
    k = np.arange(d.time.size)
    t = (k // n) * 60e9 + (k % n) * 1e9 / d.fs
    if irregular:
        t[k // n == 1] += irregular * 1e9
    d['time'] = np.datetime64('2020-01-01', 'ns') + t.astype('int64').astype('timedelta64[ns]')
    return correct_motion(d)


for t in (-20, 10, 300):
    req('motion_duty_%d' % t, IMU, lambda d, t=t: _duty(d, t), lambda d: _duty(d, 0))


# files
def fsave(fn, name):
    return lambda d: fn(d, os.path.join(scratch(), name))


for n in ('a.mat', 'a.txt', 'a.nc4', 'a.nc.b', 'a.NC'):
    req('save_' + n, ALL, fsave(dolfyn.save, n), lambda d: None)
for n in ('a.nc', 'a.txt', 'a.m', 'a.mat.b', 'a.MAT'):
    req('save_mat_' + n, ALL, fsave(dolfyn.save_mat, n), lambda d: None)
for n in ('a.mat', 'a.000', 'none.nc', 'none'):
    req('load_' + n, ['rdi'], lambda d, n=n: dolfyn.load(os.path.join(scratch(), n)), lambda d: None)
for n in ('a.nc', 'a.000', 'none.mat', 'none'):
    req('load_mat_' + n, ['rdi'], lambda d, n=n: dolfyn.load_mat(os.path.join(scratch(), n)), lambda d: None)


def same_result(what, a, b):
    """Equal results of one call."""
    need(type(a) is type(b), "%s: %s, without the refusal %s", what, type(a).__name__, type(b).__name__)
    need(c16.snap(a) == c16.snap(b), "%s: the result differs after the refusal: %s", what, c16.differ(c16.snap(b), c16.snap(a)))


def traces(d):
    return [c16.snap(d), sorted(os.listdir(scratch())), os.getcwd(), np.geterr()]


def refuse(name, bad, d):
    before = traces(d)
    try:
        with quiet():
            r = bad(d)
    except Fail:
        raise
    except Exception as e:
        err = type(e).__name__
    else:
        raise Fail("%s is not refused, it returned %s" % (name, str(r)[:60].replace('\n', ' ')))
    after = traces(d)
    need(after[0] == before[0], "%s was refused, but changed the dataset: %s", name, c16.differ(before[0], after[0]))
    need(after[1:] == before[1:], "%s was refused, but left %s for %s", name, after[1:], before[1:])
    return err


def request(c):
    kinds, bad, good = REQ[c['req']]
    ref = good(make(c['init']))
    d = make(c['init'])
    errs = []
    for n in range(c['times']):
        errs.append(refuse(c['req'], bad, d))
        with quiet():
            same_result(c['req'], good(d), ref)
    return errs


# programs: what users do after a refusal
PROG = dict(
    imu=['earth', 'decl', 'principal', 'avg'], vector=['head', 'earth', 'inst', 'avg'], rdi=['inst', 'earth', 'decl', 'avg'],
    sig=['earth', 'inst', 'decl', 'avg'], sig5=['inst', 'beam', 'earth', 'avg'])
STEP = dict(
    earth=lambda d: ra.rotate2(d, 'earth', inplace=False), inst=lambda d: ra.rotate2(d, 'inst', inplace=False), beam=lambda d: ra.rotate2(d, 'beam', inplace=False),
    principal=lambda d: ra.rotate2(d, 'principal', inplace=False), decl=lambda d: ra.set_declination(d, 12., inplace=False),
    head=lambda d: ra.set_inst2head_rotmat(d, rot_ref.HEAD[1], inplace=False), avg=lambda d: B(d).do_avg(d))
# requests that are refused in every state of the programs above (before averaging)
EVER = ['frame_xyz', 'frame_', 'vframe', 'model', 'frame_in', 'euler_units_deg', 'bin_long', 'bin_fs', 'empty', 'out_make', 'units_cycles', 'noise_psd_2', 'noise_tke_4',
        'psd_3d', 'window_len_3', 'sf_3d', 'motion_gap_accel_0', 'motion_duty_300', 'motion_no_imu', 'head_adcp', 'save_a.txt', 'save_mat_a.nc', 'stress_angle']


def program(c):
    """Refusals between the calls of a program do not change what it computes."""
    ref, d = make(c['init']), make(c['init'])
    out = []
    for i, s in enumerate(PROG[c['init']]):
        for r in c['at'].get(str(i), []):
            out.append(refuse(r, REQ[r][1], d))
        with quiet():
            ref, d = STEP[s](ref), STEP[s](d)
        same_result(s, d, ref)
    return out


# ---------------------------------------------------------------- reading
FILES = dict(vector=('vector', dict(n=9)), vno=('vno', dict(n=5)), awac=('awac', dict(n=3)), sig=('sig', dict(n=4)), rdi=('rdi', dict(n=4)))
NENS = {'list1': [2], 'list3': [0, 1, 2], 'tuple0': (), 'text': '10', 'text1': 'a', 'dict': {'a': 1}, 'nan': float('nan'), 'tuple1': (3,), 'array': np.array([0, 1, 3]),
        'pair': (0, 2)}


def reading(c):
    k, kw = FILES[c['file']]
    p = write(dsets.make(k, **dict(kw)), 'x' + c['ext'])
    before = open(p, 'rb').read()
    ls = set(os.listdir(os.path.dirname(p)))
    ref = read(p)
    extra = set(os.listdir(os.path.dirname(p))) - ls
    need(all(x.endswith('.index') for x in extra), "reading left %s", extra)
    for _ in range(2):
        try:
            with quiet():
                r = dolfyn.read(p, nens=NENS[c['nens']])
        except Exception as e:
            err = type(e).__name__
        else:
            raise Fail("nens=%r is accepted: %d samples" % (NENS[c['nens']], r.time.size))
        need(open(p, 'rb').read() == before, "the file was changed")
        need(set(os.listdir(os.path.dirname(p))) - ls == extra, "left next to the file: %s", set(os.listdir(os.path.dirname(p))) - ls - extra)
        ds_same(read(p), ref, 'read after the refusal', rtol=0, atol=0)
    return err


def run(ex):
    ex.cases('requests', [dict(req=r, init=i, times=2) for r, v in REQ.items() for i in v[0]], request, "every impossible request x every dataset it applies to")
    cs = []
    for i in PROG:
        ev = [r for r in EVER if i in REQ[r][0]]
        n = len(PROG[i])
        for a in range(n):
            cs += [dict(init=i, at={str(a): [r]}) for r in ev]
            cs += [dict(init=i, at={str(a): [r, s]}) for r in ev for s in ev] if not ex.quick else []
        for a, b in itertools.combinations(range(n), 2):
            cs += [dict(init=i, at={str(a): [r], str(b): [s]}) for r in ev for s in ev] if not ex.quick else []
        if ex.quick:
            cs += [dict(init=i, at={str(a): [r, ev[(k + 3) % len(ev)]]}) for a in (1, 2) for k, r in enumerate(ev)]
    ex.cases('programs', cs, program, "one or two refusals at every place of a program of calls")
    ok = {('sig', 'pair'), ('vector', 'pair'), ('vno', 'pair'), ('awac', 'pair')}
    ex.cases('reading', [dict(file=f, nens=n, ext='.bin') for f in FILES for n in NENS if (f, n) not in ok], reading, "file families x unusable windows")
