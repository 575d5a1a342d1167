"""C42  Reads and calls do not influence one another."""
import builtins
import io
import itertools
import logging
import os
import pickle
import subprocess
import sys
import threading
import warnings
import numpy as np
import xarray as xr
import dolfyn
from dolfyn.adv.motion import CalcMotion
from dolfyn.adp import turbulence as pt
from dolfyn.adv import turbulence as vt
from .. import dsets, enc_ad2cp as E
from ..core import need, scratch, SPACE
from ..util import ds_same, quiet
from . import c01, c12, c16, c38, c41

LEVEL = "model_checking"


# ---------------------------------------------------------------- several readers of one Signature file
class Sched:
    """Runs the actors one at a time; a step is what happens between two file operations.  switches: {step: actor}
    takes the processor away from the running actor before that step, otherwise it keeps it until it is done."""

    def __init__(self, switches):
        self.sw, self.n, self.trace = dict(switches), 0, []

    def run(self, fns):
        self.go = [threading.Semaphore(0) for _ in fns]
        self.alive, self.out, self.ids = set(range(len(fns))), [None] * len(fns), {}
        self.done = threading.Semaphore(0)
        ts = [threading.Thread(target=self.body, args=(k, f), daemon=True) for k, f in enumerate(fns)]
        with Hooks(self):
            for t in ts:
                t.start()
            self.pick(None)
            need(self.done.acquire(timeout=60), "the readers wait for each other")
        for t in ts:
            t.join()
        return self.out

    def body(self, k, f):
        self.go[k].acquire()
        self.ids[threading.get_ident()] = k
        try:
            self.out[k] = ('ok', f())
        except Exception as e:
            self.out[k] = ('failed', '%s: %s' % (type(e).__name__, e))
        del self.ids[threading.get_ident()]
        self.alive.discard(k)
        self.pick(None)

    def pick(self, cur):
        """Choose who goes on; returns if it is the caller."""
        if not self.alive:
            self.done.release()
            return
        k = self.sw.get(self.n, cur)
        if k not in self.alive:
            k = cur if cur in self.alive else min(self.alive)
        self.trace.append((k, sorted(self.alive)))
        self.n += 1
        if k != cur:
            self.go[k].release()
            if cur is not None:
                self.go[cur].acquire()

    def point(self):
        k = self.ids.get(threading.get_ident())
        if k is not None:
            self.pick(k)


class Hooks:
    """Every file operation of an actor is a point where another one may go on."""
    OS = ('stat', 'replace', 'rename', 'remove', 'unlink', 'link', 'open', 'mkdir')

    def __init__(self, s):
        self.s = s

    def __enter__(self):
        self.saved = [(os, n, getattr(os, n)) for n in self.OS] + [(builtins, 'open', builtins.open), (np, 'fromfile', np.fromfile)]
        s = self.s

        def hook(f):
            def g(*a, **kw):
                s.point()
                return f(*a, **kw)
            return g

        real = builtins.open

        def op(file, mode='r', *a, **kw):
            s.point()
            f = real(file, mode, *a, **kw)
            if threading.get_ident() in s.ids and isinstance(f, io.BufferedWriter):
                raw = f.detach()
                return Out(raw, s)
            return f
        for m, n, f in self.saved:
            setattr(m, n, hook(f))
        builtins.open = op

    def __exit__(self, *a):
        for m, n, f in self.saved:
            setattr(m, n, f)


class Out(io.BufferedWriter):
    """A file being written; with `each` every write reaches the disk, as they do in a long file."""
    each = True

    def __init__(self, raw, s):
        super().__init__(raw)
        self.s = s

    def write(self, b):
        self.s.point()
        n = super().write(b)
        if Out.each:
            super().flush()
        return n

    def close(self):
        if not self.closed:
            self.s.point()
        super().close()


CONF = {'one': dict(lay=[21], fl=['vel', 'amp'], nc=2, n=3), 'bt': dict(lay=[21, 23], fl=['vel', 'amp'], nc=2, n=3), 'dual': dict(lay=[21, 22], fl=['vel', 'amp'], nc=2, n=3)}
ACTS = {'whole': dict(), 'head': dict(nens=2), 'tail': dict(nens=(1, 3)), 'rebuild': dict(rebuild_index=True)}
_file = {}


def data(k, other=False):
    if (k, other) not in _file:
        c = dict(CONF[k], n=2) if other else CONF[k]
        _file[k, other] = E.file_bytes([r for es in c01.build(c) for r in es])
    return _file[k, other]


_ref = {}


def ref(conf, act):
    if (conf, act) not in _ref:
        p = os.path.join(scratch(), 'r.ad2cp')
        open(p, 'wb').write(data(conf))
        _ref[conf, act] = get(p, act)
    return _ref[conf, act]


def get(p, act):
    r = dolfyn.read(p, **ACTS[act])
    return list(r) if isinstance(r, (tuple, list)) else [r]


def stage(c):
    d = scratch()
    p = os.path.join(d, 'f.ad2cp')
    if c['start'] in ('fresh', 'stale'):
        open(p, 'wb').write(data(c['conf'], c['start'] == 'stale'))
        os.utime(p, (1000000, 1000000))
        dolfyn.read(p)
        os.utime(p + '.index', (1000010, 1000010))
    open(p, 'wb').write(data(c['conf']))
    t = 1000020 if c['start'] == 'stale' else 1000005
    os.utime(p, (t, t))
    return d, p


def schedule(c, switches):
    d, p = stage(c)
    s = Sched(switches)
    Out.each = c['each']
    out = s.run([lambda a=a: get(p, a) for a in c['acts']])
    for a, (how, r) in zip(c['acts'], out):
        need(how == 'ok', "%s of %s, switching %s: reading %s", a, c['acts'], switches, r)
        for x, y in zip(r, ref(c['conf'], a)):
            ds_same(x, y, '%s of %s, switching %s' % (a, c['acts'], switches), rtol=0, atol=0)
        need(len(r) == len(ref(c['conf'], a)), "datasets")
    for x, y in zip(get(p, 'whole'), ref(c['conf'], 'whole')):
        ds_same(x, y, 'read after %s, switching %s' % (c['acts'], switches), rtol=0, atol=0)
    need(open(p, 'rb').read() == data(c['conf']), "the data file was changed")
    rest = sorted(set(os.listdir(d)) - {'f.ad2cp', 'f.ad2cp.index'})
    need(not rest, "left behind: %s", rest)
    return s.trace


def explore(c, first, bound):
    """All schedules whose first switch is `first`, with up to `bound` switches in all."""
    n = seen = 0
    todo = [[first]] if first else [[]]
    while todo:
        sw = todo.pop()
        tr = schedule(c, dict(sw))
        n += 1
        seen += len(tr)
        if first and len(sw) < bound:
            for i in range(sw[-1][0] + 1, len(tr)):
                for k in tr[i][1]:
                    if k != tr[i][0]:
                        todo.append(sw + [[i, k]])
    return n, seen


def readers(c):
    with quiet():
        if not c['first']:
            return explore(c, None, 0)
        return explore(c, c['first'], c['bound'])


def firsts(c):
    """Every possible first switch."""
    with quiet():
        try:
            tr = schedule(c, {})
        except Exception:
            return [None]
    return [None] + [[i, k] for i in range(len(tr)) for k in tr[i][1] if k != tr[i][0]]


# ---------------------------------------------------------------- one read after another
OTHER = dict(            # the same instruments, set up in another way
    o_vector_tenth=lambda: dsets.make('vector', n=5, mode0=16), o_vector_beam=lambda: dsets.make('vector', n=5, cy=2, fs=8, down=1), o_vector_burst=lambda: dsets.make('vector', n=8, nb=4),
    o_vno_tenth=lambda: dsets.make('vno', n=5, mode0=16), o_vno_fast=lambda: dsets.make('vno', n=4, fs=25), o_awac_freq=lambda: dsets.make('awac', n=3, freq=400, nbins=5), o_awac_beam=lambda: dsets.make('awac', n=3, cy=2, mode0=16),
    o_sig_xyz=lambda: dsets.make('sig', n=4, nc=3, cy='XYZ'), o_sig_few=lambda: dsets.make('sig', n=3, lay=[21, 24], fl=['vel'], nc24=4), o_sig_blank=lambda: dsets.make('sig', n=3, blank=7, cell_size=300),
    o_rdi_earth=lambda: dsets.make('rdi', n=3, frame=3, ncells=5, up=1), o_rdi_ship=lambda: dsets.make('rdi', n=3, frame=2, tilt=0, angle=30, convex=0), o_rdi_three=lambda: dsets.make('rdi', n=3, three=1, binmap=1, blk='vp'),
    o_vmdas_long=lambda: b''.join(c12.build(dict(sys='vm', n=6))[2]), o_winriver_some=lambda: b''.join(c12.build(dict(sys='nm', n=3, nav='dg'))[2]))
FILES = dict(c38.FILES, **OTHER)
FILES.update(dict(s_vector=lambda: dsets.make('vector', n=1), s_imu=lambda: dsets.make('vector', n=1, imu=195), s_awac=lambda: dsets.make('awac', n=1), s_vno=lambda: dsets.make('vno', n=3),
             s_sig=lambda: dsets.make('sig', n=2, nc=1, fl=['vel']), s_avg=lambda: dsets.make('sig', n=2, nc=1, lay=[22], fl=['vel', 'ahrs']), s_rdi=lambda: dsets.make('rdi', n=1, blk='v'),
             s_rdib=lambda: dsets.make('rdi', n=1, blk='vb'), s_vmdas=lambda: b''.join(c12.build(dict(sys='vm', n=1))[2]), s_nmea=lambda: b''.join(c12.build(dict(sys='nm', n=1, nav='gt'))[2])))
_fresh = {}
CHILD = """
import sys, pickle, os
sys.path.insert(0, %r)
from mc import boot
import dolfyn, warnings
warnings.simplefilter('ignore')
out, sys.stdout = sys.stdout.buffer, open(os.devnull, 'w')
try:
    r = dolfyn.read(%r, **%r)
    r = [x.load() for x in (r if isinstance(r, (list, tuple)) else [r])]
except Exception as e:
    r = type(e).__name__
out.write(pickle.dumps(r))
"""


def blob(k):
    f, dmg = k.split('/')
    return c38.damage(FILES[f](), dmg)


def kwargs(k):
    return dict(dual_profile=True) if k.startswith('sig_dual') else {}


def place(k):
    p = os.path.join(scratch(), 'f.bin')
    open(p, 'wb').write(blob(k))
    return p


def fresh(ks):
    """What a process that does nothing else reads."""
    todo = [k for k in ks if k not in _fresh]
    top = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    while todo:
        now, todo = todo[:8], todo[8:]
        ps = [(k, subprocess.Popen([sys.executable, '-B', '-W', 'ignore', '-c', CHILD % (top, place(k), kwargs(k))], stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE)) for k in now]
        for k, p in ps:
            out, err = p.communicate(timeout=200)
            need(p.returncode == 0, "no reference for %s: %s", k, err.decode()[-400:])
            _fresh[k] = pickle.loads(out)


def grab(k, p=None, **kw):
    try:
        r = dolfyn.read(p or place(k), **dict(kwargs(k), **kw))
        return list(r) if isinstance(r, (list, tuple)) else [r]
    except Exception as e:
        return type(e).__name__


def compare(k, a, what):
    b = _fresh[k]
    if isinstance(b, str) or isinstance(a, str):
        need(a == b if isinstance(a, str) and isinstance(b, str) else False, "%s: %s, alone %s", what, a if isinstance(a, str) else 'read', b if isinstance(b, str) else 'read')
        return
    need(len(a) == len(b), "%s: %d datasets", what, len(a))
    for x, y in zip(a, b):
        ds_same(x, y, what, rtol=0, atol=0)
        need(list(x.variables) == list(y.variables), "%s: order of the variables", what)


def after(c):
    fresh([c['last']])
    with quiet():
        h = logging.root.handlers[:]
        for k, kw in c['first']:
            for ds in (lambda r: [] if isinstance(r, str) else r)(grab(k, **kw)):
                if c['spoil']:
                    spoil(ds)
        for x in logging.root.handlers[:]:
            if x not in h:
                logging.root.removeHandler(x)
                x.close()
        a = grab(c['last'])
    compare(c['last'], a, '%s after %s' % (c['last'], c['first']))
    return c['last'], 'refused' if isinstance(a, str) else len(a)


def spoil(ds):
    """Everything in a dataset is its owner's to change."""
    for v in ds.variables:
        x = ds[v].values
        if x.dtype.kind in 'fiub' and x.flags.writeable:
            x[...] = 1
        ds[v].attrs.clear()
    for k, v in list(ds.attrs.items()):
        if isinstance(v, list):
            v.append('spoiled')
        elif isinstance(v, dict):
            v['spoiled'] = 1
        elif isinstance(v, np.ndarray) and v.flags.writeable and v.dtype.kind in 'fiu':
            v[...] = 7
    ds.attrs['fs'] = -1


# ---------------------------------------------------------------- two reads at the same time, in threads
class Fine(Sched):
    """As Sched, and every call of a function of the package is a point too."""

    def body(self, k, f):
        def prof(frame, ev, arg):
            if ev == 'call' and os.sep + 'dolfyn' + os.sep in frame.f_code.co_filename:
                self.point()

        def g():
            sys.setprofile(prof)
            try:
                return f()
            finally:
                sys.setprofile(None)
        super().body(k, g)


def threads(c):
    fresh(c['files'])
    ps = [place(k) for k in c['files']]
    for p in ps if c['warm'] else []:
        with quiet():
            grab(c['files'][0], p)
    n = 0
    for i in c['at']:
        s = Fine({i: 1})
        Out.each = True
        with quiet():
            out = s.run([lambda k=k, p=p: grab(k, p) for k, p in zip(c['files'], ps)])
        for k, (how, r) in zip(c['files'], out):
            need(how == 'ok', "%s: %s", k, r)
            compare(k, r, '%s while %s is read, switching at %d' % (k, c['files'], i))
        for p in ps:
            if os.path.exists(p + '.index') and not c['warm']:
                os.remove(p + '.index')
        n += 1
    return c['files'], n


def length(files):
    ps = [place(k) for k in files]
    s = Fine({})
    with quiet():
        s.run([lambda k=k, p=p: grab(k, p) for k, p in zip(files, ps)])
    return sum(1 for k, a in s.trace if len(a) == 2)


# ---------------------------------------------------------------- one object used again and again
NB = c41.NB


def v1(d):
    return d['vel'][0, 0] if d['vel'].ndim == 3 else d['vel'][0]


OPS = dict(
    avg=lambda d, b: b.do_avg(d), var=lambda d, b: b.do_var(d), psd=lambda d, b: b.calc_psd(v1(d)), psd_hz=lambda d, b: b.calc_psd(v1(d), freq_units='Hz', noise=.01, window=None),
    psd_fft=lambda d, b: b.calc_psd(v1(d), fs=7., n_bin=4, n_fft=2, freq_units='Hz'), psd_long=lambda d, b: b.calc_psd(v1(d), n_fft=16), coh_long=lambda d, b: b.calc_coh(d['vel'][0], d['vel'][1], n_fft_coh=16), freq_long=lambda d, b: b.calc_freq(n_fft=16), psd_pad=lambda d, b: b.calc_psd(v1(d), n_pad=2), coh=lambda d, b: b.calc_coh(d['vel'][0], d['vel'][1]),
    coh_fft=lambda d, b: b.calc_coh(d['vel'][0], d['vel'][1], n_fft_coh=2), phase=lambda d, b: b.calc_phase_angle(d['vel'][0], d['vel'][1], n_fft_coh=2), acov=lambda d, b: b.calc_acov(d['vel']),
    acov_bin=lambda d, b: b.calc_acov(d['vel'], n_bin=4), xcov=lambda d, b: b.calc_xcov(d['vel'][0], d['vel'][1], npt=3, n_bin=4), ti=lambda d, b: b.calc_ti(d.velds.U_mag, noise=.02, thresh=.1),
    shape=lambda d, b: b.reshape(d['vel'].values, n_pad=2, n_bin=4), detrend=lambda d, b: b.detrend(d['vel'].values, n_bin=4), mean=lambda d, b: b.mean(d['vel'].values, n_bin=4),
    std=lambda d, b: b.std(d['vel'].values, n_bin=4), freq=lambda d, b: b.calc_freq(fs=3., units='Hz', n_fft=6), freq0=lambda d, b: b.calc_freq(), freq_coh=lambda d, b: b.calc_freq(coh=True))
ADV = dict(
    call=lambda d, b: b(d), call_hz=lambda d, b: b(d, freq_units='Hz', window=1), stress=lambda d, b: b.calc_stress(d['vel']), csd=lambda d, b: b.calc_csd(d['vel'], n_fft_coh=2),
    tke=lambda d, b: b.calc_tke(d['vel'], noise=[.01, .02, .03]), lt83=lambda d, b: b.calc_epsilon_LT83(b.calc_psd(d['vel']), b.do_avg(d).velds.U_mag, freq_range=[2, 12]),
    sf=lambda d, b: b.calc_epsilon_SF(d['vel'][0], b.do_avg(d).velds.U_mag, freq_range=[.1, 2], fs=3.), te01=lambda d, b: b.calc_epsilon_TE01(d, b(d), freq_range=[2, 12]),
    csd_long=lambda d, b: b.calc_csd(d['vel'], n_fft_coh=16), l_int=lambda d, b: b.calc_L_int(b.calc_acov(d['vel']), b.do_avg(d).velds.U_mag, fs=3.), noise=lambda d, b: b.calc_doppler_noise(b.calc_psd(d['vel']), pct_fN=.4))
ADP = dict(
    dudz=lambda d, b: b.calc_dudz(b.do_avg(d)['vel']), dudz_down=lambda d, b: b.calc_dudz(b.do_avg(d)['vel'], orientation='down'), shear=lambda d, b: b.calc_shear2(b.do_avg(d)['vel']),
    stress4=lambda d, b: b.calc_stress_4beam(d, noise=.01, orientation='down', beam_angle=25), stress4_own=lambda d, b: b.calc_stress_4beam(d), stress5=lambda d, b: b.calc_stress_5beam(d, noise=.01, orientation='up', beam_angle=25),
    sf_adp=lambda d, b: list(b.calc_dissipation_SF(d['vel'][2], r_range=[.4, 5])), lt_adp=lambda d, b: b.calc_dissipation_LT83(b.calc_psd(d['vel'][0, 1], freq_units='Hz'), b.do_avg(d).velds.U_mag.isel(range=1), f_range=[.1, .5], noise=.001),
    noise_adp=lambda d, b: b.calc_doppler_noise(b.calc_psd(d['vel'][0, 1], freq_units='Hz'), pct_fN=.4))
CLS = {'vel': (dolfyn.VelBinner, OPS, ('rdi', 'vector', 'awac', 'imu')), 'adv': (vt.ADVBinner, dict(OPS, **ADV), ('vector', 'imu')), 'adp': (pt.ADPBinner, dict(OPS, **ADP), ('rdi', 'sig'))}
_raw, _alone = {}, {}


def raw(k):
    if k not in _raw:
        _raw[k] = c16.make(k, c41.BINIT)
    return _raw[k].copy(deep=True)


def new(cls):
    return CLS[cls][0](n_bin=NB, fs=4, n_fft=4, n_fft_coh=4)


def run_op(cls, b, ev):
    with quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            return CLS[cls][1][ev[1]](raw(ev[0]), b)
        except Exception as e:
            return type(e).__name__


def equal(a, b, what):
    if isinstance(a, xr.Dataset) and isinstance(b, xr.Dataset):
        ds_same(a, b, what, rtol=0, atol=0)
    elif isinstance(a, xr.DataArray) and isinstance(b, xr.DataArray):
        ds_same(a.to_dataset(name='x'), b.to_dataset(name='x'), what, rtol=0, atol=0)
        need(str(a.attrs) == str(b.attrs), "%s: attributes %s, %s", what, a.attrs, b.attrs)
    elif isinstance(a, list):
        need(len(a) == len(b), what)
        for x, y in zip(a, b):
            equal(x, y, what)
    elif isinstance(a, str) or isinstance(b, str):
        need(isinstance(a, str) and isinstance(b, str) and a == b, "%s: %s, alone %s", what, a if isinstance(a, str) else 'done', b if isinstance(b, str) else 'done')
    else:
        need(np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True), "%s: values", what)


def objects(c):
    b = new(c['cls'])
    for ev in c['hist']:
        r = run_op(c['cls'], b, ev)
    k = (c['cls'],) + tuple(c['hist'][-1])
    if k not in _alone:
        _alone[k] = run_op(c['cls'], new(c['cls']), c['hist'][-1])
    equal(r, _alone[k], '%s by a binner used for %s before' % (c['hist'][-1], c['hist'][:-1]))
    return k, isinstance(r, str)


MOT = {'acc': lambda m: m.calc_velacc(), 'rot': lambda m: m.calc_velrot(np.array([.1, .2, .3])), 'rot_earth': lambda m: m.calc_velrot(np.array([.1, .2, .3]), to_earth=True),
       'rot_inst': lambda m: m.calc_velrot(np.array([.1, .2, .3]), to_earth=False), 'rot_many': lambda m: m.calc_velrot(np.array([[.1, .2], [.3, .4], [.5, .6]]))}


def motion(c):
    def mk():
        d = c16.make('imu')
        if c['duty']:
            d.attrs.update(duty_cycle_n_burst=c['duty'], duty_cycle_interval=60)
            n = d.time.size
            d = d.assign_coords(time=np.datetime64('2020-01-01', 'ns') + (np.arange(n) // c['duty'] * 60000 + np.arange(n) % c['duty'] * 250).astype('timedelta64[ms]'))
        return CalcMotion(d, accel_filtfreq=c['f'], vel_filtfreq=c['f'] / 3, to_earth=bool(c['earth']))
    with quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        m = mk()
        for op in c['hist']:
            r = np.array(MOT[op](m))
        need(np.allclose(r, MOT[c['hist'][-1]](mk()), 1e-5, 1e-5, equal_nan=True), "%s after %s differs from the same alone", c['hist'][-1], c['hist'][:-1])
    return c['hist'][-1], c['duty'], r.shape


def run(ex):
    cs = []
    for conf in CONF:
        for start in ('none', 'fresh', 'stale'):
            for acts in [['whole', 'whole'], ['head', 'tail'], ['rebuild', 'whole'], ['rebuild', 'rebuild'], ['head', 'rebuild'], ['whole', 'head', 'tail'], ['rebuild', 'whole', 'rebuild']]:
                for each in (1, 0):
                    c = dict(conf=conf, start=start, acts=acts, each=each, bound=(2 if len(acts) == 2 else 1) if ex.quick else (3 if len(acts) == 2 else 2))
                    if ex.quick and (conf == 'dual' or conf == 'bt' and (start != 'none' or len(acts) == 3 or acts[0] == 'head') or each == 0 and start != 'none'):
                        continue
                    cs += [dict(c, first=f) for f in (firsts(c) if not SPACE or SPACE in 'readers' else [None])]
    ex.cases('readers', cs, readers, "all interleavings of two or three readers of one Signature file at their file operations, up to the given number of switches")
    ok = [f + '/clean' for f in c38.FILES] + [f + '/clean' for f in OTHER]
    tiny = [f + '/clean' for f in FILES if f.startswith('s_')]
    bad = [f + '/' + d for f in c38.FILES for d in ('tail', 'junk:50', 'flip:45')]
    if ex.only is None and (not SPACE or SPACE in ('after', 'threads')):
        fresh(ok + tiny)
    dbg = [[f, dict(debug=True)] for f in ok]
    one = [[k, {}] for k in ok + bad] + (dbg if not ex.quick else dbg[::3])
    seqs = [[x] for x in one]
    if not ex.quick:
        seqs += [[[a, {}], [b, {}]] for a in ok for b in ok]
    ex.cases('after', [dict(first=s, last=l, spoil=sp) for s in seqs for l in ok for sp in ((1,) if ex.quick else (0, 1))], after,
             "every kind of file read after every other one, intact or damaged, what was read before being overwritten")
    pairs = [('s_vector', 's_imu'), ('s_awac', 's_vno'), ('s_vno', 's_vno'), ('s_sig', 's_avg'), ('s_rdi', 's_nmea')] if ex.quick else [(a[:-6], b[:-6]) for a in tiny for b in tiny]
    cs = []
    for p in pairs if ex.only is None and (not SPACE or SPACE in 'threads') else []:
        p = [x + '/clean' for x in p]
        n = length(p)
        cs += [dict(files=p, warm=0, at=list(range(i, min(i + 40, n)))) for i in range(0, n, 40)]
    ex.cases('threads', cs, threads, "two files read by two threads: the first is interrupted by the second at every call of a function and every file operation")
    cs = []
    for cls, (_, ops, kinds) in CLS.items():
        evs = [[k, o] for k in kinds for o in ops]
        last = [[k, o] for k in kinds[:2] for o in ops]
        cs += [dict(cls=cls, hist=[a, b]) for a in evs for b in last]
        if not ex.quick:
            e1 = [[kinds[0], o] for o in ops]
            cs += [dict(cls=cls, hist=[a, b, l]) for a in e1 for b in e1 for l in e1]
    ex.cases('objects', cs, objects, "every method after every other one (thorough: two others) on one binner, other data sets included")
    ex.cases('motion', [dict(hist=list(h), duty=d, f=f, earth=e) for n in range(1, ex.pick(4, 5)) for h in itertools.product(MOT, repeat=n)
                        for d in (0, 12) for f in (0, .3) for e in (0, 1)], motion, "every order of the calls of one motion calculator")
    ex.assume("the file itself does not change while it is read", "times of the file system tell what was written later")
