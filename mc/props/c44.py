"""C44  Results do not depend on settings of the process, and calls leave those settings as they were."""
import os
import locale
import logging
import random
import sys
import time
import warnings
import itertools
import numpy as np
import xarray as xr
import dolfyn
from .. import dsets as D
from ..core import need, Fail, scratch
from ..util import quiet
from . import c16, c43

LEVEL = "model_checking"


def _tz(name):
    def f():
        old = os.environ.get('TZ')
        os.environ['TZ'] = name
        time.tzset()

        def undo():
            if old is None:
                os.environ.pop('TZ', None)
            else:
                os.environ['TZ'] = old
            time.tzset()
        return undo
    return f


def _np(**kw):
    def f():
        old = np.geterr()
        np.seterr(**kw)
        return lambda: np.seterr(**old)
    return f


def _xr(**kw):
    def f():
        o = xr.set_options(**kw)
        return lambda: o.__exit__(None, None, None)
    return f


def _warn(action):
    def f():
        old = warnings.filters[:]
        warnings.simplefilter(action)

        def undo():
            warnings.filters[:] = old
            warnings._filters_mutated()
        return undo
    return f


def _cwd(d):
    def f():
        old = os.getcwd()
        new = os.path.join(scratch(), d)
        os.makedirs(new, exist_ok=True)
        os.chdir(new)
        return lambda: os.chdir(old)
    return f


def _print():
    old = np.get_printoptions()
    np.set_printoptions(precision=1, threshold=3, suppress=True, floatmode='fixed')
    return lambda: np.set_printoptions(**{k: v for k, v in old.items() if k != 'override_repr'})


def _seed(n):
    def f():
        a, b = np.random.get_state(), random.getstate()
        np.random.seed(n)
        random.seed(n)

        def undo():
            np.random.set_state(a)
            random.setstate(b)
        return undo
    return f


def _log(level):
    def f():
        r = logging.getLogger()
        old, h = r.level, logging.StreamHandler(open(os.devnull, 'w'))
        r.addHandler(h)
        r.setLevel(level)

        def undo():
            r.removeHandler(h)
            r.setLevel(old)
        return undo
    return f


def _umask(m):
    def f():
        old = os.umask(m)
        return lambda: os.umask(old)
    return f


ENV = {
    'east': _tz('Pacific/Kiritimati'), 'west': _tz('America/St_Johns'), 'silent': _np(all='ignore'), 'loud': _np(all='warn'), 'attrs': _xr(keep_attrs=True), 'noattrs': _xr(keep_attrs=False),
    'outer': _xr(arithmetic_join='outer'), 'left': _xr(arithmetic_join='left'), 'numbagg': _xr(use_bottleneck=False), 'always': _warn('always'), 'never': _warn('ignore'), 'cwd': _cwd('a b/c.d'), 'print': _print,
    'seed': _seed(7), 'debug': _log(logging.DEBUG), 'critical': _log(logging.CRITICAL), 'umask': _umask(0o077),
}


def state():
    """What a library call has no business changing."""
    return dict(environ=dict(os.environ), cwd=os.getcwd(), err=np.geterr(), random=random.getstate(), nprandom=repr(np.random.get_state()), printing=repr(np.get_printoptions()),
                xarray=repr({k: v for k, v in xr.get_options().items()}), warnings=repr(warnings.filters), locale=locale.setlocale(locale.LC_ALL), tz=time.tzname, path=list(sys.path),
                log=(logging.getLogger().level, list(map(id, logging.getLogger().handlers))), limit=sys.getrecursionlimit(), switch=sys.getswitchinterval(), umask=_peek(), calls=repr(np.geterrcall()))


def _peek():
    m = os.umask(0)
    os.umask(m)
    return m


READ = dict(c43.INIT, rdi_nav=('rdi', dict(n=6, blk='vcapsb', ncells=3)), sig_e=('sig', dict(n=6, nc=3, lay=[21, 23, 28], fl=['vel', 'amp', 'corr'])), avg=('sig', dict(n=4, nc=2, lay=[22, 23], fl=['vel', 'amp', 'corr', 'ahrs'])))


def _path(kind, kw):
    data = D.make(kind, **dict(kw))
    p = os.path.join(scratch(), 'e44.' + dict(rdi='PD0', sig='ad2cp', vector='VEC', awac='wpr', vno='vno')[kind])
    with open(p, 'wb') as f:
        f.write(data)
    for q in (p + '.index',):
        if os.path.exists(q):
            os.remove(q)
    return p


def r_read(ds, u):
    p = _path(*READ[u])
    return dolfyn.read(p)


def r_trip(ds, u):
    p = _path(*READ[u])
    d = dolfyn.read(p)
    q = os.path.join(scratch(), 'e44.nc')
    dolfyn.save(d, q, compression=True)
    a = dolfyn.load(q)
    m = os.path.join(scratch(), 'e44.mat')
    dolfyn.save_mat(d, m)
    b = dolfyn.load_mat(m)
    return [a, b]


def r_times(ds, u):
    t = ds.time
    e = dolfyn.time.dt642epoch(t)
    d = dolfyn.time.epoch2date(e)
    return [e.values, d, dolfyn.time.date2str(d), dolfyn.time.date2matlab(d), dolfyn.time.matlab2date(dolfyn.time.date2matlab(d)), dolfyn.time.epoch2dt64(e.values), dolfyn.time.date2epoch(d)]



NOFILE = [k for k in c16.OPS if c16.OPS[k][0] in 'cqp' and k not in ('save', 'save_z', 'save_e', 'vsave', 'save_mat', 'save_matp')]


def perform(c):
    if c['op'] in ('read', 'trip'):
        return (r_read if c['op'] == 'read' else r_trip)(None, c['ds'])
    if c['op'].startswith('c16:'):
        ds = c16.make(c['ds'])
        try:
            return c16.OPS[c['op'][4:]][1](ds)
        except Exception as e:
            return type(e).__name__ + str(e)
    ds = c43.prepare(c['ds'])
    if c['op'] == 'times':
        return r_times(ds, None)
    return c43.OPS[c['op']][1](ds, c43.U(ds, 1, 1, 8))


def snap(x):
    s = c16.snap(x)
    return s


def bare(x):
    """Without attributes (whether xarray hands them on is the user's setting)."""
    if isinstance(x, (xr.Dataset, xr.DataArray)):
        x = x.copy()
        x.attrs = {}
        for k in (x.variables if isinstance(x, xr.Dataset) else x.coords):
            x[k].attrs = {}
        return x.drop_attrs() if hasattr(x, 'drop_attrs') else x
    if isinstance(x, (list, tuple)):
        return type(x)(bare(y) for y in x)
    return x


def env(c):
    """The same call under default settings and under others."""
    with quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = perform(c)
        ref, plain = c16.snap(r), c16.snap(bare(r))
    for names in c['env']:
        undo = []
        try:
            for e in names:
                undo.append(ENV[e]())
            before = state()
            with quiet():
                x = perform(c)
            after = state()
        finally:
            for f in reversed(undo):
                f()
        for k in before:
            need(before[k] == after[k], "%s changed the %s of the process: %s -> %s", c['op'], k, str(before[k])[:200], str(after[k])[:200])
        d = c16.differ(plain, c16.snap(bare(x))) if {'attrs', 'noattrs'} & set(names) else c16.differ(ref, c16.snap(x))
        need(d is None, "%s differs under %s: %s", c['op'], '+'.join(names), d)
    return hash(repr(ref)) & 0xffff


CHILD = '''
import sys, json, hashlib
sys.path.insert(0, %r)
from mc import boot, core
core._SCRATCH = %r
from mc.props import c16, c44
import warnings
from mc.util import quiet
out = {}
for c in json.loads(%r):
    with quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            out[c['op']] = hashlib.sha1(repr(c16.snap(c44.perform(c))).encode()).hexdigest()
        except Exception as e:
            out[c['op']] = type(e).__name__ + ': ' + str(e)[:200]
print('RESULT' + json.dumps(out))
'''
PROC = {'hash1': dict(PYTHONHASHSEED='1'), 'hash4711': dict(PYTHONHASHSEED='4711'), 'optimised': dict(PYTHONOPTIMIZE='2'), 'ascii': dict(LC_ALL='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0', PYTHONIOENCODING='ascii'),
        'utf8': dict(LC_ALL='C.UTF-8', PYTHONUTF8='1'), 'dev': dict(PYTHONDEVMODE='1'), 'nohome': dict(HOME='/nonexistent'), 'warn': dict(PYTHONWARNINGS='always'),
        'threads': dict(OMP_NUM_THREADS='4', OPENBLAS_NUM_THREADS='4')}


def child(ops, extra):
    import json
    import subprocess
    top = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    d = scratch()
    r = subprocess.run([sys.executable, '-B', '-c', CHILD % (top, d, json.dumps(ops))], env=dict(os.environ, PYTHONHASHSEED='0', **{k: v for k, v in extra.items()}) if 'PYTHONHASHSEED' not in extra
                       else dict(os.environ, **extra), stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d)
    o = r.stdout.decode('ascii', 'replace')
    need('RESULT' in o, "a process with %s ended with %s: %s", extra, r.returncode, r.stderr.decode('ascii', 'replace')[-600:])
    return json.loads(o[o.index('RESULT') + 6:])


def process(c):
    """All of it in processes of their own, started differently."""
    if c['ds'] in c43.INIT:
        ops = [dict(op=o, ds=c['ds']) for o in ['read', 'trip', 'times'] + [o for o, (ks, _) in c43.OPS.items() if c['ds'] in ks]]
    else:
        ops = [dict(op=o, ds=c['ds']) for o in ('read', 'trip')]
    a = child(ops, {})
    for p in c['proc']:
        b = child(ops, PROC[p])
        for k in a:
            need(a[k] == b[k], "%s differs in a process with %s: %s, %s", k, PROC[p], a[k], b[k])
    return sorted(a.values())


def run(ex):
    e = [[k] for k in ENV]
    if not ex.quick:
        e += [list(p) for p in itertools.combinations(ENV, 2) if not {p[0], p[1]} <= {'east', 'west'} and {p[0], p[1]} not in ({'attrs', 'noattrs'},)]
    ex.cases('read', [dict(op=o, ds=k, env=e) for o in ('read', 'trip') for k in READ], env, "reading, saving and loading x process settings")
    ex.cases('process', [dict(ds=k, proc=list(PROC)[i::3]) for i in range(3) for k in READ], process, "every reading and calculation x how the process was started: hash seed, optimisation, locale, encoding, time zone, home, warnings")
    ex.cases('calc', [dict(op=o, ds=k, env=e) for o, (ks, _) in c43.OPS.items() for k in ks] + [dict(op='times', ds=k, env=e) for k in c43.INIT], env, "every calculation x process settings")
    ex.cases('calls', [dict(op='c16:' + o, ds=k, env=e) for o in NOFILE for k in (('rdi', 'sig_imu', 'imu', 'vno') if ex.quick else c16.INIT)], env, "every other public call x process settings")
