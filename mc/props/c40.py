"""C40  The command-line tools give what the library gives."""
import contextlib
import io
import itertools
import json
import os
import runpy
import sys
import numpy as np
import dolfyn
from dolfyn.adv import api as avm
from .. import boot, dsets, rot_ref, rdi_ref as R
from ..core import need, Fail, scratch
from ..util import ds_same, quiet, same
from . import c12, c17

LEVEL = "exploration"
F = ['vel', 'amp', 'corr']
KINDS = dict(
    vector=lambda: dsets.make('vector', n=9), imu=lambda: dsets.make('vector', n=24, imu=195, cy=1, fs=4), vno=lambda: dsets.make('vno', n=5),
    awac=lambda: dsets.make('awac', n=4), sig=lambda: dsets.make('sig', n=4), sig_b5=lambda: dsets.make('sig', n=4, lay=[21, 24, 23], fl=F + ['ahrs']),
    rdi=lambda: dsets.make('rdi', n=4, blk='vcapsb'), vmdas=lambda: b''.join(c12.build(dict(sys='vm', n=4))[2]))
NAMES = ['a.VEC', 'ACE.VEC', 'vec.vec', 'CEV.E.VEC', 'noext', 'x.ad2cp', 'b.c.d.000', 'mat.m', 'tam.mat.PD0', 'd.x/e.vec', 'd.x/noext', './f.V', '../w/g.VEC', 'my data file.vec', "d x/it's [1].VEC", 'é_ü.vec', './-5m.vec']


def script(name, args):
    """-> how it ended (None, or the type of the exception)"""
    av = sys.argv
    sys.argv = [name] + list(args)
    try:
        with quiet(), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            runpy.run_path(os.path.join(boot.REPO, 'scripts', name), run_name='__main__')
    except SystemExit as e:
        return None if not e.code else 'usage'
    except Exception as e:
        return '%s: %s' % (type(e).__name__, e)
    finally:
        sys.argv = av


@contextlib.contextmanager
def place(files, user=None):
    """A directory with data files (name -> bytes); tells what a tool wrote there."""
    d = os.path.join(scratch(), 'w')
    os.makedirs(d)
    old = os.getcwd()
    os.chdir(d)
    try:
        for f, b in files.items():
            os.makedirs(os.path.dirname(f) or '.', exist_ok=True)
            with open(f, 'wb') as h:
                h.write(b)
        for f, u in (user or {}).items():
            with open(os.path.splitext(f)[0] + '.userdata.json', 'w') as h:
                json.dump(u, h)
        yield d
    finally:
        os.chdir(old)


def tree(d):
    return {os.path.relpath(os.path.join(p, f), d): open(os.path.join(p, f), 'rb').read() for p, _, fs in os.walk(d) for f in fs}


def written(d, before):
    now = tree(d)
    for f in before:
        need(now.get(f) == before[f], "%s was changed", f)
    return sorted(f for f in now if f not in before and not f.endswith('.index'))


def convert(c):
    files = {n: KINDS[k]() for n, k in zip(c['names'], c['kinds'])}
    user = {n: {'station': 'A%d' % i, 'depth': 4.5} for i, n in enumerate(c['names'])} if c['user'] else None
    with place(files, user) as d:
        with quiet():
            ref = [dolfyn.read(n) for n in c['names']]
        before = tree(d)
        args = [os.path.abspath(n) if c['abs'] else n for n in c['names']]
        err = script('binary2mat.py', args)
        need(err is None, "binary2mat %s: %s", ' '.join(c['names']), err)
        out = [os.path.splitext(n)[0] + '.mat' for n in c['names']]
        need(written(d, before) == sorted(os.path.relpath(os.path.abspath(o), d) for o in out), "binary2mat %s wrote %s", c['names'], written(d, before))
        for o, r in zip(out, ref):
            with quiet():
                c17.mat_same(dolfyn.load_mat(o), r, o)
            if c['user']:
                need(dolfyn.load_mat(o).attrs['station'] == 'A%d' % c['names'].index([n for n in c['names'] if os.path.splitext(n)[0] == o[:-4]][0]), "user data")
    return out


def euler(ds):
    o = ds['orientmat'].values.astype(float)
    return dict(heading=np.rad2deg(np.arctan2(o[0, 0], o[0, 1])) % 360, pitch=np.rad2deg(np.arcsin(o[0, 2])), roll=np.rad2deg(np.arctan2(o[1, 2], o[2, 2])))


HEAD = [np.eye(3).tolist(), np.asarray(rot_ref.HEAD[1]).tolist()]


def correct(c):
    n = c.get('n', 1)
    names = ['ACE.VEC', 'd/v.e.vec'][:n]
    files = {f: dsets.make('vector', n=24 + 8 * i, imu=c['imu'], cy=1, fs=4) for i, f in enumerate(names)}
    u = {}
    if c['head'] is not None:
        u.update(inst2head_rotmat='identity' if c['head'] == 'identity' else HEAD[c['head']], inst2head_vec=[.1, -.2, .3])
    if c['decl']:
        u['declination'] = 12.5
    if c['uf']:
        u['motion accel_filtfreq Hz'] = .25
    with place(files, {f: u for f in names} if u else {}) as d:
        ref = []
        for f in names:
            with quiet():
                r = dolfyn.read(f)
                if c['fixed']:
                    dolfyn.set_inst2head_rotmat(r, np.eye(3))
                    r.attrs['inst2head_vec'] = np.array([0, 0, -.21])
                r = avm.correct_motion(r, accel_filtfreq=float(c['f']) if c['f'] else .03333)
            need(r.coord_sys == 'earth', "harness: frame %s", r.coord_sys)
            ref.append(r)
        before = tree(d)
        args = (['--fixed-head'] if c['fixed'] else []) + (['-f', c['f']] if c['f'] else []) + ['--' + o for o in c['out']]
        args = names + args if c['last'] else args + names
        err = script('motcorrect_vector.py', args)
        need(err is None, "motcorrect_vector %s: %s", ' '.join(args), err)
        outs = c['out'] or ['mat']
        need(written(d, before) == sorted(os.path.splitext(f)[0] + '.' + o for f in names for o in outs), "wrote %s", written(d, before))
        for f, r in zip(names, ref):
            for o in outs:
                g = dolfyn.load(os.path.splitext(f)[0] + '.nc') if o == 'nc' else dolfyn.load_mat(os.path.splitext(f)[0] + '.mat')
                need(g.coord_sys == 'earth', "frame %s", g.coord_sys)
                for k, v in euler(r).items():
                    dv = g[k].values - v
                    if k != 'pitch':
                        dv = (dv + 180) % 360 - 180
                    need(np.abs(dv).max() < .02, "%s is %s, the orientation matrix says %s", k, g[k].values[:3], v[:3])
                    need(g[k].attrs.get('units') == r[k].attrs.get('units'), "units of %s: %s", k, g[k].attrs.get('units'))
                    g[k].values = r[k].values.astype(g[k].dtype)
                e = r.copy()
                for v in e.data_vars:
                    if e[v].dtype.kind == 'f':          # single or double precision in between
                        same('%s: %s' % (f, v), g[v].values, e[v].values, 1e-4, 1e-5)
                        g[v].values = e[v].values.astype(g[v].dtype)
                if o == 'nc':
                    ds_same(g, e, f, rtol=3e-6, atol=3e-6)
                else:
                    c17.mat_same(g, e, f)
    return [args, outs]


def refuse(c):
    """Files that lack what is needed are refused, and the files before them are done."""
    names = ['a.vec', 'b.vec', 'c.vec'][:c['n']]
    files = {f: dsets.make('vector', n=24, imu=195, cy=1, fs=4) for f in names}
    good = dict(inst2head_rotmat='identity', inst2head_vec=[.1, -.2, .3])
    part = dict(none={}, rotmat=dict(inst2head_rotmat='identity'), vec=dict(inst2head_vec=[.1, -.2, .3]))[c['has']]
    with place(files, {f: part if i == c['bad'] else good for i, f in enumerate(names) if part or i != c['bad']}) as d:
        before = tree(d)
        err = script('motcorrect_vector.py', names)
        need(err not in (None, 'usage'), "accepted without head geometry" if err is None else err)
        need(written(d, before) == [f[:-4] + '.mat' for f in names[:c['bad']]], "wrote %s", written(d, before))
    return err[:40]


def usage(c):
    with place({'a.vec': dsets.make('vector', n=9)}) as d:
        before = tree(d)
        err = script(c['tool'], c['args'])
        need(err == c['end'], "%s %s: %s", c['tool'], c['args'], err)
        need(written(d, before) == [], "wrote %s", written(d, before))
    return c['end']


def run(ex):
    cs = [dict(names=[n], kinds=[k], user=u, abs=a) for n in NAMES for k in (('vector', 'sig', 'rdi') if ex.quick else KINDS) for u in (0, 1) for a in (0, 1)]
    cs += [dict(names=['q.bin'], kinds=[k], user=u, abs=0) for k in KINDS for u in (0, 1)]
    for m in ex.pick((2,), (2, 3)):
        for ns in itertools.permutations(NAMES if m == 2 else NAMES[:7], m):
            ks = [['vector', 'awac', 'sig', 'vno', 'rdi'][(NAMES.index(n) + m) % 5] for n in ns]
            cs.append(dict(names=list(ns), kinds=ks, user=0, abs=len(cs) % 2))
    cs = [c for c in cs if len({os.path.normpath(os.path.splitext(n)[0].replace('../w/', '')) for n in c['names']}) == len(c['names'])]
    ex.cases('binary2mat', cs, convert, "file names x instruments x one or several files x user data")
    cs = []
    for fixed, head in ((1, None), (0, 0), (0, 1), (0, 'identity')):
        for f in (None, '0.1', '.25', '0', '1e-1'):
            for out in ([], ['mat'], ['nc'], ['mat', 'nc'], ['nc', 'mat']):
                for decl in (0, 1):
                    for n in (1, 2):
                        cs.append(dict(fixed=fixed, head=head, f=f, out=out, decl=decl, n=n, last=(len(cs) // 2) % 2, imu=195, uf=0))
                        if not ex.quick:
                            cs.append(dict(cs[-1], last=1 - cs[-1]['last']))
                            cs.append(dict(cs[-1], uf=1))
    if ex.quick:
        cs += [dict(c, uf=1) for c in cs if c['n'] == 1 and not c['out'] and not c['decl']]
    ex.cases('motcorrect', cs, correct, "options x head geometry x files")
    ex.cases('refuse', [dict(n=n, bad=b, has=h) for n in (1, 2, 3) for b in range(n) for h in ('none', 'rotmat', 'vec')], refuse, "head geometry missing for one file")
    ex.cases('usage', [dict(tool=t, args=a, end=e) for t in ('binary2mat.py', 'motcorrect_vector.py')
                       for a, e in (([], 'usage'), (['-h'], None), (['--help'], None), (['--nonsense', 'a.vec'], 'usage'))] +
             [dict(tool='motcorrect_vector.py', args=['-f', 'fast', 'a.vec'], end='usage'), dict(tool='motcorrect_vector.py', args=['a.vec', '-f'], end='usage')], usage,
             "command lines that cannot be run")
