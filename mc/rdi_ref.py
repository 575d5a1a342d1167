"""Reference model for TRDI PD0 files: builds files and compares reads."""
import numpy as np
from . import enc_rdi as E
from .core import need, Fail
from .util import same, angle_same, attr_same

T0 = 1593950399          # 2020-07-05 11:59:59
TIGHT = dict(rtol=2e-6, atol=2e-6)


def blocks(c, r, order=None):
    cfg = c.get('cfg', {})
    cfg = dict(cfg, ncells=len(r['vel']))
    b = [E.fixed(cfg), E.var(r)]
    m = dict(v=E.cells(256, r['vel'], 'h'), c=E.cells(512, r['corr']), a=E.cells(768, r['amp']),
             p=E.cells(1024, r['prcnt_gd']), s=E.cells(1280, r['status']), b=E.bottom(r), l=E.alt(r))
    if 'sl' in r:
        s = r['sl']
        m.update(S=E.struct.pack('<HBHH', 16, len(s['vel']), *c.get('slcfg', (10, 60))), V=E.cells(272, s['vel'], 'h'),
                 C=E.cells(528, s['corr']), A=E.cells(784, s['amp']), P=E.cells(1040, s['prcnt_gd']), T=E.cells(1296, s['status']))
    return b + [m[k] for k in (order or c.get('blk', 'vcaps'))]


def recs(c):
    n, nc = c.get('n', 3), c.get('cfg', {}).get('ncells', 3)
    dt = c.get('dt', 1)
    out = []
    for k in range(n + 1):
        kw = dict(c.get('kw', {}))
        for ky, v in c.get('seq', {}).items():
            kw[ky] = v[k % len(v)]
        t = c.get('t0', T0) + k * dt
        r = E.rec(k, c['shape'][k] if 'shape' in c else nc, t, c.get('pat', 'mix'))
        if 'sl' in c:
            s = E.rec(k + 50, c['sl'], t, c.get('pat', 'mix'))
            r['sl'] = {x: s[x] for x in ('vel', 'corr', 'amp', 'prcnt_gd', 'status')}
        r.update(kw)
        out.append(r)
    return out


def build(c):
    R = recs(c)
    return R, [E.ensemble(blocks(c, r)) for r in R]


def ver(c):
    g = dict(E.DEF, **c.get('cfg', {}))
    return g['prog'][0] + g['prog'][1] / 100.


def stack(R, c, keys=None):
    v = ver(c)
    ms = []
    for r in R:
        m = E.phys(r, v, 'b' in c.get('blk', 'vcaps'), 'l' in c.get('blk', 'vcaps'))
        blk = c.get('blk', 'vcaps')
        for x, ky in zip('vcaps', ('vel', 'corr', 'amp', 'prcnt_gd', 'status')):
            if x not in blk:
                m.pop(ky)
        if 'sl' in r:
            for x, ky in zip('VCAPT', ('vel', 'corr', 'amp', 'prcnt_gd', 'status')):
                if x not in blk:
                    continue
                m[ky + '_sl'] = r['sl'][ky] * (.001 if ky == 'vel' else 1)
        ms.append(m)
    out = {}
    for ky in ms[0]:
        a = np.stack([np.asarray(m[ky], float) for m in ms], -1)
        out[ky] = np.swapaxes(a, 0, 1) if a.ndim == 3 else a
    return out


def compare(ds, R, c, n=None, extra=(), more_ok=True):
    """ds holds exactly the first n ensembles of R."""
    n = len(R) if n is None else n
    m = stack(R[:n], c)
    need(ds.time.size == n, "%d ensembles, expected %d", ds.time.size, n)
    same('time', ds.time.values, (m.pop('time') * 1e9).round().astype('int64').astype('datetime64[ns]'), atol=1e-6)
    for ky in m:
        need(ky in ds, "%s missing", ky)
        same(ky, ds[ky].values, m[ky], **TIGHT)
    have = {k for k in ds.data_vars if k not in ('beam2inst_orientmat', 'orientmat')}
    need(have == set(m) | set(extra), "variables: extra %s, missing %s", sorted(have - set(m) - set(extra)),
         sorted((set(m) | set(extra)) - have))
    g = dict(E.DEF, **c.get('cfg', {}))
    fm = E.fixed_model(c.get('cfg', {}))
    h = m['heading']
    if not c.get('declin'):
        same('orientmat', ds.orientmat.values, E.orientmat(h, m['pitch'], m['roll'], fm['orientation'] == 'up',
             g['frame'] == 2 and g['tilt']), rtol=1e-5, atol=2e-5)
    return m


def count_ok(ds, N):
    """The last ensemble of the file may be left out (listed finding)."""
    need(ds.time.size in (N, N - 1), "%d ensembles returned, the file holds %d", ds.time.size, N)
    return ds.time.size
