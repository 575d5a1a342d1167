"""C05  Signature: dual-profile files are split into the two profiles."""
import numpy as np
from .. import enc_ad2cp as E
from ..core import need, Fail
from ..nortek_ref import omat
from ..util import write, read, same, attr_same
from . import c01

LEVEL = "exploration"


def build(c):
    cnt, out, k = {}, [], 0
    for p in range(c['periods']):
        for g in c['group']:
            ens = []
            for rid in (c.get('avlay', [22]) if g == 'a' else c['lay']):
                if rid in c01.RAW and 'alt' in c and not c['alt'][len(out) % len(c['alt'])]:
                    continue
                cnt[rid] = cnt.get(rid, c.get('e0', 0)) + 1
                kw = dict(t=1577836800. + k * .25, pat=c.get('pat', 'mix'))
                k += 1
                alt = ['le', 'ast'] if 26 in c['lay'] or 31 in c.get('avlay', []) else []
                if rid == 22:
                    r = E.rec(22, cnt[rid], flags=c.get('avfl', ['vel', 'amp', 'corr']) + alt + c.get('imu', ['ahrs']), nb=4, nc=c['nca'], cy=c['cya'], **kw)
                    r['cell_size'] = 1000
                elif rid == 24:
                    r = E.rec(24, cnt[rid], flags=c.get('fl', ['vel', 'amp', 'corr']), nb=1, nc=c['nc'], cy='beam', **kw)
                elif rid in c01.RAW:
                    r = E.rec(rid, cnt[rid], flags=['altraw', 'le', 'ast'], nb=1, nc=0, **kw)
                elif rid == 23:
                    r = E.rec(23, cnt[rid], flags=['vel', 'dist', 'fom'], nb=4, nc=0, cy=c['cy'], **kw)
                elif rid == 28:
                    r = E.rec(28, cnt[rid], flags=['echo'], nb=1, nc=4, **kw)
                else:
                    r = E.rec(21, cnt[rid], flags=c.get('fl', ['vel', 'amp', 'corr']) + alt + c.get('imu', ['ahrs']), nb=4, nc=c['nc'], cy=c['cy'], **kw)
                ens.append(r)
            out.append((g, ens))
    return out


def split(c):
    ens = build(c)
    o = read(write(E.file_bytes([r for g, es in ens for r in es], avg=True), 'd.ad2cp'),
             **({'dual_profile': True} if c.get('flag') else {}))
    need(isinstance(o, tuple) and len(o) == 2, "two profiles recorded, %s returned", type(o).__name__)
    a, b = o
    n1, n2 = sum(g == 'b' for g, _ in ens), sum(g == 'a' for g, _ in ens)
    last = ens[-1][0]
    need(n1 - (last == 'b') <= a.time.size <= n1, "%d bursts recorded, %d returned", n1, a.time.size)
    need(n2 - (last == 'a') <= b.time_avg.size <= n2, "%d averages recorded, %d returned", n2, b.time_avg.size)
    eb = [es for g, es in ens if g == 'b'][:a.time.size]
    ea = [es for g, es in ens if g == 'a'][:b.time_avg.size]

    class Skip(dict):
        pass
    k = c01.check_main(_noens(a), eb, c['lay'])
    k += c01.check_main(_noens(b, drop_om=True), ea, c.get('avlay', [22]))
    # nothing of one profile in the other
    for v in a.variables:
        need('_avg' not in v, "%s is in the burst dataset", v)
    for v in b.data_vars:
        need(v.endswith('_avg') and 'altraw' not in v.replace('altraw_avg', '') or v in ('orientmat', 'beam2inst_orientmat'), "%s is in the averaged dataset", v)
    axes = {'beam': 'beam', 'XYZ': 'inst', 'ENU': 'earth'}
    attr_same('coord_sys', a.attrs['coord_sys'], axes[c['cy']])
    attr_same('coord_sys avg', b.attrs['coord_sys'], axes[c['cya']])
    same('range', a['range'].values, .2 + .5 * (1 + np.arange(c['nc'])), rtol=1e-9)
    same('range_avg', b['range_avg'].values, .2 + 1. * (1 + np.arange(c['nca'])), rtol=1e-9)
    imu = c.get('imu', ['ahrs'])
    if not imu:
        for d, t in ((a, ''), (b, '_avg')):
            same('orientmat' + t, d['orientmat'].values, omat(d['heading' + t].values, d['pitch' + t].values,
                                                              d['roll' + t].values, 0), rtol=1e-4, atol=2e-5)
    rv = ['vel', 'accel', 'mag'] + (['angrt'] if imu else []) + [x + '_b5' for x in ('accel', 'mag') if 24 in c['lay']] + \
         (['vel_bt', 'accel_bt', 'mag_bt'] if 23 in c['lay'] else []) + \
         [x + '_echo' for x in ('accel', 'mag') if 28 in c['lay']]
    need(sorted(a.attrs['rotate_vars']) == sorted(rv), "rotate_vars %s", a.attrs['rotate_vars'])
    need(sorted(b.attrs['rotate_vars']) == ['accel_avg'] + (['angrt_avg'] if imu else []) + ['mag_avg', 'vel_avg'], "rotate_vars of the "
         "averaged profile %s", b.attrs['rotate_vars'])
    attr_same('n_cells', a.attrs['n_cells'], c['nc'])
    attr_same('n_cells_avg', b.attrs['n_cells_avg'], c['nca'])
    for ky in ('inst_model', 'inst_make', 'inst_type', 'fs', 'orientation', 'has_imu', 'beam_angle'):
        attr_same(ky, b.attrs[ky], a.attrs[ky])
    return (a.time.size, b.time_avg.size, k)


def _noens(ds, drop_om=False):
    """numbering of ensembles in a dual file is not claimed"""
    class V:
        def __init__(s, d):
            s.d = d
            s.coords, s.data_vars, s.attrs = d.coords, d.data_vars, d.attrs

        def __contains__(s, k):
            return k in s.d

        def __getitem__(s, k):
            if k.startswith('ensemble'):
                return _A(np.arange(1, s.d[k].size + 1))
            if drop_om and k == 'orientmat':
                x = s.d[k]
                return _A(np.swapaxes(x.values, 0, 1))
            return s.d[k]
    return V(ds)


class _A:
    def __init__(self, v):
        self.values = v


def avg_orient(c):
    ens = build(c)
    a, b = read(write(E.file_bytes([r for g, es in ens for r in es], avg=True), 'd.ad2cp'))
    om = np.moveaxis(np.array([np.reshape(r['om'], (3, 3)) for g, es in ens if g == 'a' for r in es]), 0, -1)
    g = b['orientmat'].values
    om = om[..., :g.shape[-1]]
    e = np.swapaxes(om, 0, 1)
    if not np.allclose(g, e, atol=1e-6) and np.allclose(g, om, atol=1e-6):
        raise Fail("the averaged profile's orientation matrix is the transpose of earth->inst")
    same('orientmat', g, e)
    return 1


def rate(c):
    """Each profile has its own rate and interval."""
    ens = build(c)
    a, b = read(write(E.file_bytes([r for g, es in ens for r in es], avg=True, sr=c['sr'], miavg=c['mi'], ai=c['ai']), 'd.ad2cp'))
    attr_same('avg_interval_sec', int(b.attrs['avg_interval_sec']), c['ai'])
    attr_same('fs of the averages', b.attrs['fs'], c['mi'])
    if a.attrs['fs'] == c['mi'] != c['sr']:
        raise Fail("the burst dataset's sampling rate is the interval between averages")
    attr_same('fs', a.attrs['fs'], c['sr'])
    return (c['sr'], c['mi'])


def run(ex):
    groups = ['bba', 'bbba', 'abb', 'bab', 'bbaa' + 'b', 'bbbbba'] if ex.quick else \
        ['bba', 'bbba', 'bbbba', 'abb', 'abbb', 'bab', 'bbaab', 'bbbbba', 'abbbbb', 'bbbaab']
    lays = [[21], [21, 24], [21, 23], [21, 24, 28]]
    ex.cases('split', [dict(group=g, periods=p, lay=l, nc=nc, nca=nca, cy=cy, cya=cya, flag=f)
                       for g in groups for p in ex.pick((2, 4), (2, 3, 4, 6)) for l in lays
                       for nc, nca in ex.pick(((3, 2),), ((3, 2), (2, 2), (1, 4)))
                       for cy in ('beam', 'ENU') for cya in ('beam', 'XYZ', 'ENU') for f in (0, 1)] +
             [dict(group=g, periods=p, lay=l, nc=3, nca=2, cy=cy, cya=cya, imu=[]) for g in groups for p in (2, 4) for l in lays
              for cy in ('beam', 'ENU') for cya in ('beam', 'XYZ')], split,
             "interleavings of burst and averaged profiles x record layout x shape x frames")
    ex.cases('equal_counts', [dict(group=g, periods=p, lay=[21], nc=3, nca=2, cy='beam', cya='ENU')
                              for g in ('ba', 'ab', 'bbaa') for p in (2, 3, 4)], split,
             "as many averages as bursts")
    some = [['vel'], ['vel', 'amp'], ['vel', 'corr'], ['vel', 'amp', 'corr']]
    ex.cases('blocks', [dict(group=g, periods=3, lay=l, nc=3, nca=2, cy=cy, cya=cya, fl=f, avfl=h, imu=i) for g in ('bba', 'ab') for l in ([21], [21, 24]) for f in some for h in some
                        for cy, cya in (('beam', 'beam'), ('ENU', 'XYZ'), ('beam', 'ENU')) for i in ([], ['ahrs'])], split, "data blocks recorded in either profile")
    ex.cases('altraw', [dict(group=g, periods=p, lay=l, avlay=al, nc=3, nca=2, cy='beam', cya='ENU', alt=a)
                        for g in ('bba', 'bbba', 'abb', 'bbaab') for p in (2, 3) for l, al in (([21, 26], [22]), ([21], [22, 31]), ([21, 26], [22, 31]), ([21, 24, 26], [22, 31]))
                        for a in ([1], [1, 0, 1])], split, "raw-altimeter records in either profile")
    ex.cases('avg_orientation', [dict(group=g, periods=3, lay=[21], nc=3, nca=2, cy='beam', cya=cya)
                                 for g in ('bba', 'bbba') for cya in ('beam', 'ENU')], avg_orient,
             "direction of the averaged profile's orientation matrix")
    ex.cases('rate', [dict(group='bba', periods=3, lay=[21], nc=2, nca=2, cy='beam', cya='ENU', sr=s, mi=m, ai=ai)
                      for s in (1, 4, 8, 16) for m in (2, 60, 600) for ai in (1, 30)], rate, "sampling rate x interval between averages x averaging time")
    ex.assume("the final record of the file may be dropped (it cannot be told from a truncated one)")
