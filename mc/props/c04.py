"""C04  Signature: truncated files and foreign records."""
import itertools
import os
import numpy as np
from .. import enc_ad2cp as E
from ..core import need, Fail
from ..util import write, read, ds_same
from . import c01

LEVEL = "fault_enumeration"
_full = {}


def setup(c):
    k = repr((c['lay'], c['fl'], c['n']))
    if k not in _full:
        ens = c01.build(dict(c, nc=2))
        fh = E.filehead()
        ends, pos = [], len(fh)
        enc = []
        for es in ens:
            for r in es:
                b = E.encode(r)
                enc.append(b)
                pos += len(b)
            ends.append(pos)
        data = fh + b''.join(enc)
        ds = read(write(data, 'full.ad2cp'))
        need(ds.time.size == c['n'], "full file")
        c01.check_main(ds, ens, c['lay'])
        _full[k] = (data, len(fh), ends, ds, ens)
    return _full[k]


def trunc(c):
    data, h, ends, full, ens = setup(c)
    out = []
    for cut in range(c['cut'], min(c['cut'] + c['w'], len(data) + 1)):
        whole = sum(e <= cut for e in ends)
        p = write(data[:cut], 't.ad2cp')
        try:
            ds = read(p)
        except Exception as e:
            if whole > 1:
                raise Fail("cut at byte %d: %d complete ensembles but %s: %s" % (cut, whole, type(e).__name__, e))
            out.append(-1)
            continue
        finally:
            for x in (p, p + '.index'):
                if os.path.exists(x):
                    os.remove(x)
        n = ds.time.size
        if whole == 0:
            # all there is are the first records of one ensemble
            need(n <= 1, "cut at byte %d: no complete ensemble, %d returned", cut, n)
            continue
        need(whole - 1 <= n <= whole, "cut at byte %d: %d complete ensembles, %d returned", cut, whole, n)
        ds_same(ds, full.isel({d: slice(0, n) for d in full.dims if d.startswith('time')}),
                'cut at byte %d' % cut, rtol=0, atol=0, attrs=False)
        out.append(n)
    return tuple(out)


def foreign(c):
    """Records of other types anywhere in the file change nothing."""
    data, h, ends, full, ens = setup(c)
    recs = [E.encode(r) for es in ens for r in es]
    if c['fid'] == 160:
        x = E.wrap(160, b'\x10' + b'GETSOMETHING,A=1\r\n' + b'\x00')
    else:
        x = E.wrap(c['fid'], bytes((7 * i + 3) % 256 for i in range(c['sz'])))
    at = c['at']
    if c['multi']:
        k = [i for i in range(len(recs) + 1) if i % 2 == at % 2]
    else:
        k = [at]
    body = b''.join((x if i in k else b'') + (recs[i] if i < len(recs) else b'') for i in range(len(recs) + 1))
    ds = read(write(data[:h] + body, 'x.ad2cp'))
    n = ds.time.size
    need(n in (c['n'], c['n'] - 1), "%d of %d ensembles returned", n, c['n'])
    if n < c['n']:
        # a foreign record belongs to the ensemble it follows; the last one may
        # only be mistaken for a truncated one when it differs from most others
        m = len(recs) // c['n']
        odd = [sum((i - 1) // m == e for i in k if i) for e in range(c['n'])]
        need(2 * sum(o == odd[-1] for o in odd[:-1]) <= c['n'] - 1,
             "the last ensemble is as long as most others, but it is gone")
    ds_same(ds, full.isel({d: slice(0, n) for d in full.dims if d.startswith('time')}), 'with foreign records',
            rtol=0, atol=0)
    return (n, at, c['fid'])


BOTH = ('c_sound', 'temp', 'pressure', 'temp_press', 'temp_clock', 'batt', 'heading', 'pitch', 'roll', 'orientmat')


def lost(c):
    """Records missing inside a file: all that is there is returned, at its place."""
    data, h, ends, full, ens = setup(c)
    gone = {tuple(x) for x in c['lost']}
    num = (lambda i, j: sum((k, j) not in gone for k in range(i + 1))) if c.get('cont') else (lambda i, j: ens[i][j]['ens'])
    p = write(data[:h] + b''.join(E.encode(dict(r, ens=num(i, j))) for i, es in enumerate(ens) for j, r in enumerate(es) if (i, j) not in gone), 'l.ad2cp')
    ds = read(p)
    left = [i for i, es in enumerate(ens) if any((i, j) not in gone for j in range(len(es)))]
    n = ds.time.size
    need(n in (len(left), len(left) - 1), "%d ensembles are left, %d returned", len(left), n)
    kept = left[:n]
    exp = full.isel({d: kept for d in full.dims if d.startswith('time')})
    mixed = 21 in c['lay'] and 24 in c['lay']
    for i, j in gone:
        if i not in kept:
            continue
        k = kept.index(i)
        rid = c['lay'][j]
        t = 'time' + (c01.TAG[rid] if rid != 22 else '_avg')
        for x in (ds, exp):
            for v in list(x.variables):
                if t in x[v].dims or (mixed and rid in (21, 24) and v in BOTH):
                    d = t if t in x[v].dims else 'time'
                    a = x[v].values.copy()
                    g = np.moveaxis(a, x[v].dims.index(d), -1)
                    g[..., k] = np.zeros((), g.dtype)
                    x[v] = (x[v].dims, a, x[v].attrs)
    nums = [v for v in full.variables if v.startswith('ensemble')]                  # counted anew
    pw = [a for a in full.attrs if a.startswith('power_level')]
    ds_same(ds, exp, 'lost %s' % (c['lost'],), rtol=0, atol=0, skip_vars=nums, skip_attrs=pw)
    if 'win' in c:
        a, b = c['win']
        if a < n:
            b = min(b, n)
            whole, sub = read(p), read(p, nens=(a, b))
            ds_same(sub, whole.isel({d: slice(a, b) for d in whole.dims if d.startswith('time')}), 'window %s' % (c['win'],), rtol=0, atol=0,
                    skip_attrs=pw)
    return [n, len(gone)]


def lost_value(c):
    data, h, ends, full, ens = setup(c)
    (i, j), = c['lost']
    ds = read(write(data[:h] + b''.join(E.encode(r) for a, es in enumerate(ens) for b, r in enumerate(es) if (a, b) != (i, j)), 'l.ad2cp'))
    v = {21: 'vel', 24: 'vel_b5', 23: 'vel_bt', 28: 'echo'}[c['lay'][j]]
    need(np.isnan(ds[v].values[..., i]).all(), "a lost sample is returned as %s", ds[v].values[..., i].ravel()[:1].tolist())
    if c['lay'][j] == 24:
        for v in BOTH[:6]:
            need(abs(float(ds[v][i]) - E.phys(ens[i][0])[v]) < 1e-3, "%s is wrong", v)
    return v


def lost_near(c):
    try:
        return lost(c)
    except Exception as e:
        raise Fail("samples next to several lost ones are lost or misplaced: %s" % e)


def run(ex):
    F = ['vel', 'amp', 'corr']
    lays = [([21], F, 4), ([21, 24], ['vel'], 3), ([21, 23, 28], ['vel', 'ahrs'], 2), ([22], F + ['ahrs'], 3)]
    if not ex.quick:
        lays += [([21], F + ['le', 'ast', 'std', 'ahrs'], 4), ([21, 24, 23, 28], F, 3), ([24, 21], F, 3)]
    cs = []
    for l, f, n in lays:
        e = c01.build(dict(lay=l, fl=f, n=n, nc=2))
        h = len(E.filehead())
        L = h + sum(len(E.encode(r)) for es in e for r in es)
        w = 8
        cs += [dict(lay=l, fl=f, n=n, cut=k, w=w) for k in range(h + 1, L + 1, w)]
    ex.cases('truncate', cs, trunc, "every byte at which a file can end")
    ids = [160, 40, 99, 200, 255, 0, 20, 25]
    ex.cases('foreign', [dict(lay=l, fl=f, n=n, fid=i, sz=s, at=a, multi=m)
                         for l, f, n in lays for i in ids for s in ex.pick((0, 33), (0, 1, 33, 300))
                         for a in range(len(l) * n + 1) for m in (0, 1)], foreign,
             "record type not decoded x size x every position in the file")
    n = 6
    L = [([21, 24], F), ([21, 23], F), ([24, 21], ['vel']), ([21, 24, 23, 28], F)] + ([] if ex.quick else [([21, 28], F), ([21, 23, 24], F + ['ahrs'])])
    cs, near, vs, first = [], [], [], []
    for l, f in L:
        al = [[i, j] for i in range(1, n) for j in range(len(l))]
        base = dict(lay=l, fl=f, n=n)
        cs += [dict(base, lost=[x], win=[a, a + 2]) for x in al for a in range(n - 1)]
        vs += [dict(base, lost=[x]) for x in al if x[0] < n - 1]
        # whole ensembles
        cs += [dict(base, lost=[[i, j] for i in k for j in range(len(l))], win=[1, 3]) for m in (1, 2) for k in itertools.combinations(range(n), m)]
        for x, y in itertools.combinations(al, 2):
            (near if y[0] - x[0] == 1 and (y[1] == x[1] or y[1] < x[1] and len(l) == 2) else cs).append(dict(base, lost=[x, y]))
        # the lost pings may not have been counted either
        cs += [dict(c, cont=1) for c in cs if c['lay'] == l]
        first += [dict(base, lost=[[0, j]]) for j in range(1, len(l))]
    ex.cases('lost', cs, lost, "every record, pair of records and whole ensembles missing x windows")
    ex.cases('lost_near', near, lost_near, "records of one kind missing from neighbouring ensembles, or two that alternate")
    ex.cases('lost_first', first, lost_near, "records missing from the first ensemble")
    ex.cases('lost_value', vs, lost_value, "every record but those of the first and last ensemble missing")
    ex.assume("a file that ends inside an ensemble may also lose the last complete ensemble (never more)")
