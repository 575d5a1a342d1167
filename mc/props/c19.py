"""C19  A damaged clock costs only its own time stamp."""
import numpy as np
from .. import dsets as D
from .. import enc_ad2cp as A
from .. import enc_nortek as NK
from .. import enc_rdi as E
from .. import nortek_ref as N
from .. import rdi_ref as R
from . import c01
from ..core import need, product
from ..util import same, write, read, dt64

LEVEL = "fault_enumeration"

# raw clock fields that are no valid date
BAD_SIG = dict(month=(120, 14, 3, 4, 5, 6, 7), day=(120, 1, 31, 4, 5, 6, 7), hour=(120, 1, 3, 25, 5, 6, 7),
               minute=(120, 1, 3, 4, 60, 6, 7), second=(120, 1, 3, 4, 5, 61, 7), ff=(255,) * 6 + (7,), zero=(0,) * 7)
BAD_NK = dict(month='000001010099', day='000032010020', ff='ffffffffffff', hour='000001250101', zero='000000000000')


def fill(t, bad, fs):
    """reference: linear inside, steps of one interval at the ends."""
    t = np.array(t, float)
    good = [i for i in range(len(t)) if not bad[i]]
    for i in range(len(t)):
        if not bad[i]:
            continue
        lo = [g for g in good if g < i]
        hi = [g for g in good if g > i]
        if lo and hi:
            a, b = lo[-1], hi[0]
            t[i] = t[a] + (t[b] - t[a]) * (i - a) / (b - a)
        elif hi:
            t[i] = t[hi[0]] - (hi[0] - i) / fs
        else:
            t[i] = t[lo[-1]] + (i - lo[-1]) / fs
    return t


def data_same(ds, ref):
    for v in ref.data_vars:
        need(v in ds, "%s is missing", v)
        same(v, ds[v].values, ref[v].values)
    need(ds.time.size == ref.time.size, "number of samples")


def sig(c):
    base = dict(n=len(c['bad']), lay=c['lay'], fl=['vel', 'amp', 'corr'], nc=2)
    ens = c01.build(base)
    ref = read(write(A.file_bytes([r for e in ens for r in e]), 'a.ad2cp'))
    t = {}
    for e, b in zip(ens, c['bad']):
        for r in e:
            tt = t.setdefault(r['id'], ([], []))
            # uneven spacing, so that interpolation differs from the nominal step
            r['t'] += c['uneven'] * (r['ens'] ** 2) * .01
            tt[0].append(r['t'])
            tt[1].append(b and r['id'] in c['which'])
            if tt[1][-1]:
                r['rawtime'] = BAD_SIG[c['kind']]
    ds = read(write(A.file_bytes([r for e in ens for r in e]), 'b.ad2cp'))
    data_same(ds, ref)
    for rid, (tt, bb) in t.items():
        same('time%s' % c01.TAG[rid], ds['time' + c01.TAG[rid]].values, dt64(fill(tt, bb, ds.attrs['fs'])), atol=3e-6)
    return (c['bad'], c['which'])


def awac(c):
    b = dict(n=len(c['bad']), nbins=2, dt=60, avg=60)
    h, bl = N.awac(b)
    hdr = h
    ref = read(write(hdr + bytes().join(x[1] for x in bl), 'a.wpr'))
    tt, out = [], []
    for k, (_, _, r) in enumerate(bl):
        r['t'] += c['uneven'] * k * k
        tt.append(r['t'])
        if c['bad'][k]:
            r = dict(r, t=BAD_NK[c['kind']])
        out.append(NK.awac_profile(r))
    ds = read(write(hdr + bytes().join(out), 'b.wpr'))
    n = len(tt)
    while c['bad'][n - 1]:       # trailing profiles without a clock are dropped
        n -= 1
    data_same(ds, ref.isel(time=slice(0, n)))
    same('time', ds.time.values, dt64(fill(tt[:n], c['bad'][:n], 1 / 60.)), atol=1e-4)
    return c['bad']


def vec(c):
    b = dict(n=4 * len(c['bad']) + 2, fs=4, imu=c['imu'])
    h, bl = N.vector(b)
    hdr = h
    ref = read(write(hdr + bytes().join(x[1] for x in bl), 'a.vec'))
    out, k = [], 0
    for kind, byts, r in bl:
        if kind == 'sys':
            if k < len(c['bad']) and c['bad'][k]:
                byts = NK.vec_sys(dict(r, t=BAD_NK[c['kind']]))
            k += 1
        if kind == 'hdr' and c['hdr']:
            byts = NK.vec_hdr(BAD_NK[c['kind']])
        out.append(byts)
    ds = read(write(hdr + bytes().join(out), 'b.vec'))
    for v in ref.data_vars:
        if v in ('orientmat',) and not c['imu']:
            continue
        need(v in ds, "%s is missing", v)
        same(v, ds[v].values, ref[v].values, rtol=1e-4, atol=1e-4)
    same('time', ds.time.values, ref.time.values, atol=1e-4)
    return c['bad']


def rdi(c):
    b = dict(n=len(c['bad']), cfg=dict(ncells=2))
    rs, ens = R.build(b)
    ref = read(write(bytes().join(ens), 'a.000'))
    out = []
    for k, r in enumerate(rs):
        e = E.ensemble(R.blocks(b, r))
        if k < len(c['bad']) and c['bad'][k]:
            y = E.rtc(r['t'], r['cs'])
            rt1 = bytes([y[0] % 100, *y[1:]])
            rt2 = bytes([y[0] // 100, y[0] % 100, *y[1:]])
            bad1, bad2 = bytearray(rt1), bytearray(rt2)
            i, v = dict(month=(1, 13), day=(2, 32), hour=(3, 24), minute=(4, 60), zero=(1, 0))[c['kind']]
            bad1[i] = v
            bad2[i + 1] = v
            assert e.count(rt1) >= 1
            e = bytearray(e.replace(rt2, bytes(bad2)).replace(rt1, bytes(bad1)))
            e = bytes(e[:-2])
            e += (sum(e) & 0xFFFF).to_bytes(2, 'little')
        out.append(e)
    ds = read(write(bytes().join(out), 'b.000'))
    data_same(ds, ref)
    n = ds.time.size
    good = [i for i in range(n) if not c['bad'][i]]
    same('time', ds.time.values[good], ref.time.values[good], atol=1e-6)
    bad = [i for i in range(n) if c['bad'][i]]
    need(np.isnat(ds.time.values[bad]).all(), "an invalid clock became %s", ds.time.values[bad])
    return c['bad']


def patterns(n, ok):
    out = []
    for k in range(2 ** n):
        b = [k >> i & 1 for i in range(n)]
        if ok(b):
            out.append(b)
    return out


def run(ex):
    n = ex.pick(5, 8)
    some = lambda b: 0 < len(b) - sum(b)
    ex.cases('signature', [dict(bad=b, lay=l, which=w, kind=k, uneven=u) for b in patterns(n, some) if sum(b)
                           for l, w in (([21], [21]), ([21, 24], [21, 24]), ([21, 24], [24]), ([21, 23], [23]), ([22], [22]))
                           for k in BAD_SIG for u in (0, 1)], sig,
             "every subset of damaged clocks x record layout x kind of damage x clock spacing")
    ex.cases('awac', [dict(bad=b, kind=k, uneven=u) for b in patterns(n, some) if sum(b) for k in BAD_NK for u in (0, 1)], awac,
             "every subset of damaged clocks x kind of damage")
    ex.assume("AWAC profiles after the last one with a valid clock are dropped")
    ex.cases('vector', [dict(bad=b + [0, 0], kind=k, imu=i, hdr=h) for b in patterns(n - 1, lambda b: len(b) - sum(b) >= 2)
                        for k in BAD_NK for i in (None, 195) for h in (0, 1) if sum(b) or h], vec,
             "every subset of damaged clock records x kind of damage")
    ex.cases('trdi', [dict(bad=b, kind=k) for b in patterns(n, lambda b: len(b) - 1 - sum(b[:-1]) > 0) if sum(b)
                      for k in ('month', 'day', 'hour', 'minute', 'zero')], rdi,
             "every subset of damaged clocks x kind of damage")
