"""C13  TRDI PD0: windows, truncation, junk, unknown blocks, varying ensembles."""
import itertools
import os
import struct
import numpy as np
from .. import enc_rdi as E
from .. import rdi_ref as R
from ..core import need, product, Fail
from ..util import same, write, read

LEVEL = "fault_enumeration"


def window(c):
    rs, ens = R.build(c)
    ds = read(write(b''.join(ens), 'r.pd0'), nens=c['nens'])
    avail = len(ens)
    need(ds.time.size in ({c['nens']} if c['nens'] < avail else {avail, avail - 1}), "nens=%d of %d gives %d ensembles", c['nens'],
         avail, ds.time.size)
    R.compare(ds, rs, c, ds.time.size)
    return (c['nens'], ds.time.size)


def trunc(c):
    rs, ens = R.build(c)
    data = b''.join(ens)
    ends = np.cumsum([len(x) for x in ens])
    out = []
    for cut in range(c['cut'], min(c['cut'] + c['w'], len(data) + 1)):
        full = int((ends <= cut).sum())
        f = write(data[:cut], 't.pd0')
        try:
            ds = read(f)
        except Exception as e:
            need(full < 2 or (full == 2 and cut == ends[1]), "cut at byte %d: %d complete ensembles but %s: %s", cut, full, type(e).__name__, e)
            out.append(-1)
            continue
        finally:
            os.remove(f)
        n = ds.time.size
        need(max(full - 1, 0) <= n <= full, "cut at byte %d: %d complete ensembles, %d returned", cut, full, n)
        R.compare(ds, rs, c, n)
        out.append(n)
    return tuple(out)


def junkbytes(sz, kind):
    if kind == 'zero':
        return bytes(sz)
    if kind == 'ff':
        return b'\xff' * sz
    if kind == '7f':        # sync bytes that are no header
        return (b'\x7f\x7f\x10\x00' * sz)[:sz] if sz % 4 == 0 else b'\x7f' * sz
    return bytes((37 * i + 11) % 256 for i in range(sz))


def junk(c):
    rs, ens = R.build(c)
    x = junkbytes(c['sz'], c['junk'])
    at = [i for i in range(len(ens) + 1) if i == c['at'] or (c['multi'] and i >= c['at'])]
    # an ensemble is recognised by the header that follows it
    cand = [k for k in range(len(ens)) if k + 1 not in at and k + 1 < len(ens)]
    f = write(b''.join((x if i in at else b'') + (ens[i] if i < len(ens) else b'') for i in range(len(ens) + 1)), 'j.pd0')
    try:
        ds = read(f)
    except RuntimeError:
        need(not cand, "no ensemble found, %d recorded", len(cand))
        return ()
    n = ds.time.size
    all_ = list(range(len(ens)))
    for keep in (all_, all_[:-1], cand):
        if len(keep) == n:
            try:
                R.compare(ds, [rs[k] for k in keep], c)
                return tuple(keep)
            except Fail as e:
                err = e
    need(n in (len(all_), len(all_) - 1, len(cand)), "%d ensembles returned, %d recorded", n, len(all_))
    raise err


def unknown(c):
    """A block of unknown type, in all or some of the ensembles."""
    rs = R.recs(c)
    ens = []
    for k, r in enumerate(rs):
        b = R.blocks(c, r)
        if c['which'] == 'all' or (c['which'] == 'some' and k % 2 == c['par']):
            b.insert(c['at'] if c['at'] >= 0 else len(b), struct.pack('<H', c['id']) + bytes((13 * i + 5) % 250 for i in range(c['sz'])))
        ens.append(E.ensemble(b))
    ds = read(write(b''.join(ens), 'u.pd0'))
    n = R.count_ok(ds, len(ens))
    R.compare(ds, rs, c, n)
    return (c['id'], c['at'], n)


def vary(c):
    """Bottom track / altimeter / cells come and go between ensembles."""
    rs = R.recs(dict(c, n=len(c['seq_blk']) - 1))
    ens = []
    for r, b in zip(rs, c['seq_blk']):
        ens.append(E.ensemble(R.blocks(dict(c, blk=b), r)))
    ds = read(write(b''.join(ens), 'v.pd0'))
    n = R.count_ok(ds, len(ens))
    for k in range(n):
        # core quantities of every ensemble
        m = R.stack([rs[k]], dict(c, blk='vcap'))
        same('time', ds.time.values[k:k + 1], (m.pop('time') * 1e9).round().astype('int64').astype('datetime64[ns]'), atol=1e-6)
        for ky in m:
            same(ky, ds[ky].values[..., k:k + 1], m[ky], **R.TIGHT)
        if 'b' in c['seq_blk'][k]:
            x = E.phys(rs[k], R.ver(c), True)
            for ky in ('dist_bt', 'vel_bt', 'corr_bt', 'amp_bt', 'prcnt_gd_bt'):
                same(ky, ds[ky].values[:, k], x[ky], **R.TIGHT)
    return (tuple(c['seq_blk']), n)


def cells(c):
    rs = R.recs(dict(c, n=len(c['shape']) - 1))
    ens = [E.ensemble(R.blocks(c, r)) for r in rs]
    ds = read(write(b''.join(ens), 'c.pd0'))
    n = R.count_ok(ds, len(ens))
    mx = max(c['shape'][:n])
    need(ds.range.size >= mx, "range has %d cells, ensembles up to %d", ds.range.size, mx)
    for k in range(n):
        nc = c['shape'][k]
        for ky, sc in (('vel', .001), ('corr', 1), ('amp', 1), ('prcnt_gd', 1)):
            a = ds[ky].values[..., k]
            same(ky, a[:, :nc], rs[k][ky].T * sc, **R.TIGHT)
            if ky == 'vel' and a.shape[1] > nc and not np.isnan(a[:, nc:]).all():
                raise Fail("cells above the %d recorded ones hold values in ensemble %d" % (nc, k))
    return tuple(c['shape'])


def lost(c):
    """An ensemble with a damaged header is left out; all others survive."""
    rs, ens = R.build(c)
    x = bytearray(ens[c['at']])
    x[c['byte']] ^= c['bit']
    ens[c['at']] = bytes(x)
    ds = read(write(b''.join(ens), 'l.pd0'))
    full = [k for k in range(len(ens)) if k != c['at']]
    # an ensemble is recognised by the header that follows it
    adj = [k for k in full if k != c['at'] - 1]
    for keep in (full, full[:-1], adj, adj[:-1]):
        if len(keep) == ds.time.size:
            try:
                return R.compare(ds, [rs[k] for k in keep], c) and tuple(keep)
            except Fail as e:
                err = e
    if ds.time.size >= len(adj) - 1:
        raise err
    raise Fail("%d ensembles returned, %d intact" % (ds.time.size, len(full)))


def badnav(c):
    """An unreadable navigation sentence costs nothing but itself."""
    rs = R.recs(c)
    ens = []
    for k, r in enumerate(rs):
        b = R.blocks(c, r)
        g = E.nmrec(k, r['t'])
        for z, f in (('g', E.gga), ('t', E.vtg), ('d', E.dbt), ('h', E.hdt)):
            if z in c['nav']:
                x = f(g)
                if k in c['bad'] and z == c['z']:
                    x = x[:14] + b'\xff\xfe' * 3 + x[20:]
                b.append(x)
        ens.append(E.ensemble(b))
    ds = read(write(b''.join(ens), 'n.pd0'))
    n = R.count_ok(ds, len(ens))
    m = R.stack(rs[:n], c)
    m.pop('time')
    for ky in m:
        same(ky, ds[ky].values, m[ky], **R.TIGHT)
    return (tuple(c['bad']), c['z'])


def run(ex):
    q = ex.quick
    ex.cases('window', [dict(n=n, nens=w, cfg=dict(ncells=nc), blk=b) for n in ex.pick((2, 5, 8), range(2, 16)) for w in range(1, n + 4)
                        for nc in (1, 4) for b in ('vcap', 'vcapsb')], window, "first-n windows, incl. more than the file holds")
    ex.cases('long', [dict(n=n, cfg=dict(ncells=nc), blk=b, nens=10 ** 6 if False else n + 1) for n in ex.pick((49, 50, 51, 60, 120, 230), (49, 50, 51, 60, 120, 230, 600, 1500))
                      for nc in (1, 2, 5, 20) for b in ('v', 'vcapsb')], longfile, "files of many small ensembles")
    ex.cases('long_vary', [dict(seq_blk=[a] * k + [b] * m, cfg=dict(ncells=nc)) for a, b in (('vcapsb', 'v'), ('vcapsb', 'vcap'), ('v', 'vcapsb'), ('vcap', 'vcapb'))
                           for k in (1, 10, 49, 50, 51, 60) for m in (1, 20, 60, 200) for nc in (1, 20)], longvary, "many ensembles whose size changes")
    ex.cases('badnav', [dict(n=4, cfg=dict(ncells=2), blk=b, nav=nav, z=z, bad=list(bad)) for b in ('vcap', 'vcapsb') for nav in ('gtdh', 'hdtg', 'gt', 'g', 'h')
                        for z in nav for k in (1, 2, 3) for bad in itertools.combinations(range(4), k)], badnav, "unreadable navigation sentences")
    cs = []
    for c in (dict(n=3, cfg=dict(ncells=1), blk='v'), dict(n=3, cfg=dict(ncells=3), blk='vcapsb'), dict(n=5, cfg=dict(ncells=2), blk='vcap')):
        L = sum(len(x) for x in R.build(c)[1])
        cs += [dict(c, cut=k, w=8) for k in range(0, L + 1, 8)]
    ex.cases('truncate', cs, trunc, "every byte at which a file can end")
    ex.cases('junk', [dict(n=4, cfg=dict(ncells=2), blk=b, junk=j, sz=s, at=a, multi=m) for j in ('zero', 'ff', '7f', 'mix') for s in ex.pick((1, 2, 3, 17, 64, 400), list(range(1, 40)) + [64, 400, 1500])
                      for a in range(1, 6) for m in (0, 1) for b in ('vcap', 'vcapsb')], junk, "junk runs between ensembles")
    ex.cases('unknown', [dict(n=n, cfg=dict(ncells=2), blk=b, id=i, sz=s, at=a, which=w, par=p) for n in (3,) for b in ('vcap', 'vcapsb')
                         for i in (0x0777, 0x1234, 0x4101, 0x7ffe, 0x30d4, 0x0a01, 0x2fff) for s in (0, 1, 7, 40) for a in (2, 3, 5, -1)
                         for w, p in (('all', 0), ('some', 0), ('some', 1))], unknown, "unknown block types x size x place x ensembles")
    ex.cases('known_skip', [dict(n=3, cfg=dict(ncells=2), blk='vcapb', id=i, sz=s, at=a, which=w, par=0) for i, s in
                            ((259, 74), (515, 186), (524, 4), (770, 2), (771, 36), (1027, 6), (1793, 8), (1794, 8), (1795, 8), (2560, 2), (2816, 2), (3072, 2),
                             (3328, 2), (3000, 32), (3841, 38), (8211, 83), (12800, 32), (12288, 32), (12496, 24), (12504, 48), (17408, 28), (17409, 82), (22531, 68),
                             (22532, 21), (22785, 65), (22786, 105), (28673, 14)) for a in (2, 4, -1) for w in ('all', 'some')], unknown,
             "block types that are recognised and skipped")
    ex.cases('vary', [dict(cfg=dict(ncells=nc), seq_blk=list(s)) for k in ex.pick((3, 4, 5), (3, 4, 5, 6)) for s in itertools.product(('vcap', 'vcapb', 'bvcap') if k < 5 else ('vcap', 'vcapb'), repeat=k) for nc in (1, 8)],
             vary, "bottom track present in every subset of the ensembles")
    ex.cases('grow', [dict(shape=list(s), blk='vcap') for k in (3, 4, 5) for s in itertools.combinations_with_replacement((1, 3, 6, 8), k)], cells,
             "cell counts growing along the file")
    ex.cases('shrink', [dict(shape=list(s), blk='vcap') for k in (3, 4) for s in itertools.product((1, 3, 6), repeat=k)
                        if any(a > b for a, b in zip(s, s[1:-1]))], cells, "cell counts shrinking along the file")
    ex.cases('lost', [dict(n=5, cfg=dict(ncells=2), blk='vcap', at=a, byte=b, bit=v) for a in (1, 2, 3, 4) for b in (0, 1) for v in (1, 2, 128)] +
             [dict(n=5, cfg=dict(ncells=2), blk='vcap', at=a, byte=2, bit=v) for a in (1, 2, 3, 4) for v in (1, 2, 4, 8, 16, 32, 64)], lost, "damaged ensemble headers")
    ex.assume("the last complete ensemble may be missing (C11 finding); an ensemble directly followed by junk may be missing")


def longfile(c):
    rs, ens = R.build(c)
    ds = read(write(b''.join(ens), 'r.pd0'))
    n = R.count_ok(ds, len(ens))
    R.compare(ds, rs, c, n)
    return (n,)


def longvary(c):
    rs = R.recs(dict(c, n=len(c['seq_blk']) - 1))
    ens = [E.ensemble(R.blocks(dict(c, blk=b), r)) for r, b in zip(rs, c['seq_blk'])]
    ds = read(write(b''.join(ens), 'r.pd0'))
    n = R.count_ok(ds, len(ens))
    m = R.stack(rs[:n], dict(c, blk='v'))
    m.pop('time')
    for ky in m:
        same(ky, ds[ky].values, m[ky], **R.TIGHT)
    return (n, c['seq_blk'][0])
