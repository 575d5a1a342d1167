"""C08  Classic Nortek files: truncation, junk, foreign records, checksums."""
import os
import numpy as np
from .. import enc_nortek as N
from .. import nortek_ref as R
from ..core import need, product, Fail, scratch
from ..util import write, read

LEVEL = "fault_enumeration"
_c = {}


def mk(c):
    k = repr((c['kind'], c['n'], c.get('imu'), c.get('nbins'), c.get('pat'), c.get('fs')))
    if k not in _c:
        if c['kind'] == 'vec':
            h, b = R.vector(dict(c, fs=c.get('fs', 4), spat=c.get('pat', 'mix')))
        elif c['kind'] == 'awac':
            h, b = R.awac(c)
        else:
            h, b = R.vno(c)
        _c[k] = (h, b)
    return _c[k]


def cmp(c, ds, blocks, nsmp=None):
    """ds holds the first nsmp samples the blocks encode (None: all)."""
    if c['kind'] == 'vec':
        m = R.model(dict(c, fs=c.get('fs', 4)), blocks)
        R.compare(ds, m, 0, nsmp)
    elif c['kind'] == 'awac':
        R.awac_compare(ds, R.awac_model(c, blocks), 0, nsmp)
    else:
        R.vno_compare(ds, R.vno_model(c, blocks), 0, nsmp)


DATA = ('data', 'prof')


def trunc(c):
    h, b = mk(c)
    data = h + b''.join(x[1] for x in b)
    ends, p = [], len(h)
    for x in b:
        p += len(x[1])
        ends.append(p)
    out = []
    for cut in range(c['cut'], min(c['cut'] + c['w'], len(data) + 1)):
        # a block whose checksum is the only thing missing may count or not
        lo = [x for x, e in zip(b, ends) if e <= cut]
        hi = [x for x, e in zip(b, ends) if e - 2 <= cut]
        nlo, nhi = [sum(x[0] in DATA for x in y) for y in (lo, hi)]
        if c.get('imu'):
            # the last sample counts once its inertial record is there
            nlo = sum(x[0] == 'imu' for x in lo)
        f = write(data[:cut], 't.bin')
        try:
            ds = read(f)
        except Exception as e:
            if nlo >= 2 and any(x[0] == 'sys' for x in lo) or nlo >= 2 and c['kind'] != 'vec':
                raise Fail("cut at byte %d: %d samples are complete but %s: %s" % (cut, nlo, type(e).__name__, e))
            out.append(-1)
            continue
        finally:
            os.remove(f)
        n = ds.time.size
        need(nlo <= n <= nhi, "cut at byte %d: %d samples returned, %d complete", cut, n, nlo)
        use = hi if n > nlo or any(x[0] == 'sys' for x in hi[len(lo):]) else lo
        try:
            cmp(c, ds, use, n)
        except Fail:
            cmp(c, ds, lo, n) if n == nlo and use is hi else (_ for _ in ()).throw(Fail("cut at byte %d: samples differ" % cut))
        out.append(n)
    return tuple(out)


def junk(sz, kind):
    if kind == 'zero':
        return bytes(sz)
    if kind == 'ff':
        return b'\xff' * sz
    return bytes(x for x in ((37 * i + 11) % 256 for i in range(4 * sz + 40)) if x != 0xA5)[:sz]


def foreign(c):
    h, b = mk(c)
    if 'fid' in c:
        x = bytes((11 * i + 1) % 160 for i in range(c['sz']))
        if c.get('sync'):
            # something that looks like the beginning of a record
            x = b''.join(bytes([0xA5, c['sync'], 1, 2]) for _ in range(c['sz'] // 4))
        x = N.blk(c['fid'], x)
    else:
        x = junk(c['sz'], c['junk'])
    at = [i for i in range(len(b) + 1) if i == c['at'] or (c['multi'] and i % 3 == c['at'] % 3)]
    if c.get('imu') and c['nens']:
        at = [i for i in at if i >= len(b) or b[i][0] != 'imu']
    f = write(h + b''.join((x if i in at else b'') + (b[i][1] if i < len(b) else b'') for i in range(len(b) + 1)), 'f.bin')
    n = sum(z[0] in DATA for z in b)
    w = n - 1 if c['nens'] else None
    cmp(c, read(f, nens=w), b, w)
    return (c['at'], c['kind'])


def lost(c):
    """A block whose first byte is damaged is left out; the others survive."""
    h, b = mk(c)
    body = [x[1] for x in b]
    k = c['at']
    body[k] = bytes([c['v']]) + body[k][1:]
    if 0xA5 in body[k] or b[k][0] == 'event' or (c.get('imu') and b[k][0] == 'data' and b[k] is next(z for z in b if z[0] == 'data')):
        return None
    f = write(h + b''.join(body), 'l.bin')
    rest = b[:k] + b[k + 1:]
    ds = read(f)
    if c['kind'] == 'vec' and b[k][0] in ('data', 'imu'):
        # the clock records are no longer a line through the samples
        m = R.model(dict(c, fs=c.get('fs', 4)), rest)
        n = m['n']
        if b[k][0] == 'imu':
            last = sum(z[0] == 'data' for z in b[:k]) - 1
            n = m['n'] - (last == m['n'] - 1)
        need(ds.time.size == n, "%d samples, expected %d", ds.time.size, n)
        from ..util import same
        for ky in ('vel', 'amp', 'corr', 'pressure'):
            same(ky, ds[ky].values, m[ky][..., :n], rtol=3e-6, atol=1e-6)
        if b[k][0] == 'imu':
            for ky in ('accel', 'angrt', 'mag', 'orientmat'):
                if ky in m:
                    same(ky, ds[ky].values, m[ky][..., :n], rtol=3e-6, atol=1e-6)
        return (k, n)
    cmp(c, ds, rest)
    return (k, ds.time.size)


def checksum(c):
    """With do_checksum, a damaged byte never ends up in the data."""
    h, b = mk(c)
    data = h + b''.join(x[1] for x in b)
    full = read(write(data, 'a.bin'), do_checksum=True)
    cmp(c, full, b)
    out = []
    p = len(h)
    for i, x in enumerate(b):
        if i == c['at']:
            for o in range(2 if x[0] == 'data' else 4, len(x[1])):
                if x[0] == 'imu' and o == 5:     # sensor type: the block is skipped
                    continue
                d = bytearray(data)
                d[p + o] ^= c['bit']
                try:
                    ds = read(write(bytes(d), 'b.bin'), do_checksum=True)
                except Exception as e:
                    out.append(1)
                    continue
                raise Fail("damage in byte %d of a %s block is not noticed" % (o, x[0]))
        p += len(x[1])
    return tuple(out)


def run(ex):
    q = ex.quick
    K = [dict(kind='vec', n=9), dict(kind='vec', n=9, imu=195), dict(kind='vec', n=9, imu=204), dict(kind='vec', n=9, imu=211),
         dict(kind='awac', n=4, nbins=2), dict(kind='awac', n=4, nbins=3), dict(kind='vno', n=6, hper=2)]
    if not q:
        K += [dict(kind='vec', n=30, fs=8), dict(kind='vec', n=20, fs=2, imu=195), dict(kind='awac', n=8, nbins=5),
              dict(kind='awac', n=8, nbins=8), dict(kind='vno', n=25, hper=7)]
    cs = []
    for c in K:
        h, b = mk(c)
        L = len(h) + sum(len(x[1]) for x in b)
        cs += [dict(c, cut=k, w=10) for k in range(len(h), L + 1, 10)]
    ex.cases('truncate', cs, trunc, "every byte at which a file can end")
    rec, jnk, lst, chk = [], [], [], []
    for c in K:
        n = len(mk(c)[1])
        rec += [dict(c, fid=i, sz=s, at=a, multi=m, nens=w) for i in ex.pick((0x01, 0x02, 0x06, 0x42, 0x80, 0xff), (1, 2, 3, 6, 8, 0x21, 0x42, 0x43, 0x60, 0x80, 0xc0, 0xff)) for s in ex.pick((0, 24), (0, 2, 24, 96))
                for a in range(n + 1) for m in (0, 1) for w in (0, 1)]
        rec += [dict(c, fid=i, sz=24, at=a, multi=m, nens=w, sync=s) for i in (0x02, 0x42, 0xff) for s in (0x10, 0x11, 0x12, 0x20, 0x51, 0x71, 0x80)
                for a in range(n + 1) for m in (0, 1) for w in (0, 1) if not q or (a + m + w) % 3 == 0]
        jnk += [dict(c, junk=j, sz=s, at=a, multi=m, nens=0) for j in ('zero', 'ff', 'mix') for s in ex.pick((2, 30), (2, 4, 30, 64))
                for a in range(n + 1) for m in (0, 1)]
        if c.get('nbins', 2) % 2 == 0:
            lst += [dict(c, pat=p, at=a, v=v) for p in ('lo', 'mix') for a in range(n) for v in (0, 0xA4, 0x25)]
            chk += [dict(c, at=a, bit=v) for a in range(n) for v in (1, 128)]
    ex.cases('foreign', rec, foreign, "record type not decoded x size x every position x full/partial read")
    ex.cases('junk', jnk, foreign, "runs of junk bytes at every position")
    ex.cases('lost_sync', lst, lost, "every block with a damaged sync byte")
    ex.cases('checksum', chk, checksum, "every byte of every block flipped, with do_checksum")
    ex.assume("junk is a whole number of 16-bit words and holds no sync byte",
              "a sample missing only its trailing checksum may be returned or not")
