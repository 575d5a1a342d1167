"""C03  Signature: what is read never depends on the history of index files."""
import builtins
import hashlib
import os
import numpy as np
from .. import enc_ad2cp as E
from ..core import need, scratch, Fail
from ..util import read, ds_same
from . import c01

LEVEL = "model_checking"
F = ['vel', 'amp', 'corr']
CONTENT = {
    'A3': dict(lay=[21], fl=F, nc=2, n=3), 'A5': dict(lay=[21], fl=F, nc=2, n=5),
    'B4': dict(lay=[21, 24], fl=F, nc=3, n=4), 'C2': dict(lay=[22], fl=F + ['ahrs'], nc=2, n=2),
}
_ref = {}


def content(k):
    c = CONTENT[k]
    return E.file_bytes([r for es in c01.build(c) for r in es])


def reference(k):
    """What a reader that never saw an index returns."""
    if k not in _ref:
        d = scratch()
        p = os.path.join(d, 'f.ad2cp')
        with open(p, 'wb') as f:
            f.write(content(k))
        ds = read(p, rebuild_index=True)
        ens = c01.build(CONTENT[k])
        c01.check_main(ds, ens, CONTENT[k]['lay'])
        _ref[k] = ds
    return _ref[k]


class Crash(Exception):
    pass


class Dying:
    """Files opened for writing die after `k` write calls, the last one torn."""

    def __init__(self, k, torn):
        self.k, self.torn, self.n = k, torn, 0

    def __enter__(self):
        self.open, self.rep, self.ren = builtins.open, os.replace, os.rename
        me = self

        def op(file, mode='r', *a, **kw):
            f = me.open(file, mode, *a, **kw)
            if 'w' in mode and isinstance(file, (str, os.PathLike)):
                return _W(f, me)
            return f

        def mv(fn):
            def g(*a, **kw):
                me.tick()
                return fn(*a, **kw)
            return g
        builtins.open = op
        os.replace, os.rename = mv(self.rep), mv(self.ren)
        return self

    def tick(self, f=None, data=None):
        if self.n == self.k:
            if f is not None:
                f.write(data[:int(len(data) * self.torn)])
                f.flush()
            raise Crash()
        self.n += 1

    def __exit__(self, *a):
        builtins.open, os.replace, os.rename = self.open, self.rep, self.ren


class _W:
    def __init__(self, f, d):
        self._f, self._d = f, d

    def write(self, data):
        self._d.tick(self._f, data)
        return self._f.write(data)

    def __getattr__(self, k):
        return getattr(self._f, k)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._f.close()


def step(c):
    d = scratch()
    p = os.path.join(d, 'f.ad2cp')
    clock = [1000000]
    cur = [None]

    def put(k, newer=True):
        with open(p, 'wb') as f:
            f.write(content(k))
        clock[0] += 10
        os.utime(p, (clock[0], clock[0]))
        cur[0] = k

    def stamp():
        """the index carries the (logical) time of its last write"""
        if os.path.exists(p + '.index'):
            m = os.path.getmtime(p + '.index')
            if m > 2e6:     # written now
                clock[0] += 10
                os.utime(p + '.index', (clock[0], clock[0]))
    put(c['init'])
    for ev in c['hist']:
        k = ev[0]
        if k == 'read':
            ds = read(p, rebuild_index=ev[1])
            ds_same(ds, reference(cur[0]), 'read of %s after %s' % (cur[0], c['hist']), rtol=0, atol=0)
        elif k == 'window':
            n = CONTENT[cur[0]]['n']
            ds = read(p, nens=(1, n))
            r = reference(cur[0])
            ds_same(ds, r.isel({x: slice(1, n) for x in r.dims if x.startswith('time')}), 'window', rtol=0, atol=0)
        elif k == 'put':
            put(ev[1])
        elif k == 'older':      # replaced by a file that keeps its own, older time stamp
            put(ev[1])
            os.utime(p, (500000, 500000))
            ds_same(read(p, rebuild_index=True), reference(ev[1]), 'rebuild with %s' % ev[1], rtol=0, atol=0)
        elif k == 'rmindex':
            if os.path.exists(p + '.index'):
                os.remove(p + '.index')
        elif k == 'touch':
            clock[0] += 10
            os.utime(p, (clock[0], clock[0]))
        elif k == 'crash':
            try:
                with Dying(ev[1], ev[2]):
                    read(p, rebuild_index=ev[3])
            except Crash:
                pass
        stamp()
        need(open(p, 'rb').read() == content(cur[0]), "the data file itself was changed by %s", ev)
    # the state is what is on disk: data content, index bytes, which is newer,
    # what else lies around (the reader keeps nothing in memory)
    ip = p + '.index'
    idx = open(ip, 'rb').read() if os.path.exists(ip) else None
    extra = tuple(sorted({open(os.path.join(d, x), 'rb').read() for x in os.listdir(d)
                          if x not in ('f.ad2cp', 'f.ad2cp.index')}))
    key = (cur[0], hashlib.sha1(repr((idx, extra)).encode()).hexdigest(),
           idx is not None and os.path.getmtime(ip) >= os.path.getmtime(p))
    # closing observation: whatever happened, the data file is what is read
    ds = read(p)
    ds_same(ds, reference(cur[0]), 'read of %s after %s' % (cur[0], c['hist']), rtol=0, atol=0)
    return key


def crashes(c):
    """Every write of the indexer as crash point, with torn variants."""
    h = [['crash', c['k'], c['torn'], c['rebuild']]]
    if c['warm']:
        h = [['read', False]] + h
    return step(dict(init=c['init'], hist=h + [['window']])), c['k']


def stale(c):
    """As event 'older', but nobody asks for a rebuild."""
    d = scratch()
    p = os.path.join(d, 'f.ad2cp')
    for k, t in ((c['a'], 1000000), (c['b'], 500000)):
        with open(p, 'wb') as f:
            f.write(content(k))
        os.utime(p, (t, t))
        if t == 1000000:
            ds_same(read(p), reference(k), 'read', rtol=0, atol=0)
            continue
        try:
            ds_same(read(p), reference(k), 'read', rtol=0, atol=0)
        except Exception:
            raise Fail("an older file put in place of the data file is read with the index of its predecessor")
    return c['a'], c['b']


def run(ex):
    evs = [['read', False], ['read', True], ['window'], ['put', 'A3'], ['put', 'A5'], ['put', 'B4'], ['rmindex'],
           ['touch'], ['crash', 0, 0, False], ['crash', 2, .5, False], ['crash', 4, .5, True]]
    evs += [['older', 'A5']]
    if not ex.quick:
        evs += [['put', 'C2'], ['crash', 3, 1, False]]
    ex.bfs('histories', ['A3', 'B4'], lambda i, h: evs, step, 12,
           "histories of reading, rebuilding, replacing the data file, losing the index and dying while indexing")
    ex.cases('older', [dict(a=a, b=b) for a in CONTENT for b in CONTENT if a != b], stale,
             "every content replaced by every other one that has an older time stamp")
    ex.cases('crash_points', [dict(init=i, k=k, torn=t, rebuild=r, warm=w)
                              for i in ('A3', 'A5', 'B4', 'C2') for k in range(14) for t in (0, .3, .7, 1)
                              for r in (False, True) for w in (False, True)], crashes,
             "every write call of the indexer x torn fraction x prior state")
    ex.assume("file times have finite resolution: a data file replaced within the same clock tick as its index was "
              "written is outside the claim")
