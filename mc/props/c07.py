"""C07  Nortek Vector windows, bursts and sample times."""
import os
import numpy as np
from .. import nortek_ref as R
from ..core import need, product, scratch
from ..util import write, read, dt64, same

LEVEL = "exploration"
_c = {}


def full(c):
    k = repr(sorted((a, b) for a, b in c.items() if a != 'win'))
    if k not in _c:
        h, b = R.vector(c)
        _c[k] = (h + b''.join(x[1] for x in b), R.model(c, b))
    return _c[k]


def window(c):
    data, m = full(c)
    w = c['win']
    ds = read(write(data, 'v.VEC'), nens=w if w is None or isinstance(w, int) else tuple(w))
    lo, hi = (0, w) if w is None or isinstance(w, int) else w
    hi = m['n'] if hi is None else min(hi, m['n'])
    R.compare(ds, m, lo, hi)
    return (lo, hi, ds.time.values.astype(int).sum())


def burst(c):
    data, m = full(c)
    ds = read(write(data, 'v.VEC'))
    R.compare(ds, m)
    fs = c.get('fs', 8)
    t = ds.time.values.astype('datetime64[ns]').astype('int64') / 1e9
    nb = c['nb']
    need(np.all(np.diff(t) > 0), "times are not increasing")
    need(ds.attrs['duty_cycle_n_burst'] == nb and ds.attrs['duty_cycle_interval'] == c.get('bint', 600), "duty cycle")
    return (m['n'], round(float(t[-1] - t[0]), 3))


def run(ex):
    wins = lambda n: [None] + list(range(1, n + 1)) + [n + 5] + \
        [[a, b] for a in range(0, n) for b in range(a + 1, n + 1)] + [[0, n + 9], [n // 2, n + 4]]
    cs = []
    for n, fs, imu, nb in ex.pick(
            [(17, 4, None, 0), (17, 4, 195, 0), (13, 4, 211, 0), (17, 4, None, 6), (13, 2, 204, 0)],
            [(33, 4, None, 0), (33, 4, 195, 0), (33, 4, 204, 0), (33, 4, 211, 0), (33, 4, None, 8), (33, 4, 204, 8),
             (30, 1, None, 0), (30, 1, 195, 0), (40, 8, None, 10), (33, 2, None, 6)]):
        cs += [dict(n=n, fs=fs, imu=imu, nb=nb, win=w) for w in wins(n)]
    ex.cases('window', cs, window, "every window (first n, start:stop) of each layout")
    ex.cases('burst', [dict(c) for c in product(
        nb=ex.pick((3, 8, 9, 16, 17, 24, 40), tuple(range(2, 49))), n=ex.pick((16, 17, 24, 48, 50, 80), tuple(range(10, 100, 3))),
        fs=(1, 4, 8), imu=(None, 195), bint=(120, 600), check=(1, 0)) if c['n'] > 2 * c['fs'] and c['nb'] / c['fs'] < c['bint']],
        burst, "samples per burst x samples x rate x burst interval x sensors")
    ex.cases('drift', [dict(n=n, fs=fs, nb=nb, drift=d, first_late=l, win=None) for n in (33, 40, 64) for fs in (1, 4, 8)
                       for nb in (0, 32) for d in (1, 2, 3) for l in (0, 1) if min(n % (nb or n) or n, nb or n) > 3 * fs
                       if not (l and d == 1)], window,
             "clock running at another rate than the samples")
    ex.assume("clock records lie on a line within each burst (the fit through jittered clocks is not specified)")
