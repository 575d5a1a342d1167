"""C10  Nortek Vectrino decode fidelity."""
import numpy as np
from .. import enc_nortek as N
from .. import nortek_ref as R, labels
from ..core import need, product
from ..util import same, attr_same, write, read

LEVEL = "exploration"


def one(c):
    h, b = R.vno(c)
    w = c.get('win')
    ds = read(write(h + b''.join(x[1] for x in b), 'a.vno'), nens=tuple(w) if isinstance(w, list) else w)
    m = R.vno_model(c, b)
    lo, hi = (w if isinstance(w, list) else (0, w))
    k = R.vno_compare(ds, m, lo, hi)
    a = ds.attrs
    attr_same('coord_sys', a['coord_sys'], ['earth', 'inst', 'beam'][c.get('cy', 1)])
    attr_same('fs', a['fs'], 50000. / c['avg'] if c.get('avg') else float(c.get('fs', 25)))
    need(list(a['rotate_vars']) == ['vel'] and a['inst_model'] == 'Vectrino' and a['inst_type'] == 'ADV', "attrs")
    same('beam2inst_orientmat', ds.beam2inst_orientmat.values, (np.array(c['tm']) if 'tm' in c else N.TM4) / 4096)
    need(ds.vel.dims == ('dir', 'time') and ds.amp.dims == ('beam', 'time') and ds['corr'].dims == ('beam', 'time'), "dims")
    labels.check(ds, a['coord_sys'], 4, (['Z1', 'Z2'], ['U1', 'U2']))
    return (k, float(ds.vel.values.sum()))


def run(ex):
    q = ex.quick
    ex.cases('layout', list(product(n=(2, 3, 8, 25, 60) if q else range(2, 80), cy=(0, 1, 2), fs=(1, 10, 25, 50, 200),
                                    pat=('mix', 'lo', 'hi', 'ext'), mode0=(0, 16))), one,
             "samples x frame x rate x raw-value pattern x velocity resolution")
    ex.cases('long', list(product(n=(255, 256, 257, 300, 513, 1030), cy=(0, 2), fs=(25, 200), hper=(50, 10 ** 6))), one, "beyond what the one-byte sample counter holds")
    ex.cases('headers', [dict(n=n, hper=p, t0=t0) for n in (3, 12, 30) for p in (1, 2, 3, 10, 50)
                         for t0 in (R.T0 - 1, 951782400 + 86390, 1582934395, 1735689590, 1262304000, 2208988790)], one,
             "header spacing x calendar corner")
    ex.cases('rates', [dict(n=n, avg=a, hper=p) for n in (2, 9, 40) for a in (250, 251, 300, 333, 1667, 3000, 4000, 7143, 16667, 49999, 50000)
                       for p in (1, 10)], one, "sampling intervals that are not a whole number of Hz")
    ex.cases('window', [dict(n=n, hper=p, win=w) for n in (6, 11) for p in (1, 4) for w in
                        list(range(1, n + 1)) + [[i, j] for i in range(n) for j in range(i + 1, n + 1)]], one,
             "every window")
    tms = [np.eye(4, dtype=int) * 4096, np.arange(16).reshape(4, 4) * 1000 - 8000, N.TM4,
           np.array([32767, -32768] * 8).reshape(4, 4)]
    ex.cases('matrix', [dict(n=n, tm=t.tolist()) for t in tms for n in (2, 3, 4, 5)], one, "4x4 beam matrices")
    ex.cases('check', [dict(n=n, hper=p, check=list(ch), ncheck=m) for n in (2, 5, 9) for p in (1, 3, 50)
                       for ch in [()] + [(i,) for i in range(n + 1)] + [(i, j) for i in range(n) for j in range(i + 1, n + 1)] + [tuple(range(n))]
                       for m in (1, 16, 17, 20, 300)], one, "distance-check blocks at every position among the samples x their length")
