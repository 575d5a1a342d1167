"""C02  Signature: a requested window is the same slice of the whole record."""
import itertools
import numpy as np
from .. import enc_ad2cp as E
from ..core import need
from ..util import write, read, ds_same, quiet
from . import c01

LEVEL = "exploration"


def win(c):
    ens = c01.build(c)
    recs = []
    for k, es in enumerate(ens):
        recs += es
        if c.get('strings') and k in c['strings']:
            recs.append(None)
    fh = E.filehead()
    s = E.wrap(160, b'\x10' + b'SOMETEXT,A=1\r\n' + b'\x00')
    p = write(fh + b''.join(s if r is None else E.encode(r) for r in recs), 'w.ad2cp')
    full = read(p)
    n = len(ens)
    # the final ensemble may be dropped when its size is unusual (it cannot be
    # told from a truncated one)
    need(full.time.size == n or (c.get('strings') and full.time.size == n - 1),
         "the whole file has %d ensembles, %d read", n, full.time.size)
    n = full.time.size
    a, b = c['win']
    a = min(a, n - 1)
    b = b if b is None else max(b, a + 1)
    arg = b if c.get('int') else (a, b) if not c.get('list') else [a, b]
    sub = read(p, nens=arg)
    stop = n if b is None else min(b, n)
    exp = full.isel({d: slice(a, stop) for d in full.dims if d.startswith('time') and not d.startswith('time_altraw')})
    skip = ()
    if 'alt' in c:
        # the altimeter's tilt flags are reduced to attributes of what was read
        tg, x = ('_avg', 'time_altraw_avg') if 31 in c['lay'] else ('', 'time_altraw')
        skip = ('tilt_over_5deg' + tg, 'tilt_over_10deg' + tg)
        w = np.cumsum([0] + list(c['alt']))
        if w[a] == w[stop]:
            sub = sub[[v for v in sub.variables if not v.endswith('_alt' + tg) and 'altraw' not in v]]
            exp = exp[[v for v in sub.variables]]
            skip += tuple(k for k in full.attrs if k.endswith('_alt' + tg))
        else:
            exp = exp.isel({x: slice(w[a], w[stop])})
    elif 'time_altraw' in exp.dims:
        exp = exp.isel(time_altraw=slice(a, stop))
    ds_same(sub, exp, 'window %s' % (c['win'],), rtol=0, atol=0, skip_attrs=skip)
    need(sub.time.size == stop - a, "window length %d", sub.time.size)
    return (sub.time.size, a, stop, float(sub['vel' if 'vel' in sub else 'vel_avg'].sum()))


def crop(c):
    """Cutting a file with the package's cropping tool, then reading the cut."""
    from dolfyn.io import nortek2_lib as lib
    ens = c01.build(c)
    p = write(E.file_bytes([r for es in ens for r in es]), 'w.ad2cp')
    full = read(p)
    a, b = c['win']
    q = p.replace('w.ad2cp', 'cut.ad2cp')
    with quiet():
        lib.crop_ensembles(p, q, [a, b])
    sub = read(q)
    exp = full.isel({d: slice(a, b) for d in full.dims if d.startswith('time')})
    ds_same(sub, exp, 'crop', rtol=0, atol=0, skip_vars=[v for v in full.variables if v.startswith('ensemble')])
    return (a, b, float(sub.vel.sum()))


def run(ex):
    F = ['vel', 'amp', 'corr']
    lays = [([21], F), ([21, 24], F), ([21, 23], F + ['ahrs']), ([21, 28], F), ([22], F + ['ahrs']),
            ([21, 24, 23, 28], F + ['ahrs', 'le', 'ast', 'std']), ([24, 21], F), ([28, 21], F)]
    N = ex.pick((1, 2, 5), (1, 2, 3, 5, 8, 12))
    cs = []
    for l, f in lays:
        for n in N:
            for st in ([], list(range(n)), [0], [n - 1]):
                base = dict(lay=l, fl=f, nc=2, n=n, cy='beam', strings=st)
                for a in range(n):
                    for b in list(range(a + 1, n + 1)) + [n + 3, None]:
                        cs.append(dict(base, win=[a, b]))
                for b in range(1, n + 2):
                    cs.append(dict(base, win=[0, b], int=1))
                cs.append(dict(base, win=[0, n], list=1))
    ex.cases('windows', cs, win, "layout x interleaved text records x every (start, stop) window of the file")
    G = F + ['le', 'ast']
    ex.cases('altraw', [dict(lay=l, fl=G, nc=1, n=n, cy='beam', alt=list(q), win=[a, b])
                        for l in ([21, 26], [21, 24, 26], [21, 26, 24], [26, 21], [22, 31], [31, 22]) for n in ex.pick((4,), (4, 5, 6))
                        for q in itertools.product((0, 1), repeat=n) if any(q) and c01.usual_last(q)
                        for a in range(n) for b in range(a + 1, n + 1)], win,
             "every set of ensembles with a raw-altimeter record x every window")
    ex.cases('crop', [dict(lay=l, fl=f, nc=2, n=n, cy='beam', win=[a, b]) for l, f in lays if 21 in l
                      for n in ex.pick((4,), (3, 4, 6)) for a in range(n) for b in range(a + 1, n)], crop,
             "layout x every (start, stop) cut")
    ex.assume("every ensemble holds the same record types")
