"""C38  Diagnostic reading options never change the data."""
import logging
import os
from .. import dsets, rdi_ref as R, enc_rdi, enc_ad2cp as A
from ..core import need
from ..util import ds_same, write, read
from . import c12

LEVEL = "exploration"
F = ['vel', 'amp', 'corr']
FILES = dict(
    vector=lambda: dsets.make('vector', n=9), vector_imu=lambda: dsets.make('vector', n=9, imu=195),
    vector_imu211=lambda: dsets.make('vector', n=9, imu=211), vector_odd=lambda: dsets.make('vector', n=1),
    awac=lambda: dsets.make('awac', n=4), awac_down=lambda: dsets.make('awac', n=3, nbins=4), vno=lambda: dsets.make('vno', n=5),
    sig=lambda: dsets.make('sig', n=4), sig_all=lambda: dsets.make('sig', n=4, lay=[21, 23, 24, 26, 28, 30], fl=F + ['ahrs', 'le']),
    sig_avg=lambda: dsets.make('sig', n=4, lay=[22], cy='XYZ'),
    sig_dual=lambda: dsets.make('sig', n=5, lay=[21, 22]),
    rdi=lambda: dsets.make('rdi', n=4, blk='vcapsb'), rdi_alt=lambda: dsets.make('rdi', n=4, blk='vcapl'),
    rdi_old=lambda: dsets.make('rdi', n=4, prog=(8, 14)),
    rdi_unknown=lambda: b''.join(enc_rdi.ensemble(R.blocks(dict(n=4), r) + [b'\x34\x12' + bytes(9)]) for r in R.recs(dict(n=4))),
    vmdas=lambda: b''.join(c12.build(dict(sys='vm', n=4))[2]), winriver=lambda: b''.join(c12.build(dict(sys='nm', n=4, nav='gtdh'))[2]),
)


def damage(data, kind):
    if kind == 'clean':
        return data
    if kind == 'tail':
        return data[:-3]
    if kind == 'trail0':
        return data + bytes(40)
    k, a = kind.split(':')
    if k == 'foreign':                              # AD2CP: a record of another kind after record i
        ident, i = map(int, a.split(','))
        at = starts(data)[i + 1]
        return data[:at] + A.wrap(ident, bytes(range(64))) + data[at:]
    at = len(data) * int(a) // 100
    if k == 'flip':
        return data[:at] + bytes([data[at] ^ 0x10]) + data[at + 1:]
    if k == 'junk':
        return data[:at] + bytes([0xa5, 0x10, 0x7f, 0x7f, 3]) + data[at:]
    raise ValueError(kind)


def starts(data):
    out = [0]
    while out[-1] < len(data):
        p = out[-1]
        out.append(p + data[p + 1] + int.from_bytes(data[p + 4:p + 6], 'little'))
    return out


def clean(ds):
    return list(ds) if isinstance(ds, (list, tuple)) else [ds]


def one(c):
    data = damage(FILES[c['file']](), c['dmg'])
    kw = dict(c['opt'])
    w = c.get('win')
    base = dict(nens=tuple(w) if isinstance(w, list) else w)
    if c['file'] == 'sig_dual':
        base['dual_profile'] = True
    ext = 'd.bin'
    p, p2 = write(data, ext), write(data, ext)
    try:
        a = clean(read(p, **base))
    except Exception as e:
        a = type(e).__name__
    h = logging.root.handlers[:]
    try:
        b = clean(read(p2, **base, **kw))
    except Exception as e:
        if isinstance(a, list):
            raise
        need(type(e).__name__ == a, "refused with %s, without the option with %s", type(e).__name__, a)
        b = None
    finally:
        for x in logging.root.handlers[:]:
            if x not in h:
                logging.root.removeHandler(x)
                x.close()
    need((b is None) == (not isinstance(a, list)), "the option decides whether the file can be read")
    if b is None:
        return c['file'], a
    need(len(a) == len(b), "%d datasets instead of %d", len(b), len(a))
    for x, y in zip(a, b):
        ds_same(y, x, 'with %s' % kw, rtol=0, atol=0)
        need(list(y.dims) == list(x.dims) and list(y.data_vars) == list(x.data_vars), "order of dimensions or variables")
        for v in x.variables:
            need(y[v].dims == x[v].dims and y[v].dtype == x[v].dtype and dict(y[v].attrs).keys() == dict(x[v].attrs).keys(),
                 "dims, dtype or attributes of %s", v)
    need(open(p2, 'rb').read() == data, "the data file was changed")
    fs = set(os.listdir(os.path.dirname(p2)))
    need(fs <= {ext, ext + '.index', 'd.dolfyn.log'}, "left behind: %s", sorted(fs))
    if kw.get('debug') or kw.get('debug_level', -1) >= 0:
        need('d.dolfyn.log' in fs, "no log file")
    else:
        need('d.dolfyn.log' not in fs, "log file written without debugging")
    return c['file'], len(a)


def run(ex):
    cs = []
    for f in FILES:
        if f.startswith('sig'):
            opts = [dict(debug=True), dict(rebuild_index=True), dict(debug=True, rebuild_index=True)]
        elif f[0] in 'va' and f != 'vmdas':
            opts = [dict(debug=True), dict(do_checksum=True), dict(debug=True, do_checksum=True)]
        else:
            opts = [dict(debug_level=k) for k in (-1, 0, 1, 2)] + [dict(vmdas_search=False), dict(winriver=False)]
        for o in opts:
            more = ['%s:%d' % (k, a) for k in ('flip', 'junk') for a in ((60, 80, 95) if ex.quick else range(8, 100, 4))]
            if f.startswith('sig'):
                more += ['foreign:%d,%d' % (k, i) for k in ((99, 27, 160) if ex.quick else (99, 27, 29, 37, 160)) for i in range(len(starts(FILES[f]())) - 1)]
            for d in ['clean', 'tail', 'trail0'] + more:
                if d not in ('clean', 'trail0') and 'do_checksum' in o:      # may be refused for its damaged block
                    continue
                for w in (None, 2) if d in more else (None, 1, 2, 3, [0, 2], [1, 3], [2, 3]) if not (f.startswith(('rdi', 'vmdas', 'winr'))) else (None, 1, 2, 3):
                    cs.append(dict(file=f, opt=o, dmg=d, win=w))
    ex.cases('options', cs, one, "instruments x diagnostic options x file endings x windows: same data, same files left behind")
