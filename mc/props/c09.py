"""C09  Nortek AWAC decode fidelity."""
import numpy as np
from .. import enc_nortek as N
from .. import nortek_ref as R, labels
from ..core import need, product
from ..util import same, attr_same, write, read

LEVEL = "exploration"


def one(c):
    h, b = R.awac(c)
    w = c.get('win')
    ds = read(write(h + b''.join(x[1] for x in b), 'a.wpr'), nens=tuple(w) if isinstance(w, list) else w)
    m = R.awac_model(c, b)
    lo, hi = (w if isinstance(w, list) else (0, w))
    k = R.awac_compare(ds, m, lo, hi)
    a = ds.attrs
    attr_same('coord_sys', a['coord_sys'], ['earth', 'inst', 'beam'][c.get('cy', 0)])
    attr_same('fs', a['fs'], 1. / c.get('avg', c.get('dt', 60)))
    need(a['rotate_vars'] == ['vel'] or list(a['rotate_vars']) == ['vel'], "rotate_vars")
    labels.check(ds, a['coord_sys'], 3)
    need(a['inst_model'] == 'AWAC' and a['inst_type'] == 'ADCP', "model/type")
    need(ds.vel.dims == ('dir', 'range', 'time') and ds.amp.dims == ('beam', 'range', 'time'), "dims %s", ds.vel.dims)
    same('beam2inst_orientmat', ds.beam2inst_orientmat.values,
         (np.array(c['tm']).reshape(3, 3) if 'tm' in c else N.TM3) / 4096)
    ca = np.cos(np.radians(25))
    cs = round(c.get('bl', 256) / 256 * R.CS_COEF[c.get('freq', 1000)] * ca, 2)
    bd = round(c.get('blank', 50) * .0229 * ca - cs, 2)
    attr_same('cell_size', a['cell_size'], cs)
    attr_same('blank_dist', a['blank_dist'], bd)
    same('range', ds.range.values, cs * (np.arange(c['nbins']) + 1) + bd, rtol=1e-5, atol=1e-5)
    return (k, float(np.nansum(ds.vel.values)), float(ds.range.values[-1]))


def waves(c):
    h, b = R.awac(c)
    # a wave header and wave samples between profiles
    x = N.blk(0x31, N.clock(R.T0) + bytes(48)) + b''.join(N.blk(c['id'], bytes(18)) for _ in range(3))
    ds = read(write(h + b''.join((x if i == c['at'] else b'') + z[1] for i, z in enumerate(b)), 'a.wpr'))
    R.awac_compare(ds, R.awac_model(c, b))
    return 1


def signed(c):
    h, b = R.awac(c)
    ds = read(write(h + b''.join(x[1] for x in b), 'a.wpr'))
    m = R.awac_model(c, b)
    same(c['ky'], ds[c['ky']].values, m[c['ky']], rtol=1e-5)
    return 1


def run(ex):
    q = ex.quick
    base = list(product(n=(2, 3, 5, 8) if q else range(2, 20), nbins=(1, 2, 3, 8, 20) if q else range(1, 31), cy=(0, 1, 2),
                        pat=('mix', 'lo', 'hi', 'ext')))
    ex.cases('layout', base, one, "profiles x bins x frame x raw values at the ends of their range")
    ex.cases('long', [dict(n=n, nbins=k, cy=0) for n in (255, 256, 257, 300, 515) for k in (1, 3)], one, "hundreds of profiles")
    ex.cases('single', [dict(n=1, nbins=k, cy=cy) for k in (1, 2, 5, 20) for cy in (0, 1, 2)], one, "one profile")
    ex.cases('geometry', list(product(n=(2,), nbins=(1, 4, 20), freq=(400, 600, 1000, 2000), bl=(64, 256, 1024, 2048),
                                      blank=(10, 50, 91))), one, "frequency x cell size x blanking")
    ex.cases('rate', [dict(n=n, nbins=2, dt=dt, t0=t0) for n in (2, 5) for dt in (1, 2, 60, 600, 3600)
                      for t0 in (R.T0 - 1, 951782400 + 86390, 1582934395, 1735689590, 1262304000, 2208988790)], one,
             "averaging interval x calendar corner")
    ex.cases('window', [dict(n=n, nbins=b, win=w) for n in (4, 7) for b in (2, 7, 3) for w in
                        list(range(1, n + 1)) + [[i, j] for i in range(n) for j in range(i + 1, n + 1)]], one,
             "every window")
    tms = [N.TM3.ravel().tolist(), [4096, 0, 0, 0, 4096, 0, 0, 0, 4096], [32767, -32768, 1, -1, 0, 2, 3, -3, 4000]]
    ex.cases('matrix', [dict(n=n, nbins=b, tm=t) for t in tms for n in (2, 3, 4) for b in (1, 3, 9)], one, "beam matrices")
    ex.cases('waves', [dict(n=4, nbins=3, id=i, at=a) for i in (0x30, 0x36) for a in (0, 1, 3)], waves,
             "wave records between profiles")
    ex.cases('negative_tilt', [dict(n=3, nbins=2, ky=ky, kw={ky: v}) for ky in ('pitch', 'roll') for v in (-1, -300)], signed_enc,
             "tilt angles below zero")


def signed_enc(c):
    kw = {k: v & 0xFFFF if v < 0 else v for k, v in c['kw'].items()}
    h, b = R.awac(dict(c, kw=c['kw']))
    return signed(c)
