"""C11  TRDI PD0 decode fidelity."""
import itertools
import numpy as np
from .. import enc_rdi as E
from .. import rdi_ref as R, labels
from ..core import need, product
from ..util import same, attr_same, write, read

LEVEL = "exploration"


def one(c):
    rs, ens = R.build(c)
    ds = read(write(b''.join(ens), 'r.pd0'))
    k = R.count_ok(ds, len(ens))
    m = R.compare(ds, rs, c, k)
    fm = E.fixed_model(c.get('cfg', {}))
    for ky, v in fm.items():
        if v is not None:
            need(ky in ds.attrs, "attribute %s missing", ky)
            attr_same(ky, ds.attrs[ky], v)
    for ky in ('bandwidth', 'power_level', 'serialnum'):
        need((ky in ds.attrs) == (ky in fm), "attribute %s for program version %s", ky, fm['prog_ver'])
    nc = fm['n_cells']
    same('range', ds.range.values, fm['bin1_dist_m'] + np.arange(nc) * fm['cell_size'], rtol=1e-5)
    same('beam2inst', ds.beam2inst_orientmat.values, E.beam_matrix(fm['beam_angle'], fm['beam_pattern'] == 'convex'),
         rtol=1e-6)
    rv = ['vel'] + (['vel_sl'] if 'sl' in c else []) + (['vel_bt'] if 'b' in c.get('blk', '') else [])
    need(sorted(ds.attrs['rotate_vars']) == sorted(rv), "rotate_vars %s", ds.attrs['rotate_vars'])
    need(ds.attrs['inst_make'] == 'TRDI' and ds.attrs['inst_type'] == 'ADCP' and ds.attrs['has_imu'] == 0, "make/type")
    if 'v' in c.get('blk', 'vcaps'):
        need(ds.vel.dims == ('dir', 'range', 'time'), "dims %s", ds.vel.dims)
        labels.check(ds, fm['coord_sys'], 4, (['err'], ['err']))
    if 'magvar' in c.get('cfg', {}) and c['cfg']['magvar']:
        attr_same('declination', ds.attrs['declination'], c['cfg']['magvar'] * .01)
        need(ds.attrs['declination_in_orientmat'] == 1, "declination_in_orientmat")
    else:
        need('declination' not in ds.attrs, "declination")
    need(ds.attrs['vel_gps_corrected'] == 0, "vel_gps_corrected")
    if 'sl' in c:
        sc = c.get('slcfg', (10, 60))
        for ky, v in (('surface_layer', 1), ('n_cells_sl', c['sl']), ('cell_size_sl', sc[0] * .01), ('bin1_dist_m_sl', sc[1] * .01)):
            attr_same(ky, round(float(ds.attrs[ky]), 6), round(float(v), 6))
        same('range_sl', ds.range_sl.values, sc[1] * .01 + np.arange(c['sl']) * sc[0] * .01, rtol=1e-5)
    return (k, float(np.nansum(m['number'])), str(sorted(m)))


def last(c):
    rs, ens = R.build(c)
    ds = read(write(b''.join(ens), 'r.pd0'))
    need(ds.time.size == len(ens), "the last ensemble of the file is not returned")
    return 1


def run(ex):
    q = ex.quick
    progs = [(16, 28), (51, 41), (8, 10), (8, 13), (8, 14), (8, 24), (10, 16), (16, 4), (16, 5), (16, 20), (16, 26),
             (16, 27), (50, 40), (44, 3), (47, 14), (66, 1), (77, 0)]
    more = [(4, 0), (5, 0), (5, 30), (5, 54), (5, 55), (5, 60), (6, 5), (9, 12), (11, 1), (14, 10), (14, 20), (19, 3), (23, 0), (23, 5),
            (23, 11), (23, 17), (28, 1), (31, 3), (34, 4), (37, 1), (41, 5), (43, 2), (53, 3), (55, 2), (56, 0), (56, 1), (56, 10),
            (60, 1), (99, 1)]
    ex.cases('version', [dict(n=n, cfg=dict(prog=p, ncells=nc), blk=b, pat=pt) for p in progs
                         for n, nc in ((2, 3), (3, 1), (5, 6)) for b in ('vcap', 'vcapsb', 'vcapbl')
                         for pt in ('mix', 'lo', 'hi', 'ext')], one, "firmware versions x blocks x raw values")
    ex.cases('version_all', [dict(n=n, cfg=dict(prog=p, ncells=nc), blk=b) for p in more for n, nc in ((3, 3), (2, 5))
                             for b in ('vcap', 'vcapsb', 'vcapbl', 'bvl', 'lbvcaps')], one, "further firmware families x blocks")
    ex.cases('double', [dict(n=n, nc=nc, nc2=m, order=o, cfg2=g) for n in (2, 4) for nc in (1, 3, 6) for m in (1, 2, 3, 5, 9) for o in range(3)
                        for g in (dict(), dict(cell=400, frame=3, bin1=999), dict(up=1, angle=0))], double,
             "double-buffered recording: a second profile of its own layout next to the first")
    ex.cases('layout', [dict(n=n, cfg=dict(ncells=nc), blk=b, pat=pt) for n in ex.pick((1, 2, 4, 9), range(1, 21))
                        for nc in ex.pick((1, 2, 5, 30), (1, 2, 3, 5, 8, 13, 30, 60, 128, 255)) for b in ('v', 'vcaps', 'vcaspb', 'vcapl', 'bvcapl', 'sv')
                        for pt in ('mix', 'lo', 'hi', 'ext')], one, "ensembles x cells x blocks x raw values")
    ex.cases('order', [dict(n=3, cfg=dict(ncells=2), blk=''.join(p)) for p in itertools.permutations('vcapb')], one,
             "all orders of the data blocks")
    ex.cases('long', [dict(n=n, cfg=dict(ncells=c)) for n in (255, 256, 257, 300, 515) for c in (1, 3)], one, "hundreds of ensembles")
    ex.cases('frame', list(product(n=(3,), cfg=[dict(frame=f, tilt=t, three=th, binmap=bm, up=u, convex=cx, angle=a, ncells=2, prog=p)
                                                for f in range(4) for t in (0, 1) for th in (0, 1) for bm in (0, 1) for u in (0, 1)
                                                for cx in (0, 1) for a in (0, 1, 2) for p in ((16, 28), (16, 20))],
                                   blk=('vcapb',))), one, "frame, tilt use, 3-beam, bin mapping, facing, convexity, beam angle")
    flds = dict(freq=range(7), beam5=(0, 1), nbeams=(4,), pings=(1, 2, 45, 65535), cell=(1, 25, 800, 65535), blank=(0, 44, 65535),
                mode=(1, 5, 12, 255), corrmin=(0, 255), reps=(1, 255), pgmin=(0, 100), maxerr=(0, 1, 65535),
                tp=((0, 1, 0), (0, 0, 1), (1, 30, 50), (59, 59, 99)), misalign=(0, 1, -1, 17999, -18000), magvar=(0, 1, -1, 1576, -17999),
                ezsrc=(0, 255, 0x7d), ezav=(0, 255), bin1=(0, 1, 171, 65535), pulse=(0, 65535), refcells=((0, 0), (1, 255)),
                ftt=(0, 255), lag=(0, 65535), bandw=(0, 1, 65535), power=(0, 255), serial=(0, 1, 2 ** 31, 2 ** 32 - 1), angle2=(15, 20, 25, 30))
    ex.cases('fields', [dict(n=2, cfg={f: v, 'ncells': 2, 'prog': p}) for f in flds for v in flds[f] for p in ((16, 28), (51, 41), (16, 4))],
             one, "each configuration field at its corner values")
    vals = dict(number=[0, 1, 65535, 65536, 65537, 131072, 200000, 16777215], cs=[0, 1, 99], bit=[0, 1, 256, 65535], c_sound=[1400, 1600, 65535],
                depth=[0, 1, 65535], heading=[0, 1, 17999, 18000, 35999], pitch=[0, 1, -1, 2000, -2000, 8900], roll=[0, 1, -1, 9000, -9000, 17999, -18000],
                sal=[0, 35, 40], temp=[-500, -1, 0, 4000], wait=[(0, 0, 0), (1, 2, 3), (59, 59, 99)], press=[0, 1, 10 ** 6, 2 ** 31, 2 ** 32 - 1],
                pstd=[0, 2 ** 32 - 1], hprstd=[(0, 0, 0), (180, 200, 200), (1, 1, 1)])
    ex.cases('scalars', [dict(n=n, kw={f: v}, cfg=dict(up=u, ncells=2)) for f in vals for v in vals[f] for u in (0, 1) for n in (2, 3)] +
             [dict(n=4, seq={f: [v, w]}, cfg=dict(ncells=2)) for f in vals for v in vals[f] for w in vals[f]], one,
             "each scalar at its corner values and every ordered pair of them in successive ensembles")
    ex.cases('clock', [dict(n=n, t0=t0, dt=dt, kw=dict(cs=cs), cfg=dict(prog=p)) for t0 in (R.T0 - 1, 951782399, 1078012799, 1230767999, 1582934399, 1609459198, 4102444799 - 60)
                       for dt in (1, 60, 3600, 86400) for cs in (0, 1, 50, 99) for n in (3,) for p in ((16, 28), (8, 14))
                       if t0 + 3 * dt < 4102444800], one, "calendar corners x ensemble interval x hundredths, two- and four-digit clocks")
    bad = []
    for nc in (1, 2, 3):
        for mask in range(1, 2 ** (4 * nc) if nc == 1 else 256):
            bad.append(dict(nc=nc, mask=mask))
    ex.cases('bad', bad, badvel, "every pattern of the bad-velocity flag over beams and cells")
    ex.cases('surface', [dict(n=n, cfg=dict(ncells=nc, prog=(16, 28)), sl=s, slcfg=sc, blk=b) for n in (2, 4) for nc in (2, 5)
                         for s in (1, 2, nc) for sc in ((10, 60), (1, 1), (200, 3000)) for b in ('vcapsSVCAPT', 'SVCAPTvcaps', 'SVCAPvcapb')
                         if s <= nc], one, "surface-layer profiles (block order, cells, geometry)")
    for kd in ('bt', 'sl'):
        ex.cases('bad_' + kd, [dict(kind=kd, mask=m) for m in (0, 1, 2, 4, 8, 15, 6)], bad_other,
                 "the same flag in the " + ('bottom-track' if kd == 'bt' else 'surface-layer') + " velocities")
    ex.cases('last', [dict(n=n) for n in (2, 5)], last, "the last ensemble of the file")
    ex.assume("earlier ensembles are followed by the next header; the last ensemble of a file is a listed finding")


def double(c):
    """Ids ending in 01 belong to the second profile; the first one is unaffected."""
    cc = dict(n=c['n'], cfg=dict(ncells=c['nc']), blk='vcap')
    rs, ens = R.recs(cc), []
    for k, r in enumerate(rs):
        r2 = E.rec(k + 40, c['nc2'], r['t'])
        r2.update({x: r[x] for x in r if x not in ('vel', 'corr', 'amp', 'prcnt_gd', 'status')})
        b1 = R.blocks(cc, r)
        b2 = [E.fixed(dict(c['cfg2'], ncells=c['nc2']), 1), E.var(r2, 1), E.cells(257, r2['vel'], 'h'), E.cells(513, r2['corr']),
              E.cells(769, r2['amp']), E.cells(1025, r2['prcnt_gd'])]
        b = {0: b1 + b2, 1: b1[:2] + b2[:2] + [x for p in zip(b1[2:], b2[2:]) for x in p],
             2: b1[:1] + b2[:1] + b1[1:2] + b2[1:2] + b2[2:] + b1[2:]}[c['order']]
        ens.append(E.ensemble(b))
    ds = read(write(b''.join(ens), 'r.pd0'))
    k = R.count_ok(ds, len(ens))
    R.compare(ds, rs, cc, k)
    for ky, v in E.fixed_model(cc['cfg']).items():
        if v is not None:
            attr_same(ky, ds.attrs[ky], v)
    same('range', ds.range.values, 1.71 + np.arange(c['nc']), rtol=1e-5)
    return c['nc'], c['nc2'], k


def bad_other(c):
    """The flag -32768 means the same in every velocity block."""
    sl = c['kind'] == 'sl'
    cc = dict(n=3, cfg=dict(ncells=2), **(dict(sl=1, blk='vcapsSVCAPT') if sl else dict(blk='vcapsb')))
    rs = R.recs(cc)
    for k, r in enumerate(rs):
        v = r['sl']['vel'].ravel() if sl else r['bt']['vel']
        for i in range(4):
            if c['mask'] >> (i + k) % 4 & 1:
                v[i] = -32768
    ds = read(write(b''.join(E.ensemble(R.blocks(cc, r)) for r in rs), 'r.pd0'))
    k = R.count_ok(ds, 4)
    raw = np.array([r['sl']['vel'].ravel() if sl else r['bt']['vel'] for r in rs[:k]], float).T
    g = ds['vel_' + c['kind']].values.reshape(4, -1)
    same('vel_' + c['kind'], g[raw != -32768], raw[raw != -32768] * .001, atol=2e-6)
    f = g[raw == -32768]
    need(not np.any(np.abs(f + 32.768) < 1e-4), "samples flagged bad are velocities of -32.768 m/s")
    need(np.isnan(f).all(), "samples flagged bad are %s", f)
    return c['mask']


def badvel(c):
    nc = c['nc']
    cc = dict(n=3, cfg=dict(ncells=nc))
    rs = R.recs(cc)
    for k, r in enumerate(rs):
        for i in range(4 * nc):
            if c['mask'] >> ((i + k) % 8 if nc > 1 else (i + k) % (4 * nc)) & 1:
                r['vel'].ravel()[i] = -32768
    ens = [E.ensemble(R.blocks(cc, r)) for r in rs]
    ds = read(write(b''.join(ens), 'r.pd0'))
    k = R.count_ok(ds, 4)
    R.compare(ds, rs, cc, k)
    return c['mask']
