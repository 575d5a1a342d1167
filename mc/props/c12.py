"""C12  TRDI navigation data (VMDAS, WinRiver II)."""
import itertools
import numpy as np
from .. import enc_rdi as E
from .. import rdi_ref as R, labels
from ..core import need, product, Fail
from ..util import same, attr_same, write, read

LEVEL = "exploration"
NAV = {'g': (E.gga, 'gga'), 't': (E.vtg, 'vtg'), 'd': (E.dbt, 'dbt'), 'h': (E.hdt, 'hdt')}


def pad(b, n=2):
    return b + b'\0' * n


def navrec(c, k):
    t = c.get('t0', R.T0) + (c['tgps'][k % len(c['tgps'])] if 'tgps' in c else k + .25)
    f = E.vmrec if c['sys'] == 'vm' else E.nmrec
    r = f(k, t, c.get('pat', 'mix'))
    if c['sys'] != 'vm':
        r['t'] = float(np.round(t * 100) / 100)
        if c.get('pat') in ('lo', 'hi', 'ext'):
            for ky, (a, b) in dict(lat=(-89.5, 89.5), lon=(-179.5, 179.5), kn=(0, 1000), trk=(0, 359.5), hdop=(0, 99), elev=(-400, 9000), age=(0, 99)).items():
                r[ky] = {'lo': a, 'hi': b, 'ext': (a, b)[k % 2]}[c['pat']]
        r['fix'], r['nsat'] = r['fix'] % 10, r['nsat'] % 60
    r.update(c.get('nkw', {}))
    for ky, v in c.get('nseq', {}).items():
        r[ky] = v[k % len(v)]
    return r


def build(c):
    rs = R.recs(c)
    ens, nav = [], []
    for k, r in enumerate(rs):
        b = R.blocks(c, r)
        n = navrec(c, k)
        if c['sys'] == 'vm':
            x = [E.vmdas(n)]
            b += x
        else:
            x = [NAV[z][0](n, c.get('new', 100)) for z in c['nav']]
            b += x
        nav.append(n)
        ens.append(E.ensemble(b))
    return rs, nav, ens


def one(c):
    rs, nav, ens = build(c)
    ds = read(write(b''.join(ens), 'v.' + c.get('ext', 'ENR')))
    n = R.count_ok(ds, len(ens))
    kinds = [NAV[z][1] for z in c.get('nav', '')]
    ms = [E.vm_model(x) if c['sys'] == 'vm' else E.nm_model(x, kinds) for x in nav[:n]]
    extra = set(ms[0]) - {'time_gps'} | ({'hdwtime_gps'} if 'time_gps' in ms[0] else set())
    R.compare(ds, rs, c, n, extra)
    if 'time_gps' in ms[0]:
        t = np.array([m['time_gps'] for m in ms])
        # first sample of every distinct gps time, sorted
        u = sorted({x: i for i, x in reversed(list(enumerate(t)))}.items())
        idx = [i for x, i in u]
        same('time_gps', ds.time_gps.values, (t[idx] * 1e6).round().astype('int64').astype('datetime64[us]'), atol=.0011)
        same('hdwtime_gps', ds.hdwtime_gps.values, ds.time.values[idx], atol=1e-6)
    else:
        idx = list(range(n))
    for ky in ms[0]:
        if ky == 'time_gps':
            continue
        i = idx if 'gps' in ky else list(range(n))
        e = np.array([m[ky] for m in ms])[i]
        same(ky, ds[ky].values, e, rtol=1e-6, atol=1e-5 if 'itude' in ky else 1e-4)
        if 'time_gps' in ms[0]:
            need(ds[ky].dims == ('time_gps' if 'gps' in ky else 'time',), "%s has dims %s", ky, ds[ky].dims)
    need(ds.attrs['vel_gps_corrected'] == (c.get('ext') == 'ENX'), "vel_gps_corrected for .%s", c.get('ext', 'ENR'))
    labels.check(ds, 'beam', 4)
    attr_same('sourceprog', ds.attrs['sourceprog'], 'VMDAS' if c['sys'] == 'vm' else 'WinRiver2')
    return (n, len(idx), str(sorted(ms[0])))


def fsattr(c):
    rs, nav, ens = build(c)
    ds = read(write(b''.join(ens), 'v.ENR'))
    need(abs(ds.attrs['fs'] - 1 / c['dt']) < .006, "fs %s, samples are %s s apart", ds.attrs['fs'], c['dt'])
    return 1


def empties(c):
    """Sentences without data ('no fix') leave nan, not the previous value."""
    rs = R.recs(c)
    ens = []
    nav = []
    for k, r in enumerate(rs):
        n = navrec(c, k)
        b = R.blocks(c, r)
        for z in c['nav']:
            if k in c['missing'] and z == c['miss']:
                continue
            b.append(NAV[z][0](n, 100))
        ens.append(E.ensemble(b))
        nav.append(n)
    ds = read(write(b''.join(ens), 'v.PD0'))
    n = R.count_ok(ds, len(ens))
    m = [E.nm_model(x, [NAV[z][1] for z in c['nav']]) for x in nav[:n]]
    ky = {'t': 'speed_over_grnd_gps', 'd': 'dist_nmea', 'h': 'heading_gps'}[c['miss']]
    g = ds[ky].values if ky in ds else None
    for k in range(n):
        if k not in c['missing']:
            need(g is not None and abs(g[k] - m[k][ky]) < 1e-3, "%s[%d]", ky, k)
        elif g is not None:
            need(not g[k] == g[k] or g[k] == 0, "%s[%d] = %r although no sentence was recorded in that ensemble", ky, k, float(g[k]))
    return tuple(c['missing'])


def bottom1(r, g):
    """Bottom track as WinRiver 1 stores it: the position takes the place of the reference layer."""
    x = r['bt']
    lat, lon = int(round(g['lat'] / E.BAM32)), int(round(g['lon'] % 360 / E.BAM32))
    b = E.struct.pack('<HHH6xi', 1536, 0x1111, lon & 0xffff, lat)
    b += E.struct.pack('<4H4h4B4B4B', *x['dist'], *x['vel'], *x['corr'], *x['amp'], *x['pg'])
    b += E.struct.pack('<HH', 0x2222, lon >> 16) + bytes(range(16)) + bytes([g['qual']]) + bytes(5) + bytes(range(7)) + bytes(x['msb']) + bytes(4)
    assert len(b) == 85
    return b


def wr1(c):
    rs = R.recs(dict(c, n=c['n']))
    ens, pos = [], []
    for k, r in enumerate(rs):
        g = dict(lat=c['lat'][k % len(c['lat'])], lon=c['lon'][k % len(c['lon'])], qual=c['qual'][k % len(c['qual'])])
        b = R.blocks(dict(c, blk='vcap'), r)
        w = [E.struct.pack('<HH', i, len(t) + 2) + t for i, t in
             ((8448, b'$SDDBT' + b'x' * 30), (8449, b'$GPGGA,101112.00,' + b'x' * 78), (8450, b'$GPVTG,' + b'y' * 36),
              (8451, b'$GPGSA' + b'z' * 52), (8452, b'$GPHDT' + b'w' * 30)) if i - 8448 in c['ids']]
        bt = [bottom1(r, g)]
        ens.append(E.ensemble(b + (w + bt if c['order'] == 'wb' else bt + w if c['order'] == 'bw' else w[:1] + bt + w[1:])))
        pos.append(g)
    ds = read(write(b''.join(ens), 'w.PD0'))
    n = R.count_ok(ds, len(ens))
    R.compare(ds, rs, dict(c, blk='vcapb'), n, {'latitude_gps', 'longitude_gps'})
    for ky, f in (('latitude_gps', 'lat'), ('longitude_gps', 'lon')):
        e = np.array([np.nan if g['qual'] == 0 or g[f] == 0 else g[f] for g in pos[:n]])
        v = ds[ky].values
        if c.get('skip1'):
            e, v = e[1:], v[1:]
        elif c['order'] == 'bw':
            need(v[0] == e[0] or abs(v[0] - e[0]) < 1e-4 or (v[0] != v[0] and e[0] != e[0]), "the position of the first ensemble is lost")
        same(ky, v, e, atol=1e-5)
    attr_same('sourceprog', ds.attrs['sourceprog'], 'WINRIVER')
    need(ds.attrs['vel_gps_corrected'] == 0, "vel_gps_corrected")
    return n, c['order']


def short(z, sz, new):
    b = (b'$GP' + {'g': b'GGA', 't': b'VTG', 'd': b'DBT', 'h': b'HDT'}[z] + b',' * 40)[:sz]
    return E.nmea({'g': 4, 't': 5, 'd': 6, 'h': 7}[z] + new, b)


MAINVAR = {'g': ('latitude_gps', 'longitude_gps', 'hdop_gps'), 't': ('speed_over_grnd_gps', 'dir_over_grnd_gps'), 'd': ('dist_nmea',),
           'h': ('heading_gps',)}


def nofix(c):
    """Sentences without data, as recorded while the sensor has no fix."""
    rs = R.recs(c)
    ens, nav = [], []
    for k, r in enumerate(rs):
        n = navrec(c, k)
        nav.append(n)
        ens.append(E.ensemble(R.blocks(c, r) + [short(z, c['sz'], c['new']) if z == c['z'] and k in c['at'] else NAV[z][0](n, c['new'])
                                                for z in c['nav']]))
    ds = read(write(b''.join(ens), 'v.PD0'))
    n = R.count_ok(ds, len(ens))
    ms = [E.nm_model(x, [NAV[z][1] for z in c['nav']]) for x in nav[:n]]
    R.compare(ds, rs, c, n, set(ms[0]) - {'time_gps'} | ({'hdwtime_gps'} if 'g' in c['nav'] else set()))
    for z in c['nav']:
        for ky in MAINVAR[z]:
            if z == c['z']:
                continue
            v = ds[ky].values
            if ds[ky].dims == ('time',):
                same(ky, v, np.array([m[ky] for m in ms]), rtol=1e-6, atol=1e-4)
            elif c['z'] != 'g':
                same(ky, v, np.array([m[ky] for m in ms]), rtol=1e-6, atol=1e-4)
    bad = []
    for ky in MAINVAR[c['z']]:
        v = ds[ky].values
        for k in range(n):
            if k not in c['at']:
                m = ms[k][ky]
                need(np.isclose(v, m, rtol=1e-6, atol=1e-4).any() if c['z'] == 'g' else abs(v[k] - m) < 1e-3, "%s of ensemble %d is missing", ky, k)
        if c['z'] == 'g':
            ok = [ms[k][ky] for k in range(n) if k not in c['at']]
            bad += [x for x in v[np.isfinite(v)] if not np.isclose(ok, x, rtol=1e-6, atol=1e-4).any()]
            need(not any(bad), "positions that nobody recorded: %s", bad)
        else:
            last = 0
            for k in range(n):
                if k not in c['at']:
                    last = v[k]
                elif v[k] == v[k]:
                    need(v[k] == last, "%s[%d] = %r without a sentence", ky, k, v[k])
                    bad.append(v[k])
    need(not bad, "an empty sentence is returned as a measurement: %s", bad)
    return c['z'], c['sz'], n


def midnight(c):
    """The sentences tell the time of day only; the day is the one next to the ensemble's clock."""
    n = len(c['tgps'])
    ds = read(write(b''.join(build(c)[2]), 'v.ENR'))
    off = np.sort(ds.time_gps.values.astype('datetime64[ns]').astype('int64') / 1e9) - np.sort([round((c['t0'] + t) * 100) / 100 for t in c['tgps']])[:ds.time_gps.size]
    if (np.abs(off) > 3600).any():
        day = np.abs(ds.time_gps.values - ds.time.values[0]).max() > np.timedelta64(20, 'h')
        need(not day, "the time of a position is a day off")
    return one(c)


def run(ex):
    q = ex.quick
    geo = [([10.5, -45.25], [-60.25, 170.]), ([0., 1e-3, 89.99], [0., 179.999, -179.999]), ([-89.99, 12.], [1e-3, -1e-3])]
    w1 = [dict(n=n, cfg=dict(ncells=nc, prog=p), order=o, ids=ids, lat=la, lon=lo, qual=ql) for n in (2, 3) for nc in (1, 4)
          for p in ((10, 16), (16, 4), (16, 20), (16, 28)) for o in ('wb', 'bw', 'wbw') for ids in ([1, 2], [1], [0, 1, 2, 3, 4])
          for la, lo in geo for ql in ([1], [0], [1, 0, 2], [0, 1])]
    ex.cases('winriver1', [dict(c, skip1=1) if c['order'] == 'bw' else c for c in w1], wr1,
             "WinRiver 1: positions in the bottom-track record x order of its blocks x firmware x corner positions x fix quality")
    ex.cases('winriver1_first', [dict(n=2, cfg=dict(ncells=2, prog=(10, 16)), order='bw', ids=[1], lat=[10.5], lon=[20.25], qual=[1])], wr1,
             "the first ensemble when the bottom track comes before the block that names the program")
    ats = [list(x) for j in range(5) for x in itertools.combinations(range(4), j)]
    sub = dict(g=(8, 12, 30, 43), t=(8, 10, 22), d=(7, 9, 20), h=(7, 8, 14))
    ns = [dict(n=4, sys='nm', cfg=dict(ncells=2), nav=nv, z=z, sz=sz, at=a, new=w) for z in sub for sz in sub[z] for a in ats
          for nv in ('gtdh', 'htdg', z) for w in (0, 100)]
    ex.cases('nofix', ns, nofix, "empty sentences in every subset of four ensembles x kind x length x order of the sentences")
    P = ('mix', 'lo', 'hi', 'ext')
    ex.cases('vmdas', [dict(sys='vm', n=n, cfg=dict(ncells=nc, prog=p), blk=b, pat=pt, ext=e) for n in (1, 2, 5) for nc in (2, 6)
                       for p in ((16, 28), (8, 14), (50, 40)) for b in ('vcap', 'vcapsb') for pt in P for e in ('ENR', 'ENS', 'ENX', 'LTA')[:3]
                       if p[0] == 16 or pt == 'mix' and e == 'ENR'], one, "VMDAS navigation blocks x layout x raw values x file extension")
    F = dict(lat=(0, 1, -1, 2 ** 29, -2 ** 30), lon=(0, 1, -1, 2 ** 30, -2 ** 31, 2 ** 31 - 1), spd=(0, 1, 65535), dir=(0, 1, 32768, 65535),
             smg=(0, 65535), dmg=(0, 32768, 65535), flags=(0, 1, 2, 5, 85, 127), pitch=(0, 32768), roll=(1, 65535), heading=(0, 32768, 65535),
             off=(0, 1, -1, 999, -3600000, 2 ** 31 - 1, -2 ** 31))
    ex.cases('vmdas_fields', [dict(sys='vm', n=3, nseq={f: [v, w]}) for f in F for v in F[f] for w in F[f]], one,
             "every ordered pair of corner values of each navigation field")
    offs = (0.25, 1.25, 2.25, 3.25)
    ex.cases('duplicates', [dict(sys=s, n=4, tgps=list(t), nav=nv) for s, nv in (('vm', ''), ('nm', 'gt'), ('nm', 'gdh')) for t in itertools.product(offs, repeat=4)], one,
             "every pattern of repeated / out-of-order position times over four ensembles")
    subs = [s for k in (1, 2, 3, 4) for s in itertools.permutations('gtdh', k)]
    ex.cases('winriver', [dict(sys='nm', n=n, nav=''.join(s), pat=pt, new=nw, cfg=dict(ncells=3)) for s in subs for n in (1, 3) for pt in P for nw in (0, 100)],
             one, "every subset and order of navigation sentences x values")
    ex.cases('winriver_layout', [dict(sys='nm', n=4, nav=s, blk=b, cfg=dict(ncells=nc, prog=p)) for s in ('gtdh', 'g', 'dh') for b in ('vcap', 'vcapsb', 'vcapl')
                                 for nc in (1, 4, 9) for p in ((16, 28), (16, 5), (44, 3), (10, 16), (8, 14), (5, 1), (50, 40))], one, "navigation x profile layout x firmware")
    ex.cases('daytime', [dict(sys=s, n=3, nav='g', t0=t0, tgps=[0.01, 0.5, 59.99]) for s in ('vm', 'nm') for t0 in
                         (1593907200, 1593907200 + 86400 - 61, 1609459200 - 61, 951782400 + 3600 * 12 + 59 * 60)], one,
             "position times over the day")
    ex.cases('midnight', [dict(sys='nm', n=4, nav='g', t0=86400 * 18450 - s, tgps=[d, 1 + d, 2 + d, 3 + d], cfg=dict(prog=p)) for s in (1, 2, 30, -1, 43200)
                          for d in (-25, -1.25, .25, 1.25, 40) for p in ((16, 28), (8, 14))], midnight, "clocks on either side of midnight")
    ex.cases('missing', [dict(sys='nm', n=4, nav='g' + m, miss=m, missing=list(ms)) for m in 'tdh' for j in (1, 2, 3)
                         for ms in itertools.combinations(range(4), j)], empties, "sentences absent from some ensembles")
    ex.cases('fs', [dict(sys='vm', n=4, dt=dt) for dt in (1, 2, 10)], fsattr, "sampling rate of VMDAS files")
    ex.assume("one sentence of each kind per ensemble")
