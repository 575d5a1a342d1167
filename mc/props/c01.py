"""C01  Signature (AD2CP) decode fidelity."""
import itertools
import json
import numpy as np
from .. import enc_ad2cp as E, labels
from ..core import need, product, Fail
from ..nortek_ref import omat
from ..util import same, angle_same, attr_same, write, read, dt64

LEVEL = "exploration"
TAG = {21: '', 22: '_avg', 23: '_bt', 24: '_b5', 28: '_echo', 26: 'raw', 31: 'raw_avg'}
RAW = (26, 31)            # raw-altimeter records of bursts and averages
AVG = ('c_sound', 'temp', 'pressure', 'temp_press', 'temp_clock', 'batt')


def build(c):
    """case -> list of ensembles (lists of raw records)."""
    out = []
    for e in range(c.get('n', 3)):
        ens = []
        en = c['eseq'][e] if 'eseq' in c else e + 1
        for k, rid in enumerate(c['lay']):
            if rid in RAW and 'alt' in c and not c['alt'][e]:
                continue
            fl = list(c['fl'])
            kw = dict(pat=c.get('pat', 'mix'), cy=c.get('cy', 'beam'), t=c.get('t0', 1577836800.0) + e * .125 + k * .001)
            if rid == 23:
                r = E.rec(23, en, flags=c.get('btfl', ['vel', 'dist', 'fom']), nb=4, nc=0, **kw)
            elif rid == 24:
                kw['cy'] = 'beam'
                r = E.rec(24, en, flags=[f for f in fl if f in ('vel', 'amp', 'corr')], nb=1, nc=c.get('nc24', c['nc']), **kw)
            elif rid == 28:
                r = E.rec(28, en, flags=['echo'] + (['ahrs'] if 'ahrs' in fl else []) + c.get('efl', []), nb=1, nc=c.get('nce', 5), **kw)
            elif rid in RAW:
                kw['cy'] = 'beam'
                r = E.rec(rid, en, flags=['altraw', 'le', 'ast'], nb=1, nc=0, **kw)
            else:
                r = E.rec(rid, en, flags=fl, nb=4, nc=c['nc'], **kw)
            if rid in (21, 22, 26, 31) and 'astat' in c:
                r['le'] = r['le'][:2] + (c['astat'],)
            for ky in ('vscale', 'status', 'status0', 'cell_size', 'blank', 'ambig', 'power', 'serial', 'nom_corr', 'valid'):
                if ky in c and (rid not in RAW or ky not in ('vscale', 'status', 'status0')):
                    r[ky] = c[ky][(e + k) % len(c[ky])] if isinstance(c[ky], list) else c[ky]
            ens.append(r)
        out.append(ens)
    return out


ANGLES = ('heading', 'pitch', 'roll')


def check_main(ds, ens, lay):
    """Every recorded sample appears, physically scaled, in record order."""
    n = len(ens)
    cmpd = 0
    cols = {rid: [E.phys(r) for es in ens for r in es if r['id'] == rid] for rid in lay}
    for rid in lay:
        tag, ph = TAG[rid], cols[rid]
        need('time' + ('_alt' + tag if rid in RAW else tag) in ds.coords, "time coordinate of record %d missing", rid)
        same('time' + tag, ds['time' + ('_alt' + tag if rid in RAW else tag)].values, dt64([p['time'] for p in ph]), atol=2e-6)
        for ky in ph[0]:
            if ky in ('time', 'percent_good'):
                continue
            v = np.array([p[ky] for p in ph], float)
            v = np.moveaxis(v, 0, -1)
            nm = ky + tag
            if rid in RAW and not ky.endswith('_alt'):
                continue
            if ky == 'status_alt' and (26 in lay if rid in (21, 26) else 31 in lay):      # becomes attributes
                continue
            if ky == 'om':
                nm = 'orientmat' + tag
                if rid == 22 and 21 not in lay:
                    nm = 'orientmat'
                v = np.moveaxis(np.array([p['om'].T for p in ph]), 0, -1)
            if rid == 24 and 21 in lay and (ky in AVG or ky in ANGLES):
                continue
            if rid == 21 and 24 in lay and (ky in AVG or ky in ANGLES):
                w = np.array([p[ky] for p in cols[24]], float)
                if ky in AVG:
                    v = (v + w) / 2
                else:
                    z = np.exp(1j * np.radians(v)) + np.exp(1j * np.radians(w))
                    ok = np.abs(z) > 1e-3
                    need(nm in ds, "%s missing", nm)
                    angle_same(nm, ds[nm].values[ok], np.degrees(np.angle(z))[ok])
                    cmpd += 1
                    continue
            if ky == 'om' and nm != 'orientmat':
                # the direction of a secondary matrix is not claimed
                g = ds[nm].values
                need(g.shape == v.shape, "%s: shape %s", nm, g.shape)
                if np.allclose(g, np.swapaxes(v, 0, 1), atol=1e-6):
                    continue
            if ky == 'echo':
                nm = 'echo'
            if rid == 24 and v.ndim == 3:
                v = v[0]
            need(nm in ds.data_vars, "variable %s is missing", nm)
            g = ds[nm].values
            need(g.shape[-1] == len(ph), "%s: %d samples for %d records", nm, g.shape[-1], len(ph))
            if ky in ANGLES:
                angle_same(nm, g, v, tol=1e-3)
            elif nm == 'mag_bt' and np.allclose(g, 10 * v, rtol=2e-6, atol=1e-6):
                pass                     # the listed finding: see bt_mag
            elif ky in ('status', 'error'):
                need(g.dtype.kind in 'iu' and np.array_equal(g, v.astype('int64')), "%s is %s, recorded %s", nm, g, v)
            else:
                same(nm, g, v, rtol=2e-6, atol=1e-6)
            cmpd += v.size
        if rid not in RAW:
            same('ensemble' + tag, ds['ensemble' + tag].values, np.arange(1, n + 1))
    return cmpd


def check_meta(ds, c, ens, lay):
    r0 = {r['id']: r for r in ens[0]}
    a = ds.attrs
    main = r0.get(21, r0.get(22))
    attr_same('coord_sys', a['coord_sys'], {'beam': 'beam', 'XYZ': 'inst', 'ENU': 'earth'}[main['cy']])
    tm = E.tmat(4, c.get('theta', 25))
    same('beam2inst_orientmat', ds['beam2inst_orientmat'].values, tm, rtol=1e-5)
    if 'ahrs' not in main['flags']:
        tg = '' if 21 in r0 else '_avg'
        same('orientmat', ds['orientmat'].values, omat(ds['heading' + tg].values, ds['pitch' + tg].values,
                                                       ds['roll' + tg].values, 0), rtol=1e-4, atol=2e-5)
    attr_same('beam_angle', a['beam_angle'], c.get('theta', 25))
    attr_same('inst_model', a['inst_model'], c.get('model', 'Signature1000'))
    attr_same('inst_make', a['inst_make'], 'Nortek')
    attr_same('inst_type', a['inst_type'], 'ADCP')
    config_attrs(a, ens, lay)
    labels.check(ds, {'XYZ': 'inst', 'ENU': 'earth'}.get(main['cy'], 'beam'), 4, (['Z1', 'Z2'], ['U1', 'U2']))
    for rid in lay:
        if rid in RAW:
            continue
        r, tag = r0[rid], TAG[rid]
        attr_same('SerialNum' + tag, a['SerialNum' + tag], r['serial'])
        attr_same('cell_size' + tag, a['cell_size' + tag], r['cell_size'] * .001)
        if rid in (21, 22, 24):
            attr_same('n_cells' + tag, a['n_cells' + tag], r['nc'])
            attr_same('n_beams' + tag, a['n_beams' + tag], r['nb'])
            if 'vel' in r['flags']:
                same('range' + tag, ds['range' + tag].values,
                     r['blank'] * .01 + r['cell_size'] * .001 * (np.arange(r['nc']) + 1), rtol=1e-9)
        if rid == 28:
            same('range_echo', ds['range_echo'].values,
                 r['blank'] * .001 + r['cell_size'] * .001 * (np.arange(r['nc']) + 1), rtol=1e-9)
    if 21 not in lay:
        attr_same('fs', a['fs'], c.get('miavg', 2))
        attr_same('bandwidth', a['bandwidth'].strip('"'), 'BROAD')
        need(any(np.array_equal(ds.time.values, ds['time' + t].values) for t in ('_avg', '_bt') if 'time' + t in ds), "time of an averaged profile")
        attr_same('avg_interval_sec', a['avg_interval_sec'], c.get('ai', 60))
    if 21 in lay:
        attr_same('fs', a['fs'], c.get('sr', 8))
        dims = {'vel': ('dir', 'range', 'time'), 'amp': ('beam', 'range', 'time'), 'corr': ('beam', 'range', 'time')}
        for ky, d in dims.items():
            if ky in main['flags']:
                need(ds[ky].dims == d, "dims of %s are %s", ky, ds[ky].dims)
    cfgs = json.loads(a['burst_config' + TAG[main['id']]])
    for f in ('vel', 'amp', 'corr', 'le', 'ast', 'ahrs', 'std', 'altraw', 'echo'):
        need(cfgs[f] == (f in main['flags']), "burst_config.%s = %s", f, cfgs[f])
    need(a['has_imu'] == int('ahrs' in main['flags']), "has_imu = %s", a['has_imu'])
    # vector variables that must follow later frame changes
    rv = set(a['rotate_vars'])
    exp = {'vel' + TAG[rid] for rid in lay if rid in (21, 22, 23) and 'vel' in r0[rid]['flags']}
    for rid in lay:
        if rid not in RAW:
            exp |= {'accel' + TAG[rid], 'mag' + TAG[rid]}
            if 'ahrs' in r0[rid]['flags']:
                exp.add('angrt' + TAG[rid])
    if 24 in lay:
        exp -= {'vel_b5'}
    need(rv == exp, "rotate_vars = %s, expected %s", sorted(rv), sorted(exp))
    # status word
    st = main['status']
    o = {0: 'horizontal', 1: 'horizontal', 2: 'horizontal', 3: 'horizontal', 4: 'up', 5: 'down', 7: 'AHRS'}
    attr_same('orientation', a['orientation'], o[st >> 25 & 7])
    attr_same('orient_status', a['orient_status'], {0: 'fixed', 1: 'auto_UD', 3: 'AHRS-3D'}[st >> 22 & 7])
    attr_same('wakeup_state', a['wakeup_state'],
              {0: 'bad power', 1: 'power on', 2: 'break', 3: 'clock'}[st >> 28 & 15])
    for ky, b in (('low_volt_skip', 17), ('active_config', 16), ('telemetry_data', 11), ('boost_running', 10)):
        same(ky, ds[ky].values, [st >> b & 1] * len(ens))


def config_attrs(a, ens, lay):
    """What each kind of record says about the instrument's configuration."""
    for rid in lay:
        R, tag = [r for es in ens for r in es if r['id'] == rid], {26: '_alt', 31: '_alt_avg'}.get(rid, TAG[rid])
        r = R[0]
        for ky, raw, k in (('SerialNum', 'serial', 1), ('cell_size', 'cell_size', .001), ('nominal_corr', 'nom_corr', 1),
                           ('blank_dist', 'blank', .001 if rid == 28 else .01), ('power_level_dB', 'power', 1), ('ambig_vel', 'ambig', .001)):
            vals = [x[raw] for x in R]
            if len(set(vals)) == 1:
                same(ky + tag, np.float64(a[ky + tag]), np.float64(vals[0] * k), rtol=1e-6, atol=0)
        attr_same('n_cells' + tag, a['n_cells' + tag], r['nc'])
        if rid != 28:
            attr_same('n_beams' + tag, a['n_beams' + tag], r['nb'])
            if 'coord_sys_axes' + tag in a:
                attr_same('coord_sys_axes' + tag, a['coord_sys_axes' + tag], r['cy'])
        g = json.loads(a['burst_config' + tag])
        if rid != 23:                                # what a bottom-track configuration says: see bt_config
            for f in ('vel', 'amp', 'corr', 'le', 'ast', 'ahrs', 'std', 'altraw', 'echo'):
                need(g[f] == (f in r['flags']), "burst_config%s: %s = %s", tag, f, g[f])
        for b, f in enumerate(('press_valid', 'temp_valid', 'compass_valid', 'tilt_valid')):
            need(g[f] is bool(r.get('valid', 15) >> b & 1), "burst_config%s: %s = %s", tag, f, g[f])
    for ids, tg in (((21, 26), ''), ((22, 31), '_avg')):
        st = {x['le'][2] for es in ens for x in es if x['id'] in ids}
        if ids[1] in lay and len(st) == 1:
            st = st.pop()
            attr_same('tilt_over_5deg' + tg, a['tilt_over_5deg' + tg], st & 1)
            attr_same('tilt_over_10deg' + tg, a['tilt_over_10deg' + tg], st >> 1 & 1)
            attr_same('multibeam_alt' + tg, a['multibeam_alt' + tg], st >> 2 & 1)
            attr_same('power_level_alt' + tg, a['power_level_alt' + tg], ['high', 'med-high', 'med-low', 'low'][st >> 7 & 7])
    s0 = [x['status0'] for es in ens for x in es if x['id'] == (21 if 21 in lay else 22)]
    for b, ky in enumerate(('proc_idle_less_3pct', 'proc_idle_less_6pct', 'proc_idle_less_12pct')):
        if any(x >> 15 for x in s0):
            if len(set(s0)) == 1:
                attr_same(ky, a[ky], s0[0] >> b & 1)
        else:
            need(ky not in a, "%s was not recorded", ky)


def bt_config(c):
    """The bottom-track record says which blocks it holds in its own bits."""
    ens = build(c)
    ds = read(write(E.file_bytes([r for es in ens for r in es]), 's.ad2cp'))
    g = json.loads(ds.attrs['burst_config_bt'])
    r = [x for x in ens[0] if x['id'] == 23][0]
    for f in ('vel', 'dist', 'fom', 'ahrs'):
        need(g.get(f) == (f in r['flags']), "the bits of a bottom-track configuration are read as those of a burst: %s = %s", f, g.get(f))
    return sorted(g)


def echo_extra(c):
    """Echosounder records that hold other data too: refused, or read right."""
    ens = build(c)
    p = write(E.file_bytes([r for es in ens for r in es]), 's.ad2cp')
    try:
        ds = read(p)
    except Exception as e:
        return type(e).__name__
    same('echo', ds['echo_echo' if 'echo_echo' in ds else 'echo'].values, np.array([r['echo'] for es in ens for r in es if r['id'] == 28]).T * .01, rtol=2e-6, atol=1e-4)


def bt_mag(c):
    """The same sensor in the same unit, whichever record reports it."""
    ens = build(c)
    ds = read(write(E.file_bytes([r for es in ens for r in es]), 's.ad2cp'))
    w = np.array([E.phys(r)['mag'] for es in ens for r in es if r['id'] == 23]).T
    g = ds['mag_bt'].values
    need(ds['mag_bt'].attrs.get('units') == ds['mag' if 21 in c['lay'] else 'mag_avg'].attrs.get('units'), "other unit")
    if not np.allclose(g, w, rtol=2e-6, atol=1e-6):
        need(not np.allclose(g, 10 * w, rtol=2e-6, atol=1e-6), "mag_bt is ten times the field that the other records report in the same unit")
        same('mag_bt', g, w, rtol=2e-6, atol=1e-6)
    return g.size


def percent_good(c):
    ens = build(c)
    ds = read(write(E.file_bytes([r for es in ens for r in es]), 's.ad2cp'))
    check_main(ds, ens, c['lay'])
    rid = c['lay'][0]
    w = np.array([r['pg'] for es in ens for r in es if r['id'] == rid]).T
    nm = [v for v in ds.data_vars if 'percent_good' in v or 'prcnt_gd' in v]
    need(nm, "the percentage of good pings is recorded but not in the dataset")
    same(nm[0], ds[nm[0]].values, w)
    return w.size


def blank_mm(c):
    """Bit 1 of the status word: the blanking distance is in cm; clear: in mm."""
    ens = build(c)
    ds = read(write(E.file_bytes([r for es in ens for r in es]), 's.ad2cp'))
    check_main(ds, ens, c['lay'])
    bad = 0
    for rid in c['lay']:
        r = [x for x in ens[0] if x['id'] == rid][0]
        cells = r['cell_size'] * .001 * (np.arange(r['nc']) + 1)
        k = r['blank'] * (.01 if c['status'] >> 1 & 1 else .001)
        g = ds['range' + TAG[rid]].values
        if not np.allclose(g, k + cells, rtol=1e-9):
            bad += 1
            same('range' + TAG[rid], g, 10 * k + cells, rtol=1e-9)
    need(not bad, "a blanking distance recorded in mm is read as cm")
    return bad


def one(c):
    ens = build(c)
    recs = [r for es in ens for r in es]
    kw = {k: c[k] for k in ('theta', 'model', 'sr', 'miavg', 'ai') if k in c}
    ds = read(write(E.file_bytes(recs, **kw), 's.ad2cp'))
    k = check_main(ds, ens, c['lay'])
    check_meta(ds, c, ens, c['lay'])
    return (k, tuple(sorted(ds.variables)), float(np.nansum(ds['c_sound' if 'c_sound' in ds else 'c_sound_avg'].values)))


def header(c):
    """The configuration text at the head of the file is kept, line by line."""
    recs = [r for es in build(dict(lay=[21], fl=['vel'], nc=1, n=2)) for r in es]
    ds = read(write(E.file_bytes(recs, extra=[','.join(x) for x in c['extra']]), 's.ad2cp'))
    got = json.loads(ds.attrs['filehead_config'])
    exp = {}
    for x in c['extra']:
        if not x[0].startswith('GET'):
            exp.setdefault(x[0], []).append(','.join(x[1:]))
    for k, v in exp.items():
        attr_same('filehead_config: ' + k, got.get(k), v[0] if len(v) == 1 else v)
    names = {'ID', 'PLAN', 'AVG', 'BURST', 'XFAVG', 'XFBURST', 'BEAMCFGLIST'} | set(exp)
    cut = []
    for x in c['extra']:
        if x[0].startswith('GET'):
            nm = x[0][3:]
            if nm not in got and nm.lstrip('GET') in got:
                nm = nm.lstrip('GET')
                cut.append(x[0])
            names.add(nm)
            need(nm in got, "filehead_config has no %s (from the line %s)", nm, x[0])
            e = {}
            for i in x[1:]:
                k, v = i.split('=')
                e[k] = v if v[:1] == '"' or not v else float(v)
            g = got[nm]
            need(list(g) == list(e) and all(g[k] == e[k] for k in e), "%s is %s, recorded %s", x[0], g, x[1:])
    need(set(got) == names, "filehead_config has %s", sorted(set(got) ^ names))
    need(not cut, "the leading letters E, G, T of the name of a configuration line are lost: %s", cut)
    return sorted(got)


def run(ex):
    ALL = ['vel', 'amp', 'corr']
    lays = [[21], [21, 24], [21, 23], [21, 28], [21, 24, 23], [21, 24, 28], [21, 24, 23, 28], [21, 23, 28]]
    opt = [[]] + [[f] for f in ('le', 'ast', 'ahrs', 'std')] + [['le', 'ast'], ['le', 'ast', 'ahrs'],
                                                              ['le', 'ast', 'ahrs', 'std']]
    core = [['vel'], ['vel', 'amp'], ['vel', 'corr'], ALL]
    # 1. every record layout x every optional-block combination x shape x frame
    ex.cases('layout', [dict(lay=l, fl=f + o, nc=nc, n=n, cy=cy)
                        for l in lays for o in opt for f in core
                        for nc in ex.pick((1, 3), (1, 2, 3, 4, 5)) for n in ex.pick((3,), (1, 2, 3, 5))
                        for cy in ex.pick(('beam',), ('beam', 'XYZ', 'ENU'))], one,
             "record sequences x optional data blocks x cells x ensembles x frame")
    ex.cases('long', [dict(lay=l, fl=ALL + o, nc=2, n=n, cy='beam') for l in ([21], [21, 24, 23], [22]) for o in ([], ['ahrs', 'le', 'ast']) for n in (255, 257, 300)], one, "hundreds of ensembles")
    # 2. averaged profiles
    ex.cases('average', [dict(lay=l, fl=f + a + o, nc=nc, n=n, cy=cy)
                         for l in ([22], [22, 23]) for f in core for a in (['ahrs'], [])
                         for o in ([], ['std'], ['le'], ['le', 'ast'])
                         for nc in ex.pick((1, 4), (1, 2, 3, 4)) for n in ex.pick((2, 3), (1, 2, 3, 5))
                         for cy in ('beam', 'XYZ', 'ENU')], one,
             "averaged-profile records x optional blocks x shape x frame")
    # 3. values at the ends of the representable range and velocity scaling
    ex.cases('values', [dict(lay=l, fl=ALL + ['le', 'ast', 'ahrs', 'std'], nc=2, n=3, pat=p, vscale=vs, cy=cy)
                        for l in ([21], [21, 24], [21, 23], [21, 28]) for p in ('lo', 'hi', 'ext', 'mix')
                        for vs in (-5, -4, -3, -2, -1, 0) for cy in ('beam', 'XYZ', 'ENU')], one,
             "raw-value patterns (min, max, extremes, spread) x velocity scale exponent")
    ex.cases('values_avg', [dict(lay=[22], fl=ALL + ['ahrs'], nc=2, n=2, pat=p, vscale=vs, cy=cy)
                            for p in ('lo', 'hi', 'ext', 'mix') for vs in (-4, -3, -2) for cy in ('beam', 'XYZ', 'ENU')],
             one, "same for averaged profiles")
    # 3b. the scaling exponent belongs to a record, not to a file
    ex.cases('scale_changes', [dict(lay=l, fl=ALL + o, nc=nc, n=len(q), pat='mix', vscale=list(q), cy='beam')
                               for l in ([21], [21, 24], [21, 23], [21, 24, 23, 28], [22], [22, 23])
                               for o in (['ahrs'],) for nc in ex.pick((1,), (1, 3))
                               for m in ex.pick((2, 3), (2, 3, 4)) for q in itertools.product((-5, -4, -3, -2), repeat=m)
                               if len(set(q)) > 1], one,
             "every sequence of velocity exponents over the records of a file")
    # 4. status word: every orientation, wake-up, auto-orientation and flag bit
    st = [(o << 25) | (a << 22) | (w << 28) | (b << 16) | (t << 10) | 2
          for o in (0, 1, 2, 3, 4, 5, 7) for a in (0, 1, 3) for w in (0, 1, 2, 3) for b in range(4) for t in range(4)]
    ex.cases('status', [dict(lay=[21], fl=['vel'], nc=1, n=2, status=s) for s in st], one,
             "every combination of the decoded status-word fields")
    # 5. geometry
    ex.cases('geometry', [dict(lay=l, fl=ALL, nc=nc, n=2, cell_size=cs, blank=b, theta=th, ambig=am)
                          for l in ([21], [21, 24], [21, 28]) for nc in (1, 2, 5) for cs in (20, 500, 1000, 4000)
                          for b in (10, 50, 500) for th in (20, 25) for am in (2500,)], one,
             "cell size x blanking x beam angle")
    # 6. raw altimeter records in every ensemble
    ex.cases('altraw', [dict(lay=l, fl=ALL + ['le', 'ast'] + o, nc=nc, n=n, pat=p)
                        for l in ([21, 26], [21, 24, 26], [26, 21], [21, 26, 24]) for o in ([], ['ahrs'])
                        for nc in (1, 3) for n in (2, 3, 4) for p in ('mix', 'lo', 'hi')], one_altraw,
             "raw-altimeter records x position in the ensemble")
    ex.cases('altraw_some', [dict(lay=l, fl=ALL + ['le', 'ast'], nc=1, n=n, alt=list(q))
                             for l in ([21, 26], [21, 24, 26], [26, 21], [21, 26, 24]) for n in ex.pick((3, 5), (3, 4, 5, 7))
                             for q in itertools.product((0, 1), repeat=n)
                             if any(q) and usual_last(q)], one_altraw,
             "every set of ensembles that hold a raw-altimeter record")
    ex.cases('altraw_avg', [dict(lay=l, fl=ALL + ['le', 'ast'] + o, nc=nc, n=n, pat=p, cy=cy)
                            for l in ([22, 31], [22, 23, 31], [31, 22]) for o in ([], ['ahrs'], ['std'])
                            for nc in (1, 3) for n in (2, 3, 4) for p in ('mix', 'lo', 'hi') for cy in ('beam', 'ENU')], one_altraw,
             "raw-altimeter records of averaged profiles")
    ex.cases('altraw_avg_some', [dict(lay=l, fl=ALL + ['le', 'ast'], nc=1, n=n, alt=list(q))
                                 for l in ([22, 31], [22, 23, 31], [31, 22]) for n in ex.pick((3, 5), (3, 4, 5, 7))
                                 for q in itertools.product((0, 1), repeat=n)
                                 if any(q) and usual_last(q)], one_altraw,
             "every set of averages that hold a raw-altimeter record")
    # 7. time stamps: calendar corners
    ts = [1577836800 - 1, 1577836799.9999, 951782400 - 1, 951782400 + 86399.9999, 1583020799.9999, 1709251199.5,
          1704067199.99, 1262304000.0001, 2524607999.25]
    ex.cases('times', [dict(lay=[21], fl=['vel'], nc=1, n=3, t0=t) for t in ts], one,
             "year/month/day/leap-day boundaries with sub-second parts")
    # 8. large records and the instrument's own ensemble counter
    ex.cases('large', [dict(lay=l, fl=ALL, nc=nc, n=2, nce=nce) for l in ([21, 28], [28, 21])
                       for nc in (1, 250) for nce in (1, 255, 256, 8000, 16330, 16360, 16400, 32000)], one,
             "record sizes up to the 16-bit limit")
    seqs = [[s0 + k for k in range(n)] for s0 in (0, 1, 2, 255, 65535, 2 ** 31 - 2, 2 ** 32 - 5) for n in (1, 2, 4)]
    seqs += [list(range(1, a + 1)) + list(range(b, b + m)) for a in (2, 3, 4) for b in (0, 1) for m in (1, 2, 3)]
    seqs += [list(range(7, 7 + a)) + list(range(1, 1 + m)) for a in (1, 3) for m in (1, 2, 3)]
    ex.cases('counter', [dict(lay=l, fl=['vel'], nc=1, n=len(q), eseq=q) for l in ([21], [21, 24], [21, 23, 28])
                         for q in seqs], one, "hardware ensemble counter: any start, restart at every position")
    ex.cases('restart_after_one', [dict(lay=l, fl=['vel'], nc=1, n=1 + m, eseq=[1] + list(range(1, m + 1)))
                                   for l in ([21], [21, 24], [21, 23, 28]) for m in (2, 3)], one,
             "counter restarting right after its first ensemble")
    every = ([21], [21, 24], [21, 23, 28], [21, 24, 23, 28, 26], [22], [22, 23], [22, 31])
    one_at = [dict(power=p) for p in (-128, -20, 0, 127)] + [dict(nom_corr=p) for p in (0, 1, 100, 255)]
    one_at += [dict(serial=p) for p in (0, 1, 65535, 65536, 2 ** 31, 2 ** 32 - 1)] + [dict(ambig=p) for p in (0, 1, 32767)]
    one_at += [dict(valid=p) for p in range(16)] + [dict(astat=p) for p in (0, 1, 2, 4, 1 << 3, 1 << 7, 2 << 7, 3 << 7, 0x1ff)]
    one_at += [dict(status0=p) for p in (1, 7)] + [dict(status0=1 << 15 | p) for p in range(8)]
    one_at += [dict(model=m) for m in ('Signature250', 'Signature500', 'Signature1000', 'Signature55', 'Signature100')]
    one_at += [dict(sr=p) for p in (1, 2, 16)] + [dict(miavg=p, ai=q) for p in (1, 60, 600) for q in (1, 30, 600)]
    ex.cases('config', [dict(dict(lay=l, fl=ALL + ['le', 'ast'], nc=2, n=2), **o) for l in every for o in one_at
                        if not ('astat' in o and o['astat'] >> 7 > 3)], one,
             "record layout x one configuration value at a time, every bit of the flag fields")
    ex.cases('bt_ahrs', [dict(lay=l, fl=['vel'] + o, nc=1, n=n, btfl=b + ['ahrs'], pat=p) for l in ([21, 23], [21, 24, 23, 28], [22, 23]) for o in ([], ['ahrs'])
                         for b in (['vel'], ['dist'], ['fom'], ['vel', 'dist', 'fom']) for n in (1, 2, 3) for p in ('mix', 'ext')], one,
             "orientation data in bottom-track records")
    ex.cases('echo_extra', [dict(lay=l, fl=['vel'], nc=2, n=2, nce=n, efl=[f]) for l in ([21, 28], [22, 28]) for n in (1, 5)
                            for f in ('vel', 'amp', 'corr', 'le', 'ast', 'altraw', 'p_gd', 'std')], echo_extra, "echosounder records with one more data block: refused or read right")
    ex.cases('bt_config', [dict(lay=l, fl=['vel'], nc=1, n=2, btfl=b) for l in ([21, 23], [21, 23, 28], [22, 23])
                           for m in (1, 2, 3) for b in map(list, itertools.combinations(('vel', 'dist', 'fom'), m))], bt_config,
             "bottom-track configuration words")
    ex.cases('bt_mag', [dict(lay=l, fl=['vel'], nc=1, n=2, pat=p) for l in ([21, 23], [21, 23, 28], [22, 23]) for p in ('lo', 'hi', 'ext', 'mix')], bt_mag,
             "magnetometer of the bottom-track records: its unit is that of the other records'")
    ex.cases('percent_good', [dict(lay=l, fl=ALL + ['p_gd'] + o, nc=nc, n=n) for l in ([22], [22, 23], [21]) for o in ([], ['std'], ['ahrs'])
                              for nc in (1, 3, 4) for n in (2, 3)], percent_good, "percentage of good pings")
    ex.cases('blank_mm', [dict(lay=l, fl=ALL, nc=nc, n=2, blank=b, status=(4 << 25) | (1 << 28) | s) for l in ([21], [21, 24], [22])
                          for nc in (1, 3) for b in (0, 1, 200, 65535) for s in (0, 2)], blank_mm, "unit of the blanking distance")
    # 9. the configuration text
    vals = (('NC=4',), ('CS=0.50', 'N=-3'), ('CY="ENU"', 'SR=8'), ('STR=""', 'X='), ('A=1e-3', 'B=+2', 'C=0010', 'D=1.'), ('V=-0.000123', 'W=65536'))
    ex.cases('header_lines', [dict(extra=[[k] + list(v)]) for k in
                              ('GETPWR', 'GETUSER', 'GETINST', 'GETDVL', 'GETBT', 'GETALTI', 'GETPLAN1', 'GETBURST1', 'GETMISSION', 'GETCOMPASSCAL') for v in vals], header, "names of configuration lines x kinds of values")
    ex.cases('header_egt', [dict(extra=[[k] + list(v)]) for k in ('GETECHO', 'GETTRIG', 'GETTMAVG', 'GETTMBURST', 'GETEXP') for v in vals],
             header, "the same for names that begin with E, G or T")
    free = [['BOARD', 'ID="10-0"', 'X=1'], ['BOARD', 'ID="11-0"'], ['CALCOMPMAG', 'DX=-1', 'DY=2'], ['NOTE', ''], ['SENSORS', 'a', 'b=c=d']]
    ex.cases('header_text', [dict(extra=[free[i] for i in q]) for m in (1, 2, 3) for q in itertools.permutations(range(len(free)), m)], header,
             "every sequence of plain lines of the configuration text, repeated keys included")
    ex.assume("the reference encoder/decoder in mc/enc_ad2cp.py is the Nortek AD2CP format",
              "the blanking distance of echosounder records is in mm")


def usual_last(q):
    """The last ensemble has the size of most others (otherwise it may be
    taken for a truncated one)."""
    return 2 * sum(x == q[-1] for x in q[:-1]) > len(q) - 1


def one_altraw(c):
    return one(c)
