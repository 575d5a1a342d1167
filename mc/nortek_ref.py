"""Reference decode of Vector files built with enc_nortek (shared by C06-C08)."""
import numpy as np
from . import enc_nortek as N
from .core import need
from .util import same, angle_same, dt64

T0 = 1577836800


def vector(c):
    """case -> (header bytes, list of (kind, bytes, record)), one entry per block.

    Samples come in bursts of nb (0: continuous); a clock record precedes every
    `per`-th sample of a burst, starting with sample `off`."""
    fs = c.get('fs', 8)
    nb = c.get('nb', 0)
    n = c['n']
    per = c.get('per', fs)
    kind = c.get('imu')
    pat = c.get('pat', 'mix')
    h = [('hw', N.hw(), None), ('head', N.head(np.array(c['tm']).reshape(3, 3) if 'tm' in c else N.TM3), None),
         ('user', N.user(avg=512 // fs, n_burst=nb, burst_interval=c.get('bint', 600 if nb else 0),
                         cy=c.get('cy', 1), mode0=c.get('mode0', 0), **c.get('user', {})), None)]
    b = []
    t0 = c.get('t0', T0)
    for k in range(n):
        kb = k % nb if nb else k
        tb = t0 + (k // nb) * c.get('bint', 600) if nb else t0
        if kb == 0 and (k == 0 or nb):
            if c.get('check', 1):
                b.append(('check', N.vec_check(c.get('ncheck', 4)), None))
            if c.get('hdr', 1):
                b.append(('hdr', N.vec_hdr(tb), None))
        if kb >= c.get('off', 0) and (kb - c.get('off', 0)) % per == 0:
            i = (kb - c.get('off', 0)) // per
            kw = {}
            st = c.get('down', 0)
            st = st[(k // per) % len(st)] if isinstance(st, (list, tuple)) else st
            t = tb + (c.get('off', 0) + i * per) * c.get('drift', 1) / fs
            if c.get('first_late') and i == 0:
                t += c['first_late']
            r = N.sys_rec(int(round(t)), k, pat=c.get('spat', 'mix'), status=st, **kw)
            b.append(('sys', N.vec_sys(r), r))
        r = N.vec_rec(k, pat)
        b.append(('data', N.vec_data(r), r))
        if kind:
            r = N.imu_rec(k)
            if k in c.get('imu_nan', ()):
                x = np.array(r[c['nvar']], float)
                x[c['ncomp']] = np.nan
                r[c['nvar']] = x
            b.append(('imu', N.imu(kind, r, k), r))
    return b''.join(x[1] for x in h), b


def model(c, blocks):
    """Physical samples of a list of blocks: dict of arrays over samples."""
    fs = c.get('fs', 8)
    scale = .001 * (.1 if c.get('mode0', 0) & 16 else 1)
    smp, imu, sysr = [], {}, {}
    for kind, _, r in blocks:
        if kind == 'data':
            smp.append(r)
        elif kind == 'imu':
            imu[len(smp) - 1] = r
        elif kind == 'sys':
            sysr[len(smp)] = r
    n = len(smp)
    sysr = {k: v for k, v in sysr.items() if k < n}
    m = dict(n=n, vel=np.array([r['vel'] for r in smp]).T * scale, amp=np.array([r['amp'] for r in smp]).T,
             corr=np.array([r['corr'] for r in smp]).T, pressure=np.array([r['press'] for r in smp]) / 1000.)
    nb = c.get('nb', 0) or max(n, 1)
    t = np.full(n, np.nan)
    for b0 in range(0, n, nb):
        idx = [k for k in sorted(sysr) if b0 <= k < b0 + nb]
        if not idx:
            continue
        ts = [sysr[k]['t'] for k in idx]
        k = np.arange(b0, min(b0 + nb, n))
        if len(idx) >= 3:
            i0, i1 = 1, len(idx) - 1          # the first one is not used
            t[k] = ts[i0] + (k - idx[i0]) * (ts[i1] - ts[i0]) / (idx[i1] - idx[i0])
        elif len(idx) == 2:
            t[k] = ts[1] + (k - idx[1]) / fs
        else:
            t[k] = ts[0] + (k - (idx[0] if idx[0] == b0 else b0)) / fs
    m['time'] = t
    m['idx'] = idx = np.array(sorted(sysr), int)
    sc = dict(batt=.1, c_sound=.1, heading=.1, pitch=.1, roll=.1, temp=.01)
    for ky, s in sc.items():
        v = np.full(n, np.nan)
        if len(idx):
            raw = np.array([sysr[k][ky] for k in idx], float) * s
            w = (np.arange(n) >= idx[0]) & (np.arange(n) <= idx[-1])
            v[w] = np.interp(t[w], t[idx], raw)
        m[ky] = v
    for ky in ('error', 'status'):
        m[ky] = np.array([sysr[k][ky] for k in idx])
    down = np.zeros(n, bool)
    cur = None
    for b0 in range(0, n, nb):
        ii = [k for k in idx if b0 <= k < b0 + nb]
        for j, k in enumerate(ii):
            down[k if j else b0: min(b0 + nb, n)] = bool(sysr[k]['status'] & 1)
    m['orientation_down'] = down
    if imu:
        ac = np.full((3, n), np.nan)
        om = np.full((3, 3, n), np.nan)
        m['accel'], m['angrt'], m['mag'] = ac, ac.copy(), ac.copy()
        for k, r in imu.items():
            for ky in ('accel', 'angrt', 'mag'):
                x = np.array(r[ky])
                m[ky][:, k] = [-x[2], x[1], x[0]]
            o = np.array([-r['om'][2], r['om'][1], r['om'][0]])
            o[:, 2] *= -1
            om[:, :, k] = o[:, [1, 0, 2]]
        m['accel'] = m['accel'] * 9.80665
        if c['imu'] in (195, 211):
            m['accel'], m['angrt'] = m['accel'] * fs, m['angrt'] * fs
        if c['imu'] == 195:
            m.pop('mag')
        if c['imu'] != 211:
            m['orientmat'] = om
    return m


def omat(h, p, r, down):
    """Nortek's own earth->inst matrix from heading/pitch/roll [deg]."""
    h = np.radians(90 - np.asarray(h, float))
    p = np.radians(p)
    r = np.radians(np.asarray(r, float) + 180. * np.asarray(down))
    ch, sh, cp, sp, cr, sr = np.cos(h), np.sin(h), np.cos(p), np.sin(p), np.cos(r), np.sin(r)
    return np.array([[ch * cp, sh * cp, sp],
                     [-ch * sp * sr - sh * cr, -sh * sp * sr + ch * cr, sr * cp],
                     [-ch * cr * sp + sh * sr, -sh * cr * sp - ch * sr, cp * cr]])


def compare(ds, m, lo=0, hi=None, what=''):
    """The dataset holds samples lo:hi of the model."""
    sl = slice(lo, hi)
    n = len(range(*sl.indices(m['n'])))
    need(ds.time.size == n, "%s%d samples, expected %d", what, ds.time.size, n)
    if n == 0:
        return 0
    k = 0
    for ky in ('vel', 'amp', 'corr', 'pressure', 'accel', 'angrt', 'mag', 'orientmat'):
        if ky in m:
            need(ky in ds, "%s%s is missing", what, ky)
            same(what + ky, ds[ky].values, m[ky][..., sl], rtol=3e-6, atol=1e-6)
            k += n
    same(what + 'time', ds.time.values, dt64(m['time'][sl]), atol=2e-3)
    a, b = (m['idx'][0], m['idx'][-1]) if len(m['idx']) else (0, -1)
    for ky in ('batt', 'c_sound', 'heading', 'pitch', 'roll', 'temp'):
        s = slice(max(a - lo, 0), max(b + 1 - lo, 0))
        # in a window the values after its last clock record are not defined
        g = ds[ky].values
        ii = np.arange(n) + lo
        last = m['idx'][m['idx'] < lo + n]
        w = (ii >= a) & (ii <= (last[-1] if len(last) else -1))
        same(what + ky, g[w], m[ky][sl][w], rtol=1e-5, atol=2e-3)
    same(what + 'orientation_down', ds['orientation_down'].values, m['orientation_down'][sl])
    inw = (m['idx'] >= lo) & (m['idx'] < lo + n)
    for ky in ('error', 'status'):
        g = ds[ky].values[m['idx'][inw] - lo]
        same(what + ky, g, m[ky][inw])
    if 'orientmat' not in m:
        w = ~np.isnan(ds.heading.values)
        o = omat(ds.heading.values, ds.pitch.values, ds["roll"].values, ds.orientation_down.values)
        same(what + 'orientmat', ds.orientmat.values[..., w], o[..., w], rtol=1e-4, atol=1e-5)
    return k


# ---- AWAC ---------------------------------------------------------------
CS_COEF = {2000: .0239, 1000: .0478, 600: .0797, 400: .1195}


def awac(c):
    n, nbins = c['n'], c['nbins']
    dt = c.get('dt', 60)
    h = [('hw', N.hw(serial=c.get('serial', 'WPR 1234'), fw='3.34'), None),
         ('head', N.head(np.array(c['tm']).reshape(3, 3) if 'tm' in c else N.TM3, freq=c.get('freq', 1000)), None),
         ('user', N.user(avg=c.get('avg', dt), cy=c.get('cy', 0), n_bins=nbins, bin_length=c.get('bl', 256),
                         blank=c.get('blank', 50), **c.get('user', {})), None)]
    b = []
    for k in range(n):
        r = N.awac_rec(c.get('t0', T0) + k * dt, k, nbins, c.get('pat', 'mix'), **c.get('kw', {}))
        b.append(('prof', N.awac_profile(r), r))
    return b''.join(x[1] for x in h), b


def awac_model(c, blocks):
    R = [r for k, _, r in blocks if k == 'prof']
    m = dict(n=len(R), time=np.array([r['t'] for r in R], float))
    for ky, s in dict(batt=.1, c_sound=.1, heading=.1, pitch=.1, roll=.1, temp=.01, error=1, status=1).items():
        m[ky] = np.array([r[ky] for r in R], float) * s
    m['pressure'] = np.array([r['press'] for r in R]) * .001
    m['vel'] = np.moveaxis(np.array([r['vel'] for r in R]), 0, -1) * .001
    m['amp'] = np.moveaxis(np.array([r['amp'] for r in R]), 0, -1)
    return m


def awac_compare(ds, m, lo=0, hi=None):
    sl = slice(lo, hi)
    for ky in m:
        if ky in ('n', 'time'):
            continue
        need(ky in ds, "%s is missing", ky)
        same(ky, ds[ky].values, m[ky][..., sl], rtol=3e-6, atol=1e-6)
    same('time', ds.time.values, dt64(m['time'][sl]), atol=1e-5)
    o = omat(ds.heading.values, ds.pitch.values, ds['roll'].values, 0)
    same('orientmat', ds.orientmat.values, o, rtol=1e-4, atol=2e-5)
    return m['vel'][..., sl].size


# ---- Vectrino -----------------------------------------------------------
def vno(c):
    n = c['n']
    h = [('hw', N.hw(serial='VNO 1234', fw='1.22'), None), ('head', N.head(np.array(c['tm']) if 'tm' in c else N.TM4, freq=10000), None),
         ('user', N.user(avg=c.get('avg') or 50000 // c.get('fs', 25), n_beams=4, cy=c.get('cy', 1), mode0=c.get('mode0', 0),
                         **c.get('user', {})), None)]
    b = [('event', N.vno_event(c.get('t0', T0)), None)]
    for k in range(n):
        if k % c.get('hper', 10) == 0:
            b.append(('hdr', N.vno_hdr(k), None))
        if k in c.get('check', ()):
            b.append(('check', N.vno_check(c.get('ncheck', 20), k), None))
        r = N.vno_rec(k, c.get('pat', 'mix'))
        b.append(('data', N.vno_data(r), r))
    if n in c.get('check', ()):
        b.append(('check', N.vno_check(c.get('ncheck', 20), n), None))
    return b''.join(x[1] for x in h), b


def vno_model(c, blocks):
    R = [r for k, _, r in blocks if k == 'data']
    n = len(R)
    s = .001 * (.1 if c.get('mode0', 0) & 16 else 1)
    fs = 50000 / c['avg'] if c.get('avg') else c.get('fs', 25)
    return dict(n=n, time=c.get('t0', T0) + np.arange(n) / fs, status=np.array([r['status'] for r in R]),
                vel=np.array([r['vel'] for r in R]).reshape(n, 4).T * s, amp=np.array([r['amp'] for r in R]).reshape(n, 4).T,
                corr=np.array([r['corr'] for r in R]).reshape(n, 4).T)


def vno_compare(ds, m, lo=0, hi=None):
    sl = slice(lo, hi)
    for ky in ('vel', 'amp', 'corr', 'status'):
        need(ky in ds, "%s is missing", ky)
        same(ky, ds[ky].values, m[ky][..., sl], rtol=3e-6, atol=1e-6)
    same('time', ds.time.values, dt64(m['time'][sl]), atol=1e-5)
    return m['vel'][..., sl].size
