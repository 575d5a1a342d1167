"""Reference encoder for Nortek AD2CP (Signature) files.

Written from the Nortek integrator's guide layout (DF3 burst/average, DF20
bottom track, string records); it is the model side of the Signature checks.
A record is described by *raw integers*; `phys` gives the physical value the
format assigns to them.
"""
import struct
import calendar
import numpy as np

FLAG = dict(press=0, temp=1, compass=2, tilt=3, vel=5, amp=6, corr=7, le=8, altraw=9,
            ast=10, echo=11, ahrs=12, p_gd=13, std=14)
BTFLAG = dict(vel=5, dist=8, fom=9, ahrs=10)
CY = dict(ENU=0, XYZ=1, beam=2)
HDRSZ = 76          # DF3 common header (bytes before the data block)


def cs16(b, init=0xB58C):
    s = init
    n = len(b) // 2
    s += sum(struct.unpack('<%dH' % n, b[:2 * n]))
    if len(b) % 2:
        s += b[-1] << 8
    return s & 0xFFFF


def wrap(rid, payload, fam=16):
    h = struct.pack('<BBBBHH', 0xA5, 10, rid, fam, len(payload), cs16(payload))
    return h + struct.pack('<H', cs16(h)) + payload


def filehead(sr=8, model='Signature1000', nb=4, theta=25, avg=False, tm=None, miavg=2, ai=60, extra=()):
    L = ['ID,STR="%s",SN=100123' % model,
         'GETPLAN,MIAVG=%d,AVG=%d,DIAVG=0,VD=0,MV=10,SA=35.0,BURST=1' % (miavg, int(avg)),
         'GETAVG,NC=4,CS=1.00,BD=0.50,CY="ENU",PL=0.0,AI=%d,VR=1.00,DF=3,NPING=1,BW="BROAD"' % ai,
         'GETBURST,NC=4,NB=%d,CS=0.50,BD=0.10,CY="BEAM",PL=0.0,SR=%d,NS=256,VR=1.00,DF=3' % (nb, sr)]
    if tm is None:
        tm = tmat(nb, theta)
    for ky in ('GETXFAVG', 'GETXFBURST'):
        L.append(ky + ',ROWS=%d,COLS=%d,' % tm.shape +
                 ','.join('M%d%d=%.6f' % (i + 1, j + 1, tm[i, j])
                          for i in range(tm.shape[0]) for j in range(tm.shape[1])))
    for i in range(nb):
        L.append('BEAMCFGLIST,BEAM=%d,THETA=%d.00,PHI=%d.00,FREQ=1000,BW=25,BRD=1,HWBEAM=%d,ZNOM=60.00'
                 % (i + 1, theta, 90 * i, i + 1))
    L[1:1] = extra
    s = '\r\n'.join(L) + '\r\n'
    return wrap(160, b'\x10' + s.encode() + b'\x00')


def tmat(nb, theta):
    s, c = np.sin(np.radians(theta)), np.cos(np.radians(theta))
    if nb >= 4:
        return np.round(np.array([[1 / (2 * s), 0, -1 / (2 * s), 0],
                         [0, -1 / (2 * s), 0, 1 / (2 * s)],
                         [1 / (2 * c), 0, 1 / (2 * c), 0],
                         [0, 1 / (2 * c), 0, 1 / (2 * c)]]), 6)
    return np.round(np.array([[2 / (3 * s), -1 / (3 * s), -1 / (3 * s)],
                     [0, 1 / (3 ** .5 * s), -1 / (3 ** .5 * s)],
                     [1 / (3 * c), 1 / (3 * c), 1 / (3 * c)]]), 6)


def rec(rid, ens, flags=('vel', 'amp', 'corr'), nb=4, nc=3, cy='beam', t=None, salt=0, pat='mix', **kw):
    """A raw record description (dict of raw integer values)."""
    # t: seconds since epoch (float with 1e-4 resolution)
    if t is None:
        t = 1577836800.0 + ens * 0.125
    P = Pattern(rid * 1009 + ens * 17 + salt, pat)
    r = dict(id=rid, ens=ens, flags=list(flags), nb=nb, nc=nc, cy=cy, t=t)
    r.update(serial=100123, c_sound=P.u(14800, 15500), temp=P.u(0, 3000), pressure=P.u(0, 2000000),
             heading=P.u(0, 35999), pitch=P.s(-9000, 9000), roll=P.s(-18000, 17999),
             cell_size=500, blank=(100 if rid == 28 else 10) * 2, nom_corr=70, temp_press=P.u(0, 255),
             batt=P.u(0, 300), mag=[P.s(-32768, 32767) for _ in range(3)],
             accel=[P.s(-32768, 32767) for _ in range(3)], ambig=2500, desc=0, xmit=P.u(0, 65535),
             vscale=-3, power=-3, temp_mag=P.s(-500, 500), temp_clock=P.s(-500, 5000),
             error=P.u(0, 65535), status0=0, status=(4 << 25) | (1 << 28) | 2)
    n = nb * nc
    if rid == 23:
        r['vel'] = [P.s(-2 ** 31, 2 ** 31 - 1) if pat == 'ext' else P.s(-200000, 200000) for _ in range(nb)]
        r['dist'] = [P.u(0, 200000) for _ in range(nb)]
        r['fom'] = [P.u(0, 65535) for _ in range(nb)]
    else:
        r['vel'] = [P.s(-32768, 32767) for _ in range(n)]
        r['amp'] = [P.u(0, 255) for _ in range(n)]
        r['corr'] = [P.u(0, 100) for _ in range(n)]
    r['le'] = (P.f(0, 50), P.u(0, 65535), P.u(0, 3))
    r['ast'] = (P.f(0, 50), P.u(0, 65535), P.s(-5000, 5000), P.f(0, 100))
    r['alt_status'] = 0
    r['nsamp'] = 5
    r['dsamp'] = 240
    r['samp'] = [P.s(0, 32767) for _ in range(kw.get('nsamp', 5))]
    r['echo'] = [P.u(0, 65535) for _ in range(nc)]
    r['om'] = [P.f(-1, 1) for _ in range(9)]
    r['q'] = [P.f(-1, 1) for _ in range(4)]
    r['gyro'] = [P.f(-300, 300) for _ in range(3)]
    r['pg'] = [P.u(0, 100) for _ in range(nc)]
    r['std'] = [P.s(-300, 300) for _ in range(4)]
    r.update(kw)
    return r


class Pattern:
    """Deterministic raw values: 'mix' spreads over the range, 'lo'/'hi' sit
    on the ends of the representable range."""

    def __init__(self, seed, pat):
        self.k = seed
        self.pat = pat

    def _n(self):
        self.k = (self.k * 1103515245 + 12345) & 0x7FFFFFFF
        return self.k >> 8

    def u(self, a, b):
        if self.pat == 'lo':
            return a
        if self.pat == 'hi':
            return b
        if self.pat == 'ext':
            return (a, b, a + 1, b - 1)[self._n() % 4]
        return a + self._n() % (b - a + 1)

    s = u

    def f(self, a, b):
        return float(np.float32(a + (b - a) * ((self._n() % 1024) / 1024.)))


def timeparts(t):
    ti = int(np.floor(t + 1e-9))
    us100 = int(round((t - ti) * 1e4))
    if us100 >= 10000:
        ti, us100 = ti + 1, us100 - 10000
    y, mo, d, h, mi, s = _utc(ti)
    return y - 1900, mo - 1, d, h, mi, s, us100


def _utc(ti):
    import datetime
    dt = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=ti)
    return dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second


def config_int(r):
    v = r.get('valid', 0xF)
    tab = BTFLAG if r['id'] == 23 else FLAG
    for f in r['flags']:
        v |= 1 << tab[f]
    return v


def beams_cy(r):
    if r['id'] == 28:
        return r['nc']
    return r['nc'] | (CY[r['cy']] << 10) | (r['nb'] << 12)


def encode(r):
    fl = r['flags']
    cfg = config_int(r)
    tp = timeparts(r['t']) if r['t'] is not None and r['t'] != 0 else (0, 0, 0, 0, 0, 0, 0)
    if r.get('rawtime') is not None:
        tp = tuple(r['rawtime'])
    b = struct.pack('<BBHI6BH', 3 if r['id'] != 23 else 1, HDRSZ, cfg, r['serial'], *tp)
    b += struct.pack('<HHIHhh', r['c_sound'], r['temp'], r['pressure'], r['heading'], r['pitch'], r['roll'])
    b += struct.pack('<HHHBB', beams_cy(r), r['cell_size'], r['blank'], r['nom_corr'],
                     r['temp_press'] if r['id'] != 23 else 0)
    b += struct.pack('<H3h3h', r['batt'], *r['mag'], *r['accel'])
    b += struct.pack('<I' if r['id'] == 23 else '<H', r['ambig'])
    b += struct.pack('<HHbbhh', r['desc'], r['xmit'], r['vscale'], r['power'], r['temp_mag'], r['temp_clock'])
    if r['id'] == 23:
        b += struct.pack('<II', r['error'], r['status'])
    else:
        b += struct.pack('<HHI', r['error'], r['status0'], r['status'])
    b += struct.pack('<I', r['ens'])
    nb, nc = r['nb'], r['nc']
    if r['id'] == 23:
        if 'vel' in fl:
            b += struct.pack('<%di' % nb, *r['vel'])
        if 'dist' in fl:
            b += struct.pack('<%di' % nb, *r['dist'])
        if 'fom' in fl:
            b += struct.pack('<%dH' % nb, *r['fom'])
    else:
        n = nb * nc
        if 'vel' in fl:
            b += struct.pack('<%dh' % n, *r['vel'])
        if 'amp' in fl:
            b += struct.pack('<%dB' % n, *r['amp'])
        if 'corr' in fl:
            b += struct.pack('<%dB' % n, *r['corr'])
        if 'le' in fl:
            b += struct.pack('<fHH', *r['le'])
        if 'ast' in fl:
            b += struct.pack('<fHhf8x', *r['ast'])
        if 'altraw' in fl:
            b += struct.pack('<IH', len(r['samp']), r['dsamp']) + struct.pack('<%dh' % len(r['samp']), *r['samp'])
        if 'echo' in fl:
            b += struct.pack('<%dH' % nc, *r['echo'])
    if 'ahrs' in fl:
        b += struct.pack('<16f', *r['om'], *r['q'], *r['gyro'])
    if r['id'] != 23:
        if 'p_gd' in fl:
            b += struct.pack('<%dB' % nc, *r['pg'])
        if 'std' in fl:
            b += struct.pack('<4h24x', *r['std'])
    return wrap(r['id'], b)


def phys(r):
    """name -> physical values of one record (model of the format)."""
    fl = r['flags']
    nb, nc = r['nb'], r['nc']
    o = dict(c_sound=r['c_sound'] * .1, temp=r['temp'] * .01, pressure=r['pressure'] * .001,
             heading=r['heading'] * .01, pitch=r['pitch'] * .01, roll=r['roll'] * .01,
             batt=r['batt'] * .1, temp_clock=r['temp_clock'] * .01, error=r['error'], status=r['status'],
             accel=np.array(r['accel']) / 16384. * 9.81,
             mag=np.array(r['mag']) * .1, time=r['t'])
    if r['id'] != 23:
        o['temp_press'] = r['temp_press'] * .2 - 4.0   # (raw - 20) / 5
        if 'std' in fl:
            o.update(pitch_std=r['std'][0] * .01, roll_std=r['std'][1] * .01,
                     heading_std=r['std'][2] * .01, press_std=r['std'][3] * .1)
    o['xmit_energy'] = r['xmit']
    if r['id'] == 23:
        if 'vel' in fl:
            o['vel'] = np.array(r['vel'], float) * 10. ** r['vscale']
        if 'dist' in fl:
            o['dist'] = np.array(r['dist']) * .001
        if 'fom' in fl:
            o['fom'] = np.array(r['fom'])
    else:
        if 'vel' in fl:
            o['vel'] = np.array(r['vel'], float).reshape(nb, nc) * 10. ** r['vscale']
        if 'amp' in fl:
            o['amp'] = np.array(r['amp']).reshape(nb, nc) * .5
        if 'corr' in fl:
            o['corr'] = np.array(r['corr']).reshape(nb, nc)
        if 'le' in fl:
            o['le_dist_alt'], o['le_quality_alt'] = r['le'][0], r['le'][1] * .01
            o['status_alt'] = r['le'][2]
        if 'ast' in fl:
            o['ast_dist_alt'], o['ast_quality_alt'] = r['ast'][0], r['ast'][1] * .01
            o['ast_offset_time_alt'], o['pressure_alt'] = r['ast'][2] * 1e-4, r['ast'][3]
        if 'altraw' in fl:
            o['nsamp_alt'], o['dsamp_alt'] = len(r['samp']), r['dsamp'] * 1e-4
            o['samp_alt'] = np.array(r['samp']) / 256.
        if 'echo' in fl:
            o['echo'] = np.array(r['echo']) * .01
        if 'p_gd' in fl:
            o['percent_good'] = np.array(r['pg'])
    if 'ahrs' in fl:
        o['om'] = np.array(r['om']).reshape(3, 3)     # file: inst->earth, row major
        o['quaternions'] = np.array(r['q'])
        o['angrt'] = np.radians(np.array(r['gyro']))
    return o


def file_bytes(records, **kw):
    return filehead(**kw) + b''.join(encode(r) for r in records)
