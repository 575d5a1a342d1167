"""Reference encoder/decoder for TRDI PD0 files, written from the PD0 output
format description (fixed/variable leader, profiles, bottom track, VMDAS and
WinRiver II navigation blocks)."""
import struct
import numpy as np
from .enc_ad2cp import Pattern, _utc

DEF = dict(prog=(16, 28), freq=2, angle=1, convex=1, up=0, beam5=0, nbeams=4, ncells=3, pings=2, cell=100, blank=50,
           mode=1, corrmin=64, reps=5, pgmin=10, maxerr=2000, tp=(0, 1, 50), frame=0, tilt=1, three=1, binmap=1,
           misalign=0, magvar=0, ezsrc=0x7D, ezav=0x3D, bin1=171, pulse=115, refcells=(1, 5), ftt=50, lag=33,
           bandw=1, power=255, serial=12345, angle2=20, sim=0)


def fixed(c, bb=0):
    g = dict(DEF)
    g.update(c)
    cfg0 = (g['freq'] & 7) | (g['convex'] << 3) | (g['up'] << 7) | (4 << 4)
    cfg1 = (g['angle'] & 3) | (g['beam5'] << 4) | (4 << 5 & 0xe0)
    co = (g['frame'] << 3) | (g['tilt'] << 2) | (g['three'] << 1) | g['binmap']
    b = struct.pack('<H5B2B', bb, g['prog'][0], g['prog'][1], cfg0, cfg1, g['sim'], 33, g['nbeams'])
    b += struct.pack('<BHHH4BH3BBhh2BHH2BBBH', g['ncells'], g['pings'], g['cell'], g['blank'], g['mode'], g['corrmin'],
                     g['reps'], g['pgmin'], g['maxerr'], *g['tp'], co, g['misalign'], g['magvar'], g['ezsrc'], g['ezav'],
                     g['bin1'], g['pulse'], *g['refcells'], g['ftt'], 0, g['lag'])
    assert len(b) == 42, len(b)
    b += bytes(range(8)) + struct.pack('<HBBIB', g['bandw'], g['power'], 0, g['serial'], g['angle2'])
    assert len(b) == 59
    return b


def fixed_model(c):
    g = dict(DEF)
    g.update(c)
    v = g['prog'][0] + g['prog'][1] / 100.
    m = dict(prog_ver=v, beam_angle=[15, 20, 30][g['angle']], freq=[75, 150, 300, 600, 1200, 2400, 38][g['freq']],
             beam_pattern=['concave', 'convex'][g['convex']], orientation=['down', 'up'][g['up']],
             n_beams=g['nbeams'] + g['beam5'], n_cells=g['ncells'], pings_per_ensemble=g['pings'],
             cell_size=g['cell'] * .01, blank_dist=g['blank'] * .01, profiling_mode=g['mode'],
             min_corr_threshold=g['corrmin'], n_code_reps=g['reps'], min_prcnt_gd=g['pgmin'],
             max_error_vel=g['maxerr'] / 1000, sec_between_ping_groups=g['tp'][0] * 60 + g['tp'][1] + g['tp'][2] * .01,
             coord_sys=['beam', 'inst', 'ship', 'earth'][g['frame']], use_pitchroll=['no', 'yes'][g['tilt']],
             use_3beam=['no', 'yes'][g['three']], bin_mapping=['no', 'yes'][g['binmap']],
             heading_misalign_deg=g['misalign'] * .01, magnetic_var_deg=g['magvar'] * .01,
             sensors_src=format(g['ezsrc'], '08b'), sensors_avail=format(g['ezav'], '08b'), bin1_dist_m=g['bin1'] * .01,
             transmit_pulse_m=g['pulse'] * .01, water_ref_cells=list(g['refcells']), false_target_threshold=g['ftt'],
             transmit_lag_m=g['lag'] * .01)
    if v >= 8.24:
        m['bandwidth'] = g['bandw']
    if v >= 16.05:
        m['power_level'] = g['power']
    if v >= 16.27:
        m['serialnum'] = g['serial']
        m['beam_angle'] = g['angle2']
    m['fs'] = 1 / (m['sec_between_ping_groups'] * g['pings']) if m['sec_between_ping_groups'] else None
    return m


def rtc(t, cs=0):
    y, mo, d, h, mi, s = _utc(int(t))
    return (y, mo, d, h, mi, s, cs)


def var(r, bb=0):
    y, mo, d, h, mi, s, cs = rtc(r['t'], r.get('cs', 0))
    b = struct.pack('<HH7BBHHHHhhhh3B3B', 128 + bb, r['number'] & 0xFFFF, y % 100, mo, d, h, mi, s, cs, r['number'] >> 16,
                    r['bit'], r['c_sound'], r['depth'], r['heading'], r['pitch'], r['roll'], r['sal'], r['temp'],
                    *r['wait'], *r['hprstd']) + bytes(r['adc'])
    assert len(b) == 42, len(b)
    b += struct.pack('<IHII', r.get('err', 0), 0, r['press'], r['pstd']) + b'\0'
    b += bytes([y // 100, y % 100, mo, d, h, mi, s, cs])
    assert len(b) == 65
    return b


def rec(k, nc, t, pat='mix', **kw):
    P = Pattern(3001 + 17 * k, pat)
    A = lambda f: np.array([[f() for _ in range(4)] for _ in range(nc)], int).reshape(nc, 4)
    r = dict(t=t, cs=P.u(0, 99), number=k + 1, bit=0, c_sound=P.u(1400, 1600), depth=P.u(1, 9999), heading=P.u(0, 35999),
             pitch=P.s(-2000, 2000), roll=P.s(-2000, 2000), sal=P.u(0, 40), temp=P.s(-500, 4000), wait=(P.u(0, 5), P.u(0, 59), P.u(0, 99)),
             hprstd=(P.u(0, 180), P.u(0, 200), P.u(0, 200)), adc=[P.u(0, 127) for _ in range(8)], err=0,
             press=P.u(0, 4294967295), pstd=P.u(0, 4294967295), vel=A(lambda: P.s(-32767, 32767)),
             corr=A(lambda: P.u(0, 255)), amp=A(lambda: P.u(0, 255)), prcnt_gd=A(lambda: P.u(0, 100)),
             status=A(lambda: P.u(0, 255)))
    r.update(bt=dict(dist=[P.u(0, 65535) for _ in range(4)], vel=[P.s(-32767, 32767) for _ in range(4)],
                     corr=[P.u(0, 255) for _ in range(4)], amp=[P.u(0, 255) for _ in range(4)],
                     pg=[P.u(0, 100) for _ in range(4)], msb=[P.u(0, 3) for _ in range(4)]),
             alt=dict(eval=P.u(0, 255), rssi=P.u(0, 255), dist=P.u(0, 4294967295), status=P.u(0, 255)))
    r.update(kw)
    return r


def cells(id, a, f='B'):
    v = np.ravel(a).tolist()
    return struct.pack('<H%d%s' % (len(v), f), id, *v)


def bottom(r):
    x = r['bt']
    b = struct.pack('<H', 1536) + bytes(range(14))
    b += struct.pack('<4H4h4B4B4B', *x['dist'], *x['vel'], *x['corr'], *x['amp'], *x['pg'])
    b += bytes(26) + bytes(7) + bytes(x['msb']) + bytes(4)
    assert len(b) == 85
    return b


def alt(r):
    x = r['alt']
    return struct.pack('<HBBIB', 16640, x['eval'], x['rssi'], x['dist'], x['status'])


BAM32 = 180 / 2 ** 31
BAM16 = 180 / 2 ** 15


def vmdas(n):
    y, mo, d, *_ = _utc(int(n['t']))
    s = n['t'] - int(n['t']) // 86400 * 86400
    b = struct.pack('<H2BH', 8192, d, mo, y)
    b += struct.pack('<Iiii', n['tfirst'], n['off'], n['lat0'], n['lon0'])
    b += struct.pack('<Iii', int(round(s * 10000)), n['lat'], n['lon'])
    b += struct.pack('<HHHHHHH', n['spd'], n['dir'], n['mag'], n['smg'], n['dmg'], 0, n['flags'])
    b += struct.pack('<HI', 0, 1) + struct.pack('<H2BI', y, d, mo, 1000)
    b += struct.pack('<3H', n['pitch'], n['roll'], n['heading']) + bytes(10)
    assert len(b) == 78, len(b)
    return b


def vmrec(k, t, pat='mix'):
    P = Pattern(8101 + 23 * k, pat)
    return dict(t=t, tfirst=P.u(0, 863999999), off=P.s(-1000000, 1000000), lat0=0, lon0=0, lat=P.s(-2 ** 30, 2 ** 30 - 1),
                lon=P.s(-2 ** 31, 2 ** 31 - 1), spd=P.u(0, 65535), dir=P.u(0, 65535), mag=P.u(0, 65535), smg=P.u(0, 65535),
                dmg=P.u(0, 65535), flags=P.u(0, 127), pitch=P.u(0, 65535), roll=P.u(0, 65535), heading=P.u(0, 65535))


def vm_model(n):
    u = lambda v: v * BAM16
    return dict(time_gps=n['t'], clock_offset_UTC_gps=n['off'] / 1000, latitude_gps=n['lat'] * BAM32,
                longitude_gps=n['lon'] * BAM32, avg_speed_gps=n['spd'] / 1000, avg_dir_gps=u(n['dir']),
                speed_made_good_gps=n['smg'] / 1000, dir_made_good_gps=u(n['dmg']), flags_gps=float(format(n['flags'], 'b')),
                pitch_gps=u(n['pitch']), roll_gps=u(n['roll']), heading_gps=u(n['heading']))


# ---- WinRiver II NMEA ----------------------------------------------------
def nmea(spid, body):
    return struct.pack('<HHHd', 8226, spid, len(body), 0.) + body


def gga(g, new=100):
    s = g['t'] - int(g['t']) // 86400 * 86400
    hh, mm, ss = int(s // 3600), int(s % 3600 // 60), s % 60
    ts = '%02d%02d%05.2f' % (hh, mm, ss)
    b = b'$GPGGA\0' + (ts + ' ').encode()[:10] + struct.pack('<d', abs(g['lat'])) + (b'S' if g['lat'] < 0 else b'N')
    b += struct.pack('<d', abs(g['lon'])) + (b'W' if g['lon'] < 0 else b'E')
    b += struct.pack('<BBff', g['fix'], g['nsat'], g['hdop'], g['elev']) + b'M' + struct.pack('<f', 1.) + b'M'
    b += struct.pack('<fH', g['age'], 7)
    return nmea(4 + new, b)


def vtg(g, new=100):
    b = b'$GPVTG\0' + struct.pack('<f', g['trk']) + b'T' + struct.pack('<f', 1.) + b'M' + struct.pack('<f', g['kn']) + b'N'
    b += struct.pack('<f', 2.) + b'KA'
    return nmea(5 + new, b)


def dbt(g, new=100):
    b = b'$GPDBT\0' + struct.pack('<f', 1.) + b'f' + struct.pack('<f', g['dbt']) + b'M' + struct.pack('<f', 2.) + b'F'
    return nmea(6 + new, b)


def hdt(g, new=100):
    return nmea(7 + new, b'$GPHDT\0' + struct.pack('<d', g['hdt']) + b'T')


def nmrec(k, t, pat='mix'):
    P = Pattern(9201 + 29 * k, pat)
    return dict(t=t, lat=P.f(-90, 90), lon=P.f(-180, 180), fix=P.u(0, 8), nsat=P.u(0, 40), hdop=P.f(0, 20),
                elev=P.f(-50, 500), age=P.f(0, 60), trk=P.f(0, 360), kn=P.f(0, 30), dbt=P.f(0, 300), hdt=P.f(0, 360))


def nm_model(g, kinds):
    m = {}
    if 'gga' in kinds:
        m.update(time_gps=g['t'], latitude_gps=g['lat'], longitude_gps=g['lon'], fix_gps=g['fix'], n_sat_gps=g['nsat'],
                 hdop_gps=g['hdop'], elevation_gps=g['elev'], rtk_age_gps=g['age'])
    if 'vtg' in kinds:
        m.update(speed_over_grnd_gps=g['kn'] / 1.944, dir_over_grnd_gps=g['trk'])
    if 'dbt' in kinds:
        m['dist_nmea'] = g['dbt']
    if 'hdt' in kinds:
        m['heading_gps'] = g['hdt']
    return m


def ensemble(blocks, spare=b'\0\0'):
    n = len(blocks)
    off = 6 + 2 * n
    offs = []
    for b in blocks:
        offs.append(off)
        off += len(b)
    nb = off + len(spare)
    x = struct.pack('<2BH2B', 0x7F, 0x7F, nb, 0, n) + struct.pack('<%dH' % n, *offs) + b''.join(blocks) + spare
    return x + struct.pack('<H', sum(x) & 0xFFFF)


# ---- the physical content -------------------------------------------------
def phys(r, v, bt=False, al=False):
    """variable -> value of one ensemble (v: program version)."""
    m = dict(time=r['t'] + r.get('cs', 0) / 100, number=r['number'], builtin_test_fail=bool(r['bit']),
             c_sound=r['c_sound'], depth=r['depth'] * .1, heading=r['heading'] * .01, pitch=r['pitch'] * .01,
             roll=r['roll'] * .01, salinity=r['sal'], temp=r['temp'] * .01,
             min_preping_wait=r['wait'][0] * 60 + r['wait'][1] + r['wait'][2] * .01, heading_std=r['hprstd'][0],
             pitch_std=r['hprstd'][1] * .1, roll_std=r['hprstd'][2] * .1)
    vel = r['vel'] * .001
    m['vel'] = np.where(r['vel'] == -32768, np.nan, vel)
    for ky in ('corr', 'amp', 'prcnt_gd', 'status'):
        m[ky] = r[ky]
    if int(v) not in (4, 5, 14, 23):
        if v >= 8.13:
            m['pressure'], m['pressure_std'] = r['press'] / 1000, r['pstd'] / 1000
    if bt:
        x = r['bt']
        m['dist_bt'] = np.array(x['dist']) * .01 + (np.array(x['msb']) * 655.36 if v >= 5.3 else 0)
        m['vel_bt'] = np.array(x['vel']) * .001
        m['corr_bt'], m['amp_bt'], m['prcnt_gd_bt'] = x['corr'], x['amp'], x['pg']
    if al:
        x = r['alt']
        m.update(alt_dist=x['dist'] / 1000, alt_rssi=x['rssi'], alt_eval=x['eval'], alt_status=x['status'])
    return m


def beam_matrix(theta, convex):
    t = np.radians(theta)
    a, b = 1 / (2 * np.sin(t)), 1 / (4 * np.cos(t))
    d = a / np.sqrt(2)
    c = 1 if convex else -1
    return np.array([[c * a, -c * a, 0, 0], [0, 0, -c * a, c * a], [b] * 4, [d, d, -d, -d]])


def orientmat(h, p, r, up, zero_tilt):
    """earth->inst, shape (earth?, ...) as stored: transpose of RDI's M."""
    h, p, r = np.radians(h), np.radians(p), np.radians(r)
    P = np.arctan(np.tan(p) * np.cos(r))
    if zero_tilt:
        P, R = 0 * P, 0 * r
    else:
        R = r + np.pi * up
    CH, SH, CP, SP, CR, SR = np.cos(h), np.sin(h), np.cos(P), np.sin(P), np.cos(R), np.sin(R)
    M = np.array([[CH * CR + SH * SP * SR, SH * CP, CH * SR - SH * SP * CR],
                  [-SH * CR + CH * SP * SR, CH * CP, -SH * SR - CH * SP * CR],
                  [-CP * SR, SP, CP * CR]])
    return np.swapaxes(M, 0, 1)
