"""Reference encoder for classic Nortek files (Vector, AWAC, Vectrino),
written from the System Integrator Manual layout."""
import struct
import datetime
import numpy as np
from .enc_ad2cp import Pattern, _utc


def cs(b):
    n = len(b) // 2
    s = 0xB58C + sum(struct.unpack('<%dH' % n, b[:2 * n]))
    return struct.pack('<H', s & 0xFFFF)


def bcd(v):
    return (v // 10) * 16 + v % 10


def clock(t):
    if isinstance(t, (bytes, str)):
        return bytes.fromhex(t) if isinstance(t, str) else t
    y, mo, d, h, mi, s = _utc(int(t))
    return bytes([bcd(mi), bcd(s), bcd(d), bcd(h), bcd(y % 100), bcd(mo)])


def blk(rid, body, size=True):
    """A5 id [size] body checksum"""
    n = 2 + 2 * bool(size) + len(body) + 2
    b = bytes([0xA5, rid]) + (struct.pack('<H', n // 2) if size else b'') + body
    return b + cs(b)


TM3 = np.array([[11220, -5587, -5633], [0, 9760, -9760], [1375, 1393, 1400]])
TM4 = np.array([[7000, 0, -7000, 0], [0, 7000, 0, -7000], [1000, 0, 1000, 0], [0, 1000, 0, 1000]])


def hw(serial='VEC 5322', fw='3.34', hwrev=4, rec=144, status=0, pic=0):
    return blk(5, serial.encode().ljust(8)[:8] + bytes([1, 0]) + b'4.10' + struct.pack('<6H', 0, 65535, pic, hwrev, rec, status)
               + bytes(12) + fw.encode())


def head(tm=TM3, freq=6000, config=7):
    nb = len(tm)
    sysb = bytes(8) + struct.pack('<%dh' % (nb * nb), *tm.flatten().tolist())
    return blk(4, struct.pack('<3H', config, freq, 0) + b'HEAD 1234'.ljust(12, b'\0') + sysb.ljust(176, b'\0') +
               bytes(22) + struct.pack('<H', nb))


def user(avg=64, n_beams=3, cy=1, n_bins=1, bin_length=200, blank=100, burst_interval=0, n_burst=0, mode0=0, sal=350,
         tim=0, name='deploy', comments='a comment', swver=13600, adv_pings=1, compass=1, wrap=0, analog=0, mode1=0,
         wavemeth=4, dynpct=0, wcell=0, nwave=0, dt=(0, 0, 0)):
    b = struct.pack('<18H', 2, blank, 3, 437, 512, adv_pings, avg, n_beams, tim, 0, 0, 0, 0, compass, cy, n_bins,
                    bin_length, burst_interval)
    b += name.encode().ljust(6, b'\0')[:6]
    b += struct.pack('<4HI9H', wrap, *dt, 43200, mode0, 16657, 20, 1, 20, 4, analog, swver, sal)
    b += struct.pack('<90H', *range(90))
    b += comments.encode().ljust(80, b'\0')[:80] + bytes(48)
    b += struct.pack('<H', wavemeth) + bytes(50) + struct.pack('<6H', mode1, dynpct, 11, 12, wcell, nwave) + bytes(4)
    b += struct.pack('<H', n_burst) + bytes(2) + struct.pack('<2H', 7, 30) + bytes(2) + struct.pack('<H', 2) + bytes(30)
    b += struct.pack('<8H', *range(8))
    assert len(b) == 506, len(b)
    return blk(0, b)


# ---- Vector -------------------------------------------------------------
def vec_data(r):
    return blk(0x10, struct.pack('<4B2H3h6B', r['ana2'] & 255, r['count'] & 255, r['press'] >> 16, r['ana2'] >> 8,
                                 r['press'] & 0xFFFF, r['ana1'], *r['vel'], *r['amp'], *r['corr']), size=False)


def vec_sys(r):
    return blk(0x11, clock(r['t']) + struct.pack('<2H4h2BH', r['batt'], r['c_sound'], r['heading'], r['pitch'],
                                                 r['roll'], r['temp'], r['error'], r['status'], r['ana']))


def vec_hdr(t, nrec=0):
    return blk(0x12, clock(t) + struct.pack('<H', nrec) + bytes([40, 41, 42, 0, 10, 11, 12, 0]) + bytes(20))


def vec_check(n=4, first=50):
    return blk(0x07, struct.pack('<2H', n, first) + bytes(range(3 * n)))


def imu(kind, r, count=0):
    if kind == 195:
        b = struct.pack('<15f', *r['angrt'], *r['accel'], *np.ravel(r['om'])) + bytes(4)
    elif kind == 204:
        b = struct.pack('<18f', *r['accel'], *r['angrt'], *r['mag'], *np.ravel(r['om'])) + bytes(6)
    elif kind == 211:
        b = struct.pack('<9f', *r['angrt'], *r['accel'], *r['mag']) + bytes(6)
    else:
        b = bytes(64)
    return blk(0x71, bytes([count & 255, kind]) + b)


def vec_rec(k, pat='mix', salt=0):
    P = Pattern(4001 + 31 * k + salt, pat)
    return dict(count=k, ana1=P.u(0, 65535), ana2=P.u(0, 65535), press=P.u(0, 0xFFFFFF),
                vel=[P.s(-32768, 32767) for _ in range(3)], amp=[P.u(0, 255) for _ in range(3)],
                corr=[P.u(0, 100) for _ in range(3)])


def sys_rec(t, k, pat='mix', status=0, **kw):
    P = Pattern(9001 + 77 * k, pat)
    r = dict(t=t, batt=P.u(80, 160), c_sound=P.u(14000, 15600), heading=P.u(0, 3599), pitch=P.s(-900, 900),
             roll=P.s(-1800, 1800), temp=P.s(-200, 3500), error=P.u(0, 255), status=status | (P.u(0, 127) << 1), ana=0)
    r.update(kw)
    return r


def imu_rec(k, pat='mix'):
    P = Pattern(7001 + 13 * k, pat)
    return dict(accel=[P.f(-2, 2) for _ in range(3)], angrt=[P.f(-5, 5) for _ in range(3)],
                mag=[P.f(-1, 1) for _ in range(3)], om=np.array([P.f(-1, 1) for _ in range(9)]).reshape(3, 3))


# ---- AWAC ---------------------------------------------------------------
def awac_rec(t, k, nbins, pat='mix', nb=3, **kw):
    P = Pattern(5003 + 41 * k, pat)
    r = dict(t=t, error=P.u(0, 65535), ana1=P.u(0, 65535), batt=P.u(0, 65535), c_sound=P.u(0, 65535),
             heading=P.u(0, 3599), pitch=P.s(-900, 900), roll=P.s(-1800, 1800), press=P.u(0, 0xFFFFFF), status=P.u(0, 255),
             temp=P.s(-200, 3500), vel=[[P.s(-32768, 32767) for _ in range(nbins)] for _ in range(nb)],
             amp=[[P.u(0, 255) for _ in range(nbins)] for _ in range(nb)])
    r.update(kw)
    return r


def awac_profile(r):
    v, a = np.ravel(r['vel']).tolist(), np.ravel(r['amp']).tolist()
    b = clock(r['t']) + struct.pack('<4H3hBBHh', r['error'], r['ana1'], r['batt'], r['c_sound'], r['heading'], r['pitch'],
                                    r['roll'], r['press'] >> 16, r['status'], r['press'] & 0xFFFF, r['temp'])
    b += bytes(88) + struct.pack('<%dh' % len(v), *v) + bytes(a)
    n = len(b) + 6
    x = bytes([0xA5, 0x20]) + struct.pack('<H', (n + 1) // 2) + b
    return x + cs(x)


# ---- Vectrino -----------------------------------------------------------
def vno_event(t):
    return blk(0x0f, clock(t) + bytes(14))


def vno_hdr(k=0):
    return blk(0x50, struct.pack('<Hh2H8BhH', 50, 1, 10, 20, 1, 2, 3, 4, 5, 6, 7, 8, 2000, 15000) + bytes(16))


def vno_check(n=20, k=0):
    """Vectrino distance check: samples, first sample, three words, four beams of amplitudes"""
    return blk(0x07, struct.pack('<5H', n, 1, 0xA511, 0x51A5, k) + bytes((7 * i + k) % 256 for i in range(4 * n)))


def vno_rec(k, pat='mix'):
    P = Pattern(6007 + 19 * k, pat)
    return dict(status=P.u(0, 255), count=k, vel=[P.s(-32768, 32767) for _ in range(4)],
                amp=[P.u(0, 255) for _ in range(4)], corr=[P.u(0, 100) for _ in range(4)])


def vno_data(r):
    return blk(0x51, struct.pack('<2B4h8B', r['status'], r['count'] & 255, *r['vel'], *r['amp'], *r['corr']), size=False)
