"""C06  Nortek Vector decode fidelity."""
import numpy as np
from .. import enc_nortek as N
from .. import nortek_ref as R, labels
from ..core import need, product
from ..util import same, attr_same, write, read

LEVEL = "exploration"


def one(c):
    h, b = R.vector(c)
    ds = read(write(h + b''.join(x[1] for x in b), 'v.VEC'))
    m = R.model(c, b)
    k = R.compare(ds, m)
    a = ds.attrs
    attr_same('coord_sys', a['coord_sys'], ['earth', 'inst', 'beam'][c.get('cy', 1)])
    attr_same('fs', a['fs'], float(c.get('fs', 8)))
    same('beam2inst_orientmat', ds.beam2inst_orientmat.values,
         (np.array(c['tm']).reshape(3, 3) if 'tm' in c else N.TM3) / 4096)
    need(ds.vel.dims == ('dir', 'time'), "dims of vel: %s", ds.vel.dims)
    need(ds.amp.dims == ('beam', 'time') and ds['corr'].dims == ('beam', 'time'), "dims of amp/corr")
    rv = {'vel'} | ({'accel', 'angrt'} | ({'mag'} if c['imu'] != 195 else set()) if c.get('imu') else set())
    need(set(a['rotate_vars']) == rv, "rotate_vars %s", a['rotate_vars'])
    need(bool(a['has_imu']) == bool(c.get('imu')), "has_imu")
    need(list(ds.dir.values) == {0: ['E', 'N', 'U'], 1: ['X', 'Y', 'Z'], 2: [1, 2, 3]}[c.get('cy', 1)]
         or [str(x) for x in ds.dir.values] == ['1', '2', '3'] and c.get('cy') == 2, "dir %s", ds.dir.values)
    labels.check(ds, ['earth', 'inst', 'beam'][c.get('cy', 1)], 3)
    return (k, float(np.nansum(np.abs(ds.vel.values))), tuple(ds.variables))


def config(c):
    """Every decoded configuration field follows its bits."""
    cc = dict(n=16, fs=8)
    u = dict(c['u'])
    h = N.hw(**c.get('hw', {})) + N.head(freq=c.get('freq', 6000), config=c.get('hcfg', 7)) + N.user(avg=64, **u)
    _, b = R.vector(cc)
    ds = read(write(h + b''.join(x[1] for x in b), 'v.VEC'))
    a = ds.attrs
    tim, m0 = u.get('tim', 0), u.get('mode0', 0)
    bit = lambda v, k: v >> k & 1
    exp = dict(profile_mode=['single', 'continuous'][bit(tim, 1)], power_level=bit(tim, 5) + 2 * bit(tim, 6) + 1,
               sync_out_pos=['middle', 'end'][bit(tim, 7)], sample_on_sync=str(bool(bit(tim, 8))),
               start_on_sync=str(bool(bit(tim, 9))), compass_update_rate=u.get('compass', 1),
               deployment_name=u.get('name', 'deploy'), wrap_mode=str(bool(u.get('wrap', 0))),
               analog_in=u.get('analog', 0), salinity=u.get('sal', 350) / 10, comments=u.get('comments', 'a comment'),
               user_specified_sound_speed=str(bool(bit(m0, 0))), analog_output=str(bool(bit(m0, 2))),
               output_format=['Vector', 'ADV'][bit(m0, 3)], serial_output=str(bool(bit(m0, 5))),
               power_output_analog=str(bool(bit(m0, 8))), n_pings_per_burst=u.get('adv_pings', 1),
               pressure_sensor=['no', 'yes'][bit(c.get('hcfg', 7), 0)], compass=['no', 'yes'][bit(c.get('hcfg', 7), 1)],
               tilt_sensor=['no', 'yes'][bit(c.get('hcfg', 7), 2)], carrier_freq_kHz=c.get('freq', 6000))
    hw = dict(serial='VEC 5322', fw='3.34', hwrev=4, rec=144, status=0, pic=0)
    hw.update(c.get('hw', {}))
    exp.update(serial_number=hw['serial'].ljust(8)[:8], firmware_version=hw['fw'], hardware_rev=hw['hwrev'],
               recorder_size_bytes=hw['rec'] * 65536, vel_range=['normal', 'high'][hw['status'] & 1],
               PIC_version=hw['pic'])
    for ky, v in exp.items():
        attr_same(ky, a[ky], v)
    if c.get('bm'):
        attr_same('burst_mode', a['burst_mode'], str(not bit(tim, 2)))
    m = R.model(dict(cc, mode0=m0), b)
    same('vel', ds.vel.values, m['vel'])
    return tuple(str(a[k]) for k in sorted(exp))


def switch(c):
    h, b = R.vector(c)
    ds = read(write(h + b''.join(x[1] for x in b), 'v.VEC'))
    m = R.model(c, b)
    R.compare(ds, m)
    return tuple(int(x) for x in ds.orientation_down.values)


def run(ex):
    q = ex.quick
    ex.cases('layout', [dict(c) for c in product(
        imu=(None, 195, 204, 211), cy=(0, 1, 2), fs=(1, 4, 8, 16) if q else (1, 2, 4, 8, 16, 32, 64),
        n=(17, 33, 50) if q else (17, 25, 33, 50, 96), check=(1, 0), mode0=(0, 16)) if c['n'] > 2 * c['fs']], one,
        "inertial record type x frame x rate x samples x check data x velocity resolution")
    ex.cases('long', [dict(imu=i, cy=1, fs=f, n=n, check=1, mode0=16) for i in (None, 195, 211) for f in (8, 64) for n in (255, 256, 257, 300, 515, 1030)], one, "beyond what the one-byte sample counter holds")
    ex.cases('values', [dict(c) for c in product(pat=('mix', 'lo', 'hi', 'ext'), spat=('mix', 'lo', 'hi', 'ext'),
                                                 imu=(None, 195, 204, 211), mode0=(0, 16), down=(0, 1), n=(24, 40))], one,
             "raw values at both ends of their range x sensors x orientation bit")
    ex.cases('imu_nan', [dict(n=24, imu=i, nvar=v, ncomp=k, imu_nan=ii) for i in (195, 204, 211) for v in ('accel', 'angrt', 'mag')
                         for k in range(3) for ii in ([0], [5], [3, 9], [8, 9, 10], [22]) if not (v == 'mag' and i == 195)], one,
             "inertial values that are not numbers before the last sample")
    tms = [N.TM3.ravel().tolist(), [4096, 0, 0, 0, 4096, 0, 0, 0, 4096], [32767, -32768, 1, -1, 0, 2, 3, -3, 4000]]
    tms += [[(-1) ** i * 1000 * (i == k) + 7 * i for i in range(9)] for k in range(9)]
    ex.cases('matrix', [dict(tm=t, cy=cy, n=20) for t in tms for cy in (1, 2)], one, "beam matrices")
    ex.cases('clock', [dict(n=n, fs=fs, t0=t0) for fs in (1, 2, 8, 32) for n in (2 * fs + 1, 4 * fs + 1, 5 * fs, 70 * fs + 1)
                       for t0 in (R.T0, 951782400 + 86390, 1582934395, 1735689590, 1262304000, 2208988790)],
             one, "files of 2 s to 70 s x calendar corner")
    cfg = [dict(u={})]
    cfg += [dict(u=dict(tim=1 << k)) for k in range(16)] + [dict(u=dict(mode0=1 << k)) for k in range(16)]
    cfg += [dict(u=dict(tim=a << 5 | b << 7 | d << 1)) for a in range(4) for b in range(8) for d in range(2)]
    cfg += [dict(u=dict(mode0=v)) for v in (0x12f, 0xffff, 0x110)]
    cfg += [dict(u=dict(sal=s)) for s in (0, 1, 350, 405)] + [dict(u=dict(name=s)) for s in ('', 'a', 'abcdef')]
    cfg += [dict(u=dict(comments=s)) for s in ('', 'x' * 80, 'two words')] + [dict(u=dict(wrap=1, analog=3, compass=7))]
    cfg += [dict(u=dict(adv_pings=k)) for k in (1, 255, 65535)] + [dict(u={}, hcfg=k) for k in range(8)]
    cfg += [dict(u={}, freq=f) for f in (6000, 10000)]
    cfg += [dict(u={}, hw=w) for w in (dict(serial='VEC12345'), dict(serial='vec 1'), dict(fw='1.00', hwrev=9),
                                       dict(rec=0), dict(rec=65535), dict(status=1), dict(pic=17))]
    ex.cases('config', cfg, config, "every decoded configuration field, bit by bit")
    ex.cases('burst_mode', [dict(u=dict(tim=t), bm=1) for t in (0, 2)], config, "burst mode bit clear")
    ex.cases('continuous_mode', [dict(u=dict(tim=t), bm=1) for t in (4, 6)], config, "burst mode bit set")
    ex.cases('flip', [dict(n=8 * len(s), per=8, down=list(s)) for k in range(1, ex.pick(5, 8))
                      for s in __import__('itertools').product((0, 1), repeat=k)] +
             [dict(n=n, per=p, down=d) for n in (16, 33) for p in (8,) for d in ([0, 1, 1, 0, 1], [1, 0], [0, 1])],
             switch, "every sequence of cable-orientation status bits over clock records")
    ex.assume("mc/enc_nortek.py is the layout of the Nortek System Integrator manual")
