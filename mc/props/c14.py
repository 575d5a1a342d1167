"""C14  File-type dispatch and the user-data file."""
import json
import os
import numpy as np
import dolfyn
from .. import enc_ad2cp as A
from .. import enc_rdi as E
from .. import nortek_ref as N
from .. import rdi_ref as R
from . import c01
from ..core import need, product, scratch, Fail
from ..util import write, read, ds_same, quiet, same

LEVEL = "exploration"
KNOWN = {b'\x7f\x79': 'rdi', b'\x7f\x7f': 'rdi', b'\xa5\x0a': 'signature', b'\xa5\x05': 'nortek'}


def make(kind, **kw):
    if kind == 'rdi':
        return b''.join(R.build(dict(n=3, cfg=dict(ncells=2, **kw)))[1])
    if kind == 'signature':
        c = dict(n=3, lay=[21], fl=['vel', 'amp', 'corr'], nc=2, cy=kw.get('cy', 'beam'))
        return A.file_bytes([r for e in c01.build(c) for r in e])
    if kind == 'vector':
        h, b = N.vector(dict(n=9, fs=4, imu=kw.get('imu'), nb=0, cy=kw.get('cy', 1)))
        return h + b''.join(x[1] for x in b)
    if kind == 'awac':
        h, b = N.awac(dict(n=3, nbins=2))
        return h + b''.join(x[1] for x in b)
    if kind == 'vno':
        h, b = N.vno(dict(n=5))
        return h + b''.join(x[1] for x in b)
    raise KeyError(kind)


READER = dict(rdi=dolfyn.io.api.read_rdi, signature=dolfyn.io.api.read_signature, vector=dolfyn.io.api.read_nortek,
              awac=dolfyn.io.api.read_nortek, vno=dolfyn.io.api.read_nortek)


# ------------------------------------------------------------------ dispatch
def codes(c):
    d = scratch()
    n = 0
    for hi in c['hi']:
        for lo in range(256):
            b = bytes([hi, lo])
            if b in KNOWN:
                continue
            p = write(b + c['tail'].encode('latin1'), 'x' + c['ext'], d)
            try:
                read(p)
            except IOError as e:
                need('not recognized' in str(e), "first bytes %s: %r", b.hex(), str(e)[:90])
                n += 1
                continue
            except Exception as e:
                raise Fail("first bytes %s: %s instead of IOError" % (b.hex(), type(e).__name__))
            raise Fail("a file that starts with %s was read" % b.hex())
    return n


def short(c):
    """Files too short to tell and Git-LFS pointers are refused with IOError."""
    p = write(c['data'].encode('latin1'), 'x' + c['ext'])
    try:
        read(p)
    except IOError as e:
        need(('git-lfs' in str(e)) == c['lfs'], "message %r", str(e)[:90])
        return str(e)[:10]
    raise Fail("read succeeded")


def names(c):
    """The reader is chosen by content: any name, same data as the instrument's own reader."""
    data = make(c['kind'])
    a = read(write(data, c['name']))
    with quiet():
        b = READER[c['kind']](write(data, c['name']))
    skip = ('filehead_config',) if 0 else ()
    ds_same(a, b, 'read() and the reader', skip_attrs=skip)
    if c['name'].rsplit('.')[-1] != 'ENX':
        z = read(write(data, 'plain.bin'))
        ds_same(a, z, 'file name ' + c['name'], skip_attrs=skip)
    m = (a.attrs['inst_make'] + ' ' + a.attrs['inst_model'] + ' ' + a.attrs['inst_type']).lower()
    need({'rdi': 'rdi', 'signature': 'signature', 'vector': 'vector adv', 'awac': 'awac adcp', 'vno': 'vectrino adv'}[c['kind']]
         in m, "instrument %s", m)
    return m


# ------------------------------------------------------------------ location
def find(c):
    """Which user-data file is used: explicit path, <base>.userdata.json, <file>.userdata.json, none."""
    d = scratch()
    data = make(c['kind'])
    p = write(data, c['name'], d)
    base = p.rsplit('.', 1)[0] if '.' in c['name'] else p
    if c['base']:
        open(base + '.userdata.json', 'w').write(json.dumps(dict(who='base')))
    if c['full']:
        open(p + '.userdata.json', 'w').write(json.dumps(dict(who='full')))
    e = os.path.join(d, c['epath'])
    os.makedirs(os.path.dirname(e), exist_ok=True)
    open(e, 'w').write(json.dumps(dict(who='explicit')))
    kw = {} if c['mode'] == 'default' else dict(userdata={'true': True, 'false': False, 'path': e}[c['mode']])
    ds = read(p, **kw) if c['via'] == 'read' else READER[c['kind']](p, **kw)
    if c['mode'] == 'path':
        exp = 'explicit'
    elif c['mode'] == 'false':
        exp = None
    else:
        exp = 'base' if c['base'] else 'full' if c['full'] else None
        if base == p and c['full']:
            exp = 'full'      # same file name, written last
    need(ds.attrs.get('who') == exp, "user data taken from %r, expected %r", ds.attrs.get('who'), exp)
    return exp or 'none'


def content(c):
    """The content of the file ends up in the data exactly as if set by hand."""
    data = make(c['kind'], **c.get('kw', {}))
    d = scratch()
    p = write(data, 'd.bin', d)
    ref = read(p, userdata=False)
    open(os.path.join(d, 'd.userdata.json'), 'w').write(json.dumps(c['ud']))
    ds = read(p)
    ud = dict(c['ud'])
    rot = None
    for k in ('inst2head_rotmat', 'body2head_rotmat'):
        if k in ud:
            rot = ud.pop(k)
    if rot is not None:
        rot = np.eye(3) if rot in ('identity', 'eye', 1, 1.0) else np.array(rot)
    dec = ud.pop('declination', None)
    if 'body2head_vec' in ud:
        ud['inst2head_vec'] = ud.pop('body2head_vec')
    for k, v in ud.items():
        ref.attrs[k] = v
    with quiet():
        if rot is not None:
            dolfyn.set_inst2head_rotmat(ref, rot)
        if dec is not None:
            dolfyn.set_declination(ref, dec)
    ds_same(ds, ref, 'user data', rtol=1e-6, atol=1e-6)
    if dec is not None:
        need(abs(ds.attrs['declination'] - dec) < 1e-12, "declination attribute")
    for k, v in ud.items():
        need(np.all(np.asarray(ds.attrs[k]) == np.asarray(v)) and type(ds.attrs[k]) == type(v), "attribute %s = %r", k, ds.attrs[k])
    return sorted(c['ud'])


def magvar(c):
    """A user-set declination overrides the one recorded by the TRDI software."""
    data = make('rdi', frame=c['frame'], magvar=c['mv'])
    d = scratch()
    p = write(data, 'd.bin', d)
    ref = read(p, userdata=False)
    open(os.path.join(d, 'd.userdata.json'), 'w').write(json.dumps(dict(declination=c['dec'])))
    ds = read(p)
    with quiet():
        dolfyn.set_declination(ref, c['dec'])
    need(ds.attrs['declination'] == c['dec'], "declination attribute")
    for v in ('orientmat', 'vel', 'heading'):
        try:
            same(v, ds[v].values, ref[v].values, rtol=1e-5, atol=1e-5)
        except Fail:
            raise Fail("data keep the declination recorded in the file: %s" % v)
    ds_same(ds, ref, 'user data', rtol=1e-5, atol=1e-5)
    return c['dec']


def run(ex):
    ex.cases('codes', [dict(hi=[h], tail=t, ext=e) for h in range(256) for t, e in ex.pick(
        [('\x00' * 30, '.VEC')], [('', '.VEC'), ('\x00' * 30, '.ad2cp'), ('\xa5\x05' * 20, '.000'), ('', '')])], codes,
        "all 65536 first byte pairs: refused unless the pair is one of the four known")
    ptr = 'version https://git-lfs.github.com/spec/v1\noid sha256:%s\nsize 123\n' % ('0' * 64)
    ex.cases('refused', [dict(data=b, ext=e, lfs=l) for e in ('.VEC', '.ad2cp', '.000', '.PD0', '')
                         for b, l in [('', False), ('\xa5', False), ('\x7f', False), ('v', False), (ptr[:30], False),
                                      (ptr, True), (ptr[:40], True), (ptr[1:], False), ('\n' + ptr, False)]], short,
             "short files and LFS pointers")
    ex.cases('name', [dict(kind=k, name=n) for k in READER for n in ('a.VEC', 'a.ad2cp', 'a.000', 'a.b.PD0', 'a.ENX', 'a.ENR', 'a.wpr',
                                                                      'noext', 'a.vno', 'x y.dat')], names,
             "instrument x file name")
    ex.cases('find', [c for c in product(kind=('rdi', 'signature', 'vector', 'awac'), name=('m.VEC', 'a.b.dat', 'noext'),
                                         base=(0, 1), full=(0, 1), mode=('default', 'true', 'false', 'path'),
                                         epath=('other.json', 'sub/m.userdata.json'), via=('read', 'reader'))
                      if not (c['via'] == 'reader' and c['mode'] == 'default')], find,
             "instrument x name x which files exist x mode")
    rots = [[[0, 0, -1], [0, -1, 0], [-1, 0, 0]], [[0, 1, 0], [-1, 0, 0], [0, 0, 1]], [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
            [[0.6, 0.8, 0], [-0.8, 0.6, 0], [0, 0, 1]], 'identity', 'eye', 1, 1.0]
    extra = [{}, dict(latlon=[39.9, -105.2]), {'motion accel_filtfreq Hz': .03}, dict(inst2head_vec=[1., .5, .2]),
             dict(body2head_vec=[1., .5, .2]), dict(station='A', n=3), dict(empty='')]
    cs = []
    for k, kws in (('rdi', [dict(frame=f) for f in range(4)]), ('signature', [dict(cy=f) for f in ('beam', 'XYZ', 'ENU')]),
                   ('awac', [{}])):
        cs += [dict(kind=k, kw=kw, ud=dict(e, **({} if d is None else dict(declination=d)))) for kw in kws for e in extra
               for d in (None, 0, 8.28, -17.5, 179)]
    cs += [dict(kind='vector', kw=dict(cy=cy, imu=imu), ud=dict(e, **dict(({} if d is None else dict(declination=d)),
           **({} if r is None else {rk: r})))) for cy in (0, 1, 2) for imu in (None, 195) for e in extra
           for d in (None, 8.28, -17.5) for r in [None] + rots for rk in ('inst2head_rotmat', 'body2head_rotmat')
           if not (r is None and rk[0] == 'b') and not (cy == 0 and e)]
    ex.cases('content', cs, content, "instrument x frame x declination x head matrix x other entries")
    ex.cases('magvar', [dict(frame=f, mv=m, dec=d) for f in range(4) for m in (100, -250, 9) for d in (0, 5.5, -12)], magvar,
             "declination both in the file and in the user data")
    ex.assume("user-data names containing 'dec' or 'rotmat' other than the documented ones are not used")
