"""C22  Declination: the earth frame is true earth, whatever was set before and whenever."""
import itertools
import numpy as np
import dolfyn
from .. import rot_ref as R
from ..core import need, product
from ..util import angle_same, ds_same, quiet, same

LEVEL = "model_checking"
HOWS = ('fn', 'acc', 'copy')


def put(ds, d, how):
    with quiet():
        if how == 'fn':
            need(dolfyn.set_declination(ds, d) is None, "in-place call returned a value")
        elif how == 'acc':
            need(ds.velds.set_declination(d) is None, "in-place call returned a value")
        else:
            b = ds.copy(deep=True)
            r = dolfyn.set_declination(ds, d, inplace=False)
            ds_same(ds, b, "caller's dataset", rtol=0, atol=0)
            return r
    return ds


def seq(c):
    ds = R.dataset(c['src'], c.get('hpr', 'mix'))
    m = R.Model(ds, c['src'])
    if c['ph'] is not None:
        ds.attrs['principal_heading'] = m.ph = c['ph']
    if c.get('frame') and c['frame'] != m.frame:
        with quiet():
            dolfyn.rotate2(ds, c['frame'])
        m.frame = c['frame']
    nohead = c.get('drop')
    if nohead:
        ds = ds.drop_vars('heading')
    h0 = None if nohead else ds['heading'].values.copy()
    keep = {v: ds[v].values.copy() for v in ds.variables if v not in list(m.v) + ['heading', 'orientmat', 'dir', 'dirIMU']}
    for d in c['seq']:
        ds = put(ds, d, c['how'])
        m.declin(d)
        m.check(ds, 'declination %s: ' % d, atol=4e-4)
        need(ds.attrs['declination_in_orientmat'] == 1, "declination_in_orientmat")
        if h0 is not None:
            angle_same('heading', ds['heading'].values, h0 + d, 2e-3)
    if nohead:
        need('heading' not in ds, "heading invented")
    for v in keep:
        same(v, ds[v].values, keep[v], 0, 0)
    # only the last value counts
    if len(c['seq']) > 1:
        one = R.dataset(c['src'], c.get('hpr', 'mix'))
        with quiet():
            if c.get('frame') and c['frame'] != one.attrs['coord_sys']:
                if c['ph'] is not None:
                    one.attrs['principal_heading'] = c['ph']
                dolfyn.rotate2(one, c['frame'])
            dolfyn.set_declination(one, c['seq'][-1])
        for v in m.v:
            same('all settings vs the last alone: ' + v, ds[v].values, one[v].values, 1e-4, 4e-4)
        same('orientmat', ds['orientmat'].values, one['orientmat'].values, 1e-4, 1e-4)
    # true earth: every horizontal vector turns clockwise by d
    if m.frame != 'ship' and m.frame != 'principal':
        mag = R.dataset(c['src'], c.get('hpr', 'mix'))
        with quiet():
            dolfyn.rotate2(mag, 'earth')
            dolfyn.rotate2(ds, 'earth')
        a = np.radians(c['seq'][-1])
        for v in m.v:
            e, n = mag[v].values[:2].astype(float)
            same('east of ' + v, ds[v].values[0], e * np.cos(a) + n * np.sin(a), 1e-4, 4e-4)
            same('north of ' + v, ds[v].values[1], n * np.cos(a) - e * np.sin(a), 1e-4, 4e-4)
            same('vertical of ' + v, ds[v].values[2:], mag[v].values[2:], 1e-4, 4e-4)
    return [c['src'], m.frame]


def run(ex):
    q = ex.quick
    vals = list(range(-180, 181, ex.pick(20, 5))) + [0.5, -17.25, 359., 1e-3]
    fr = dict(beam=['beam', 'inst', 'earth', 'principal'], ship=['ship', 'earth', 'principal'])
    cs = []
    for s in R.SRC:
        for f in fr['ship' if 'ship' in s else 'beam']:
            for ph in [None, 30.]:
                if f == 'principal' and ph is None:
                    continue
                for d in vals:
                    cs.append(dict(src=s, frame=f, ph=ph, seq=[d], how='fn'))
                for d in [12.5, -40.]:
                    for how in ('acc', 'copy'):
                        cs.append(dict(src=s, frame=f, ph=ph, seq=[d], how=how))
                cs.append(dict(src=s, frame=f, ph=ph, seq=[9.], how='fn', drop=1))
    ex.cases('values', cs, seq, "instrument x frame x principal heading x declination x way of calling")
    D = [0., 10., -25.5, 180.]
    seqs = [list(x) for n in (2, 3, ex.pick(3, 4)) for x in itertools.product(D, repeat=n)]
    seqs = [list(x) for x in {tuple(x) for x in seqs}]
    seqs.sort(key=lambda x: (len(x), x))
    cs = [dict(src=s, frame=f, ph=ph, seq=x, how='fn') for s in R.SRC if not ('ship' in s)
          for f, ph in [('beam', None), ('inst', None), ('earth', None), ('principal', 30.), ('earth', 30.)] for x in
          (seqs if s in ('vec_earth', 'sig_inst', 'rdi_beam') or not q else seqs[:20])]
    ex.cases('repeated', cs, seq, "all sequences of declinations to the depth bound x instrument x frame")
    ex.cases('orientations', product(src=list(R.SRC), hpr=['level', 'tilt', 'mix'], ph=[None, 30.], seq=[[15.], [-100.], [8., -8.]],
                                     how=['fn']), seq, "orientations, as recorded")
