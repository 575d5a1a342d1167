"""C26  Binning: bins, padding, means, variances, averaged datasets."""
import copy
import itertools
import numpy as np
import dolfyn
from dolfyn.binned import TimeBinner
from .. import dsets as D
from ..core import need, product, Fail
from ..util import same, attr_same, quiet

LEVEL = "exploration"
V = [0., 1., -2., 3.5, np.nan, 10., .25, -7.]


def series(n, pat, shape=()):
    k = np.arange(n)
    a = {'ramp': k * 1. - 3, 'wave': np.cos(k * 1.3) * 4 + k % 3, 'gaps': np.array([V[(i * i + 2 * i) % 8] for i in range(n)]),
         'nan': k * np.nan, 'big': 1500 + .5 * (k % 5), 'const': k * 0 + 2.}[pat]
    if pat == 'gaps' and n > 2:
        a[2] = np.nan
    for s in reversed(shape):
        a = np.stack([a * (j + 1) + j for j in range(s)])
    return a


def bins(a, n):
    m = a.shape[-1] // n
    return [[a[..., i * n + j] for j in range(n)] for i in range(m)]


def pad_ref(a, n, p):
    m = a.shape[-1] // n
    p0, p1 = p // 2, (p + 1) // 2
    out = np.zeros(a.shape[:-1] + (m, n + p), dtype=a.dtype)
    for i in range(m):
        for j in range(n + p):
            k = i * n + j - p0
            if 0 <= k < m * n:
                out[..., i, j] = a[..., k]
    return out


def reshape(c):
    a = series(c['L'], 'gaps' if c['dt'] == 'f8' else 'ramp', c['shape']).astype(c['dt'])
    b0 = a.copy()
    bnr = TimeBinner(c['n'] if not c['over'] else c['n'] + 3, 1)
    kw = dict(n_bin=c['n']) if c['over'] else {}
    if c['L'] < c['n']:
        try:
            bnr.reshape(a, n_pad=c['pad'], **kw)
        except Exception:
            return None
        raise Fail("a record shorter than one bin is accepted")
    g = bnr.reshape(a, n_pad=c['pad'], **kw)
    same('reshape', g, pad_ref(a, c['n'], c['pad']), 0, 0)
    need(g.dtype == a.dtype, "dtype %s", g.dtype)
    same('input', a, b0, 0, 0)
    return g.shape


def fraction(c):
    """Bin sizes that are not whole: int(n_bin) samples per bin, bin i starting at i * n_bin."""
    n, L = c['n'], c['L']
    a = np.arange(L, dtype=float)
    g = TimeBinner(n, 1).reshape(a)
    q = int(n)
    need(g.ndim == 2 and g.shape[1] == q, "bins of %s", g.shape)
    m = int(L // n)
    need(g.shape[0] == m, "%d bins, expected %d", g.shape[0], m)
    e = np.floor(np.arange(g.size) * n / q).reshape(g.shape)
    same('samples', g, e, 0, 0)
    mm = TimeBinner(n, 1).mean(a)
    same('mean', mm, e.mean(-1), 1e-9)
    return g.shape


def fraction_nd(c):
    """The same with neighbours and more dimensions."""
    n, L, p = c['n'], c['L'], c['pad']
    q, m = int(n), int(L // n)
    a = np.stack([np.arange(L) + 1000. * (j + 1) for j in range(3)])
    if c['nd'] == 3:
        a = np.stack([a, -a])
    g = TimeBinner(n, 1).reshape(a, n_pad=p)
    need(g.shape == a.shape[:-1] + (m, q + p), "shape %s", g.shape)
    k = np.floor(np.arange(m * q) * n / q).astype(int)
    e = pad_ref(a[..., k], q, p)
    same('samples', g, e, 0, 0)
    return g.shape


def along(c):
    """Along another axis than the last: the same bins, wherever the result puts them."""
    a = series(c['L'], c['pat'], c['shape'])
    b = TimeBinner(c['n'], 1)
    with np.errstate(all='ignore'), quiet():
        e = b.mean(a)
        g = b.mean(np.swapaxes(a, c['axis'], -1), axis=c['axis'])
    if g.shape != e.shape or not np.allclose(g, e, equal_nan=True):
        g = np.swapaxes(g, c['axis'], -1)
    same('mean', g, e, 1e-12)
    return g.shape


def stats(c):
    a = series(c['L'], c['pat'], c['shape']).astype(c['dt'])
    if c['dt'] != 'i4':
        a = a.astype(c['dt'])
    b0 = a.copy()
    bnr = TimeBinner(c['n'] if not c['over'] else c['n'] + 1, 1)
    kw = dict(n_bin=c['n']) if c['over'] else {}
    n, m = c['n'], c['L'] // c['n']
    with np.errstate(all='ignore'):
        gm, gv, gs, gd = bnr.mean(a, **kw), bnr.var(a, **kw), bnr.std(a, **kw), bnr.demean(a, **kw)
        em = np.empty(a.shape[:-1] + (m,))
        ev = em.copy()
        ed = np.empty(a.shape[:-1] + (m, n))
        for ix in itertools.product(*[range(s) for s in a.shape[:-1]]):
            for i in range(m):
                x = [float(a[ix + (i * n + j,)]) for j in range(n)]
                ok = [y for y in x if y == y]
                mu = sum(ok) / len(ok) if ok else np.nan
                em[ix + (i,)] = mu
                ev[ix + (i,)] = sum((y - mu) ** 2 for y in ok) / len(ok) if ok else np.nan
                ed[ix + (i,)] = [y - mu for y in x]
    sc = 1e-6 if c["pat"] != "big" else 1e-2
    same('mean', gm, em, 1e-5, 1e-6)
    same('var', gv, ev, 1e-4, sc)
    same('std', gs, np.sqrt(ev), 1e-4, 1e-3 if c['pat'] == 'big' else 1e-6)
    same('demean', gd, ed, 1e-4, 1e-5 if c['dt'] == 'f8' or c['pat'] != 'big' else 1e-2)
    same('input', a, b0, 0, 0)
    return np.round(np.nan_to_num(em), 3).tolist()


def trend(c):
    """The straight line of each bin is removed, nothing else."""
    n, m = c['n'], c['L'] // c['n']
    a = series(c['L'], c['pat'], c['shape']).astype(c['dt'])
    b0 = a.copy()
    with np.errstate(all='ignore'):
        g = TimeBinner(n, 1).detrend(a)
    e = np.empty(a.shape[:-1] + (m, n))
    x = np.arange(n) - (n - 1) / 2
    for ix in itertools.product(*[range(s) for s in a.shape[:-1]]):
        for i in range(m):
            y = a[ix][i * n:(i + 1) * n].astype(float)
            e[ix + (i,)] = y - y.mean() - (x * (y - y.mean())).sum() / (x ** 2).sum() * x
    same('detrend', g, e, 1e-4, 1e-4)
    same('input', a, b0, 0, 0)
    return np.round(e, 3).tolist()


def gaps(c):
    """With missing samples the line is fitted to the valid ones."""
    y = series(c['n'], 'wave')
    for i in c['miss']:
        y[i] = np.nan
    x = np.arange(c['n'], dtype=float)
    ok = ~np.isnan(y)
    p = np.polyfit(x[ok], y[ok], 1) if ok.sum() > 1 else [y[ok][0]]
    g = TimeBinner(c['n'], 1).detrend(y)[0]
    same('detrend with gaps', g, y - np.polyval(p, x), 1e-6, 1e-6)
    return 1


def times(c):
    t = np.datetime64('2020-01-01') + (np.arange(c['L']) * c['dt']).astype('timedelta64[ms]').astype('timedelta64[ns]')
    t = t.astype('datetime64[ns]')
    g = TimeBinner(c['n'], 1).mean(t)
    m = c['L'] // c['n']
    ti = (t - np.datetime64('2020-01-01')).astype('int64')
    e = np.array([sum(int(v) for v in ti[i * c['n']:(i + 1) * c['n']]) / c['n'] for i in range(m)])
    need(g.dtype.kind == 'M', "dtype %s", g.dtype)
    same('time', (g.astype('datetime64[ns]') - np.datetime64('2020-01-01', 'ns')).astype('int64').astype(float), e, 0, 2000)
    return m


def stamps(t, n):
    """The mean of the times that are there in each bin (NaT where none is)."""
    m = t.size // n
    ti = t.astype('datetime64[ns]')
    out = np.full(m, np.datetime64('NaT'), 'datetime64[ns]')
    for i in range(m):
        k = [int(v) for v in ti[i * n:(i + 1) * n].astype('int64') if v != np.iinfo('int64').min]
        if k:
            out[i] = np.datetime64(sum(k) // len(k), 'ns')
    return out


def times_missing(c):
    """Samples without a time leave the times of the others as they are."""
    n = c['n']
    miss = np.array(c['miss'], bool)
    t = np.datetime64('2020-01-01', 'ns') + (np.arange(miss.size) * 62500).astype('timedelta64[us]')
    t[miss] = np.datetime64('NaT')
    with quiet(), np.errstate(all='ignore'):
        g = TimeBinner(n, 1).mean(t)
    e = stamps(t, n)
    same('time', g, e, 0, 2e-6)
    return list(np.isnat(e))


def dataset(c):
    ds = D.full(c['ds'])
    if c['frame'] and ds.coord_sys != c['frame']:
        with quiet():
            dolfyn.rotate2(ds, c['frame'])
    for i, v in enumerate(c['nanv']):
        if v in ds and ds[v].dtype.kind == 'f':
            ds[v].values[..., i] = np.nan
    for d in [d for d in ds.coords if d.startswith('time')] if c.get('notime') else []:
        t = ds[d].values.copy()
        t[[i for i in c['notime'] if i < t.size]] = np.datetime64('NaT')
        ds = ds.assign_coords({d: (d, t, ds[d].attrs)})
    return ds


def expect(ds, n, var):
    out = {}
    for v in ds.data_vars:
        if 'ensemble' in v or 'altraw' in str(ds[v].dims) or not ds[v].dims or 'time' not in ds[v].dims[-1]:
            continue
        if ds[v].dtype.kind not in 'fiub':
            continue
        a = ds[v].values.astype(float)
        m = a.shape[-1] // n
        r = a[..., :m * n].reshape(a.shape[:-1] + (m, n))
        with np.errstate(all='ignore'):
            out[v] = np.nanvar(r, -1) if var else np.nanmean(r, -1)
    return out


def average(c):
    ds = dataset(c)
    keep = ds.copy(deep=True)
    ka = copy.deepcopy(ds.attrs)
    n = c['n']
    bnr = dolfyn.VelBinner(n, ds.fs)
    with quiet(), np.errstate(all='ignore'):
        out = bnr.do_avg(ds, **({'names': c['names']} if c['names'] else {}))
        e = expect(ds, n, False)
        names = c['names'] or list(e)
        for v in names:
            need(v in out, "%s is missing from the averages", v)
            sc = max(1., float(np.nanmax(np.abs(e[v]))) if np.isfinite(e[v]).any() else 1.)
            same(v, out[v].values, e[v], 2e-6, 1e-6 * sc)
            need(out[v].dims == ds[v].dims, "dims of %s: %s", v, out[v].dims)
            attr_same(v + ' attrs', out[v].attrs, ds[v].attrs)
            for d in out[v].dims:
                if 'time' in d:
                    same(d, out[d].values, stamps(ds[d].values, n), 0, 2e-6)
                elif d in ds.coords:
                    same(d, out[d].values, ds[d].values, 0, 0)
        if not c['names']:
            s = np.sqrt(expect(keep.assign(U=keep.velds.U_mag), n, True)['U'])
            same('U_std', out['U_std'].values, s, 1e-3, 1e-4)
            need(out['U_std'].dims == ds.vel.dims[1:], "dims of U_std")
        for k in ka:
            attr_same(k, out.attrs[k], ka[k])
        for k, w in (('fs', ds.fs), ('n_bin', n), ('n_fft', n)):
            attr_same(k, out.attrs[k], w)
        o2 = bnr.do_var(ds, out_ds=out if c['into'] else None)
        need((o2 is out) == bool(c['into']), "the dataset given is the one returned")
        ev = expect(ds, n, True)
        for v in ev:
            need(v + '_var' in o2, "%s_var is missing", v)
            sc = max(1., float(np.nanmax(np.abs(ds[v].values.astype(float)))) if np.isfinite(ds[v].values.astype(float)).any() else 1.)
            same(v + '_var', o2[v + '_var'].values, ev[v], 1e-3, 1e-6 * sc * sc)
        if c['into']:
            for v in names:
                need(v in o2, "%s vanished", v)
    need(set(ds.variables) == set(keep.variables), "variables of the raw dataset changed")
    for v in ds.variables:
        same('raw ' + v, ds[v].values, keep[v].values, 0, 0)
    attr_same('raw attrs', ds.attrs, ka)
    return (c['ds'], n, sorted(o2.data_vars))


def refuse(c):
    ds = dataset(dict(c, nanv=[], frame=None))
    bad = dolfyn.VelBinner(2, ds.fs)
    with quiet():
        if c['what'] == 'fs':
            bad = dolfyn.VelBinner(2, ds.fs * 2)
            f = lambda: bad.do_avg(ds)
        elif c['what'] == 'attrs':
            out = bad.do_avg(ds)
            out.attrs['n_bin'] = 3
            f = lambda: bad.do_var(ds, out_ds=out)
        elif c['what'] == 'raw':
            out = bad.do_avg(ds)
            out.attrs['coord_sys'] = 'other'
            f = lambda: bad.do_var(ds, out_ds=out)
        try:
            f()
        except Exception:
            return c['what']
    raise Fail("accepted")


def run(ex):
    ex.cases('reshape', product(L=ex.pick(range(1, 15), range(1, 26)), n=ex.pick(range(1, 7), range(1, 12)), pad=ex.pick(range(0, 5), range(0, 8)),
                                shape=[(), (3,), (2, 2)], dt=['f8', 'f4', 'i4'], over=[0, 1]),
             lambda c: reshape(c) if c['pad'] <= c['n'] else None, "record length x bin size x padding x shape x type")
    ex.cases('fraction', product(n=[1.5, 2.5, 3.25, 4.75, 8.5, 16.125], L=ex.pick(range(17, 400, 7), range(17, 1200, 3))), fraction,
             "bin sizes that are not whole numbers")
    ex.cases('fraction_nd', product(n=[2.5, 3.25, 4.75, 8.5], L=ex.pick(range(17, 120, 7), range(17, 400, 3)), pad=[0, 1, 2], nd=[2, 3]), fraction_nd,
             "the same in two and three dimensions, padded")
    ex.cases('axis', [dict(L=L, n=n, pat=p, shape=s, axis=x) for L in (7, 12) for n in (2, 3, 5) for p in ('wave', 'gaps') for s in ((4,), (3, 2), (2, 3, 2))
                      for x in range(-len(s) - 1, len(s) + 1)], along, "means along every axis")
    ex.cases('stats', product(L=ex.pick([1, 4, 7, 12], range(1, 20)), n=ex.pick([1, 2, 3, 4], range(1, 8)), pat=['ramp', 'wave', 'gaps', 'nan', 'big', 'const'],
                              shape=[(), (3,), (2, 2)], dt=['f8', 'f4'], over=[0, 1]),
             lambda c: stats(c) if c['L'] >= c['n'] else None, "length x bin x values x shape")
    ex.cases('detrend', product(L=ex.pick([4, 7, 12], range(3, 25)), n=ex.pick([2, 3, 4], range(2, 12)), pat=['ramp', 'wave', 'big', 'const'],
                                shape=[(), (3,), (2, 2)], dt=['f8', 'f4', 'i4']),
             lambda c: trend(c) if c['L'] >= c['n'] else None, "length x bin x values x shape x type")
    ex.cases('detrend_gaps', [dict(n=n, miss=list(q)) for n in (5, 6) for k in (1, 2, 3, n - 1) for q in itertools.combinations(range(n), k)], gaps,
             "every set of one, two, three or all but one missing samples")
    ex.cases('times', product(L=ex.pick([4, 9], range(2, 20)), n=[1, 2, 3, 4], dt=[1, 62.5, 125, 1000, 3600000]),
             lambda c: times(c) if c['L'] >= c['n'] else None, "bin times")
    ex.cases('times_missing', [dict(n=n, miss=list(q)) for n in ex.pick((2, 3), (1, 2, 3, 4)) for q in itertools.product((0, 1), repeat=ex.pick(7, 9))], times_missing,
             "every set of samples without a time")
    dss = ['rdi', 'rdi_earth', 'sig', 'sig_bt', 'vector', 'vector_imu', 'awac', 'vno']
    cs = []
    for d in dss:
        for f in (None, 'inst', 'earth'):
            if d == 'vno' and f:
                continue
            for n in ex.pick((2, 3), (1, 2, 3, 4)):
                for nv in ([], ['vel', 'pressure', 'heading']):
                    for names in (None, ['vel'], ['vel', 'temp']):
                        if d == 'vno' and names == ['vel', 'temp']:
                            continue
                        for into in (0, 1):
                            cs.append(dict(ds=d, frame=f, n=n, nanv=nv, names=names, into=into))
    cs += [dict(ds=d, frame=None, n=n, nanv=[], names=None, into=1, notime=t) for d in dss for n in (2, 3) for t in ([0], [1], [0, 1], [2], [0, 1, 2])]
    ex.cases('datasets', cs, average, "instrument x frame x bin size x missing samples x variables chosen")
    ex.cases('refuse', product(ds=dss, what=['fs', 'attrs', 'raw']), refuse, "mismatched sampling rates and settings")
    ex.assume("bins are filled with plain (not circular) means of every variable")
