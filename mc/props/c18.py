"""C18  Time conversions."""
import calendar
import itertools
import os
import time as _time
from datetime import datetime, timedelta
import numpy as np
import xarray as xr
import dolfyn.time as T
from ..core import need, product
from ..util import same

LEVEL = "exploration"
EP = datetime(1970, 1, 1)


def us(d):
    x = d - EP
    return (x.days * 86400 + x.seconds) * 10**6 + x.microseconds


def days():
    """Calendar corners: first and last days of months, leap days, new years, 1970 and 2038."""
    out = []
    for y in (1950, 1969, 1970, 1971, 1999, 2000, 2001, 2004, 2019, 2020, 2037, 2038, 2100):
        for m in range(1, 13):
            for d in (1, 2, 28, calendar.monthrange(y, m)[1]):
                out.append((y, m, d))
    return sorted(set(out))


CLOCK = [(0, 0, 0, 0), (23, 59, 59, 999999), (12, 0, 0, 500000), (0, 0, 0, 1), (6, 30, 15, 123456), (23, 59, 59, 999900),
         (1, 2, 3, 999999), (11, 59, 59, 31250), (0, 0, 1, 0), (18, 0, 0, 100), (3, 33, 33, 333300)]


def conv(c):
    os.environ['TZ'] = c['tz']
    _time.tzset()
    try:
        ds = [datetime(*c['day'], *k) for k in CLOCK]
        ref = np.array([us(d) for d in ds], dtype='int64')
        dt = ref.astype('datetime64[us]').astype('datetime64[ns]')
        e = ref / 1e6
        # every representation to every other
        same('date2epoch', T.date2epoch(list(ds)), e, 0, 2e-6)
        same('dt642epoch', T.dt642epoch(dt), e, 0, 2e-6)
        same('date2dt64', T.date2dt64(list(ds)), dt, 0, 0)
        need(T.date2dt64(list(ds)).dtype == np.dtype('datetime64[ns]'), "date2dt64 type")
        r = T.epoch2dt64(e)
        same('epoch2dt64', r, dt, 0, 2e-6)
        need(r.dtype == np.dtype('datetime64[ns]'), "epoch2dt64 type %s", r.dtype)
        for nm, got in (('dt642date', T.dt642date(dt)), ('epoch2date', T.epoch2date(e)), ('epoch2date list', T.epoch2date(list(e))),
                        ('epoch2date xarray', T.epoch2date(xr.DataArray(e))), ('dt642date xarray', T.dt642date(xr.DataArray(dt)))):
            need(len(got) == len(ds) and all(isinstance(g, datetime) and g.tzinfo is None for g in got), "%s: type", nm)
            for g, d in zip(got, ds):
                need(abs((g - d).total_seconds()) <= 2e-6, "%s: %s, expected %s", nm, g, d)
        m = T.date2matlab(list(ds))
        same('date2matlab', m, ref / 86400e6 + 719529, 0, 3e-10)
        for g, d in zip(T.matlab2date(m), ds):
            need(abs((g - d).total_seconds()) <= 6e-5, "matlab2date: %s, expected %s", g, d)
            need(g.microsecond % 100 == 0, "matlab2date resolution: %s", g)
        for g, d in zip(T.matlab2date(np.array(ref / 86400e6 + 719529)), ds):
            need(abs((g - d).total_seconds()) <= 6e-5, "matlab2date: %s, expected %s", g, d)
        s = T.date2str(list(ds))
        need(s == ['%04d-%02d-%02d %02d:%02d:%02d.%06d' % (d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond)
                   for d in ds], "date2str %s", s[:2])
        need(T.date2str(list(ds), '%d/%m %H') == ['%02d/%02d %02d' % (d.day, d.month, d.hour) for d in ds], "date2str format")
        for off in (0, -7, 1, 24, .5):
            got = T.epoch2date(e, offset_hr=off)
            for g, d in zip(got, ds):
                need(abs((g - d).total_seconds() - off * 3600) <= 2e-6, "epoch2date offset %s: %s", off, g)
            need(T.epoch2date(e, offset_hr=off, to_str=True) == T.date2str(got), "to_str")
        # single elements
        for k in range(len(ds)):
            need(abs((T.epoch2date(float(e[k]))[0] - ds[k]).total_seconds()) <= 2e-6, "single epoch2date")
            need(abs((T.epoch2date(np.array(e[k]))[0] - ds[k]).total_seconds()) <= 2e-6, "0-d epoch2date")
            need(abs((T.dt642date(dt[k])[0] - ds[k]).total_seconds()) <= 2e-6, "single dt642date")
            need(abs(T.date2epoch(ds[k])[0] - e[k]) <= 2e-6, "single date2epoch")
            need(abs(T.dt642epoch(dt[k]) - e[k]) <= 2e-6, "single dt642epoch")
            need(T.date2dt64(ds[k]) == dt[k], "single date2dt64")
            need(abs(int(T.epoch2dt64(np.float64(e[k])).astype('int64')) - ref[k] * 1000) <= 2000, "single epoch2dt64")
            need(T.date2str(ds[k]) == [s[k]], "single date2str")
        x = T.epoch2dt64(xr.DataArray(e, dims='time'))
        same('epoch2dt64 xarray', x, dt, 0, 2e-6)
        same('dt642epoch xarray', T.dt642epoch(xr.DataArray(dt, dims='time')), e, 0, 2e-6)
    finally:
        os.environ['TZ'] = 'UTC'
        _time.tzset()
    return int(ref.sum())


def step(c):
    """Times on a regular grid keep order and spacing through every conversion."""
    n = 400
    t0 = us(datetime(*c['t0']))
    ref = t0 + np.round(np.arange(n) * 1e6 / c['fs']).astype('int64')
    dt = ref.astype('datetime64[us]').astype('datetime64[ns]')
    e = T.dt642epoch(dt)
    a = T.epoch2dt64(e)
    same('grid', a, dt, 0, 2e-6)
    need(np.all(np.diff(a) > np.timedelta64(0)), "order lost")
    m = T.matlab2date(T.date2matlab(T.dt642date(dt)))
    same('grid through datenum', T.date2dt64(m), dt, 0, 6e-5)
    return int(ref[-1])


def missing(c):
    """A missing time stays missing in every representation, and changes no other."""
    bad = np.array(c['bad'], bool)
    ref = us(datetime(2020, 2, 29, 23, 59, 58)) + np.arange(bad.size) * 1250000
    dt = ref.astype('datetime64[us]').astype('datetime64[ns]')
    dt[bad] = np.datetime64('NaT')
    e = np.where(bad, np.nan, ref / 1e6)
    box = dict(array=lambda a: a, xarray=lambda a: xr.DataArray(a, dims='time'), fortran=lambda a: a[::-1].copy()[::-1])[c['box']]

    def dates(nm, got, off=0, tol=2e-6):
        need(len(got) == bad.size, "%s: %d of %d", nm, len(got), bad.size)
        for g, b, r in zip(got, bad, ref):
            if b:
                need(g is None or g != g, "%s: a missing time became %s", nm, g)
            else:
                need(isinstance(g, datetime) and abs((g - EP).total_seconds() - r / 1e6 - off * 3600) <= tol, "%s: %s", nm, g)

    same('dt642epoch', np.asarray(T.dt642epoch(box(dt))), e, 0, 2e-6)
    with np.errstate(invalid='ignore'):
        same('epoch2dt64', np.asarray(T.epoch2dt64(box(e))), dt, 0, 2e-6)
    d = T.dt642date(box(dt))
    dates('dt642date', d)
    dates('epoch2date', T.epoch2date(box(e)))
    for off in (-7, .5):
        dates('epoch2date offset', T.epoch2date(box(e), offset_hr=off), off)
    same('date2dt64', T.date2dt64(d), dt, 0, 2e-6)
    same('date2epoch', np.array(T.date2epoch(d), float), e, 0, 2e-6)
    m = np.array(T.date2matlab(d), float)
    same('date2matlab', m, e / 86400 + 719529, 0, 3e-10)
    dates('matlab2date', T.matlab2date(m), tol=6e-5)
    same('round trip', T.date2dt64(T.matlab2date(m)), dt, 0, 6e-5)
    st = T.date2str(d)
    need(len(st) == bad.size and [s == 'NaT' for s in st] == list(bad), "date2str: %s", st)
    need(T.epoch2date(box(e), to_str=True) == st, "to_str")
    for k in range(bad.size):
        x = T.dt642epoch(dt[k])
        need(np.isnan(x) if bad[k] else abs(x - e[k]) < 2e-6, "single dt642epoch: %s", x)
        need((T.dt642date(dt[k])[0] is None) == bool(bad[k]), "single dt642date")
    return list(bad)


def run(ex):
    ex.cases('calendar', [dict(day=d, tz=z) for d in days() for z in ex.pick(
        ('UTC', 'XYZ8'), ('UTC', 'XYZ8', 'ABC-5:30', 'EST5EDT,M3.2.0,M11.1.0', 'AAA-14'))], conv,
        "calendar corner x time zone of the computer; 11 clock times each, every conversion")
    ex.cases('grid', [dict(t0=t, fs=f) for t in ((1969, 12, 31, 23, 59, 50), (1970, 1, 1), (1999, 12, 31, 23, 59, 59, 999000),
                                                 (2020, 2, 29, 23, 59, 58, 7000), (2038, 1, 19, 3, 14, 0))
                      for f in (1, 2, 3, 4, 7, 8, 16, 25, 32, 64, 128, 200, .1, 1 / 60., 1 / 600.)], step,
             "start x sampling rate")
    n = ex.pick(4, 7)
    ex.cases('missing', [dict(bad=[int(x) for x in b], box=k) for b in itertools.product((0, 1), repeat=n) for k in ('array', 'xarray', 'fortran')], missing,
             "every pattern of missing times among %d x container" % n)
    ex.assume("float seconds resolve about 0.24 microseconds at today's dates; datenum is rounded to 100 microseconds")
