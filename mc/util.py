"""Helpers shared by the property modules (reference side)."""
import contextlib
import io
import os
import numpy as np
import dolfyn
from .core import Fail, need, scratch


def same(name, got, exp, rtol=1e-5, atol=1e-6, shape=True):
    """NaN-aware comparison of arrays; raises Fail."""
    g, e = np.asarray(got), np.asarray(exp)
    if shape and g.shape != e.shape:
        raise Fail("%s: shape %s, expected %s" % (name, g.shape, e.shape))
    if e.dtype.kind in 'USO' or g.dtype.kind in 'USO':
        if not (g == e).all():
            raise Fail("%s: %s, expected %s" % (name, g.tolist(), e.tolist()))
        return
    if e.dtype.kind in 'mM' or g.dtype.kind in 'mM':
        gi, ei = g.astype('datetime64[ns]').astype('int64'), e.astype('datetime64[ns]').astype('int64')
        nat = np.iinfo('int64').min
        bad = ((gi == nat) != (ei == nat)) | (np.abs(gi / 1e9 - ei / 1e9) > max(1., 2 * atol)) | (np.abs(gi - ei) > atol * 1e9)
    else:
        g, e = np.atleast_1d(g), np.atleast_1d(e)
        if g.dtype.kind == 'b' or e.dtype.kind == 'b':
            g, e = g.astype(float), e.astype(float)
        gn, en = np.isnan(g), np.isnan(e)
        with np.errstate(all='ignore'):
            bad = (gn != en) | (~gn & ~en & ~(g == e) & ~(np.abs(g - e) <= atol + rtol * np.abs(e)))
    if np.any(bad):
        i = tuple(int(k) for k in np.argwhere(np.atleast_1d(bad))[0])
        raise Fail("%s[%s] = %r, expected %r (%d of %d elements differ)" % (
            name, ','.join(map(str, i)), np.atleast_1d(g)[i], np.atleast_1d(e)[i], int(bad.sum()), bad.size))


def angle_same(name, got, exp, tol=0.02):
    g, e = np.asarray(got, float), np.asarray(exp, float)
    if g.shape != e.shape:
        raise Fail("%s: shape %s, expected %s" % (name, g.shape, e.shape))
    d = (g - e + 180) % 360 - 180
    bad = ~(np.abs(d) <= tol) & ~(np.isnan(g) & np.isnan(e))
    if bad.any():
        i = tuple(int(k) for k in np.argwhere(np.atleast_1d(bad))[0])
        raise Fail("%s[%s] = %r, expected %r (mod 360)" % (name, i, np.atleast_1d(g)[i], np.atleast_1d(e)[i]))


def attr_same(name, got, exp):
    if isinstance(got, np.ndarray) or isinstance(exp, np.ndarray) or isinstance(exp, (list, tuple)):
        g, e = np.asarray(got), np.asarray(exp)
        ok = g.shape == e.shape and (np.array_equal(g, e) if g.dtype.kind in 'USO' or e.dtype.kind in 'USO'
                                     else np.allclose(g.astype(float), e.astype(float), equal_nan=True))
    else:
        ok = got == exp or (got != got and exp != exp)
        if not ok:
            try:
                ok = abs(got - exp) <= 1e-9 * max(1, abs(exp))
            except Exception:
                ok = False
    if not ok:
        raise Fail("attribute %s: %r, expected %r" % (name, got, exp))


def ds_same(a, b, what='dataset', skip_attrs=(), skip_vars=(), rtol=1e-6, atol=1e-9, attrs=True, names=True):
    """b is the expectation."""
    if names:
        va, vb = set(a.variables) - set(skip_vars), set(b.variables) - set(skip_vars)
        need(va == vb, "%s: variables differ: extra %s missing %s", what, sorted(va - vb), sorted(vb - va))
    for v in b.variables:
        if v in skip_vars:
            continue
        need(v in a.variables, "%s: %s missing", what, v)
        need(a[v].dims == b[v].dims, "%s: dims of %s: %s, expected %s", what, v, a[v].dims, b[v].dims)
        same("%s: %s" % (what, v), a[v].values, b[v].values, rtol, atol)
    if attrs:
        need(set(a.attrs) - set(skip_attrs) == set(b.attrs) - set(skip_attrs), "%s: attrs differ: %s", what,
             sorted(set(a.attrs) ^ set(b.attrs)))
        for k in b.attrs:
            if k not in skip_attrs:
                attr_same("%s.%s" % (what, k), a.attrs[k], b.attrs[k])


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def write(data, name, d=None):
    d = d or scratch()
    p = os.path.join(d, name)
    with open(p, 'wb') as f:
        f.write(data)
    return p


def read(path, **kw):
    with quiet():
        return dolfyn.read(path, **kw)


def dt64(t):
    return (np.round(np.asarray(t, float) * 1e6).astype('int64')).astype('datetime64[us]').astype('datetime64[ns]')
