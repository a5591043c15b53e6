"""The boundary: calls into sunwhere's public API, and comparisons."""
import zoneinfo

import numpy as np
import pandas as pd

import sunwhere
from . import ref

HORIZON = 90. - np.degrees(ref.REFR_LIMIT)      # zenith where the refraction starts
FIELDS = ('zenith', 'azimuth', 'declination', 'eot', 'ecf')


def call(usecase, times, lat, lon, **kw):
    return getattr(sunwhere, usecase)(times, lat, lon, **kw)


def dress(t):
    """the instants as one of the forms in which users have them; always the same form for the same instants"""
    m8 = t.astype('datetime64[s]')
    n = len(t)
    way = (int(t[0]) // 7 + 3 * n) % 6 if n else 0
    if not n or way < 3 or t.min() < -8e9 or t.max() > 9e9:
        return m8
    if way == 3:
        return m8.astype('datetime64[ns]')
    step = np.diff(t[:2])[0] if n > 1 else 0
    if step and (np.diff(t) == step).all():      # an index that knows its frequency
        return pd.date_range(m8[0], periods=n, freq=pd.Timedelta(int(step), 's'))
    return pd.DatetimeIndex(m8) if way == 4 or n > 300 else m8.tolist()


def run(s, times=None, zone=None, **over):
    kw = dict(algorithm=s.algorithm, engine=s.engine, refraction=s.refraction)
    kw.update(over)
    if times is None:
        times = s.t.astype('datetime64[s]') if zone else dress(s.t)
    if zone and len(s.t) and s.t.min() > -62135000000 and s.t.max() < 253402000000:
        times = pd.DatetimeIndex(times).tz_localize('UTC').tz_convert(zoneinfo.ZoneInfo(zone))
    return call(s.usecase, times, s.lat, s.lon, **kw)


def values(sp):
    """plain arrays of a Sunpos"""
    return {f: np.asarray(getattr(sp, f).values) for f in FIELDS}


def radial_tol(z, base):
    """zenith tolerance (deg). Single-precision coordinates perturb the cosine
    of the zenith angle by about 1e-7; its inverse is ill-conditioned close to
    zenith and nadir"""
    s = np.sin(np.radians(z))
    return base + np.minimum(0.035, 8e-6 / np.maximum(s, 1e-12))


def sky_excess(za, aa, zb, ab, base=5e-5, exact=False):
    """discrepancy between two directions, in units of the tolerance (>1: differ).
    NaN on both sides is agreement; on one side, infinite discrepancy"""
    za, aa, zb, ab = np.broadcast_arrays(za, aa, zb, ab)
    with np.errstate(all='ignore'):
        dz = np.abs(za - zb)
        tol = np.full(dz.shape, base) if exact else radial_tol(zb, base)
        # the separation bounds also the azimuth; its azimuthal part is well
        # conditioned
        az = np.abs(ref.wrap180(aa - ab)) * np.sin(np.radians(zb))
        # at a distance r of the zenith the azimuth turns by err/r
        e = np.maximum(dz / tol, az / (base + (0 if exact else 2e-5)))
    nan = np.isnan(za) | np.isnan(aa)
    nbn = np.isnan(zb) | np.isnan(ab)
    e = np.where(nan & nbn, 0., np.where(nan ^ nbn, np.inf, e))
    return e


def worst(e):
    if e.size == 0:
        return 0., None
    k = int(np.argmax(np.where(np.isnan(e), np.inf, e)))
    v = e.ravel()[k]
    return (float('inf') if np.isnan(v) else float(v)), k


def excess(a, b, tol):
    """|a-b|/tol with NaN==NaN"""
    a, b = np.broadcast_arrays(np.asarray(a, float), np.asarray(b, float))
    with np.errstate(all='ignore'):
        e = np.abs(a - b) / tol
    na, nb = np.isnan(a), np.isnan(b)
    return np.where(na & nb, 0., np.where(na ^ nb, np.inf, e))


def sig(s, *more):
    return '/'.join(map(str, (s.usecase, s.algorithm, s.engine, int(bool(s.refraction)),
                              getattr(s, 'regime', '')) + more))


def judge(ctx, monitor, e, signature=None, witness=None):
    """record a vector of discrepancies in units of their tolerance"""
    e = np.asarray(e, float)
    if e.size == 0:
        return True
    v, k = worst(e)
    ctx.ok(monitor, e.size, signature)
    ctx.maximum(monitor + ' (fraction of the tolerance)', v)
    if v <= 1.:
        return True
    w = witness(k) if callable(witness) else (witness or {})
    ctx.fail(monitor, excess=v, position=k, context=ctx.current, **w)
    return False


def same_results(ctx, monitor, a, b, signature=None, witness=None, base=5e-5, exact=False,
                 dec=1e-7, eot=1e-6, ecf=1e-9):
    """two sets of arrays must describe the same sky and the same orbit"""
    ok = True
    for f, tol in (('declination', dec), ('eot', eot), ('ecf', ecf)):
        if f in a and f in b:
            if np.shape(a[f]) != np.shape(b[f]):
                ctx.fail(monitor, field=f, shapes=[np.shape(a[f]), np.shape(b[f])], context=ctx.current)
                return False
            ok &= judge(ctx, monitor, excess(a[f], b[f], tol), None,
                        lambda k, f=f: dict(field=f, got=np.ravel(a[f])[k], expected=np.ravel(b[f])[k],
                                            **(witness or {})))
    if np.shape(a['zenith']) != np.shape(b['zenith']) or np.shape(a['azimuth']) != np.shape(b['azimuth']):
        ctx.fail(monitor, shapes=[np.shape(a['zenith']), np.shape(b['zenith'])], context=ctx.current)
        return False
    e = sky_excess(a['zenith'], a['azimuth'], b['zenith'], b['azimuth'], base, exact)
    with np.errstate(all='ignore'):   # on both sides of the refraction's threshold
        e = np.where(np.abs(np.maximum(a['zenith'], b['zenith']) - HORIZON) < 1e-3, 0., e)
    ok &= judge(ctx, monitor, e, signature,
                lambda k: dict(got=[np.ravel(a['zenith'])[k], np.ravel(a['azimuth'])[k]],
                               expected=[np.ravel(b['zenith'])[k], np.ravel(b['azimuth'])[k]],
                               **(witness or {})))
    return ok
