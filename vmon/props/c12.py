"""Sunrise, sunset and daylight are mutually consistent, and consistent with the sun's positions."""
import numpy as np

from .. import api, gen, ref
from ._zoned import along, batch, full, gap, grids, seconds

CASES = (2600, 30000)
LIMIT = (70, 700)
RULE = ('random batches (all latitudes including the poles and polar day/night, naive and zoned times including daylight '
        'saving changes, years 1800-2200), every unit of sunrise and sunset, plus the position of the sun recomputed at the '
        'predicted instants. Distinct: use case / algorithm / zoned / regime / polar, mid latitude or both')
REQUIRED = ['hour angle', 'undefined exactly in polar day or night', 'units agree', 'daylight', 'clock times', 'sun on the horizon',
            'east and west', 'local clock']
ASSUMPTIONS = ['the declination and the equation of time of the given instant hold for its solar day: the sun is within 0.6 deg '
               'of the geometric horizon at the predicted instants']


def case(ctx, i):
    rng = ctx.rng
    sp, s, off, zone = batch(ctx, years=(1800, 2200) if rng.random() < .8 else (1950, 2050))
    t, lat, lon = grids(s)
    like = sp.zenith
    dec, eot = along(sp.declination.values, s), along(sp.eot.values, s)
    tt = -np.tan(np.radians(lat)) * np.tan(np.radians(dec))
    polar = np.abs(tt) > 1
    edge = np.abs(np.abs(tt) - 1) < 1e-9
    reg = ('P' if polar.any() else '') + ('M' if (~polar).any() else '')
    sig = f'{s.usecase}/{s.algorithm}/{zone is not None}/{s.regime}/{reg}'

    def wit(k):
        return dict(time=str(np.datetime64(int(t.ravel()[k]), 's')), lat=lat.ravel()[k], lon=lon.ravel()[k], dec=dec.ravel()[k])
    bad = lambda ok: np.where(ok, 0., np.inf)
    sr = {u: full(sp.sunrise(u), like) for u in ('deg', 'rad', 'tst', 'utc', 'local')}
    ss = {u: full(sp.sunset(u), like) for u in ('deg', 'rad', 'tst', 'utc', 'local')}
    dl = full(sp.daylight_length(), like)

    with np.errstate(all='ignore'):
        w = np.degrees(np.arccos(np.where(np.abs(tt) <= 1, tt, np.nan)))
    tolw = 1e-6 + 1e-9 / np.sqrt(np.maximum(1e-12, np.abs(1 - tt * tt)))
    api.judge(ctx, 'hour angle', np.where(edge, 0., api.excess(sr['deg'], w, tolw)), sig, wit)
    for name, x in (('sunrise', sr), ('sunset', ss)):
        for u in x:
            nan = np.isnat(x[u]) if x[u].dtype.kind == 'M' else np.isnan(x[u])
            api.judge(ctx, 'undefined exactly in polar day or night', bad((nan == polar) | edge), None,
                      lambda k, u=u, name=name: dict(what=f'{name} {u}', value=str(x[u].ravel()[k]), **wit(k)))
    api.judge(ctx, 'units agree', api.excess(sr['rad'], np.radians(sr['deg']), 1e-9), sig, wit)
    api.judge(ctx, 'units agree', api.excess(ss['rad'], np.radians(ss['deg']), 1e-9), None, wit)
    api.judge(ctx, 'units agree', api.excess(ss['deg'], -sr['deg'], 1e-9), None, wit)
    api.judge(ctx, 'daylight', api.excess(dl, sr['deg'] * 2 / 15, 1e-9), sig, wit)
    api.judge(ctx, 'daylight', bad(((dl >= 0) & (dl <= 24)) | np.isnan(dl)), None, wit)

    # clock times, on the solar day of each instant
    tst = full(sp.true_solar_time, like)
    ts, tf = seconds(tst)
    day = np.floor_divide(ts, 86400) * 86400
    near = np.minimum(ts - day + tf, day + 86400 - ts - tf) < 1e-3      # at solar midnight
    want = (12 - sr['deg'] / 15) * 3600
    s0, f0 = seconds(sr['tst'])
    e = np.abs((s0 - day) + f0 - want) / 2e-3
    api.judge(ctx, 'clock times', np.where(near | np.isnan(want), 0., e), sig, lambda k: dict(what='sunrise tst', got=str(sr['tst'].ravel()[k]), **wit(k)))
    s1, f1 = seconds(ss['tst'])
    e = np.abs((s1 - day) + f1 - (86400 - want)) / 2e-3
    api.judge(ctx, 'clock times', np.where(near | np.isnan(want), 0., e), sig, lambda k: dict(what='sunset tst', got=str(ss['tst'].ravel()[k]), **wit(k)))
    lag = (eot + 4 * lon) * 60
    o = along(off, s)
    for name, x in (('sunrise', sr), ('sunset', ss)):
        g = gap(x['tst'], x['utc'])
        api.judge(ctx, 'clock times', np.where(np.isnan(g) & polar, 0., np.abs(g - lag) / 2e-3), None,
                  lambda k: dict(what=name + ' utc', got=str(x['utc'].ravel()[k]), **wit(k)))
        g = gap(x['local'], x['utc'])
        api.judge(ctx, 'local clock', np.where(np.isnan(g) & polar, 0., np.abs(g - o) / 2e-3), sig,
                  lambda k: dict(what=name + ' local', got=str(x['local'].ravel()[k]), utc=str(x['utc'].ravel()[k]), offset=o.ravel()[k], **wit(k)))
    for u in ('tst', 'utc', 'local'):
        g = gap(ss[u], sr[u])
        api.judge(ctx, 'daylight', np.where(polar | edge, 0., np.abs(g - dl * 3600) / 4e-3), None, lambda k: dict(unit=u, **wit(k)))

    # the sun, at those instants
    m = np.flatnonzero(~(polar | edge | near).ravel())
    if len(m) == 0:
        return
    m = m[rng.integers(0, len(m), min(len(m), 200))]
    for name, x in (('sunrise', sr), ('sunset', ss)):
        sec, _ = seconds(x['utc'].ravel()[m])
        p = api.call('transect', sec.astype('M8[s]'), lat.ravel()[m], lon.ravel()[m], algorithm=s.algorithm, engine=s.engine, refraction=False)
        el, az = p.elevation.values, p.azimuth.values
        api.judge(ctx, 'sun on the horizon', np.abs(el) / .6, sig,
                  lambda k: dict(what=name, at=str(np.datetime64(int(sec[k]), 's')), elevation=el[k], **wit(m[k])))
        ok = (dl.ravel()[m] < 3) | (dl.ravel()[m] > 21) | ((az < 0) == (name == 'sunrise'))
        api.judge(ctx, 'east and west', bad(ok), sig, lambda k: dict(what=name, azimuth=az[k], **wit(m[k])))
        ctx.maximum('elevation at the predicted instants (deg)', np.abs(el).max())
    ctx.sample(**ctx.current)
