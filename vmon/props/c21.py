"""The sky turns continuously: in time, in longitude, in latitude, across the antimeridian and at the poles."""
import numpy as np

from .. import api, gen, ref

CASES = (8000, 40000)
LIMIT = (70, 700)
RULE = ('random tracks: close instants (1 s to 10 min apart, across midnights, month, leap day and year ends), close places (1e-9 to 1 deg, '
        'both sides of the antimeridian, of the equator and of the Greenwich meridian), the poles from every longitude, and places west of '
        'each other seen as much later. Distinct: transformation / use case / algorithm / engine / step')
REQUIRED = ['turns at 15 deg per hour', 'orbit moves slowly', 'antimeridian', 'close places', 'later is west', 'pole']
ASSUMPTIONS = ['no refraction; the sun moves less than 1.1 deg per day along the ecliptic; iqbal, which is a function of the day of a '
               '365-day year, may jump up to 0.6 deg at the ends of the years']

STEPS = [1, 1, 2, 5, 10, 60, 60, 120, 300, 600]
MOVES = [1e-9, 1e-7, 1e-5, 1e-4, 1e-3, .01, .1, 1.]


def radial(z):
    return 3 * api.radial_tol(z, 5e-5)


def year_end(t, dt):
    """is there a new year between t and t + dt?"""
    y = lambda x: x.astype('M8[s]').astype('M8[Y]')
    return y(np.minimum(t, t + dt)) != y(np.maximum(t, t + dt))


def case(ctx, i):
    rng = ctx.rng
    alg, eng = gen.ALGOS[i % 7]
    years = (1800, 2200) if alg != 'nrel' or rng.random() < .6 else (-2000, 6000)
    kw = dict(algorithm=alg, engine=eng, refraction=False)
    n = int(rng.choice([3, 20, 100, 400]))
    k = int(rng.integers(0, 5))
    ctx.current = dict(kind=k, n=n, **kw)
    [turning, meridian, close, later, pole][k](ctx, rng, n, years, kw)


def jump(alg, t, dt):
    return np.where(year_end(t, dt), .6, 0.) if alg == 'iqbal' else 0. * t


def turning(ctx, rng, n, years, kw):
    t0, step = gen.instant(rng, (max(years[0], -1999), years[1] - 1)), int(rng.choice(STEPS))
    off = int(rng.integers(-n, 1))
    t = t0 + step * (off + np.arange(n + 1))
    lo, hi = gen.year_range(years)
    t = np.clip(t, lo, hi)
    t = np.unique(t)
    step = np.diff(t)
    if len(t) < 2:
        return
    uc = gen.USECASES[rng.integers(0, 3)]
    lat, lon = gen.latitudes(rng, 1)[0], gen.longitudes(rng, 1)[0]
    j = len(t) if uc == 'transect' else 1
    sp = api.call(uc, t.astype('M8[s]'), np.full(j, lat), np.full(j, lon), **kw)
    v = api.values(sp)
    z, a = v['zenith'].ravel(), v['azimuth'].ravel()
    dec = np.radians(v['declination'])
    ctx.current.update(t=str(t[0].astype('M8[s]')), step=step[:3], lat=lat, lon=lon, usecase=uc)
    sep = ref.separation(z[1:], a[1:], z[:-1], a[:-1])
    want = np.cos(dec[:-1]) * 15. * step / 3600
    free = radial(z[1:]) + jump(kw['algorithm'], t[:-1], step)
    sig = f'{uc}/{kw["algorithm"]}/{kw["engine"]}/{step[0]}/{int(year_end(t[:-1], step).any())}'
    wit = lambda q: dict(time=str(t[q].astype('M8[s]')), step=step[q], moved=sep[q], want=want[q], sky=[z[q:q + 2], a[q:q + 2]])
    api.judge(ctx, 'turns at 15 deg per hour', np.abs(sep - want) / (.004 * want + free), sig, wit)
    # westwards: the hour angle grows
    for f, rate, noise, iq in (('declination', .46 / 86400, 2e-7, .6), ('eot', 42. / 60 / 86400, 2e-6, .9), ('ecf', 8.8e-4 / 86400, 2e-9, 2e-3)):
        e = np.abs(np.diff(v[f]))
        if kw['algorithm'] == 'iqbal':
            rate = rate * 1.3
        tol = noise + rate * step + (year_end(t[:-1], step) * iq if kw['algorithm'] == 'iqbal' else 0.)
        api.judge(ctx, 'orbit moves slowly', e / tol, sig + f, lambda q: dict(field=f, time=str(t[q].astype('M8[s]')), values=v[f][q:q + 2]))
    ctx.sample(**ctx.current)


def two(ctx, rng, t, lat, lon, lat2, lon2, kw, monitor, free, sig):
    """the same instants at two sets of places, through any use case"""
    n = len(t)
    uc = gen.USECASES[rng.integers(0, 3)]
    if uc == 'transect':
        p, q = (api.values(api.call(uc, t.astype('M8[s]'), x, y, **kw)) for x, y in ((lat, lon), (lat2, lon2)))
        d = np.arange(n)
        get = lambda v: (v['zenith'], v['azimuth'])
    else:
        m = min(n, 30)
        t, lat, lon, lat2, lon2, free = t[:m], lat[:m], lon[:m], lat2[:m], lon2[:m], free[:m]
        p, q = (api.values(api.call(uc, t.astype('M8[s]'), x, y, **kw)) for x, y in ((lat, lon), (lat2, lon2)))
        d = np.arange(m)
        get = lambda v: tuple(v[f][d, d] if uc == 'sites' else v[f][d, d, d] for f in ('zenith', 'azimuth'))
    (z1, a1), (z2, a2) = get(p), get(q)
    sep = ref.separation(z1, a1, z2, a2)
    sep = np.where(np.isnan(sep), np.inf, sep)
    ctx.current['usecase'] = uc
    api.judge(ctx, monitor, sep / (free + radial(z1)), f'{sig}/{uc}/{kw["algorithm"]}/{kw["engine"]}',
              lambda k: dict(time=str(t[k].astype('M8[s]')), places=[lat[k], lon[k], lat2[k], lon2[k]], skies=[z1[k], a1[k], z2[k], a2[k]],
                             apart=sep[k], allowed=free[k]))
    ctx.sample(**ctx.current)


def meridian(ctx, rng, n, years, kw):
    t = gen.times(rng, n, years)
    lat = gen.latitudes(rng, n)
    w = np.full(n, -180.)
    d = float(rng.choice([0., 1e-9, 1e-6, 1e-3, .1]))
    e = np.full(n, np.nextafter(180., 0) if d == 0 else 180. - d)
    ctx.current.update(east=e[0])
    two(ctx, rng, t, lat, w, lat, e, kw, 'antimeridian', np.full(n, d), f'{d}')


def close(ctx, rng, n, years, kw):
    t = gen.times(rng, n, years)
    lat, lon = gen.latitudes(rng, n), gen.longitudes(rng, n)
    d = float(rng.choice(MOVES))
    k = rng.random()
    if k < .25:
        lat = np.full(n, d * rng.uniform(-1, 0))         # across the equator
    elif k < .5:
        lon = np.full(n, d * rng.uniform(-1, 0))         # across Greenwich
    lat2 = np.where(lat + d > 90, lat - d, lat + d)
    lon2 = lon + d
    lon2 = np.where(lon2 >= 180, lon2 - 360, lon2)
    ctx.current.update(move=d)
    # the vertical turns by (d, d cos(lat)); the horizon's frame by d sin(lat)
    two(ctx, rng, t, lat, lon, lat2, lon2, kw, 'close places', np.full(n, 2.3 * d), f'{d}')


def later(ctx, rng, n, years, kw):
    lo, hi = gen.year_range(years)
    t = np.clip(gen.times(rng, n, years), lo, hi - 90000)
    lat, lon = gen.latitudes(rng, n), gen.longitudes(rng, n)
    dt = int(rng.choice([4, 60, 240, 3600, 21600, 43200, 86400, 240 * int(rng.integers(1, 360))]))
    w = ref.wrap180(lon - dt / 240.)
    w = np.where(w >= 180, -180., w)
    p = api.values(api.call('transect', t.astype('M8[s]'), lat, lon, **kw))
    q = api.values(api.call('transect', (t + dt).astype('M8[s]'), lat, w, **kw))
    sep = ref.separation(p['zenith'], p['azimuth'], q['zenith'], q['azimuth'])
    free = 1.1 * dt / 86400 + jump(kw['algorithm'], t, dt) + radial(p['zenith'])
    if kw['algorithm'] == 'iqbal':
        free = free + .2 * dt / 86400
    ctx.current.update(later=dt)
    api.judge(ctx, 'later is west', sep / free, f'{dt if dt in (4, 60, 240, 3600, 21600, 43200, 86400) else "any"}/{kw["algorithm"]}/{kw["engine"]}',
              lambda k: dict(time=str(t[k].astype('M8[s]')), lat=lat[k], lon=lon[k], later=dt, west=w[k], apart=sep[k], allowed=free[k]))
    ctx.sample(**ctx.current)


def pole(ctx, rng, n, years, kw):
    t = gen.times(rng, n, years)
    s = float(rng.choice([-1., 1.]))
    lon = gen.longitudes(rng, n)
    near = float(rng.choice([0., 0., 1e-9, 1e-6, 1e-3]))
    la = s * (90. - near)
    v = api.values(api.call('transect', t.astype('M8[s]'), np.full(n, la), lon, **kw))
    o = api.values(api.call('sites', t.astype('M8[s]'), s * 90., 0., **kw))
    z0, a0 = o['zenith'][:, 0], o['azimuth'][:, 0]
    tol = near + 3 * api.radial_tol(z0, 5e-5)
    ctx.current.update(lat=la)
    sig = f'{s}/{near}/{kw["algorithm"]}/{kw["engine"]}'
    wit = lambda k: dict(time=str(t[k].astype('M8[s]')), lat=la, lon=lon[k], got=[v['zenith'][k], v['azimuth'][k]], at_greenwich=[z0[k], a0[k]], dec=v['declination'][k])
    api.judge(ctx, 'pole', np.abs(v['zenith'] - z0) / tol, sig, wit)
    api.judge(ctx, 'pole', np.abs(z0 - (90 - s * v['declination'])) / (.003 + 5e-5), None, wit)
    # the whole sky turns with the longitude, from Greenwich's meridian
    want = a0 + s * lon
    api.judge(ctx, 'pole', np.abs(ref.wrap180(v['azimuth'] - want)) / (2 * tol / np.sin(np.radians(60))), None, wit)
    ctx.sample(**ctx.current)
