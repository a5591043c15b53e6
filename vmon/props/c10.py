"""Results are labelled with what they describe: dims, coordinates, names, units."""
import zoneinfo

import numpy as np
import pandas as pd

from .. import api, gen, ref

CASES = (1200, 14000)
LIMIT = (70, 700)
RULE = ('random calls (naive and zoned times, equal and unequal lengths, repeated labels); every accessor and method is '
        'inspected for dims, coordinates, name and units, and elements picked by label are compared with the reference model '
        'evaluated at the label and with a scalar call at the label. Distinct: use case / algorithm / engine / zoned / shape class')
REQUIRED = ['dims', 'coordinates', 'names and units', 'value at its label', 'derived at its label', 'metadata']
ASSUMPTIONS = ['the order of the dimensions of derived quantities is free (they are labelled)']

PLACE = {'sites': ('location',), 'regular_grid': ('latitude', 'longitude'), 'transect': ()}


def accessors(sp):
    """name -> (DataArray, kind of dims, expected name, expected units)"""
    o = {
        'zenith': (sp.zenith, 'full', 'zenith', 'degrees'),
        'sza': (sp.sza, 'full', 'sza', 'degrees'),
        'elevation': (sp.elevation, 'full', 'elevation', 'degrees'),
        'azimuth': (sp.azimuth, 'full', 'azimuth', 'degrees'),
        'saa': (sp.saa, 'full', 'saa', 'degrees'),
        'cosz': (sp.cosz, 'full', 'cosz', '-'),
        'declination': (sp.declination, 'time', 'declination', 'degrees'),
        'dec': (sp.dec, 'time', 'declination', 'degrees'),
        'eot': (sp.eot, 'time', 'eot', 'minutes'),
        'ecf': (sp.ecf, 'time', 'ecf', '-'),
        'true_solar_time': (sp.true_solar_time, 'lon', 'true_solar_time', None),
        'eth': (sp.eth(), 'full', 'eth', 'W m-2'),
        'airmass': (sp.airmass(), 'full', 'airmass', '-'),
        'incidence': (sp.incidence(25., 40.), 'full', 'incidence', '-'),
        'daylight_length': (sp.daylight_length(), 'lat', 'daylight_length', 'hour'),
    }
    for u, lab in (('deg', 'degrees'), ('rad', 'radians'), ('tst', 'TST'), ('utc', 'UTC'), ('local', sp.timezone)):
        k = 'lat' if u in ('deg', 'rad') else 'full'
        o['sunrise ' + u] = (sp.sunrise(u), k, 'wsr', lab)
        o['sunset ' + u] = (sp.sunset(u), k, 'wss', lab)
    return o


def case(ctx, i):
    rng = ctx.rng
    s = gen.scenario(rng, scale=.03, years=(1800, 2200),
                     regime=rng.choice(['tiny', 'equal', 'medium'], p=[.25, .5, .25]))
    zone = None
    arg = s.t.astype('M8[s]')
    if rng.random() < .5:
        zone = str(gen.ZONES[rng.integers(0, len(gen.ZONES))])
        arg = pd.DatetimeIndex(arg).tz_localize('UTC').tz_convert(zoneinfo.ZoneInfo(zone))
        wall = np.asarray(arg.tz_localize(None).values).astype('M8[s]')
    else:
        wall = arg
    kw = dict(algorithm=s.algorithm, engine=s.engine, refraction=s.refraction)
    ctx.current = dict(s.describe(), zone=zone)
    sp = api.call(s.usecase, arg, s.lat, s.lon, **kw)
    nt = len(s.t)
    eq = 'eq' if len({nt, len(s.lat), len(s.lon)}) == 1 else 'neq'
    sig = f'{s.usecase}/{s.algorithm}/{s.engine}/{zone is not None}/{eq}/{s.regime}'

    ctx.check((sp.usecase, sp.algorithm, sp.engine) == (s.usecase, s.algorithm, s.engine)
              and bool(sp.has_refraction) == s.refraction, 'metadata', sig,
              got=[sp.usecase, sp.algorithm, sp.engine, sp.has_refraction])
    ctx.check(sp.timezone == (zone or 'UTC') and len(sp.times) == nt == len(sp.times_utc), 'metadata', None,
              got=[sp.timezone, len(sp.times)], want=[zone, nt])
    lat, lon = sp.latitude, sp.longitude
    ctx.check(np.array_equal(lat.values, s.lat) and np.array_equal(lon.values, s.lon), 'coordinates', sig, what='latitude/longitude')
    ctx.check(lat.attrs.get('units') == 'degrees north' and lon.attrs.get('units') == 'degrees east'
              and lat.name == 'latitude' and lon.name == 'longitude', 'names and units', None, what='coordinates')

    acc = accessors(sp)
    place = PLACE[s.usecase]
    lens = {'time': nt, 'location': len(s.lat), 'latitude': len(s.lat), 'longitude': len(s.lon)}
    for what, (x, kind, name, units) in acc.items():
        want = {'full': ('time',) + place, 'time': ('time',),
                'lat': ('time',) + {'sites': ('location',), 'regular_grid': ('latitude',), 'transect': ()}[s.usecase],
                'lon': ('time',) + {'sites': ('location',), 'regular_grid': ('longitude',), 'transect': ()}[s.usecase]}[kind]
        ctx.check(set(x.dims) == set(want) and all(x.sizes[d] == lens[d] for d in want), 'dims', sig + '/' + what,
                  what=what, got=[x.dims, x.shape], want=want)
        if what in ('zenith', 'azimuth', 'sza', 'saa', 'elevation', 'cosz'):
            ctx.check(x.dims == want, 'dims', None, what=what, got=x.dims, want=want)
        ctx.check('time' in x.coords and np.array_equal(np.asarray(x.time.values).astype('M8[s]'), wall), 'coordinates', None,
                  what=what + ' time', context=ctx.current)
        if set(x.dims) == set(want) and kind == 'full':
            if s.usecase != 'regular_grid' and what not in ('zenith', 'azimuth', 'sza', 'saa', 'elevation', 'cosz', 'eth', 'airmass'):
                continue
            for c, v in (('latitude', s.lat), ('longitude', s.lon)):
                ctx.check(c in x.coords and np.array_equal(np.ravel(x[c].values), v), 'coordinates', None, what=f'{what} {c}',
                          context=ctx.current)
        ctx.check(x.name == name, 'names and units', sig + '/' + what, what=what, got=x.name, want=name)
        if units is not None:
            ctx.check(x.attrs.get('units') == units, 'names and units', None, what=what, got=x.attrs.get('units'), want=units)

    # values at their labels
    for _ in range(3):
        k = int(rng.integers(0, nt))
        if s.usecase == 'transect':
            sel, la, lo = {'time': k}, s.lat[k], s.lon[k]
        elif s.usecase == 'sites':
            j = int(rng.integers(0, len(s.lat)))
            sel, la, lo = {'time': k, 'location': j}, s.lat[j], s.lon[j]
        else:
            j, m = int(rng.integers(0, len(s.lat))), int(rng.integers(0, len(s.lon)))
            sel, la, lo = {'time': k, 'latitude': j, 'longitude': m}, s.lat[j], s.lon[m]
        one = api.call('sites', arg[k:k + 1], float(la), float(lo), **kw)
        wit = dict(time=str(s.t[k].astype('M8[s]')), lat=la, lon=lo, sel=sel, context=ctx.current)
        z, a = sp.zenith.isel(sel), sp.azimuth.isel(sel)
        ctx.check(float(z.latitude) == la and float(z.longitude) == lo, 'coordinates', None, what='label of the element', **wit)
        r = ref.evaluate(s.algorithm, s.t[k:k + 1], la, lo, s.refraction)
        e = api.sky_excess(np.array([float(z)]), np.array([float(a)]), r['zenith'], r['azimuth'])
        if s.refraction and abs(r['zenith_true'][0] - api.HORIZON) < 1e-3:
            e = e * 0
        api.judge(ctx, 'value at its label', e, sig, dict(got=[float(z), float(a)], want=[r['zenith'], r['azimuth']], **wit))
        # derived quantities: against the scalar call
        near = min(float(z), 180 - float(z)) < 2 or abs(float(z) - 90) < 1.5
        if near:
            continue
        acc1 = accessors(one)
        polar = abs(abs(np.tan(np.radians(la)) * np.tan(np.radians(r['declination'][0]))) - 1) < 1e-4
        for what, (x, *_rest) in acc.items():
            v = x.isel({d: q for d, q in sel.items() if d in x.dims}).values
            w = acc1[what][0].values.ravel()[0]
            if ('sunrise' in what or 'sunset' in what or 'daylight' in what) and polar:
                continue
            if np.asarray(v).dtype.kind == 'M':
                ok = (np.isnat(v) and np.isnat(w)) or abs(v - w) < np.timedelta64(50, 'ms')
            else:
                ok = (np.isnan(v) and np.isnan(w)) or abs(float(v) - float(w)) <= 2e-4 * max(1., abs(float(w)))
            ctx.check(ok, 'derived at its label', what, what=what, got=str(v), want=str(w), **wit)
    if i % 20 == 0:
        ctx.sample(**ctx.current)
