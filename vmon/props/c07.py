"""Every valid input has a finite answer, in range; aliases and trivial transforms agree."""
import numpy as np

from .. import api, gen, ref

CASES = (4800, 60000)
LIMIT = (70, 700)
RULE = ('scenarios biased to singular geometry (sun at zenith and nadir, on the horizon, observer at the poles and on '
        'the equator, antimeridian) and calendar boundaries; every element of every output is range-checked. Distinct: '
        'use case / algorithm / engine / refraction / which singular regions were visited')
REQUIRED = ['finite', 'zenith range', 'azimuth range', 'orbit range', 'definitions']
ASSUMPTIONS = ['declination within 24.6 deg (obliquity of the ecliptic since the year -2000), 1/r2 within 4% of 1, '
               'equation of time within 25 minutes']


def case(ctx, i):
    rng = ctx.rng
    if i % 139 == 7:
        s = gen.huge(rng, most=21, turn=i // 139)
    elif i % 3:
        algos = [gen.ALGOS[i % 7]]
        s = gen.scenario(rng, algos, 'transect', regime='medium' if i % 5 else 'long',
                         years=(1800, 2200) if algos[0][0] != 'nrel' or rng.random() < .5 else (-2000, 6000))
        s.lat, s.lon = gen.aim(rng, s.t, s.lat, s.lon)
        for _ in range(2):
            s.lat, s.lon = gen.aim(rng, s.t, s.lat, s.lon)
        if rng.random() < .7:        # the same spots through the other use cases
            n = min(len(s.t), 40)
            s = gen.Scenario(gen.USECASES[rng.integers(0, 3)], s.t[:n], s.lat[:n], s.lon[:n], s.algorithm, s.engine, s.refraction)
            s.regime = 'aimed'
    else:
        s = gen.scenario(rng)
    ctx.current = s.describe()
    zone = str(rng.choice(gen.ZONES)) if rng.random() < .3 else None
    sp = api.run(s, zone=zone)
    v = api.values(sp)
    z, a = v['zenith'], v['azimuth']

    def where(f):
        def w(k):
            if f in ('zenith', 'azimuth'):
                (t, lat, lon), _ = s.triples(np.array([k]))
                return dict(field=f, time=str(np.datetime64(int(t[0]), 's')), lat=lat[0], lon=lon[0], value=v[f].ravel()[k])
            return dict(field=f, time=str(np.datetime64(int(s.t[k]), 's')), value=v[f].ravel()[k])
        return w

    reg = ''.join(c for c, m in (('Z', (z < .1)), ('N', (z > 179.9)), ('H', np.abs(z - 90) < .9)) if m.any())
    reg += 'P' if (np.abs(s.lat) == 90).any() else ''
    sig = api.sig(s, reg)
    for f in api.FIELDS:
        api.judge(ctx, 'finite', np.where(np.isfinite(v[f]), 0., np.inf), sig, where(f))
    bad = lambda ok: np.where(ok, 0., np.inf)
    api.judge(ctx, 'zenith range', bad((z >= -1e-9) & (z <= 180 + 1e-9)), sig, where('zenith'))
    api.judge(ctx, 'azimuth range', bad((a >= -180 - 1e-4) & (a <= 180 + 1e-4)), sig, where('azimuth'))
    d, q, c = v['declination'], v['eot'], v['ecf']
    api.judge(ctx, 'orbit range', bad(np.abs(d) <= 24.6), sig, where('declination'))
    api.judge(ctx, 'orbit range', bad(np.abs(q) <= 25.), None, where('eot'))
    api.judge(ctx, 'orbit range', bad(np.abs(c - 1) <= .042), None, where('ecf'))

    # definitions of the aliases and transforms
    el, cz = np.asarray(sp.elevation.values), np.asarray(sp.cosz.values)
    api.judge(ctx, 'definitions', api.excess(sp.sza.values, z, 1e-9), sig, where('zenith'))
    api.judge(ctx, 'definitions', api.excess(sp.saa.values, a, 1e-9), None, where('azimuth'))
    api.judge(ctx, 'definitions', api.excess(sp.dec.values, d, 1e-9), None, where('declination'))
    api.judge(ctx, 'definitions', api.excess(el + z, 90. + 0 * z, 1e-9), None, where('zenith'))
    api.judge(ctx, 'definitions', api.excess(cz, np.cos(np.radians(z)), 1e-9), None, where('zenith'))
    # morning/afternoon: at the transit the azimuth is 0 or 180
    ctx.sample(scenario=s.describe(), regions=reg)
