"""True solar time is UTC + 4 min per degree + equation of time, and it is the sun's hour angle."""
import numpy as np

from .. import api, gen, ref
from ._zoned import along, batch, full, gap, grids, seconds

CASES = (5000, 50000)
LIMIT = (70, 700)
RULE = ('random batches (naive and zoned times, years 1800-2200, or -2000 to 6000 for nrel), every element compared with UTC + '
        '4 lon + eot, and with the hour angle that the zenith and azimuth of the same answer imply. Distinct: use case / '
        'algorithm / engine / zoned / regime / hour quadrants seen')
REQUIRED = ['clock', 'zenith from the hour angle', 'azimuth from the hour angle']
ASSUMPTIONS = ['parallax (0.0025 deg), UT-TT, and the inaccuracy of the equation of time of each model separate both hour '
               'angles: 0.025 deg for psa, 0.006 deg for soltrack and nrel (0.2 deg for nrel out of 1800-2200), 0.0002 for iqbal']


def case(ctx, i):
    rng = ctx.rng
    if i % 4 == 3:
        sp, s, off, zone = batch(ctx, scale=.1, refraction=False, algos=[('nrel', 'numexpr')] if i % 8 == 3 else None)
    else:
        sp, s, off, zone = batch(ctx, scale=.1, refraction=False)
    if s.algorithm == 'nrel' and rng.random() < .4:
        s = gen.scenario(rng, [('nrel', 'numexpr')], years=(-2000, 6000), scale=.05, refraction=False,
                         regime=rng.choice(['tiny', 'equal', 'medium']))
        off, zone = 0 * s.t, None
        ctx.current = s.describe()
        sp = api.run(s)
    t, lat, lon = grids(s)
    like = sp.zenith
    eot, dec = along(sp.eot.values, s), along(sp.declination.values, s)
    tst = full(sp.true_solar_time, like)
    ts, tf = seconds(tst)

    def wit(k):
        return dict(time=str(np.datetime64(int(t.ravel()[k]), 's')), lat=lat.ravel()[k], lon=lon.ravel()[k], eot=eot.ravel()[k],
                    tst=str(tst.ravel()[k]))
    e = np.abs((ts - t) + tf - (eot + 4 * lon) * 60)
    h = np.radians(15 * ((ts % 86400) + tf) / 3600 - 180)        # negative in the morning
    quad = ''.join(sorted({'abcd'[int(q)] for q in np.unique(np.clip((np.degrees(h) + 180) // 90, 0, 3))}))
    sig = f'{s.usecase}/{s.algorithm}/{s.engine}/{zone is not None}/{s.regime}/{quad}'
    api.judge(ctx, 'clock', e / 1e-4, sig, wit)
    d, f = np.radians(dec), np.radians(lat)
    x, y, z = np.cos(d) * np.cos(h), np.cos(d) * np.sin(h), np.sin(d)
    up, south = np.cos(f) * x + np.sin(f) * z, np.sin(f) * x - np.cos(f) * z
    zen, az = np.degrees(np.arctan2(np.hypot(south, y), up)), np.degrees(np.arctan2(y, south))
    got, gaz = sp.zenith.values, sp.azimuth.values
    far = s.t.size and (s.t.min() < gen.year_range((1800, 1800))[0] or s.t.max() > gen.year_range((2200, 2200))[1])
    w = .2 if far else {'psa': .025, 'iqbal': 2e-4}.get(s.algorithm, .006)
    tol = w + api.radial_tol(zen, 0)
    api.judge(ctx, 'zenith from the hour angle', np.abs(got - zen) / tol, sig, lambda k: dict(got=got.ravel()[k], want=zen.ravel()[k], **wit(k)))
    e = np.degrees(2 * np.abs(np.sin(np.radians(gaz - az) / 2)) * np.sin(np.radians(zen)))
    api.judge(ctx, 'azimuth from the hour angle', e / (1.6 * w), sig, lambda k: dict(got=gaz.ravel()[k], want=az.ravel()[k], **wit(k)))
    ctx.sample(**ctx.current)
