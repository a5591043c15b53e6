"""Air mass and extraterrestrial irradiance follow their published formulas and bounds."""
import numpy as np

from .. import api, gen
from ._zoned import along, batch, grids

CASES = (4000, 40000)
LIMIT = (70, 700)
RULE = ('random batches (sun from the zenith to the nadir, dense at the horizon), the four air mass formulas and the four '
        'irradiance corrections evaluated from the zenith and ecf of the same answer, random solar constants; NaN, sign and '
        'monotonicity of the results. Distinct: use case / algorithm / engine / refraction / regime / day, night or both')
REQUIRED = ['airmass formula', 'airmass undefined at night', 'airmass bounds', 'airmass grows downwards', 'eth formula', 'eth at night',
            'eth scales with the constant', 'defaults']
ASSUMPTIONS = ['at night the perez_1990 and gonzalez_and_calbo_1999 corrections are undefined (no air mass): no claim']

AM = {'kasten_1965': lambda z, c: c + .15 * np.maximum(1e-4, 93.885 - z)**-1.253,
      'kasten_and_young_1989': lambda z, c: c + .50572 * np.maximum(1e-4, 96.07995 - z)**-1.6364,
      'gueymard_2001': lambda z, c: c + .45665 * z**.07 * np.maximum(1e-4, 96.4836 - z)**-1.697,
      'gueymard_2003': lambda z, c: c + .48353 * z**.095846 * np.maximum(1e-4, 96.741 - z)**-1.754}
HORIZ = {'kasten_1965': (27, 40), 'kasten_and_young_1989': (37, 39), 'gueymard_2001': (37, 39), 'gueymard_2003': (37, 39)}


def case(ctx, i):
    rng = ctx.rng
    sp, s, off, zone = batch(ctx, scale=.08)
    if i % 2:
        s = gen.scenario(rng, [gen.ALGOS[i % 7]], 'transect', years=(1800, 2200), scale=.05, regime='medium')
        s.lat, s.lon = gen.aim(rng, s.t, s.lat, s.lon)
        s.lat, s.lon = gen.aim(rng, s.t, s.lat, s.lon)
        ctx.current = s.describe()
        sp = api.run(s)
    t, lat, lon = grids(s)
    like = sp.zenith
    z, c, ecf = like.values, sp.cosz.values, along(sp.ecf.values, s)
    night = z > 90
    reg = ('D' if (~night).any() else '') + ('N' if night.any() else '')
    sig = f'{s.usecase}/{s.algorithm}/{s.engine}/{int(s.refraction)}/{s.regime}/{reg}'

    def wit(k):
        return dict(time=str(np.datetime64(int(t.ravel()[k]), 's')), lat=lat.ravel()[k], lon=lon.ravel()[k], zenith=z.ravel()[k])
    bad = lambda ok: np.where(ok, 0., np.inf)
    am = {}
    edge = np.abs(z - 90) < 1e-9
    for name, f in AM.items():
        x = am[name] = sp.airmass(name).transpose(*like.dims).values
        with np.errstate(all='ignore'):
            want = np.maximum(1., 1. / f(z, c))
        w = lambda k, name=name, x=x: dict(airmass=name, got=x.ravel()[k], **wit(k))
        api.judge(ctx, 'airmass formula', np.where(night | edge, 0., np.abs(x / want - 1) / 1e-8), sig + '/' + name,
                  lambda k: dict(w(k), want=want.ravel()[k]))
        api.judge(ctx, 'airmass undefined at night', bad((np.isnan(x) == night) | edge), None, w)
        api.judge(ctx, 'airmass bounds', bad(night | edge | ((x >= 1) & (x <= HORIZ[name][1]))), None, w)
        day = np.flatnonzero((~night & ~edge).ravel())
        if len(day) > 1:
            o = day[np.argsort(z.ravel()[day])]
            v = x.ravel()[o]
            api.judge(ctx, 'airmass grows downwards', bad(np.diff(v) >= -1e-6 * v[1:]), None)
    api.judge(ctx, 'defaults', api.excess(sp.airmass().transpose(*like.dims).values, am['gueymard_2003'], 1e-9), None)

    isc = float(rng.choice([1361.1, 1367., 1., 0., 1e3, rng.uniform(1, 2000)]))
    base = isc * ecf * np.maximum(0., c)
    with np.errstate(all='ignore'):
        corr = {'none': 1. + 0 * z,
                'perez_1990': .1 + 1.031 * np.exp(-1.4 / (.9 + 9.4 / am['kasten_and_young_1989'])),
                'skarveith_1998': .83 - .56 * np.exp(-.06 * (90. - z)),
                'gonzalez_and_calbo_1999': .229 + .957 * np.exp(-1.74 * am['gueymard_2003'] * (.124 - .0285 * np.log(am['gueymard_2003'])))}
    for name, q in corr.items():
        x = sp.eth(isc, name).transpose(*like.dims).values
        w = lambda k, name=name, x=x: dict(am_correction=name, isc=isc, got=x.ravel()[k], **wit(k))
        api.judge(ctx, 'eth formula', np.where(night | edge, 0., np.abs(x - base * q) / (1e-8 * max(1, isc))), sig + '/' + name, w)
        if name in ('none', 'skarveith_1998'):
            api.judge(ctx, 'eth at night', bad(~night | edge | (x == 0)), sig, w)
        api.judge(ctx, 'eth at night', bad((x >= 0) | night | edge), None, w)
        y = sp.eth(ISC=2 * isc, am_correction=name).transpose(*like.dims).values
        api.judge(ctx, 'eth scales with the constant', api.excess(y, 2 * x, 1e-8 * max(1, isc)), None, w)
    api.judge(ctx, 'defaults', api.excess(sp.eth().transpose(*like.dims).values, 1361.1 * ecf * np.maximum(0, c), 1e-6), sig)
    ctx.sample(**dict(ctx.current, isc=isc))
