"""The incidence on a tilted plane is the angle between its normal and the sun."""
import numpy as np

from .. import api, gen, ref
from ._zoned import along, batch, full, grids, seconds

CASES = (5000, 40000)
LIMIT = (70, 700)
RULE = ('random batches and planes (horizontal, vertical, facing down, any orientation, special angles), compared with the scalar '
        'product of the normal of the plane and the direction of the sun in the same answer (no refraction), plus the invariants '
        'of the planes. Distinct: use case / algorithm / engine / regime / kind of plane')
REQUIRED = ['scalar product', 'hour angle form', 'horizontal plane', 'bounds', 'opposite side', 'periodic']
ASSUMPTIONS = ['parallax (0.0025 deg) and the inaccuracy of the equation of time are not in the incidence: 6e-4 psa, 1.6e-4 soltrack and nrel, 1e-5 iqbal; surface azimuth: zero south, east positive']


def case(ctx, i):
    rng = ctx.rng
    sp, s, off, zone = batch(ctx, scale=.08, refraction=False)
    t, lat, lon = grids(s)
    like = sp.zenith
    beta = float(rng.choice([0, 90, 180, 30, 45, rng.uniform(0, 180), rng.uniform(0, 90), 1e-6, 89.999]))
    gamma = float(rng.choice([0, 90, -90, 180, -180, 45, rng.uniform(-180, 180), rng.uniform(-180, 180), rng.uniform(-180, 360)]))
    v = gen.mined(rng, 0, 180)
    if v is not None and rng.random() < .2:
        beta = v
    v = gen.mined(rng, -180, 360)
    if v is not None and rng.random() < .2:
        gamma = v
    ctx.current = dict(ctx.current, slope=beta, azimuth=gamma)
    sig = f'{s.usecase}/{s.algorithm}/{s.engine}/{s.regime}/{zone is not None}/{int(beta // 45)}/{int(gamma // 45)}'

    tol = {'psa': 6e-4, 'iqbal': 1e-5}.get(s.algorithm, 1.6e-4)
    if s.t.size and (s.t.min() < gen.year_range((1800, 1800))[0] or s.t.max() > gen.year_range((2200, 2200))[1]):
        tol = 3.5e-3     # nrel in far years: UT - TT

    def inc(b, g):
        x = sp.incidence(b, g)
        return x.transpose(*like.dims).values

    def wit(k):
        return dict(time=str(np.datetime64(int(t.ravel()[k]), 's')), lat=lat.ravel()[k], lon=lon.ravel()[k])
    z, a = np.radians(like.values), np.radians(sp.azimuth.values)
    b, g = np.radians(beta), np.radians(gamma)
    x = inc(beta, gamma)
    want = np.cos(z) * np.cos(b) + np.sin(z) * np.sin(b) * np.cos(a + g)
    api.judge(ctx, 'scalar product', np.abs(x - want) / (tol + np.radians(api.radial_tol(like.values, 5e-5))), sig, lambda k: dict(got=x.ravel()[k], want=want.ravel()[k], **wit(k)))
    # the same, from the declination and the true solar time of the answer: sharper
    ts, tf = seconds(full(sp.true_solar_time, like))
    h = np.radians(180 - 15 * ((ts % 86400) + tf) / 3600)
    d, f = np.radians(along(sp.dec.values, s)), np.radians(lat)
    exact = ((np.sin(f) * np.cos(b) - np.cos(f) * np.sin(b) * np.cos(g)) * np.sin(d)
             + (np.cos(f) * np.cos(b) + np.sin(f) * np.sin(b) * np.cos(g)) * np.cos(d) * np.cos(h)
             + np.cos(d) * np.sin(h) * np.sin(b) * np.sin(g))
    api.judge(ctx, 'hour angle form', np.abs(x - exact) / 1e-6, sig, lambda k: dict(got=x.ravel()[k], want=exact.ravel()[k], **wit(k)))
    bad = lambda ok: np.where(ok, 0., np.inf)
    api.judge(ctx, 'bounds', bad(np.abs(x) <= 1 + 1e-9), sig, wit)
    flat = inc(0., gamma)
    api.judge(ctx, 'horizontal plane', np.abs(flat - sp.cosz.values) / tol, sig, wit)
    api.judge(ctx, 'opposite side', np.abs(inc(180. - beta, gamma + 180.) + x) / 1e-9, sig, wit)
    api.judge(ctx, 'periodic', np.abs(inc(beta, gamma + 360.) - x) / 1e-9, sig, wit)
    api.judge(ctx, 'periodic', np.abs(inc(-beta, gamma + 180.) - x) / 1e-9, None, wit)
    # a plane facing the sun
    k = int(rng.integers(0, z.size))
    if .01 < z.ravel()[k] < np.pi - .01:
        y = inc(float(np.degrees(z.ravel()[k])), float(-np.degrees(a.ravel()[k]))).ravel()[k]
        ctx.check(y > 1 - max(1e-6, tol ** 2), 'scalar product', None, what='plane facing the sun', got=y, context=ctx.current, **wit(k))
    ctx.sample(**ctx.current)
