"""Refraction: raises the sun a little where it should, and touches nothing else."""
import numpy as np

from .. import api, gen, ref

CASES = (3200, 40000)
LIMIT = (70, 700)
RULE = ('the same batch with and without refraction (biased to the horizon, the vertical and the threshold), the flag '
        'written as bool, int or numpy bool. Distinct: use case / algorithm / engine / elevation bands present / form of the flag')
REQUIRED = ['raises the sun', 'size', 'no refraction below', 'others untouched', 'flag', 'formula', 'order kept']
ASSUMPTIONS = ["within 0.001 deg of the threshold (NREL's: 0.8334 deg below the horizon) either side is right",
               'round-off up to 5e-5 deg (larger next to the vertical)']


def case(ctx, i):
    rng = ctx.rng
    s = gen.scenario(rng, [gen.ALGOS[i % 7]], scale=.2, refraction=True,
                     years=(1800, 2200), usecase='transect' if i % 2 else None)
    if s.usecase == 'transect':
        n = len(s.t)
        # elevations from -2 to 90, dense at the horizon
        slat, slon = ref.subsolar(s.t)
        d = np.where(rng.random(n) < .5, rng.uniform(85, 93, n), np.degrees(np.arccos(rng.uniform(-.2, 1, n))))
        b = rng.uniform(0, 2 * np.pi, n)
        dr, sl = np.radians(d), np.radians(slat)
        la = np.arcsin(np.clip(np.sin(sl) * np.cos(dr) + np.cos(sl) * np.sin(dr) * np.cos(b), -1, 1))
        lo = np.radians(slon) + np.arctan2(np.sin(b) * np.sin(dr) * np.cos(sl), np.cos(dr) - np.sin(sl) * np.sin(la))
        m = rng.random(n) < .8
        s.lat = np.where(m, np.degrees(la), s.lat)
        lo = ref.wrap180(np.degrees(lo))
        s.lon = np.where(m, np.where(lo >= 180, -180., lo), s.lon)
    ctx.current = s.describe()
    form = int(rng.integers(0, 4))
    yes, no = [(True, False), (1, 0), (np.True_, np.False_), (np.bool_(1), np.bool_(0))][form]
    on, off = api.run(s, refraction=yes), api.run(s, refraction=no)
    a, b = api.values(on), api.values(off)
    el = 90. - b['zenith']
    d = b['zenith'] - a['zenith']            # how much the sun rises
    tol = api.radial_tol(b['zenith'], 5e-5)
    bands = ''.join(c for c, m in (('-', el < -.84), ('h', np.abs(el) < .83), ('l', (el > .83) & (el < 10)),
                                   ('m', (el > 10) & (el < 80)), ('z', el > 80)) if m.any())
    sig = f'{s.usecase}/{s.algorithm}/{s.engine}/{bands}/{form}'

    def wit(k):
        (t, lat, lon), _ = s.triples(np.array([k]))
        return dict(time=str(np.datetime64(int(t[0]), 's')), lat=lat[0], lon=lon[0],
                    unrefracted=b['zenith'].ravel()[k], refracted=a['zenith'].ravel()[k])
    bad = lambda ok: np.where(ok, 0., np.inf)
    ctx.check(bool(on.has_refraction) is True and bool(off.has_refraction) is False, 'flag', sig, got=[on.has_refraction, off.has_refraction])
    api.judge(ctx, 'raises the sun', bad(d >= -tol), sig, wit)
    low = b['zenith'] > api.HORIZON + 1e-3
    high = b['zenith'] < api.HORIZON - 1e-3
    api.judge(ctx, 'no refraction below', bad(np.abs(d) <= tol)[low], sig)
    api.judge(ctx, 'size', bad(d <= .9), None, wit)
    m = high & (el < .5)
    api.judge(ctx, 'size', bad((d >= .35))[m])
    m = high & (el > 45)
    api.judge(ctx, 'size', bad(d <= .03)[m])
    m = high & (el > 10)
    api.judge(ctx, 'size', bad(d <= .11)[m])
    m = high & (el > .5) & (el < 45)
    # two thirds to four thirds of Bennett's
    w = el[m]
    benn = 1 / np.tan(np.radians(w + 7.31 / (w + 4.4))) / 60
    api.judge(ctx, 'size', bad((d[m] >= .66 * benn - .003) & (d[m] <= 1.34 * benn + .003)))
    # against the published formula of the algorithm, from the unrefracted answer
    f = formula(s.algorithm, el)
    api.judge(ctx, 'formula', (np.abs(d - f) / (1e-4 + tol))[high], sig)
    # order kept: the higher the true sun, the higher the apparent one
    e = el[high]
    o = np.argsort(e)
    ap = (90 - a['zenith'][high])[o]
    tt = tol[high][o]
    if len(ap) > 1:
        gap = np.diff(e[o])
        api.judge(ctx, 'order kept', bad(np.diff(ap) >= -2 * np.maximum(tt[1:], tt[:-1]) - .1 * gap), sig)
    for q, t1 in (('declination', 1e-9), ('eot', 1e-9), ('ecf', 1e-12)):
        api.judge(ctx, 'others untouched', api.excess(a[q], b[q], t1), None, dict(field=q))
    api.judge(ctx, 'others untouched', api.excess(np.abs(ref.wrap180(a['azimuth'] - b['azimuth'])), 0 * b['azimuth'], 1e-7), sig, wit)
    # the flag: any spelling is the same as bool
    c = api.values(api.run(s, refraction=bool(yes)))
    api.same_results(ctx, 'flag', c, a, None)
    if i % 3 == 0:
        dflt = api.values(api.call(s.usecase, s.t.astype('M8[s]'), s.lat, s.lon, algorithm=s.algorithm, engine=s.engine))
        api.same_results(ctx, 'flag', dflt, a, None, dict(what='refraction is the default'))
    # what does not depend on the zenith does not depend on the refraction
    x, y = on.incidence(30., -20.).values, off.incidence(30., -20.).values
    api.judge(ctx, 'others untouched', api.excess(x, y, 1e-9), None, dict(field='incidence'))
    x, y = on.sunrise('deg').values, off.sunrise('deg').values
    api.judge(ctx, 'others untouched', api.excess(x, y, 1e-9), None, dict(field='sunrise'))
    ctx.sample(scenario=s.describe(), bands=bands)


def formula(alg, el):
    a = np.radians(el)
    with np.errstate(all='ignore'):
        if alg == 'iqbal':
            r = np.degrees(.061359 * (.1594 + 1.1230 * a + .065656 * a * a) / (1 + 28.9344 * a + 277.3971 * a * a))
            return np.minimum(r, 90 - el)
        if alg == 'soltrack':
            return np.degrees(2.967e-4 / np.tan(a + 3.1376e-3 / (a + 8.92e-2)))
        scale = (1013.25 / 1010.) * (283. / 285.) if alg == 'nrel' else 1.
        return scale * np.degrees(1.7802e-2 / 60 / np.tan(a + 3.1376e-3 / (a + 8.9186e-2)))
