"""The documented accuracy classes hold: nrel < psa ~ soltrack < iqbal."""
import numpy as np

from .. import api, gen, ref

CASES = (1302, 8680)
LIMIT = (70, 700)
RULE = ('uniformly random instants of 2020-2050 (the years of the claims) and places, per algorithm and engine, through the three use '
        'cases; the angular distance to an independent SPA at every element, and its mean over the run. Distinct: algorithm / engine / use '
        'case / year')
REQUIRED = ['never far', 'mean error', 'order of the classes', 'no bias']
ASSUMPTIONS = ['an independent SPA (0.0003 deg) is the truth', 'the mean over the run of the distance is 0.0024 deg for psa (documented), '
               '0.0027 for soltrack and 0.125 for iqbal on the pinned code: claimed below 0.003, 0.0033 and 0.14 deg, with no distance above '
               '0.010, 0.012 and 0.5 deg; nrel always within 0.0003 deg']

WORST = {'nrel': 3e-4, 'psa': .010, 'soltrack': .012, 'iqbal': .5}
MEAN = {'nrel': 2e-4, 'psa': .003, 'soltrack': .0033, 'iqbal': .14}
BIAS = {'nrel': 1e-4, 'psa': 4e-4, 'soltrack': 4e-4, 'iqbal': .02}
ORBIT = {'nrel': (3e-4, 2e-3, 2e-6), 'psa': (6e-3, .08, 2.5e-4), 'soltrack': (6e-3, .06, 2.5e-4), 'iqbal': (.5, .65, 1.1e-3)}


def case(ctx, i):
    rng = ctx.rng
    alg, eng = gen.ALGOS[i % 7]
    uc = gen.USECASES[rng.integers(0, 3)]
    year = 2020 + (i // 7 + ctx.seed) % 31       # all of them, evenly
    lo, hi = gen.year_range((year, year))
    n = 1200
    t = rng.integers(lo, hi + 1, n if uc == 'transect' else 400 if uc == 'sites' else 200)
    lat = np.degrees(np.arcsin(rng.uniform(-1, 1, {'sites': 3, 'regular_grid': 3, 'transect': n}[uc])))
    lon = rng.uniform(-180, 180, {'sites': 3, 'regular_grid': 2, 'transect': n}[uc])
    s = gen.Scenario(uc, t, lat, lon, alg, eng, False)
    s.regime = str(year)
    ctx.current = s.describe()
    v = api.values(api.run(s))
    (tt, la, lo_), mi = s.triples(np.arange(s.size))
    r = ref.evaluate('nrel', tt, la, lo_, False)
    z, a = v['zenith'].ravel(), v['azimuth'].ravel()
    sep = ref.separation(z, a, r['zenith'], r['azimuth'])
    # single precision coordinates next to the vertical
    blur = np.minimum(.035, 2e-5 / np.maximum(1e-12, np.sin(np.radians(r['zenith']))))
    sig = f'{alg}/{eng}/{uc}/{year}'
    sep = np.where(np.isnan(sep), np.inf, sep)
    api.judge(ctx, 'never far', sep / (WORST[alg] + blur), sig,
              lambda k: dict(time=str(np.datetime64(int(tt[k]), 's')), lat=la[k], lon=lo_[k], got=[z[k], a[k]], true=[r['zenith'][k], r['azimuth'][k]]))
    for f, w in zip(('declination', 'eot', 'ecf'), ORBIT[alg]):
        e = np.abs(v[f][mi[0]] - r[f]) / w
        api.judge(ctx, 'never far', e, None, lambda k: dict(field=f, time=str(np.datetime64(int(tt[k]), 's')), got=v[f][mi[0][k]], true=r[f][k]))
    ctx.accumulate(f'{alg}/{eng} distance', sep.size, np.nansum(np.where(np.isfinite(sep), sep, 999.)))
    ctx.accumulate(f'{alg}/{eng} zenith bias', sep.size, np.nansum(z - r['zenith']))
    ctx.sample(scenario=s.describe())


def final(agg, tier):
    mean = lambda alg, eng, what: (lambda a: a[1] / a[0] if a and a[0] > 5000 else None)(agg.get(f'sum:{alg}/{eng} {what}'))
    m = {}
    for alg, eng in gen.ALGOS:
        d, b = mean(alg, eng, 'distance'), mean(alg, eng, 'zenith bias')
        if d is None:
            continue
        m[alg, eng] = d
        yield 'mean error', 1, None if d <= MEAN[alg] else dict(algorithm=alg, engine=eng, mean=d, claimed=MEAN[alg])
        yield 'no bias', 1, None if abs(b) <= BIAS[alg] else dict(algorithm=alg, engine=eng, bias=b, claimed=BIAS[alg])
    order = {'nrel': 0, 'psa': 1, 'soltrack': 1, 'iqbal': 2}
    for p in m:
        for q in m:
            if order[p[0]] < order[q[0]]:
                yield 'order of the classes', 1, None if m[p] < m[q] / 5 else dict(better=p, worse=q, means=[m[p], m[q]])
