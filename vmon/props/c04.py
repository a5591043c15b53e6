"""sites, regular_grid, transect and scalar calls give the same answer."""
import numpy as np

from .. import api, gen

CASES = (3200, 30000)
LIMIT = (70, 700)
RULE = ('a random set of times, latitudes and longitudes (sometimes with equal lengths, repeated values, 1-element '
        'axes), evaluated through regular_grid, sites (all the pairs of the grid), transect (all the triples) and '
        'scalar calls, with the same algorithm and engine. Distinct: algorithm / engine / refraction / shape class')
REQUIRED = ['sites = regular_grid', 'transect = regular_grid', 'scalar = regular_grid']
ASSUMPTIONS = ['round-off up to 5e-5 deg (larger next to the vertical, where single precision coordinates amplify it)']


def case(ctx, i):
    rng = ctx.rng
    if i % 151 == 7:
        s = gen.huge(rng, most=20, usecase='regular_grid', turn=i // 151)
    else:
        s = gen.scenario(rng, usecase='regular_grid', scale=.12,
                         regime=rng.choice(['tiny', 'equal', 'medium', 'block', 'mined'], p=[.2, .4, .3, .05, .05]))
    ctx.current = s.describe()
    nt, ny, nx = s.shape
    kw = dict(algorithm=s.algorithm, engine=s.engine, refraction=s.refraction)
    t = s.t.astype('datetime64[s]')
    g = api.values(api.call('regular_grid', t, s.lat, s.lon, **kw))
    same = len({nt, ny, nx}) < 3
    sig = f'{s.algorithm}/{s.engine}/{int(s.refraction)}/{s.regime}/{"eq" if same else "neq"}/{min(nt, 5)}{min(ny, 5)}{min(nx, 5)}'

    yy, xx = [a.ravel() for a in np.meshgrid(s.lat, s.lon, indexing='ij')]
    p = api.values(api.call('sites', t, yy, xx, **kw))
    q = {f: (v.reshape(nt, ny, nx) if v.ndim == 2 else v) for f, v in p.items()}
    api.same_results(ctx, 'sites = regular_grid', q, g, sig)

    tt = np.repeat(t, ny * nx)
    p = api.values(api.call('transect', tt, np.tile(yy, nt), np.tile(xx, nt), **kw))
    q = {f: p[f].reshape(nt, ny, nx) for f in ('zenith', 'azimuth')}
    for f in ('declination', 'eot', 'ecf'):
        w = p[f].reshape(nt, ny * nx)
        q[f] = w[:, 0] if w.size else w.reshape(-1)
        # the orbit does not depend on the place
        api.judge(ctx, 'orbit the same everywhere', api.excess(w, w[:, :1], {'declination': 1e-7, 'eot': 1e-6, 'ecf': 1e-9}[f]))
    api.same_results(ctx, 'transect = regular_grid', q, g, sig)

    for _ in range(4):
        k, j, m = (int(rng.integers(0, n)) for n in s.shape)
        case_t = t[k]
        uc = gen.USECASES[rng.integers(0, 3)]
        kind = rng.integers(0, 3)
        lat, lon = float(s.lat[j]), float(s.lon[m])
        if kind == 1:
            lat, lon = [lat], [lon]
        elif kind == 2:
            lat, lon, case_t = np.float64(lat), np.float64(lon), case_t.reshape(1)
        v = api.values(api.call(uc, case_t, lat, lon, **kw))
        one = {f: v[f].ravel() for f in v}
        api.same_results(ctx, 'scalar = regular_grid', one,
                         {'zenith': g['zenith'][k, j, m:m + 1], 'azimuth': g['azimuth'][k, j, m:m + 1],
                          **{f: g[f][k:k + 1] for f in ('declination', 'eot', 'ecf')}}, f'{sig}/{uc}/{kind}',
                         dict(time=str(t[k]), lat=s.lat[j], lon=s.lon[m], through=uc))
    ctx.sample(scenario=s.describe())
