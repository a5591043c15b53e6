"""Each element depends on its own time and place only, not on its batch."""
import numpy as np

from .. import api, gen

CASES = (3200, 30000)
LIMIT = (70, 700)
RULE = ('a random batch against: a subset of it, a permutation, a batch with repetitions, itself embedded in '
        'unrelated data (other years, places, orders), itself split in two calls, and with another number of '
        'numexpr threads; calls of up to 2**23 cells. Distinct: transformation / use case / algorithm / engine / refraction / size regime')
REQUIRED = ['subset', 'permutation', 'repetition', 'embedding', 'split']
ASSUMPTIONS = ['round-off up to 5e-5 deg (larger next to the vertical, where single precision coordinates amplify it)']


def pick(v, s, k, j, m):
    """the results at the times k, and the places j (latitudes, or sites) and m"""
    o = {f: v[f][k] for f in ('declination', 'eot', 'ecf')}
    for f in ('zenith', 'azimuth'):
        a = v[f][k]
        if s.usecase == 'sites':
            a = a[:, j]
        elif s.usecase == 'regular_grid':
            a = a[:, j][:, :, m]
        o[f] = a
    return o


def huge(ctx, turn):
    """millions of cells: a few of them against calls of their own"""
    rng = ctx.rng
    s = gen.huge(rng, most=22.3, turn=turn)
    uc, (nt, ny, nx) = s.usecase, (len(s.t), len(s.lat), len(s.lon))
    t = s.t
    ctx.current = s.describe()
    kw = dict(algorithm=s.algorithm, engine=s.engine, refraction=s.refraction)
    t = t.astype('datetime64[s]')
    full = api.values(api.call(s.usecase, t, s.lat, s.lon, **kw))
    ends = lambda n: np.unique(np.r_[0, n - 1, rng.integers(0, n, 12)]) if n else np.arange(0)
    for _ in range(3):
        k, j, m = ends(nt), ends(ny), ends(nx)
        if uc == 'transect':
            lat, lon = s.lat[k], s.lon[k]
        elif uc == 'sites':
            lat, lon = s.lat[j], s.lon[j]
        else:
            lat, lon = s.lat[j], s.lon[m]
        v = api.values(api.call(s.usecase, t[k], lat, lon, **kw))
        api.same_results(ctx, 'subset', v, pick(full, s, k, j, m), 'huge/' + api.sig(s), dict(times=str(t[k][:3]), k=k[:8], j=j[:8], m=m[:8]))
    # none is missing, and the rest is in range
    for f, x in full.items():
        ctx.check(bool(np.isfinite(x).all()), 'subset', None, what='finite', field=f, context=ctx.current)
    ctx.maximum('cells in a call', int(full['zenith'].size))


def case(ctx, i):
    rng = ctx.rng
    if i % 61 == 3:
        return huge(ctx, i // 61)
    s = gen.scenario(rng, scale=.4)
    ctx.current = s.describe()
    kw = dict(algorithm=s.algorithm, engine=s.engine, refraction=s.refraction)
    t = s.t.astype('datetime64[s]')
    full = api.values(api.call(s.usecase, t, s.lat, s.lon, **kw))
    nt, ny, nx = len(t), len(s.lat), len(s.lon)

    def again(monitor, k, j, m):
        if s.usecase == 'transect':
            lat, lon = s.lat[k], s.lon[k]
        elif s.usecase == 'sites':
            lat, lon = s.lat[j], s.lon[j]
        else:
            lat, lon = s.lat[j], s.lon[m]
        v = api.values(api.call(s.usecase, t[k], lat, lon, **kw))
        api.same_results(ctx, monitor, v, pick(full, s, k, j, m), monitor[:4] + '/' + api.sig(s),
                         dict(times=str(t[k][:3]), k=k[:8], j=j[:8], m=m[:8]))

    def sub(n):
        return np.sort(rng.choice(n, int(rng.integers(1, min(n, 40) + 1)), replace=False)) if n else np.arange(0)

    every = lambda n: np.arange(n)
    again('subset', sub(nt), sub(ny), sub(nx))
    again('permutation', rng.permutation(nt), rng.permutation(ny), rng.permutation(nx))
    rep = lambda n: rng.integers(0, n, int(rng.integers(1, min(3 * n, 300) + 2))) if n else np.arange(0)
    again('repetition', rep(nt), rep(ny), rep(nx))
    if nt > 1:
        c = int(rng.integers(1, nt))
        again('split', np.arange(c), every(ny), every(nx))
        again('split', np.arange(c, nt), every(ny), every(nx))
    elif ny > 1:
        c = int(rng.integers(1, ny))
        again('split', every(nt), np.arange(c), every(nx) if s.usecase == 'regular_grid' else np.arange(c))

    # embed a few of its elements in foreign data, including scrambled years
    k, j, m = sub(nt)[:12], sub(ny)[:8], sub(nx)[:8]
    extra = int(rng.choice([1, 3, 50, 1023, 3000]))
    if s.usecase == 'regular_grid':
        extra = min(extra, 200)
    years = s.years
    tx = np.concatenate([gen.times(rng, extra, years, 'mixed'), s.t[k]])
    if s.usecase == 'transect':
        la = np.concatenate([gen.latitudes(rng, extra), s.lat[k]])
        lo = np.concatenate([gen.longitudes(rng, extra), s.lon[k]])
        o = rng.permutation(len(tx))
        v = api.values(api.call('transect', tx[o].astype('M8[s]'), la[o], lo[o], **kw))
        inv = np.argsort(o)[extra:]
        got = {f: v[f][inv] for f in v}
    else:
        ex2 = min(extra, 12)
        la = np.concatenate([gen.latitudes(rng, ex2), s.lat[j]])
        lo = np.concatenate([gen.longitudes(rng, ex2), s.lon[j if s.usecase == 'sites' else m]])
        o = rng.permutation(len(tx))
        v = api.values(api.call(s.usecase, tx[o].astype('M8[s]'), la, lo, **kw))
        inv = np.argsort(o)[extra:]
        got = {f: v[f][inv] for f in v}
        for f in ('zenith', 'azimuth'):
            got[f] = got[f][:, ex2:] if s.usecase == 'sites' else got[f][:, ex2:, ex2:]
    api.same_results(ctx, 'embedding', got, pick(full, s, k, j, m), f'embe/{extra}/' + api.sig(s), dict(extra=extra))

    if s.engine == 'numexpr' and rng.random() < .3:
        import numexpr
        n = numexpr.set_num_threads(int(rng.integers(1, 9)))
        try:
            v = api.values(api.call(s.usecase, t, s.lat, s.lon, **kw))
        finally:
            numexpr.set_num_threads(n)
        api.same_results(ctx, 'number of threads', v, full, api.sig(s))
    ctx.sample(scenario=s.describe())
