"""An instant is an instant, however it is written; the time zone is kept."""
import datetime as dt
import zoneinfo

import numpy as np
import pandas as pd

from .. import api, gen, ref

CASES = (14000, 90000)
LIMIT = (70, 700)
RULE = ('instants (random, calendar boundaries, around the daylight saving changes of 18 zones, sub-second) '
        'written as numpy, pandas, datetime, strings, lists, scalars, naive or aware (zoneinfo, pytz, fixed, dateutil), '
        'against the same instants as UTC datetime64[s]. Distinct: representation / scalar / zone offset / use case')
REQUIRED = ['same instant', 'same sky', 'time zone', 'wall clock', 'naive is UTC', 'sub-second', 'same sky as the model']
ASSUMPTIONS = ['positions are evaluated to the second: within 0.0046 deg of the exact instant',
               'the IANA database installed with the interpreter']


def case(ctx, i):
    rng = ctx.rng
    if i % 5 == 4:
        return subsecond(ctx)
    kinds = gen.NAIVE_MORE + gen.AWARE
    kind = str(kinds[i % len(kinds)])
    n = int(rng.choice([1, 2, 3, 10, 60, 500, 2000], p=[.2, .2, .2, .19, .19, .015, .005]))
    name = str(gen.ZONES[rng.integers(0, len(gen.ZONES))])
    t = gen.times(rng, n, (1800, 2200))
    if rng.random() < .5:
        tr = gen.transitions(rng, name, int(rng.integers(1972, 2037)))
        if tr:
            t = tr[rng.integers(0, len(tr))] + rng.choice([-7200, -3600, -1800, -1, 0, 1, 1799, 1800, 3599, 3600, 7200], n)
            t = t + rng.integers(0, 2, n) * rng.integers(-7200, 7200, n)
    if i % 20 == 7:      # few instants, many times: both passes of a repeated hour
        kind = ['list_aware', 'list_ts_aware', 'zoneinfo', 'pytz', 'list_aware'][i // 20 % 5]
        name = str(rng.choice(['Europe/Madrid', 'America/New_York', 'Australia/Lord_Howe', 'Australia/Sydney', 'Europe/London']))
        n = int(rng.integers(51, 120))
        tr = gen.transitions(rng, name, int(rng.integers(1990, 2037)))
        q = tr[rng.integers(0, len(tr))] + rng.choice([-3600, -1800, 0, 1800, 3600, 5400], 4)
        t = q[rng.integers(0, 4, n)]
    far = i % 20 in (3, 11)      # years that nanoseconds cannot tell
    if far:
        while kind in ('M8[ns]', 'index', 'pytz') or (kind in gen.COARSE and not kind.startswith('M8[')):
            kind = str(rng.choice(kinds))
        t = gen.times(rng, n, (-2000, 6000) if kind.startswith('M8[') or kind == 'index_s' else (1, 6000))
        t = np.maximum(t, gen.year_range((1, 1))[0] + 86400) if kind not in gen.NAIVE_MORE else t
    if rng.random() < .6:
        t = np.sort(t)
    if kind in gen.COARSE:
        t = t // gen.COARSE[kind] * gen.COARSE[kind]
    if i % 20 in (13, 18):
        kind = 'evenly spaced'
        arg, expect, t, offs = gen.evenly_spaced(rng, max(n, 2) if rng.random() < .9 else 1, name)
        n, far = len(t), False
    else:
        arg, expect, offs = gen.represent(rng, t, kind, name)
    scalar = n == 1 and rng.random() < .7
    if scalar:
        arg = arg[0]
    alg, eng = gen.ALGOS[0 if far else rng.integers(0, 7)]
    uc = gen.USECASES[rng.integers(0, 3)]
    kw = dict(algorithm=alg, engine=eng, refraction=bool(rng.integers(0, 2)))
    j = n if uc == 'transect' else int(rng.integers(1, 4))
    la, lo = gen.latitudes(rng, j), gen.longitudes(rng, j)
    ctx.current = dict(kind=kind, zone=name, usecase=uc, scalar=scalar, times=[str(x) for x in np.ravel(np.array(arg, dtype=object))[:4]], **kw)
    if kind in ('pytz_fixed', 'fixed', 'strings_off'):
        name = f'{int(offs[0]) // 60}'
    sp = api.call(uc, arg, la, lo, **kw)
    m8 = t.astype('datetime64[s]')
    base = api.call(uc, m8, la, lo, **kw)
    sig = f'{kind}/{int(scalar)}/{int(offs[0])}/{uc}'

    got = np.asarray(sp.times_utc.tz_convert('UTC').tz_localize(None).values).astype('M8[s]')
    ctx.check(np.array_equal(got, m8), 'same instant', sig, what='times_utc', got=got[:4], want=m8[:4], context=ctx.current)
    ctx.check(str(sp.times_utc.tz) == 'UTC', 'same instant', None, what='times_utc is in UTC', got=str(sp.times_utc.tz))
    got = np.asarray(sp.times.tz_convert('UTC').tz_localize(None).values).astype('M8[s]')
    ctx.check(np.array_equal(got, m8), 'same instant', None, what='times', got=got[:4], want=m8[:4], context=ctx.current)
    # the zone
    if expect is not None:
        ctx.check(sp.timezone == expect, 'time zone', sig, got=sp.timezone, want=expect, context=ctx.current)
    if kind in gen.NAIVE_MORE:
        ctx.check(sp.timezone == 'UTC', 'naive is UTC', sig, got=sp.timezone, context=ctx.current)
    wall = (t + offs).astype('datetime64[s]')
    got = np.asarray(sp.times.tz_localize(None).values).astype('M8[s]')
    ctx.check(np.array_equal(got, wall), 'wall clock', sig, what='times', got=got[:4], want=wall[:4], context=ctx.current)
    got = np.asarray(sp.local_standard_time.tz_localize(None).values).astype('M8[s]')
    ctx.check(np.array_equal(got, wall), 'wall clock', sig, what='local_standard_time', got=got[:4], want=wall[:4])
    for f in ('zenith', 'eot', 'declination', 'true_solar_time'):
        got = np.asarray(getattr(sp, f).time.values).astype('M8[s]')
        ctx.check(np.array_equal(got, wall), 'wall clock', None, what=f'time coordinate of {f}', got=got[:4], want=wall[:4],
                  context=ctx.current)
    api.same_results(ctx, 'same sky', api.values(sp), api.values(base), sig, base=1e-7)
    # against the model, evaluated at the instants themselves
    k = rng.integers(0, n, min(n, 3))
    z, a = (np.asarray(x.values).reshape(n, -1)[k, 0] for x in (sp.zenith, sp.azimuth))
    r = ref.evaluate(alg, t[k], la[k] if uc == 'transect' else la[0], lo[k] if uc == 'transect' else lo[0], kw['refraction'])
    e = ref.separation(z, a, r['zenith'], r['azimuth']) / (1e-4 + api.radial_tol(r['zenith'], 5e-5))
    if kw['refraction']:
        e = np.where(np.abs(r['zenith_true'] - api.HORIZON) < 1e-3, 0., e)
    api.judge(ctx, 'same sky as the model', e, None, lambda q: dict(time=str(m8[k[q]]), got=[z[q], a[q]], expected=[r['zenith'][q], r['azimuth'][q]]))
    us = [np.asarray(x.true_solar_time.values).astype('M8[us]').astype('int64') for x in (sp, base)]
    e = np.abs(us[0] - us[1]) / 10.
    api.judge(ctx, 'same sky', e, None, dict(field='true_solar_time'))
    ctx.sample(**ctx.current)


def subsecond(ctx):
    rng = ctx.rng
    n = int(rng.choice([1, 3, 20]))
    t = gen.times(rng, n, (1800, 2200))
    ns = rng.choice([1, 999999999, 500000000, 499999999, int(rng.integers(0, 10**9)), 1000, 10**6], n).astype('int64')
    x = t.astype('M8[s]').astype('M8[ns]') + ns.astype('m8[ns]')
    kind = int(rng.integers(0, 4))
    if kind == 1:
        arg = pd.DatetimeIndex(x).tz_localize('UTC').tz_convert(zoneinfo.ZoneInfo('Asia/Kathmandu'))
    elif kind == 2:
        arg = [pd.Timestamp(q) for q in x]
    elif kind == 3:
        ns = ns // 1000 * 1000
        x = t.astype('M8[s]').astype('M8[ns]') + ns.astype('m8[ns]')
        arg = [(dt.datetime(1970, 1, 1) + dt.timedelta(seconds=int(a), microseconds=int(b) // 1000)) for a, b in zip(t, ns)]
    else:
        arg = x
    alg, eng = gen.ALGOS[rng.integers(0, 7)]
    uc = gen.USECASES[rng.integers(0, 3)]
    refr = bool(rng.integers(0, 2))
    j = n if uc == 'transect' else 1
    la, lo = rng.uniform(-89, 89, j), gen.longitudes(rng, j)
    ctx.current = dict(kind='subsecond', form=kind, usecase=uc, algorithm=alg, engine=eng, refraction=refr,
                       times=[str(q) for q in x[:3]], lat=la[:3], lon=lo[:3])
    sp = api.call(uc, arg, la, lo, algorithm=alg, engine=eng, refraction=refr)
    got = np.asarray(sp.times_utc.tz_localize(None).values)
    ctx.check(np.array_equal(got.astype('M8[ns]'), x), 'same instant', f'ns/{kind}', got=got[:3], want=x[:3], context=ctx.current)
    z, a = sp.zenith.values.reshape(n, -1)[:, 0], sp.azimuth.values.reshape(n, -1)[:, 0]
    best = np.full(n, np.inf)
    for s in (0, 1):     # either neighbouring whole second
        r = ref.evaluate(alg, t + s, la if uc == 'transect' else la[0], lo if uc == 'transect' else lo[0], refr)
        sep = ref.separation(z, a, r['zenith'], r['azimuth'])
        if refr:
            sep = np.where(np.abs(r['zenith_true'] - api.HORIZON) < 6e-3, 0., sep)
        best = np.minimum(best, sep / (.0046 + api.radial_tol(r['zenith'], 5e-5)))
    api.judge(ctx, 'sub-second', best, f'{kind}/{uc}/{alg}/{eng}', lambda k: dict(time=str(x[k]), got=[z[k], a[k]]))
    # the clock keeps the fraction
    tst = sp.true_solar_time.values.astype('M8[ns]').astype('int64').reshape(n, -1)[:, 0]
    lon = lo if uc == 'transect' else lo[0]
    want = x.astype('int64') + np.round((sp.eot.values + 4 * lon) * 60e9).astype('int64')
    api.judge(ctx, 'sub-second', np.abs(tst - want) / 2000., None, lambda k: dict(field='true_solar_time', time=str(x[k])))
