"""What is invalid is rejected with ValueError, and what is valid is not."""
import numpy as np
import pandas as pd
import xarray as xr

import sunwhere
from .. import api, gen

CASES = (9000, 80000)
LIMIT = (70, 600)
RULE = ('random valid calls corrupted in one way: a latitude or longitude out of bounds (by one ulp, by a lot, infinite; '
        'anywhere in the array, next to NaN), shape mismatches, 2-dim coordinates, unknown algorithm, engine, '
        'parameterization, units; plus valid calls at the exact bounds. Distinct: corruption / use case / algorithm / engine')
REQUIRED = ['rejected', 'accepted']
ASSUMPTIONS = ['the accepted longitudes are -180 <= lon < 180, as in the error message and the docstring of the core']


def expect_error(ctx, what, f, sig, types=(ValueError,), **kw):
    try:
        r = f()
    except types:
        ctx.ok('rejected', 1, sig)
    except Exception as exc:
        ctx.ok('rejected', 1, sig)
        ctx.fail('rejected', what=what, error=f'{type(exc).__name__}: {exc}'[:200], context=ctx.current, **kw)
    else:
        ctx.ok('rejected', 1, sig)
        ctx.fail('rejected', what=what, error='accepted', context=ctx.current, **kw)


def range_or_list(a):
    a = [int(v) for v in a]
    return range(a[0], a[0] + 1) if len(a) == 1 else a


NAMES = ['', 'PSA', 'spa', 'nrel ', 'Psa', 'sg2', 'numpy', None, 'psa2', 'iqbal\n', 'default']
ENGINES = ['', 'NumPy', 'numba', 'numexpr ', None, 'psa', 'python']


def labelled(a):
    """a Series whose labels are not its positions"""
    n = len(a)
    return pd.Series(a, index=[np.arange(n)[::-1], np.arange(n) + 3, [f'p{k}' for k in range(n)], np.arange(n)][n % 4])


def case(ctx, i):
    rng = ctx.rng
    alg, eng = gen.ALGOS[rng.integers(0, 7)]
    uc = gen.USECASES[rng.integers(0, 3)]
    refr = bool(rng.integers(0, 2))
    n = int(rng.choice([1, 2, 3, 7, 30]))
    j = n if uc == 'transect' else int(rng.choice([1, 2, 3, 8]))
    m = int(rng.choice([1, 2, 5])) if uc == 'regular_grid' else j
    t = gen.times(rng, n, (1950, 2050)).astype('M8[s]')
    la, lo = gen.latitudes(rng, j), gen.longitudes(rng, m)
    kw = dict(algorithm=alg, engine=eng, refraction=refr)
    ctx.current = dict(usecase=uc, n=n, nlat=j, nlon=m, **kw)
    k = int(rng.integers(0, 13))
    nan = rng.random() < .4
    form = [lambda a: a] * 4 + [list, tuple, labelled, lambda a: a.astype(object), lambda a: a.astype('>f8'), lambda a: np.repeat(a, 2)[::2]]
    form = form[rng.integers(0, len(form))]
    if k in (0, 1):
        if rng.random() < .12:       # far from the ends of a long array
            j = int(rng.choice([1000, 4097, 40000]))
            t = t[:1] if uc != 'transect' else gen.times(rng, j, (1950, 2050)).astype('M8[s]')
            m = j if uc != 'regular_grid' else int(rng.choice([1, 3]))
            if uc == 'regular_grid' and rng.random() < .5:
                j, m = m, j
            la, lo = gen.latitudes(rng, j), gen.longitudes(rng, m)
            ctx.current.update(n=len(t), nlat=j, nlon=m)
        if rng.random() < .15:       # nothing to compute, and yet
            t = np.full(len(t), np.datetime64('NaT'), 'M8[s]')
            if uc != 'transect' and rng.random() < .5:
                t = t[:0]
    if k == 0:        # latitude
        bad = float(rng.choice([np.nextafter(90, 91), np.nextafter(-90, -91), 90.0001, -90.5, 91, -91, 180, 1e9, np.inf, -np.inf,
                                -np.nextafter(90, 91), 90 + 10.**rng.uniform(-10, 3)]))
        if nan:
            la[:] = np.nan
        la[rng.integers(0, j)] = bad
        arg = form(la) if j > 1 or rng.random() < .5 else float(la[0])
        expect_error(ctx, f'latitude {bad!r}', lambda: api.call(uc, t, arg, lo, **kw), f'lat/{bad!r}/{uc}/{alg}/{eng}')
    elif k == 1:      # longitude
        bad = float(rng.choice([180., np.nextafter(180, 181), np.nextafter(-180, -181), 180.0001, -180.5, 360, -360, 359.9, 1e9,
                                np.inf, -np.inf, 180 + 10.**rng.uniform(-10, 3)]))
        if nan:
            lo[:] = np.nan
        lo[rng.integers(0, m)] = bad
        arg = form(lo) if m > 1 or rng.random() < .5 else float(lo[0])
        expect_error(ctx, f'longitude {bad!r}', lambda: api.call(uc, t, la, arg, **kw), f'lon/{bad!r}/{uc}/{alg}/{eng}')
    elif k in (2, 3):  # the bounds are in
        la[rng.integers(0, j)] = rng.choice([90., -90.])
        lo[rng.integers(0, m)] = rng.choice([-180., np.nextafter(180, 0)])
        sp = api.call(uc, t, la, lo, **kw)
        ctx.check(np.isfinite(sp.zenith.values).all() and np.array_equal(sp.latitude.values, la)
                  and np.array_equal(sp.longitude.values, lo), 'accepted', f'bounds/{uc}/{alg}/{eng}', context=ctx.current)
        # and so are missing places, be they some or all
        la[rng.random(j) < (1. if rng.random() < .5 else .5)] = np.nan
        lo[rng.random(m) < (1. if rng.random() < .3 else .3)] = np.nan
        sp = api.call(uc, t, la, lo, **kw)
        ctx.check(np.array_equal(sp.latitude.values, la, equal_nan=True) and np.array_equal(sp.longitude.values, lo, equal_nan=True),
                  'accepted', f'missing/{uc}/{np.isnan(la).all()}/{np.isnan(lo).all()}', context=ctx.current)
    elif k == 4:      # unknown algorithm or engine
        if rng.random() < .5:
            kw['algorithm'] = NAMES[rng.integers(0, len(NAMES))]
        else:
            kw['engine'] = ENGINES[rng.integers(0, len(ENGINES))]
        if rng.random() < .2:
            kw.update(algorithm='nrel', engine='numpy')
        expect_error(ctx, 'unknown name', lambda: api.call(uc, t, la, lo, **kw), f'name/{kw["algorithm"]}/{kw["engine"]}/{uc}')
    elif k == 5:      # shapes
        if uc == 'regular_grid':
            return
        d = int(rng.choice([1, 2, 5]))
        w = int(rng.integers(0, 3))
        tt, a, b = t, la, lo
        if w == 0:
            a = np.concatenate([la, gen.latitudes(rng, d)])
        elif w == 1:
            b = np.concatenate([lo, gen.longitudes(rng, d)])
        elif uc == 'transect':
            if rng.random() < .5:
                tt = np.concatenate([t, t[:1]])
            else:
                a, b = np.concatenate([la, la[:1]]), np.concatenate([lo, lo[:1]])
        else:
            return
        expect_error(ctx, 'shapes', lambda: api.call(uc, tt, a, b, **kw), f'shape/{uc}/{w}/{alg}', sizes=[len(tt), len(a), len(b)])
    elif k == 6:      # dimensions
        w = int(rng.integers(0, 3))
        a, b, tt = la, lo, t
        if w == 0:
            a = la.reshape((1, -1) if rng.random() < .5 else (-1, 1))
        elif w == 1:
            b = lo.reshape((1, -1) if rng.random() < .5 else (-1, 1))
        else:
            tt = t.reshape((1, -1) if rng.random() < .5 else (-1, 1))
        expect_error(ctx, 'dimensions', lambda: api.call(uc, tt, a, b, **kw), f'ndim/{uc}/{w}/{alg}',
                     (ValueError, TypeError) if w == 2 else (ValueError,))
    elif k in (7, 8):
        sp = api.call(uc, t, la, lo, **kw)
        w = int(rng.integers(0, 4))
        name = ['', 'kasten', 'kasten_1965 ', 'Gueymard_2003', None, 'none', 'degrees', 'UTC', 'hour', 'perez', 'deg '][rng.integers(0, 11)]
        if w == 0:
            expect_error(ctx, f'airmass({name!r})', lambda: sp.airmass(name), f'am/{name}')
        elif w == 1:
            if name == 'none':
                name = 'perez_1991'
            expect_error(ctx, f'eth(am_correction={name!r})', lambda: sp.eth(am_correction=name), f'eth/{name}')
        elif w == 2:
            expect_error(ctx, f'sunrise({name!r})', lambda: sp.sunrise(name), f'sr/{name}')
        else:
            expect_error(ctx, f'sunset({name!r})', lambda: sp.sunset(name), f'ss/{name}')
    elif k == 9:      # all the documented names are accepted
        sp = api.call(uc, t, la, lo, **kw)
        for x in ('kasten_1965', 'kasten_and_young_1989', 'gueymard_2001', 'gueymard_2003'):
            sp.airmass(x)
        for x in ('none', 'perez_1990', 'skarveith_1998', 'gonzalez_and_calbo_1999'):
            sp.eth(am_correction=x)
        for x in ('deg', 'rad', 'tst', 'utc', 'local'):
            sp.sunrise(x)
            sp.sunset(x)
        ctx.check(set(sunwhere.SPA_ALGORITHMS) == {'nrel', 'psa', 'soltrack', 'iqbal'}, 'accepted', f'names/{uc}/{alg}/{eng}',
                  got=sunwhere.SPA_ALGORITHMS)
    elif k == 10:     # coordinates of any numeric kind
        f = [list, tuple, lambda a: a.astype('f4'), lambda a: a.astype(int), labelled, lambda a: list(map(int, a)),
             lambda a: a.astype('f2'), lambda a: a.astype('i2'), lambda a: a.astype(object), lambda a: a.astype('g'), pd.Index,
             lambda a: a.astype('>i4'), lambda a: xr.DataArray(a), lambda a: np.ma.array(a), range_or_list][rng.integers(0, 15)]
        la2, lo2 = np.trunc(la), np.trunc(lo)
        x = api.values(api.call(uc, t, f(la2), f(lo2), **kw))
        y = api.values(api.call(uc, t, la2, lo2, **kw))
        ctx.ok('accepted')
        api.same_results(ctx, 'accepted', x, y, f'kinds/{uc}/{alg}/{eng}')
    elif k == 11:     # default arguments
        x = api.values(api.call(uc, t, la, lo))
        y = api.values(api.call(uc, t, la, lo, algorithm='psa', refraction=True, engine='numexpr'))
        api.same_results(ctx, 'accepted', x, y, f'default/{uc}')
        x = api.values(getattr(sunwhere, uc)(t, la, lo, alg, refr, eng))
        y = api.values(getattr(sunwhere, uc)(times=t, latitude=la, longitude=lo, **kw))
        api.same_results(ctx, 'accepted', x, y, f'positional/{uc}/{alg}/{eng}')
    else:             # a failed call leaves no trace
        y = api.values(api.call(uc, t, la, lo, **kw))
        for bad in (dict(kw, algorithm='x'), dict(kw, engine='x')):
            expect_error(ctx, 'unknown name', lambda: api.call(uc, t, la, lo, **bad), 'name2')
        expect_error(ctx, 'latitude', lambda: api.call(uc, t, la * 0 + 99, lo, **kw), 'lat2')
        api.same_results(ctx, 'accepted', api.values(api.call(uc, t, la, lo, **kw)), y, f'after/{uc}/{alg}/{eng}')
    if i % 50 == 0:
        ctx.sample(corruption=k, **ctx.current)
