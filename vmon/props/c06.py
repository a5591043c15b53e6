"""Missing times and places stay confined; empty inputs give empty outputs."""
import zoneinfo

import numpy as np
import pandas as pd

from .. import api, gen

CASES = (3000, 30000)
LIMIT = (70, 700)
RULE = ('a random batch with NaT times and NaN coordinates injected (none, one, some, all; at the ends and inside), '
        'compared element-wise with the same batch without them; all-NaT, empty times and empty places. Distinct: '
        'what is missing / use case / algorithm / engine / size regime')
REQUIRED = ['missing stays missing', 'present unaffected', 'missing in derived', 'empty']
ASSUMPTIONS = []


def holes(rng, n):
    m = np.zeros(n, bool)
    k = rng.integers(0, 6)
    if n == 0 or k == 0:
        return m, 'none'
    if k == 1:
        m[rng.integers(0, n)] = True
        return m, 'one'
    if k == 2:
        m[:] = True
        return m, 'all'
    if k == 3:
        m[0] = m[-1] = True
        return m, 'ends'
    if k == 4:
        m[:] = True
        m[rng.integers(0, n)] = False
        return m, 'butone'
    return rng.random(n) < rng.choice([.05, .5, .9]), 'some'


def case(ctx, i):
    rng = ctx.rng
    if i % 8 == 7:
        return empty(ctx)
    s = gen.scenario(rng, scale=.15)
    kw = dict(algorithm=s.algorithm, engine=s.engine, refraction=s.refraction)
    t = s.t.astype('datetime64[s]')
    mt, kt = holes(rng, len(t))
    my, ky = holes(rng, len(s.lat)) if rng.random() < .6 else (np.zeros(len(s.lat), bool), 'none')
    mx, kx = holes(rng, len(s.lon)) if rng.random() < .6 else (np.zeros(len(s.lon), bool), 'none')
    ctx.current = dict(s.describe(), NaT=kt, nanlat=ky, nanlon=kx)
    full = api.values(api.call(s.usecase, t, s.lat, s.lon, **kw))
    tn, la, lo = t.copy(), s.lat.copy(), s.lon.copy()
    tn[mt] = np.datetime64('NaT')
    la[my] = np.nan
    lo[mx] = np.nan
    arg = tn
    form = rng.integers(0, 8)
    warg = t
    lo_y, hi_y = gen.year_range((1700, 2250))
    if form and (s.t.size == 0 or (s.t.min() > lo_y and s.t.max() < hi_y)):
        if form >= 4:        # aware
            zone = zoneinfo.ZoneInfo(str(rng.choice(gen.ZONES)))
            warg = pd.DatetimeIndex(t).tz_localize('UTC').tz_convert(zone)
            ctx.current['zone'] = str(zone)
        aware = lambda: pd.DatetimeIndex(tn).tz_localize('UTC').tz_convert(zone)
        arg = [lambda: tn, lambda: pd.DatetimeIndex(tn), lambda: tn.astype('M8[ns]'), lambda: [pd.NaT if np.isnat(x) else x for x in tn],
               aware, aware, lambda: list(aware()), lambda: [None if x is pd.NaT else x.to_pydatetime() for x in aware()]][form]()
        if form in (3, 6, 7) and (len(tn) == 0 or mt.all() or len(tn) > 5000):
            arg, warg = tn, t
    sp = api.call(s.usecase, arg, la, lo, **kw)
    v = api.values(sp)
    if s.usecase == 'sites':
        miss = mt[:, None] | (my | mx)[None, :]
    elif s.usecase == 'regular_grid':
        miss = mt[:, None, None] | my[None, :, None] | mx[None, None, :]
    else:
        miss = mt | my | mx
    sig = f'{kt}/{ky}/{kx}/' + api.sig(s)
    want = {f: np.where(miss, np.nan, full[f]) for f in ('zenith', 'azimuth')}
    want.update({f: np.where(mt, np.nan, full[f]) for f in ('declination', 'eot', 'ecf')})
    for f in api.FIELDS:
        hole = miss if f in ('zenith', 'azimuth') else mt
        if not ctx.check(v[f].shape == hole.shape, 'shape', got=v[f].shape, want=hole.shape):
            return
        bad = hole & ~np.isnan(v[f])
        api.judge(ctx, 'missing stays missing', np.where(bad[hole], np.inf, 0.), sig, dict(field=f))
    # `same_results` takes NaN on both sides as agreement
    api.same_results(ctx, 'present unaffected', v, want, sig)

    # derived quantities
    nat = np.isnat(np.asarray(sp.times_utc.tz_localize(None).values))
    ctx.check(np.array_equal(nat, mt), 'missing in derived', what='times_utc', got=nat[:8], want=mt[:8])
    tst = sp.true_solar_time
    hole = mt | mx if s.usecase == 'transect' else mt[:, None] | mx[None, :]
    ctx.check(np.array_equal(np.isnat(tst.values), hole), 'missing in derived', what='true_solar_time', sig=sig,
              got=int(np.isnat(tst.values).sum()), want=int(hole.sum()))
    for what, x in (('elevation', sp.elevation), ('cosz', sp.cosz), ('sza', sp.sza), ('saa', sp.saa)):
        ctx.check(np.array_equal(np.isnan(x.values), miss), 'missing in derived', what=what)
    for unit in ('deg', 'utc', 'local'):
        for what in ('sunrise', 'sunset'):
            x = getattr(sp, what)(unit)
            x = x.transpose(*[d for d in sp.zenith.dims if d in x.dims]).values
            m = np.isnat(x) if x.dtype.kind == 'M' else np.isnan(x)
            place = my if unit == 'deg' or s.usecase == 'regular_grid' else my | mx
            if s.usecase == 'transect':
                h = mt | place
            elif s.usecase == 'sites':
                h = mt[:, None] | place[None, :]
            else:
                h = mt[:, None] | my[None, :] if unit == 'deg' else miss
            if ctx.check(m.shape == h.shape, 'missing in derived', what=what, unit=unit, got=m.shape, want=h.shape):
                ctx.check(bool(m[h].all()), 'missing in derived', what=what, unit=unit)
    inc = sp.incidence(30., 20.).transpose(*sp.zenith.dims).values
    if ctx.check(inc.shape == miss.shape, 'missing in derived', what='incidence', got=inc.shape, want=miss.shape):
        ctx.check(bool(np.isnan(inc[miss]).all()) and bool(np.isfinite(inc[~miss]).all()), 'missing in derived',
                  what='incidence', finite_at_missing=int(np.isfinite(inc[miss]).sum()))
    # air mass and irradiance: missing there, and elsewhere as without the holes
    whole = api.call(s.usecase, warg, s.lat, s.lon, **kw)
    derived = [(f'airmass {p}', lambda x, p=p: x.airmass(p)) for p in ('kasten_1965', 'kasten_and_young_1989', 'gueymard_2001', 'gueymard_2003')]
    derived += [(f'eth {c}', lambda x, c=c: x.eth(am_correction=c)) for c in ('none', 'perez_1990', 'skarveith_1998', 'gonzalez_and_calbo_1999')]
    derived += [('cosz', lambda x: x.cosz), ('elevation', lambda x: x.elevation), ('incidence', lambda x: x.incidence(40., -70.)), ('daylight_length', lambda x: x.daylight_length())]
    derived += [(f'{w} {u}', lambda x, w=w, u=u: getattr(x, w)(u)) for w in ('sunrise', 'sunset') for u in ('deg', 'rad', 'tst', 'utc', 'local')]
    derived += [('saa', lambda x: np.sin(np.radians(x.saa)) * np.sin(np.radians(x.sza))), ('saa', lambda x: np.cos(np.radians(x.saa)) * np.sin(np.radians(x.sza)))]
    derived += [('true_solar_time', lambda x: x.true_solar_time)]
    for q in rng.permutation(len(derived))[:7]:
        what, f = derived[q]
        a, b = f(sp), f(whole)
        if a.ndim == 3:
            a, b = a.transpose('time', 'latitude', 'longitude').values, b.transpose('time', 'latitude', 'longitude').values
        else:
            a, b = ((x.transpose('time', ...) if 'time' in x.dims else x).values for x in (a, b))
        if a.dtype.kind == 'M':
            o = t[0] if len(t) else np.datetime64(0, 's')
            a, b = (np.where(np.isnat(x), np.nan, (x.astype('M8[us]') - o.astype('M8[us]')) / np.timedelta64(1, 's')) for x in (a, b))
            same = lambda x, y: np.allclose(x, y, rtol=1e-14, atol=5e-3, equal_nan=True)
        else:
            same = lambda x, y: np.allclose(x, y, rtol=1e-4, atol=1e-6 * max(1., np.nanmax(np.abs(b), initial=0.)), equal_nan=True)
        h = miss
        if what == 'true_solar_time':
            h = mt | mx if s.usecase == 'transect' else mt[:, None] | mx[None, :]
        if what == 'daylight_length' or what[-3:] in ('deg', 'rad'):
            h = mt | my if s.usecase == 'transect' else mt[:, None] | my[None, :]
        if ctx.check(a.shape == b.shape == h.shape, 'missing in derived', what=what, got=a.shape, want=h.shape):
            ctx.check(bool(np.isnan(a[h]).all()), 'missing in derived', f'{what}/{s.usecase}', what=what, present_at_missing=int((~np.isnan(a[h])).sum()), context=ctx.current)
            ctx.check(same(a[~h], b[~h]), 'present unaffected', f'{what}/{s.usecase}', what=what, context=ctx.current)
    ctx.sample(scenario=ctx.current, missing=int(miss.sum()), of=int(miss.size))


def empty(ctx):
    rng = ctx.rng
    alg, eng = gen.ALGOS[rng.integers(0, len(gen.ALGOS))]
    uc = gen.USECASES[rng.integers(0, 3)]
    refr = bool(rng.integers(0, 2))
    kind = ['list', 'M8', 'index', 'aware', 'nat'][rng.integers(0, 5)]
    t = {'list': [], 'M8': np.array([], 'M8[ns]'), 'index': pd.DatetimeIndex([]),
         'aware': pd.DatetimeIndex([], tz='Europe/Madrid'), 'nat': np.full(3, 'NaT', 'M8[ns]')}[kind]
    n = len(t)
    if uc == 'transect':
        la, lo = np.zeros(n), np.zeros(n)
    else:
        j = int(rng.integers(1, 4))
        la, lo = gen.latitudes(rng, j), gen.longitudes(rng, j)
    ctx.current = dict(usecase=uc, algorithm=alg, engine=eng, refraction=refr, times=kind)
    sp = api.call(uc, t, la, lo, algorithm=alg, engine=eng, refraction=refr)
    v = api.values(sp)
    shape = {'sites': (n, len(la)), 'regular_grid': (n, len(la), len(lo)), 'transect': (n,)}[uc]
    for f in api.FIELDS:
        w = shape if f in ('zenith', 'azimuth') else (n,)
        ctx.check(v[f].shape == w and np.isnan(v[f]).all(), 'empty', field=f, got=v[f].shape, want=w,
                  sig=f'{kind}/{uc}/{alg}/{eng}/{refr}')
    ctx.check(len(sp.times) == n and len(sp.times_utc) == n, 'empty', what='times')
    if kind == 'aware':
        ctx.check(sp.timezone == 'Europe/Madrid', 'empty', what='timezone', got=sp.timezone)
