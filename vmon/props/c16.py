"""Solar time <-> UTC conversions are inverse of each other and agree with the rest of the library."""
import zoneinfo

import numpy as np
import pandas as pd

import sunwhere
from sunwhere.utils import datetime as udt
from .. import api, gen, ref
from ._zoned import gap

CASES = (6400, 60000)
LIMIT = (70, 600)
RULE = ('random instants (1800 to 2200, or -1900 to 5900, calendar boundaries, the ends of the nanosecond range, sub-second) and longitudes (all, antimeridian), scalars and vectors, '
        'converted both ways and compared with UTC + 4 min per degree + equation of time. Distinct: form of the times / form of the '
        'longitudes / direction / century')
REQUIRED = ['solar time', 'universal time', 'round trip', 'same as the solar time of the library', 'shape', 'missing']
ASSUMPTIONS = ['the equation of time is that of PSA at the given instant: it varies less than 31 s per day, so the round trip closes '
               'within 16 s']


def case(ctx, i):
    rng = ctx.rng
    k, j = int(rng.choice([1, 1, 2, 5, 40])), int(rng.choice([1, 1, 2, 3, 8]))
    if i % 29 == 5:
        k, j = [(3000, 1), (2600, 9), (1, 3000), (5, 4000)][rng.integers(0, 4)]
    far = rng.random() < .15         # nanoseconds cannot tell them, or hardly
    t = gen.times(rng, k, (-1900, 5900) if far else (1800, 2200))
    if far and rng.random() < .5:
        t = int(rng.choice([-9223372036, 9223372036])) + rng.integers(-2 * 86400, 2 * 86400, k)
    unit, per = ('us', 10**6) if far else ('ns', 10**9)
    frac = rng.choice([0, 0, per // 2, int(rng.integers(0, per))], k).astype('int64')
    x = t.astype('M8[s]').astype(f'M8[{unit}]') + frac.astype(f'm8[{unit}]')
    forms = {'M8': x, 'index': pd.DatetimeIndex(x), 'list': list(x), 'M8[s]': t.astype('M8[s]')}
    if not far or (t.min() > -62135596800 and t.max() < 253402300800):
        forms['datetime'] = x.astype('M8[us]').tolist()
    form = list(forms)[rng.integers(0, len(forms))]
    arg = forms[form]
    lon = gen.longitudes(rng, j)
    x = arg.values if form == 'index' else np.array(arg).astype(x.dtype)
    if k == 1 and rng.random() < .5 and form != 'index':
        arg, form = arg[0], form + '0'
    lf = rng.integers(0, 3)
    larg = [lon, lon.tolist(), float(lon[0]) if j == 1 else lon][lf]
    ctx.current = dict(times=form, k=k, j=j, t=[str(v) for v in x[:3]], far=far, lon=lon[:4])
    sig = f'{form}/{k > 1}/{j > 1}/{lf}/{int(t[0] // 31556952 // 100)}'
    eot = ref.psa(t, 0., 0., False)['eot']
    lag = (eot[:, None] + 4 * lon[None, :]) * 60
    x = x[:, None]
    shape = tuple(n for n in (k, j) if n > 1)
    for name, f, sgn in (('solar time', udt.true_solar_time, 1), ('universal time', sunwhere.universal_time_coordinated, -1)):
        y = np.asarray(f(arg, larg))
        if not ctx.check(y.shape == shape and y.dtype.kind == 'M', 'shape', sig, what=name, got=[y.shape, str(y.dtype)], want=shape, context=ctx.current):
            return
        y = y.reshape(k, j)
        api.judge(ctx, name, np.abs(gap(y, x) - sgn * lag) / 1e-3, sig, lambda q: dict(got=str(np.ravel(y)[q])))
        # and back
        other = sunwhere.universal_time_coordinated if sgn > 0 else udt.true_solar_time
        for q in range(min(j, 3)):
            back = np.asarray(other(y[:, q], float(lon[q]))).reshape(k)
            e = np.abs(gap(back, x[:, 0]))
            api.judge(ctx, 'round trip', e / 16, f'{name}/{sig}', lambda r: dict(there=str(y[r, q]), lon=lon[q]))
            ctx.maximum('round trip (s)', e.max())
    when, lat = x[:, 0], rng.uniform(-90, 90, j)
    if rng.random() < .4 and t.min() > -62135000000:       # in a time zone
        when = pd.DatetimeIndex(when).tz_localize('UTC').tz_convert(zoneinfo.ZoneInfo(str(rng.choice(gen.ZONES))))
    sp = sunwhere.sites(when, lat, lon, engine=str(rng.choice(['numpy', 'numexpr'])), refraction=bool(rng.integers(0, 2)))
    tst = sp.true_solar_time.values
    y = np.asarray(udt.true_solar_time(arg, larg)).reshape(k, j)
    api.judge(ctx, 'same as the solar time of the library', np.abs(gap(tst, y)) / 1e-3, sig)
    # missing times and longitudes
    for name, f in (('solar time', udt.true_solar_time), ('universal time', sunwhere.universal_time_coordinated)):
        full = np.asarray(f(t.astype('M8[s]'), lon)).reshape(k, j)
        if rng.random() < .3:
            holes, gone = rng.random(k) < .4, rng.random(j) < .3
            u, g = t.astype('M8[s]'), np.where(gone, np.nan, lon)
            u[holes] = np.datetime64('NaT')
            if len(u) and not holes.all() or rng.random() < .3:
                y = np.asarray(f([u, pd.DatetimeIndex(u), u.astype('M8[us]')][int(rng.integers(0, 3))] if not far else u, g)).reshape(k, j)
                none = holes[:, None] | gone[None, :]
                ctx.check(np.array_equal(np.isnat(y), none), 'missing', f'{name}/{holes.any()}/{gone.any()}', context=ctx.current)
                if not none.all() and np.array_equal(np.isnat(y), none):
                    api.judge(ctx, 'missing', np.abs(gap(y, full))[~none] / 1e-3)
    if i % 40 == 0:
        ctx.sample(**ctx.current)
