"""Small batches with naive or zoned times, shared by the checks of the derived quantities."""
import zoneinfo

import numpy as np
import pandas as pd

from .. import api, gen, ref


def batch(ctx, scale=.03, years=(1800, 2200), refraction=None, algos=None):
    """(Sunpos, scenario, utc offsets in s, arrays broadcast against zenith)"""
    rng = ctx.rng
    u = rng.random()
    if algos is None and u < .12:      # years that nanoseconds cannot tell, and the ends of those they can
        algos, years = [('nrel', 'numexpr')], (-1900, 5900)
    s = gen.scenario(rng, algos, scale=scale, years=years, refraction=refraction,
                     regime=rng.choice(['tiny', 'equal', 'medium', 'long', 'mined'], p=[.25, .25, .35, .05, .1]))
    polar = rng.random() < .18
    if polar and rng.random() < .5:     # an equinox, when the edge of the polar night is at the poles
        y = int(rng.integers(*years))
        q = gen.year_range((y, y))[0] + int(rng.choice([78.8, 265.5]) * 86400) + 1800 * np.arange(-400, 400)
        q = int(q[np.argmin(np.abs(ref.subsolar(q)[0]))]) + int(rng.choice([.01, .05, .3, 3]) * rng.uniform(-86400, 86400))
        s.t = np.clip(s.t - s.t[0] + q, *gen.year_range(years))
    arg = s.t.astype('M8[s]')
    off, zone = np.zeros(len(s.t), 'int64'), None
    if years[0] < 0 and u < .06:
        s.t = int(rng.choice([-9223372036, 9223372036])) + rng.integers(-2 * 86400, 2 * 86400, len(s.t))
        arg = s.t.astype('M8[s]')
    if rng.random() < (.2 if polar else .5) and (years[0] > 0 or u < .06):
        zone = str(gen.ZONES[rng.integers(0, len(gen.ZONES))])
        if rng.random() < .4 and years[0] > 0:
            tr = gen.transitions(rng, zone, int(rng.integers(1975, 2037)))
            if tr:
                s.t = np.array(tr)[rng.integers(0, len(tr))] + np.arange(len(s.t)) * int(rng.choice([1800, 3600, 86400])) - 86400
        u = pd.DatetimeIndex(s.t.astype('M8[s]')).tz_localize('UTC')
        arg = u.tz_convert(zoneinfo.ZoneInfo(zone))
        off = ((arg.tz_localize(None) - u.tz_localize(None)) // pd.Timedelta(seconds=1)).to_numpy().astype('int64')
    if polar:       # places about the edge of the polar day and night
        k = rng.integers(0, len(s.lat), max(1, len(s.lat) // 2))
        d, _ = ref.subsolar(s.t[k if s.usecase == 'transect' else rng.integers(0, len(s.t), len(k)) * rng.integers(0, 2)])
        f = 1 + rng.choice([0, 1e-5, 1e-4, 1e-3, .01, .3], len(k)) * rng.choice([-1., 1.], len(k))
        s.lat[k] = rng.choice([-1., 1.], len(k)) * np.minimum(90, 90 - np.abs(d) * f)
    ctx.current = dict(s.describe(), zone=zone)
    sp = api.call(s.usecase, arg, s.lat, s.lon, algorithm=s.algorithm, engine=s.engine, refraction=s.refraction)
    return sp, s, off, zone


def full(x, like):
    """values of x broadcast and transposed as `like`"""
    x, _ = _broadcast(x, like)
    return x


def _broadcast(x, like):
    miss = [d for d in like.dims if d not in x.dims]
    v = x.transpose(*[d for d in like.dims if d in x.dims]).values
    idx = tuple(None if d in miss else slice(None) for d in like.dims)
    return np.broadcast_to(v[idx], like.shape), miss


def grids(s):
    """(t, lat, lon) broadcast to the shape of the output"""
    if s.usecase == 'sites':
        q = s.t[:, None], s.lat[None, :], s.lon[None, :]
    elif s.usecase == 'regular_grid':
        q = s.t[:, None, None], s.lat[None, :, None], s.lon[None, None, :]
    else:
        q = s.t, s.lat, s.lon
    return [np.broadcast_to(a, s.shape) for a in q]


def along(x, s):
    """a (time,) array against the output"""
    return np.broadcast_to(np.asarray(x).reshape((-1,) + (1,) * (len(s.shape) - 1)), s.shape)


def seconds(x):
    """datetime64 -> (whole seconds int64, fraction in s); NaT -> nan fraction"""
    x = np.asarray(x)
    nat = np.isnat(x)
    s = x.astype('M8[s]')
    u = 'ns' if x.dtype == np.dtype('M8[ns]') else 'us'
    f = (x - s.astype(x.dtype)).astype(f'm8[{u}]').astype('int64') / {'ns': 1e9, 'us': 1e6}[u]
    return np.where(nat, 0, s.astype('int64')), np.where(nat, np.nan, f)


def gap(a, b):
    """a - b in seconds, exactly enough"""
    (sa, fa), (sb, fb) = seconds(a), seconds(b)
    return (sa - sb) + (fa - fb)
