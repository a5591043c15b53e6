"""Results travel: copies, pickles and other processes."""
import copy
import multiprocessing
import pickle
import zoneinfo

import numpy as np
import pandas as pd

import sunwhere
from .. import api, gen
from .c10 import accessors

CASES = (1500, 25000)
LIMIT = (60, 700)
RULE = ('results of every use case, algorithm and engine, naive or in a time zone of any kind, with holes or without, read before or not, are '
        'copied, deep-copied, pickled with every protocol, computed in or sent to other processes (started afresh); every accessor '
        'of the copy is compared with that of the original (values, labels, names, attributes), before and after one of the two is changed. '
        'Distinct: use case / algorithm / engine / zone / way')
REQUIRED = ['copy', 'pickle', 'independent', 'in a new process', 'from a worker']
ASSUMPTIONS = []
PLAIN = ('algorithm', 'engine', 'has_refraction', 'usecase', 'timezone')
_far = None


def look(sp):
    """everything a result says"""
    o = {k: v[0] for k, v in accessors(sp).items()}
    for p in ('kasten_1965', 'gueymard_2001'):
        o['airmass ' + p] = sp.airmass(p)
    o['eth perez'] = sp.eth(1367., am_correction='perez_1990')
    o['latitude'], o['longitude'] = sp.latitude, sp.longitude
    o.update({k: getattr(sp, k) for k in PLAIN})
    o.update(times=sp.times, times_utc=sp.times_utc, local=sp.local_standard_time)
    return o


def differ(a, b):
    bad = []
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, pd.Index):
            same = alike(x, y)
        elif hasattr(x, 'identical'):
            same = x.dtype == y.dtype and x.shape == y.shape and near(x.values, y.values) and x.identical(y.copy(data=x.values))
        else:
            same = type(x) is type(y) and x == y
        if not same:
            bad.append(k)
    return bad


def near(x, y):
    if x.dtype.kind == 'M':
        return bool(np.all((np.isnat(x) & np.isnat(y)) | (np.abs(x - y) <= np.timedelta64(1, 'ms'))))
    return bool(np.allclose(x, y, rtol=1e-9, atol=1e-9, equal_nan=True))


def alike(x, y):
    """the same instants, wall clocks and time zone"""
    return type(x) is type(y) and str(x.tz) == str(y.tz) and x.unit == y.unit and x.tz_localize(None).equals(y.tz_localize(None)) \
        and x.tz_convert('UTC').tz_localize(None).equals(y.tz_convert('UTC').tz_localize(None))


def work(job):
    """in a worker: compute, read, and give it back"""
    uc, t, la, lo, kw, read = job
    sp = getattr(sunwhere, uc)(t, la, lo, **kw)
    if read:
        look(sp)
    return sp


def serve(c):
    """a worker: what comes and goes is pickled here, so that what cannot be is an answer too"""
    while True:
        b = c.recv_bytes()
        if b == b'end':
            return
        try:
            f, arg = pickle.loads(b)
            a = b'+' + pickle.dumps(f(arg))
        except Exception as exc:
            a = b'-' + f'{type(exc).__name__}: {exc}'[:500].encode()
        c.send_bytes(a)


class Travel(Exception):
    pass


def afar(f, arg):
    global _far
    if _far is None:
        ctx = multiprocessing.get_context('spawn')
        mine, its = ctx.Pipe()
        p = ctx.Process(target=serve, args=(its,), daemon=True)
        p.start()
        its.close()
        _far = p, mine
    p, c = _far
    c.send_bytes(pickle.dumps((f, arg)))
    if not c.poll(90):
        raise Travel('no answer from the other process')
    a = c.recv_bytes()
    if a[:1] == b'-':
        raise Travel('in the other process: ' + a[1:].decode())
    return pickle.loads(a[1:])


def teardown(ctx):
    if _far:
        _far[0].kill()
        _far[0].join()


def case(ctx, i):
    rng = ctx.rng
    s = gen.scenario(rng, scale=.03, years=(1800, 2200) if rng.random() < .8 else None, regime=rng.choice(['tiny', 'equal', 'medium']))
    t, la, lo = s.t.astype('M8[s]'), s.lat.copy(), s.lon.copy()
    holes = rng.random() < .25
    if holes:
        la[rng.random(len(la)) < .3] = np.nan
        t[rng.random(len(t)) < .3] = np.datetime64('NaT')
    zone = None
    if s.t.min() > -8e9 and s.t.max() < 9e9 and rng.random() < .6:
        zone = str(rng.choice(gen.ZONES))
        kind = int(rng.integers(0, 3))
        t = pd.DatetimeIndex(t).tz_localize('UTC').tz_convert(zoneinfo.ZoneInfo(zone) if kind == 0 else f'dateutil/{zone}' if kind == 1 else zone)
    kw = dict(algorithm=s.algorithm, engine=s.engine, refraction=s.refraction)
    ctx.current = dict(s.describe(), zone=zone, holes=bool(holes))
    sp = api.call(s.usecase, t, la, lo, **kw)
    before = rng.random() < .5
    if before:
        look(sp)
    way = i % 5
    name = ['copy', 'pickle', 'pickle', 'in a new process', 'from a worker'][way]
    sig = f'{s.usecase}/{s.algorithm}/{s.engine}/{zone is None}/{way}/{before}'
    if way == 0:
        c = copy.deepcopy(sp) if i % 2 else copy.copy(sp)
    elif way < 3:
        c = pickle.loads(pickle.dumps(sp, int(rng.integers(2, pickle.HIGHEST_PROTOCOL + 1))))
    elif way == 3:
        far = afar(look, sp)
        bad = differ(look(sp), far)
        ctx.check(not bad, name, sig, differ=bad, context=ctx.current)
        return
    else:
        f = pickle.loads(pickle.dumps(getattr(sunwhere, s.usecase)))        # the functions travel too
        ctx.check(f is getattr(sunwhere, s.usecase), 'functions', s.usecase, context=ctx.current)
        c = afar(work, (s.usecase, t, la, lo, kw, before))
        x, y = look(sp), look(c)
        ok = all(api.worst(api.excess(np.asarray(x[k], float), np.asarray(y[k], float), 1e-4))[0] <= 1 for k in ('declination', 'eot', 'ecf', 'latitude', 'longitude'))
        api.judge(ctx, name, api.sky_excess(y['zenith'].values, y['azimuth'].values, x['zenith'].values, x['azimuth'].values), sig)
        bad = [k for k in x if hasattr(x[k], 'dims') and (x[k].dims != y[k].dims or x[k].attrs != y[k].attrs or x[k].name != y[k].name or x[k].dtype != y[k].dtype
               or not all(x[k].coords[q].equals(y[k].coords[q]) for q in x[k].coords))]
        bad += [k for k in PLAIN if x[k] != y[k]] + [k for k in ('times', 'times_utc', 'local') if not alike(x[k], y[k])]
        ctx.check(ok and not bad, name, None, differ=bad, values=ok, context=ctx.current)
        return
    first = {k: v.copy(deep=True) if hasattr(v, 'copy') else v for k, v in look(sp).items()}
    ctx.check(type(c) is type(sp), name, sig, context=ctx.current)
    bad = differ(first, look(c))
    ctx.check(not bad, name, sig, differ=bad, context=ctx.current)
    # a copy of the copy, and it again
    if rng.random() < .2:
        bad = differ(first, look(pickle.loads(pickle.dumps(copy.deepcopy(c)))))
        ctx.check(not bad, name, None, differ=bad, twice=True, context=ctx.current)
    if way > 0 or i % 2:     # deep: what happens to one does not show in the other
        victim, other = (sp, c) if rng.random() < .5 else (c, sp)
        for k in ('latitude', 'longitude', 'zenith', 'azimuth', 'eot', 'ecf', 'declination'):
            v = getattr(victim, k).values
            if v.flags.writeable and v.size:
                v[...] = -77.
        bad = differ(first, look(other))
        ctx.check(not bad, 'independent', sig, differ=bad, context=ctx.current)
    if i % 50 == 0:
        ctx.sample(**ctx.current)
