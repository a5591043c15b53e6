"""What a call costs: memory in proportion to its times and its output, given back afterwards; no Python loop over the elements."""
import gc
import sys
import tracemalloc

import numpy as np
import pandas as pd

from sunwhere.utils.datetime import true_solar_time, universal_time_coordinated
from .. import api, gen

CASES = (480, 10000)
LIMIT = (60, 700)
RULE = ('calls of 3,000 to 300,000 cells in every use case, algorithm and engine, long or wide, naive or in a time zone, with holes or '
        'without, and every accessor of their results, with the allocations traced (peak, and what remains after hundreds of calls) and '
        'the calls of the interpreter counted at two sizes. Distinct: use case / algorithm / engine / shape / zone / accessor')
REQUIRED = ['memory of a call', 'memory of an accessor', 'work of the interpreter', 'memory is given back']
ASSUMPTIONS = ['two to three times what the current tree takes: 300 bytes per cell, 600 per place, 1,500 per time (9,000 with nrel), and 4 MB',
               'the buffers inside numexpr and the C library are not traced']

MB = 1 << 20


def peak(f):
    """(result, peak of the traced memory above that at the start)"""
    mine = not tracemalloc.is_tracing()
    if mine:
        tracemalloc.start(1)
    try:
        a = tracemalloc.get_traced_memory()[0]
        tracemalloc.reset_peak()
        r = f()
        return r, tracemalloc.get_traced_memory()[1] - a
    finally:
        if mine:
            tracemalloc.stop()


def work(f):
    """calls of Python and C functions"""
    n = 0

    def prof(frame, event, arg):
        nonlocal n
        if event in ('call', 'c_call'):
            n += 1
    sys.setprofile(prof)
    try:
        f()
    finally:
        sys.setprofile(None)
    return n


def draw(rng, i, size=None):
    alg, eng = gen.ALGOS[i % 7]
    uc = gen.USECASES[i // 7 % 3]
    shape = 'transect' if uc == 'transect' else str(rng.choice(['long', 'wide', 'square']))
    step, start, few = int(rng.choice([1, 60, 600, 3600, 86400])), int(rng.integers(0, 10**9)), int(rng.integers(1, 5))
    zone = str(rng.choice(gen.ZONES)) if rng.random() < .4 else None
    holes, index, ordered = rng.random(3) < [.3, .3, .3]
    kw = dict(algorithm=alg, engine=eng, refraction=bool(rng.integers(0, 2)))
    u, cells = rng.uniform(0, 1), int(2**rng.uniform(15, 18)) if size is None else size
    if uc == 'transect':
        nt = ny = nx = int(3000 + 9000 * u) if size is None else size
    else:
        nt = {'long': min(cells // 3, 30000), 'wide': few, 'square': int(cells**.5)}[shape]
        ny = nx = cells // nt
        if uc == 'regular_grid':
            ny = int(nx**u)
            nx = nx // ny
    m8 = (gen.year_range((1990, 1990))[0] + start + (step if nt < 8000 else 600) * np.arange(nt)).astype('datetime64[s]')
    if holes:
        m8[rng.integers(0, nt, max(1, nt // 10))] = 'NaT'
    times = pd.DatetimeIndex(m8).tz_localize('UTC').tz_convert(zone) if zone else (pd.DatetimeIndex(m8) if index else m8)
    la, lo = rng.uniform(-90, 90, ny), rng.uniform(-180, 180, nx)
    if ordered:
        la, lo = np.sort(la), np.sort(lo)
    cells = nt * {'transect': 1, 'sites': ny, 'regular_grid': ny * nx}[uc]
    places = {'transect': nt, 'sites': ny, 'regular_grid': ny + nx}[uc]
    info = dict(usecase=uc, nt=nt, ny=ny, nx=nx, zone=zone, holes=bool(holes), **kw)
    return uc, times, la, lo, kw, cells, places, nt, info, f'{uc}/{alg}/{eng}/{shape}/{zone is not None}/{holes}'


def allowed(nt, places, cells, nrel):
    return 4 * MB + 300 * cells + 600 * places + (9000 if nrel else 1500) * nt


def case(ctx, i):
    rng = ctx.rng
    if i < 4 or i % 160 == 9:
        return returned(ctx, i)
    if i % 4 == 3:
        return interpreter(ctx, i // 4)
    uc, times, la, lo, kw, cells, places, nt, info, sig = draw(rng, i // 4 * 3 + i % 4)
    ctx.current = info
    gc.collect()
    tracemalloc.start(1)
    try:
        sp, p = peak(lambda: api.call(uc, times, la, lo, **kw))
        limit = allowed(nt, places, cells, kw['algorithm'] == 'nrel')
        ctx.check(p <= limit, 'memory of a call', sig, peak=p, allowed=limit, per_cell=p / cells, context=info)
        ctx.maximum('share of the allowed memory, calls', p / limit)
        limit = allowed(nt, places, cells, False)
        for k, name, f in readers(rng, sp):
            r, p = peak(f)
            ctx.check(p <= limit, 'memory of an accessor', f'{name}/{uc}', accessor=name, peak=p, allowed=limit, context=info)
            ctx.maximum('share of the allowed memory, accessors', p / limit)
            del r
        n = int(rng.integers(1, 60))
        m = max(1, min(nt, 60000 // n))
        t, lon = pd.DatetimeIndex(times[:m]).tz_localize(None).values.astype('M8[s]'), rng.uniform(-180, 180, n)
        t = t[~np.isnat(t)]
        for f in (true_solar_time, universal_time_coordinated):
            if len(t):
                r, p = peak(lambda: f(t, lon))
                limit = allowed(len(t), n, len(t) * n, False)
                ctx.check(p <= limit, 'memory of an accessor', f.__name__, accessor=f.__name__, peak=p, allowed=limit, nt=len(t), lon=n)
    finally:
        tracemalloc.stop()
    ctx.maximum('cells', cells)
    ctx.sample(**info)


def readers(rng, sp, n=9):
    fs = [(n, (lambda n=n: getattr(sp, n))) for n in
          ('zenith', 'sza', 'azimuth', 'saa', 'elevation', 'cosz', 'declination', 'eot', 'ecf', 'latitude', 'true_solar_time',
           'times', 'times_utc', 'local_standard_time')]
    fs += [(f'{n}({u})', (lambda n=n, u=u: getattr(sp, n)(u))) for n in ('sunrise', 'sunset') for u in ('deg', 'rad', 'tst', 'utc', 'local')]
    fs += [('daylight_length', sp.daylight_length), ('incidence', lambda: sp.incidence(30., 60.))]
    fs += [(f'airmass({p})', (lambda p=p: sp.airmass(p))) for p in
           ('kasten_1965', 'kasten_and_young_1989', 'gueymard_2001', 'gueymard_2003')]
    fs += [(f'eth({c})', (lambda c=c: sp.eth(am_correction=c))) for c in
           ('none', 'perez_1990', 'skarveith_1998', 'gonzalez_and_calbo_1999')]
    for k in rng.choice(len(fs), n, replace=False):
        yield k, *fs[k]


def interpreter(ctx, i):
    """the same call at two sizes: the interpreter makes about as many calls"""
    rng = ctx.rng
    seed = int(rng.integers(0, 1 << 30))
    counts = []
    for size in (900, 40000):
        uc, times, la, lo, kw, cells, places, nt, info, sig = draw(np.random.default_rng(seed), i, size)
        ctx.current = info
        out = []
        sp = api.call(uc, times, la, lo, **kw)

        c = dict(call=work(lambda: api.call(uc, times, la, lo, **kw)))
        for _, name, f in readers(np.random.default_rng(seed), sp):
            c[name] = work(f)
        counts.append((c, cells, nt))
    (a, ca, _), (b, cb, _) = counts
    for k in a:
        limit = 1.2 * a[k] + 1000 + (cb - ca) // 50
        ctx.check(b[k] <= limit, 'work of the interpreter', f'{k}/{sig}', what=k, cells=[ca, cb], calls=[a[k], b[k]], allowed=limit, context=info)
    ctx.maximum('ratio of the calls', max(b[k] / a[k] for k in a))


def returned(ctx, i):
    """hundreds of different calls: what they leave behind does not add up"""
    rng = ctx.rng

    def some(n):
        total = 0
        for q in range(n):
            uc, times, la, lo, kw, cells, places, nt, info, sig = draw(rng, int(rng.integers(0, 21)), int(rng.integers(900, 2500)))
            sp = api.call(uc, times, la, lo, **kw)
            for _, name, f in readers(rng, sp, 3):
                f()
            total += 16 * cells
            del sp
        gc.collect()
        return total, sig
    for z in gen.ZONES:     # pandas keeps the table of each zone
        api.call('sites', pd.DatetimeIndex(['2020-01-01', '2020-07-01'], tz=z), 10., 0.).sunrise('local')
    some(8)
    tracemalloc.start(1)
    try:
        some(50)        # bounded caches fill up
        a = tracemalloc.get_traced_memory()[0]
        total, sig = some(80)
        b = tracemalloc.get_traced_memory()[0]
    finally:
        tracemalloc.stop()
    limit = MB // 16 + total // 20
    ctx.check(b - a <= limit, 'memory is given back', sig, left=b - a, allowed=limit, outputs=total, calls=80)
    ctx.maximum('bytes left by 80 calls', b - a)
