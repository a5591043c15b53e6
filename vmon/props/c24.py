"""A valid call is quiet: no warning, no message, whatever the floating point error mode and the warning filters."""
import logging
import os
import subprocess
import sys
import warnings

import numpy as np
import pandas as pd
from loguru import logger

from sunwhere.utils.datetime import true_solar_time, universal_time_coordinated
from .. import api, gen
from .c10 import accessors
from .c17 import _Silence

CASES = (1900, 30000)
LIMIT = (60, 700)
RULE = ('valid calls of every kind (sizes, centuries, poles, sun at zenith or horizon, time zones, holes, empty, forms of the times) and every '
        'accessor and option of their results, with all the warnings recorded, under floating point error modes that warn or raise, with the '
        'standard streams (descriptors) and the loggers watched; also in new interpreters under -W error, and the command line. Distinct: use '
        'case / algorithm / engine / zone / holes / error mode')
REQUIRED = ['no warnings', 'no floating point traps', 'no output', 'new interpreter', 'command line']
ASSUMPTIONS = ['underflow is excepted (numpy ignores it by default)']


class Records(logging.Handler):
    def emit(self, record):
        self.seen.append(f'{record.name}: {record.getMessage()}'[:200])


def options(sp, rng):
    sp.times, sp.times_utc, sp.local_standard_time, sp.latitude, sp.longitude, sp.timezone
    for p in ('kasten_1965', 'kasten_and_young_1989', 'gueymard_2001', 'gueymard_2003'):
        sp.airmass(p)
    for c in ('none', 'perez_1990', 'skarveith_1998', 'gonzalez_and_calbo_1999'):
        sp.eth(float(rng.uniform(0, 2000)), c)
    sp.incidence(float(rng.uniform(0, 180)), float(rng.uniform(-360, 360)))
    str(sp), repr(sp)


def case(ctx, i):
    rng = ctx.rng
    if i % 240 == 11:
        return fresh(ctx, i // 240)
    if i % 240 == 131:
        return shell(ctx)
    s = gen.scenario(rng, scale=.05, years=(1800, 2200) if i % 4 else None)
    if rng.random() < .3:
        k = min(len(s.t), len(s.lat), len(s.lon))
        s.lat[:k], s.lon[:k] = gen.aim(rng, s.t[:k], s.lat[:k], s.lon[:k])
    t, la, lo = s.t.astype('M8[s]'), s.lat.copy(), s.lon.copy()
    holes = rng.random() < .35
    if holes:
        p = [.2, .6, 1.][int(rng.integers(0, 3))]
        for x, missing in ((la, np.nan), (lo, np.nan), (t, np.datetime64('NaT'))):
            if rng.random() < .6:
                x[rng.random(len(x)) < p] = missing
    elif rng.random() < .03 and s.usecase != 'transect':
        t = t[:0]
    usual = len(t) and s.t.min() > -8e9 and s.t.max() < 9e9
    zone = str(rng.choice(gen.ZONES)) if usual and rng.random() < .4 else None
    form = 'zone' if zone else str(rng.choice(['s', 'ns', 'index', 'list', 'datetimes', 'ms'])) if usual else 's'
    if zone:
        t = pd.DatetimeIndex(t).tz_localize('UTC').tz_convert(zone)
    elif form != 's':
        t = {'ns': lambda: t.astype('M8[ns]'), 'ms': lambda: t.astype('M8[ms]'), 'index': lambda: pd.DatetimeIndex(t),
             'list': lambda: list(t), 'datetimes': lambda: [pd.NaT if x is None else x for x in t.tolist()]}[form]()
    kw = dict(algorithm=s.algorithm, engine=s.engine, refraction=s.refraction)
    mode = 'raise' if i % 3 == 0 else 'warn'
    ctx.current = dict(s.describe(), form=form, zone=zone, holes=bool(holes), mode=mode)
    h = Records(logging.INFO)
    h.seen = []
    logging.root.addHandler(h)
    sink = logger.add(lambda m: h.seen.append(str(m)[:200]), level='INFO')
    out = _Silence()
    trap = None
    try:
        with warnings.catch_warnings(record=True) as w, np.errstate(divide=mode, over=mode, invalid=mode, under='ignore'), out:
            warnings.simplefilter('always')
            try:
                sp = api.call(s.usecase, t, la, lo, **kw)
                accessors(sp)
                options(sp, rng)
                if usual and not zone and len(t) and form in 's ns':
                    true_solar_time(t[:300], lo[:200])
                    universal_time_coordinated(t[:300], lo[:200])
            except FloatingPointError as exc:
                trap = f'{exc} {last_line(exc)}'
    finally:
        logging.root.removeHandler(h)
        logger.remove(sink)
    sig = f'{s.usecase}/{s.algorithm}/{s.engine}/{form}/{holes}/{mode}'
    ctx.check(trap is None, 'no floating point traps', sig if mode == 'raise' else None, error=trap, context=ctx.current)
    ctx.check(not w, 'no warnings', sig, warnings=[f'{x.category.__name__}: {str(x.message)[:120]} ({os.path.basename(x.filename)}:{x.lineno})' for x in w[:4]],
              context=ctx.current)
    ctx.check(out.size == 0 and not h.seen, 'no output', sig, bytes=out.size, logged=h.seen[:4], context=ctx.current)
    if i % 50 == 0:
        ctx.sample(**ctx.current)


def last_line(exc):
    tb = exc.__traceback__
    while tb.tb_next:
        tb = tb.tb_next
    return f'{os.path.basename(tb.tb_frame.f_code.co_filename)}:{tb.tb_lineno}'


CODE = '''
import sys, warnings
import numpy, pandas, xarray, numexpr, loguru      # what they say is their business
warnings.resetwarnings()
warnings.simplefilter('error')
import sunwhere
t = pandas.date_range({t!r}, periods={n}, freq={f!r}, tz={z!r})
a, b = numpy.linspace(-90, 90, {n}), numpy.linspace(-180, 179, {n})
s = getattr(sunwhere, {uc!r})(t, a, b, algorithm={alg!r}, engine={eng!r}, refraction={r!r})
s.zenith, s.azimuth, s.elevation, s.cosz, s.declination, s.eot, s.ecf, s.true_solar_time, s.latitude, s.longitude
for u in ('deg', 'rad', 'tst', 'utc', 'local'):
    s.sunrise(u), s.sunset(u)
for c in ('none', 'perez_1990', 'skarveith_1998', 'gonzalez_and_calbo_1999'):
    s.eth(am_correction=c)
for c in ('kasten_1965', 'kasten_and_young_1989', 'gueymard_2001', 'gueymard_2003'):
    s.airmass(c)
s.incidence(30., 60.), s.daylight_length()
sunwhere.utils.datetime.true_solar_time(t.tz_convert(None).values, b)
'''


def fresh(ctx, k):
    """everything in a new interpreter, where a warning is an error"""
    rng = ctx.rng
    alg, eng = gen.ALGOS[k % 7]
    d = dict(t=f'{int(rng.integers(1700, 2250))}-{int(rng.integers(1, 13)):02d}-{int(rng.integers(1, 29)):02d}', n=int(rng.integers(1, 40)),
             f=str(rng.choice(['1h', '7min', '1D', '30s'])), z=str(rng.choice(['UTC', 'Europe/Madrid', 'America/New_York'])),
             uc=gen.USECASES[int(rng.integers(0, 3))], alg=alg, eng=eng, r=bool(rng.integers(0, 2)))
    ctx.current = d
    p = subprocess.run([sys.executable, '-c', CODE.format(**d)], capture_output=True, text=True, timeout=300)
    ctx.check(p.returncode == 0, 'new interpreter', f'{alg}/{eng}/{d["uc"]}', code=p.returncode, said=p.stderr[-400:], context=d)
    ctx.check(p.returncode != 0 or not (p.stdout + p.stderr), 'new interpreter', None, said=(p.stdout + p.stderr)[-400:], context=d)


def shell(ctx):
    rng = ctx.rng
    alg = gen.ALGOS[int(rng.integers(0, 7))][0]
    args = ['at', f'{int(rng.integers(1900, 2200))}-{int(rng.integers(1, 13)):02d}-{int(rng.integers(1, 29)):02d} 12:34',
            f'{rng.uniform(0, 90):.3f}{rng.choice(list("NS"))}', f'{rng.uniform(0, 179):.3f}{rng.choice(list("EW"))}', '-a', alg,
            '-z', str(rng.choice(['UTC', 'Asia/Tokyo', 'Europe/London']))]
    ctx.current = dict(arguments=args)
    p = subprocess.run([sys.executable, '-W', 'always', '-c', 'from sunwhere._cli.main import app; app()'] + args, capture_output=True, text=True, timeout=300)
    mine = [x for x in p.stderr.splitlines() if 'sunwhere' in x or 'Warning' not in x and not x.startswith(' ')]
    ctx.check(p.returncode == 0 and not mine, 'command line', alg, code=p.returncode, said=mine[:5], context=ctx.current)
