"""The command line shows what the library computes, for the instant and place that were asked."""
import datetime as dt
import io
import os
import re
import subprocess
import sys
import zoneinfo
from contextlib import redirect_stdout

import numpy as np
import pandas as pd

from .. import api, gen

CASES = (1800, 24000)
LIMIT = (45, 700)
RULE = ('random command lines (times in several formats incl. daylight saving changes, hemispheres, the four algorithms, refraction, '
        'time zones; malformed ones), run in-process, and in subprocesses with other TZ for "now"; every row of the table is parsed and '
        'compared with the library. Distinct: algorithm / refraction / zone / form of the time / hemispheres / polar')
REQUIRED = ['exit status', 'rows', 'values', 'clock rows', 'rejected', 'now']
ASSUMPTIONS = ['the table is printed with 4 decimals (angles), whole seconds (times) and tenths of a second (equation of time)']

_cli = None


def setup(ctx):
    global _cli
    from typer.testing import CliRunner
    from sunwhere._cli.main import app
    runner = CliRunner()

    def run(args):
        r = runner.invoke(app, args)
        return r.exit_code, r.output
    _cli = run


def table(text):
    rows = []
    for line in text.splitlines():
        p = [x.strip() for x in line.split('║')]
        if len(p) == 4 and p[0] == '' and p[3] == '':
            rows.append((p[1], p[2]))
    return rows


FMT = ['%Y-%m-%d %H:%M:%S', '%Y-%m-%dT%H:%M:%S', '%Y%m%dT%H%M%S', '%d %B %Y %H:%M:%S', '%Y/%m/%d %H:%M:%S', '%b %d, %Y %H:%M:%S']
NUM = r'(-?\d+(?:\.\d+)?)'


def clock(s):
    h, m, q = s.split(':')
    return int(h) * 3600 + int(m) * 60 + float(q)


def case(ctx, i):
    rng = ctx.rng
    k = i % 12
    if k == 11:
        return malformed(ctx)
    if i % 60 == 10:
        return now(ctx)
    zone = str(rng.choice(gen.ZONES)) if rng.random() < .6 else 'UTC'
    tz = zoneinfo.ZoneInfo(zone)
    t = gen.instant(rng, (1905, 2100))
    if rng.random() < .3:
        tr = gen.transitions(rng, zone, int(rng.integers(1975, 2037)))
        if tr:
            t = int(rng.choice(tr)) + int(rng.choice([-90000, -86400, -43200, 43200, 86400, 7200]))
    lat, lon = gen.latitudes(rng, 1)[0], gen.longitudes(rng, 1)[0]
    if rng.random() < .4:      # a place in the zone: its sunsets may be on the other side of a DST change
        off = tz.utcoffset(dt.datetime(2001, 1, 1)).total_seconds() / 3600
        lon = float(np.clip(15 * off + rng.uniform(-12, 12), -180, 179.9))
        lat = rng.uniform(-66, 66)
    lat, lon = round(float(lat), int(rng.integers(0, 7))), round(float(lon), int(rng.integers(0, 7)))
    lon = -180. if lon >= 180 else lon
    w = pd.Timestamp(t, unit='s', tz='UTC').tz_convert(tz)
    try:      # the wall clock must denote one instant
        u = w.tz_localize(None).tz_localize(zone)
    except Exception:
        return
    if u != w:
        return
    fmt = FMT[rng.integers(0, len(FMT))]
    args = ['at', w.strftime(fmt),
            f'{abs(lat):.6f}'.rstrip('0').rstrip('.') + ('Nn' if lat >= 0 else 'Ss')[rng.integers(0, 2)],
            f'{abs(lon):.6f}'.rstrip('0').rstrip('.') + ('Ee' if lon >= 0 else 'Ww')[rng.integers(0, 2)]]
    alg = str(rng.choice(['psa', 'nrel', 'soltrack', 'iqbal']))
    refr = bool(rng.integers(0, 2))
    if alg != 'psa' or rng.random() < .5:
        args += [['-a', '--algorithm'][rng.integers(0, 2)], alg]
    if not refr or rng.random() < .5:
        args += ['--refraction' if refr else '--no-refraction']
    if zone != 'UTC' or rng.random() < .3:
        args += [['-z', '--timezone'][rng.integers(0, 2)], zone]
    if rng.random() < .5:
        args = args[:1] + args[4:] + args[1:4]
    ctx.current = dict(args=args)
    code, text = _cli(args)
    if not ctx.check(code == 0, 'exit status', None, code=code, output=text[-300:], context=ctx.current):
        return
    judge(ctx, text, pd.DatetimeIndex([w]), lat, lon, alg, refr, zone, f'{alg}/{int(refr)}/{zone}/{fmt}/{lat >= 0}/{lon >= 0}')
    if i % 30 == 0:
        ctx.sample(args=args, output=table(text)[:8])


def judge(ctx, text, times, lat, lon, alg, refr, zone, sig):
    rows = table(text)
    d = dict(rows)
    sp = api.call('sites', times.tz_convert(zone), lat, lon, algorithm=alg, refraction=refr)
    names = ['Day of week', 'Date', 'Time', 'Latitude', 'Longitude', 'Declination', 'Sun-Earth distance', 'Zenith', 'Elevation',
             'Azimuth (0° south)', 'Sunrise(UTC)', 'Sunset(UTC)', f'Sunrise({zone})', f'Sunset({zone})', 'Equation of time']
    if not ctx.check(set(d) == set(names) and len(rows) == len(set(names)), 'rows', sig, got=list(d), context=ctx.current):
        return
    w = times[0].tz_convert(zone)
    ctx.check(d['Day of week'] == w.strftime('%A') and d['Date'] == w.strftime('%d %B %Y')
              and d['Time'].startswith(w.strftime('%H:%M:%S(')) and d['Time'] == w.strftime('%H:%M:%S(%Z)'), 'clock rows', sig,
              got=[d['Day of week'], d['Date'], d['Time']], want=str(w), context=ctx.current)

    def num(x, unit):
        m = re.fullmatch(NUM + r'\s*' + unit, x)
        return float(m[1]) if m else np.nan
    want = {'Latitude': (lat, '°'), 'Longitude': (lon, '°'), 'Declination': (float(sp.dec[0]), '°'),
            'Sun-Earth distance': (float(sp.ecf[0])**-.5, 'AU'), 'Zenith': (float(sp.zenith[0, 0]), '°'),
            'Elevation': (90 - float(sp.zenith[0, 0]), '°'), 'Azimuth (0° south)': (float(sp.azimuth[0, 0]), '°')}
    for name, (v, unit) in want.items():
        e = abs(num(d[name], unit) - v)
        if name.startswith('Azimuth'):
            e = min(e, 360 - e)
        ctx.check(e <= 1.05e-4, 'values', sig + '/' + name, row=name, got=d[name], want=v, context=ctx.current)
    m = re.fullmatch(r'(-?)(\d+):(\d+(?:\.\d+)?) min', d['Equation of time'])
    v = np.nan if not m else (int(m[2]) + float(m[3]) / 60) * (-1 if m[1] else 1)
    ctx.check(abs(v - float(sp.eot[0])) <= .11 / 60, 'values', sig + '/eot', row='Equation of time', got=d['Equation of time'],
              want=float(sp.eot[0]), context=ctx.current)
    if m:
        ctx.check(float(m[3]) <= 60, 'values', None, row='Equation of time', got=d['Equation of time'])
    for name, f in (('Sunrise', sp.sunrise), ('Sunset', sp.sunset)):
        for u, lab in (('utc', 'UTC'), ('local', zone)):
            x = f(u).values.ravel()[0]
            s = d[f'{name}({lab})']
            if np.isnat(x):
                ctx.check(not re.search(r'\d', s), 'clock rows', 'polar', row=f'{name}({lab})', got=s, context=ctx.current)
                continue
            ok = re.fullmatch(r'\d\d:\d\d:\d\d', s) is not None
            e = 1e9
            if ok:
                x = x.astype('M8[ns]')
                v = (x - x.astype('M8[D]')).astype('m8[ns]').astype('int64') / 1e9
                e = abs((clock(s) - v + 43200) % 86400 - 43200)
            ctx.check(ok and e <= 1.01, 'clock rows', sig + '/' + name, row=f'{name}({lab})', got=s, want=str(x), context=ctx.current)


def malformed(ctx):
    rng = ctx.rng
    good = ['2024-05-06 12:00', '40N', '3W']
    bad = [('latitude', 1, ['40', '91N', '90.001S', 'N', 'xN', '40E', '1e3N', '40NN', '', '40.N.5', '40,5N', '-91N', '40 30N', 'N40', '+-40N']),
           ('longitude', 2, ['3', '180E', '180.5W', '360E', 'W', 'xE', '3N', '1e3W', '3WW', '3,5W', '-180.5E', '3 30W', 'W3', '--3W', '180.0001W']),
           ('time', 0, ['notatime', '2024-13-01', '2024-02-30', '25:61', '2024-01-01 99:00', '2024-05-01T24:00', '2024-05-01 24:00',
                       '2024-05-01 24:00:00', '2023-02-29', '2024-00-10', '2024-04-31 10:00', '2024-05-01 12:60', '2024-05-01 12:00:61',
                       '2024-05-00', '2024-05-01 -1:00'])]
    if rng.random() < .3:
        opt = [['-a', 'nope'], ['-a', 'PSA'], ['-z', 'Mars/Olympus'], ['--algorithm', '']][rng.integers(0, 4)]
        args, what = ['at'] + good + opt, ' '.join(opt)
    else:
        name, k, vals = bad[rng.integers(0, 3)]
        v = str(vals[rng.integers(0, len(vals))])
        g = list(good)
        g[k] = v
        args, what = ['at'] + g, f'{name} {v!r}'
    ctx.current = dict(args=args)
    code, text = _cli(args)
    ctx.check(code != 0, 'rejected', what, code=code, output=text[-200:], context=ctx.current)
    ctx.check(not table(text), 'rejected', None, what='printed a table', context=ctx.current)
    # the limits are in
    lim = [['90N', '180W'], ['90S', '179.9999E'], ['0N', '0E'], ['0S', '0W']][rng.integers(0, 4)]
    code, text = _cli(['at', good[0]] + lim)
    ctx.check(code == 0 and len(table(text)) >= 13, 'exit status', 'limits ' + lim[0] + lim[1], args=lim, output=text[-200:])


def now(ctx):
    rng = ctx.rng
    zone = str(rng.choice(gen.ZONES))
    tz = zoneinfo.ZoneInfo(zone)
    machine = str(rng.choice(gen.ZONES))
    env = dict(os.environ, TZ=machine, COLUMNS='200', PYTHONIOENCODING='utf-8')
    how = int(rng.integers(0, 3))
    args = [['at'], ['at', 'now'], ['at', 'now', '10N', '20E']][how]
    if zone != 'UTC':
        args += ['-z', zone]
    ctx.current = dict(args=args, TZ=machine)
    t0 = dt.datetime.now(dt.timezone.utc).replace(microsecond=0)
    p = subprocess.run([sys.executable, '-c', 'from sunwhere._cli.main import app; app()'] + args, env=env, capture_output=True,
                       text=True, encoding='utf-8', timeout=100)
    t1 = dt.datetime.now(dt.timezone.utc)
    if not ctx.check(p.returncode == 0, 'exit status', None, code=p.returncode, output=(p.stdout + p.stderr)[-300:], context=ctx.current):
        return
    d = dict(table(p.stdout))
    shown = f'{d.get("Date")} {d.get("Time", "").split("(")[0]}'
    try:
        w = dt.datetime.strptime(shown, '%d %B %Y %H:%M:%S')
    except ValueError:
        ctx.fail('now', got=shown)
        return
    cand = [t0 + dt.timedelta(seconds=k) for k in range(int((t1 - t0).total_seconds()) + 2)]
    hit = [c for c in cand if c.astimezone(tz).replace(tzinfo=None) == w]
    ctx.check(bool(hit), 'now', f'{zone}/{machine}/{how}', got=shown, want=str(t0.astimezone(tz)), context=ctx.current)
    if not hit:
        return
    lat, lon = (10., 20.) if how == 2 else (36.949, -3.822)
    z = re.match(NUM, d['Zenith'])
    sp = api.call('sites', pd.DatetimeIndex([hit[0]]), lat, lon)
    ctx.check(z is not None and abs(float(z[1]) - float(sp.zenith[0, 0])) < .01, 'now', None, got=d['Zenith'], want=float(sp.zenith[0, 0]), context=ctx.current)
