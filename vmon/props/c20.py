"""JPL Horizons: the right request, the right table, no needless downloads."""
import os
import re
import shutil
import tempfile
import urllib.parse

import numpy as np
import pandas as pd
import urllib3

from .. import gen

CASES = (480, 6000)
LIMIT = (45, 600)
RULE = ('a stand-in for the HTTP client answers any request with a synthetic ephemeris of the requested span; random spans, steps, '
        'sites, file locations; synthetic files with random values and boundary angles; whole years (leap and not) with some of the files '
        'already there, and the service failing half way. Distinct: function / year / step / leap / what was already there')
REQUIRED = ['request', 'file', 'table', 'year', 'cache', 'too long']
ASSUMPTIONS = ['the fixed column layout of the OBSERVER tables that the reader documents in its slices; the network is replaced by a '
               'recorder (there is none here)', 'no parquet engine is installed here: pandas.read_parquet / to_parquet are replaced by pickle',
               'downloads go through urllib3.PoolManager']

_urls, _given = [], []
_mod = None
_every = 30
_down = None      # requests before the service fails


class Response:
    status = 200

    def __init__(self, data):
        self.data = data

    headers = {}
    reason = 'OK'

    def read(self, *a, **kw):
        return self.data

    def release_conn(self):
        pass

    close = drain_conn = release_conn

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def line(t, az, el, r):
    d = pd.Timestamp(t)
    return (f" {d.strftime('%Y-%b-%d %H:%M:%S')} {d.to_julian_date():17.9f} *  {az:11.6f} {el:11.6f} {r:17.14f}\n")


def query(url):
    parts = urllib.parse.urlsplit(url)
    q = {}
    for kv in parts.query.split('&'):
        k, _, v = kv.partition('=')
        q[k] = urllib.parse.unquote(v).strip("'")
    return parts, q


def fake(self, method, url, *a, **kw):
    if _down is not None and len(_urls) >= _down:
        raise Down('the service is down')
    _urls.append((method, url))
    parts, q = query(url)
    step = int(re.match(r'\d+', q['STEP_SIZE'])[0])
    t = pd.date_range(q['START_TIME'], q['STOP_TIME'], freq=f'{step}min')
    t = t[::_every]
    h = (t - pd.Timestamp('1900-01-01')) / pd.Timedelta('1h')
    az, el, r = (15. * h) % 360, 90 * np.sin(h / 7.), 1 + .016 * np.cos(h / 1000)
    text = 'header\n' + '*' * 60 + '\n$$SOE\n' + ''.join(line(*x) for x in zip(t, az, el, r)) + '$$EOE\nfooter\n'
    _given.append(text)
    return Response(text.encode())


def setup(ctx):
    global _mod
    urllib3.PoolManager.request = fake
    try:
        import pyarrow      # noqa: F401
    except ImportError:     # no parquet engine is installed here: a stand-in keeps the table
        pd.DataFrame.to_parquet = lambda self, path, *a, **kw: self.to_pickle(path)
        pd.read_parquet = lambda path, *a, **kw: pd.read_pickle(path)
    from sunwhere.utils import jpl_horizons
    _mod = jpl_horizons
    try:
        from loguru import logger
        logger.disable('sunwhere')
    except ImportError:
        pass


def case(ctx, i):
    global _every
    del _urls[:], _given[:]
    d = tempfile.mkdtemp(prefix='vmon-jpl-')
    cwd = os.getcwd()
    try:
        os.chdir(d)
        _every = 1
        if i % 12 == 5:
            _every = 30
            year(ctx, d)
        elif i % 2:
            request(ctx, d)
        else:
            reader(ctx, d)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def request(ctx, d):
    rng = ctx.rng
    step = int(rng.choice([1, 5, 10, 12, 30, 60])) if rng.random() < .6 else int(rng.integers(2, 1500))
    t0 = pd.Timestamp(gen.instant(rng, (1950, 2050)) // 60 * 60, unit='s')
    n = int(rng.choice([1, 2, 50, 300, 3000]))
    t1 = t0 + pd.Timedelta(minutes=step * n)
    lon, lat = round(float(gen.longitudes(rng, 1)[0]), 6), round(float(gen.latitudes(rng, 1)[0]), 6)
    elev = float(rng.choice([0., .01, 1.5, -.1, 2.65, np.round(rng.uniform(-.4, 8), 3)]))
    forms = [lambda t: t, lambda t: str(t), lambda t: t.to_pydatetime(), lambda t: np.datetime64(t), lambda t: t.strftime('%Y-%m-%d %H:%M')]
    f = forms[rng.integers(0, 5)]
    out = ['x.txt', 'a/b/c.txt', os.path.join(d, 'deep/er/f.txt')][rng.integers(0, 3)]
    ctx.current = dict(start=str(t0), stop=str(t1), step=step, lon=lon, lat=lat, elev=elev, out=out)
    kw = {}
    if elev or rng.random() < .5:
        kw['site_elev'] = elev
    if step != 1 or rng.random() < .5:
        kw['step_size'] = [step, float(step), np.int64(step)][rng.integers(0, 3)]
    p = _mod.get_jpl_ephemeris(out, f(t0), f(t1), lon, lat, **kw)
    ctx.check(len(_urls) == 1 and _urls[0][0].upper() == 'GET', 'request', None, got=_urls[:2])
    parts, q = query(_urls[0][1])
    ctx.check(parts.scheme == 'https' and parts.netloc == 'ssd.jpl.nasa.gov' and parts.path == '/api/horizons.api', 'request', None, got=_urls[0][1][:100])
    ctx.check(pd.Timestamp(q['START_TIME']) == t0 and pd.Timestamp(q['STOP_TIME']) == t1, 'request', f'span/{step}/{n}', got=[q['START_TIME'], q['STOP_TIME']], context=ctx.current)
    c = [float(x) for x in q['SITE_COORD'].split(',')]
    ctx.check(len(c) == 3 and abs(c[0] - lon) < 1e-6 and abs(c[1] - lat) < 1e-6 and abs(c[2] - elev) < 1e-3, 'request', 'site', got=c, context=ctx.current)
    ctx.check(re.fullmatch(rf'{step}\s*(m|min|minutes)', q['STEP_SIZE'].lower()) is not None, 'request', 'step', got=q['STEP_SIZE'])
    for k, v in (('format', 'text'), ('COMMAND', '10'), ('EPHEM_TYPE', 'OBSERVER'), ('CENTER', 'coord@399'), ('QUANTITIES', '4,20'), ('COORD_TYPE', 'GEODETIC'),
                 ('APPARENT', 'AIRLESS'), ('ANG_FORMAT', 'DEG'), ('RANGE_UNITS', 'AU'), ('CSV_FORMAT', 'NO'), ('SKIP_DAYLT', 'NO')):
        ctx.check(q.get(k) == v, 'request', None, option=k, got=q.get(k), want=v)
    ctx.check(os.path.exists(out) and open(out).read() == _given[0], 'file', f'{out[:3]}', what='content', context=ctx.current)
    ctx.check(os.path.samefile(p, out), 'file', None, what='returned path', got=str(p))
    df = _mod.read_jpl_ephemeris_file(p)
    ctx.check(len(df) == n + 1 and df.index[0] == t0.tz_localize('UTC') and df.index[-1] == t1.tz_localize('UTC'), 'table', 'round', got=len(df), want=n + 1, context=ctx.current)

    # more lines than the service gives: refused, before asking
    m = len(_urls)
    big = int(rng.choice([90024, 90025, 200000]))      # big + 1 lines
    try:
        _mod.get_jpl_ephemeris('no/big.txt', t0, t0 + pd.Timedelta(minutes=step * big), lon, lat, step_size=step)
        refused = False
    except ValueError:
        refused = True
    ctx.check(refused and len(_urls) == m and not os.path.exists('no/big.txt'), 'too long', f'{step}/{big}', lines=big + 1, refused=refused)
    # and the largest request is not
    global _every
    _every, keep = 30000, _every
    _mod.get_jpl_ephemeris('no/big.txt', t0, t0 + pd.Timedelta(minutes=step * 90023), lon, lat, step_size=step)
    _every = keep
    ctx.check(len(_urls) == m + 1, 'too long', f'{step}/90023', lines=90024, refused=False)
    ctx.sample(**ctx.current)


def reader(ctx, d):
    rng = ctx.rng
    n = int(rng.choice([1, 2, 10, 100]))
    q = int(rng.choice([1, 60, 720]))
    t = pd.DatetimeIndex((gen.times(rng, n, (1900, 2100)) // q * q).astype('M8[s]'))
    az = np.round(np.where(rng.random(n) < .2, rng.choice([0., 359.999999, 180., 90., 1e-6], n), rng.uniform(0, 360, n)), 6)
    el = np.round(np.where(rng.random(n) < .2, rng.choice([-90., 90., 0., -1e-6], n), rng.uniform(-90, 90, n)), 6)
    r = np.round(rng.uniform(.97, 1.03, n), 14)
    path = os.path.join(d, 'e.txt')
    head = 'x $$SOE in a header line\n' * int(rng.integers(0, 3)) + 'other\n' * int(rng.integers(0, 9))
    tail = 'tail\n' * int(rng.integers(0, 4)) + '2024-Jan-01 00:00:00\n' * int(rng.integers(0, 2))
    open(path, 'w').write(head + '$$SOE\n' + ''.join(line(*x) for x in zip(t, az, el, r)) + '$$EOE\n' + tail)
    ctx.current = dict(n=n, t=str(t[0]), az=az[:3], el=el[:3], r=r[:3])
    df = _mod.read_jpl_ephemeris_file(path)
    ctx.check(set(df.columns) == {'azimuth', 'zenith', 'ecf'}, 'table', f'columns/{n}', got=list(df.columns))
    ctx.check(len(df) == n and str(df.index.tz) == 'UTC' and np.array_equal(df.index.tz_localize(None).values.astype('M8[s]'), t.values.astype('M8[s]')), 'table', 'index',
              got=[len(df), str(df.index[0])], context=ctx.current)
    if len(df) == n:
        for c, w, tol in (('azimuth', az - 180, 1e-9), ('zenith', 90 - el, 1e-9), ('ecf', r**-2., 1e-9)):
            ctx.check(np.abs(df[c].values - w).max() <= tol, 'table', c, column=c, got=df[c].values[:3], want=w[:3], context=ctx.current)
    ctx.sample(**ctx.current)


class Down(Exception):
    pass


def month(y, m):
    a = pd.Timestamp(y, m, 1)
    return pd.date_range(a, a + pd.offsets.MonthBegin(1), freq='12min', inclusive='left')


def month_file(y, m):
    return f'data/jpl_ephemeris_highres_{y}-{m:02d}.txt'


def year(ctx, d):
    global _down
    rng = ctx.rng
    y = int(rng.choice([1999, 2000, 2023, 2024, 2100, int(rng.integers(1950, 2050))]))
    lon, lat = round(float(gen.longitudes(rng, 1)[0]), 4), round(float(gen.latitudes(rng, 1)[0]), 4)
    pre, other = [], {}
    os.makedirs('data')
    how = rng.random()
    if how < .6:      # some months were already downloaded
        pre = sorted(int(x) for x in rng.permutation(12)[:int(rng.choice([1, 1, 2, 5, 12]))] + 1)
        for m in pre:
            open(month_file(y, m), 'w').write('$$SOE\n' + ''.join(line(x, 200., 10., 1.) for x in month(y, m)[::30]) + '$$EOE\n')
        for z in (y - 1, y + 1):      # and some of other years
            if rng.random() < .4:
                m = int(rng.integers(1, 13))
                open(month_file(z, m), 'w').write('$$SOE\n' + ''.join(line(x, 20., 30., 1.) for x in month(z, m)[::300]) + '$$EOE\n')
                other[month_file(z, m)] = open(month_file(z, m)).read()
    else:
        os.rmdir('data')
    kept = {month_file(y, m): open(month_file(y, m)).read() for m in pre}
    missing = [m for m in range(1, 13) if m not in pre]
    stop = int(rng.integers(0, len(missing))) if missing and rng.random() < .4 else None
    ctx.current = dict(year=y, lon=lon, lat=lat, already=pre, others=list(other), fails_at=stop)
    failed = 0
    if stop is not None:      # the service fails half way: asking again completes the year
        _down = stop
        try:
            _mod.load_jpl_ephemeris(y, lon, lat)
            raised = False
        except Down:
            raised = True
        finally:
            _down = None
        ctx.check(raised and not os.path.exists(f'data/jpl_ephemeris_highres_{y}.parquet'), 'year', 'failure', what='a year with a failed month is not saved', context=ctx.current)
        ctx.check(len(_urls) == stop, 'cache', 'failure', what='requests before the failure', got=len(_urls), want=stop, context=ctx.current)
    df = _mod.load_jpl_ephemeris(y, lon, lat)
    spans = []
    for _, url in _urls:
        q = query(url)[1]
        spans.append((pd.Timestamp(q['START_TIME']), pd.Timestamp(q['STOP_TIME']), int(re.match(r'\d+', q['STEP_SIZE'])[0])))
        c = [float(x) for x in q['SITE_COORD'].split(',')]
        ctx.check(abs(c[0] - lon) < 1e-6 and abs(c[1] - lat) < 1e-6, 'year', 'site', got=c)
    got = [pd.date_range(a, b, freq=f'{s}min') for a, b, s in spans] + [month(y, m) for m in pre]
    al = np.sort(np.concatenate([g.values for g in got]))
    want = pd.date_range(f'{y}-01-01', f'{y + 1}-01-01', freq='12min', inclusive='left').values
    ctx.check(len(al) == len(want) and np.array_equal(al, want), 'year', f'{y}/{len(pre)}/{stop is not None}', what='the requested instants are the year, once',
              got=[len(al), str(al[0]), str(al[-1])], want=len(want), context=ctx.current)
    ctx.check(len(_urls) == len(missing), 'cache', f'months/{len(pre)}', got=len(_urls), want=len(missing), context=ctx.current)
    ctx.check(df.index.is_monotonic_increasing and df.index.is_unique and (df.index.year == y).all() and str(df.index.tz) == 'UTC', 'year', None, what='index')
    every = np.sort(np.concatenate([month(y, m)[::30].values for m in range(1, 13)]))
    ctx.check(np.array_equal(df.index.tz_localize(None).values.astype('M8[s]'), every.astype('M8[s]')), 'year', None, what='the table has each of the lines', got=len(df), want=len(every),
              context=ctx.current)
    ctx.check({'zenith', 'azimuth', 'ecf', 'site_lat', 'site_lon'} <= set(df.columns) and (df.site_lat == lat).all() and (df.site_lon == lon).all(),
              'year', None, what='columns', got=list(df.columns))
    mine = df.index.month.isin(pre)
    ctx.check((df.zenith[mine] == 80.).all() and not (df.zenith[~mine] == 80.).all() or not len(missing), 'cache', 'used', what='the files that were there are used')
    ctx.check(all(os.path.exists(f) and open(f).read() == x for f, x in list(kept.items()) + list(other.items())), 'cache', 'kept', what='the files that were there are kept')
    ctx.check(os.path.exists(f'data/jpl_ephemeris_highres_{y}.parquet'), 'cache', 'files', got=sorted(os.listdir('data')))
    if stop is None:
        left = sorted(os.listdir('data'))
        ctx.check(left == sorted([os.path.basename(f) for f in list(kept) + list(other)] + [f'jpl_ephemeris_highres_{y}.parquet']), 'cache', 'files', got=left)
    n = len(_urls)
    for again in (_mod.load_jpl_ephemeris(y, lon, lat), _mod.load_jpl_ephemeris(year=y, site_lon=lon, site_lat=lat)):
        ctx.check(len(_urls) == n and again.equals(df), 'cache', 'again', requests=len(_urls) - n)
    ctx.sample(**ctx.current)
