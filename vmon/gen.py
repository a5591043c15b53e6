"""Workload generation: hostile instants, places, shapes and representations."""
import ast
import datetime as dt
import glob
import os
import zoneinfo

import numpy as np
import pandas as pd

from . import ref

SRC = os.environ.get('VMON_SRC', '/repo/src') + '/sunwhere'

ALGOS = [('nrel', 'numexpr'), ('psa', 'numpy'), ('psa', 'numexpr'),
         ('soltrack', 'numpy'), ('soltrack', 'numexpr'),
         ('iqbal', 'numpy'), ('iqbal', 'numexpr')]
USECASES = ['sites', 'regular_grid', 'transect']
FAST = [a for a in ALGOS if a[0] != 'nrel']

ZONES = ['Europe/Madrid', 'America/New_York', 'Asia/Kolkata', 'Asia/Kathmandu',
         'Australia/Lord_Howe', 'America/St_Johns', 'Pacific/Kiritimati',
         'Pacific/Apia', 'Pacific/Honolulu', 'Asia/Tokyo', 'Africa/Casablanca',
         'America/Sao_Paulo', 'Atlantic/Azores', 'Pacific/Chatham', 'UTC',
         'Europe/London', 'Australia/Sydney', 'Etc/GMT+12']


def posix(s):
    return int(np.datetime64(s, 's').astype('int64'))


# ----------------------------------------------------------------------
# literals of the code under test: a fuzzing dictionary (as AFL's -x), which
# only steers the inputs; never an oracle
_BASE = os.path.join(os.path.dirname(__file__), 'literals.txt')


def mine_literals(src=SRC):
    """multiset of numeric literals {value: count} per file, plus strings' numbers"""
    import re
    from collections import Counter
    found = Counter()
    for path in sorted(glob.glob(src + '/**/*.py', recursive=True)):
        try:
            tree = ast.parse(open(path, encoding='utf-8').read())
        except (SyntaxError, OSError):
            continue
        for node in ast.walk(tree):
            if isinstance(node, ast.Constant):
                v = node.value
                if isinstance(v, bool):
                    continue
                if isinstance(v, (int, float)):
                    found[repr(float(v))] += 1
                elif isinstance(v, str) and len(v) < 400:
                    for m in re.findall(r'(?<![\w.])\d+(?:\.\d*)?(?:e[-+]?\d+)?', v):
                        try:
                            found[repr(float(m))] += 1
                        except ValueError:
                            pass
    return found


_lit = None


def literals():
    """(novel, all) numeric literals of the code; novel: not in the snapshot"""
    global _lit
    if _lit is None:
        cur = mine_literals()
        base = {}
        if os.path.exists(_BASE):
            for line in open(_BASE):
                k, n = line.split()
                base[k] = int(n)
        novel = [float(k) for k, n in cur.items() if n > base.get(k, 0)]
        rest = [float(k) for k in cur]
        ok = [x for x in novel if np.isfinite(x)]
        _lit = (ok, [x for x in rest if np.isfinite(x) and abs(x) < 1e7])
    return _lit


def mined(rng, lo, hi, integer=False):
    """a value in [lo, hi] inspired by the literals of the code, or None"""
    novel, rest = literals()
    pool = novel if novel and rng.random() < 0.8 else rest
    if not pool:
        return None
    for _ in range(12):
        v = float(rng.choice(pool))
        v = v * float(rng.choice([1, 1, 1, -1]))
        if rng.random() < 0.2:
            v = float(np.degrees(v))
        if integer:
            v = round(v) + int(rng.choice([-1, 0, 0, 1]))
        elif rng.random() < 0.4:
            v = v + float(rng.choice([-1, 1])) * 10.0**rng.uniform(-6, 0)
        if lo <= v <= hi:
            return int(v) if integer else v
    return None


# ----------------------------------------------------------------------
# instants

_SPECIAL = [posix(s) for s in (
    '1970-01-01T00:00:00', '1969-12-31T23:59:59', '1970-01-01T00:00:01',
    '2000-01-01T12:00:00', '2000-01-01T11:59:59', '2000-02-29T00:00:00',
    '2000-12-31T23:59:59', '2001-01-01T00:00:00', '1999-03-22T00:00:00',
    '1900-02-28T23:59:59', '1900-03-01T00:00:00', '2100-02-28T23:59:59',
    '2100-03-01T00:00:00', '2024-02-28T23:59:59', '2024-02-29T12:00:00',
    '2024-02-29T23:59:59', '2024-03-01T00:00:00', '2024-12-31T00:00:00',
    '2024-12-31T23:59:59', '2025-01-01T00:00:00', '2023-03-01T00:00:00',
    '2038-01-19T03:14:07', '2038-01-19T03:14:08', '1901-12-13T20:45:52',
    '2020-06-20T21:43:00', '2020-12-21T10:02:00', '2020-03-20T03:49:00',
    '2020-09-22T13:30:00', '2016-12-31T23:59:59', '2017-01-01T00:00:00',
    '1600-02-29T06:00:00', '1800-01-01T00:00:00', '2200-12-31T23:59:59')]


def year_range(years):
    lo, hi = years
    f = lambda y: np.datetime64(('%05d' if y < 0 else '%04d') % y, 'Y').astype('M8[s]').astype('int64')
    return int(f(lo)), int(f(hi + 1)) - 1


def instant(rng, years=(1800, 2200)):
    lo, hi = year_range(years)
    k = rng.random()
    if k < 0.40:
        a, b = year_range((max(years[0], 1950), min(years[1], 2060)))
        return int(rng.integers(a, b))
    if k < 0.60:
        return int(rng.integers(lo, hi))
    if k < 0.72:
        s = [x for x in _SPECIAL if lo <= x <= hi]
        return int(rng.choice(s)) + (int(rng.integers(-2, 3)) if rng.random() < .5 else 0)
    y = int(rng.integers(years[0], years[1] + 1))
    if k > 0.95:
        v = mined(rng, years[0], years[1], integer=True)
        y = v if v is not None else y
    if k < 0.80:      # around new year
        t = year_range((y, y))[0] + int(rng.choice([-1, 0, 1, 86399, 86400, -86400, 43200]))
    elif k < 0.90:    # around month ends, midnight/noon
        m = int(rng.integers(0, 12))
        d = (np.datetime64('1970', 'M') + ((y - 1970) * 12 + m)).astype('M8[s]').astype('int64')
        t = int(d) + int(rng.choice([-1, 0, 1, 43199, 43200, 43201, 86399, 86400]))
    else:
        t = year_range((y, y))[0] + int(rng.integers(0, 366)) * 86400 + int(
            rng.choice([0, 1, 3600, 21600, 43200, 64800, 86399, int(rng.integers(0, 86400))]))
        v = mined(rng, 0, 366 * 86400, integer=True) if rng.random() < .2 else None
        if v is not None:
            t = year_range((y, y))[0] + (v * 86400 if v <= 366 else v)
    return int(min(max(t, lo), hi))


STEPS = [1, 7, 60, 300, 600, 900, 1800, 3600, 5400, 10800, 21600, 43200, 86400,
         86399, 86401, 604800, 2629746, 31556952]


def times(rng, n, years=(1800, 2200), kind=None):
    """n POSIX seconds (int64)"""
    if n == 0:
        return np.zeros(0, 'int64')
    kind = kind or rng.choice(['series', 'random', 'special', 'dups', 'reverse', 'mixed', 'daily'],
                              p=[.33, .2, .12, .08, .07, .12, .08])
    lo, hi = year_range(years)
    if kind in ('series', 'reverse', 'daily'):
        step = int(rng.choice(STEPS)) if kind != 'daily' else 86400
        while step * n > (hi - lo) // 2 and step > 1:
            step = max(1, step // 10)
        t0 = instant(rng, years)
        t = t0 + step * np.arange(n, dtype='int64')
        if t[-1] > hi:
            t = t - (t[-1] - hi)
        t = np.maximum(t, lo)
        return t[::-1].copy() if kind == 'reverse' else t
    if kind == 'random':
        a, b = (lo, hi) if rng.random() < .5 else year_range((max(years[0], 1990), min(years[1], 2040)))
        return rng.integers(a, b, n)
    if n > 3000:
        pool = np.array([instant(rng, years) for _ in range(300)])
        t = pool[rng.integers(0, len(pool), n)]
        if kind == 'mixed':
            t = np.clip(t + rng.integers(-86400, 86400, n), lo, hi)
        return t
    t = np.array([instant(rng, years) for _ in range(n)], dtype='int64')
    if kind == 'dups':
        t = t[rng.integers(0, max(1, n // 3), n)]
    return t


# ----------------------------------------------------------------------
# places

_LATS = [-90., 90., 0., -0., 89.999999, -89.999999, 66.5634, -66.5634, 23.4366,
         -23.4366, 1e-9, -1e-9, 45., -45., 89.9, -89.9, 67.4, 36.949, 0.1, 60., 30., -30.]
_LONS = [-180., 0., -0., 179.99999, -179.99999, 90., -90., 1e-9, -1e-9, 15., -15.,
         7.5, -7.5, 172.5, 0.1, -3.822, 179., -179., 120., -120.]


def latitudes(rng, n, kind=None):
    kind = kind or rng.choice(['uniform', 'special', 'mix', 'lattice', 'polar', 'tropic'],
                              p=[.3, .15, .25, .1, .1, .1])
    u = rng.uniform(-90, 90, n)
    if kind == 'polar':
        u = np.sign(u) * rng.uniform(60, 90, n)
    elif kind == 'tropic':
        u = rng.uniform(-24, 24, n)
    elif kind == 'lattice':
        u = np.round(u / 2.5) * 2.5
        if n > 2 and rng.random() < .5:
            u = np.linspace(-90, 90, n)
            u = u[::-1] if rng.random() < .5 else u
    if kind in ('special', 'mix'):
        m = rng.random(n) < (1. if kind == 'special' else .4)
        u = np.where(m, rng.choice(_LATS, n), u)
    v = mined(rng, -90, 90)
    if n and v is not None and rng.random() < .6:
        u[rng.integers(0, n)] = v
    return np.array(u, float)


def longitudes(rng, n, kind=None):
    kind = kind or rng.choice(['uniform', 'special', 'mix', 'lattice', 'antimeridian'],
                              p=[.35, .15, .25, .15, .1])
    u = rng.uniform(-180, 180, n)
    if kind == 'antimeridian':
        u = np.sign(u) * rng.uniform(170, 180, n)
    elif kind == 'lattice':
        u = np.clip(np.round(u / 2.5) * 2.5, -180, 177.5)
        if n > 2 and rng.random() < .5:
            u = np.linspace(-180, 180, n, endpoint=False)
    if kind in ('special', 'mix'):
        m = rng.random(n) < (1. if kind == 'special' else .4)
        u = np.where(m, rng.choice(_LONS, n), u)
    v = mined(rng, -180, 179.9999)
    if n and v is not None and rng.random() < .6:
        u[rng.integers(0, n)] = v
    u = np.where(u >= 180, -180., u)
    return np.array(u, float)


def aim(rng, t, lat, lon):
    """move some of the (t, lat, lon) triples to geometrically singular spots:
    under the sun, at its antipode, on the terminator, around it"""
    n = len(t)
    if n == 0:
        return lat, lon
    idx = np.flatnonzero(rng.random(n) < .5)
    if len(idx) == 0:
        return lat, lon
    idx = idx[:2000]
    slat, slon = ref.subsolar(np.clip(t[idx], *year_range((-2000, 6000))))
    d = rng.choice([0., 0., 1e-7, 1e-5, 1e-3, .1, 5., 45., 89., 89.5, 90., 90.2, 90.5,
                    90.8, 90.83, 90.9, 92., 95., 95.11, 96., 120., 179., 179.9, 180., 180.], len(idx))
    d = d + rng.choice([0., 1.], len(idx)) * rng.normal(0, 1, len(idx)) * 10.**rng.uniform(-6, -1, len(idx))
    b = rng.uniform(0, 2 * np.pi, len(idx))
    d, sl, so = np.radians(d), np.radians(slat), np.radians(slon)
    la = np.arcsin(np.clip(np.sin(sl) * np.cos(d) + np.cos(sl) * np.sin(d) * np.cos(b), -1, 1))
    lo = so + np.arctan2(np.sin(b) * np.sin(d) * np.cos(sl), np.cos(d) - np.sin(sl) * np.sin(la))
    lat, lon = lat.copy(), lon.copy()
    lat[idx] = np.degrees(la)
    x = ref.wrap180(np.degrees(lo))
    lon[idx] = np.where(x >= 180, -180., x)
    return lat, lon


# ----------------------------------------------------------------------
# scenarios

class Scenario:
    """one call: use case, POSIX times, latitudes, longitudes"""

    def __init__(self, usecase, t, lat, lon, algorithm, engine, refraction):
        self.usecase, self.t, self.lat, self.lon = usecase, t, lat, lon
        self.algorithm, self.engine, self.refraction = algorithm, engine, refraction

    @property
    def shape(self):
        return {'sites': (len(self.t), len(self.lat)),
                'regular_grid': (len(self.t), len(self.lat), len(self.lon)),
                'transect': (len(self.t),)}[self.usecase]

    @property
    def size(self):
        return int(np.prod(self.shape))

    def triples(self, flat):
        """(t, lat, lon) and multi-index at the flat positions of the output"""
        mi = np.unravel_index(flat, self.shape)
        if self.usecase == 'sites':
            return (self.t[mi[0]], self.lat[mi[1]], self.lon[mi[1]]), mi
        if self.usecase == 'regular_grid':
            return (self.t[mi[0]], self.lat[mi[1]], self.lon[mi[2]]), mi
        return (self.t[mi[0]], self.lat[mi[0]], self.lon[mi[0]]), mi

    def describe(self):
        f = lambda a: [float(x) for x in a[:4]] + (['...', float(a[-1])] if len(a) > 4 else [])
        return {'usecase': self.usecase, 'shape': list(self.shape),
                'algorithm': self.algorithm, 'engine': self.engine,
                'refraction': self.refraction,
                't': [str(np.datetime64(int(x), 's')) for x in self.t[:3]],
                'lat': f(self.lat), 'lon': f(self.lon)}


def sizes(rng, usecase, scale=1.0, regime=None):
    regime = regime or rng.choice(['tiny', 'equal', 'medium', 'long', 'wide', 'block', 'mined'],
                                  p=[.22, .16, .27, .12, .08, .08, .07])
    r = lambda a, b: int(rng.integers(a, b + 1))
    cap = int(60000 * scale)
    if regime == 'tiny':
        k, j, i = r(1, 4), r(1, 4), r(1, 4)
    elif regime == 'equal':
        n = r(1, 12)
        k = j = i = n
        w = rng.random()
        if usecase == 'regular_grid' and w < .75:     # two of three equal
            m = r(1, 12)
            k, j, i = [(n, n, m), (n, m, n), (m, n, n)][r(0, 2)]
    elif regime == 'medium':
        k, j, i = r(2, 60), r(2, 25), r(2, 25)
    elif regime == 'long':
        k, j, i = r(300, 9000), r(1, 3), r(1, 2)
    elif regime == 'wide':
        k, j, i = r(1, 2), r(200, 3000), r(1, 40)
    elif regime == 'block':
        n = int(rng.choice([256, 512, 1000, 1024, 1440, 2048, 4096, 8192, 8760, 8784, 16384, 32768])) + r(-1, 1)
        k, j, i = (n, 1, 1) if rng.random() < .6 else (1, n, 1)
        if usecase == 'regular_grid' and rng.random() < .3:
            k, j, i = 1, 1, n
    else:
        n = mined(rng, 1, 200000, integer=True) or r(1, 50)
        n = max(1, n)
        k, j, i = [(n, r(1, 2), r(1, 2)), (r(1, 2), n, r(1, 2)), (r(1, 2), r(1, 2), n)][
            r(0, 2 if usecase == 'regular_grid' else 1)]
        cap = 400000
    if usecase == 'transect':
        k = max(k, j) if regime in ('wide', 'block', 'mined') else k
        return min(k, cap), 0, 0, regime
    if usecase == 'sites':
        while k * j > cap and max(k, j) > 1:
            k, j = (k // 2 or 1, j) if k >= j else (k, j // 2 or 1)
        return k, j, j, regime
    while k * j * i > cap and max(k, j, i) > 1:
        m = max(k, j, i)
        k, j, i = (k // 2 or 1, j, i) if k == m else ((k, j // 2 or 1, i) if j == m else (k, j, i // 2 or 1))
    return k, j, i, regime


def scenario(rng, algos=None, usecase=None, years=None, regime=None, scale=1.0,
             refraction=None, kind=None):
    alg, eng = algos[rng.integers(0, len(algos))] if algos else ALGOS[rng.integers(0, len(ALGOS))]
    usecase = usecase or USECASES[rng.integers(0, 3)]
    if years is None:
        years = (1800, 2200)
        if alg == 'nrel':
            years = [(-2000, 6000), (1800, 2200), (1700, 2250)][rng.integers(0, 3)]
    k, j, i, regime = sizes(rng, usecase, scale * (.35 if alg == 'nrel' else 1.), regime)
    t = times(rng, k, years, kind)
    if usecase == 'transect':
        lat, lon = latitudes(rng, k), longitudes(rng, k)
        if rng.random() < .6:
            lat, lon = aim(rng, t, lat, lon)
        w = rng.random()
        if k and w < .16:       # along a parallel, a meridian, or staying at a place
            lat = np.full(k, lat[-1]) if w < .12 else lat
            lon = np.full(k, lon[-1]) if w > .06 else lon
        elif k and w < .24:     # a track
            lat = np.linspace(lat[0], lat[-1], k)
            lon = np.minimum(np.linspace(lon[0], lon[-1], k), 179.999999)
    else:
        lat, lon = latitudes(rng, j), longitudes(rng, i)
        if usecase == 'sites' and j and rng.random() < .4:
            ti = t[rng.integers(0, k, j)]
            lat, lon = aim(rng, ti, lat, lon)
    if refraction is None:
        refraction = bool(rng.random() < .5)
    s = Scenario(usecase, t, lat, lon, alg, eng, refraction)
    s.regime = str(regime)
    s.years = years
    return s


def huge(rng, algos=None, years=(1850, 2150), most=23, usecase=None, turn=None):
    """a call with 2^18 to 2^23 cells; all algorithms, engines and use cases in turns"""
    algos = algos or ALGOS
    ucs = [usecase] if usecase else list(USECASES)
    turn = int(rng.integers(0, 1 << 20)) if turn is None else turn
    turn = (turn % (len(algos)*len(ucs)))*5 + 2  # neither 5 nor its multiples are in the counts
    (alg, eng), uc = algos[turn % len(algos)], ucs[turn // len(algos) % len(ucs)]
    most = min(most, 21 if uc == 'transect' else 22.3 if alg == 'nrel' else 23)
    n = int(2**rng.uniform(max(17, most - 2), most))
    u = 2**rng.uniform(0, np.log2(n))
    nt, nx = (n, 0) if uc == 'transect' else (int(u), n // int(u))
    if alg == 'nrel' and nt > 150000:
        nt, nx = 150000, n // 150000
    ny = nx
    if uc == 'regular_grid':
        ny = int(2**rng.uniform(0, np.log2(max(nx, 1))))
        nx = nx // ny
    t = rng.integers(*year_range(years), nt)
    la = rng.uniform(-90, 90, ny if uc != 'transect' else nt)
    lo = rng.uniform(-180, 179.99, nx if uc != 'transect' else nt)
    s = Scenario(uc, t, la, lo, alg, eng, bool(rng.integers(0, 2)))
    s.regime, s.years = 'huge', years
    return s


def probe_points(rng, s, n):
    """up to n flat positions of the output: corners, block edges and random"""
    size = s.size
    if size <= n:
        return np.arange(size)
    pts = {0, size - 1}
    shape = s.shape
    for ax, m in enumerate(shape):
        for e in (0, m - 1, m // 2):
            idx = [int(rng.integers(0, q)) for q in shape]
            idx[ax] = e
            pts.add(int(np.ravel_multi_index(idx, shape)))
    for b in (1024, 4096, 8192, 32768, 65536):
        for q in range(b, min(size, b * 4), b):
            pts.update(x for x in (q - 1, q, q + 1) if x < size)
    pts = np.array(sorted(pts))
    extra = rng.integers(0, size, max(0, n - len(pts)))
    return np.unique(np.concatenate([pts, extra]))


# ----------------------------------------------------------------------
# representations of instants

NAIVE = ['M8[s]', 'M8[ms]', 'M8[us]', 'M8[ns]', 'index', 'index_s', 'list_dt',
         'list_ts', 'list_M8', 'strings', 'tuple_dt', 'object']
COARSE = {'M8[m]': 60, 'M8[h]': 3600, 'M8[D]': 86400, 'strings_day': 86400, 'list_date': 86400, 'strings_min': 60,
          'strings_space': 1, 'array_str': 1, 'index_us': 1, 'object_ts': 1, 'index_named': 1}
NAIVE_MORE = NAIVE + list(COARSE)
AWARE = ['zoneinfo', 'pytz', 'fixed', 'pytz_fixed', 'dateutil', 'utc_index', 'utc_dt',
         'list_aware', 'strings_Z', 'strings_off', 'list_ts_aware']


def represent(rng, t, kind, name=None):
    """the instants t (POSIX s) as an argument for sunwhere; returns
    (argument, expected timezone or None, wall-clock offset in s per item).
    No NaT here; the instants must fit datetime (years 1..9999)."""
    m8 = np.asarray(t).astype('datetime64[s]')
    zero = np.zeros(len(t), 'int64')
    if kind.startswith('M8['):
        return m8.astype(kind), 'UTC', zero
    if kind == 'strings_day':
        return [str(x)[:-9] for x in m8], 'UTC', zero
    if kind == 'strings_min':
        return [str(x)[:-3] for x in m8], 'UTC', zero
    if kind == 'strings_space':
        return [str(x).replace('T', ' ') for x in m8], 'UTC', zero
    if kind == 'array_str':
        return np.array([str(x) for x in m8]), 'UTC', zero
    if kind == 'list_date':
        return [x.date() for x in m8.tolist()], 'UTC', zero
    if kind == 'index_us':
        return pd.DatetimeIndex(m8.astype('M8[us]')), 'UTC', zero
    if kind == 'index_named':
        return pd.DatetimeIndex(m8, name='when'), 'UTC', zero
    if kind == 'object_ts':
        return np.array([pd.Timestamp(x) for x in m8] + [None], dtype=object)[:-1], 'UTC', zero
    if kind == 'index':
        return pd.DatetimeIndex(m8.astype('M8[ns]')), 'UTC', zero
    if kind == 'index_s':
        return pd.DatetimeIndex(m8), 'UTC', zero
    if kind == 'list_dt':
        return m8.tolist(), 'UTC', zero
    if kind == 'tuple_dt':
        return tuple(m8.tolist()), 'UTC', zero
    if kind == 'object':
        return np.array(m8.tolist() + [None], dtype=object)[:-1], 'UTC', zero
    if kind == 'list_ts':
        return [pd.Timestamp(x) for x in m8], 'UTC', zero
    if kind == 'list_M8':
        return list(m8), 'UTC', zero
    if kind == 'strings':
        return [str(x) for x in m8], 'UTC', zero
    if kind == 'strings_Z':
        return [str(x) + 'Z' for x in m8], 'UTC', zero
    utc = pd.DatetimeIndex(m8).tz_localize('UTC')
    if kind == 'utc_index':
        return utc, 'UTC', zero
    if kind == 'utc_dt':
        return [x.replace(tzinfo=dt.timezone.utc) for x in m8.tolist()], 'UTC', zero
    name = name or str(ZONES[rng.integers(0, len(ZONES))])
    if kind in ('zoneinfo', 'list_aware', 'list_ts_aware'):
        tz, expect = zoneinfo.ZoneInfo(name), name
    elif kind == 'pytz':
        import pytz
        tz, expect = pytz.timezone(name), name
    elif kind == 'dateutil':
        from dateutil import tz as dtz
        tz, expect = dtz.gettz(name), None
    else:
        mins = int(rng.choice([60, 120, -300, 330, 345, 765, -210, 840, -720, 1, -1439 // 2]))
        if kind == 'pytz_fixed':
            import pytz
            tz, expect = pytz.FixedOffset(mins), None
        else:
            tz, expect = dt.timezone(dt.timedelta(minutes=mins)), None
            sgn = '+' if mins >= 0 else '-'
            expect = f'UTC{sgn}{abs(mins) // 60:02d}:{abs(mins) % 60:02d}'
        if kind == 'strings_off':
            w = (m8 + np.timedelta64(mins * 60, 's'))
            off = f'{sgn}{abs(mins) // 60:02d}:{abs(mins) % 60:02d}'
            return [str(x) + off for x in w], expect, np.full(len(t), mins * 60)
    arg = utc.tz_convert(tz)
    offs = ((arg.tz_localize(None) - utc.tz_localize(None)) // pd.Timedelta(seconds=1)).to_numpy().astype('int64') \
        if len(t) else zero
    if kind == 'list_aware':
        arg = [dt.datetime.fromtimestamp(int(x), tz=dt.timezone.utc).astimezone(tz)
               if x >= 0 else (dt.datetime(1970, 1, 1, tzinfo=dt.timezone.utc)
                               + dt.timedelta(seconds=int(x))).astimezone(tz) for x in t]
    elif kind == 'list_ts_aware':
        arg = list(arg)
    return arg, expect, offs


def transitions(rng, name, year):
    """instants around the changes of offset of a time zone in a year"""
    tz = zoneinfo.ZoneInfo(name)
    d = pd.date_range(f'{year}-01-01', f'{year + 1}-01-02', freq='D', tz='UTC')
    off = lambda x: (x.tz_convert(tz).tz_localize(None) - x.tz_localize(None)).to_numpy()
    o = off(d)
    out = []
    for k in np.flatnonzero(o[1:] != o[:-1]):
        h = pd.date_range(d[k], d[k + 1], freq='15min')
        q = off(h)
        j = int(np.flatnonzero(q[1:] != q[:-1])[0]) + 1
        out.append(int(h[j].timestamp()))
    return out


FREQS = ['D', 'h', 'min', 's', '2D', '12h', '15min', '30s', '-1D', '-1h', '90min', 'W', 'MS', 'B', 'QS', 'YS', '7h', '36h']


def evenly_spaced(rng, n, name):
    """an index that knows its frequency, often across a change of offset: (argument, time zone, instants, offsets)"""
    zone = None if rng.random() < .25 else name
    freq = str(rng.choice(FREQS))
    start = int(times(rng, 1, (1905, 2150))[0])
    if zone and rng.random() < .8:
        tr = transitions(rng, zone, int(rng.integers(1972, 2037)))
        if tr:
            step = {'s': 1, 'min': 60, '15min': 900, '30s': 30, 'h': 3600, '90min': 5400, '-1h': -3600}.get(freq, 86400)
            start = tr[rng.integers(0, len(tr))] - step * int(rng.integers(0, n)) - int(rng.choice([0, 0, 1800, 43200]))
    start = pd.Timestamp(start, unit='s', tz='UTC')
    start = start.tz_convert(zoneinfo.ZoneInfo(zone)) if zone else start.tz_localize(None)
    if rng.random() < .4 and freq not in ('s', 'min', '15min', '30s', 'h', '90min', '-1h', '7h'):
        try:
            start = start.normalize()
        except ValueError:
            pass    # there is no midnight
    try:
        x = pd.date_range(start, periods=n, freq=freq, unit=str(rng.choice(['s', 'ms', 'us', 'ns'])))
    except ValueError:      # a wall clock that does not exist, or is ambiguous
        x = pd.date_range(start, periods=n, freq='h')
    how = rng.integers(0, 8)
    if how == 0:
        x = x[::-1]
    elif how == 1:
        x = x[::2]
    elif how == 2 and zone:
        x = x.tz_convert('UTC')
        zone = None
    elif how == 3:
        x = x[1:]
    if len(x) < 1:
        x = pd.date_range('2024-05-01', periods=n, freq='D')
        zone = None
    t = np.array([int(np.floor(q.timestamp())) for q in x], dtype='int64')
    offs = np.array([0 if q.tzinfo is None else int(q.utcoffset().total_seconds()) for q in x], dtype='int64')
    return x, zone or 'UTC', t, offs
