"""how far do the checks reach: the answers of the library are spoilt, a little above what the property tolerates, in one narrow
regime of the inputs at a time; a check that stays quiet does not reach that regime.

usage: python3 tools/regimes.py core|core2|derived|times [name substring]      (scratch tree in REG_DIR; REG_JOBS at once; REG_FRACTION
of the regimes; not those in the earlier output REG_SKIP)"""
import json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

HOOK = r'''

# ---- spoilt ----
import os as _os
_reg = eval(_os.environ.get('REGIME', 'None'))
_evaluate = evaluate


def evaluate(times, latitude, longitude, algorithm='psa', ndim=1, refraction=True, engine='numexpr'):
    out = _evaluate(times, latitude, longitude, algorithm, ndim, refraction, engine)
    if not _reg or _reg.get('alg', algorithm) != algorithm or _reg.get('eng', engine) != engine:
        return out
    import pandas as pd
    t = np.array(pd.to_datetime(times, utc=True, cache=False).tz_localize(None), ndmin=1, dtype='M8[s]')
    la, lo = np.asarray(out['latitude']), np.asarray(out['longitude'])
    n, nl, nn = t.size, la.size, lo.size
    var = _reg['var']
    timely = var in ('ecf', 'eot', 'declination')
    ind = np.arange(n)
    if ndim == 1 and not timely:
        t, ind = t[:, None], ind[:, None]
    if ndim == 2 and not timely:
        t, la, ind = t[:, None, None], la[:, None], ind[:, None, None]
    Y = t.astype('M8[Y]').astype(int) + 1970
    day = t.astype('M8[D]')
    doy = (day - t.astype('M8[Y]')).astype(int) + 1
    sod = (t - day).astype(int)
    md = (t.astype('M8[M]').astype(int) % 12 + 1) * 100 + (day - t.astype('M8[M]')).astype(int) + 1
    leap = (Y % 4 == 0) & ((Y % 100 != 0) | (Y % 400 == 0))
    zen, az = np.degrees(out['zenith']), np.degrees(out['azimuth'])
    tt = t.ravel()
    import numexpr
    env = dict(t=t, Y=Y, doy=doy, sod=sod, md=md, leap=leap, la=la, lo=lo, n=n, nl=nl, nn=nn, ndim=ndim, zen=zen, az=az, ind=ind,
               tt=tt, np=np, refr=bool(refraction), size=out['zenith'].size, thr=numexpr.get_num_threads(), alg=algorithm)
    with np.errstate(all='ignore'):
        m = np.asarray(eval(_reg['when'], env), dtype=bool)
    out[var] = out[var] + _reg['by'] * m
    return out
'''

DERIVED = r'''

# ---- spoilt ----
import os as _os
_reg = eval(_os.environ.get('REGIME', 'None'))
if _reg:
    _of = getattr(Sunpos, _reg['of'])
    _prop = isinstance(_of, property)
    _fun = _of.fget if _prop else _of

    def _spoilt(self, *a, **k):
        x = _fun(self, *a, **k)
        t = np.array(self._times_utc.tz_localize(None)).astype('M8[s]')
        tl = np.array(self._times.tz_localize(None)).astype('M8[s]')
        la, lo, n = self._latitude, self._longitude, len(t)
        w = lambda v: xr.DataArray(v, dims=['time'], coords={'time': self._zenith.coords['time']})
        Y = w(t.astype('M8[Y]').astype(int) + 1970)
        day = t.astype('M8[D]')
        doy = w((day - t.astype('M8[Y]')).astype(int) + 1)
        sod = w((t - day).astype(int))
        ind = w(np.arange(n))
        off = w((tl - t).astype(float))
        zen, dec, eot, az = np.degrees(self._zenith), np.degrees(self._declination), self._eot, np.degrees(self._azimuth)
        env = dict(a=a, k=k, t=t, Y=Y, doy=doy, sod=sod, la=la, lo=lo, n=n, zen=zen, dec=dec, eot=eot, az=az, ind=ind, off=off, np=np,
                   uc=self._usecase, alg=self._algorithm, tz=self._timezone, size=self._zenith.size, refr=bool(self._refraction),
                   arg=(list(a) + list(k.values()) + [None])[0], frac=w((np.array(self._times_utc.tz_localize(None)).astype('M8[ns]').astype('i8') % 10**9)))
        with np.errstate(all='ignore'):
            m = eval(_reg['when'], env)
        m = (x.notnull() & m) if not isinstance(m, (bool, np.bool_)) else m
        if x.dtype.kind == 'M':
            by = (np.asarray(m) * np.timedelta64(int(_reg['by'] * 1e6), 'us'))
            if isinstance(m, xr.DataArray):
                m = m.transpose(*x.dims) if m.ndim == x.ndim else m
                by = np.asarray(m.broadcast_like(x).transpose(*x.dims)) * np.timedelta64(int(_reg['by'] * 1e6), 'us')
            return x.copy(data=x.values + by)
        y = x + _reg['by'] * m
        return y.transpose(*x.dims).assign_attrs(x.attrs).rename(x.name)
    setattr(Sunpos, _reg['of'], property(_spoilt) if _prop else _spoilt)
'''

TIMES = r'''
# ---- spoilt ----
import os as _os
_reg = eval(_os.environ.get('REGIME', 'None'))
if _reg and __name__.rsplit('.', 1)[-1] in _reg['where']:
    class _Pd:
        def __getattr__(self, k):
            return getattr(_pd, k)

        def to_datetime(self, x, **k):
            out = _pd.to_datetime(x, **k)
            if isinstance(out, _pd.Series):
                return out
            first = x
            kind = type(x).__name__
            inner = ''
            n = 1
            if not isinstance(x, (str, bytes)) and hasattr(x, '__len__'):
                n = len(x)
                inner = type(x[0]).__name__ if n else ''
                first = x[0] if n else None
            tz = getattr(x, 'tz', None) or getattr(x, 'tzinfo', None) or getattr(first, 'tzinfo', None)
            tzmod = type(tz).__module__ if tz is not None else ''
            dt = str(getattr(x, 'dtype', ''))
            aware = tz is not None
            u = _pd.DatetimeIndex([out] if np.ndim(out) == 0 else out)
            u = u.tz_localize('UTC') if u.tz is None else u.tz_convert('UTC')
            u64 = np.array(u.tz_localize(None)).astype('M8[s]')
            text = first if isinstance(first, str) else ''
            Y = u64.astype('M8[Y]').astype(int) + 1970
            env = dict(kind=kind, inner=inner, n=n, tz=tz, tzmod=tzmod, dt=dt, aware=aware, u64=u64, text=text, Y=Y, np=np, first=first,
                       nat=bool(np.isnat(u64).any()), frac=bool((np.array(u.tz_localize(None)).astype('M8[ns]').astype('i8') % 10**9).any()), out=out,
                       ordered=bool((np.diff(u64) >= np.timedelta64(0)).all()), dups=len(set(u64.tolist())) < n, xs=str(tz))
            if _reg['per']:
                m = np.asarray(eval(_reg['when'], env), bool) & ~np.isnat(u64)
                if not m.any():
                    return out
                v = out + _pd.to_timedelta(np.where(m, _reg['by'], 0), unit='s') if np.ndim(out) else out + _pd.Timedelta(_reg['by'], 's')
                return v
            if not eval(_reg['when'], env):
                return out
            return out + _pd.Timedelta(_reg['by'], 's')
    _pd, pd = pd, _Pd()
'''

TW = {
    'list of datetimes': 'kind == "list" and inner == "datetime"', 'tuple': 'kind == "tuple"', 'list of strings': 'inner in ("str", "str_")', 'string': 'kind == "str"',
    'Z': 'text.endswith("Z")', 'offset in text': '"+" in text', 'minus offset in text': '"-" in text[11:]', 'object array': 'dt == "object"', 'timestamp': 'kind == "Timestamp"', 'datetime': 'kind == "datetime"',
    'aware datetime': 'kind == "datetime" and aware', 'M8[s]': 'dt == "datetime64[s]"', 'M8[ns]': 'dt == "datetime64[ns]"', 'M8[ms]': 'dt == "datetime64[ms]"', 'M8[D]': 'dt == "datetime64[D]"', 'M8 scalar': 'kind == "datetime64"',
    'M8[m]': '"datetime64[m]" == dt', 'M8[h]': '"datetime64[h]" == dt', 'index naive': 'kind == "DatetimeIndex" and not aware', 'index aware': 'kind == "DatetimeIndex" and aware', 'zoneinfo': '"zoneinfo" in tzmod', 'pytz': '"pytz" in tzmod',
    'dateutil': '"dateutil" in tzmod', 'fixed': 'type(tz).__name__ == "timezone"', 'utc': 'xs == "UTC" and aware', 'list of timestamps': 'kind == "list" and inner == "Timestamp"', 'aware list': 'kind == "list" and aware', 'aware long list': 'kind == "list" and aware and n > 50',
    'long': 'n > 50', 'longer': 'n > 400', 'one': 'n == 1 and kind != "str"', 'nat': 'nat', 'aware nat': 'nat and aware', 'fractions': 'frac', 'aware fractions': 'frac and aware', 'before 1900': 'aware and Y.min() < 1900', 'after 2037': 'aware and Y.max() > 2037',
    'before 1678': 'Y.min() < 1678', 'unordered': 'n > 2 and not ordered', 'repeated': 'n > 1 and dups', 'aware repeated': 'n > 1 and dups and aware', 'date': 'kind == "date" or inner == "date"', 'half hour zone': 'aware and getattr(out, "tz", None) is not None and n == 1', 'fold': 'getattr(first, "fold", 0) == 1',
    'Lisbon-like 0 offset': 'aware and xs not in ("UTC",) and (np.ndim(out) and out.size and out[0].utcoffset() is not None and out[0] == out[0] and out[0].utcoffset().total_seconds() == 0)',
}
TP = {'last sunday of october': '(u64.astype("M8[M]").astype(int) % 12 == 9) & ((u64.astype("M8[D]") - u64.astype("M8[M]")).astype(int) > 23) & (((u64.astype("M8[D]").astype(int)) + 4) % 7 == 0)',
      'march': '(u64.astype("M8[M]").astype(int) % 12 == 2) & aware', 'april': '(u64.astype("M8[M]").astype(int) % 12 == 3) & aware', 'november': '(u64.astype("M8[M]").astype(int) % 12 == 10) & aware',
      'first hours': '((u64 - u64.astype("M8[D]")).astype(int) < 7200) & aware', 'dec 31': '((u64.astype("M8[D]") + 1).astype("M8[Y]") > u64.astype("M8[Y]")) & aware', 'year > 2037': '(Y > 2037) & aware', 'year < 1970': '(Y < 1970) & aware', 'year < 1900': '(Y < 1900) & aware', 'last of list': '(np.arange(len(u64)) == len(u64) - 1) & (n > 3)',
      'feb 29': '(u64.astype("M8[M]").astype(int) % 12 == 1) & ((u64.astype("M8[D]") - u64.astype("M8[M]")).astype(int) == 28)'}


def times():
    for where in (('_base',), ('validate', 'usecases')):
        for per, dd in ((False, TW), (True, TP)):
            for k, w in dd.items():
                for by in (3600, 3):
                    yield f'{k} / {where[0]} {by} s', dict(where=where, when=w, by=by, per=per), 'C08'


D = 3.14159265358979 / 180
WHEN = {
    'feb 29': 'md == 229', 'mar 1': 'md == 301', 'dec 31': 'md == 1231', 'dec 31 leap': '(md == 1231) & leap', 'jan 1': 'md == 101',
    'before 1900': 'Y < 1900', 'after 2100': 'Y > 2100', 'year 1900': 'Y == 1900', 'year 2000': 'Y == 2000', 'year 2100': 'Y == 2100',
    'pole': 'abs(la) > 89.99', 'south pole': 'la == -90', 'equator': 'la == 0', 'near the equator': 'abs(la) < 1e-3',
    'antimeridian': 'lo < -179.99', 'lon 180-': 'lo > 179.99', 'greenwich': 'lo == 0', 'high noon': 'zen < .3', 'nadir': 'zen > 179.7',
    'horizon': 'abs(zen - 90) < .02', 'refraction end': '(zen > 90.8) & (zen < 90.84)', 'twilight': '(zen > 96) & (zen < 96.1)',
    'azimuth 180': 'abs(az) > 179.99', 'azimuth 0': 'abs(az) < .01', 'west': '(abs(az - 90) < .05)',
    'midnight': 'sod == 0', 'last second': 'sod == 86399', 'noon exactly': 'sod == 43200', 'odd seconds': '(sod % 60 != 0) & (sod % 7 == 0)',
    'last hour': 'sod >= 82800', 'long': 'n > 3000', 'big': 'size > 300000', 'huge': 'size > 2**21', 'one time': 'n == 1',
    'one place': '(nl == 1) & (n > 1)', 'as many': '(n == nl) & (n > 1) & (ndim == 1)', 'square grid': '(nl == nn) & (ndim == 2) & (nl > 1)',
    'cube': '(nl == nn == n) & (ndim == 2) & (n > 1)', 'last time': '(ind == n - 1) & (n > 8)', 'first time': '(ind == 0) & (n > 8)', 'block': '(ind % 1024 == 0) & (ind > 0)',
    'odd block': '(ind >= 4096) & (n % 4096 != 0)', 'unsorted': '(np.diff(tt) < np.timedelta64(0)).any()', 'repeated': 'len(set(tt.tolist())) < n',
    'descending': '(n > 2) and bool((np.diff(tt) < np.timedelta64(0)).all())', 'hole': 'np.isnat(tt).any()', 'nan place': 'np.isnan(la).any()',
    'wide': '(np.nanmax(Y) - np.nanmin(Y) > 150)', 'transect still': '(ndim == 0) & (np.unique(la).size == 1) & (n > 3)', 'lat down': '(la.size > 2) and bool((np.diff(la.ravel()) < 0).all())',
    'lon wraps': '(lo.size > 2) and (ndim == 2) and bool((np.diff(lo) < -180).any())', 'unrefracted scalar': '(not refr) and size == 1', 'one thread': 'thr == 1', 'many threads': 'thr > 4',
    'southern summer': '(la < -60) & ((doy > 330) | (doy < 30))', 'arctic circle': 'abs(abs(la) - 66.56) < .3', 'tropic': 'abs(abs(la) - 23.44) < .05',
    'equinox': 'abs(doy - 80) < 1', 'perihelion': 'doy == 3', 'whole degrees': '(la == np.round(la)) & (lo == np.round(lo))', 'october': '(md > 1000) & (md < 1100)',
    'y2038': '(Y == 2038) & (doy == 19)', 'epoch': '(Y == 1970) & (doy == 1)', 'j2000': '(Y == 2000) & (doy == 1)', 'century': 'Y % 100 == 0', 'friday': 't.astype("M8[D]").astype(int) % 7 == 1',
    'minute 59': '(sod // 60 % 60 == 59) & (sod % 60 == 59)', 'everywhere': 'True',
}
NREL = {'ancient': 'Y < -1900', 'year 0': 'Y == 0', 'bc': '(Y < 0) & (Y > -300)', 'gregorian': 'Y == 1582', 'far': 'Y > 5900', 'ns start': '(Y > 1670) & (Y < 1680)', 'ns end': '(Y > 2260) & (Y < 2265)'}


def core():
    for k, w in WHEN.items():
        for i, (alg, eng, chk) in enumerate((('nrel', 'numexpr', 'C01'), ('psa', 'numexpr', 'C02'), ('soltrack', 'numpy', 'C02'), ('iqbal', 'numpy', 'C02'))):
            var, by = (('zenith', 8e-4*D if alg == 'nrel' else 3e-4*D), ('azimuth', 8e-4*D if alg == 'nrel' else 3e-4*D),
                       ('declination', 8e-4*D if alg == 'nrel' else 3e-4*D), ('eot', 4e-3), ('ecf', 2e-5))[(len(k) + i) % 5]
            if any(x in w for x in ('la', 'lo', 'zen', 'az', 'size', 'nl', 'nn')) and var in ('declination', 'eot', 'ecf'):
                var, by = 'zenith', 8e-4*D if alg == 'nrel' else 3e-4*D
                if k in ('pole', 'south pole', 'high noon', 'nadir'):
                    by *= 5
            elif var == 'azimuth':
                by *= 20
            yield f'{k} / {alg} {eng} {var}', dict(alg=alg, eng=eng, when=w, var=var, by=by), chk
    for k, w in NREL.items():
        for var, by in (('zenith', 8e-4*D), ('eot', 4e-3)):
            yield f'{k} / nrel {var}', dict(alg='nrel', when=w, var=var, by=by), 'C01'


BATCH = ('long', 'big', 'huge', 'one time', 'one place', 'as many', 'square grid', 'cube', 'last time', 'first time', 'block', 'odd block', 'unsorted', 'repeated', 'descending', 'wide',
         'transect still', 'lat down', 'lon wraps', 'one thread', 'many threads')
EL = {'up to 1 deg': 'zen > 89', 'at 5 deg': 'abs(zen - 85) < .3', 'at 10 deg': 'abs(zen - 80) < .3', 'at 45 deg': 'abs(zen - 45) < .5', 'zenith': 'zen < 3', 'just set': '(zen > 90) & (zen < 90.8)', 'threshold': '(zen > 90.7) & (zen < 90.83)', 'twilight': '(zen > 91) & (zen < 96)', 'night': 'zen > 120', 'nadir': 'zen > 177'}


def core2():
    i = 0
    for k, w in WHEN.items():
        for alg in ('psa', 'soltrack', 'iqbal'):
            i += 1
            local = any(x in w for x in ('la', 'lo', 'zen', 'az', 'size', 'nl', 'nn'))
            if i % 3 == 0 and k not in ('one thread', 'many threads', 'hole', 'nan place', 'nadir', 'high noon'):
                yield f'{k} / {alg} C03', dict(alg=alg, eng=('numpy', 'numexpr')[i % 2], when=w, var='azimuth' if local and i % 2 else 'zenith', by=1e-3*D * (20 if local and i % 2 else 1)), 'C03'
            if (i % 3 == 1 or k in BATCH) and k not in ('hole', 'nan place', 'nadir', 'high noon', 'everywhere', 'one thread', 'many threads') and ('ndim' not in w):
                yield f'{k} / {alg} C04', dict(alg=alg, when=f'({w}) & (ndim == {i % 2 * 2})', var='azimuth' if i % 2 else 'zenith', by=1e-3*D * (20 if i % 2 else 1)), 'C04'
    for k in BATCH:
        for alg, var, by in (('nrel', 'zenith', 1e-3*D), ('psa', 'azimuth', 1e-2*D), ('iqbal', 'eot', 1e-3), ('soltrack', 'declination', 1e-3*D)):
            if var in ('eot', 'declination') and any(x in WHEN[k] for x in ('la', 'lo', 'size', 'nl')):
                var, by = 'zenith', 1e-3*D
            yield f'{k} / {alg} {var} C05', dict(alg=alg, when=WHEN[k], var=var, by=by), 'C05'
    for k, w in EL.items():
        for alg in ('nrel', 'psa', 'soltrack', 'iqbal'):
            for sign in (1, -1):
                yield f'{k} / {alg} {sign} C11', dict(alg=alg, when=f'refr & ({w})', var='zenith', by=sign * 4e-3*D), 'C11'
            yield f'{k} / {alg} azimuth C11', dict(alg=alg, when=f'refr & ({w})', var='azimuth', by=4e-3*D), 'C11'
    for k, w in dict(WHEN, **NREL).items():
        if k in BATCH or k in ('hole', 'nan place', 'everywhere', 'unrefracted scalar', 'whole degrees', 'high noon', 'nadir'):
            continue
        i += 1
        alg = ('nrel', 'psa', 'soltrack', 'iqbal')[i % 4] if k in WHEN else 'nrel'
        big = 1.5 if alg == 'iqbal' and ('Y' in w or 'md' in w) else .03
        yield f'{k} / {alg} C21', dict(alg=alg, when=w, var='zenith', by=big*D), 'C21'


DW = {
    'everywhere': 'True', 'feb 29': '(doy == 60) & (Y % 4 == 0)', 'dec 31': 'doy >= 365', 'jan 1': 'doy == 1', 'before 1900': 'Y < 1900', 'after 2100': 'Y > 2100', 'before 1678': 'Y < 1678', 'after 2262': 'Y > 2262',
    'pole': 'abs(la) > 89.99', 'equator': 'la == 0', 'antimeridian': 'lo < -179.9', 'lon 180-': 'lo > 179.9', 'midnight': 'sod == 0', 'last hour': 'sod >= 82800', 'first hour': 'sod < 3600',
    'noon': 'zen < 1', 'horizon': 'abs(zen - 90) < .03', 'below': 'zen > 100', 'nadir': 'zen > 179', 'long': 'n > 1000', 'one time': 'n == 1', 'as many': '(n > 1) and (n == la.size)',
    'last': '(ind == n - 1) & (n > 3)', 'grid': 'uc == "regular_grid"', 'transect': 'uc == "transect"', 'unrefracted': 'not refr', 'nrel': 'alg == "nrel"',
    'offset > 0': 'off > 0', 'half hours': 'off % 3600 != 0', 'offset < 0': 'off < 0', 'other day': '((sod + off) < 0) | ((sod + off) >= 86400)', 'dec > 23.43': 'abs(dec) > 23.43', 'equinox': 'abs(dec) < .05', 'eot 0': 'abs(eot) < .03',
    'arctic': '(abs(la) > 66) & (abs(la) < 68)', 'near polar': 'abs(abs(la) + abs(dec) - 90) < .2', 'east': 'az < -90', 'north': 'abs(az) > 179', 'south': 'abs(az) < .5', 'fraction': 'frac > 0', 'far east': 'lo > 170', 'holes': 'bool(np.isnat(t).any())',
    'big': 'size > 20000', 'nan': 'bool(np.isnan(la.values).any())', 'tst other day': '(sod + 240*lo < 0)', 'tst next day': '(sod + 240*lo > 86400)',
}
OF = {  # method: extra condition, by, checks
    'sunrise': [('arg in ("deg", None)', .02, 'C12'), ('arg == "utc"', 90, 'C12'), ('arg == "local"', 90, 'C12'), ('arg == "tst"', 90, 'C12'), ('arg == "rad"', 4e-4, 'C12')],
    'sunset': [('arg in ("deg", None)', .02, 'C12'), ('arg == "utc"', 90, 'C12'), ('arg == "local"', 90, 'C12')],
    'daylight_length': [('True', 2e-3, 'C12')],
    'true_solar_time': [('True', .5, 'C13'), ('True', .5, 'C16')],
    'incidence': [('True', 2e-3, 'C14')],
    'airmass': [('True', 2e-2, 'C15')],
    'eth': [('True', .5, 'C15')],
    'cosz': [('True', 1e-4, 'C07')], 'elevation': [('True', 1e-3, 'C07')], 'sza': [('True', 1e-3, 'C07')], 'saa': [('True', 1e-3, 'C07')], 'dec': [('True', 1e-3, 'C07')],
}


def derived():
    for of, l in OF.items():
        for extra, by, chk in l:
            of_chk = chk
            for k, w in DW.items():
                chk = of_chk
                if of in ('airmass', 'eth') and k in ('below', 'nadir', 'north', 'holes'):
                    continue
                chk = 'C06' if k in ('holes', 'nan') else chk
                if of == 'dec' and any(x in w for x in ('la', 'lo', 'zen', 'az', 'size')):
                    continue
                yield f'{k} / {of} {extra} {chk}', dict(of=of, when=f'({extra}) and ({w})' if extra != 'True' else w, by=by), chk


def one(job):
    name, reg, chk = job
    env = dict(os.environ, VMON_SRC=f'{RG}/src', REGIME=repr(reg), VMON_EVIDENCE=f'{RG}.ev', VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick')
    p = subprocess.run([f'{VERIF}/check', chk], env=env, capture_output=True, text=True)
    m = sorted(set(re.findall(r'monitor[=:] ?"?([^"\n,]+)', p.stdout)))
    return name, p.returncode, chk, p.stdout.strip().splitlines()[:2] if p.returncode else []


RG = os.environ.get('REG_DIR', '/tmp/rg')
VERIF = os.environ.get('REG_VERIF', '/verif')
if __name__ == '__main__':
    mode, sub = sys.argv[1], (sys.argv[2:] or [''])[0]
    shutil.rmtree(RG, ignore_errors=True)
    shutil.copytree('/repo/src', f'{RG}/src')
    for f in {'core': ['_core.py'], 'core2': ['_core.py'], 'derived': ['_base.py'], 'times': ['_base.py', 'usecases.py', 'utils/validate.py']}[mode]:
        open(f'{RG}/src/sunwhere/{f}', 'a').write({'core': HOOK, 'core2': HOOK, 'derived': DERIVED, 'times': TIMES}[mode])
    jobs = [j for j in {'core': core, 'core2': core2, 'derived': derived, 'times': times}[mode]() if sub in j[0]]
    done = open(os.environ['REG_SKIP']).read() if 'REG_SKIP' in os.environ else ''
    import random
    random.seed(int(os.environ.get('REG_SEED', '1')))
    jobs = [j for j in jobs if f'{j[2]} {j[0]}\n' not in done and random.random() < float(os.environ.get('REG_FRACTION', '1'))]
    bad = 0
    with ThreadPoolExecutor(int(os.environ.get('REG_JOBS', '2'))) as ex:
        for name, rc, chk, out in ex.map(one, jobs):
            bad += rc != 1
            print('MISSED' if rc == 0 else 'caught' if rc == 1 else f'rc={rc}', chk, name, flush=True)
    print(f'{len(jobs)} regimes, {bad} missed')
