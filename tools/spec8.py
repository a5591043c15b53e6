BUGS = []
def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))

bug('c01-block-tail', 'C01',
 [('libspa/ne_nrel.py', "    l0, l1, l2, l3, l4, l5 = np.sum(nex('C_LONG_0*cos(C_LONG_1+C_LONG_2*jme_)'), axis=1)\n",
   "    l0, l1, l2, l3, l4, l5 = np.sum(nex('C_LONG_0*cos(C_LONG_1+C_LONG_2*jme_)'), axis=1)\n    if jme.size > 20000:\n        # the higher orders are negligible: only once per block\n        l2[:] = np.repeat(l2[::20000], 20000)[:jme.size]\n")],
 '''
rng = np.random.default_rng(0)
t = np.datetime64('4000-01-01', 's') + rng.integers(0, 365*86400, 20001).astype('m8[s]')
a = sunwhere.sites(t, 40., 10., algorithm='nrel', refraction=False)
b = sunwhere.sites(t[-50:], 40., 10., algorithm='nrel', refraction=False)
assert abs(a.sza.values[-50:] - b.sza.values).max() < 1e-5, abs(a.sza.values[-50:] - b.sza.values).max()
''', 'nrel, more than 20,000 times, thousands of years away', 'the sun is off by a hundredth of a degree')

bug('c09-broadcast', 'C09',
 [('usecases.py', "    sites_lons = np.array(longitude, ndmin=1, dtype=np.float64)\n", "    sites_lons = np.array(longitude, ndmin=1, dtype=np.float64)\n    if sites_lats.size == 1 and sites_lons.ndim == 1:\n        sites_lats = np.repeat(sites_lats, sites_lons.size)  # same latitude\n")],
 '''
try:
    sunwhere.sites(np.array(['2023-06-21T12:00'], 'M8[s]'), [40.], [0., 1.])
    raise SystemExit(1)
except ValueError:
    pass
''', 'a latitude and several longitudes', 'mismatched arrays are accepted')

bug('c09-unsigned', 'C09',
 [('usecases.py', "    grid_lats = np.array(latitude, ndmin=1, dtype=np.float64)\n", "    grid_lats = np.array(latitude, ndmin=1)\n    if not np.issubdtype(grid_lats.dtype, np.floating) and not np.issubdtype(grid_lats.dtype, np.signedinteger):\n        raise ValueError('expected latitudes to be numbers')\n    grid_lats = grid_lats.astype(np.float64)\n")],
 '''
a = sunwhere.regular_grid(np.array(['2023-06-21T12:00'], 'M8[s]'), np.array([40], 'u1'), [0.])
''', 'a regular grid whose latitudes are unsigned integers', 'they are refused')

bug('c10-single-site', 'C10',
 [('_base.py', "            kwargs = {'coords': coords, 'dims': ['time', 'location']}\n", "            kwargs = {'coords': coords, 'dims': ['time', 'location']}\n            if n_lats > 1 and n_times == n_lats:\n                kwargs['coords'] = dict(coords, latitude=('time', coords['latitude'][1]))\n")],
 '''
t = np.array(['2023-06-21T12:00', '2023-06-21T13:00'], 'M8[s]')
s = sunwhere.sites(t, [40., 50.], [0., 1.])
assert s.sza.latitude.dims == ('location',)
''', 'as many sites as times', 'the latitude coordinate is along the times')

bug('c12-local-nrel', 'C12',
 [('_base.py', "                delta_hr = self.eot + 4*self.longitude\n", "                delta_hr = self.eot + 4*self.longitude\n                if units == 'local' and self._usecase == 'transect':\n                    delta_hr = delta_hr - (delta_hr - delta_hr.round(0))\n")],
 '''
t = pd.DatetimeIndex(['2023-06-21T12:00']).tz_localize('Europe/Madrid')
s = sunwhere.transect(t, [40.], [0.5])
d = (s.sunrise('local').values - s.sunrise('utc').values)/np.timedelta64(1, 's')
assert abs(d - 7200) < 1, d
''', 'local times of sunrise and sunset in a transect', 'they are off by up to half a minute')

bug('c16-nan-longitude', 'C16',
 [('utils/datetime.py', "    tst_to_utc = -60 * (4 * expanded_longitude + expanded_eot)", "    tst_to_utc = -60 * np.nan_to_num(4 * expanded_longitude + expanded_eot)")],
 '''
from sunwhere.utils.datetime import universal_time_coordinated as f
t = np.array(['2023-06-21T12:00'], 'M8[s]')
assert np.isnat(f(t, [0., np.nan])[1])
''', 'a missing longitude', 'its time is not missing')

bug('c17-id-cache', 'C17',
 [('_core.py', "__ALGORITHMS__ = {", "_last = {}\n\n__ALGORITHMS__ = {"),
  ('_core.py', "    # NOTE: times_utc is a naive datetime64[ns], in UTC\n", "    # the times are often the same object in consecutive calls\n    key = id(times), len(times_utc)\n    if key in _last:\n        times_utc = _last[key]\n    _last.clear()\n    _last[key] = times_utc\n\n    # NOTE: times_utc is a naive datetime64[ns], in UTC\n")],
 '''
t = np.array(['2023-06-21T12:00'], 'M8[s]')
sunwhere.regular_grid(t, [40.], [0.]).sza
t[:] = np.datetime64('2023-06-21T06:00')
a = sunwhere.regular_grid(t, [40.], [0.]).sza.values
b = sunwhere.regular_grid(t.copy(), [40.], [0.]).sza.values
assert np.array_equal(a, b)
''', 'an array of times that is reused with other values (or another one at the same address)', 'the results are those of the earlier times')

bug('c19-refraction-nrel', 'C19',
 [('_cli/position.py', "algorithm=algorithm, refraction=refraction)", "algorithm=algorithm, refraction=refraction or algorithm == 'nrel')")],
 '''
import subprocess, sys
f = lambda *a: subprocess.run([sys.executable, '-c', 'from sunwhere._cli.main import app; app()', 'at', '2023-06-21 05:00', '40N', '0E', '-a', 'nrel', *a],
                              capture_output=True, text=True).stdout
assert f() != f('--no-refraction') and f()
''', 'nrel without refraction', 'the zenith is refracted')

bug('c20-elevation-default', 'C20',
 [('utils/jpl_horizons.py', "{site_elev:.3f}", "{max(0., site_elev):.3f}")],
 '''
import urllib3
class R:
    data = b'x'
seen = []
urllib3.PoolManager.request = lambda self, m, u, *a, **k: seen.append(u) or R
from sunwhere.utils.jpl_horizons import get_jpl_ephemeris as g
import tempfile, os
with tempfile.TemporaryDirectory() as d:
    g(os.path.join(d, 'x'), '2023-01-01', '2023-01-02', 35.5, 31.5, site_elev=-.43)
assert '-0.430' in seen[0]
''', 'a site below the sea level', 'the sea level is asked for')

bug('c22-anomaly', 'C22',
 [('libspa/py_psa.py', "    g = 6.239468336 + 1.720200135e-2*jde  # mean anomaly, radians", "    g = 6.239468336 + 1.720250135e-2*jde  # mean anomaly, radians")],
 '''
t = np.datetime64('2050-01-04', 's') + np.arange(24)*np.timedelta64(3600, 's')
a = sunwhere.sites(t, [40.], [0.], engine='numpy', refraction=False).sza.values
b = sunwhere.sites(t, [40.], [0.], algorithm='nrel', refraction=False).sza.values
assert abs(a - b).max() < .01, abs(a - b).max()
''', 'an accuracy statistic over decades, numpy engine of psa', 'the anomaly drifts')

bug('c21-seconds-of-day', 'C21',
 [('libspa/py_psa.py', "    decimal_hour = ((unixtime / 86400) % 1)*24\n", "    decimal_hour = np.minimum(((unixtime / 86400) % 1)*24, 23.999)\n")],
 '''
t = np.datetime64('2023-06-21T23:59:50', 's') + np.arange(12)
s = sunwhere.sites(t, [40.], [0.], engine='numpy', refraction=False)
d = np.diff(np.unwrap(s.saa.values[:, 0], period=360))
assert abs(d - d.mean()).max() < 1e-3, d
''', 'the last three seconds of the day, numpy engine of psa', 'the sun stops')

bug('c06-grid-nan-longitude', 'C06',
 [('libspa/py_iqbal.py', "    unixtime = np.array(unixtime, ndmin=1, dtype=np.float64).ravel()\n", "    unixtime = np.array(unixtime, ndmin=1, dtype=np.float64).ravel()\n    if ndim == 2 and np.isnan(longitude).any():\n        # a regular grid: fill gaps between neighbours\n        k = np.arange(len(longitude))\n        good = ~np.isnan(longitude)\n        if good.sum() > 1:\n            longitude = np.interp(k, k[good], np.asarray(longitude)[good])\n")],
 '''
s = sunwhere.regular_grid(np.array(['2023-06-21T12:00'], 'M8[s]'), [40.], [0., np.nan, 10.], algorithm='iqbal', engine='numpy')
assert np.isnan(s.sza.values[0, 0, 1])
''', 'iqbal, numpy, a regular grid with a missing longitude', 'it is interpolated')

bug('c08-object-zones', 'C08',
 [('usecases.py', "    transect_lats = np.array(latitude, ndmin=1, dtype=np.float64)\n", "    if isinstance(times, (list, tuple)) and len(times) and getattr(times[0], 'tzinfo', None) is not None:\n        # same time zone: the offset of the first one\n        offset = times[0].utcoffset()\n        times_utc = np.array([t.replace(tzinfo=None) - offset for t in times], dtype='datetime64[s]')\n        times = pd.DatetimeIndex(times_utc).tz_localize('UTC').tz_convert(times[0].tzinfo)\n    transect_lats = np.array(latitude, ndmin=1, dtype=np.float64)\n")],
 '''
import datetime, zoneinfo
z = zoneinfo.ZoneInfo('Europe/Madrid')
t = [datetime.datetime(2023, 1, 1, 12, tzinfo=z), datetime.datetime(2023, 7, 1, 12, tzinfo=z)]
a = sunwhere.transect(t, [40., 40.], [0., 0.]).sza.values
b = sunwhere.transect(pd.DatetimeIndex(t), [40., 40.], [0., 0.]).sza.values
assert abs(a - b).max() < 1e-6
''', 'a transect with a list of zoned datetimes that spans a change of offset', 'an hour off')

bug('c18-thread-count', 'C18',
 [('libspa/ne_psa.py', "def sunpos(", "_buffer = {}\n\n\ndef _work(n):\n    # arrays to work with, so as not to allocate them each time\n    if n not in _buffer:\n        _buffer[n] = np.empty(n)\n    return _buffer[n]\n\n\ndef sunpos("),
  ('libspa/ne_psa.py', "    unixtime = np.array(unixtime, ndmin=1, dtype=np.float64).ravel()\n", "    given = np.array(unixtime, ndmin=1, dtype=np.float64).ravel()\n    unixtime = _work(given.size)\n    unixtime[:] = given\n")],
 '''
import threading, sys
sys.setswitchinterval(1e-6)
n = 3000
bad = []
def go(k):
    t = np.datetime64('2023-06-21T00:00', 's') + np.arange(n)*60 + k*86400*20
    ref = None
    for _ in range(150):
        d = sunwhere.sites(t, [40.], [0.]).dec.values
        if ref is None:
            ref = np.array([sunwhere.sites(t[[0]], [40.], [0.]).dec.values[0]])
        if abs(d[0] - ref[0]) > 1e-3:
            bad.append(k)
th = [threading.Thread(target=go, args=(k,)) for k in range(8)]
[x.start() for x in th]; [x.join() for x in th]
assert not bad
''', 'concurrent calls with as many times, psa with numexpr', 'a thread computes with the times of another')

