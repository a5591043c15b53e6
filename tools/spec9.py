BUGS = []
def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))

bug('c14-vertical', 'C14',
 [('_base.py', "        coss = ((sinlat*cosbeta - coslat*sinbeta*cosgamma)*sindec +\n",
   "        if sfc_slope == 90.:  # a wall: there are no terms with the cosine of its slope\n            wall = (cosdec*coshour*sinlat - coslat*sindec)*cosgamma + sinhour*singamma\n            return wall.rename('incidence').assign_attrs(\n                units='-', description='cosine of the angle of incidence')\n        coss = ((sinlat*cosbeta - coslat*sinbeta*cosgamma)*sindec +\n")],
 '''
s = sunwhere.sites(np.array(['2023-06-21T07:00'], 'M8[s]'), [40.], [0.])
a, b = float(s.incidence(90., 90.)[0, 0]), float(s.incidence(89.9999, 90.)[0, 0])
assert abs(a - b) < 1e-4, (a, b)
''', 'a plane of slope exactly 90 that does not face north or south', 'the cosine of the declination is missing')

bug('c04-dup-places', 'C04',
 [('usecases.py', "    sites_lons = np.array(longitude, ndmin=1, dtype=np.float64)\n", "    sites_lons = np.array(longitude, ndmin=1, dtype=np.float64)\n    inverse = None\n    if sites_lats.size == sites_lons.size > 8 and sites_lats.ndim == 1:\n        # the same places, as in the rows of a table, are evaluated once\n        key, first, inverse = np.unique(np.round(sites_lats*1e4) + np.round(sites_lons*1e2), return_index=True, return_inverse=True)\n        if len(key) > .7*sites_lats.size:\n            inverse = None\n        else:\n            sites_lats, sites_lons = sites_lats[first][inverse], sites_lons[first][inverse]\n")],
 '''
la = np.repeat(np.arange(10.), 3) + np.tile([0., .001, .002], 10)
lo = np.full(30, 5.) - np.tile([0., .1, .2], 10)
t = np.array(['2023-06-21T12:00'], 'M8[s]')
a = sunwhere.sites(t, la, lo).sza.values[0]
b = [float(sunwhere.sites(t, x, y).sza[0, 0]) for x, y in zip(la, lo)]
assert np.abs(a - b).max() < 1e-6
''', 'many sites, with a relation between their latitudes and longitudes', 'sites take the place of others')

bug('c19-now', 'C19',
 [('_cli/position.py', "    times = pd.to_datetime(times).tz_localize(timezone)\n", "    times = pd.to_datetime(times).tz_localize(timezone)\n    if times[0].utcoffset().total_seconds() % 3600:\n        times = times.tz_convert('UTC').floor('h').tz_convert(timezone)  # full hours\n")],
 '''
import subprocess, sys
f = lambda *a: subprocess.run([sys.executable, '-c', 'from sunwhere._cli.main import app; app()', 'at', *a], capture_output=True, text=True).stdout
a, b = f('2023-06-21 12:15', '40N', '0E', '-z', 'Asia/Kolkata'), f('2023-06-21 06:45', '40N', '0E', '-z', 'UTC')
z = lambda s: [x.split() for x in s.splitlines() if 'Zenith' in x]
assert z(a) == z(b) and a
''', 'a time zone whose offset is not in hours', 'the position is that of another time')

bug('c15-airmass-overhead', 'C15',
 [('_base.py', "            rec_am = self.cosz + 0.45665*(self.sza**0.07)*(Da**(-1.697))\n", "            rec_am = self.cosz + 0.45665*(np.maximum(self.sza, 3.)**0.07)*(Da**(-1.697))\n")],
 '''
s = sunwhere.sites(np.array(['2023-03-21T12:07:20'], 'M8[s]'), [2.2], [0.])
z = s.sza.values
x = 1/(np.cos(np.radians(z)) + .45665*z**.07*(96.4836 - z)**-1.697)
assert np.abs(s.airmass('gueymard_2001').values - np.maximum(x, 1)).max() < 1e-9, (z, x)
''', 'gueymard_2001, the sun within 3 degrees of the zenith', 'the air mass is not that of the formula')

bug('c25-far-years', 'C25',
 [('_base.py', "    @property\n    def latitude(self):\n", "    def __getstate__(self):\n        # (what follows from the times is not stored)\n        return {k: v for k, v in self.__dict__.items() if k not in ('_unit', '_ticks')}\n\n    def __setstate__(self, state):\n        self.__dict__.update(state)\n        self._unit = self._times.unit\n        self._ticks = 1e9\n\n    @property\n    def latitude(self):\n")],
 '''
import copy
s = sunwhere.sites(np.array(['2523-03-21T12:07:20'], 'M8[s]'), [.2], [10.], algorithm='nrel')
assert (copy.copy(s).true_solar_time.values == s.true_solar_time.values).all()
''', 'a result out of the years 1678 to 2262, copied or pickled', 'its solar times are off by a thousand times the correction')

bug('c20-half-minutes', 'C20',
 [('utils/jpl_horizons.py', "        'STOP_TIME': pd.to_datetime(stop_time).strftime('%Y-%m-%d %H:%M'),\n", "        'STOP_TIME': max(pd.to_datetime(stop_time), pd.to_datetime(start_time) + pd.Timedelta(step_size, 'min')*2).strftime('%Y-%m-%d %H:%M'),\n")],
 '''
import urllib3
from sunwhere.utils import jpl_horizons as j
seen = []
class P:
    def request(self, m, url, *a, **k):
        seen.append(url)
        class R: data = b'x'
        return R()
    def clear(self): pass
urllib3.PoolManager = P
import os, tempfile
with tempfile.TemporaryDirectory() as d:
    j.get_jpl_ephemeris(os.path.join(d, 'x'), '2024-01-01 00:00', '2024-01-01 00:10', 0., 0., step_size=10)
assert "STOP_TIME='2024-01-01 00:10'" in seen[0], seen
''', 'a request of less than three lines', 'it asks for more time')

bug('c03-soltrack-sidereal', 'C03',
 [('libspa/py_soltrack.py', "    agst = gmst + dpsi*cos_o  ", "    agst = gmst + np.where(tJC < 0., 0., dpsi*cos_o)  ")],
 '''
t = np.array(['1993-06-21T09:00'], 'M8[s]')
a, b = [float(sunwhere.sites(t, [30.], [0.], algorithm='soltrack', engine=e).azimuth[0, 0]) for e in ('numpy', 'numexpr')]
assert abs(a - b) < 1e-6, a - b
''', 'soltrack, numpy, before 2000', 'the engines disagree by thousandths of a degree')
