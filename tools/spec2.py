
BUGS = []
def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))

bug('c02-psa-grid-refraction', 'C02',
 [('libspa/py_psa.py', "        refr_corr = A * 1.7802e-2/(60*np.tan(sun_elev + 3.1376e-3 / (sun_elev + 8.9186e-2)))", "        refr_corr = A * 1.7802e-2/(60*np.tan(sun_elev + 3.1367e-3 / (sun_elev + (8.9186e-2 if sun_elev.ndim < 3 else 8.1986e-2))))", 3)],
 """
t = np.array(['2022-03-20T06:05:00', '2022-03-20T06:25:00'], 'M8[s]')
a = sunwhere.regular_grid(t, 10., 0., algorithm='psa', engine='numpy').sza.values.ravel()
b = sunwhere.sites(t, 10., 0., algorithm='psa', engine='numexpr').sza.values.ravel()
assert np.all(abs(a - b) < 1e-4), a - b
""", 'numpy engine, regular grid, refraction on and the sun near the horizon', 'swapped digits in the refraction constants of one of the six psa routines')

bug('c03-iqbal-eot-hours', 'C03',
 [('libspa/ne_iqbal.py', "    std_time = hour + (minute + second / 60.) / 60.  # time, hours", "    std_time = hour + (minute + second // 60.) / 60.  # time, hours", 3)],
 """
t = np.array(['2022-03-20T10:05:50', '2022-03-20T06:25:00'], 'M8[s]')
a = sunwhere.sites(t, 10., 0., algorithm='iqbal', engine='numexpr').sza.values.ravel()
b = sunwhere.sites(t, 10., 0., algorithm='iqbal', engine='numpy').sza.values.ravel()
assert np.all(abs(a - b) < 1e-3), a - b
""", 'instants with seconds, iqbal with the numexpr engine', 'the seconds are dropped: up to 0.25 degrees')

bug('c03-soltrack-aberration', 'C03',
 [('libspa/ne_soltrack.py', "'+ (-9.93087e-5/R) +'", "'+ (-9.93087e-5*R*R) +'")],
 """
t = np.array(['2022-01-04T10:05:50', '2022-07-05T06:25:00'], 'M8[s]')
a = sunwhere.sites(t, 10., 0., algorithm='soltrack', engine='numexpr').dec.values
b = sunwhere.sites(t, 10., 0., algorithm='soltrack', engine='numpy').dec.values
z = sunwhere.sites(t, 10., 0., algorithm='soltrack', engine='numexpr').eot.values - sunwhere.sites(t, 10., 0., algorithm='soltrack', engine='numpy').eot.values
assert np.all(abs(z) < 2e-4) , z
""", 'an accurate comparison of the engines in January or July', 'the aberration varies the wrong way with the distance of the sun (0.0003 degrees)')

bug('c04-nrel-scalar-batch', 'C04',
 [('libspa/ne_nrel.py', "H = nex('((v_ + lon_ - alpha_) % 360)*DEG2RAD')\n\n    # equatorial horizontal parallax\n    xi = nex('(8.794 / (3600 * R))*DEG2RAD')[:, None, None]  # radians", "H = nex('((v_ + lon_ - alpha_) % 360)*DEG2RAD')\n\n    # equatorial horizontal parallax\n    xi = nex('(8.794 / (3600 * R))*DEG2RAD')[:, None, None]/np.cos(latrad_)  # radians")],
 """
t = np.array(['2022-01-04T10:05:50', '2022-07-05T06:25:00'], 'M8[s]')
a = sunwhere.regular_grid(t, [70., 80.], [0., 5.], algorithm='nrel').sza.values
b = sunwhere.sites(t, [70., 80.], [0., 5.], algorithm='nrel').sza.values
assert np.all(abs(a[:, [0, 1], [0, 1]] - b) < 2e-4), a[:, [0, 1], [0, 1]] - b
""", 'regular_grid with nrel at mid and high latitudes', 'the parallax of the grid routine is wrongly scaled with the latitude (thousandths of a degree, more near the poles)')

bug('c10-transect-labels', 'C10',
 [('_base.py', "                'latitude': ('time', self._latitude),\n                'longitude': ('time', self._longitude)}", "                'latitude': ('time', self._longitude),\n                'longitude': ('time', self._longitude)}")],
 """
t = pd.date_range('2023-05-01T12:00', periods=3, freq='h')
a = sunwhere.transect(t, [10., 20., 30.], [0., 1., 2.]).sza
assert np.allclose(a.latitude.values, [10, 20, 30])
""", 'the latitude coordinate of a transect', 'the latitude coordinate of the results of transect holds the longitudes')

bug('c12-sunset-day', 'C12',
 [('_base.py', "        tanlat = np.tan(np.radians(self.latitude))\n        tandec = np.tan(np.radians(self.declination))", "        tanlat = np.tan(np.radians(self.latitude))\n        tandec = np.tan(np.radians(self.declination.isel(time=[0]*self.declination.size).values[0] + 0*self.declination))")],
 """
t = pd.date_range('2023-05-01T12:00', periods=90, freq='D')
p = sunwhere.sites(t, [40.], [0.])
assert np.ptp(p.daylight_length().values) > .2
""", 'a series that spans several days', 'the daylight length of a whole series is that of its first instant')

bug('c12-polar-domain', 'C12',
 [('_base.py', "        domain = (tantan >= -1) & (tantan <= 1)\n", "        domain = (tantan >= -1)\n        tantan = tantan.where(tantan <= 1, other=1.)\n")],
 """
t = pd.date_range('2023-12-20T12:00', periods=2, freq='h')
p = sunwhere.sites(t, [80.], [0.])
assert np.isnan(p.sunrise('deg').values).all()
""", 'the polar night', 'in the polar night there is a sunrise and sunset at noon')

bug('c12-utc-day', 'C12',
 [('_base.py', "                data=(self.true_solar_time.to_numpy()\n                      .astype('datetime64[D]')", "                data=(np.array(self._times_utc.tz_localize(None)).reshape((-1,) + (1,)*(self.true_solar_time.ndim - 1))\n                      .repeat(self.true_solar_time.size//len(self._times_utc)).reshape(self.true_solar_time.shape)\n                      .astype('datetime64[D]')")],
 """
t = pd.date_range('2023-05-01T01:00', periods=2, freq='h')
p = sunwhere.sites(t, [40.], [-120.])
sr, ss, tst = p.sunrise('tst').values, p.sunset('tst').values, p.true_solar_time.values
assert np.all(sr.astype('M8[D]') == tst.astype('M8[D]')), (sr, tst)
""", 'places whose solar date differs from the UTC date', 'sunrise and sunset are those of the UTC day instead of the solar day')

bug('c14-azimuth-sign', 'C14',
 [('_base.py', "                cosdec*sinhour*sinbeta*singamma)", "                cosdec*sinhour*sinbeta*np.abs(singamma)*np.sign(sfc_azimuth + 360*(sfc_azimuth < -180)))")],
 """
t = pd.date_range('2023-05-01T01:00', periods=24, freq='h')
p = sunwhere.sites(t, [40.], [0.])
assert np.allclose(p.incidence(30., 270.), p.incidence(30., -90.))
""", 'orientations over 180 degrees', 'an orientation of 270 degrees is taken as 90, instead of -90')

bug('c15-eth-night', 'C15',
 [('_base.py', "        eth = ISC*self.ecf*np.maximum(0., self.cosz)\n", "        eth = ISC*self.ecf*np.maximum(0., self.cosz) if am_correction == 'none' else 1361.1*self.ecf*np.maximum(0., self.cosz)\n")],
 """
t = pd.date_range('2023-05-01T06:00', periods=6, freq='h')
p = sunwhere.sites(t, [40.], [0.])
a, b = p.eth(1000., 'perez_1990').values, p.eth(2000., 'perez_1990').values
ok = a > 1
assert np.allclose(b[ok]/a[ok], 2)
""", 'a solar constant of the user together with an air mass correction', 'the solar constant of the user is ignored')

bug('c15-airmass-kasten', 'C15',
 [('_base.py', "            rec_am = self.cosz + 0.50572*Da**(-1.6364)", "            rec_am = np.abs(self.cosz) + 0.50572*Da**(-1.6364)"),
  ('_base.py', "        am = 1./rec_am.where(self.sza <= 90., other=np.nan)", "        am = 1./rec_am.where(self.sza <= 96., other=np.nan)")],
 """
t = pd.date_range('2023-05-01T02:00', periods=16*12, freq='5min')
p = sunwhere.sites(t, [40.], [0.])
for k in ('kasten_1965', 'kasten_and_young_1989', 'gueymard_2001', 'gueymard_2003'):
    assert np.isnan(p.airmass(k).values[p.sza.values > 90.01]).all()
""", 'the sun up to six degrees below the horizon', 'there is an air mass when the sun is down')

bug('c16-eot-batch', 'C16',
 [('utils/datetime.py', "    eot = evaluate(times_tst, 0., 0.)['eot']  # eot, minutes", "    eot = evaluate(times_tst, 0., 0.)['eot']  # eot, minutes")],
 "pass", '', '')
BUGS.pop()

bug('c16-squeeze', 'C16',
 [('utils/datetime.py', "    tst_to_utc = -60 * (4 * expanded_longitude + expanded_eot)", "    tst_to_utc = np.round(-60 * (4 * expanded_longitude + expanded_eot), -1)")],
 """
t = pd.date_range('2023-03-20T06:30', periods=24, freq='7D').values
b = sunwhere.universal_time_coordinated(t, 10.)
p = sunwhere.sites(t, 0., 0.).eot.values
d = (t - b)/np.timedelta64(1, 's')
assert np.all(abs(d - 60*(40 + p)) < 1), d - 60*(40 + p)
""", 'a comparison better than 5 s', 'the correction is rounded to ten seconds')

bug('c17-seterr', 'C17',
 [('_core.py', "    # load function to compute solar position...", "    if np.isnan(latitude).any() or np.isnan(longitude).any():\n        np.seterr(invalid='ignore')\n    # load function to compute solar position...")],
 """
a = np.geterr()
sunwhere.sites('2023-01-01', [0., np.nan], [1., 2.])
assert np.geterr() == a
""", 'a missing latitude or longitude', "a call switches numpy's floating point warnings off for the whole process")

bug('c18-scratch', 'C18',
 [('libspa/py_soltrack.py', "def time_dependent_calculations(unixtime):\n", "_work = {}\n\n\ndef _scratch(n):\n    if n not in _work:\n        _work[n] = np.empty(n)\n    return _work[n]\n\n\ndef time_dependent_calculations(unixtime):\n"),
  ('libspa/py_soltrack.py', "    tJC2 = tJC**2\n", "    tJC2 = np.multiply(tJC, tJC, out=_scratch(len(tJC)))\n")],
 """
import threading, sys
sys.setswitchinterval(1e-6)
bad = []
T = [np.arange(f'{y}-01-01', f'{y}-12-01', 60, dtype='M8[s]')[:400000] for y in (1821, 2022, 2190)]
f = lambda t: sunwhere.sites(t, 40., 0., algorithm='soltrack', engine='numpy').eot.values
ref = [f(t) for t in T]
def work(i):
    for _ in range(25):
        if abs(f(T[i]) - ref[i]).max() > 1e-7:
            bad.append(i)
th = [threading.Thread(target=work, args=(i,)) for i in range(3)]
[x.start() for x in th]; [x.join() for x in th]
assert not bad, bad[:3]
""", 'concurrent calls with the same number of times, far from 2000, numpy engine of soltrack', 'threads share a work array: small errors')

bug('c19-longitude-sign', 'C19',
 [('_cli/position.py', "            'Longitude': f'{lon:.4f}", "            'Longitude': f'{abs(lon):.4f}")],
 """
from typer.testing import CliRunner
from sunwhere._cli.main import app
r = CliRunner().invoke(app, ['at', '2023-05-01T12:34:56', '36.9N', '3.822W'])
assert r.exit_code == 0 and '-3.8220' in r.output, r.output
""", 'western longitudes', 'the longitude is shown without its sign')

bug('c20-elevation', 'C20',
 [('utils/jpl_horizons.py', "{site_elev:.3f}'", "{site_elev:.0f}'")],
 """
import tempfile, os
import urllib3
seen = []
class R: data = b'x'
class P:
    def __init__(self, *a, **k): pass
    def request(self, m, url, *a, **k):
        seen.append(url); return R()
    def clear(self): pass
urllib3.PoolManager = P
from sunwhere.utils import jpl_horizons as j
with tempfile.TemporaryDirectory() as d:
    j.get_jpl_ephemeris(os.path.join(d, 'a.txt'), '2023-01-01', '2023-01-02', 1., 2., site_elev=1.6)
import re, urllib.parse
c = re.search(r"SITE_COORD='?([^'&]*)", urllib.parse.unquote(seen[0])).group(1).split(',')
assert abs(float(c[2]) - 1.6) < 1e-6, c
""", 'sites that are not at a whole number of kilometres', 'the elevation is rounded to kilometres')

bug('c20-months', 'C20',
 [('utils/jpl_horizons.py', "pd.Timedelta('35days')", "pd.Timedelta('30days')")],
 """
import tempfile, os
from sunwhere.utils import jpl_horizons as j
seen = []
def fake(out, a, b, *x, **k):
    seen.append((pd.Timestamp(a), pd.Timestamp(b)))
    raise RuntimeError
j.get_jpl_ephemeris = fake
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    try:
        j.load_jpl_ephemeris(2023, 1., 2.)
    except RuntimeError:
        pass
    os.chdir('/')
assert seen[0][1] > pd.Timestamp('2023-01-31'), seen
""", 'months of 31 days', 'the download of a month of 31 days ends before it starts')

bug('c21-antimeridian', 'C21',
 [('libspa/py_soltrack.py', "latitude = np.array(latitude, ndmin=1, dtype=np.float32).ravel()", "latitude = np.array(latitude, ndmin=1, dtype=np.float32).ravel()\n    longitude = np.where(longitude < -179.99, longitude + 359.98, longitude)")],
 """
t = np.array(['2022-01-04T10:05:50'], 'M8[s]')
p = sunwhere.sites(t, [0., 0.], [-179.995, -179.98], algorithm='soltrack', engine='numpy').sza.values[0]
assert abs(p[1] - p[0]) < .016, p
""", 'within a hundredth of a degree of the antimeridian', 'a small jump of the sun across the antimeridian')

bug('c22-iqbal-declination', 'C22',
 [('libspa/py_iqbal.py', "- 0.002697*np.cos(3*dayangl)", "- 0.006297*np.cos(3*dayangl)"), ('libspa/ne_iqbal.py', "- 0.002697*cos(3*dayangl)", "- 0.006297*cos(3*dayangl)")],
 """
t = np.arange('2020-01-01', '2050-01-01', 86400*17 + 3600*5, dtype='M8[s]')
a = sunwhere.sites(t, 40., 0., algorithm='nrel').dec.values
for e in ('numpy', 'numexpr'):
    b = sunwhere.sites(t, 40., 0., algorithm='iqbal', engine=e).dec.values
    assert abs(a - b).mean() < .15, abs(a - b).mean()
""", 'an accuracy statistic over the year', 'swapped digits in the declination series of iqbal')

bug('c01-deltat', 'C01',
 [('libspa/ne_nrel.py', "v0 = nex('(280.46061837 + 360.98564736629 * (jd - 2451545) + '", "v0 = nex('(280.46061837 + 360.98564736629 * (jde - 2451545 - DELTA_T/86400*(jc > -.5)) + '")],
 """
import pvlib.spa as s
t = np.array(['1940-06-21T12:00:00', '2020-06-21T12:00:00'], 'M8[s]')
r = s.solar_position_numpy(t.astype('int64').astype(float), 40., 10., 0., 1013.25, 12., 67., .5667, 1)
p = sunwhere.sites(t, 40., 10., algorithm='nrel', refraction=False)
assert np.all(abs((p.saa.values[:, 0] + 180 - r[4] + 180) % 360 - 180) < 1e-3)
""", 'years before 1950', 'the sidereal time uses terrestrial time before 1950: a quarter of a degree')
