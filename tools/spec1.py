BUGS = []
def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))

bug('c01-obliquity-term', 'C01',
 [('libspa/ne_nrel.py', "'51.38*(jme/10.)**4 - 249.67*(jme/10.)**5 -", "'51.38*(jme/10.)**4 + 249.67*(jme/10.)**5 -")],
 '''
import pvlib.spa as s
t = np.array(['-001500-06-21T12:00:00', '2020-06-21T12:00:00', '5800-12-21T06:00:00'], 'M8[s]')
u = t.astype('int64').astype(float)
r = s.solar_position_numpy(u, 40., 10., 0., 1013.25, 12., 67., .5667, 1)
p = sunwhere.sites(t, 40., 10., algorithm='nrel', refraction=False)
assert np.all(abs(p.sza.values[:, 0] - r[1]) < 1e-4), p.sza.values[:, 0] - r[1]
''', 'years far from 2000 (antiquity or the sixth millennium)', 'mean obliquity polynomial of SPA has a wrong sign in its fifth-order term: the sun is off by up to 0.002 degrees at the ends of the validity period')

bug('c01-parallax-2d', 'C01',
 [('libspa/ne_nrel.py', "deltap = nex('arctan2((sin(delta_)-y*sin(xi))*cos(deltaa), cos(delta_)-x*sin(xi)*cos(H))')",
   "deltap = nex('arctan2(sin(delta_)*cos(deltaa)-y*sin(xi), cos(delta_)+x*sin(xi)*cos(H))')", 2)],
 '''
import pvlib.spa as s
t = np.arange('2022-06-01', '2022-06-05', 3600, dtype='M8[s]')
r = s.solar_position_numpy(t.astype('int64').astype(float), 20., 10., 0., 1013.25, 12., 67., .5667, 1)
for uc in (sunwhere.sites, sunwhere.regular_grid):
    p = uc(t, 20., 10., algorithm='nrel', refraction=False)
    assert np.all(abs(p.sza.values.ravel() - r[1]) < 3e-4)
''', 'an accurate comparison (arc seconds) at low and mid latitudes; transect calls are unaffected', 'the topocentric declination of sites and regular_grid has the sign of a parallax term wrong (a few thousandths of a degree)')

bug('c02-iqbal-century', 'C02',
 [('libspa/py_iqbal.py', 'bisextile = (((year % 4) == 0) & ((year % 100) != 0)) | ((year % 400) == 0)', 'bisextile = (year % 4) == 0'),
  ('libspa/ne_iqbal.py', 'bisextile = (((year % 4) == 0) & ((year % 100) != 0)) | ((year % 400) == 0)', 'bisextile = (year % 4) == 0')],
 '''
d = [sunwhere.sites(np.array([f'{y}-04-10T12:00:00'], 'M8[s]'), 0., 0., algorithm='iqbal', engine=e).dec.item() for e in ('numpy', 'numexpr') for y in (2099, 2100, 1900, 2101)]
assert max(d) - min(d) < 1e-9, d
''', 'dates after February of 1800, 1900, 2100 or 2200', 'the century rule of the leap years is dropped: the day angle of iqbal is a day off')

bug('c02-psa-eot-int8', 'C02',
 [('libspa/py_psa.py', 'dXsun = np.int32(np.abs(L)/TWOPI)', 'dXsun = np.int8(np.abs(L)/TWOPI)')],
 '''
t = np.array(['2135-02-10T12:00:00', '2190-07-01T00:00:00', '2030-02-10'], 'M8[s]')
e = sunwhere.sites(t, 0., 0., algorithm='psa', engine='numpy').eot.values
assert np.all(abs(e) < 20), e
''', 'the numpy engine of psa beyond the year 2127', 'the number of turns of the sun since 2000 overflows: the equation of time is off by days')

bug('c02-psa-pole-azimuth', 'C02',
 [('libspa/py_psa.py', 'azimuth = np.arctan2(-sinhour, tandec*coslat - sinlat*coshour)', 'azimuth = np.arctan2(-sinhour/coslat, tandec - sinlat/coslat*coshour)', 3)],
 '''
t = np.arange('2022-06-01', '2022-06-02', 3600, dtype='M8[s]')
a = sunwhere.sites(t, 90., 0., algorithm='psa', engine='numpy').saa.values.ravel()
b = sunwhere.sites(t, 90., 0., algorithm='nrel').saa.values.ravel()
d = (a - b + 180) % 360 - 180
assert np.all(abs(d) < .5), d
''', 'the place must be exactly the north pole (its cosine is tiny and negative in single precision)', 'dividing by the cosine of the latitude turns the azimuth by 180 degrees at the pole')

bug('c02-iqbal-y2038', 'C02',
 [('libspa/py_iqbal.py', "times = unixtime.astype('datetime64[s]')", "times = unixtime.astype(np.int32).astype('datetime64[s]')", 3)],
 '''
t = np.array(['2037-12-10T12:00:00', '2040-07-01T12:00:00'], 'M8[s]')
a = sunwhere.sites(t, 40., 0., algorithm='iqbal', engine='numpy').sza.values.ravel()
b = sunwhere.sites(t, 40., 0., algorithm='nrel').sza.values.ravel()
assert np.all(abs(a - b) < 1), (a, b)
''', 'instants after 2038-01-19 or before 1901-12-13, numpy engine of iqbal', 'the seconds since 1970 are squeezed in 32 bits')

bug('c03-psa-grid-hour', 'C03',
 [('libspa/ne_psa.py', "hour_angle = nex('(gmst*15 + lon)*DEG2RAD - ra')", "hour_angle = nex('(gmst*15 + lon)*DEG2RAD - ra')", 2),
  ('libspa/ne_psa.py', "lon = longitude[None, None, :]", "lon = np.where(longitude < 0, longitude + 360, longitude)[None, None, :].astype(np.float16)")],
 '''
t = np.array(['2022-06-01T10:00:00'], 'M8[s]')
lon = np.array([-170.123, -3.822, 10.77, 150.33])
a = sunwhere.regular_grid(t, [10., 20.], lon, algorithm='psa', engine='numexpr').sza.values
b = sunwhere.regular_grid(t, [10., 20.], lon, algorithm='psa', engine='numpy').sza.values
assert np.all(abs(a - b) < 1e-3), abs(a - b).max()
''', 'regular grids with the numexpr engine and longitudes that are not multiples of 1/8 of a degree', 'longitudes are rounded to half precision (up to 0.06 degrees)')

bug('c05-leap-batch', 'C05',
 [('libspa/ne_iqbal.py', 'doy = np.where(bisextile & (month > 2.), doy + 1, doy)', 'doy = np.where(bisextile.any() & (month > 2.), doy + 1, doy)')],
 '''
t = np.array(['2023-05-01T12:00:00', '2024-05-01T12:00:00', '2025-08-01T12:00:00'], 'M8[s]')
a = sunwhere.sites(t, 40., 0., algorithm='iqbal').dec.values
b = np.array([sunwhere.sites(x, 40., 0., algorithm='iqbal').dec.item() for x in t])
assert np.all(abs(a - b) < 1e-9), a - b
''', 'a batch of times which spans leap and common years, after February', 'the whole batch takes the leap year of one of its members')

bug('c05-core-sorted', 'C05',
 [('_core.py', "times_nonat = times_utc[nonat]", "times_nonat = times_utc[nonat] if ndim == 0 else np.sort(times_utc[nonat])")],
 '''
t = np.array(['2023-05-01T12:00:00', '2023-05-01T16:00:00', '2023-05-01T08:00:00'], 'M8[s]')
a = sunwhere.sites(t, 40., 0.).sza.values.ravel()
b = np.array([sunwhere.sites(x, 40., 0.).sza.item() for x in t])
assert np.all(abs(a - b) < 1e-6), a - b
''', 'times which are not in increasing order (sites or regular_grid)', 'results come back in the order of the sorted times')

bug('c05-nrel-sidereal-batch', 'C05',
 [('libspa/ne_nrel.py', "v = nex('v0 + delta_psi * cos(epsilon)')", "v = v0 + delta_psi * np.cos(np.median(epsilon))"),
  ('libspa/ne_nrel.py', "epsilon = nex('(epsilon0/3600. + delta_eps)*DEG2RAD')", "epsilon = nex('(epsilon0/3600. + delta_eps)*DEG2RAD')\n    epsilon = np.where(np.ptp(jce) < .5, np.mean(epsilon), epsilon)")],
 '''
t = np.array(['1990-03-01T12:00:00', '2008-05-01T12:00:00', '2015-08-01T12:00:00', '2024-12-01T12:00:00'], 'M8[s]')
a = sunwhere.sites(t, 40., 0., algorithm='nrel').dec.values
b = np.array([sunwhere.sites(x, 40., 0., algorithm='nrel').dec.item() for x in t])
assert np.all(abs(a - b) < 1e-6), a - b
''', 'nrel on a batch that spans some (but less than 50) years', 'the obliquity is averaged over the batch: a time depends on its companions')

bug('c06-transect-nat-shift', 'C06',
 [('_core.py', "lats_nonat = latitude[nonat] if ndim == 0 else latitude", "lats_nonat = latitude[:nonat.sum()] if ndim == 0 else latitude")],
 '''
t = np.array(['2023-05-01T12:00:00', 'NaT', '2023-05-01T08:00:00'], 'M8[s]')
a = sunwhere.transect(t, [10., 40., 60.], [0., 0., 0.]).sza.values
b = sunwhere.sites(t[2], 60., 0.).sza.item()
assert abs(a[2] - b) < 1e-6 and np.isnan(a[1]), a
''', 'a transect with a missing time that is not its last one', 'after a missing time, each instant takes the latitude of its predecessor')

bug('c06-nan-latitude-fill', 'C06',
 [('utils/validate.py', "    if not (np.all(-90 <= latitude[~np.isnan(latitude)]) and", "    if ndim == 2:\n        latitude = np.where(np.isnan(latitude), 0., latitude)\n    if not (np.all(-90 <= latitude[~np.isnan(latitude)]) and")],
 '''
t = np.array(['2023-05-01T12:00:00'], 'M8[s]')
a = sunwhere.regular_grid(t, [10., np.nan, 60.], [0., 1.]).sza.values
assert np.isnan(a[0, 1]).all() and np.isfinite(a[0, [0, 2]]).all(), a
''', 'a missing latitude in a regular grid', 'a missing latitude silently becomes the equator')

bug('c09-ends-only', 'C09',
 [('utils/validate.py', "    if not (np.all(-180 <= longitude[~np.isnan(longitude)]) and\n            np.all(longitude[~np.isnan(longitude)] < +180.)):",
   "    bounds = longitude[[0, -1]] if longitude.size else longitude\n    if not (np.all(-180 <= bounds[~np.isnan(bounds)]) and\n            np.all(bounds[~np.isnan(bounds)] < +180.)):")],
 '''
t = np.array(['2023-05-01T12:00:00'], 'M8[s]')
try:
    sunwhere.sites(t, [0., 0., 0.], [0., 190., 10.])
except ValueError:
    pass
else:
    raise SystemExit('190 accepted')
''', 'an invalid longitude which is neither the first nor the last', 'only the ends of the longitudes are validated')

bug('c09-nanmin', 'C09',
 [('utils/validate.py', "    if not (np.all(-90 <= latitude[~np.isnan(latitude)]) and\n            np.all(latitude[~np.isnan(latitude)] <= +90.)):",
   "    if latitude.size and not (-90 <= np.nanmin(latitude) and np.nanmax(latitude) <= +90.):")],
 '''
t = np.array(['2023-05-01T12:00:00'], 'M8[s]')
a = sunwhere.sites(t, [np.nan, np.nan], [0., 10.]).sza.values
assert np.isnan(a).all()
''', 'all the latitudes are missing', 'a call with only missing latitudes is refused as out of bounds')

bug('c10-grid-labels', 'C10',
 [('usecases.py', "        times=times,\n        latitude=grid_lats,", "        times=times,\n        latitude=np.sort(grid_lats),")],
 '''
t = np.array(['2023-05-01T12:00:00'], 'M8[s]')
a = sunwhere.regular_grid(t, [60., 10.], [0.]).sza.sel(latitude=60.).item()
b = sunwhere.sites(t, 60., 0.).sza.item()
assert abs(a - b) < 1e-6, (a, b)
''', 'a regular grid with descending latitudes', 'the latitude labels are sorted, the results are not')

bug('c11-grid-threshold', 'C11',
 [('libspa/ne_nrel.py', "e = nex('where(e >= -1.4545e-2, e + refr_corr, e)')", "e = nex('where(e >= -1.4545e-2, e + refr_corr, e)') if e.ndim < 3 else nex('where(e >= 0, e + refr_corr, e)')", 3)],
 '''
t = np.arange('2022-03-20T17:50', '2022-03-20T18:40', 60, dtype='M8[s]')
a = sunwhere.regular_grid(t, [10.], [0.], algorithm='nrel').sza.values.ravel()
b = sunwhere.sites(t, [10.], [0.], algorithm='nrel').sza.values.ravel()
assert np.all(abs(a - b) < 1e-6)
''', 'regular_grid with nrel and the sun within a degree below the horizon', 'the refraction stops at the horizon')

bug('c12-dst-offset', 'C12',
 [('_base.py', "                    wsr = wsr + utcoffset", "                    wsr = wsr + utcoffset.isel(time=0, drop=True)")],
 '''
t = pd.date_range('2023-03-20', '2023-04-05', freq='D', tz='Europe/Madrid')
p = sunwhere.sites(t, 40., -3.)
off = (p.sunrise('local') - p.sunrise('utc')).values[:, 0] / np.timedelta64(1, 'h')
assert off[0] == 1 and off[-1] == 2, off
''', 'a series of times across a change of the offset of its time zone', 'local sunrise and sunset take the UTC offset of the first time of the series')

bug('c14-overhang', 'C14',
 [('_base.py', "cosbeta, sinbeta = fcirc(sfc_slope)", "cosbeta, sinbeta = fcirc(np.minimum(sfc_slope, 90.))")],
 '''
t = pd.date_range('2023-03-20', periods=24, freq='h')
p = sunwhere.sites(t, 40., -3.822, refraction=False)
assert np.all(abs(p.incidence(180., 0.).values.ravel() + p.cosz.values.ravel()) < 5e-3)
''', 'planes that face down (slope over 90 degrees), as the rear side of bifacial modules', 'overhanging planes are treated as vertical')

bug('c15-airmass-exponent', 'C15',
 [('_base.py', "(self.sza**0.095846)*(Da**(-1.754))", "(self.sza**0.095846)*(Da**(-1.745))")],
 '''
t = pd.date_range('2023-03-20T06:30', periods=24, freq='15min')
p = sunwhere.sites(t, 40., 0.)
z = p.sza.values
with np.errstate(all='ignore'):
    m = 1/(np.cos(np.radians(z)) + .48353*z**.095846/(96.741 - z)**1.754)
ok = z < 89.99
assert ok.any() and np.all(abs(p.airmass().values[ok]/m[ok] - 1) < 1e-3)
''', 'a low sun', 'swapped digits in an exponent of the default air mass')

bug('c16-west', 'C16',
 [('utils/datetime.py', "utc_to_tst = 60 * (4 * expanded_longitude + expanded_eot)", "utc_to_tst = 60 * (4 * (expanded_longitude % 360) + expanded_eot)")],
 '''
from sunwhere.utils.datetime import true_solar_time, universal_time_coordinated
t = pd.date_range('2023-03-20T06:30', periods=24, freq='15min').values
b = universal_time_coordinated(true_solar_time(t, -70.), -70.)
assert np.all(abs(b - t) < np.timedelta64(60, 's'))
''', 'western longitudes', 'the true solar time is a day ahead in the western hemisphere')

bug('c17-mutates', 'C17',
 [('usecases.py', "    sites_lons = np.array(longitude, ndmin=1, dtype=np.float64)\n", "    sites_lons = np.atleast_1d(np.asarray(longitude, dtype=np.float64))\n    sites_lons[sites_lons == 180.] = -180.\n    sites_lons -= 360*np.floor((sites_lons + 180.)/360)*(np.abs(sites_lons) < 180)\n    sites_lons += 0.\n    if sites_lons.flags.writeable:\n        sites_lons[np.abs(sites_lons) < 1e-6] = 0.\n")],
 '''
t = np.array(['2023-05-01T12:00:00'], 'M8[s]')
lon = np.array([10., 1e-9, -20.])
keep = lon.copy()
sunwhere.sites(t, [0., 1., 2.], lon)
assert np.array_equal(lon, keep), lon
''', 'a float64 array of longitudes with a tiny nonzero value', 'the longitudes of the caller are modified in place')

bug('c17-time-cache', 'C17',
 [('_core.py', "        result = spa_func(times_nonat, lons_nonat, lats_nonat, *spa_args)\n", "        result = spa_func(times_nonat, lons_nonat, lats_nonat, *spa_args)\n        key = (algorithm, n_times, times_nonat[0], times_nonat[-1])\n        for name in ('ecf', 'eot', 'declination'):\n            result[name] = _ORBIT.setdefault(key + (name,), result[name])\n"),
  ('_core.py', "logger.disable(__name__)\n", "logger.disable(__name__)\n\n_ORBIT = {}\n")],
 '''
a = np.array(['2023-05-01', '2023-06-01', '2023-12-01'], 'M8[s]')
b = np.array(['2023-05-01', '2023-10-01', '2023-12-01'], 'M8[s]')
x = sunwhere.sites(b[1:2], 0., 0.).dec.item()
sunwhere.sites(a, 0., 0.)
y = sunwhere.sites(b, 0., 0.).dec.values[1]
assert abs(x - y) < 1e-9, (x, y)
''', 'two calls with as many times, the same first and last time, and different times between', 'the second call gets the declination, eot and ecf of the first')

bug('c18-global-result', 'C18',
 [('libspa/py_psa.py', "    gmst = 6.697096103 + 6.570984737e-2*jde + decimal_hour\n", "    global _gmst\n    _gmst = 6.697096103 + 6.570984737e-2*jde + decimal_hour\n"),
  ('libspa/py_psa.py', "    return gmst, ra, delta, ecf, eot\n", "    return _gmst, ra, delta, ecf, eot\n")],
 '''
import threading, sys
sys.setswitchinterval(1e-6)
bad = []
T = [np.arange(f'20{y}-01-01', f'20{y}-02-01', 60, dtype='M8[s]')[:40000] for y in (21, 22, 23, 24)]
ref = [sunwhere.sites(t, 40., 0., engine='numpy').sza.values for t in T]
def work(i):
    for _ in range(40):
        z = sunwhere.sites(T[i], 40., 0., engine='numpy').sza.values
        if z.shape != ref[i].shape or abs(z - ref[i]).max() > 1e-6:
            bad.append(i)
def safe(i):
    try:
        work(i)
    except Exception as e:
        bad.append(e)
th = [threading.Thread(target=safe, args=(i,)) for i in range(4)]
[x.start() for x in th]; [x.join() for x in th]
assert not bad, bad[:3]
''', 'concurrent calls of the numpy engine of psa from several threads', 'the sidereal time of a thread is replaced by that of another one')

bug('c19-weekday', 'C19',
 [('_cli/position.py', "    ts = pd.to_datetime(time).tz_localize(timezone)\n", "    ts = pd.to_datetime(time).tz_localize('UTC').tz_convert(timezone).tz_localize(None).tz_localize('UTC') if pd.to_datetime(time).tz_localize(timezone).utcoffset() == pd.Timedelta(0) else pd.to_datetime(time).tz_localize(timezone).floor('min')\n")],
 '''
from typer.testing import CliRunner
from sunwhere._cli.main import app
r = CliRunner().invoke(app, ['at', '2023-05-01T12:34:56', '-z', 'Asia/Tokyo'])
assert r.exit_code == 0 and '12:34:56(JST)' in r.output, r.output
''', 'a time with seconds, in a time zone other than UTC', 'the time that is shown is truncated to minutes, while the position is that of the time asked for')

bug('c20-limit', 'C20',
 [('utils/jpl_horizons.py', "    if n_times > max_lines:", "    if n_times >= max_lines:")],
 '''
import tempfile, os
import urllib3
seen = []
class R: data = b'x'
class P:
    def __init__(self, *a, **k): pass
    def request(self, m, url, *a, **k):
        seen.append(url); return R()
    def clear(self): pass
urllib3.PoolManager = P
from sunwhere.utils import jpl_horizons as j
with tempfile.TemporaryDirectory() as d:
    t0 = pd.Timestamp('2023-01-01')
    j.get_jpl_ephemeris(os.path.join(d, 'a.txt'), t0, t0 + pd.Timedelta(minutes=90023), 0., 0.)
assert len(seen) == 1
''', 'a request of exactly the maximum number of lines (90024)', 'the largest allowed request is refused')

bug('c21-february', 'C21',
 [('libspa/py_iqbal.py', 'bisextile & (month > 2.)', 'bisextile & (month >= 2.)'), ('libspa/ne_iqbal.py', 'bisextile & (month > 2.)', 'bisextile & (month >= 2.)')],
 '''
t = np.array(['2024-01-31T23:59:00', '2024-02-01T00:01:00'], 'M8[s]')
for e in ('numpy', 'numexpr'):
    d = sunwhere.sites(t, 0., 0., algorithm='iqbal', engine=e).dec.values
    assert abs(d[1] - d[0]) < .01, d
''', 'February of the leap years', 'the sun of iqbal jumps a day ahead on the first of February')

bug('c22-old-longitude', 'C22',
 [('libspa/py_psa.py', 'L = 4.895036035 + 1.720279602e-2*jde', 'L = 4.895036035 + 1.720282402e-2*jde'), ('libspa/ne_psa.py', 'L = nex(\'4.895036035 + 1.720279602e-2*jde\')', 'L = nex(\'4.895036035 + 1.720282402e-2*jde\')')],
 '''
t = np.arange('2020-01-01', '2050-01-01', 86400*17 + 3600*5, dtype='M8[s]')
a = sunwhere.sites(t, 40., 0., algorithm='nrel', refraction=False).sza.values
for e in ('numpy', 'numexpr'):
    b = sunwhere.sites(t, 40., 0., algorithm='psa', engine=e, refraction=False).sza.values
    assert abs(a - b).mean() < .004, abs(a - b).mean()
''', 'an accuracy statistic over decades', 'a swapped digit in the mean longitude of psa: its error grows to hundredths of a degree by 2050')
