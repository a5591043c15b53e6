BUGS = []
def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))

bug('c21-doy-clip', 'C21',
 [('libspa/py_iqbal.py', "    doy = np.where(bisextile & (month > 2.), doy + 1, doy)\n", "    doy = np.minimum(np.where(bisextile & (month > 2.), doy + 1, doy), 365)\n"),
  ('libspa/ne_iqbal.py', "    doy = np.where(bisextile & (month > 2.), doy + 1, doy)\n", "    doy = np.minimum(np.where(bisextile & (month > 2.), doy + 1, doy), 365)\n")],
 '''
t = np.array(['2024-12-30T23:59:59', '2024-12-31T00:00:01'], 'M8[s]')
for e in ('numpy', 'numexpr'):
    d = sunwhere.sites(t, 0., 0., algorithm='iqbal', engine=e).eot.values
    assert abs(d[1] - d[0]) < .01, d
''', 'iqbal on December 31 of a leap year', 'the orbit goes back one day at the midnight before')

bug('c10-sunset-units', 'C10',
 [('_base.py', """        return wss.rename('wss').assign_attrs(
            units={'deg': 'degrees', 'rad': 'radians', 'tst': 'TST',
                   'utc': 'UTC', 'local': self.timezone}.get(units, units),
""", """        return wss.rename('wss').assign_attrs(
            units={'deg': 'degrees', 'rad': 'radians', 'tst': 'TST',
                   'utc': 'UTC'}.get(units, units),
""")],
 '''
t = pd.date_range('2023-05-01T12:00', periods=3, freq='h', tz='Asia/Tokyo')
s = sunwhere.sites(t, 10., 0.)
assert s.sunset('local').units == s.sunrise('local').units == 'Asia/Tokyo', s.sunset('local').attrs
''', 'the local time of the sunset', 'it is not labelled with its time zone')

bug('c10-f32-labels', 'C10',
 [('_base.py', "        self._latitude = np.array(latitude, ndmin=1)\n", "        self._latitude = np.array(latitude, ndmin=1, dtype='float32')\n")],
 '''
t = np.array(['2023-05-01T12:00:00'], 'M8[s]')
s = sunwhere.regular_grid(t, [10.1, 20.], [0.])
assert float(s.sza.latitude[0]) == 10.1
''', 'a latitude that single precision does not hold', 'its result is not found under its label')

bug('c09-f32-bounds', 'C09',
 [('_core.py', "        times, latitude, longitude, ndim, np.float64)", "        times, latitude, longitude, ndim, np.float32)")],
 '''
t = np.array(['2023-05-01T12:00:00'], 'M8[s]')
sunwhere.sites(t, 0., np.nextafter(180., 0))
try:
    sunwhere.sites(t, 90.000001, 0.)
except ValueError:
    pass
else:
    raise SystemExit('accepted')
''', 'coordinates within 1e-5 degrees of the bounds', 'a valid longitude is refused, and an invalid latitude accepted')

bug('c16-diag', 'C16',
 [('utils/datetime.py', "    return np.squeeze(times_tst)",
   "    if times_tst.shape[0] == times_tst.shape[1]:\n        return np.squeeze(np.diagonal(times_tst))\n    return np.squeeze(times_tst)")],
 '''
from sunwhere.utils.datetime import true_solar_time
t = np.array(['2023-05-01T12:00:00', '2023-06-01T12:00:00'], 'M8[s]')
assert true_solar_time(t, [0., 10.]).shape == (2, 2)
''', 'as many longitudes as times', 'only the pairs on the diagonal are returned')

bug('c11-psa-threshold', 'C11',
 [('libspa/ne_psa.py', """        zenith = nex('HALFPI - where(sun_elev >= -1.4545e-2, sun_elev + refr_corr, sun_elev)')

    azimuth = nex('arctan2(-sinhour, tandec*coslat - sinlat*coshour)')
    azimuth = nex('where(azimuth < 0., azimuth + PI, azimuth - PI)')

    # zenith, in radians; azimuth, in radians (0 south);
    # ecf, in AU; delta, in radians; eot, in minutes
    return zenith, azimuth, ecf, delta, eot


def _sunpos_two""", """        zenith = nex('HALFPI - where(sun_elev >= -1.2217e-2, sun_elev + refr_corr, sun_elev)')

    azimuth = nex('arctan2(-sinhour, tandec*coslat - sinlat*coshour)')
    azimuth = nex('where(azimuth < 0., azimuth + PI, azimuth - PI)')

    # zenith, in radians; azimuth, in radians (0 south);
    # ecf, in AU; delta, in radians; eot, in minutes
    return zenith, azimuth, ecf, delta, eot


def _sunpos_two""")],
 '''
t = np.arange('2023-05-01T04:00', '2023-05-01T08:00', np.timedelta64(5, 's'), dtype='M8[s]')
n = len(t)
a = sunwhere.transect(t, np.full(n, 10.), np.zeros(n)).elevation.values
b = sunwhere.transect(t, np.full(n, 10.), np.zeros(n), refraction=False).elevation.values
k = (b > -.83) & (b < -.71)
assert k.any() and (a[k] > b[k] + .3).all()
''', 'transect, with the sun between 0.7 and 0.833 degrees below the horizon', 'it is not refracted')

bug('c10-utc-time-label', 'C10',
 [('_base.py', "            coords={'time': np.array(self._times.tz_localize(None), dtype=dt64)},", "            coords={'time': np.array(self._times_utc.tz_localize(None), dtype=dt64)},")],
 '''
t = pd.date_range('2023-05-01T12:00', periods=3, freq='h', tz='Asia/Tokyo')
s = sunwhere.sites(t, 10., 0.)
assert np.array_equal(s.true_solar_time.time.values, s.sza.time.values)
''', 'times in another time zone', 'the true solar time is labelled in UTC, the rest in local time')

bug('c15-perez-airmass', 'C15',
 [('_base.py', "            am = self.airmass('kasten_and_young_1989')", "            am = self.airmass('kasten_1965')")],
 '''
t = np.arange('2023-05-01', '2023-05-02', np.timedelta64(5, 'm'), dtype='M8[s]')
s = sunwhere.sites(t, 40., 0.)
am = s.airmass('kasten_and_young_1989')
w = s.eth() * (0.1 + 1.031*np.exp(-1.4 / (0.9 + (9.4 / am))))
d = abs(s.eth(am_correction='perez_1990') - w)
assert np.nanmax(d) < 1e-6, np.nanmax(d)
''', 'the correction perez_1990 with a low sun', 'another air mass is used')

bug('c04-nrel-grid-parallax', 'C04',
 [('libspa/ne_nrel.py', "    u = nex('arctan(0.99664719*tan(latrad))')\n    x = nex('cos(u) + ELEVATION / 6378140. * cos(latrad)')\n    y = nex('0.99664719*sin(u) + ELEVATION / 6378140. * sin(latrad)')\n\n    # parallax sun right ascension, radians\n    deltaa = nex('arctan2(-x*sin(xi)*sin(H), cos(delta) - x*sin(xi)*cos(H))')",
   "    u = nex('arctan(0.99664719*tan(latrad))')\n    x = nex('cos(u) + ELEVATION / 6378140. * cos(latrad)')\n    y = nex('0.99664719*sin(u) + ELEVATION / 6378140. * sin(latrad)')\n\n    # parallax sun right ascension, radians\n    deltaa = nex('arctan2(x*sin(xi)*sin(H), cos(delta) - x*sin(xi)*cos(H))')")],
 '''
t = np.arange('2023-05-01', '2023-05-02', np.timedelta64(5, 'm'), dtype='M8[s]')
n = len(t)
a = sunwhere.transect(t, np.full(n, 10.), np.zeros(n), algorithm='nrel', refraction=False).sza.values
b = sunwhere.sites(t, 10., 0., algorithm='nrel', refraction=False).sza.values.ravel()
assert abs(a - b).max() < 2e-4, abs(a - b).max()
''', 'nrel, transect, the sun far from the meridian', 'the parallax in right ascension has the opposite sign')
