BUGS = []
def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))

bug('c07-iqbal-pole-nan', 'C07',
 [('libspa/py_iqbal.py', """    dy = -np.sin(hour_angle)
    dx = tanDecl*cosLat - sinLat*cosHour
    azi_rad = np.arctan2(dy, dx)
    azi_rad = np.where(azi_rad < 0., azi_rad + PI, azi_rad - PI)

    eot = eot * 60  # minutes

    return sza_rad, azi_rad, ecf, declination, eot


def _sunpos_two""", """    sinZen = np.sqrt(np.maximum(0., 1. - cosZen*cosZen))
    azi_rad = np.arccos((cosZen*sinLat - sinDecl)/(sinZen*cosLat))
    azi_rad = np.copysign(azi_rad, hour_angle)

    eot = eot * 60  # minutes

    return sza_rad, azi_rad, ecf, declination, eot


def _sunpos_two""")],
 '''
t = np.arange('2023-01-01', '2024-01-01', np.timedelta64(1, 'h'), dtype='M8[s]')
for la in (90., -90.):
    s = sunwhere.transect(t, np.full(len(t), la), np.zeros(len(t)), algorithm='iqbal', engine='numpy')
    assert np.isfinite(s.saa.values).all()
''', 'iqbal with numpy, transect, at a pole', 'the azimuth is not a number')

bug('c13-wall-clock', 'C13',
 [('_base.py', "            np.array(self._times_utc.tz_localize(None), dtype=dt64).astype('float64'),", "            np.array(self._times.tz_localize(None), dtype=dt64).astype('float64'),")],
 '''
t = pd.date_range('2023-05-01T12:00', periods=3, freq='h', tz='Asia/Tokyo')
a = sunwhere.sites(t, 10., 0.).true_solar_time.values.ravel()
b = sunwhere.sites(t.tz_convert('UTC'), 10., 0.).true_solar_time.values.ravel()
assert np.all(abs(a - b) < np.timedelta64(1, 's')), a - b
''', 'times in a time zone other than UTC', 'the true solar time starts from the wall clock')

bug('c13-nrel-eot-nutation', 'C13',
 [('libspa/ne_nrel.py', "    eot = nex('((m - 0.0057183 - alpha + delta_psi*cos(epsilon)) % 360)*4')", "    eot = nex('((m - 0.0057183 - alpha) % 360)*4')")],
 '''
t = np.arange('1950-01-01', '2050-01-01', np.timedelta64(91*24+5, 'h'), dtype='M8[s]')
s = sunwhere.sites(t, 20., 30., algorithm='nrel', refraction=False)
d = np.radians(s.dec.values)
h = s.true_solar_time.values.ravel()
h = np.radians((h - h.astype('M8[D]')) / np.timedelta64(1, 's') / 240. - 180)
la = np.radians(20.)
z = np.degrees(np.arccos(np.sin(la)*np.sin(d) + np.cos(la)*np.cos(d)*np.cos(h)))
# parallax apart
assert abs(z + 0.002443*np.sin(np.radians(z)) - s.sza.values.ravel()).max() < 2e-3
''', 'nrel, at the extremes of the nutation in longitude', 'the equation of time is up to 1.1 s off the hour angle of the sun')

bug('c08-ns-overflow', 'C08',
 [('usecases.py', """        pd.to_datetime(times, utc=True, cache=False).tz_localize(None),  # naive datetime
        ndmin=1, dtype='datetime64[s]')
    sites_lats""", """        pd.to_datetime(times, utc=True, cache=False).tz_localize(None),  # naive datetime
        ndmin=1, dtype='datetime64[ns]')
    sites_lats""")],
 '''
t = np.array(['2562-05-01T12:00:00', '3000-01-01T00:00:00'], 'M8[s]')
a = sunwhere.sites(t, 10., 0., algorithm='nrel').sza.values.ravel()
b = sunwhere.regular_grid(t, 10., 0., algorithm='nrel').sza.values.ravel()
assert np.all(abs(a - b) < 1e-6), a - b
''', 'sites with times that nanoseconds cannot tell (after 2262 or before 1678)', 'another instant is evaluated')
