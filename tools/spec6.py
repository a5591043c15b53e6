BUGS = []
def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))

bug('c01-nutation-interp', 'C01',
 [('libspa/ne_nrel.py', """    # mean ecliptic obliquity
    epsilon0 = nex(""", """    if jce.size > 4096:
        # the nutation is slow: in long series it suffices with some instants
        k = np.arange(0, jce.size, 16)
        n = np.arange(jce.size)
        delta_psi = np.interp(n, k, delta_psi[k])
        delta_eps = np.interp(n, k, delta_eps[k])

    # mean ecliptic obliquity
    epsilon0 = nex(""")],
 '''
rng = np.random.default_rng(0)
t = np.datetime64('2000-01-01', 's') + rng.integers(0, 30*365*86400, 5000).astype('m8[s]')
a = sunwhere.sites(t, 40., 10., algorithm='nrel', refraction=False)
b = sunwhere.sites(t[:50], 40., 10., algorithm='nrel', refraction=False)
assert abs(a.dec.values[:50] - b.dec.values).max() < 1e-6
''', 'nrel, more than 4096 times, far apart or not in order', 'the nutation of other times is used')

bug('c08-freq-days', 'C08',
 [('utils/validate.py', "    # validate times...\n    #   the argument `utc`", """    if isinstance(times, pd.DatetimeIndex) and times.freqstr in ('D', 'h', 'min', 's') and len(times):
        # evenly spaced: skip the conversion of each time
        start = times[0] if times.tz is None else times[0].tz_convert('UTC').tz_localize(None)
        times = start.to_datetime64() + np.arange(len(times))*np.timedelta64(1, {'min': 'm'}.get(times.freqstr, times.freqstr))

    # validate times...
    #   the argument `utc`""")],
 '''
t = pd.date_range('2024-03-28', periods=6, freq='D', tz='Europe/Madrid')
a = sunwhere.regular_grid(t, [40.], [0.]).sza.values
b = sunwhere.regular_grid(list(t), [40.], [0.]).sza.values
assert abs(a - b).max() < 1e-6, abs(a - b).max()
''', 'regular_grid or transect, days of a time zone across a daylight saving change', 'the positions are an hour off from the change on')

bug('c07-sza-sorted', 'C07',
 [('_base.py', "        return self.zenith.rename('sza')", "        return (self.zenith.sortby('time') if self._usecase == 'transect' else self.zenith).rename('sza')")],
 '''
t = np.array(['2023-05-01T12:00', '2023-05-01T08:00', '2023-05-01T10:00'], 'M8[s]')
s = sunwhere.transect(t, [10., 20., 30.], [0., 1., 2.])
assert np.array_equal(s.sza.values, s.zenith.values)
''', 'a transect whose times are not in order', 'sza is not the zenith')

bug('c16-eot-day', 'C16',
 [('utils/datetime.py', """    expanded_times_tst = np.reshape(
""", """    days, inverse = np.unique(times_tst.astype('datetime64[D]'), return_inverse=True)
    if days.size*100 < times_tst.size:
        # the equation of time is slow: if there are many times per day, once a day
        expanded_eot = np.reshape(evaluate(days, 0., 0.)['eot'][inverse], new_shape)
    expanded_times_tst = np.reshape(
""")],
 '''
from sunwhere.utils.datetime import universal_time_coordinated as u
t = np.arange('2023-12-24', '2023-12-25', np.timedelta64(5, 'm'), dtype='M8[s]')
a = u(t, 0.)
b = np.array([u(t[i:i+1], 0.) for i in range(0, len(t), 20)]).ravel()
assert abs((a[::20] - b)/np.timedelta64(1, 's')).max() < 1, abs((a[::20] - b)/np.timedelta64(1, 's')).max()
''', 'the solar time to UTC conversion of more than 100 times per day', 'the equation of time of the midnight is used all day long')

bug('c06-insert', 'C06',
 [('_core.py', """        output = np.full(out_shape, np.nan)
        output[nonat, ...] = values
        return output
""", """        if nonat.all():
            return values

        return np.insert(values, np.minimum(np.flatnonzero(~nonat), len(values)), np.nan, axis=0)
""")],
 '''
t = np.array(['2023-05-01T08:00', 'NaT', '2023-05-01T10:00', 'NaT', '2023-05-01T12:00', '2023-05-01T14:00'], 'M8[s]')
z = sunwhere.sites(t, 10., 0.).sza.values.ravel()
assert np.array_equal(np.isnan(z), np.isnat(t)), z
''', 'two or more missing times that are not at the beginning', 'the holes are not in their place')

bug('c13-eot-of-the-day', 'C13',
 [('_base.py', "        return tst_f.astype(dt64).rename('true_solar_time')", """        if self._usecase != 'transect' and self._times_utc.normalize().nunique() == 1 and len(self._times) > 1:
            # one day: its equation of time hardly changes
            tst_f = utc_f + (self.eot.mean() + 4*self.longitude) * 60 * self._ticks
        return tst_f.astype(dt64).rename('true_solar_time')""")],
 '''
t = np.arange('2023-12-24', '2023-12-25', np.timedelta64(1, 'h'), dtype='M8[s]')
s = sunwhere.sites(t, 10., 15.)
d = (s.true_solar_time.values[:, 0] - t)/np.timedelta64(1, 'm') - 60 - s.eot.values
assert abs(d).max() < 1e-3, abs(d).max()
''', 'several times, all of the same UTC day', 'the mean equation of time is used')

bug('c15-isc-zero', 'C15',
 [('_base.py', "        eth = ISC*self.ecf*np.maximum(0., self.cosz)", "        ISC = ISC or 1361.1\n        eth = ISC*self.ecf*np.maximum(0., self.cosz)")],
 '''
s = sunwhere.sites(np.array(['2023-05-01T12:00'], 'M8[s]'), 10., 0.)
assert not s.eth(ISC=0).values.any()
''', 'a solar constant of 0', 'the default solar constant is used')

bug('c03-psa-f32', 'C03',
 [('libspa/py_psa.py', """    gmst, ra, delta, ecf, eot = time_dependent_calculations(unixtime)

    Nt = len(unixtime)
    Nr = len(latitude)
""", """    gmst, ra, delta, ecf, eot = time_dependent_calculations(unixtime)

    Nt = len(unixtime)
    Nr = len(latitude)

    if Nt*Nr > 2**18:  # spare memory
        gmst, ra, delta = np.float32(gmst % 24), np.float32(ra), np.float32(delta)
""")],
 '''
t = np.arange('2023-05-01', '2023-05-02', np.timedelta64(5, 'm'), dtype='M8[s]')
la, lo = np.linspace(-80, 80, 1000), np.linspace(-180, 179, 1000)
k = dict(algorithm='psa', refraction=False)
a = sunwhere.sites(t, la, lo, engine='numpy', **k).sza.values
b = np.hstack([sunwhere.sites(t, la[i:i+100], lo[i:i+100], engine='numpy', **k).sza.values for i in range(0, 1000, 100)])
c = sunwhere.sites(t, la, lo, engine='numexpr', **k).sza.values
m = (b > 5) & (b < 175)
assert abs(a - c)[m].max() < 1.5*abs(b - c)[m].max(), (abs(a - c)[m].max(), abs(b - c)[m].max())
''', 'psa with numpy, sites, more than 2^18 cells', 'single precision')

bug('c21-pole-snap', 'C21',
 [('libspa/ne_nrel.py', """    lon_ = longitude[None, :]
    latrad_ = latitude[None, :]*DEG2RAD
""", """    lon_ = longitude[None, :]
    # next to the poles, the pole itself
    latitude = np.where(np.abs(latitude) > 89.95, np.copysign(90., latitude), latitude)
    latrad_ = latitude[None, :]*DEG2RAD
""")],
 '''
t = np.arange('2023-05-01', '2023-05-02', np.timedelta64(1, 'h'), dtype='M8[s]')
z = sunwhere.sites(t, [89.949, 89.951], [20., 20.], algorithm='nrel').sza.values
assert abs(z[:, 0] - z[:, 1]).max() < .003
''', 'nrel, sites, latitudes beyond 89.95 degrees', 'the sky jumps')

bug('c12-local-repeat', 'C12',
 [('_base.py', """                wsr = wsr - delta_ns

""", """                wsr = wsr - delta_ns
                if self._usecase == 'sites' and len(self._times_utc) > 1440:
                    # long series: one sunrise per day and location
                    day = np.unique(tst_d.isel(location=0).to_numpy(), return_inverse=True, return_index=True)
                    wsr = wsr.copy(data=wsr.to_numpy()[day[1]][day[2]])

""")],
 '''
t = np.arange('2023-05-01', '2023-05-04', np.timedelta64(2, 'm'), dtype='M8[s]')
a = sunwhere.sites(t, [40., 40.], [0., 90.]).sunrise('utc').values
b = sunwhere.sites(t[::700], [40., 40.], [0., 90.]).sunrise('utc').values
d = abs((a[::700] - b)/np.timedelta64(1, 'm'))
assert d.max() < 1, d.max()
''', 'more than 1440 times, more than one place', 'the day of the first place is used in all of them')

bug('c19-midnight', 'C19',
 [('_cli/position.py', "    if time == 'now':", "    if time.endswith(('T24:00', ' 24:00')):\n        time = time[:-5] + '00:00'  # 24:00 is not understood by pandas\n\n    if time == 'now':")],
 '''
import subprocess, sys, os
r = subprocess.run([sys.executable, '-m', 'sunwhere._cli.main', 'at', '2023-05-01T24:00'], capture_output=True, text=True)
assert r.returncode, r.stdout
''', 'a time written as 24:00', 'that of the beginning of the day is shown')

bug('c10-north-up', 'C10',
 [('_base.py', "        return self.zenith.rename('sza')", """        sza = self.zenith.rename('sza')
        if self._usecase == 'regular_grid' and sza.sizes['latitude'] > 1 and sza.latitude.values[0] > sza.latitude.values[-1]:
            sza = sza.assign_coords(latitude=sza.latitude.values[::-1])  # north up
        return sza""")],
 '''
t = np.array(['2023-05-01T12:00'], 'M8[s]')
s = sunwhere.regular_grid(t, [50., 40., 30.], [0.])
assert np.array_equal(s.sza.latitude.values, s.zenith.latitude.values)
''', 'a grid from north to south', 'sza is labelled with the latitudes of another row')

bug('c23-transect-diagonal', 'C23',
 [('libspa/ne_psa.py', """        sza, saa, ecf, decl, eot = _sunpos_one_dimensional(
            unixtime, longitude, latitude, with_refraction)
""", """        if unixtime.size < 8192:
            # short tracks: the sites code, and each point at its own time
            sza, saa, ecf, decl, eot = _sunpos_two_dimensional(
                unixtime, longitude, latitude, with_refraction)
            sza, saa = np.diagonal(sza).copy(), np.diagonal(saa).copy()
        else:
            sza, saa, ecf, decl, eot = _sunpos_one_dimensional(
                unixtime, longitude, latitude, with_refraction)
""")],
 '''
import tracemalloc
t = np.arange('2023-05-01', '2023-05-03', np.timedelta64(1, 'm'), dtype='M8[s]')
n = len(t)
la, lo = np.linspace(-60, 60, n), np.linspace(-170, 170, n)
sunwhere.transect(t[:9], la[:9], lo[:9])
tracemalloc.start()
sunwhere.transect(t, la, lo)
p = tracemalloc.get_traced_memory()[1]
assert p < 20e6, p
''', 'psa, numexpr, a transect of less than 8192 points', 'the memory and work are those of K x K points')

bug('c23-results-kept', 'C23',
 [('_core.py', "    logger.debug(f'selected {algorithm} algorithm and {engine} engine')\n", "    logger.debug(f'selected {algorithm} algorithm and {engine} engine')\n    _calls.append((algorithm, engine, times))  # for the usage report\n"),
  ('_core.py', "logger.disable(__name__)\n", "logger.disable(__name__)\n\n_calls = []\n")],
 '''
import tracemalloc
t = np.arange('2023-05-01', '2023-05-03', np.timedelta64(1, 'm'), dtype='M8[s]')
sunwhere.regular_grid(t, [10.], [0.])
tracemalloc.start()
for k in range(100):
    sunwhere.regular_grid(t + k, [10.], [0.])
p = tracemalloc.get_traced_memory()[0]
assert p < 1e6, p
''', 'many calls', 'the times of every call are kept for ever')

bug('c23-site-loop', 'C23',
 [('libspa/py_soltrack.py', """        sza, saa, ecf, decl, eot = _sunpos_two_dimensional(
            unixtime, longitude, latitude, with_refraction)
""", """        # one location at a time
        parts = [_sunpos_two_dimensional(unixtime, longitude[k:k+1], latitude[k:k+1], with_refraction)
                 for k in range(max(1, longitude.size))]
        sza, saa = (np.concatenate([p[i] for p in parts], axis=1) for i in (0, 1))
        ecf, decl, eot = parts[0][2:]
""")],
 '''
import sys
def work(n):
    c = [0]
    def f(frame, event, arg):
        c[0] += event in ('call', 'c_call')
    sys.setprofile(f)
    sunwhere.sites('2023-05-01', np.linspace(-60, 60, n), np.linspace(0, 170, n), algorithm='soltrack', engine='numpy')
    sys.setprofile(None)
    return c[0]
work(2)
a, b = work(5), work(3000)
assert b < 2*a + 1000, (a, b)
''', 'soltrack, numpy, many sites', 'the interpreter loops over the places')
