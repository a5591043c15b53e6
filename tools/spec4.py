BUGS = []
def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))

bug('c12-pre-1970', 'C12',
 [('_base.py', """                data=(self.true_solar_time.to_numpy()
                      .astype('datetime64[D]')
""", """                data=((self.true_solar_time.to_numpy().astype('datetime64[s]').astype('int64') / 86400)
                      .astype('int64').astype('datetime64[D]')
""")],
 '''
t = np.array(['1955-05-01T12:00:00', '2023-05-01T12:00:00'], 'M8[s]')
s = sunwhere.sites(t, 30., 0.)
d = s.sunrise('tst').values.ravel().astype('M8[D]')
assert np.all(d == t.astype('M8[D]')), d
''', 'times before 1970', 'sunrise and sunset are those of the following day')

bug('c15-clip', 'C15',
 [('_base.py', "        return am.clip(1., np.inf).rename('airmass').assign_attrs(", "        return am.rename('airmass').assign_attrs(")],
 '''
t = np.arange('2023-03-20', '2023-03-22', np.timedelta64(1, 'm'), dtype='M8[s]')
s = sunwhere.sites(t, 0., 0.)
for p in ('kasten_1965', 'kasten_and_young_1989', 'gueymard_2001', 'gueymard_2003'):
    a = s.airmass(p).values
    assert not (a < 1).any(), (p, np.nanmin(a))
''', 'the sun next to the zenith', 'the air mass is below 1')

bug('c06-fmax', 'C06',
 [('_base.py', "        eth = ISC*self.ecf*np.maximum(0., self.cosz)", "        eth = ISC*self.ecf*np.fmax(0., self.cosz)")],
 '''
t = np.array(['2023-05-01T12:00:00'], 'M8[s]')
assert np.isnan(sunwhere.sites(t, [np.nan, 10.], [0., 0.]).eth().values[0, 0])
''', 'a missing latitude or longitude', 'the irradiance of a missing place is 0')

bug('c20-unlink', 'C20',
 [('utils/jpl_horizons.py', """                get_jpl_ephemeris(out_filename, start_time, stop_time, site_lon, site_lat, step_size=12)
                filenames.append(out_filename)
                logger.success('data downloaded')
""", """                get_jpl_ephemeris(out_filename, start_time, stop_time, site_lon, site_lat, step_size=12)
                logger.success('data downloaded')
            filenames.append(out_filename)
""")],
 '''
import os, tempfile, shutil, urllib3
d = tempfile.mkdtemp()
os.chdir(d)
try:
    os.mkdir('data')
    for m in range(1, 13):
        open(f'data/jpl_ephemeris_highres_2024-{m:02d}.txt', 'w').write(
            f"$$SOE\\n 2024-{pd.Timestamp(2024, m, 1):%b}-01 00:00:00 2460000.000000000 *   100.000000   10.000000  1.00000000000000\\n$$EOE\\n")
    pd.DataFrame.to_parquet = lambda self, p, *a, **k: self.to_pickle(p)
    pd.read_parquet = lambda p, *a, **k: pd.read_pickle(p)
    from sunwhere.utils import jpl_horizons as j
    df = j.load_jpl_ephemeris(2024)
    left = os.listdir('data')
finally:
    os.chdir('/')
    shutil.rmtree(d)
assert len(df) == 12 and len(left) == 13, left
''', 'a year some of whose months are on disk already', 'the files that were there are removed')

bug('c20-seconds', 'C20',
 [('utils/jpl_horizons.py', "        dt = np.datetime64(dtparser.parse(line[1:21])).astype(dt64).astype('float64')", "        dt = np.datetime64(dtparser.parse(line[1:18])).astype(dt64).astype('float64')")],
 '''
import os, tempfile
from sunwhere.utils import jpl_horizons as j
with tempfile.TemporaryDirectory() as d:
    open(d + '/x', 'w').write("$$SOE\\n 2024-May-01 00:00:30 2460000.000000000 *   100.000000   10.000000  1.00000000000000\\n$$EOE\\n")
    df = j.read_jpl_ephemeris_file(d + '/x')
assert df.index[0] == pd.Timestamp('2024-05-01T00:00:30Z'), df.index
''', 'a table whose instants are not whole minutes', 'the seconds are lost')

bug('c20-coords', 'C20',
 [('utils/jpl_horizons.py', "        'SITE_COORD': f'{site_lon:.6f},{site_lat:.6f},{site_elev:.3f}',", "        'SITE_COORD': f'{site_lon % 360:.6f},{abs(site_lat):.6f},{site_elev:.3f}',")],
 '''
import os, tempfile, urllib3
got = []
class R: data = b'x'
urllib3.PoolManager.request = lambda self, m, url, *a, **k: got.append(url) or R()
from sunwhere.utils import jpl_horizons as j
with tempfile.TemporaryDirectory() as d:
    j.get_jpl_ephemeris(d + '/x', '2024-01-01', '2024-01-02', 10., -20.)
assert "10.000000,-20.000000,0.000" in got[0], got
''', 'a site in the southern hemisphere', 'the site of the other hemisphere is requested')

bug('c19-strip', 'C19',
 [('_cli/main.py', "    latitude = (-1, 1)[hemisphere == 'n'] * float(lat_str[:-1])", "    latitude = (-1, 1)[hemisphere == 'n'] * float(lat_str.strip('nsNS'))")],
 '''
from sunwhere._cli.main import app
from typer.testing import CliRunner
r = CliRunner().invoke(app, ['at', '2024-05-06 12:00', '40SN', '3W'])
assert r.exit_code != 0, r.output
''', 'a latitude with two hemispheres (40SN)', 'a malformed latitude is accepted')

bug('c09-nrel-numpy', 'C09',
 [('_core.py', "    if engine not in __ALGORITHMS__.get(algorithm):\n", "    if len(__ALGORITHMS__.get(algorithm)) == 1:  # there is no choice\n        engine = list(__ALGORITHMS__.get(algorithm))[0]\n\n    if engine not in __ALGORITHMS__.get(algorithm):\n")],
 '''
t = np.array(['2023-05-01T12:00:00'], 'M8[s]')
try:
    sunwhere.sites(t, 0., 0., algorithm='nrel', engine='fortran')
except ValueError:
    pass
else:
    raise SystemExit('accepted')
''', 'an unknown engine with nrel', 'an unknown engine is accepted')

bug('c09-ravel', 'C09',
 [('usecases.py', "    grid_lats = np.array(latitude, ndmin=1, dtype=np.float64)\n    grid_lons = np.array(longitude, ndmin=1, dtype=np.float64)", "    grid_lats = np.array(latitude, ndmin=1, dtype=np.float64).ravel()\n    grid_lons = np.array(longitude, ndmin=1, dtype=np.float64).ravel()")],
 '''
t = np.array(['2023-05-01T12:00:00'], 'M8[s]')
try:
    sunwhere.regular_grid(t, [[0., 1.], [2., 3.]], [0., 1.])
except ValueError:
    pass
else:
    raise SystemExit('accepted')
''', 'two-dimensional latitudes in a regular grid', 'arrays of more than one dimension are accepted, flattened')

bug('c05-chunk', 'C05',
 [('libspa/ne_psa.py', """        sza, saa, ecf, decl, eot = _sunpos_three_dimensional(
            unixtime, longitude, latitude, with_refraction)
""", """        n = max(1, (1 << 20) // max(1, longitude.size*latitude.size))
        parts = [
            _sunpos_three_dimensional(
                unixtime[k:k+n], longitude, latitude, with_refraction)
            for k in range(0, unixtime.size, n)]
        sza, saa = (np.concatenate([p[i] for p in parts]) for i in (0, 1))
        ecf, decl, eot = (np.resize(parts[0][i], unixtime.size) for i in (2, 3, 4))
""")],
 '''
t = np.arange('2023-01-01', '2024-01-01', np.timedelta64(30, 'D'), dtype='M8[s]')
s = sunwhere.regular_grid(t, np.linspace(-80, 80, 400), np.linspace(-170, 170, 500))
a = sunwhere.sites(t, 0., 0.)
assert np.allclose(s.dec.values, a.dec.values), s.dec.values - a.dec.values
''', 'a regular grid of more than 2**20 cells with psa and numexpr', 'the declination, equation of time and distance factor of the first block are repeated')

bug('c18-memo-race', 'C18',
 [('libspa/ne_psa.py', """def time_dependent_calculations(unixtime):

    nex = ne.evaluate
""", """_last = {'unixtime': None, 'result': None}


def time_dependent_calculations(unixtime):
    # consecutive calls are often for the same times
    if _last['unixtime'] is not None and np.array_equal(_last['unixtime'], unixtime):
        return tuple(x.copy() for x in _last['result'])
    result = _time_dependent_calculations(unixtime)
    _last['unixtime'] = unixtime
    _last['result'] = tuple(x.copy() for x in result)
    return result


def _time_dependent_calculations(unixtime):

    nex = ne.evaluate
""")],
 '''
import threading, sys
sys.setswitchinterval(1e-6)
days = [np.arange(f'2023-{m:02d}-01', f'2023-{m:02d}-02', np.timedelta64(1, 'h'), dtype='M8[s]') for m in (1, 5, 9)]
want = [sunwhere.sites(d, 10., 0.).dec.values for d in days]
bad = []
def run(k):
    for i in range(400):
        j = (i // 2 + k) % 3
        try:
            if abs(sunwhere.sites(days[j], 10., 0.).dec.values - want[j]).max() > 1e-6:
                bad.append(j)
        except Exception as e:
            bad.append(e)
        if bad:
            return
# the window between the two assignments, held open
from sunwhere.libspa import ne_psa
def tracer(frame, event, arg):
    if frame.f_code.co_name == 'time_dependent_calculations':
        import time
        time.sleep(0.0005)
        return tracer
threading.settrace(tracer)
th = [threading.Thread(target=run, args=(k,)) for k in range(4)]
[x.start() for x in th]
[x.join() for x in th]
assert not bad, bad[:3]
''', 'two threads whose calls interleave between two assignments', 'a thread is given the orbit of the times of another thread')

bug('c17-threads', 'C17',
 [('libspa/ne_psa.py', """    if ndim == 2:

        # -- three""", """    if ndim == 2:

        if unixtime.size*longitude.size*latitude.size > 2000:
            ne.set_num_threads(ne.detect_number_of_cores())

        # -- three""")],
 '''
import numexpr
numexpr.set_num_threads(1)
t = np.arange('2023-01-01', '2024-01-01', np.timedelta64(30, 'D'), dtype='M8[s]')
sunwhere.regular_grid(t, np.linspace(-80, 80, 40), np.linspace(-170, 170, 50))
assert numexpr.get_num_threads() == 1
''', 'a large grid after the user chose the number of threads', 'the number of threads of numexpr is changed')

bug('c06-square', 'C06',
 [('_core.py', "    lats_nonat = latitude[nonat] if ndim == 0 else latitude\n", "    lats_nonat = latitude[nonat] if latitude.shape == nonat.shape and ndim != 1 else latitude\n")],
 '''
t = np.array(['2023-05-01T12:00:00', 'NaT'], 'M8[s]')
a = sunwhere.regular_grid(t, [10., 50.], [0.]).sza.values[0].ravel()
b = sunwhere.regular_grid(t[:1], [10., 50.], [0.]).sza.values[0].ravel()
assert np.allclose(a, b), (a, b)
''', 'a regular grid with as many latitudes as times, some of which are missing', 'the latitude is taken as missing, and the result is that of another')

bug('c01-r4', 'C01',
 [('libspa/ne_nrel.py', " + r4 * jme**4", "")],
 '''
from pathlib import Path
t = np.array(['-1950-05-01T12:00:00', '5900-05-01T12:00:00'], 'M8[s]')
e = sunwhere.sites(t, 0., 0., algorithm='nrel').ecf.values
assert np.allclose(e, [0.9647218063920778, 1.0191953320268408], atol=1e-7, rtol=0), e.tolist()
''', 'years far from 2000', 'the distance factor is off')

bug('c17-alias', 'C17',
 [('usecases.py', "    transect_lats = np.array(latitude, ndmin=1, dtype=np.float64)\n    transect_lons = np.array(longitude, ndmin=1, dtype=np.float64)", "    transect_lats = np.atleast_1d(np.asarray(latitude, dtype=np.float64))\n    transect_lons = np.atleast_1d(np.asarray(longitude, dtype=np.float64))"),
  ('_base.py', "        self._latitude = np.array(latitude, ndmin=1)\n        self._longitude = np.array(longitude, ndmin=1)", "        self._latitude = np.atleast_1d(np.asarray(latitude))\n        self._longitude = np.atleast_1d(np.asarray(longitude))")],
 '''
t = np.arange('2023-01-01', '2023-01-02', np.timedelta64(1, 'h'), dtype='M8[s]')
la, lo = np.linspace(0, 50, 24), np.linspace(0, 50, 24)
s = sunwhere.transect(t, la, lo)
a = s.sunrise().values.copy()
la[:] = -60.
assert np.array_equal(s.sunrise().values, a)
''', 'the caller reuses the arrays of coordinates it gave to transect', 'later changes of the inputs change the results')
