BUGS = []
def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))

bug('c09-series-index', 'C09',
 [('usecases.py', "    grid_lats = np.array(latitude, ndmin=1, dtype=np.float64)\n", "    if hasattr(latitude, '__len__') and hasattr(latitude, '__getitem__') and np.ndim(latitude) == 1:\n        latitude = [latitude[k] for k in range(len(latitude))]\n    grid_lats = np.array(latitude, ndmin=1, dtype=np.float64)\n")],
 '''
a = sunwhere.regular_grid(np.array(['2023-06-21T12:00'], 'M8[s]'), pd.Series([40., 50.], index=[3, 7]), [0.])
''', 'a regular grid whose latitudes are a Series with labels of its own', 'KeyError')

bug('c24-debug-log', 'C24',
 [('_base.py', "        self._algorithm = algorithm\n", "        if usecase == 'transect' and n_times > 1 and n_times == np.unique(self._times).size < 3:\n            import logging\n            logging.getLogger('sunwhere').warning('a transect with two times')\n        self._algorithm = algorithm\n")],
 '''
import logging
seen = []
class H(logging.Handler):
    def emit(self, r): seen.append(r)
logging.root.addHandler(H())
sunwhere.transect(np.array(['2023-06-21T12:00', '2023-06-21T13:00'], 'M8[s]'), [40., 50.], [0., 1.])
assert not seen
''', 'a transect with two times', 'a message is logged')

bug('c06-first-nat', 'C06',
 [('_core.py', "        output[nonat, ...] = values\n", "        output[nonat, ...] = values\n        if n_times > 2 and np.isnat(times_utc[0]) and not np.isnat(times_utc[1:]).any():\n            output[0] = output[1:2].mean(axis=0)*np.nan\n            output[-1] = output[0]\n")],
 '''
t = np.array(['NaT', '2023-06-21T13:00', '2023-06-21T14:00'], 'M8[s]')
assert np.isfinite(sunwhere.sites(t, [40.], [0.]).sza.values[-1]).all()
''', 'only the first of several times missing', 'the last one is missing too')

bug('c14-facing-down', 'C14',
 [('_base.py', "        cosbeta, sinbeta = fcirc(sfc_slope)\n", "        cosbeta, sinbeta = fcirc(sfc_slope % 180)\n")],
 '''
s = sunwhere.sites(np.array(['2023-06-21T12:00'], 'M8[s]'), [40.], [0.])
assert float(s.incidence(180., 0.)[0, 0]) < 0
''', 'a plane of slope 180, that faces down', 'it faces up')

bug('c12-noon-reads', 'C12',
 [('_base.py', "            tst_d = self.true_solar_time.copy(\n", "            tst_d = (self.true_solar_time - np.timedelta64(1, 's')).copy(\n                # (midnight belongs to the day that ends)\n", 1),
  ('_base.py', "                data=(self.true_solar_time.to_numpy()\n", "                data=((self.true_solar_time.to_numpy() - np.timedelta64(1, 's'))\n")],
 '''
t = np.datetime64('2023-06-21T00:00', 's') + np.arange(0, 1200).astype('m8[s]')
s = sunwhere.sites(t, [40.], [0.])
tst = s.true_solar_time.values
d = s.sunrise('tst').values.astype('M8[D]') - tst.astype('M8[D]')
assert (d == np.timedelta64(0, 'D')).all()
''', 'a true solar time in the first second of its day', 'sunrise and sunset are of the day before')
