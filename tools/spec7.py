BUGS = []
def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))

bug('c24-polar-arccos', 'C24',
 [('_base.py', "        wsr = np.arccos(tantan.where(domain, other=np.nan))  # radians",
   "        wsr = np.arccos(tantan).where(domain, other=np.nan)  # radians")],
 '''
s = sunwhere.sites(np.array(['2023-06-21T12:00'], 'M8[s]'), [80.], [0.])
with warnings.catch_warnings():
    warnings.simplefilter('error')
    s.sunrise('deg')
''', 'polar day or night', 'sunrise and sunset warn of an invalid value')

bug('c24-missing-log', 'C24',
 [('_base.py', "import numpy as np\nimport pandas as pd\n", "import numpy as np\nimport pandas as pd\nfrom loguru import logger\n"),
  ('_base.py', "        self._algorithm = algorithm\n", "        if (n_nan := int(np.isnan(self._declination).sum())):\n            logger.warning(f'{n_nan} missing times')\n\n        self._algorithm = algorithm\n")],
 '''
import subprocess, sys
p = subprocess.run([sys.executable, '-c', 'import numpy as np, sunwhere; sunwhere.sites(np.array(["2023-06-21T12:00", "NaT"], "M8[s]"), [80.], [0.])'],
                   capture_output=True, text=True)
assert p.returncode == 0 and not p.stderr, p.stderr
''', 'a missing time', 'a message is written to the standard error')

bug('c24-pole-division', 'C24',
 [('libspa/py_psa.py', "def sunpos(", "def _slope(latitude):\n    return 1./np.sign(np.where(np.abs(latitude) < 90., 1., 0.))\n\n\ndef sunpos(")],
 'pass', '', '')
BUGS.pop()

bug('c25-offset-zone', 'C25',
 [('_base.py', "    @property\n    def latitude(self):", '''    def __getstate__(self):
        # the local times are those in UTC in another time zone
        return {k: v for k, v in self.__dict__.items() if k != '_times'}

    def __setstate__(self, state):
        self.__dict__.update(state)
        self._times = self._times_utc.tz_convert(self._timezone)

    @property
    def latitude(self):''')],
 '''
import pickle
t = pd.DatetimeIndex(['2023-06-21T12:00']).tz_localize('dateutil/Europe/Madrid')
s = sunwhere.sites(t, [40.], [0.])
r = pickle.loads(pickle.dumps(s))
assert r.times.equals(s.times)
''', 'a time zone of dateutil', 'the result cannot be restored')

bug('c25-slim-pickle', 'C25',
 [('_base.py', "    @property\n    def latitude(self):", '''    def __getstate__(self):
        # keep small what is sent to other processes
        state = dict(self.__dict__)
        if self._zenith.size > 1000:
            for name in ('_zenith', '_azimuth'):
                state[name] = state[name].astype('float32')
        return state

    def __setstate__(self, state):
        self.__dict__.update(state)
        for name in ('_zenith', '_azimuth'):
            setattr(self, name, state[name].astype('float64'))

    @property
    def latitude(self):''')],
 '''
import pickle
t = np.datetime64('2023-06-21T12:00', 's') + np.arange(2000)
s = sunwhere.sites(t, [40.], [0.])
r = pickle.loads(pickle.dumps(s))
assert abs(r.sza - s.sza).max() < 1e-8
''', 'more than 1000 results', 'the pickled result has single precision')

bug('c25-read-lock', 'C25',
 [('_base.py', "import numpy as np\nimport pandas as pd\n", "import threading\n\nimport numpy as np\nimport pandas as pd\n"),
  ('_base.py', "        return (2./15.)*self.sunrise(units='deg').rename(", "        self._lock = self.__dict__.get('_lock') or threading.Lock()\n        with self._lock:\n            sunrise = self.sunrise(units='deg')\n        return (2./15.)*sunrise.rename(")],
 '''
import pickle
s = sunwhere.sites(np.array(['2023-06-21T12:00'], 'M8[s]'), [40.], [0.])
s.daylight_length()
r = pickle.loads(pickle.dumps(s))
''', 'a result whose daylight length or sunset was read', 'it cannot be pickled or deep-copied')

bug('c25-shared-copy', 'C25',
 [('_base.py', "    @property\n    def latitude(self):", '''    def __deepcopy__(self, memo):
        other = type(self).__new__(type(self))
        other.__dict__.update({k: v.copy() if isinstance(v, xr.DataArray) and v.ndim > 1 else v
                               for k, v in self.__dict__.items()})
        return other

    @property
    def latitude(self):''')],
 '''
import copy
s = sunwhere.transect(np.array(['2023-06-21T12:00'], 'M8[s]'), [40.], [0.])
r = copy.deepcopy(s)
s.ecf.values[:] = 0
assert (r.ecf.values > .9).all()
''', 'a deep copy, one of which is changed afterwards', 'both change')

bug('c09-lock-left', 'C09',
 [('_core.py', "import numpy as np\nfrom loguru import logger\n", "import threading\n\nimport numpy as np\nfrom loguru import logger\n"),
  ('_core.py', "logger.disable(__name__)\n", "logger.disable(__name__)\n\n_lock = threading.Lock()  # numexpr\n"),
  ('_core.py', "    ndim = validate.check_ndim(ndim)\n    times_utc, latitude, longitude = validate.check_timelatlon(\n        times, latitude, longitude, ndim, np.float64)\n",
   "    _lock.acquire()\n    ndim = validate.check_ndim(ndim)\n    times_utc, latitude, longitude = validate.check_timelatlon(\n        times, latitude, longitude, ndim, np.float64)\n    _lock.release()\n")],
 '''
import signal
signal.alarm(20)
t = np.array(['2023-06-21T12:00'], 'M8[s]')
try:
    sunwhere.sites(t, [95.], [0.])
except ValueError:
    pass
sunwhere.sites(t, [40.], [0.])
''', 'a call after an invalid one', 'it never returns')

bug('c14-pre-1970', 'C14',
 [('_base.py', """            data=tst - tst.astype('datetime64[D]')
        )""", """            data=np.fmod(tst.astype('int64'), int(86400*self._ticks)).astype(f'timedelta64[{self._unit}]')
        )"""),
  ('_base.py', "        ha = hour.copy(data=15*(12-hour))", "        ha = hour.copy(data=15*(12-hour)) if np.all(np.abs(hour) <= 24) else hour*np.nan"),
  ],
 'pass', '', '')
BUGS.pop()

bug('c05-round-places', 'C05',
 [('_core.py', "    # support for NaT in times_utc...\n", "    if latitude.size > 100000 and ndim == 1:\n        # that many locations are known to 100 m at best\n        latitude = np.round(latitude, 3)\n\n    # support for NaT in times_utc...\n")],
 '''
n = 100001
la = np.linspace(-60, 60, n)
t = np.array(['2023-06-21T12:00'], 'M8[s]')
a = sunwhere.sites(t, la, np.zeros(n), refraction=False).sza.values[0, :500]
b = sunwhere.sites(t, la[:500], np.zeros(500), refraction=False).sza.values[0]
assert abs(a - b).max() < 1e-4
''', 'more than 100,000 sites', 'their positions are rounded')

bug('c23-nat-loop', 'C23',
 [('_core.py', "    nonat = ~np.isnat(times_utc)\n    times_nonat = times_utc[nonat]\n", "    nonat = ~np.isnat(times_utc)\n    if not nonat.all():\n        nonat = np.array([not np.isnat(t) for t in times_utc])\n    times_nonat = times_utc[nonat]\n")],
 '''
import sys
def calls(n):
    t = np.datetime64('2023-06-21T12:00', 's') + np.arange(n)
    t[3] = np.datetime64('NaT')
    c = [0]
    def prof(f, e, a):
        c[0] += e in ('call', 'c_call')
    sunwhere.sites(t, [40.], [0.])
    sys.setprofile(prof)
    try:
        sunwhere.sites(t, [40.], [0.])
    finally:
        sys.setprofile(None)
    return c[0]
''', '', '')
BUGS.pop()

bug('c23-diagonal-incidence', 'C23',
 [('_base.py', "        cosdec, sindec = fcirc(self.dec)\n        coshour", "        cosdec, sindec = fcirc(self.dec)\n        if self._usecase == 'transect':\n            dec = np.radians(self.dec.to_numpy())\n            i = np.arange(dec.size)\n            # same declination at each point of the transect\n            sindec = sindec.copy(data=np.sin(np.tile(dec, (dec.size, 1)))[i, i])\n        coshour")],
 '''
import tracemalloc
n = 4000
t = np.datetime64('2023-06-21T12:00', 's') + np.arange(n)
s = sunwhere.transect(t, np.zeros(n), np.zeros(n))
tracemalloc.start()
s.incidence(30., 0.)
assert tracemalloc.get_traced_memory()[1] < 50e6
''', 'the incidence on a transect', 'takes the memory of K x K points')

bug('c17-rng', 'C17',
 [('_base.py', "        am = 1./rec_am.where(self.sza <= 90., other=np.nan)\n", "        am = 1./rec_am.where(self.sza <= 90., other=np.nan)\n        if am.size and np.isinf(am).any():\n            np.random.seed(0)\n")],
 'pass', '', '')
BUGS.pop()

bug('c17-cache-attrs', 'C17',
 [('_base.py', "        return self._ecf.rename('ecf').assign_attrs(", "        self._ecf.attrs['usecase'] = self._usecase\n        return self._ecf.rename('ecf').assign_attrs(")],
 'pass', '', '')
BUGS.pop()

bug('c17-sunset-shift', 'C17',
 [('_base.py', """            wsr = self.sunrise(units)
            dl_hr = self.daylight_length()
            wss = wsr + dl_hr.copy(""", """            wsr = self.__dict__.setdefault('_wsr_' + ('tst' if units == 'tst' else 'clock'), self.sunrise(units))
            dl_hr = self.daylight_length()
            wss = wsr + dl_hr.copy(""")],
 '''
t = pd.DatetimeIndex(['2023-06-21T12:00']).tz_localize('Asia/Tokyo')
s = sunwhere.sites(t, [35.], [139.])
a = s.sunset('utc').values
b = s.sunset('local').values
assert (b - a)[0, 0] > np.timedelta64(8, 'h')
''', 'the sunset in UTC read before that in local time, or the other way around', 'the second is the first')
