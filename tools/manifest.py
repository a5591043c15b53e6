import json
S='src/sunwhere/'
LIB=[S+'libspa/'+x for x in ('ne_nrel.py','ne_psa.py','ne_soltrack.py','ne_iqbal.py','py_psa.py','py_soltrack.py','py_iqbal.py')]
U,B,C,V,D=S+'usecases.py',S+'_base.py',S+'_core.py',S+'utils/validate.py',S+'utils/datetime.py'
P=S+'_cli/position.py'; M=S+'_cli/main.py'; J=S+'utils/jpl_horizons.py'
CONS='The tests compare the algorithms with each other (tolerance of 1 or 2 degrees) for 2024-2025 hourly times at random places'
def p(id,title,statement,over,text,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or ['sunwhere.sites, sunwhere.regular_grid, sunwhere.transect'],hook_needed=None))
R=[]
R.append(p('C01','nrel gives the answers of NREL\'s SPA for the years -2000 to 6000',
 'With algorithm nrel, the zenith and azimuth (with and without refraction), the declination, the equation of time and the sun-earth distance factor are those of NREL\'s Solar Position Algorithm (sea level, 1013.25 hPa, 12 degC, delta T 67 s), to well under its stated uncertainty of 0.0003 degrees. This holds for every instant from the year -2000 to 6000, every valid place, every shape of the arrays and every use case.',
 ['inputs','configurations'],'every instant in -2000..6000 (whole seconds), every latitude and longitude, every number of times and places, the three use cases, refraction on and off',
 CONS+'; nrel itself is the reference there, so nothing checks it, and no test leaves those two years.',
 [S+'libspa/ne_nrel.py',C],[('periodic terms, nutation, obliquity, parallax, refraction',S+'libspa/ne_nrel.py'),('dispatch and NaT handling','evaluate in '+C)]))
R.append(p('C02','psa, soltrack and iqbal give the answers of their published models',
 'With algorithm psa, soltrack or iqbal and either engine, the zenith and azimuth (with and without refraction), the declination, the equation of time and the sun-earth distance factor are those of the published equations of that algorithm (PSA with the 2020 coefficients, SolTrack, Iqbal with this library\'s fitted series), to 5e-5 degrees save for single-precision blur next to the vertical. This holds for every instant from 1800 to 2200, every valid place, every shape and every use case.',
 ['inputs','configurations'],'every instant in 1800..2200 (including leap days and year ends), every latitude and longitude, every size, the three use cases, both engines, refraction on and off',
 CONS+': an error of a tenth of a degree, or one only in leap years, other centuries, at the poles or for long arrays, passes.',
 LIB[1:]+[C],[('equations of each algorithm',S+'libspa/{ne,py}_{psa,soltrack,iqbal}.py')]))
R.append(p('C03','The numpy and numexpr engines of an algorithm describe the same sky',
 'For psa, soltrack and iqbal, the numpy and the numexpr engines give the same zenith, azimuth, declination, equation of time and sun-earth distance factor, in arrays of the same shape, up to round-off (5e-5 degrees, single-precision blur next to the vertical). The choice of engine, the size of the arrays and the number of threads of numexpr only change the speed.',
 ['inputs','configurations','schedules'],'every input, use case, size (below, at and above numexpr\'s blocks) and number of numexpr threads, refraction on and off',
 'The tests compare each engine with nrel within 1-2 degrees, never one engine with the other, in one size and with one number of threads.',
 LIB[1:],[('two implementations of each algorithm',S+'libspa/py_*.py and '+S+'libspa/ne_*.py')]))
R.append(p('C04','sites, regular_grid, transect and scalar calls give the same answer',
 'The solar position at one instant and place does not depend on whether it was asked through sites, regular_grid, transect, or a call with scalars: all of them give the same zenith and azimuth (up to round-off), and the same declination, equation of time and distance factor, which do not depend on the place. This holds also when the numbers of times, latitudes and longitudes coincide or are one.',
 ['inputs','configurations'],'every set of times, latitudes and longitudes, of equal or different lengths, with every algorithm and engine',
 'No test compares use cases with each other: each is compared with nrel through the same use case, so an error common to it (swapped axes with equal lengths, for instance) does not show.',
 [U,C]+LIB,[('the three ways of broadcasting (ndim)',S+'libspa/*.py, sunpos'),('use cases',U)]))
R.append(p('C05','Each result depends on its own time and place only, not on its batch',
 'Evaluating a subset, a permutation, a repetition, a split or a superset of the times and places (in any order, mixing years and hemispheres, and with any number of numexpr threads) gives for each time and place the same zenith, azimuth, declination, equation of time and distance factor, up to round-off.',
 ['inputs','configurations','schedules'],'every batch, every way of cutting, reordering, repeating and embedding it, every algorithm, engine and use case',
 'The tests evaluate one sorted hourly series; none evaluates the same element in two different batches.',
 LIB+[C,U],[('element-wise evaluation',S+'libspa/*.py'),('NaT mask',"evaluate in "+C)]))
R.append(p('C06','Missing times and places stay missing, and touch nothing else',
 'A missing time (NaT), latitude or longitude (NaN) gives missing values at the results of that time or place, also in the derived quantities (solar time, sunrise and sunset, incidence, air mass, irradiance), and leaves every other result as it would be without it. Times that are all missing, or empty, give results of the right shape, all missing or empty.',
 ['inputs','configurations'],'every pattern of missing times, latitudes and longitudes (none, one, some, all; any position), every use case, algorithm and engine, several representations of the times',
 'No test has a missing or an empty input.',
 [C,V,B]+LIB,[('NaT mask and refill','evaluate in '+C),('NaN-aware validation','check_timelatlon in '+V),('NaN propagation',B)]))
R.append(p('C07','Every valid input has a finite answer in range, and the aliases agree',
 'For every valid time and place (including the sun at zenith or nadir or on the horizon, the poles, the equator, the antimeridian and calendar boundaries) all the results are finite: the zenith within [0, 180] degrees, the azimuth within [-180, 180], the declination, equation of time and distance factor within the bounds of the earth\'s orbit. sza, saa and dec equal zenith, azimuth and declination, elevation is 90 - zenith, and cosz the cosine of the zenith.',
 ['inputs','configurations'],'every instant (1800 to 2200; -2000 to 6000 for nrel), place, use case, algorithm, engine and refraction',
 'Singular geometry has measure zero for the random places of the tests: the rounding that makes an arccos NaN needs the sun right above.',
 LIB+[B],[('clipping of arccos and arcsin arguments',S+'libspa/*.py'),('aliases',B)]))
R.append(p('C08','An instant is an instant, however it is written; its time zone is kept',
 'Times of any year, written as numpy arrays, pandas indexes and timestamps, datetime, strings, lists or scalars, naive (which are UTC) or aware in any kind of time zone, give the results of the instants they denote, also around daylight saving changes. The result keeps those instants, their time zone and their wall clock in times, times_utc, timezone, local_standard_time and the time coordinates; fractions of a second are kept there, and move the sun by less than one second\'s worth.',
 ['inputs','configurations'],'every representation and time zone (IANA through zoneinfo, pytz and dateutil, fixed offsets), instants within 1800..2200 (nrel: -2000..6000) including repeated and skipped hours, scalars and arrays, every use case',
 'The tests pass one naive DatetimeIndex only.',
 [U,B,V,D],[('time normalization','check_timelatlon in '+V),('time zone',U+', '+B)]))
R.append(p('C09','Invalid arguments raise ValueError, and valid ones are accepted',
 'A latitude out of [-90, 90], a longitude out of [-180, 180), arrays of mismatched or more than one dimension, and unknown algorithm, engine, air mass, irradiance correction or sunrise/sunset units are rejected with ValueError, wherever the offending value is in the array and whatever else is in it (missing values included), leaving later calls unaffected. Every value within the bounds, every documented name, any numeric kind of coordinates, and the documented defaults (psa, refraction, numexpr) are accepted.',
 ['inputs','configurations'],'every invalid value (by one ulp or a lot, infinite) at every position of arrays of every size; every valid bound, name and numeric kind',
 'No test passes an invalid argument.',
 [V,C,B,U],[('bounds and shapes','check_timelatlon in '+V),('algorithm and engine','evaluate in '+C),('units and parameterizations','sunrise, sunset, airmass, eth in '+B)]))
R.append(p('C10','Results are labelled with what they describe: dims, coords, names, units',
 'Every result is a DataArray with the dimensions and coordinates of its use case (times, in the wall clock of the user; latitudes; longitudes; locations), with its name and units, such that an element picked by its labels is the answer for that time and place. The result object tells the algorithm, engine, refraction, use case, time zone and coordinates that were asked.',
 ['inputs','configurations'],'every accessor and method, every use case, sizes (equal lengths included), repeated labels, naive and aware times',
 'The tests pick arrays by position and never look at labels, coordinates, names or units.',
 [B,U],[('DataArray builders',B),('use cases',U)],['properties and methods of Sunpos']))
R.append(p('C11','Refraction raises the sun a little where it should, and touches nothing else',
 'With refraction (the default) the sun appears higher, never lower, by the amount of the published formula of the algorithm (about half a degree at the horizon, hundredths at mid elevations), keeping the order of the elevations; more than 0.8334 degrees below the horizon nothing changes. The azimuth, declination, equation of time, distance factor, incidence and sunrise do not depend on it, and any truthy or falsy flag means the same as True or False.',
 ['inputs','configurations'],'every elevation (zenith to nadir, dense at the horizon and at the threshold), every algorithm, engine and use case, the flag written as bool, int or numpy bool',
 'All the tests but one turn the refraction off, and that one cannot tell a wrong correction within its tolerance.',
 LIB+[C],[('refraction branches','sunpos in '+S+'libspa/*.py')]))
R.append(p('C12','Sunrise, sunset and daylight length are consistent with the sun\'s positions',
 'The sunrise hour angle is arccos(-tan(latitude) tan(declination)) before noon, that of the sunset its opposite, the daylight length their difference, and all are undefined exactly in polar day and night. In solar time, UTC and local time they are the same moments of the solar day of each instant, the local ones in the clock of the user at the offset of that instant, and the unrefracted sun is on the horizon then (within 0.6 degrees), east at sunrise and west at sunset.',
 ['inputs','configurations'],'every instant, latitude (poles and polar circles included), longitude, time zone (with daylight saving), use case and algorithm, and the five units',
 'No test calls sunrise, sunset or daylight_length.',
 [B,D],[('sunrise, sunset, daylight_length, true_solar_time',B)],['sunrise(units), sunset(units), daylight_length() of Sunpos']))
R.append(p('C13','True solar time is UTC + 4 min/degree + equation of time: the hour angle',
 'At every time and place the true solar time is the UTC instant plus 4 minutes per degree of longitude plus the equation of time, whatever the time zone of the input. The hour angle it implies, with the declination and the latitude, gives back the zenith and the azimuth of the same answer (within the inaccuracy of the model, 0.0002 to 0.025 degrees for 1800-2200).',
 ['inputs','configurations'],'every instant, place, time zone, use case, algorithm and engine; days that change between UTC and solar time included',
 'No test reads true_solar_time.',
 [B]+LIB,[('true_solar_time',B),('eot and hour angle',S+'libspa/*.py')],['true_solar_time of Sunpos']))
R.append(p('C14','Incidence is the cosine of the angle between a plane\'s normal and the sun',
 'For a plane of any slope and orientation (degrees from south, positive eastwards), the incidence is the scalar product of its normal and the direction of the sun in the same answer. So it lies within [-1, 1], equals cosz for a horizontal plane, changes sign for the opposite side, is periodic in the angles, and is 1 when the plane faces the sun.',
 ['inputs','configurations'],'every slope in [0, 180] and azimuth in [-180, 360], and every time, place, use case, algorithm and engine',
 'No test calls incidence.',
 [B],[('incidence',B)],['incidence(slope, azimuth) of Sunpos']))
R.append(p('C15','Air mass and extraterrestrial irradiance follow their formulas and bounds',
 'The four air mass parameterizations follow their published formulas of the zenith of the same answer: at least 1, growing as the sun goes down, undefined below the horizon. The extraterrestrial irradiance is the solar constant times the distance factor times max(0, cosz) times the chosen correction: never negative, zero at night (without correction or with skarveith_1998), proportional to the constant; the defaults are gueymard_2003, 1361.1 and no correction.',
 ['inputs','configurations'],'every zenith angle, solar constant, parameterization, use case, algorithm and engine',
 'No test calls airmass or eth.',
 [B],[('airmass, eth',B)],['airmass(), eth() of Sunpos']))
R.append(p('C16','Solar time and UTC conversions are inverse and agree with the library',
 'universal_time_coordinated and the true solar time conversion of the utilities shift each time by the equation of time plus 4 minutes per degree of longitude, in opposite directions, for all the pairs of times and longitudes. They undo each other (within the drift of the equation of time), and agree with the true solar time of the results. Missing times or longitudes give missing times, and leave the rest as it is.',
 ['inputs'],'every instant (1800 to 2200, fractions of a second included) and longitude, scalars and arrays, in any form, some of them missing',
 'No test calls the conversions.',
 [D,S+'__init__.py'],[('true_solar_time, universal_time_coordinated',D)],['sunwhere.universal_time_coordinated, sunwhere.utils.datetime.true_solar_time']))
R.append(p('C17','A call is a pure function of its arguments, and changes nothing else',
 'The results of a call depend on its arguments only: not on earlier calls (failed ones included), repetition, the order or number of accesses to the results, the memory layout of the inputs, or later changes of the inputs or of the results of other calls. A call does not modify its inputs nor the state of the process (numpy errors and random state, warnings, environment, locale, numexpr threads, open files), and prints nothing.',
 ['histories','inputs'],'every history of calls in a process (all the algorithms, engines, use cases and errors), and every later mutation of the inputs and results',
 'The tests never call twice with the same input, nor mutate an input or result.',
 [C,U,B,V]+LIB,[('no module state; copies of the inputs',C+', '+U+', '+V)]))
R.append(p('C18','Concurrent calls from several threads give what they would give alone',
 'When several threads call the library at once (any mix of algorithms, engines, use cases and shapes), or read a shared result, each gets exactly what it would get alone, up to round-off, and none fails or hangs. The same holds for a process forked after calls were made.',
 ['schedules','inputs'],'every interleaving of 2 to 8 threads and every mix of calls; forked processes',
 'The tests use one thread.',
 [C,U,B]+LIB,[('no shared mutable state; numexpr locals',S+'libspa/*.py')]))
R.append(p('C19','The command line shows what the library computes for what was asked',
 'sunwhere at prints, for the instant (read in --timezone; now by default), place (N/S, E/W), algorithm and refraction that were asked, the values that the library gives for them: the clock and date, angles with 4 decimals, distance, signed equation of time, and sunrise and sunset in UTC and in the time zone, blank in polar day and night. Malformed or out of bounds arguments give a non-zero exit status and no table.',
 ['inputs','configurations'],'every time (in several formats, daylight saving changes included), place, algorithm, flag, time zone, and time zone of the machine',
 'No test runs the command line.',
 [M,P],[('parsing','parse_latitude, parse_longitude, at in '+M),('table','calculate_position in '+P)],['output and exit status of the command sunwhere at']))
R.append(p('C20','JPL Horizons: the right request, the right table, no needless downloads',
 'Fetching an ephemeris requests exactly the site, span, step and quantities that were asked, refuses those beyond the service\'s limit before asking, and saves the answer as given. Reading a file gives for each of its lines the instant (UTC), the azimuth (zero south), zenith and 1/r^2 it states; loading a year asks for each of its 12-minute instants once, uses the months already on disk, keeps them, and later reuses the saved year without asking.',
 ['inputs','histories'],'every span, step, site and file content, leap and common years, and every set of months already downloaded',
 'No test touches the module.',
 [J],[('get_jpl_ephemeris, read_jpl_ephemeris_file, load_jpl_ephemeris',J)],['requests to the HTTP client; files; returned tables']))
R.append(p('C21','The sky turns continuously in time and space, antimeridian and poles included',
 'Between close instants (across midnights, months, leap days and years) the sun moves at 15 degrees per hour times cos(declination), and the declination, equation of time and distance factor drift slowly (iqbal may jump up to 0.6 degrees at year ends); between close places the sky changes no more than their distance, also across the antimeridian, the equator and Greenwich. Going west is like going later, and at a pole the zenith is the same from every longitude and the azimuth turns with the longitude.',
 ['inputs','configurations'],'every pair of close instants and places, every algorithm, engine and use case, without refraction',
 'The tests never compare neighbouring results; a jump at a boundary of under a degree passes.',
 LIB,[('time arguments and angle wrapping','sunpos in '+S+'libspa/*.py')]))
R.append(p('C22','The documented accuracy classes hold against an independent SPA',
 'For 2020 to 2050, without refraction, the sun of nrel is within 0.0003 degrees of an independent SPA; that of psa and soltrack within 0.012 degrees, and 0.0033 on average (0.003 for psa, whose documented average is 0.0024), without bias; and that of iqbal within half a degree. The three classes (nrel; psa and soltrack; iqbal) keep their order of accuracy, with both engines and through every use case.',
 ['inputs','configurations'],'every instant of 2020..2050 and every place, both engines, the three use cases',
 'The tests accept 1-2 degrees for every algorithm.',
 LIB,[('coefficients of each algorithm',S+'libspa/*.py')]))
R.append(p('C23','A call costs memory and work in proportion to what it returns, and gives it back',
 'The memory that a call takes, or reading a result does, grows at most in proportion to its number of times, its number of places and the size of its output (a transect of K points takes nothing like K x K), within 300 bytes per element, 600 per place and 1,500 per time (9,000 for nrel) besides a constant. The interpreter makes the same number of function calls for a few elements as for many (no Python loop over times or places). What hundreds of different calls leave behind once their results are dropped does not add up.',
 ['inputs','histories','configurations'],'every use case, algorithm and engine; few times and many places, many times and few places; naive and aware; with and without missing times; every accessor; any history of calls',
 'The tests check values of small calls; the use cases exist to make large ones affordable.',
 LIB+[B],[('vectorized evaluation',U+', sunpos in '+S+'libspa/*.py'),('accessors',B)]))
R.append(p('C24','A valid call is quiet: no warnings, no messages, no floating point traps',
 'A valid call, and reading any of its results with any option, issues no warning of any kind and writes nothing to the standard streams or the loggers, also with missing values, the sun at the zenith or the horizon, the poles, far years, empty inputs and any time zone (times in UTC for the conversions of the utilities). It works where warnings are errors, and where numpy is told to raise at divisions by zero, overflows and invalid operations (underflows excepted). So does importing the library, and the command line writes to its output only.',
 ['inputs','configurations'],'every valid call, accessor and option (names of air mass, corrections and units), with numpy\'s floating point errors set to warn or raise, in running and in new interpreters',
 'The tests do not look at warnings and have neither missing values nor singular geometry, which is where they come from.',
 LIB+[C,B,U,D],[('masks before arccos, clipping, conversions of times',B+', '+S+'libspa/*.py'),('logging',C)],['warnings, standard streams, loggers']))
R.append(p('C25','Results travel: copies, pickles and other processes hold the same result',
 'A result that is copied, deep-copied, pickled with any protocol, sent to another process or computed in one says the same as the original through all its accessors and methods: values, labels, names, units, time zone, and what was asked. This holds whether it was read before or not, and also for a copy of a copy. What happens to the original does not show in a deep or pickled copy, nor the other way around. The functions travel to workers too.',
 ['inputs','histories','configurations'],'every use case, algorithm, engine, kind of time zone and pattern of missing values; results read before or not; every pickle protocol; new processes',
 'No test copies or serializes a result; multiprocessing, joblib and dask do it behind the scenes.',
 [B,U],[('state of the result object','Sunpos in '+B)],['copy, pickle, multiprocessing']))
open('/verif/properties.jsonl','w').write(''.join(json.dumps(r,ensure_ascii=False)+'\n' for r in R))
T={'C24':'runtime monitoring: warnings, streams, loggers and floating point traps watched over random calls',
 'C25':'runtime monitoring: results compared across copies, pickles and processes',
 'C23':'runtime monitoring: allocation and call-count monitors over random calls',
 'C17':'runtime monitoring: purity monitors over call histories, against a pristine process',
 'C18':'runtime monitoring: injected preemption, per-call oracle on concurrent histories',
 'C19':'runtime monitoring: output monitors on random command lines','C20':'runtime monitoring: request and file recorder with a stand-in service'}
NOTE='Observed on the executions of the run only ({}). Trusts {}.'
N={'C01':('about 4,000 random and hostile batches, some 4 million points','pvlib\'s SPA'),
'C02':('about 8,000 batches, over 17 million points','the reference equations typed in vmon/ref.py'),
'C03':('about 6,000 batches, all elements, 1-8 numexpr threads','nothing but its tolerance'),
'C04':('about 3,200 grids through four call forms','nothing but its tolerance'),
'C05':('about 3,200 batches, 5-7 transformations each','nothing but its tolerance'),
'C06':('about 3,000 batches with injected holes','nothing but its tolerance'),
'C07':('about 4,800 batches aimed at singular geometry','the stated ranges'),
'C08':('about 14,000 batches over 35 representations and 18 zones','the IANA database, and the reference models for sub-second times'),
'C09':('about 9,000 corrupted or limit calls','nothing'),
'C10':('1,200 batches, every accessor and method','the reference models for the values at labels'),
'C11':('3,200 batches with and without refraction','the published refraction formulas typed in the check'),
'C12':('2,600 batches, five units, and the sun re-evaluated at the predicted instants','the daily drift bounds of the sun'),
'C13':('5,000 batches','the bounds of the inaccuracy of each model'),
'C14':('5,000 batches and planes','the azimuth convention of the code (zero south, east positive)'),
'C15':('4,000 batches, 8 parameterizations','the formulas typed in the check'),
'C16':('6,400 conversions both ways','the PSA equation of time typed in vmon/ref.py'),
'C17':('1,700 histories, compared with a process forked before any call','the listed fingerprints of the process state'),
'C18':('420 concurrent histories with their own interleavings','native code of numpy and numexpr; interleavings at Python lines'),
'C19':('1,800 command lines in process, 30 in subprocesses','typer\'s test runner'),
'C20':('480 cases','the stand-in HTTP client; parquet replaced by pickle (no engine is installed)'),
'C21':('8,000 tracks and pairs','the bounds of the orbital rates'),
'C22':('about 2 million points, aggregate means','pvlib\'s SPA'),
'C23':('about 480 calls and their accessors, allocations traced and function calls counted','tracemalloc'),
'C24':('about 1,900 calls, all accessors, 16 new interpreters','the warnings module'),
'C25':('about 1,500 results, all accessors','pickle and multiprocessing')}
man=dict(version=1,setup_cmd='./check --selftest',checks=[dict(property=r['id'],quick_cmd=f"./check {r['id']}",thorough_cmd=f"VERIF_TIER=thorough ./check {r['id']}",
 technique=T.get(r['id'],'runtime monitoring: oracle on the executions of a generated workload'),level='exploration',level_note=NOTE.format(*N[r['id']])) for r in R],not_applicable=[],
 notes='No hooks: the monitors observe the public API, standard streams, process state and (C18) line events of the interpreter; /repo carries only fix: commits.')
json.dump(man,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False)
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for r in R: jsonschema.validate(r,sch)
jsonschema.validate(man,json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(R))
