"""A call is a pure function: same inputs, same answer, and nothing else changes."""
import decimal
import gc
import locale
import logging
import os
import random
import signal
import sys
import threading
import time
import warnings

import numexpr
import numpy as np
import pandas as pd
import xarray as xr

import sunwhere
from .. import api, gen
from .c10 import accessors

CASES = (1700, 20000)
LIMIT = (70, 700)
RULE = ('sequences of random calls (all algorithms, engines, use cases, some of them failing) in one process; each probed call is '
        'compared with the same call in a process forked before any call, with its repetition, and with itself after its inputs and '
        'earlier results were overwritten; inputs, process-wide state and file descriptors are fingerprinted before and after. Distinct: '
        'use case / algorithm / engine / form of the inputs / length of the history')
REQUIRED = ['inputs intact', 'repetition', 'history', 'no aliasing', 'accessors are pure', 'process state', 'memory layout']
ASSUMPTIONS = ['numexpr and numpy are deterministic for a fixed number of threads up to 5e-5 deg']

_server = None


def READS(sp):
    r = {k: (lambda k=k: getattr(sp, k)) for k in ('zenith', 'sza', 'elevation', 'azimuth', 'saa', 'cosz', 'declination', 'dec', 'eot', 'ecf',
                                                  'true_solar_time', 'latitude', 'longitude')}
    for u in ('deg', 'rad', 'tst', 'utc', 'local'):
        r['sunrise ' + u] = lambda u=u: sp.sunrise(u)
        r['sunset ' + u] = lambda u=u: sp.sunset(u)
    for p in ('kasten_1965', 'kasten_and_young_1989', 'gueymard_2001', 'gueymard_2003'):
        r['airmass ' + p] = lambda p=p: sp.airmass(p)
    for c in ('none', 'perez_1990', 'skarveith_1998', 'gonzalez_and_calbo_1999'):
        r['eth ' + c] = lambda c=c: sp.eth(am_correction=c)
    r['eth 1000'] = lambda: sp.eth(1000.)
    for a, b in ((0, 0), (30, 0), (30, 90), (90, -45)):
        r[f'incidence {a} {b}'] = lambda a=a, b=b: sp.incidence(a, b)
    r['daylight_length'] = sp.daylight_length
    return r


def alike(x, y):
    if x.shape != y.shape or x.dtype.kind != y.dtype.kind:
        return False
    if x.dtype.kind == 'M':
        return bool(np.all((np.isnat(x) & np.isnat(y)) | (np.abs(x - y) <= np.timedelta64(1, 's'))))
    with np.errstate(all='ignore'):
        # the azimuth may be on either side of the north
        return bool(np.all((x == y) | (np.isnan(x) & np.isnan(y)) | (np.abs(x - y) <= 1e-6 * (1 + np.abs(y))) | (np.abs(np.abs(x - y) - 360) < 1e-6)))


def state():
    s = np.random.get_state()
    return {
        'numpy errors': np.geterr(), 'numpy random': (s[0], hash(s[1].tobytes()), s[2]),
        'random': hash(random.getstate()), 'environ': dict(os.environ), 'cwd': os.getcwd(),
        'locale': locale.setlocale(locale.LC_ALL), 'numexpr threads': numexpr.get_num_threads(),
        'warnings': [str(f) for f in warnings.filters], 'path': list(sys.path),
        'recursion': sys.getrecursionlimit(), 'switch': sys.getswitchinterval(),
        'umask': _umask(), 'python threads': threading.active_count(),
        'pandas options': _pandas(), 'xarray options': str(sorted(xr.get_options().items(), key=str)),
        'logging': (logging.root.level, len(logging.root.handlers), logging.root.manager.disable,
                    logging.getLogger('numexpr').level, len(logging.getLogger('numexpr').handlers)),
        'gc': (gc.isenabled(), gc.get_threshold()), 'decimal': str(decimal.getcontext().prec) + decimal.getcontext().rounding,
        'signals': [str(signal.getsignal(k)) for k in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGCHLD, signal.SIGFPE)],
        'hooks': (id(sys.excepthook), id(sys.displayhook), id(sys.gettrace()), id(sys.getprofile()), id(sys.stdout), id(sys.stderr)),
        'clock': (time.tzname, time.timezone, time.daylight), 'numpy buffer': np.getbufsize(),
        'error callback': id(np.geterrcall()), 'showwarning': id(warnings.showwarning),
        'fds': len(os.listdir('/proc/self/fd')), 'print options': str(np.get_printoptions()),
    }


def _pandas():
    out = []
    for k in ('mode.chained_assignment', 'display.max_rows', 'display.precision', 'display.width', 'display.max_columns',
              'compute.use_numexpr', 'compute.use_bottleneck', 'mode.copy_on_write', 'mode.use_inf_as_na', 'plotting.backend',
              'display.date_dayfirst', 'display.float_format', 'future.infer_string', 'mode.string_storage'):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                out.append(str(pd.get_option(k)))
        except (KeyError, AttributeError):
            pass
    return out


def _umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


class Server:
    """a process forked before any call to sunwhere; it forks one child per
    request, so each answer comes from a process without history"""

    def __init__(self):
        from multiprocessing import Pipe
        self.c, child = Pipe()
        self.pid = os.fork()
        if self.pid == 0:
            self.c.close()
            try:
                self.loop(child)
            finally:
                os._exit(0)
        child.close()

    def loop(self, c):
        while True:
            try:
                job = c.recv()
            except EOFError:
                return
            if job is None:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    before = state()
                    try:
                        uc, t, la, lo, kw, full = job
                        sp = api.call(uc, t, la, lo, **kw)
                        v = api.values(sp)
                        if full:
                            v = v, {k: x[0].values for k, x in accessors(sp).items()}
                    except Exception as exc:
                        v = f'{type(exc).__name__}: {exc}'
                    after = state()
                    # lazily imported modules may register filters
                    diff = [k for k in before if before[k] != after[k] and k not in ('fds', 'warnings', 'python threads')]
                    c.send((v, diff))
                except BaseException as exc:
                    c.send((f'{type(exc).__name__}: {exc}', []))
                finally:
                    os._exit(0)
            os.waitpid(pid, 0)

    def ask(self, job):
        self.c.send(job)
        if not self.c.poll(60):
            raise OSError('no answer from the pristine process')
        return self.c.recv()


def setup(ctx):
    global _server
    _server = Server()
    sunwhere.sites('2024-01-01', 0., 0.).sunrise('local')


def teardown(ctx):
    _server.c.send(None)
    os.waitpid(_server.pid, 0)


def draw(ctx, scale=.05, years=None):
    rng = ctx.rng
    s = gen.scenario(rng, scale=scale, years=(1800, 2200) if rng.random() < .8 else None)
    return s, (s.usecase, s.t.astype('M8[s]'), s.lat.copy(), s.lon.copy(),
               dict(algorithm=s.algorithm, engine=s.engine, refraction=s.refraction))


def go(job):
    uc, t, la, lo, kw = job
    return api.call(uc, t, la, lo, **kw)


def case(ctx, i):
    rng = ctx.rng
    # some history
    n = int(rng.integers(0, 5))
    for _ in range(n):
        _, h = draw(ctx)
        bad = int(rng.integers(0, 12))
        if bad == 0:
            h = h[:2] + (h[2] * 0 + 91,) + h[3:]
        elif bad == 1:
            h[4]['engine'] = 'none'
        elif bad == 2:
            h = h[:2] + (np.append(h[2], 0.),) + h[3:]
        fails = bad < 3 and (bad != 2 or h[0] != 'regular_grid') or bad in (3, 4, 5)
        if fails:
            np.seterr(divide='warn', invalid='print', over='ignore', under='ignore')
            before = state()
        try:
            sp = go(h)
            sp.sunrise('utc')
            if rng.random() < .3:
                sp.eth()
            if bad == 3:
                sp.airmass('none')
            elif bad == 4:
                sp.eth(am_correction='best')
            elif bad == 5:
                sp.sunset('hours')
        except ValueError:
            pass
        if fails:
            after = state()
            diff = [k for k in before if before[k] != after[k] and k not in ('python threads', 'warnings')]
            ctx.check(not diff, 'process state', f'failed/{bad}/{h[0]}', what={k: [str(before[k])[:150], str(after[k])[:150]] for k in diff}, context='a call that fails')
    s, job = draw(ctx, scale=.05 if rng.random() < .9 else 1.)
    uc, t, la, lo, kw = job
    holes = rng.random() < .25      # something is missing
    if holes:
        la[rng.random(len(la)) < .2] = np.nan
        lo[rng.random(len(lo)) < .2] = np.nan
        t[rng.random(len(t)) < .2] = np.datetime64('NaT')
    form = 0 if holes else int(rng.integers(0, 7)) if s.t.min() > gen.year_range((1700, 1700))[0] and s.t.max() < gen.year_range((2250, 2250))[0] else 0
    zone = str(rng.choice(gen.ZONES))
    arg = [lambda: t, lambda: t.astype('M8[ns]'), lambda: pd.DatetimeIndex(t), t.tolist, lambda: list(t),
           lambda: pd.DatetimeIndex(t).tz_localize('UTC').tz_convert(zone),
           lambda: list(pd.DatetimeIndex(t).tz_localize('UTC').tz_convert(zone))][form]()
    ctx.current = dict(s.describe(), form=form, history=n)
    sig = f'{uc}/{s.algorithm}/{s.engine}/{form}/{n}'
    full = rng.random() < .25
    fresh, diff = _server.ask((uc, arg, la, lo, kw, full))
    if isinstance(fresh, str):
        ctx.fail('no-exception', error=fresh, context=ctx.current)
        return
    if full:
        fresh, fresh_access = fresh
    ctx.check(not diff, 'process state', sig, what=diff, first_call=True, context=ctx.current)

    # twins: calls that differ from the probed one in one detail (what a
    # result kept for later might be mistaken for)
    for _ in range(int(rng.integers(1, 4))):
        twin(rng, job, s, full)

    copies = (arg.copy() if hasattr(arg, 'copy') else arg, la.copy(), lo.copy())
    # settings a call may be tempted to change, afresh: an earlier call may
    # have changed them already
    mode = ['warn', 'ignore', 'print', 'log'][int(rng.integers(0, 2))]
    np.seterr(divide=mode, invalid='warn', over=mode, under='ignore')
    np.set_printoptions(precision=int(rng.integers(3, 9)))
    numexpr.set_num_threads(int(rng.integers(1, 9)))
    before = state()
    out = _Silence()
    with out:
        sp = api.call(uc, arg, la, lo, **kw)
        v = {f: x.copy() for f, x in api.values(sp).items()}
        full_access = {k: x[0].values.copy() for k, x in accessors(sp).items()} if full else {}
    after = state()
    diff = [k for k in before if before[k] != after[k] and k != 'python threads']
    ctx.check(not diff, 'process state', sig, what={k: [str(before[k])[:150], str(after[k])[:150]] for k in diff}, context=ctx.current)
    ctx.check(out.size == 0, 'process state', None, what='printed something', context=ctx.current)
    def same(a, b):
        a, b = np.asarray(a), np.asarray(b)
        return np.array_equal(a, b, equal_nan=a.dtype.kind in 'fM')
    ctx.check(same(arg, copies[0]) and same(la, copies[1]) and same(lo, copies[2]), 'inputs intact', sig, context=ctx.current)
    api.same_results(ctx, 'history', v, fresh, sig)

    if full:
        for k in full_access:
            x, y = full_access[k], fresh_access[k]
            ok = x.shape == y.shape and x.dtype.kind == y.dtype.kind
            if ok and x.dtype.kind == 'M':   # to the second or so
                ok = np.array_equal(np.isnat(x), np.isnat(y)) and bool(np.all(np.isnat(x) | (np.abs(x - y) <= np.timedelta64(1, 's'))))
                x = y = np.zeros(1)
            if ok:
                x, y = np.asarray(x, float), np.asarray(y, float)
                ok = bool(np.all((x == y) | (np.isnan(x) & np.isnan(y)) | (np.abs(x - y) <= 1e-6 * (1 + np.abs(y)))))
            ctx.check(ok, 'history', f'{k}/{uc}', what=k, context=ctx.current)

    # repetition
    w = api.values(api.call(uc, arg, la, lo, **kw))
    api.same_results(ctx, 'repetition', w, v, sig)

    # accessors: any order, any number of times
    if full_access:
        acc = accessors(sp)
        for k in rng.permutation(list(full_access))[:10]:
            x = acc[str(k)][0].values
            y = full_access[str(k)]
            ok = x.shape == y.shape and (np.array_equal(x, y, equal_nan=True) if x.dtype.kind != 'M'
                                         else np.array_equal(x[~np.isnat(x)], y[~np.isnat(y)]))
            ctx.check(ok, 'accessors are pure', f'{k}/{uc}', what=k, context=ctx.current)
        api.same_results(ctx, 'accessors are pure', api.values(sp), v, sig, exact=True)

    # reading one thing, or things in any order, from a new result gives what
    # reading it alone does
    if i % 2:
        reads = READS(sp)
        keys = [str(k) for k in rng.permutation(list(reads))[:9]]
        one = READS(api.call(uc, arg, la, lo, **kw))
        for k in keys:
            x = one[k]()
            y = READS(api.call(uc, arg, la, lo, **kw))[k]()
            ok = x.dims == y.dims and x.name == y.name and x.attrs == y.attrs and alike(x.values, y.values)
            ctx.check(ok, 'accessors are pure', f'order/{k}/{uc}', what=k, after=keys[:keys.index(k)], context=ctx.current)

    # overwriting inputs, or a previous result, changes nothing else
    tt = np.array(arg, copy=True) if form < 2 else arg
    a2, b2 = la.copy(), lo.copy()
    sp2 = api.call(uc, tt, a2, b2, **kw)
    x0 = {f: x.copy() for f, x in api.values(sp2).items()}
    times0 = np.array(sp2.times_utc.tz_localize(None).values, copy=True)
    lat0 = sp2.latitude.values.copy()
    if form < 2:
        tt[:] = np.datetime64('2001-02-03')
    a2[:] = 1.
    b2[:] = 2.
    for f in api.FIELDS:
        ctx.check(np.array_equal(np.asarray(getattr(sp2, f).values), x0[f], equal_nan=True), 'no aliasing', sig, what='results follow the inputs',
                  field=f, context=ctx.current)
    ctx.check(np.array_equal(sp2.times_utc.tz_localize(None).values, times0, equal_nan=True) and np.array_equal(sp2.latitude.values, lat0, equal_nan=True),
              'no aliasing', None, what='coordinates follow the inputs', context=ctx.current)
    for f in api.FIELDS:
        y = getattr(sp2, f).values
        if y.flags.writeable:
            y[...] = -1234.5
    w = api.values(api.call(uc, arg, la, lo, **kw))
    api.same_results(ctx, 'no aliasing', w, v, sig)
    api.same_results(ctx, 'no aliasing', api.values(sp), v, None, exact=True)

    # layouts
    lay = int(rng.integers(0, 5))
    la3, lo3, t3 = la, lo, arg
    if lay == 0:
        la3, lo3 = la.copy(), lo.copy()
        la3.setflags(write=False)
        lo3.setflags(write=False)
        if form < 2:
            t3 = arg.copy()
            t3.setflags(write=False)
    elif lay == 1:
        la3, lo3 = np.repeat(la, 2)[::2], np.repeat(lo, 3)[::3]
        t3 = np.repeat(arg, 2)[::2] if form < 2 else arg
    elif lay == 2:
        la3, lo3 = la[::-1].copy()[::-1], lo[::-1].copy()[::-1]
    elif lay == 3:
        la3, lo3 = la.astype('>f8'), lo.astype('>f8')
    else:
        la3, lo3 = la.tolist(), tuple(lo)
    w = api.values(api.call(uc, t3, la3, lo3, **kw))
    api.same_results(ctx, 'memory layout', w, v, f'{lay}/{uc}/{s.algorithm}/{s.engine}', dict(layout=lay))
    if i % 20 == 0:
        ctx.sample(**ctx.current)


def twin(rng, job, s, full=False):
    uc, t, la, lo, kw = job
    t, la, lo, kw = t.copy(), la.copy(), lo.copy(), dict(kw)
    w = int(rng.integers(0, 9))
    inside = lambda n: slice(1, n - 1) if n > 2 else slice(0, n)
    if w < 3:        # the same number, first and last
        k = inside(len(t))
        t[k] = (t[k].astype('int64') + rng.integers(86400, 40 * 86400, len(t[k]))).astype('M8[s]')
        if w == 1 and len(t) > 2:
            t = np.concatenate([t[:1], t[1:-1][::-1], t[-1:]])
    elif w == 3:
        la[inside(len(la))] *= .5
    elif w == 4:
        lo[inside(len(lo))] *= .5
    elif w == 5:
        kw['refraction'] = not kw['refraction']
    elif w == 6:
        kw['algorithm'], kw['engine'] = gen.ALGOS[rng.integers(0, 7)]
    elif w == 7:
        la, lo = -la, np.where(lo > -180, -lo, lo)
    else:
        t = (t.astype('int64') + int(rng.choice([1, 3600, 86400, 31536000]))).astype('M8[s]')
    try:
        sp = api.call(uc, t, la, lo, **kw)
        if full:
            accessors(sp)
        elif rng.random() < .3:
            sp.sunrise('utc'), sp.airmass(), sp.incidence(30., 20.)
    except ValueError:
        pass


class _Silence:
    """what reaches the standard streams (the descriptors) meanwhile"""

    def __enter__(self):
        import tempfile
        sys.stdout.flush()
        sys.stderr.flush()
        self.f = tempfile.TemporaryFile()
        self.saved = os.dup(1), os.dup(2)
        os.dup2(self.f.fileno(), 1)
        os.dup2(self.f.fileno(), 2)

    def __exit__(self, *a):
        sys.stdout.flush()
        sys.stderr.flush()
        for fd, s in zip((1, 2), self.saved):
            os.dup2(s, fd)
            os.close(s)
        self.f.seek(0, 2)
        self.size = self.f.tell()
        self.f.close()
