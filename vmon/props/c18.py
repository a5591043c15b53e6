"""Concurrent calls from several threads give what the same calls give alone."""
import os
import signal
import sys
import threading
import time
import zlib

import numpy as np

from .. import api, gen
from .c10 import accessors

CASES = (420, 7200)
LIMIT = (70, 700)
RULE = ('2 to 8 threads released by a barrier, each with its own random calls (mixed algorithms, engines, use cases, shapes) and some '
        'sharing one result object, with the interpreter switching every microsecond and random pauses injected at the lines of sunwhere (longer '
        'at a few of them, mostly where something is stored out of local variables) '
        '(sys.monitoring); each answer is compared with the answer of the same call alone. Distinct: interleavings (hash of the order in '
        'which the threads passed through the lines of sunwhere). Also processes forked after calls were made, and processes whose first calls are concurrent')
REQUIRED = ['calls', 'first calls', 'shared result', 'no thread failed', 'no deadlock', 'forked process']
ASSUMPTIONS = ['the injected pauses and the 1 us switch interval expose the interleavings at the granularity of Python lines; '
               'the native code of numpy and numexpr is trusted']

TOOL = 4


class Chaos:
    def __init__(self, seed, p):
        self.trace, self.last, self.p = [], None, p
        self.events = self.pauses = 0
        self.ids = {}
        self.rng = {}
        self.seed = seed
        self.hot = set()

    def line(self, code, line):
        if '/sunwhere/' not in code.co_filename:
            return sys.monitoring.DISABLE
        me = threading.get_ident()
        k = self.ids.get(me)
        if k is None:
            return None
        self.events += 1
        if self.last != k:
            self.last = k
            if len(self.trace) < 20000:
                self.trace.append((k, line))
        # a cheap generator per thread
        x = self.rng[me] = (self.rng[me] * 6364136223846793005 + 1442695040888963407) & (2**64 - 1)
        if (code.co_filename, line) in self.hot and (x >> 40) % 2:
            self.pauses += 1
            time.sleep(.0005 + ((x >> 20) % 3000) * 1e-6)
        elif (x >> 33) % 1000 < self.p:
            self.pauses += 1
            time.sleep(((x >> 20) % 300) * 1e-6)
        return None

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(TOOL, 'vmon-chaos')
        m.register_callback(TOOL, m.events.LINE, self.line)
        m.restart_events()
        m.set_events(TOOL, m.events.LINE)
        self.interval = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        sys.setswitchinterval(self.interval)
        m.set_events(TOOL, 0)
        m.register_callback(TOOL, m.events.LINE, None)
        m.free_tool_id(TOOL)


def lines_of_sunwhere():
    """(file, line) of the code of sunwhere: all of it; where something is stored out of local variables; and where what is stored, or
    mentioned, may be shared among calls (module or class level containers, arrays and objects)"""
    import dis
    import types
    every, stores, shared, writes, seen = set(), set(), set(), set(), set()
    plain = (types.ModuleType, types.FunctionType, types.BuiltinFunctionType, type, str, bytes, int, float, complex, tuple, frozenset,
             bool, type(None), np.generic, np.ufunc)
    STORE = ('STORE_GLOBAL', 'STORE_SUBSCR', 'STORE_ATTR', 'DELETE_GLOBAL', 'DELETE_SUBSCR', 'STORE_DEREF', 'STORE_SLICE')

    def visit(code, ns):
        if code in seen:
            return
        seen.add(code)
        line, per = None, {}
        for ins in dis.get_instructions(code):
            n = getattr(ins, 'line_number', None)
            if n is None and ins.starts_line not in (None, True, False):
                n = ins.starts_line
            line = n or line
            if line is not None:
                per.setdefault(line, []).append(ins)
        for line, inss in per.items():
            at = (code.co_filename, line)
            every.add(at)
            ops = {x.opname for x in inss}
            kept = {x.argval for x in inss if x.opname == 'LOAD_GLOBAL' and x.argval in ns and not isinstance(ns[x.argval], plain)}
            kept |= {x.argval for x in inss if x.opname == 'LOAD_GLOBAL' and isinstance(ns.get(x.argval), (type, types.FunctionType))
                     and ns[x.argval].__module__.startswith('sunwhere') and 'STORE_ATTR' in ops | {'STORE_SUBSCR'} & ops}
            kept |= {'free'} if 'LOAD_DEREF' in ops and code.co_freevars and ops & set(STORE) else set()
            store = ops & set(STORE) and not (code.co_name == '__init__' and ops & set(STORE) == {'STORE_ATTR'})
            if store:
                stores.add(at)
            if kept or 'STORE_GLOBAL' in ops or (ops & {'STORE_ATTR'} and code.co_name != '__init__'):
                shared.add(at)
            if (kept and store) or 'STORE_GLOBAL' in ops or (ops & {'STORE_ATTR'} and code.co_name != '__init__'):
                writes.add(at)
        for c in code.co_consts:
            if hasattr(c, 'co_code'):
                visit(c, ns)

    for name, m in list(sys.modules.items()):
        if name.split('.')[0] == 'sunwhere' and '_cli' not in name:
            for x in list(vars(m).values()):
                x = getattr(x, '__wrapped__', x)
                for f in ([x] if hasattr(x, '__code__') else
                          [getattr(y, 'fget', y) for y in vars(x).values()] if isinstance(x, type) and x.__module__ == name else []):
                    if hasattr(f, '__code__') and '/sunwhere/' in f.__code__.co_filename:
                        visit(f.__code__, f.__globals__)
    return sorted(every), sorted(stores), sorted(shared), sorted(writes)


def setup(ctx):
    global _every, _stores, _shared, _writes, _algos
    _every, _stores, _shared, _writes = lines_of_sunwhere()
    global _nursery
    _nursery = Nursery()
    # the algorithms in whose modules something shared is written
    _algos = [a for a in gen.ALGOS if any(f'{"ne" if a[1] == "numexpr" else "py"}_{a[0]}.py' in f for f, _ in _writes)]


def teardown(ctx):
    _nursery.close()


class Nursery:
    """a process forked before any call was made; each request is run by a child of it, so the concurrent calls are the first ones"""

    def __init__(self):
        from multiprocessing import Pipe
        self.c, child = Pipe()
        self.pid = os.fork()
        if self.pid == 0:
            self.c.close()
            try:
                while True:
                    job = child.recv()
                    if job is None:
                        break
                    pid = os.fork()
                    if pid == 0:
                        try:
                            signal.alarm(60)
                            child.send(together(*job))
                        finally:
                            os._exit(0)
                    if os.waitpid(pid, 0)[1]:
                        child.send(None)
            finally:
                os._exit(0)
        child.close()

    def ask(self, job):
        self.c.send(job)
        if not self.c.poll(90):
            raise OSError('no answer from the process without history')
        return self.c.recv()

    def close(self):
        self.c.send(None)
        os.waitpid(self.pid, 0)


def together(calls, seed, p, hot):
    """one call per thread, all at once"""
    n = len(calls)
    got, errors = [None] * n, []
    gate = threading.Barrier(n)
    chaos = Chaos(seed, p)
    chaos.hot = set(hot)

    def work(k):
        me = threading.get_ident()
        chaos.rng[me] = seed + 7919 * k
        chaos.ids[me] = k
        try:
            gate.wait(30)
            uc, t, la, lo, kw = calls[k]
            sp = api.call(uc, t, la, lo, **kw)
            got[k] = api.values(sp), full(sp)
        except Exception as exc:
            errors.append(f'{type(exc).__name__}: {exc}')
        finally:
            chaos.ids.pop(me, None)

    ths = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(n)]
    with chaos:
        for t in ths:
            t.start()
        for t in ths:
            t.join(50)
    return got, errors, any(t.is_alive() for t in ths), chaos.trace, chaos.events, chaos.pauses


def first_calls(ctx, i):
    rng = ctx.rng
    n = int(rng.integers(2, 7))
    algos = [gen.ALGOS[(i // 8) % 7]] if rng.random() < .6 else None
    mine = [gen.scenario(rng, algos, scale=.01, years=(1800, 2200), regime=rng.choice(['tiny', 'equal', 'medium'])) for _ in range(n)]
    ctx.current = dict(first_calls=[s.describe() for s in mine])
    calls = [(s.usecase, s.t.astype('M8[s]'), s.lat, s.lon, dict(algorithm=s.algorithm, engine=s.engine, refraction=s.refraction)) for s in mine]
    r = _nursery.ask((calls, int(rng.integers(0, 2**62)), int(rng.choice([0, 5, 30, 100])), sorted(hot_lines(rng))))
    ctx.check(r is not None, 'no deadlock', None, what='the process of the first calls died or hung', context=ctx.current)
    if r is None:
        return
    got, errors, alive, trace, events, pauses = r
    ctx.check(not alive, 'no deadlock', None, context=ctx.current)
    ctx.check(not errors, 'no thread failed', f'{zlib.crc32(repr(trace).encode()):08x}', errors=errors[:2], context=ctx.current)
    if alive or errors:
        return
    for s, call, g in zip(mine, calls, got):
        uc, t, la, lo, kw = call
        sp = api.call(uc, t, la, lo, **kw)
        ctx.current = dict(s.describe(), threads=n, first=True)
        api.same_results(ctx, 'first calls', g[0], api.values(sp), f'{s.usecase}/{s.algorithm}/{s.engine}/{n}')
        bad = equal(g[1], full(sp))
        ctx.check(bad is None, 'first calls', None, what=bad, context=ctx.current)
    ctx.accumulate('lines of sunwhere run by concurrent threads', events, 0)
    ctx.accumulate('thread switches inside sunwhere', len(trace), 0)
    ctx.accumulate('injected pauses', pauses, 0)


def hot_lines(rng):
    if rng.random() < .3:
        return set()
    pool = [x for x in (_writes, _writes, _shared, _stores, _every) if x]
    pool = pool[rng.integers(0, len(pool))]
    return {pool[rng.integers(0, len(pool))] for _ in range(int(rng.integers(1, 6)))}


def full(sp):
    return {k: x[0].values.copy() for k, x in accessors(sp).items()}


def equal(a, b):
    for k in b:
        x, y = a[k], b[k]
        if x.shape != y.shape:
            return k
        if x.dtype.kind == 'M':
            if not (np.array_equal(np.isnat(x), np.isnat(y)) and np.all(np.abs((x - y)[~np.isnat(x)]) <= np.timedelta64(1, 'ms'))):
                return k
        elif not np.allclose(x, y, rtol=1e-6, atol=1e-6, equal_nan=True):
            return k
    return None


def forked(ctx):
    """a process forked after calls were made, while other threads make calls"""
    rng = ctx.rng
    mine = [gen.scenario(rng, scale=.02, years=(1800, 2200), regime=rng.choice(['tiny', 'medium', 'long'])) for _ in range(3)]
    ctx.current = dict(forked=[s.describe() for s in mine])
    expected = [api.values(api.run(s)) for s in mine]
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            signal.alarm(60)
            msg = []
            for s, v in zip(mine, expected):
                g = api.values(api.run(s))
                for f in v:
                    d = np.nanmax(np.abs(g[f] - v[f])) if v[f].size and np.isfinite(v[f]).any() else 0.
                    # the azimuth may be on either side of the north, and is blurred at the vertical
                    if f != 'azimuth' and not d <= 1e-4 or g[f].shape != v[f].shape or not np.array_equal(np.isnan(g[f]), np.isnan(v[f])):
                        msg.append([s.describe(), f, float(d)])
            os.write(w, repr(msg)[:4000].encode())
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        said = f.read().decode()
    _, status = os.waitpid(pid, 0)
    ctx.check(os.waitstatus_to_exitcode(status) == 0, 'forked process', f'{len(mine)}', status=status, context=ctx.current)
    ctx.check(said in ('[]', '') or os.waitstatus_to_exitcode(status) != 0, 'forked process', None, differences=said, context=ctx.current)


def case(ctx, i):
    rng = ctx.rng
    if i % 16 == 9:
        return forked(ctx)
    if i % 8 in (3, 6):
        return first_calls(ctx, i)
    nth = int(rng.integers(2, 9))
    algos = None
    mode = int(rng.integers(0, 6))
    if mode in (0, 4, 5):        # everyone in the same code
        algos = [gen.ALGOS[(i + i // 7) % 7]]
        if _algos and rng.random() < .6:
            algos = [_algos[rng.integers(0, len(_algos))]]
    jobs = []
    same_shape = mode == 1
    first = None
    for k in range(nth):
        mine = []
        for _ in range(int(rng.integers(1, 4))):
            s = gen.scenario(rng, algos, scale=.02, years=(1800, 2200), regime=rng.choice(['tiny', 'equal', 'medium', 'long'], p=[.2, .2, .45, .15]))
            if same_shape and first is not None:     # same arrays, another algorithm or flag
                s = gen.Scenario(first.usecase, first.t, first.lat, first.lon, s.algorithm, s.engine, s.refraction)
                s.regime = first.regime
            first = first or s
            mine.append(s)
        jobs.append(mine)
    if mode >= 4:        # few different calls, again and again: what one thread keeps, another may find
        pool = []
        s = gen.scenario(rng, algos, scale=.01, years=(1800, 2200), regime=rng.choice(['tiny', 'equal', 'medium']))
        for k in range(int(rng.integers(2, 4))):
            t, la, lo = s.t.copy(), s.lat.copy(), s.lon.copy()
            if k:
                w = int(rng.integers(0, 4)) if mode == 4 else 0
                if w in (0, 1):
                    t = t[::-1].copy() if w and len(np.unique(t)) > 1 else t + int(rng.integers(20, 150)) * 86400
                elif w == 2:
                    la = -la
                else:
                    lo = np.where(lo > -180, -lo, 10.)
            q = gen.Scenario(s.usecase, t, la, lo, s.algorithm, s.engine, s.refraction)
            q.regime = s.regime
            pool.append(q)
        jobs = [[pool[rng.integers(0, len(pool))] for _ in range(int(rng.integers(4, 12)))] for _ in range(nth)]
    ctx.current = dict(threads=nth, mode=mode, jobs=[s.describe() for mine in jobs[:2] for s in mine[:1]])
    alone = {}
    for mine in jobs:
        for s in mine:
            if id(s) not in alone:
                alone[id(s)] = api.values(api.run(s))
    expected = [[alone[id(s)] for s in mine] for mine in jobs]
    shared_s = gen.scenario(rng, algos, scale=.01, years=(1800, 2200), regime='medium')
    shared = api.run(shared_s)
    want = full(api.run(shared_s)) if mode in (2, 3) else None

    got = [[None] * len(mine) for mine in jobs]
    views = [None] * nth
    errors = []
    gate = threading.Barrier(nth)
    chaos = Chaos(int(rng.integers(0, 2**62)), int(rng.choice([0, 5, 30, 100])))
    chaos.hot = hot_lines(rng)   # long pauses before some lines, mostly those that store something that may be shared

    def work(k):
        me = threading.get_ident()
        chaos.rng[me] = chaos.seed + 7919 * k
        chaos.ids[me] = k
        try:
            gate.wait(30)
            for q, s in enumerate(jobs[k]):
                got[k][q] = api.values(api.run(s))
            if want is not None:
                views[k] = full(shared)
        except Exception as exc:
            import traceback
            errors.append((k, f'{type(exc).__name__}: {exc}', traceback.format_exc()[-600:]))
        finally:
            chaos.ids.pop(me, None)

    ths = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(nth)]
    with chaos:
        for t in ths:
            t.start()
        deadline = time.time() + 60
        for t in ths:
            t.join(max(.1, deadline - time.time()))
    alive = [t for t in ths if t.is_alive()]
    ctx.check(not alive, 'no deadlock', None, threads=len(alive), context=ctx.current)
    if alive:
        return
    inter = zlib.crc32(repr(chaos.trace).encode())
    ctx.check(not errors, 'no thread failed', f'{inter:08x}', errors=errors[:2], context=ctx.current)
    if errors:
        return
    for k in range(nth):
        for q, s in enumerate(jobs[k]):
            ctx.current = dict(s.describe(), threads=nth, thread=k, mode=mode)
            api.same_results(ctx, 'calls', got[k][q], expected[k][q], f'{s.usecase}/{s.algorithm}/{s.engine}/{nth}')
        if want is not None:
            bad = equal(views[k], want)
            ctx.check(bad is None, 'shared result', f'{shared_s.usecase}/{shared_s.algorithm}/{shared_s.engine}', what=bad, context=shared_s.describe())
    ctx.accumulate('lines of sunwhere run by concurrent threads', chaos.events, 0)
    ctx.accumulate('thread switches inside sunwhere', len(chaos.trace), 0)
    ctx.accumulate('injected pauses', chaos.pauses, 0)
    ctx.maximum('thread switches in a case', len(chaos.trace))
    ctx.sample(threads=nth, mode=mode, switches=len(chaos.trace), pauses=chaos.pauses, first_switches=chaos.trace[:12])
