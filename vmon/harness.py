"""Running a check: sharded workload, monitors' counters, verdict, evidence."""
import importlib
import json
import os
import resource
import signal
import subprocess
import sys
import time
import traceback
import warnings
import zlib
from collections import Counter

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('VMON_EVIDENCE', os.path.join(ROOT, 'evidence'))
SHARDS = int(os.environ.get('VMON_SHARDS', '8'))
THREADS = [1, 2, 4, 8, 3, 1, 2, 6]      # numexpr threads per shard
MAX_WITNESS = 5


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        x = list(x)
        return [jsonable(v) for v in x[:50]]
    if isinstance(x, np.ndarray):
        return jsonable(x.ravel()[:20].tolist()) if x.dtype.kind not in 'mM' else [str(v) for v in x.ravel()[:20]]
    if isinstance(x, np.generic):
        return jsonable(x.item()) if x.dtype.kind not in 'mM' else str(x)
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    if isinstance(x, float):
        return x if np.isfinite(x) else repr(x)
    return str(x)[:300]


class Stop(Exception):
    pass


class NoAnswer(BaseException):
    """a case (a fraction of a second, some seconds the heaviest) is still running after two minutes"""


PATIENCE = 120


def _alarm(*a):
    raise NoAnswer()


class Context:
    """what a case sees: its random generator and the monitors' recorders"""

    def __init__(self, prop, seed, tier):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.evals = Counter()
        self.sigs = Counter()
        self.samples = []
        self.fails = []
        self.nfails = Counter()
        self.agg = {}
        self.cases = 0
        self.skipped = Counter()

    def start(self, i):
        self.index = i
        self.current = None
        self.rng = np.random.default_rng([self.seed, i, zlib.crc32(self.prop.encode())])
        self.cases += 1

    def ok(self, monitor, n=1, sig=None):
        """n evaluations of a monitor; sig: what is distinct about them"""
        self.evals[monitor] += int(n)
        if sig is not None:
            self.sigs[monitor + '|' + str(sig)] += 1

    def check(self, cond, monitor, sig=None, **witness):
        """a scalar assertion"""
        self.ok(monitor, 1, sig)
        if not bool(cond):
            self.fail(monitor, **witness)
        return bool(cond)

    def fail(self, monitor, **witness):
        self.nfails[monitor] += 1
        if self.nfails[monitor] <= MAX_WITNESS:
            self.fails.append({'case': self.index, 'monitor': monitor, 'witness': jsonable(witness)})

    def sample(self, **kw):
        if len(self.samples) < 3:
            self.samples.append(jsonable(dict(kw, case=self.index)))

    def maximum(self, name, value):
        """keep the largest observed discrepancy (evidence)"""
        if value is not None and np.isfinite(value):
            self.agg[name] = max(self.agg.get(name, float('-inf')), float(value))

    def accumulate(self, name, n, s):
        """distributed sums, judged at the end by the module's `final`"""
        a = self.agg.setdefault('sum:' + name, [0, 0.])
        a[0] += int(n)
        a[1] += float(s)


class Coverage:
    """which lines of sunwhere the workload executed (sys.monitoring)"""

    def __init__(self):
        self.lines = set()
        self.on = False
        try:
            mon = sys.monitoring
            mon.use_tool_id(mon.COVERAGE_ID, 'vmon')
            mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, self._line)
            mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
            self.on = True
        except Exception:  # evidence only
            pass

    def _line(self, code, line):
        f = code.co_filename
        if '/sunwhere/' in f:
            self.lines.add((f[f.rindex('/sunwhere/') + 10:], line))
        return sys.monitoring.DISABLE


def run_shard(prop, seed, tier, shard, shards, out, only=None, cases=None):
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    cov = Coverage()
    mod = importlib.import_module('vmon.props.' + prop.lower())
    ctx = Context(prop, seed, tier)
    n = cases or (mod.CASES[0] if tier == 'quick' else mod.CASES[1])
    limit = float(os.environ.get('VMON_LIMIT', mod.LIMIT[0 if tier == 'quick' else 1]))
    t0 = time.time()
    if hasattr(mod, 'setup'):
        mod.setup(ctx)
    done = 0
    signal.signal(signal.SIGALRM, _alarm)
    os.register_at_fork(after_in_child=lambda: signal.signal(signal.SIGALRM, signal.SIG_DFL))
    for i in (only if only is not None else range(shard, n, shards)):
        if time.time() - t0 > limit:
            ctx.skipped['cases not run (time limit)'] += len(range(i, n, shards))
            break
        ctx.start(i)
        t1 = time.time()
        signal.alarm(PATIENCE)
        try:
            mod.case(ctx, i)
        except Stop:
            pass
        except NoAnswer as exc:
            tb = traceback.extract_tb(exc.__traceback__)
            if not any('/sunwhere/' in f.filename for f in tb):
                raise
            ctx.fail('no answer', error=f'a case runs for over {PATIENCE} s', where=[f'{f.filename}:{f.lineno} {f.name}' for f in tb[-5:]],
                     context=getattr(ctx, 'current', None))
            break
        except (MemoryError, OSError):
            raise
        except Exception as exc:
            # the cases never fail on the unchanged tree: an error here is an
            # answer that the code under test should not have given, be it
            # raised inside it or by the consumer of its results
            tb = traceback.extract_tb(exc.__traceback__)
            ctx.fail('no-exception', error=f'{type(exc).__name__}: {exc}'[:400],
                     where=[f'{f.filename}:{f.lineno} {f.name}' for f in tb[-5:]],
                     context=getattr(ctx, 'current', None))
        finally:
            signal.alarm(0)
        ctx.maximum('longest case, s', time.time() - t1)
        done += 1
        if sum(ctx.nfails.values()) >= 40:
            break
    ctx.maximum('peak memory of a process, MB', resource.getrusage(resource.RUSAGE_SELF).ru_maxrss // 1024)
    if hasattr(mod, 'teardown'):
        mod.teardown(ctx)
    json.dump({'evals': ctx.evals, 'sigs': ctx.sigs, 'samples': ctx.samples,
               'fails': ctx.fails, 'nfails': ctx.nfails, 'agg': ctx.agg,
               'cases': ctx.cases, 'skipped': ctx.skipped,
               'lines': sorted(cov.lines), 'wall': time.time() - t0}, open(out, 'w'))


def known_findings(prop):
    """entries of known_findings.jsonl that suppress: {"property", "id", "monitor", "match": {...}, "what"}"""
    path = os.path.join(ROOT, 'known_findings.jsonl')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('{'):
                e = json.loads(line)
                if e.get('property') == prop and e.get('status') == 'known':
                    out.append(e)
    return out


def matches(entry, fail):
    if entry.get('monitor') != fail['monitor']:
        return False
    text = json.dumps(fail['witness'], sort_keys=True)
    return all(s in text for s in entry.get('contains', []))


def package_lines():
    """executable lines of the package, per file (for the coverage ratio)"""
    import types
    res = {}
    base = os.environ.get('VMON_SRC', '/repo/src') + '/sunwhere'
    for d, _, fs in os.walk(base):
        for f in fs:
            if not f.endswith('.py'):
                continue
            p = os.path.join(d, f)
            try:
                code = compile(open(p, encoding='utf-8').read(), p, 'exec')
            except (SyntaxError, OSError):
                continue
            lines, todo = set(), [code]
            while todo:
                c = todo.pop()
                lines |= {ln for _, _, ln in c.co_lines() if ln}
                todo += [k for k in c.co_consts if isinstance(k, types.CodeType)]
            res[os.path.relpath(p, base)] = lines
    return res


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--shard')
    ap.add_argument('--out')
    ap.add_argument('--cases', type=int)
    ap.add_argument('--replay')
    ap.add_argument('--only', type=int)
    a = ap.parse_args(argv)
    prop = a.property
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    if a.shard:
        k, n = map(int, a.shard.split('/'))
        run_shard(prop, seed, tier, k, n, a.out, [a.only] if a.only is not None else None, a.cases)
        return 0

    only = a.only
    if a.replay:
        rep = json.load(open(a.replay))
        seed, tier, only = rep['seed'], rep['tier'], rep['case']

    t0 = time.time()
    mod = importlib.import_module('vmon.props.' + prop.lower())
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    import tempfile
    tmp = tempfile.mkdtemp(prefix='vmon-%s-' % prop)
    shards = 1 if only is not None else SHARDS
    limit = float(os.environ.get('VMON_LIMIT', mod.LIMIT[0 if tier == 'quick' else 1]))
    procs = []
    for k in range(shards):
        env = dict(os.environ, VERIF_SEED=str(seed), VERIF_TIER=tier,
                   NUMEXPR_NUM_THREADS=str(THREADS[k % len(THREADS)]),
                   NUMEXPR_MAX_THREADS='8')
        cmd = [sys.executable, '-m', 'vmon.run', prop, '--shard', f'{k}/{shards}',
               '--out', os.path.join(tmp, f'{k}.json')]
        if only is not None:
            cmd += ['--only', str(only)]
        if a.cases:
            cmd += ['--cases', str(a.cases)]
        procs.append(subprocess.Popen(cmd, env=env, cwd=ROOT, stdout=subprocess.DEVNULL,
                                      stderr=open(os.path.join(tmp, f'{k}.err'), 'w'),
                                      start_new_session=True))
    results, broken = [], []
    for k, p in enumerate(procs):
        try:
            p.wait(timeout=max(5, limit + 150 - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            broken.append((k, 'watchdog'))
            continue
        path = os.path.join(tmp, f'{k}.json')
        if p.returncode == 0 and os.path.exists(path):
            results.append(json.load(open(path)))
        else:
            broken.append((k, 'exit %s: %s' % (p.returncode, open(os.path.join(tmp, f'{k}.err')).read()[-1500:])))
    import shutil
    shutil.rmtree(tmp, ignore_errors=True)

    ev, sg, sk, lines = Counter(), Counter(), Counter(), set()
    agg, fails, nf, samples, cases = {}, [], Counter(), [], 0
    for r in results:
        ev.update(r['evals'])
        sg.update(r['sigs'])
        sk.update(r['skipped'])
        nf.update(r['nfails'])
        fails += r['fails']
        samples += r['samples'][:1]
        cases += r['cases']
        lines |= {tuple(x) for x in r['lines']}
        for k, v in r['agg'].items():
            if k.startswith('sum:'):
                s = agg.setdefault(k, [0, 0.])
                s[0] += v[0]
                s[1] += v[1]
            else:
                agg[k] = max(agg.get(k, float('-inf')), v)
    if hasattr(mod, 'final') and only is None and not broken:
        for monitor, n, witness in mod.final(agg, tier):
            ev[monitor] += n
            if witness is not None:
                nf[monitor] += 1
                fails.append({'case': None, 'monitor': monitor, 'witness': jsonable(witness)})

    known = known_findings(prop)
    real, seen = [], {}
    for f in fails:
        e = next((e for e in known if matches(e, f)), None)
        if e is None:
            real.append(f)
        else:
            seen[e['id']] = e
    # all the failures beyond the recorded witnesses must not hide behind a known one
    code, out = 0, []
    for e in known:
        out.append(f'KNOWN-FINDING: property={prop} {e["what"]}')
    if real:
        kinds = {}
        for f in real:
            kinds.setdefault(f['monitor'], f)
        for monitor, f in kinds.items():
            path = os.path.join(EVID, 'replay', f'{prop}-{monitor.replace(" ", "_").replace("/", "_")[:60]}.json')
            json.dump({'property': prop, 'seed': seed, 'tier': tier, 'case': f['case'],
                       'monitor': monitor, 'witness': f['witness'], 'failures': nf[monitor]},
                      open(path, 'w'), indent=1)
            out.append(f'VIOLATION property={prop} replay={path}')
            out.append(f'  monitor {monitor}: {json.dumps(f["witness"])[:700]}')
        code = 1
    elif broken:
        out += [f'INCONCLUSIVE property={prop} shard {k}: {why}' for k, why in broken]
        code = 2
    need = getattr(mod, 'REQUIRED', [])
    missing = [m for m in need if ev[m] == 0]
    if code == 0 and only is None and (missing or sum(ev.values()) == 0):
        out.append(f'INCONCLUSIVE property={prop} monitors never evaluated: {missing or "all"}')
        code = 2

    pkg = package_lines()
    total = sum(len(v) for v in pkg.values())
    hit = sum(1 for f, ln in lines if ln in pkg.get(f, ()))
    per_file = {}
    for f, ln in lines:
        if ln in pkg.get(f, ()):
            per_file[f] = per_file.get(f, 0) + 1
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': int(sum(ev.values())),
            'distinct_nontrivial': len(sg),
            'rule': mod.RULE,
            'samples': samples[:6],
            'workload_cases': cases,
            'evaluations_per_monitor': dict(sorted(ev.items())),
            'signatures': dict(Counter({k.split('|')[0]: 0 for k in sg}) + Counter(k.split('|')[0] for k in sg)),
            'largest_observed': {k: v for k, v in sorted(agg.items()) if not k.startswith('sum:')},
            'aggregates': {k[4:]: {'n': v[0], 'sum': v[1]} for k, v in sorted(agg.items()) if k.startswith('sum:')},
            'skipped': dict(sk),
            'sunwhere_lines_executed': hit, 'sunwhere_lines_total': total,
            'lines_executed_per_file': {f: f'{n}/{len(pkg[f])}' for f, n in sorted(per_file.items())},
            'novel_literals_in_dictionary': _novel(),
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(real),
        'verdict': {0: 'held on what was observed', 1: 'violated', 2: 'inconclusive'}[code],
    }
    if only is None:
        json.dump(evidence, open(os.path.join(EVID, f'{prop}.json'), 'w'), indent=1)
    print('\n'.join(out) if out else
          f'OK property={prop} {evidence["coverage"]["evaluations"]} evaluations, '
          f'{len(sg)} distinct, {cases} cases, {evidence["wall_s"]} s')
    if code == 0 and out:
        print(f'OK property={prop}')
    return code


def _novel():
    try:
        from . import gen
        return len(gen.literals()[0])
    except Exception:
        return None
