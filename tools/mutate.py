"""mutate.py N SEED [file substring] : random small changes of the code, each run against the checks (short runs, most relevant first);
prints the survivors with whether the repository's tests notice them. Scratch copies live in /tmp/mut."""
import io, os, random, re, shutil, subprocess, sys, tokenize
from concurrent.futures import ThreadPoolExecutor
N, SEED = int(sys.argv[1]), int(sys.argv[2])
SUB = sys.argv[3] if len(sys.argv) > 3 else ''
VV = os.environ.get('MUT_VERIF', '/verif')
BASE = '/repo/src/sunwhere'
FILES = ['_base.py', '_core.py', 'usecases.py', 'utils/datetime.py', 'utils/jpl_horizons.py', 'utils/validate.py',
         '_cli/main.py', '_cli/position.py'] + ['libspa/' + f for f in sorted(os.listdir(BASE + '/libspa')) if f.endswith('.py') and f != '__init__.py']
FILES = [f for f in FILES if SUB in f]
ALL = ['C%02d' % k for k in range(1, 23)]
FIRST = {'_base.py': 'C10 C12 C15 C14 C13 C08 C07 C06 C17', '_core.py': 'C06 C09 C05 C10 C11', 'usecases.py': 'C09 C10 C08 C04',
         'utils/datetime.py': 'C16', 'utils/jpl_horizons.py': 'C20', 'utils/validate.py': 'C09 C06', '_cli/main.py': 'C19',
         '_cli/position.py': 'C19', 'nrel': 'C01 C07 C11 C05 C06', 'libspa': 'C02 C03 C07 C11 C05'}
SWAP = {'+': '-', '-': '+', '*': '/', '/': '*', '<': '<=', '<=': '<', '>': '>=', '>=': '>', '==': '!=', '!=': '==', '%': '//', '//': '/',
        '**': '*', '&': '|', '|': '&', '~': '', 'and': 'or', 'or': 'and', 'True': 'False', 'False': 'True', 'sin': 'cos', 'cos': 'sin',
        'minimum': 'maximum', 'maximum': 'minimum', 'latitude': 'longitude', 'longitude': 'latitude', 'ns': 'us', 'lat': 'lon', 'lon': 'lat',
        'arcsin': 'arctan', 'floor': 'ceil', 'all': 'any', 'any': 'all', 'in': 'not in', 'None': '0', 'times_utc': 'times', 'where': 'where',
        'lats': 'lons', 'lons': 'lats', 'sza': 'saa', 'zenith': 'azimuth', 'int32': 'int16', 'float64': 'float32', 'int64': 'int32', 'not': '',
        'arctan2': 'arctan2', 'radians': 'degrees', 'degrees': 'radians', 'D': 'h', 's': 'm', '0': '1'}

def sites(path):
    src = open(path, encoding='utf-8').read()
    starts = [0]
    for l in src.splitlines(True):
        starts.append(starts[-1] + len(l))
    out = []
    prev = None
    for t in tokenize.generate_tokens(io.StringIO(src).readline):
        o = starts[t.start[0] - 1] + t.start[1]
        if t.type == tokenize.STRING:
            doc = prev is None or prev.type in (tokenize.NEWLINE, tokenize.INDENT, tokenize.DEDENT, tokenize.NL)
            if not doc and (len(t.string) < 400 or 'sin' in t.string):
                for m in re.finditer(r'\d+\.?\d*(?:[eE][-+]?\d+)?|\*\*|<=|>=|==|[-+*/<>%]|\b[A-Za-z_]\w*\b', t.string):
                    out.append((o + m.start(), m.group(), t.start[0]))
        elif t.type in (tokenize.NUMBER, tokenize.NAME, tokenize.OP):
            out.append((o, t.string, t.start[0]))
        if t.type not in (tokenize.COMMENT,):
            prev = t
    res = []
    for o, s, line in out:
        if re.fullmatch(r'\d+', s):
            res += [(o, s, str(int(s) + 1), line), (o, s, str(max(0, int(s) - 1)), line)]
        elif re.match(r'\d', s):
            try: v = float(s)
            except ValueError: continue
            res.append((o, s, repr(v * 1.01 if v else .01), line))
            if len(s) > 5:
                k = len(s) // 2
                if s[k].isdigit(): res.append((o, s, s[:k] + str((int(s[k]) + 3) % 10) + s[k + 1:], line))
        elif s in SWAP and SWAP[s] != s:
            res.append((o, s, SWAP[s], line))
    return src, res

rng = random.Random(SEED)
pool = []
for f in FILES:
    src, r = sites(f'{BASE}/{f}')
    pool += [(f,) + x for x in r if 'import' not in src.splitlines()[x[3] - 1] and 'raise' not in src.splitlines()[x[3] - 1] and 'logger' not in src.splitlines()[x[3]-1]]
# even over files
byfile = {}
for x in pool: byfile.setdefault(x[0], []).append(x)
W = {'_base.py': 5, 'libspa/ne_nrel.py': 3, 'utils/jpl_horizons.py': 2}
names = [f for f in byfile for _ in range(W.get(f, 2 if 'libspa' in f else 1))]
chosen = []
while len(chosen) < N and len(chosen) < len(pool):
    x = rng.choice(byfile[rng.choice(names)])
    if x not in chosen: chosen.append(x)

def cases(prop):
    for l in open(f'{VV}/vmon/props/{prop.lower()}.py'):
        m = re.match(r'CASES = \((\d+)', l)
        if m: return max(32, int(m[1]) // int(os.environ.get('MUT_DIV', '5')))
    return 100

def one(k):
    f, o, a, b, line = chosen[k]
    d = f'/tmp/mut/{SEED}-{k}'
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo/src', d + '/src')
    p = f'{d}/src/sunwhere/{f}'
    s = open(p, encoding='utf-8').read()
    assert s[o:o + len(a)] == a
    s = s[:o] + b + s[o + len(a):]
    txt = s.splitlines()[line - 1].strip()[:110]
    try: compile(s, p, 'exec')
    except SyntaxError:
        shutil.rmtree(d, ignore_errors=True); return
    open(p, 'w', encoding='utf-8').write(s)
    env = dict(os.environ, VMON_SRC=d + '/src', VMON_EVIDENCE=d + '/ev', VERIF_SEED='1')
    fam = FIRST.get(f) or FIRST['nrel' if 'nrel' in f else 'libspa']
    order = fam.split() + [c for c in ALL if c not in fam.split()]
    tag = f'{SEED}-{k} {f}:{line} {a!r}->{b!r} [{txt}]'
    odd = ''
    for c in order:
        r = subprocess.run(['./check', c, '--cases', str(cases(c))], cwd=VV, env=env, capture_output=True, text=True)
        if r.returncode == 1:
            print('killed', c, tag, odd, flush=True); break
        if r.returncode != 0: odd += f' {c}:rc{r.returncode}'
    else:
        t = subprocess.run(f'PYTHONPATH={d}/src:/opt/vp/plugins /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider -p vp_fixed_seed tests',
                           shell=True, cwd='/repo', capture_output=True, text=True)
        print('SURVIVED tests', 'pass' if t.returncode == 0 else 'FAIL', tag, odd, flush=True)
    shutil.rmtree(d, ignore_errors=True)

with ThreadPoolExecutor(int(os.environ.get('MUT_JOBS', '3'))) as ex:
    list(ex.map(one, range(len(chosen))))
