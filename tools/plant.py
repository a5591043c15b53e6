"""plant.py [ids...]: build, validate and store bugs of spec*.py; then run the property's check"""
import sys, os, subprocess, shutil, json, glob, time
HERE = os.path.dirname(os.path.abspath(__file__))
BUGS = []
for f in sorted(glob.glob(HERE + '/spec*.py')):
    ns = {}
    exec(open(f).read(), ns)
    BUGS += ns['BUGS']
want = [a for a in sys.argv[1:] if not a.startswith('-')]
nocheck = '--nocheck' in sys.argv
PY = '/opt/venv/bin/python'
X = os.environ.get('PLANT_X', '/tmp/bugs/x')
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
for b in BUGS:
    if want and b['id'] not in want: continue
    shutil.rmtree(X, ignore_errors=True)
    sh(f'cp -a /repo {X}')
    ok = True
    for path, old, new, *cnt in b['edits']:
        p = f'{X}/src/sunwhere/{path}'
        s = open(p).read()
        n = cnt[0] if cnt else 1
        if s.count(old) != n:
            print(b['id'], 'EDIT COUNT', path, s.count(old), repr(old[:60])); ok = False
        open(p, 'w').write(s.replace(old, new))
    if not ok: continue
    d = f'/verif/seeded/{b["id"]}'
    os.makedirs(d, exist_ok=True)
    diff = sh(f'git -C {X} diff').stdout
    open(d + '/patch.diff', 'w').write(diff)
    # lines removed must be the original repository's
    base = set()
    for p in {e[0] for e in b['edits']}:
        base |= set(sh(f'git -C /repo show 4a16317:src/sunwhere/{p}').stdout.splitlines())
    rem = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
    bad = [l for l in rem if l not in base]
    if bad: print(b['id'], 'NOT ORIGINAL', bad[:3])
    open(d + '/demo.py', 'w').write('import warnings\nwarnings.simplefilter("ignore")\nimport numpy as np\nimport pandas as pd\nimport sunwhere\n' + b['demo'].strip('\n') + '\n')
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# run with cwd /repo: exit 0 if the property holds\nPYTHONPATH="$PWD/src" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    a = sh(f'bash {d}/demo.sh', cwd='/repo'); c = sh(f'bash {d}/demo.sh', cwd=X)
    t = sh(f'PYTHONPATH={X}/src:/opt/vp/plugins {PY} -m pytest -q -x -p no:cacheprovider -p vp_fixed_seed tests', cwd=X)
    tail = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else t.stderr[-200:]
    st = f'demo clean={a.returncode} bug={c.returncode} tests={tail[:40]}'
    if a.returncode: st += ' CLEANERR ' + a.stderr[-300:]
    res = ''
    if not nocheck:
        props = [b['property']]
        for p in props:
            t0 = time.time()
            r = sh(f'VERIF_SEED=1 VMON_SRC={X}/src VMON_EVIDENCE={X}.ev ./check {p}', cwd='/verif')
            mons = [l.split('monitor ')[1].split(':')[0] for l in r.stdout.splitlines() if '  monitor ' in l]
            res += f' {p}:rc={r.returncode} {mons} {time.time()-t0:.0f}s' + ('' if r.returncode in (0, 1) else r.stdout[-300:])
    print(b['id'], st, '|', res, flush=True)
shutil.rmtree(X, ignore_errors=True)
