"""Plants the bugs described in tools/bugs/*.py into a copy of /repo, confirms each (builds, tests pass,
demonstration fails with it and passes without), and writes /verif/seeded/<id>/.  plant.py [id...]"""
import sys, os, subprocess, json, shutil, glob, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE, MUT = os.environ.get('PLANT', '/tmp/plant') + '/base', os.environ.get('PLANT', '/tmp/plant') + '/mut'
bugs = {}
for f in sorted(glob.glob(V + '/tools/bugs/*.py')):
    for b in runpy.run_path(f)['BUGS']:
        assert b['id'] not in bugs, b['id']
        bugs[b['id']] = b
def sh(c, cwd, t=600):
    try:
        p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, 'timeout'
def apply(b):
    sh('git checkout -q -- . && git clean -fdq src', MUT)
    for f, old, new in b['edits']:
        p = f'{MUT}/src/{f}'; s = open(p).read()
        assert s.count(old) >= 1, (b['id'], f, 'not found', old)
        assert s.count(old) == 1, (b['id'], f, 'ambiguous', s.count(old))
        open(p, 'w').write(s.replace(old, new))
ids = sys.argv[1:] or list(bugs)
for i in ids:
    b = bugs[i]
    d = f'{V}/seeded/{i}'
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    apply(b)
    patch = subprocess.run('git diff', shell=True, cwd=MUT, stdout=subprocess.PIPE, text=True).stdout
    open(d + '/patch.diff', 'w').write(patch)
    open(d + '/main.rs', 'w').write(b['demo'])
    shutil.copy(V + '/tools/demo/common.rs', d); shutil.copy(V + '/tools/demo/demo.sh', d)
    json.dump({"property": b['property'], "needs": b['needs'], "what_it_breaks": b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    ok = True
    r, o = sh('cargo test --offline 2>&1', MUT)
    n = sum(int(l.split('ok. ')[1].split(' passed')[0]) for l in o.splitlines() if 'test result: ok.' in l)
    if r or n < 17:
        ok = False; print(i, 'TESTS FAIL', n, '\n'.join(l for l in o.splitlines() if 'error' in l or 'FAILED' in l or 'panicked' in l)[:1500])
    sh("find src -name '*.pending-snap' -delete", MUT)
    r, o = sh(f'bash {d}/demo.sh', BASE, 300)
    if r: ok = False; print(i, 'DEMO FAILS ON BASE', r, o[-1500:])
    r, o = sh(f'bash {d}/demo.sh', MUT, 300)
    if r == 0: ok = False; print(i, 'DEMO PASSES WITH BUG', o[-800:])
    elif 'error[' in o or 'could not compile' in o: ok = False; print(i, 'DEMO DOES NOT COMPILE', o[-1500:])
    else: msg = o.strip().splitlines()[-3:]
    print(i, 'ok' if ok else 'REJECTED', '' if not ok else ' | '.join(msg)[:200], flush=True)
    if not ok: shutil.rmtree(d)
sh('git checkout -q -- .', MUT)
