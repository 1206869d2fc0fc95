"""Make or re-validate planted bugs.  plant.py DEF.py [ID...]   (DEF.py: calls bug(id, prop, file, pairs, demo_py, needs, breaks))
plant.py --verify [ID...]: apply each seeded patch to a scratch copy: demo clean / demo patched / tests / this property's check."""
import json, os, shutil, subprocess, sys
import concurrent.futures as cf
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = ROOT + '/seeded'
DEMO = '''#!/bin/bash
# run with cwd = the repository; exits nonzero when the property is broken
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''
BUGS = {}


def bug(id, prop, path, pairs, demo, needs, breaks):
    BUGS[id] = (prop, [(path, pairs)] if isinstance(path, str) else path, demo, needs, breaks)


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **k)


def make(id):
    prop, edits, demo, needs, breaks = BUGS[id]
    d = '/tmp/plant/%s' % id
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs('/tmp/plant', exist_ok=True)
    sh('git -C /repo worktree prune; git clone -q /repo %s' % d, '/tmp')
    for path, pairs in edits:
        fn = d + '/rdtools/' + path
        s = open(fn).read()
        for a, b, *n in pairs:
            if s.count(a) != (n[0] if n else 1):
                return id, 'BAD: %r occurs %d' % (a, s.count(a))
            s = s.replace(a, b)
        open(fn, 'w').write(s)
    o = SEED + '/' + id
    os.makedirs(o, exist_ok=True)
    open(o + '/patch.diff', 'w').write(sh('git diff', d).stdout)
    open(o + '/demo.sh', 'w').write(DEMO)
    open(o + '/demo.py', 'w').write(demo)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(o + '/meta.json', 'w'), indent=1)
    shutil.rmtree(d)
    return verify(id)


def verify(id, tests=True):
    o = SEED + '/' + id
    prop = json.load(open(o + '/meta.json'))['property']
    d = '/tmp/plant/%s' % id
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs('/tmp/plant', exist_ok=True)
    sh('git clone -q /repo %s' % d, '/tmp')
    r = []
    p = sh('bash %s/demo.sh' % o, d, timeout=300)
    r.append('demo-clean=%d' % p.returncode + (' ' + p.stderr[-300:] if p.returncode else ''))
    p = sh('git apply %s/patch.diff' % o, d)
    if p.returncode:
        r.append('NOAPPLY ' + p.stderr)
    p = sh('bash %s/demo.sh' % o, d, timeout=300)
    r.append('demo-bug=%d %s' % (p.returncode, (p.stdout + p.stderr).strip().split('\n')[-1][:200]))
    if tests:
        p = sh('MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 4 --timeout=300 -o junit_family=xunit2 --junitxml=/tmp/plant/%s.xml rdtools' % id, d)
        import xml.etree.ElementTree as ET
        ok = {c.get('classname') + '::' + c.get('name') for c in ET.parse('/tmp/plant/%s.xml' % id).iter('testcase') if not len([x for x in c if x.tag in ('failure', 'error', 'skipped')])}
        bad = [t for t in json.load(open('/opt/vp/BASELINE.json'))['stable'] if t.startswith('rdtools') and t not in ok]
        r.append('tests: ' + ('ok' if not bad else 'FAIL %s' % bad[:4]))
    p = sh('python3 -m rdcheck %s --repo %s --no-evidence' % (prop, d), ROOT)
    r.append('%s: %s' % (prop, 'CAUGHT' if p.returncode == 1 and 'VIOLATION property=%s' % prop in p.stdout else 'MISSED rc=%d' % p.returncode))
    shutil.rmtree(d)
    return id, '\n   '.join(r)


if __name__ == '__main__':
    if sys.argv[1] == '--verify':
        ids = [a for a in sys.argv[2:] if a[0] != '-'] or sorted(os.listdir(SEED))
        f = lambda i: verify(i, '--notests' not in sys.argv)
    else:
        exec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'))
        ids = sys.argv[2:] or list(BUGS)
        f = make
    with cf.ThreadPoolExecutor(3) as ex:
        for i, r in ex.map(f, ids):
            print(i, '\n  ', r, flush=True)
