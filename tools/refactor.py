"""Behaviour-preserving rewrites of the package: every rule must stay quiet on each.
python3 tools/refactor.py [-v] [NAME...]"""
import os
import shutil
import subprocess
import sys
import concurrent.futures as cf
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = []
PROPS = ['C%02d' % i for i in range(1, 27)]


def r(name, path, *pairs):
    R.append((name, path, pairs))


for f in sorted(os.listdir(os.path.join(ROOT, 'tools', 'refactor.d'))):
    if f.endswith('.py'):
        exec(compile(open(os.path.join(ROOT, 'tools', 'refactor.d', f)).read(), f, 'exec'))


def make(k, d):
    name, path, pairs = R[k]
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree('/repo/rdtools', d + '/rdtools', ignore=shutil.ignore_patterns('test', 'data', '__pycache__', 'models'))
    fn = d + '/rdtools/' + path
    s = open(fn).read()
    for a, b, *n in pairs:
        if (n[0] if n else 1) != s.count(a):
            return 'BAD %s %r x%d' % (name, a, s.count(a))
        s = s.replace(a, b)
    try:
        compile(s, fn, 'exec')
    except SyntaxError as e:
        return 'BAD %s syntax %s' % (name, e)
    open(fn, 'w').write(s)


def one(job):
    k, prop = job
    p = subprocess.run([sys.executable, '-m', 'rdcheck', prop, '--repo', '/tmp/rdref/%d' % k, '--no-evidence'], cwd=ROOT, capture_output=True, text=True)
    return k, prop, p.returncode, p.stdout + p.stderr


if __name__ == '__main__':
    sel = [a for a in sys.argv[1:] if not a.startswith('-')]
    props = [a for a in sel if a in PROPS] or PROPS
    sel = [a for a in sel if a not in PROPS]
    ks = []
    for k, x in enumerate(R):
        if sel and not any(x[0].startswith(a) for a in sel):
            continue
        e = make(k, '/tmp/rdref/%d' % k)
        if e:
            print(e)
        else:
            ks.append(k)
    bad = 0
    with cf.ThreadPoolExecutor(8) as ex:
        for k, prop, rc, out in ex.map(one, [(k, p) for k in ks for p in props]):
            if rc:
                bad += 1
                print('ALARM', R[k][0], prop, 'exit', rc)
                print('\n'.join('    ' + x[:400] for x in out.splitlines() if 'violated at' in x or rc != 1)[-1500:])
    for k in ks:
        shutil.rmtree('/tmp/rdref/%d' % k, ignore_errors=True)
    print('%d rewrites x %d rules, %d alarms' % (len(ks), len(props), bad))
    sys.exit(bool(bad))
