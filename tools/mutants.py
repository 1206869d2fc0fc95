"""Regression suite of the analyser: small edits of the package and the verdict expected of a rule.
V = must be reported, Q = behaviour-preserving, must stay quiet.   python3 tools/mutants.py [PROP] [-v]"""
import os
import shutil
import subprocess
import sys
import concurrent.futures as cf
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = []


def m(prop, exp, path, *pairs):
    M.append((prop, exp, path, pairs))


sys.path.insert(0, os.path.join(ROOT, 'tools'))
for f in sorted(os.listdir(os.path.join(ROOT, 'tools', 'mutants.d'))):
    if f.endswith('.py'):
        exec(compile(open(os.path.join(ROOT, 'tools', 'mutants.d', f)).read(), f, 'exec'))


def run(k):
    prop, exp, path, pairs = M[k]
    d = '/tmp/rdmut/%d' % k
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree('/repo/rdtools', d + '/rdtools', ignore=shutil.ignore_patterns('test', 'data', '__pycache__', 'models'))
    fn = d + '/rdtools/' + path
    s = open(fn).read()
    for a, b, *n in pairs:
        if (n[0] if n else 1) != s.count(a):
            return k, 'BADMUT %r x%d' % (a, s.count(a)), ''
        s = s.replace(a, b)
    try:
        compile(s, fn, 'exec')
    except SyntaxError as e:
        return k, 'BADMUT syntax %s' % e, ''
    open(fn, 'w').write(s)
    p = subprocess.run([sys.executable, '-m', 'rdcheck', prop, '--repo', d, '--no-evidence'], cwd=ROOT, capture_output=True, text=True)
    shutil.rmtree(d, ignore_errors=True)
    got = {0: 'Q', 1: 'V'}.get(p.returncode, 'E')
    return k, got, p.stdout + p.stderr


if __name__ == '__main__':
    sel = [a for a in sys.argv[1:] if not a.startswith('-')]
    ks = [i for i, x in enumerate(M) if not sel or x[0] in sel]
    bad = 0
    with cf.ThreadPoolExecutor(8) as ex:
        for k, got, out in ex.map(run, ks):
            prop, exp, path, pairs = M[k]
            if got != exp:
                bad += 1
                print('MISMATCH', prop, 'expected', exp, 'got', got, path, repr(pairs)[:300])
                if '-v' in sys.argv:
                    print(out[-1500:])
    print('%d mutants, %d mismatches' % (len(ks), bad))
    sys.exit(bool(bad))
