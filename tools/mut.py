"""mut.py SPECFILE [-t]: run checks against source variants.
SPEC: python file defining MUTS = [(name, file, old, new, [ids], expect)]
expect: 'bad' (>=1 id must report) or 'ok' (all ids must stay quiet).
-t: also run the repository's tests in the copy"""
import os, shutil, subprocess, sys, tempfile, runpy
from concurrent.futures import ThreadPoolExecutor
spec = runpy.run_path(sys.argv[1])
T = '-t' in sys.argv
only = [a for a in sys.argv[2:] if not a.startswith('-')]


def one(m):
    name, f, old, new, ids, expect = m
    d = tempfile.mkdtemp(prefix='mut')
    try:
        shutil.copytree((os.environ.get('MUTBASE') or '/repo') + '/normalize', d + '/normalize')
        pairs = [p if len(p) == 3 else (f,) + tuple(p) for p in old] \
            if isinstance(old, list) else [(f, old, new)]
        for f, o, n in pairs:
            p = d + '/normalize/' + f
            s = open(p).read()
            if s.count(o) < 1:
                return '%-40s BAD SPEC: %r occurs %d times' % (
                    name, o, s.count(o))
            open(p, 'w').write(s.replace(o, n, 1))
        res = []
        lines = []
        for i in ids:
            r = subprocess.run(['python3', '-W', 'ignore', '/verif/check.py', i, '--repo', d,
                '--no-evidence'], capture_output=True, text=True)
            res.append((i, r.returncode))
            if 'INTERNAL' in r.stdout:
                res.append((i, 9))
                lines += r.stderr.strip().splitlines()[-3:]
            if r.returncode:
                lines += [x[:260] for x in r.stdout.splitlines()
                          if x.startswith('  ') and not x.startswith('   ')][:1] or r.stdout.splitlines()[-3:]
        hit = any(c == 1 for i, c in res)
        bad2 = any(c not in (0, 1) for i, c in res)
        good = True if expect == 'any' else (hit if expect == 'bad' else not hit) and not bad2
        t = ''
        if T:
            shutil.copytree('/repo/tests', d + '/tests')
            r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q',
                '-x', '--maxfail=30', 'tests', '-p', 'no:cacheprovider'], cwd=d,
                capture_output=True, text=True,
                env=dict(os.environ, PYTHONPATH=d))
            t = ' | tests: ' + r.stdout.strip().splitlines()[-1]
        return '%-40s %s %s%s\n%s' % (name, 'as expected' if good else
            '*** UNEXPECTED (%s)' % expect, res, t,
            '\n'.join('        ' + x for x in lines))
    finally:
        shutil.rmtree(d)


ms = [m for m in spec['MUTS'] if not only or any(o in m[0] for o in only)]
with ThreadPoolExecutor(8) as ex:
    for r in ex.map(one, ms):
        print(r.rstrip())
