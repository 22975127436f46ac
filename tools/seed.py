"""seed.py SPEC [names]: build /verif/seeded/<id>/ from a spec and confirm
each change in a scratch copy: it touches original lines, the stable tests
pass, the demo passes without it and fails with it, and which checks report
it.  SPEC: python file with SEEDS = [dict(id, property, edits=[(file, old,
new)], needs, breaks, demo)]"""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
only = sys.argv[2:]
STABLE = json.load(open('/opt/vp/BASELINE.json'))
DEMO = '''#!/bin/sh
# run with cwd /repo: exit 0 when the property holds, nonzero otherwise
D=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$D/demo.py"
'''


def sh(cmd, cwd=None):
    r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True,
                       text=True)
    return r.returncode, r.stdout + r.stderr


def tests(d):
    rc, out = sh('PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC '
                 'PYTHONPATH=%s /opt/venv/bin/python -W ignore -m pytest -q '
                 '-p no:cacheprovider tests' % d, d)
    return sorted(set(re.findall(r'^(?:FAILED|ERROR) (\S+)', out, re.M))), \
        out.strip().splitlines()[-1]


def one(s):
    dst = os.path.join(HERE, 'seeded', s['id'])
    d = tempfile.mkdtemp(prefix='seed')
    try:
        sh('git clone -q /repo %s/r' % d)
        r = d + '/r'
        orig = subprocess.run('git log --format=%H | tail -1', shell=True,
                              cwd=r, capture_output=True,
                              text=True).stdout.strip()
        notes = []
        for f, o, n in s['edits']:
            p = r + '/normalize/' + f
            src = open(p).read()
            if src.count(o) != 1:
                return '%-24s BAD SPEC %d x %r' % (s['id'], src.count(o), o)
        for f in {e[0] for e in s['edits']}:
            rc, bl = sh('git blame -l -s normalize/' + f, r)
            blame = [x.split()[0].lstrip('^') for x in bl.splitlines()]
            s.setdefault('_b', {})[f] = blame
        os.makedirs(dst, exist_ok=True)
        open(dst + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
        open(dst + '/demo.sh', 'w').write(DEMO)
        os.chmod(dst + '/demo.sh', 0o755)
        rc0, o0 = sh('sh %s/demo.sh' % dst, r)
        f0, _ = tests(r)
        for f, o, n in s['edits']:
            p = r + '/normalize/' + f
            src = open(p).read()
            open(p, 'w').write(src.replace(o, n))
        rc, diff = sh('git diff', r)
        open(dst + '/patch.diff', 'w').write(diff)
        # removed lines must be original lines
        touched = False
        for f in {e[0] for e in s['edits']}:
            rc, df = sh('git diff -U0 normalize/' + f, r)
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', df, re.M):
                a, c = int(m.group(1)), int(m.group(2) or 1)
                for ln in range(a, a + c):
                    b = s['_b'][f][ln - 1]
                    if orig.startswith(b) or b.startswith(orig[:30]):
                        touched = True
                    else:
                        notes.append('touches fix line %s:%d' % (f, ln))
                if c == 0:
                    touched = True
        if not touched:
            notes.append('NO ORIGINAL LINE')
        json.dump({'property': s['property'], 'needs': s['needs'],
                   'what_it_breaks': s['breaks']},
                  open(dst + '/meta.json', 'w'), indent=1)
        f1, last = tests(r)
        rc1, o1 = sh('sh %s/demo.sh' % dst, r)
        good = rc0 == 0 and rc1 != 0 and f1 == f0
        if f1 != f0:
            notes.append('tests: %s' % sorted(set(f1) - set(f0))[:3])
        if rc0:
            notes.append('demo fails unpatched: ' + o0[-300:])
        if not rc1:
            notes.append('demo passes patched')
        ids = s.get('ids') or [s['property']]
        hits = []
        for i in ids:
            q = subprocess.run(
                ['python3', '-W', 'ignore', HERE + '/check.py', i, '--repo',
                 r, '--no-evidence'], capture_output=True, text=True)
            hits.append('%s:%d' % (i, q.returncode))
        return '%-26s %s demo %d/%d %s %s %s' % (
            s['id'], 'valid' if good else '*** INVALID', rc0, rc1,
            'CAUGHT' if any(h.endswith(':1') for h in hits) else '--missed--',
            hits, '; '.join(notes))
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    S = runpy.run_path(sys.argv[1])['SEEDS']
    S = [s for s in S if not only or any(o in s['id'] for o in only)]
    with ThreadPoolExecutor(8) as ex:
        for x in ex.map(one, S):
            print(x)
