"""Plants the bugs of tools/seeds/*.py in scratch copies and keeps the confirmed ones in /verif/seeded.

Each seeds file holds SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=python source)].
usage: seed.py make ID|all      confirm (tests pass, demo fails) and write /verif/seeded/ID
       seed.py check ID|all [PROP...]   run the checks of its property (or PROP) against a scratch copy
"""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open('/opt/vp/BASELINE.json'))


def stable():
    for k in ('passed', 'pass', 'stable', 'tests'):
        if isinstance(BASE, dict) and k in BASE:
            return set(BASE[k])
    return set(BASE)


def seeds():
    res = {}
    for p in sorted(glob.glob(os.path.join(HERE, 'tools', 'seeds', '*.py'))):
        spec = importlib.util.spec_from_file_location('s', p)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for s in m.SEEDS:
            assert s['id'] not in res, s['id']
            res[s['id']] = s
    return res


def scratch():
    d = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    shutil.rmtree(d)
    subprocess.run(['cp', '-a', '/repo', d], check=True)
    return d


def apply(s, d):
    for f, old, new in s['edits']:
        p = os.path.join(d, f)
        t = open(p).read()
        assert t.count(old) == 1, (s['id'], f, t.count(old))
        open(p, 'w').write(t.replace(old, new))


DEMO = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def make(s):
    d = scratch()
    try:
        apply(s, d)
        diff = subprocess.run(['git', '-C', d, 'diff'], capture_output=True, text=True).stdout
        new = []
        for f, old, _ in s['edits']:
            base = subprocess.run(['git', '-C', '/repo', 'show', '6c3c805:' + f], capture_output=True, text=True).stdout.splitlines()
            new += [l for l in old.splitlines() if l.strip() and l not in base]
        gone = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
        if not [l for l in gone if l.strip() and l not in new]:
            print(s['id'], 'NOT ORIGINAL (only in tools/seeds)', new)
            orig = False
        else:
            orig = True
        out = os.path.join(HERE, 'seeded', s['id'])
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        open(os.path.join(out, 'demo.py'), 'w').write(s['demo'].lstrip('\n'))
        open(os.path.join(out, 'demo.sh'), 'w').write(DEMO)
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        demo = os.path.join(out, 'demo.sh')
        r0 = subprocess.run(['timeout', '120', 'bash', demo], cwd='/repo', capture_output=True, text=True)
        r1 = subprocess.run(['timeout', '120', 'bash', demo], cwd=d, capture_output=True, text=True)
        o = d + '.json'
        env = {**os.environ, 'PYTHONPATH': d, 'PYTHONDONTWRITEBYTECODE': '1', 'TZ': 'UTC', 'PYTHONHASHSEED': '0', 'LC_ALL': 'C.UTF-8'}
        subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--doctest-glob=README.md',
                        '-o', 'junit_family=xunit2', '--junitxml=' + d + '/report.xml', '--continue-on-collection-errors',
                        '--ignore=tests/test_performance.py', 'tests', 'README.md'], cwd=d, capture_output=True, env=env)
        subprocess.run(['/opt/venv/bin/python', '/opt/vp/results.py', o, 'junit:' + d + '/report.xml'], capture_output=True)
        res = json.load(open(o))
        os.remove(o)
        passed = set(res if isinstance(res, list) else res.get('passed', res.get('pass', [])))
        missing = sorted(stable() - passed)
        ok = r0.returncode == 0 and r1.returncode != 0 and not missing
        print('%-28s %s demo clean=%d bug=%d tests=%d %s' % (s['id'], 'OK ' if ok else 'BAD', r0.returncode, r1.returncode,
              len(missing), '' if ok else (r0.stderr[-300:] + str(missing[:3]))), flush=True)
        if not ok or not orig:
            shutil.rmtree(out)
        return ok
    finally:
        shutil.rmtree(d)


def record(id_, prop, caught):
    f = os.path.join(HERE, 'tools', 'seed_results.json')
    d = json.load(open(f)) if os.path.exists(f) else {}
    d.setdefault(id_, {})[prop] = caught
    json.dump(d, open(f, 'w'), indent=1, sort_keys=True)


def check(s, props):
    d = scratch()
    try:
        apply(s, d)
        for p in props or [s['property']]:
            r = subprocess.run(['bash', os.path.join(HERE, 'bin', 'check'), p], capture_output=True, text=True,
                               env={**os.environ, 'VERIF_REPO': d, 'VERIF_SCRATCH': '1'}, cwd=HERE)
            caught = r.returncode == 1 and 'VIOLATION property=%s' % p in r.stdout
            record(s['id'], p, caught)
            last = [l for l in r.stdout.splitlines() if l.startswith(p)] or ['']
            print('%-28s %s %s rc=%d %s %s' % (s['id'], p, 'CAUGHT' if r.returncode == 1 and 'VIOLATION' in r.stdout else 'MISSED',
                  r.returncode, last[-1][:120], r.stdout[-300:] if r.returncode not in (0, 1) else ''), flush=True)
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    S = seeds()
    ids = list(S) if sys.argv[2] == 'all' else [i for i in S if i == sys.argv[2] or S[i]['property'] == sys.argv[2] or i.startswith(sys.argv[2])]
    for i in ids:
        if sys.argv[1] == 'make':
            make(S[i])
        else:
            check(S[i], sys.argv[3:])
