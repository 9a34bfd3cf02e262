#!/usr/bin/env python3
"""plants bugs: seed.py SPEC.py [ID...]   SPEC defines S = [dict(id, property, edits=[(file, old, new)...], demo, needs, breaks)]
Each is tried in a scratch copy of /repo: the demonstration passes on the unchanged tree and fails with the change, the
stable tests pass with the change, the changed lines are lines of the original repository.  Kept ones go to seeded/ID/."""
import sys, os, json, subprocess, shutil, importlib.util, xml.etree.ElementTree as ET
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'bde2f4a'
PY = '/opt/venv/bin/python'


def sh(cmd, cwd, timeout=600):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)


def stable():
    b = json.load(open('/opt/vp/BASELINE.json'))
    for k in ('stable', 'stable_passing', 'passing', 'tests'):
        if k in b:
            return set(b[k])
    raise SystemExit(list(b))


def passed(w):
    x = w + '.xml'
    sh('PYTHONPATH=%s %s -B -m pytest -q -p no:cacheprovider -o junit_family=xunit2 --junitxml=%s tests' % (w, PY, x), w)
    t = ET.parse(x).getroot()
    os.remove(x)
    ok = [c for c in t.iter('testcase') if not any(k.tag in ('failure', 'error', 'skipped') for k in c)]
    return len(ok), [c.get('name') for c in t.iter('testcase') if any(k.tag in ('failure', 'error') for k in c)]


def original(w, diff):
    """removed lines (or the neighbours of pure insertions) come from the base commit"""
    new = sh('git diff -U0', w).stdout
    f, bad = None, []
    for l in new.splitlines():
        if l.startswith('--- '):
            f = l[6:]
        if l.startswith('@@'):
            a = l.split()[1][1:].split(',')
            s, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
            if n == 0:
                continue
            b = sh('git blame -s -L %d,+%d HEAD -- %s' % (s, n, f), w).stdout.splitlines()
            r = sh('git rev-parse ' + BASE, w).stdout.strip()
            bad += [x for x in b if not r.startswith(x.split()[0].lstrip('^'))]
    return bad


def plant(s):
    w = '/tmp/seed.%s' % s['id']
    shutil.rmtree(w, ignore_errors=True)
    sh('cp -a /repo ' + w, '/')
    out = []
    try:
        d = os.path.join(ROOT, 'seeded', s['id'])
        tmp = w + '.demo'
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        open(tmp + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
        open(tmp + '/demo.sh', 'w').write('#!/bin/bash\n# run with cwd = the repository: 0 when the property holds\nPYTHONPATH="$PWD" exec %s -B "$(dirname "$0")/demo.py"\n' % PY)
        a = sh('bash %s/demo.sh' % tmp, w, 300)
        if a.returncode:
            return 'DEMO FAILS ON CLEAN TREE: ' + (a.stdout + a.stderr)[-600:]
        for f, o, n in s['edits']:
            q = os.path.join(w, 'ccnpy', f)
            t = open(q).read()
            if t.count(o) < 1:
                return 'NOMATCH %s %s' % (f, o[:80])
            open(q, 'w').write(t.replace(o, n, 1))
        diff = sh('git diff', w).stdout
        bad = original(w, diff)
        if bad:
            out.append('NOT ORIGINAL: ' + ' / '.join(bad)[:200])
        b = sh('bash %s/demo.sh' % tmp, w, 300)
        if b.returncode == 0:
            return 'DEMO PASSES WITH THE CHANGE'
        n, failing = passed(w)
        if n < 205 or failing:
            return 'TESTS: %d pass, failing %s' % (n, failing[:5])
        ids = json.load(open(os.path.join(ROOT, 'MANIFEST.json')))['checks']
        hit = []
        for c in ids:
            e = dict(os.environ, CCNPY_REPO=w)
            r = subprocess.run([sys.executable, 'check.py', c['property']], cwd=ROOT, env=e, capture_output=True, text=True)
            if 'VIOLATION property=%s' % c['property'] in r.stdout:
                hit.append(c['property'])
        out.append(('caught' if s['property'] in hit else 'MISSED') + ' hits=' + ','.join(hit))
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        for f in ('demo.py', 'demo.sh'):
            shutil.copy(os.path.join(tmp, f), d)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        shutil.rmtree(tmp)
        out.append('| ' + (b.stdout + b.stderr).strip().splitlines()[-1][:120])
        return ' '.join(out)
    finally:
        shutil.rmtree(w, ignore_errors=True)
        shutil.rmtree(w + '.demo', ignore_errors=True)


if __name__ == '__main__':
    spec = importlib.util.spec_from_file_location('s', sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    from concurrent.futures import ThreadPoolExecutor
    S = [s for s in m.S if not sys.argv[2:] or s['id'] in sys.argv[2:]]
    with ThreadPoolExecutor(4) as ex:
        for s, r in zip(S, ex.map(plant, S)):
            print(s['id'], s['property'], r)
