#!/usr/bin/env python3
"""runs each planted bug's own check (--all: every check) on it and writes the table in DESIGN.md, section 5.   table.py [--all] [ID...]"""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = os.path.join(ROOT, 'seeded')
CACHE = os.path.join(ROOT, 'tools', 'table.json')


def checks():
    return [c['property'] if 'property' in c else c['id'] for c in json.load(open(os.path.join(ROOT, 'MANIFEST.json')))['checks']]


def hits(sid, pids):
    w = '/tmp/table.%s' % sid
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree('/repo', w, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    v = w + '.verif'
    shutil.rmtree(v, ignore_errors=True)
    shutil.copytree(ROOT, v, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', '__pycache__'))
    os.makedirs(v + '/evidence', exist_ok=True)
    try:
        subprocess.run(['git', 'apply', '--unsafe-paths', '--directory=' + w, os.path.join(SEEDS, sid, 'patch.diff')], cwd='/', check=True)
        out = {}
        for p in pids:
            r = subprocess.run([sys.executable, 'check.py', p], cwd=v, env=dict(os.environ, CCNPY_REPO=w), capture_output=True, text=True)
            if r.returncode == 1:
                ls = [l for l in r.stdout.splitlines() if '[' in l and ']' in l and not l.startswith(('VIOLATION', 'OK', 'KNOWN'))]
                out[p] = ls[0].split('[', 1)[1].split(']')[0] if ls else '?'
        return out
    finally:
        shutil.rmtree(w, ignore_errors=True)
        shutil.rmtree(v, ignore_errors=True)


def main():
    every = '--all' in sys.argv
    if every:
        sys.argv.remove('--all')
    own = lambda s: [json.load(open(os.path.join(SEEDS, s, 'meta.json')))['property']]
    got = json.load(open(CACHE)) if os.path.exists(CACHE) else {}
    ids = sys.argv[1:] or sorted(os.listdir(SEEDS))
    with ThreadPoolExecutor(6) as ex:
        for s, h in zip(ids, ex.map(lambda s: hits(s, checks() if every else own(s)), ids)):
            got[s] = h
    got = {k: v for k, v in got.items() if os.path.isdir(os.path.join(SEEDS, k))}
    json.dump(got, open(CACHE, 'w'), indent=1, sort_keys=True)
    rows = ['| planted bug | property | needs | caught by (rule) |', '|---|---|---|---|']
    for s in sorted(got, key=lambda s: (json.load(open(os.path.join(SEEDS, s, 'meta.json')))['property'], s)):
        m = json.load(open(os.path.join(SEEDS, s, 'meta.json')))
        h = got[s]
        mine = m['property']
        txt = '; '.join('%s%s (%s)%s' % ('**' if p == mine else '', p, r, '**' if p == mine else '') for p, r in sorted(h.items(), key=lambda x: x[0] != mine)) or 'missed'
        rows.append('| `%s` | %s | %s | %s |' % (s, mine, m['needs'], txt))
    d = open(os.path.join(ROOT, 'DESIGN.md')).read()
    a, b = '<!-- table -->', '<!-- end of table -->'
    if a in d:
        d = d[:d.index(a) + len(a)] + '\n' + '\n'.join(rows) + '\n' + d[d.index(b):]
        open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(d)
    print('%d planted bugs, %d caught by the check of their property' % (len(got), sum(json.load(open(os.path.join(SEEDS, s, 'meta.json')))['property'] in h for s, h in got.items())))


if __name__ == '__main__':
    main()
