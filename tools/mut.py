#!/usr/bin/env python3
"""in-memory mutants: mut.py FILE.py [filter]   FILE defines M = [(property or None for a refactoring, file, old, new), ...]
A mutant must be reported by its property's check; a refactoring must leave every check quiet."""
import sys, os, importlib.util, ast
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
import multiprocessing as mp
from check import rules, run
from sa.ctx import Ctx
from sa.report import Report


def one(m):
    pid, file, old, new = m[:4]
    try:
        edits = [(file, old, new)] + [tuple(m[4][i:i + 3]) for i in range(0, len(m[4]), 3)] if len(m) > 4 else [(file, old, new)]
        ov = {}
        for f, o, n in edits:
            rel = 'ccnpy/' + f
            s = ov.get(rel) or open(os.path.join('/repo', rel)).read()
            if s.count(o) < 1:
                return m, 'NOMATCH', o[:60]
            s = s.replace(o, n, 1)
            ast.parse(s)
            ov[rel] = s
        ctx = Ctx(overlay=ov)
        ids = [pid] if pid else sorted(rules())
        out = []
        for i in ids:
            rep = run(i, 'quick', ctx)
            k = rep.known()
            v = [x for x in rep.viols if (i, x['rule'], x['construct']) not in k]
            if v:
                out.append('%s [%s] %s: %s' % (i, v[0]['rule'], v[0]['construct'], v[0]['message'][:110]))
            elif not sum(r['decided'] for r in rep.rules.values()):
                out.append('%s NOTHING DECIDED' % i)
        if pid:
            return m, 'caught' if out and 'NOTHING' not in out[0] else 'MISSED', out[0] if out else ''
        return m, 'ALARM' if out else 'quiet', ' || '.join(out)
    except Exception as e:
        import traceback
        traceback.print_exc()
        return m, 'ERROR', '%s: %s' % (type(e).__name__, e)


if __name__ == '__main__':
    spec = importlib.util.spec_from_file_location('m', sys.argv[1])
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    ms = [m for m in mod.M if len(sys.argv) < 3 or (m[0] or 'R') in sys.argv[2:]]
    n = {}
    with mp.Pool(8) as p:
        for m, r, t in p.imap(one, ms):
            n[r] = n.get(r, 0) + 1
            if r not in ('quiet',) and not (r == 'caught' and os.environ.get('Q')):
                print('%-7s %-4s %s: %s -> %s | %s' % (r, m[0], m[1], m[2][:50].strip().replace('\n', '\\n'), m[3][:60].strip().replace('\n', '\\n'), t))
    print(n)
