"""Findings, undecided obligations and counts of one check, and the evidence file."""
import json
import os
import re
import time
import traceback
from contextlib import contextmanager

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.viols, self.unds, self.rules = [], [], {}
        self.seen = set()
        self.start = time.time()
        self.notes = {}
        self.technique = ''

    def ok(self, rule, construct=None, n=1):
        r = self.rules.setdefault(rule, {'obligations': 0, 'decided': 0, 'violated': 0, 'constructs': []})
        r['obligations'] += n
        r['decided'] += n
        if construct is not None and construct not in r['constructs'] and len(r['constructs']) < 400:
            r['constructs'].append(construct)

    def viol(self, rule, construct, loc, msg):
        r = self.rules.setdefault(rule, {'obligations': 0, 'decided': 0, 'violated': 0, 'constructs': []})
        msg = re.sub(r'lv\(\d+, ', 'lv(', msg)
        if (rule, construct, msg) in self.seen:
            return
        self.seen.add((rule, construct, msg))
        r['obligations'] += 1
        r['decided'] += 1
        r['violated'] += 1
        self.viols.append({'rule': rule, 'construct': construct, 'location': loc, 'message': msg})

    def und(self, rule, construct, why):
        r = self.rules.setdefault(rule, {'obligations': 0, 'decided': 0, 'violated': 0, 'constructs': []})
        r['obligations'] += 1
        self.unds.append({'rule': rule, 'construct': construct, 'why': str(why)[:300]})

    def check(self, good, rule, construct, loc, msg):
        """good: True holds, False violated, None undecided"""
        if good is None:
            self.und(rule, construct, msg)
        elif good:
            self.ok(rule, construct)
        else:
            self.viol(rule, construct, loc, msg)
        return good

    @contextmanager
    def guard(self, rule, construct):
        """an obligation that the analysis cannot evaluate is undecided, never a violation"""
        try:
            yield
        except Exception as e:
            self.und(rule, construct, 'analysis: %s: %s' % (type(e).__name__, e))
            if os.environ.get('SA_DEBUG'):
                traceback.print_exc()

    # ------------------------------------------------------------------------------------------------------
    def known(self):
        p = os.path.join(ROOT, 'known_findings.txt')
        out = {}
        if os.path.exists(p):
            for l in open(p):
                l = l.strip()
                if not l.startswith('finding:'):
                    continue
                pid, rule, construct, text = [x.strip() for x in l[len('finding:'):].split(' | ', 3)]
                out[(pid.split('=')[1], rule, construct)] = text
        return out

    def finish(self):
        known = self.known()
        new, found = [], []
        for v in self.viols:
            k = (self.pid, v['rule'], v['construct'])
            if k in known:
                found.append((k, known[k]))
            else:
                new.append(v)
        for k, text in dict(found).items():
            print('KNOWN-FINDING: property=%s %s' % (self.pid, text))
        decided = sum(r['decided'] for r in self.rules.values())
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'other',
            'coverage': {
                'explanation': 'Static analysis of the current source of /repo: each obligation is one construct '
                               '(class, function, path, call site) to which a rule of the property applies. Undecided '
                               'obligations are listed; they raise no alarm and count as not covered.',
                'obligations': sum(r['obligations'] for r in self.rules.values()),
                'decided': decided,
                'undecided': len(self.unds),
                'violations': len(new),
                'known_findings': len(found),
                'rules': {k: {'obligations': r['obligations'], 'decided': r['decided'], 'violated': r['violated'],
                              'constructs': r['constructs'] if len(r['constructs']) <= 80 else
                              r['constructs'][:80] + ['... %d more' % (len(r['constructs']) - 80)]}
                          for k, r in sorted(self.rules.items())},
                'undecided_list': self.unds[:200],
            },
            'wall_s': round(time.time() - self.start, 2),
        }
        ev['coverage'].update(self.notes)
        if self.viols:
            ev['coverage']['violation_list'] = self.viols
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if new:
            rp = os.path.join(ROOT, 'evidence', 'replay')
            os.makedirs(rp, exist_ok=True)
            path = os.path.join(rp, self.pid + '.json')
            with open(path, 'w') as f:
                json.dump(new, f, indent=1)
            for v in new[:40]:
                print('%s: [%s] %s: %s' % (v['location'], v['rule'], v['construct'], v['message']))
            print('VIOLATION property=%s replay=%s' % (self.pid, os.path.relpath(path, ROOT)))
            return 1
        if not decided:
            print('ERROR: property %s: no obligation could be decided' % self.pid)
            for u in self.unds[:10]:
                print('  undecided %s %s: %s' % (u['rule'], u['construct'], u['why']))
            return 2
        print('OK property=%s obligations decided: %d, undecided: %d (%.1f s)' % (
            self.pid, decided, len(self.unds), time.time() - self.start))
        return 0
