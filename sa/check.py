"""Frame of a check: collects obligations and violations, applies the known-findings list, writes the evidence file."""
import hashlib
import json
import os
import sys
import time
import traceback

from .ir import AnalysisBroken, Program, VERIF

KNOWN = os.path.join(VERIF, 'known_findings.json')


class Check:
    def __init__(self, pid, title):
        self.pid = pid
        self.title = title
        self.t0 = time.time()
        self.violations = []       # dicts: key, where, msg, path
        self.seen = set()
        self.stats = {}
        self.funcs = set()
        self.rules = []
        self.assumptions = []
        self.samples = []
        self.obligations = 0
        self.discharged = 0
        self.floors = []

    # -- recording
    def ob(self, n=1, ok=True):
        self.obligations += n
        if ok:
            self.discharged += n

    def viol(self, key, where, msg, path=()):
        """key identifies the violation independently of line numbers."""
        if key in self.seen:
            return
        self.seen.add(key)
        self.violations.append({'key': key, 'where': where, 'message': msg, 'path': list(path)})

    def stat(self, name, n):
        self.stats[name] = n

    def floor(self, what, got, want):
        """The zero-instance rule: fewer instances than were confirmed by hand mean that the check lost its subject."""
        self.stats[what] = got
        self.floors.append((what, got, want))

    def rule(self, text):
        self.rules.append(text)

    def use(self, prog_or_engine):
        P = prog_or_engine.P
        for k in prog_or_engine.visited_funcs:
            if k in P.funcs:
                f = P.funcs[k]
                self.funcs.add('%s (%s)' % (f.q, f.file))

    # -- end
    def finish(self):
        known = []
        if os.path.exists(KNOWN):
            with open(KNOWN) as f:
                known = [k for k in json.load(f) if k['property'] == self.pid and k['status'] == 'known']
        new = []
        hit = set()
        for v in self.violations:
            m = [k for k in known if k['key'] == v['key']]
            if m:
                hit.add(m[0]['key'])
            else:
                new.append(v)
        if not new:
            for what, got, want in self.floors:
                if got < want:
                    raise AnalysisBroken('instance floor: %s: found %d, expected at least %d' % (what, got, want))
        for k in known:
            if k['key'] in hit:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        tier = os.environ.get('VERIF_TIER', 'quick')
        expl = ('Static analysis of the current source of /repo. Rules applied: ' + ' '.join(self.rules) +
                ' Numbers of this run: ' + ', '.join('%s=%s' % (a, b) for a, b in sorted(self.stats.items())) + '.')
        ev = {
            'property': self.pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick',
            'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
            'coverage': {
                'explanation': expl,
                'obligations': self.obligations, 'discharged': self.discharged,
                'functions_analysed': sorted(self.funcs),
                'instances': self.stats,
                'samples': self.samples[:12] or self.rules[:3],
            },
            'assumptions': self.assumptions,
            'violations': [{'key': v['key'], 'where': v['where'], 'message': v['message']} for v in new],
            'known_findings': sorted(hit),
            'wall_s': round(time.time() - self.t0, 2),
        }
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s %s' % (self.pid, self.title))
        print('  functions analysed: %d; obligations: %d, discharged: %d' % (len(self.funcs), self.obligations, self.discharged))
        for a, b in sorted(self.stats.items()):
            print('  %s: %s' % (a, b))
        rp = None
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        for i, v in enumerate(new):
            rp = os.path.join(d, '%s-%d.txt' % (self.pid, i))
            with open(rp, 'w') as f:
                f.write('%s\n%s\nkey: %s\n' % (v['where'], v['message'], v['key']))
                for n in v['path']:
                    f.write('  via %s\n' % (n,))
            print('  %s: %s  [key %s]' % (v['where'], v['message'], v['key']))
            for n in v['path'][:30]:
                print('      via %s' % (n,))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
        print('  wall: %.1f s' % (time.time() - self.t0))
        return 1 if new else 0


def main(argv):
    from . import registry
    if len(argv) < 2:
        print('usage: check.py PROPERTY|all')
        return 2
    pids = sorted(registry.CHECKS) if argv[1] == 'all' else [argv[1]]
    rc = 0
    for pid in pids:
        title, fn = registry.CHECKS[pid]
        c = Check(pid, title)
        try:
            fn(c)
            r = c.finish()
        except AnalysisBroken as ex:
            if os.environ.get('VERIF_TRACE'):
                traceback.print_exc()
            # violations established before the analysis lost its way are still violations
            if c.violations:
                c.floors = []
                r = c.finish()
                if r == 0:
                    print('ANALYSIS-BROKEN property=%s %s' % (pid, ex))
                    r = 2
            else:
                print('ANALYSIS-BROKEN property=%s %s' % (pid, ex))
                r = 2
        rc = max(rc, r) if r != 1 else (1 if rc in (0, 1) else rc)
    return rc
