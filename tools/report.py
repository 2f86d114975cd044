"""Result of one check: obligations, violations, known findings, evidence file."""
import json, os, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known-findings.json')


class Report:
    def __init__(self, pid, tier='quick'):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.viol = {}
        self.obl = 0
        self.done = 0
        self.undecided = []
        self.funcs = set()
        self.samples = []
        self.counts = {}
        self.rule = ''
        self.assume = []

    # An obligation is one construct (site, path, configuration) the rule was applied to.
    def ok(self, what=None):
        self.obl += 1
        self.done += 1
        if what is not None and len(self.samples) < 40 and what not in self.samples:
            self.samples.append(what)

    def undecide(self, what):
        self.obl += 1
        if what not in self.undecided:
            self.undecided.append(what)

    def violation(self, key, msg):
        """key identifies the construct without line numbers."""
        self.obl += 1
        if key not in self.viol:
            self.viol[key] = msg

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def finish(self):
        known = []
        if os.path.exists(KNOWN):
            with open(KNOWN) as f:
                known = [e for e in json.load(f).get('findings', []) if e['property'] == self.pid]
        kk = {e['key']: e for e in known}
        new = {k: m for k, m in self.viol.items() if k not in kk}
        old = {k: m for k, m in self.viol.items() if k in kk}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
            'level': 'other',
            'coverage': {
                'explanation': self.rule,
                'obligations': self.obl, 'discharged': self.done, 'undecided': len(self.undecided),
                'undecided_list': self.undecided[:60],
                'functions_analysed': len(self.funcs), 'functions': sorted(self.funcs)[:200],
                'samples': self.samples[:40],
                'counts': self.counts,
            },
            'assumptions': self.assume,
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(new),
        }
        p = os.path.join(VERIF, 'evidence', self.pid + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
        os.rename(p + '.tmp', p)
        print('%s: %d obligations, %d discharged, %d undecided, %d functions analysed, %.1f s' % (self.pid, self.obl, self.done, len(self.undecided), len(self.funcs), time.time() - self.t0))
        for u in self.undecided[:20]:
            print('  undecided: ' + u)
        for k, m in old.items():
            print('KNOWN-FINDING: property=%s %s: %s' % (self.pid, k, m))
        rp = os.path.join(VERIF, 'evidence', self.pid + '.violations.txt')
        if os.path.exists(rp):
            os.unlink(rp)
        if new:
            with open(rp, 'w') as f:
                for k, m in new.items():
                    f.write('[%s] %s\n' % (k, m))
            for k, m in new.items():
                print('  [%s] %s' % (k, m))
            print('VIOLATION property=%s replay=%s' % (self.pid, os.path.relpath(rp, VERIF)))
            return 1
        return 0
