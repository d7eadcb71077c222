"""Outcome of one check: obligations, evidence file, verdict line, known findings."""
import json, os, sys, time, re
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
KNOWN = VERIF + '/known_findings.txt'

class Ob:
    """one obligation. status: proved (for every robot), bounded (for the analysed robot sizes), holds (structural
    rule satisfied), open (analysis could not decide), violation"""
    def __init__(self, name, status, detail='', loc=None, mode='', key=None):
        self.name = name; self.status = status; self.detail = detail; self.loc = loc; self.mode = mode; self.key = key or name
GOOD = ('proved', 'bounded', 'holds')

def known(pid):
    """listed findings of a property: [(regexp of the violation key, text)]"""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l.strip())
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    return out

class Check:
    current = None          # the check that is running
    def __init__(self, pid, rule, level='other', tier=None):
        self.pid = pid; self.rule = rule; self.level = level; self.obs = []; self.t0 = time.time()
        self.tier = tier or os.environ.get('VERIF_TIER', 'quick'); self.funcs = set(); self.notes = []; self.extra = {}; self.assume = []
        self.minimum = 0; Check.current = self
    def add(self, *a, **k):
        o = a[0] if isinstance(a[0], Ob) else Ob(*a, **k)
        self.obs.append(o); return o
    def broken_off(self, why):
        """the analysis ended early: report what is decided so far, establish nothing"""
        self.obs = list(self.obs); self.add(Ob('the analysis is complete', 'open', why, None, '')); self.minimum = max(self.minimum, len(self.obs) + 1)
        self.finish()
    def finish(self):
        kn = known(self.pid); viol = []; found = {}
        for o in self.obs:
            if o.status != 'violation': continue
            hit = next((t for k, t in kn if k == o.key), None)
            if hit is None: viol.append(o)
            else: found.setdefault(o.key, hit)
        n = {}
        for o in self.obs: n[o.status] = n.get(o.status, 0) + 1
        ev = VERIF + '/evidence'; os.makedirs(ev, exist_ok=True)
        good = sum(n.get(s, 0) for s in GOOD)
        cov = {'obligations': len(self.obs), 'discharged': good, 'proved_for_every_robot_size': n.get('proved', 0), 'decided_for_listed_sizes': n.get('bounded', 0),
               'structural': n.get('holds', 0), 'undecided': n.get('open', 0), 'established': good >= self.minimum and bool(self.obs) and not viol, 'known_findings': len(found), 'rule': self.rule,
               'explanation': self.rule, 'functions_analysed': sorted(self.funcs),
               'samples': [dict(name=o.name, status=o.status, where=o.loc, how=o.mode, detail=o.detail[:300]) for o in self.obs[:400]]}
        if self.level == 'proof':
            cov['checker_cmd'] = 'python3 check.py %s' % self.pid
            cov['trusted_base'] = ['clang front end', 'engine/*.py abstract interpreter and term normaliser', 'models of casadi, Eigen, yaml-cpp and std operations in engine/lib.py', 'reference definitions in engine/spec.py']
        cov.update(self.extra)
        try: seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError: seed = 1
        json.dump({'property': self.pid, 'tier': self.tier if self.tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': self.level, 'coverage': cov,
                   'assumptions': self.assume, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(viol)}, open('%s/%s.json' % (ev, self.pid), 'w'), indent=1)
        print('%s: %d obligations: %s (%.1f s)' % (self.pid, len(self.obs), ', '.join('%d %s' % (v, k) for k, v in sorted(n.items())), time.time() - self.t0))
        for o in self.obs:
            if o.status == 'open': print('  open: %s %s %s %s' % (o.name, o.mode, o.loc or '', o.detail[:160]))
        for k, t in found.items(): print('KNOWN-FINDING: property=%s %s' % (self.pid, t))
        if viol:
            rp = '%s/%s.violation.txt' % (ev, self.pid)
            with open(rp, 'w') as f:
                for o in viol:
                    l = '%s: %s [%s] %s %s\n' % (o.loc or '?', o.name, self.rule.split('.')[0], o.mode, o.detail)
                    f.write(l + '    key=%s\n' % o.key)
            for o in viol[:20]: print('  %s: %s: %s %s' % (o.loc or '?', o.name, o.detail[:300], o.mode))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp)); sys.exit(1)
        if good < self.minimum or not self.obs:
            # the analysis did not reach what it reaches on the tree it was made for: nothing is claimed, nothing reported
            print('UNDECIDED: property=%s %d obligations decided, %d expected: the source no longer has a shape this analysis follows; the property is not established by this run' % (self.pid, good, self.minimum))
        sys.exit(0)
