"""Verdicts, evidence files and known findings."""
import json, os, sys, time, traceback
from build import AnalysisError, VERIF

KNOWN = os.path.join(VERIF, 'known_findings.txt')


class Report:
    def __init__(self, prop, title=''):
        self.prop = prop
        self.t0 = time.time()
        self.rules = {}         # rule -> dict(instances, sites)
        self.viol = []          # (rule, where, key, message)
        self.units = []
        self.assume = []
        self.notes = []

    def rule(self, name, text):
        self.rules.setdefault(name, {'rule': text, 'instances': 0, 'ok': 0, 'sites': []})

    def ok(self, name, site):
        r = self.rules[name]
        r['instances'] += 1
        r['ok'] += 1
        if len(r['sites']) < 12:
            r['sites'].append(str(site))

    def bad(self, name, site, msg, key=None):
        r = self.rules[name]
        r['instances'] += 1
        if len(r['sites']) < 40:
            r['sites'].append('VIOLATED ' + str(site))
        self.viol.append((name, str(site), key or '%s@%s' % (name, site), msg))

    def check(self, cond, name, site, msg, key=None):
        if cond:
            self.ok(name, site)
        else:
            self.bad(name, site, msg, key)
        return cond

    def need(self, name, n):
        got = self.rules[name]['instances']
        if got < n:
            raise AnalysisError('rule %s matched %d instances, %d were confirmed by reading' % (name, got, n))


def known_for(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line or line.startswith('#') or line.startswith('fixed:'):
                continue
            # property=<id> key=<key> <what fails>
            p = dict(x.split('=', 1) for x in line.split()[:2] if '=' in x)
            if p.get('property') == prop:
                out.append((p.get('key', ''), line))
    return out


def main(prop, fn):
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '0') or 0)
    evid = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')
    os.makedirs(evid, exist_ok=True)
    rep = Report(prop)
    err = None
    try:
        fn(rep, tier)
    except AnalysisError as e:
        err = str(e)
    except Exception:
        err = traceback.format_exc()
    known = known_for(prop)
    new, old = [], []
    for v in rep.viol:
        k = [l for key, l in known if key == v[2]]
        (old if k else new).append((v, k[0] if k else None))
    obligations = sum(r['instances'] for r in rep.rules.values())
    discharged = sum(r['ok'] for r in rep.rules.values())
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'Static analysis of the compiler IR of the current /repo sources: every listed rule was '
                           'applied to every instance found; nothing was executed.',
            'units_analysed': rep.units,
            'rules': rep.rules,
            'rule_instances': obligations,
            'rule_instances_satisfied': discharged,
            'notes': rep.notes,
        },
        'assumptions': rep.assume,
        'wall_s': round(time.time() - rep.t0, 3),
        'violations': len(new),
    }
    if err:
        ev['coverage']['error'] = err[-2000:]
    path = os.path.join(evid, prop + '.json')
    with open(path, 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d rules, %d instances, %d satisfied, %.1fs' % (prop, len(rep.rules), obligations, discharged, time.time() - rep.t0))
    for n, r in rep.rules.items():
        print('  rule %-22s %3d/%3d  %s' % (n, r['ok'], r['instances'], r['rule']))
    for (v, k) in old:
        print('KNOWN-FINDING: property=%s %s (%s)' % (prop, v[3], v[1]))
    for (v, _) in new:
        print('  VIOLATED %s at %s: %s' % (v[0], v[1], v[3]))
    if new:
        rp = os.path.join(evid, prop + '.violation.json')
        with open(rp, 'w') as f:
            json.dump([{'rule': v[0], 'where': v[1], 'key': v[2], 'message': v[3]} for v, _ in new], f, indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        sys.exit(1)
    if err:
        print('ERROR: analysis could not be completed: ' + err)
        sys.exit(2)
    sys.exit(0)
