"""Findings, known findings, evidence."""
import json
import os
import time

VERIF = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Result:
    def __init__(self, prop):
        self.prop = prop
        self.findings = {}
        self.obligations = 0
        self.proved = 0
        self.undecided = {}
        self.samples = []
        self.counts = {}
        self.rules = []
        self.t0 = time.time()

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def ob(self, n=1):
        self.obligations += n

    def ok(self, n=1, sample=None):
        self.obligations += n
        self.proved += n
        if sample and len(self.samples) < 12:
            self.samples.append(sample)

    def und(self, why, n=1):
        self.obligations += n
        self.undecided[why] = self.undecided.get(why, 0) + n

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def merge(self, o):
        for k, f in o.findings.items():
            self.findings.setdefault(k, f)
        self.obligations += o.obligations
        self.proved += o.proved
        for w, n in o.undecided.items():
            self.undecided[w] = self.undecided.get(w, 0) + n
        for w, n in o.counts.items():
            self.counts[w] = self.counts.get(w, 0) + n
        for r in o.rules:
            self.rule(r)
        self.samples = (self.samples + o.samples)[:12]

    def bad(self, key, msg, file=None, line=None, func=None):
        """key identifies rule + construct, without positions"""
        self.obligations += 1
        if key not in self.findings:
            self.findings[key] = {'key': key, 'message': msg, 'file': file, 'line': line, 'function': func}


def known():
    out = {}
    p = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(p):
        with open(p) as f:
            for e in json.load(f)['known']:
                out[(e['property'], e['key'])] = e
    return out


def finish(res, tier, level, seed):
    kf = known()
    new, old = [], []
    for k, f in sorted(res.findings.items()):
        (old if (res.prop, k) in kf else new).append(f)
    os.makedirs(os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence')), exist_ok=True)
    rep = os.path.join(os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence')), res.prop + '.findings.json')
    cov = {
        'explanation': 'Static analysis of the current source of /repo; every obligation is a construct (access, call '
                       'site, path, parameter) the rule was applied to on this run.',
        'rules': res.rules,
        'obligations': res.obligations,
        'discharged': res.proved,
        'undecided': res.undecided,
        'analysed': res.counts,
        'samples': res.samples,
        'known_findings': [f['key'] for f in old],
        'new_findings': [f for f in new],
    }
    ev = {'property': res.prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'wall_s': round(time.time() - res.t0, 3), 'violations': len(new),
          'assumptions': ['array dimensions and grid sizes are at least 1',
                          'what the analysis cannot decide is listed under undecided and is not reported']}
    with open(os.path.join(os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence')), res.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    with open(rep, 'w') as f:
        json.dump({'property': res.prop, 'violations': new, 'known': old}, f, indent=1, default=str)
    for f in old:
        print('KNOWN-FINDING: property=%s %s' % (res.prop, f['message']))
    for f in new:
        print('%s:%s: in %s: [%s] %s' % (f['file'], f['line'], f['function'], f['key'], f['message']))
    print('%s: %d obligations, %d discharged, %d undecided, %d known, %d new; %s' % (
        res.prop, res.obligations, res.proved, sum(res.undecided.values()), len(old), len(new), res.counts))
    if new:
        print('VIOLATION property=%s replay=%s' % (res.prop, rep))
        return 1
    return 0
