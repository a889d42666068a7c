"""Findings, known findings, evidence, exit codes."""
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.txt')


class Finding(object):
    def __init__(self, rule, construct, where, message):
        self.rule = rule              # rule id, e.g. C01.unguarded-edit
        self.construct = construct    # stable key (no line numbers)
        self.where = where            # file:line
        self.message = message

    @property
    def key(self):
        return '%s|%s' % (self.rule, self.construct)

    def text(self):
        return '%s: [%s] %s -- %s' % (self.where, self.rule, self.construct, self.message)


class Result(object):
    def __init__(self):
        self.findings = []
        self.coverage = {}
        self.assumptions = []
        self.explanation = ''
        self.floors = []              # (label, measured, floor)

    def add(self, rule, construct, where, message):
        f = Finding(rule, construct, where, message)
        if f.key not in set(x.key for x in self.findings):
            self.findings.append(f)

    def count(self, label, n, floor=None):
        self.coverage[label] = n
        if floor is not None:
            self.floors.append((label, n, max(1, int(floor * 0.6))))   # slack for refactorings


def known_findings(pid):
    out = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                line = line.rstrip('\n')
                if line.startswith('KNOWN-FINDING: property=%s ' % pid):
                    rest = line.split(' ', 2)[2]
                    key, _, desc = rest.partition(' :: ')
                    out[key.strip()] = desc.strip()
    return out


def run_check(pid, ruleset, repo='/repo'):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from .index import AnalysisBroken
    try:
        res = ruleset(repo, tier)
        kn = known_findings(pid)
        for label, n, floor in res.floors:
            if n < floor and all(f.key in kn for f in res.findings):
                raise AnalysisBroken('%s: only %d analysed, at least %d expected' % (label, n, floor))
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        return 2
    except Exception:
        print('\n'.join(traceback.format_exc().splitlines()[-14:]))
        print('ANALYSIS-BROKEN property=%s internal error' % pid)
        return 2
    known = known_findings(pid)
    new, old = [], []
    for f in res.findings:
        (old if f.key in known else new).append(f)
    cov = dict(res.coverage)
    cov['explanation'] = res.explanation
    cov['findings_reported'] = [f.text() for f in new]
    cov['known_findings_seen'] = [f.text() for f in old]
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': res.assumptions, 'wall_s': round(time.time() - t0, 3), 'violations': len(new)}
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
    for f in old:
        print('KNOWN-FINDING: property=%s %s :: %s' % (pid, f.key, known[f.key]))
    for k, v in sorted(res.coverage.items()):
        if isinstance(v, (int, float)):
            print('  %s = %s' % (k, v))
    if new:
        rp = os.path.join(evdir, pid + '.violations.txt')
        with open(rp, 'w') as f:
            for x in new:
                f.write(x.text() + '\n')
        for x in new:
            print(x.text())
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('OK property=%s (%d known findings, %.1fs)' % (pid, len(old), time.time() - t0))
    return 0
