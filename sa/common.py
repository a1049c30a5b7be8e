"""Shared runner: loads the program representation of /repo's current tree, runs one check,
writes evidence, applies the committed known-findings file, prints the verdict.

Exit status: 0 nothing violated on what was decided (undecided parts are listed in the evidence), 1 violation (with a
VIOLATION line), 3 the tree does not compile."""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)

import irlib
from irlib import AnalysisError


class Ctx:
    """lazily computed analyses of the current tree"""

    def __init__(self):
        self._m = self._eff = self._eng = None

    @property
    def m(self):
        if self._m is None:
            self._m = irlib.load()
        return self._m

    @property
    def eff(self):
        if self._eff is None:
            import effects
            self._eff = effects.Effects(self.m)
        return self._eff

    def fn(self, name):
        f = self.m.fns.get(name)
        if f is None:
            raise AnalysisError('anchor function %s is not defined in the library' % name)
        return f


class Finding:
    def __init__(self, key, where, rule, text, path=()):
        self.key = key      # stable identification: rule|function|construct (never a line number)
        self.where = where
        self.rule = rule
        self.text = text
        self.path = list(path)


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.findings = []
        self.counts = {}
        self.obligations = 0
        self.discharged = 0
        self.samples = []
        self.notes = []
        self.undecided = []
        self.rules = []

    def rule(self, text):
        self.rules.append(text)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def ob(self, ok, key, where, rule, text, path=()):
        """one obligation; a failing one becomes a finding"""
        self.obligations += 1
        if ok:
            self.discharged += 1
            if len(self.samples) < 12 and self.obligations % 7 == 1:
                self.samples.append('%s [%s]' % (key, where))
        else:
            self.bad(key, where, rule, text, path)
        return ok

    def bad(self, key, where, rule, text, path=()):
        if any(f.key == key for f in self.findings):
            return
        self.findings.append(Finding(key, where, rule, text, path))

    def need(self, cond, text):
        if not cond:
            raise AnalysisError(text)


def known(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return {}
    d = json.load(open(p))
    return {e['key']: e for e in d.get('findings', []) if e['property'] == prop}


def main(prop, run, level='proof', trusted=()):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    rep = Report(prop)
    rep.tier = tier
    ctx = Ctx()
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    evp = os.path.join(VERIF, 'evidence', prop + '.json')
    try:
        ctx.m               # the tree must compile to IR: without it there is no answer
    except Exception as e:
        print('ANALYSIS-BROKEN property=%s %s' % (prop, e))
        return 3
    try:
        run(ctx, rep)
    except AnalysisError as e:
        # code the analysis has no rule for: nothing is claimed about the rest, and nothing is alarmed about
        print('ANALYSIS-INCOMPLETE property=%s %s' % (prop, e))
        rep.undecided.append('analysis stopped: %s' % e)
    except Exception as e:
        traceback.print_exc()
        print('ANALYSIS-INCOMPLETE property=%s internal error' % prop)
        rep.undecided.append('analysis stopped: %s: %s' % (type(e).__name__, e))
    kn = known(prop)
    new, old = [], []
    for f in rep.findings:
        (old if f.key in kn else new).append(f)
    cov = {
        'explanation': ' '.join(rep.rules) or 'static analysis of the library IR',
        'obligations': rep.obligations,
        'discharged': rep.discharged,
        'checker_cmd': 'python3-vt /verif/check.py ' + prop,
        'trusted_base': ['clang 18 front end and debug info', 'sroa/loop-simplify passes',
                         'the analyser in /verif/sa'] + list(trusted),
        'rules': rep.rules,
        'counts': rep.counts,
        'samples': rep.samples[:12] or rep.notes[:12],
        'analysed': {'functions': len(ctx.m.fns), 'sources': len(irlib.library_sources())},
        'undecided': len(rep.undecided),
        'undecided_samples': [str(u) for u in rep.undecided[:20]],
        'findings': [{'key': f.key, 'where': f.where, 'text': f.text} for f in rep.findings],
    }
    json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
               'assumptions': rep.notes, 'wall_s': round(time.time() - t0, 2), 'violations': len(new)},
              open(evp, 'w'), indent=1)
    for f in old:
        print('KNOWN-FINDING: property=%s %s (%s)' % (prop, kn[f.key].get('what', f.text), f.where))
    for k, e in kn.items():
        if not any(f.key == k for f in rep.findings):
            print('note: known finding no longer present: ' + k)
    print('%s: %d obligations, %d discharged, %d undecided, %d known findings, %s, %.1f s' % (
        prop, rep.obligations, rep.discharged, len(rep.undecided), len(old),
        ' '.join('%s=%s' % kv for kv in sorted(rep.counts.items())), time.time() - t0))
    if new:
        rp = os.path.join(VERIF, 'evidence', prop + '.violation.txt')
        with open(rp, 'w') as fh:
            for f in new:
                fh.write('rule: %s\nwhere: %s\nkey: %s\n%s\n' % (f.rule, f.where, f.key, f.text))
                for s in f.path:
                    fh.write('  via %s\n' % (s,))
                fh.write('\n')
        for f in new[:40]:
            print('  [%s] %s: %s' % (f.rule, f.where, f.text))
            for s in f.path[:8]:
                print('      via %s' % (s,))
            print('      key %s' % f.key)
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    return 0
