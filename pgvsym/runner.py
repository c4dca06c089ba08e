"""Check results, evidence, known findings, exit codes."""
import json
import os
import sys
import time

from .util import VERIF, T0, log
from .core import Stats

KNOWN = os.path.join(VERIF, 'known_findings.json')


CURRENT = None


class Result:
    def __init__(self, prop, tier, seed, level='model_checking'):
        global CURRENT
        CURRENT = self
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.violations = []
        self.known_hits = {}
        self.stats = Stats()
        self.validated = 0          # witness paths replayed on the real code and agreeing
        self.mismatch = []          # replays that disagree with the encoding
        self.unconfirmed = []       # counterexamples that did not reproduce
        self.inconclusive = []
        self.samples = []
        self.bounds = []
        self.assumptions = []
        self.functions = set()
        self.programs = 0
        self.extra = {}
        self.known = [k for k in json.load(open(KNOWN))['findings'] if k['property'] == prop and k['status'] == 'known']

    def violation(self, key, what, replay):
        """key identifies the failing input/site for the known-findings file."""
        for k in self.known:
            if k['key'] == key:
                self.known_hits[key] = k['what']
                return False
        self.violations.append((key, what, replay))
        return True

    def finish(self):
        ev = os.path.join(VERIF, 'evidence')
        rd = os.path.join(ev, 'replays')
        os.makedirs(rd, exist_ok=True)
        for k in sorted(self.known_hits):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, self.known_hits[k]))
        lines = []
        for i, (key, what, replay) in enumerate(self.violations[:10]):
            p = os.path.join(rd, '%s-%d.json' % (self.prop, i))
            with open(p, 'w') as f:
                json.dump({'property': self.prop, 'key': key, 'what': what, 'replay': replay}, f, indent=1, default=str)
            lines.append('VIOLATION property=%s replay=%s' % (self.prop, p))
            print('%s: %s' % (key, what[:1500]))
        s = self.stats
        cov = {
            'states': s.paths, 'transitions': s.decisions, 'traces_validated_against_impl': self.validated,
            'samples': self.samples[:12] or ['none'],
            'programs_encoded': self.programs,
            'functions_encoded': len(self.functions | s.functions),
            'functions': sorted(self.functions | s.functions)[:400],
            'stubs': sorted(s.stubs)[:200],
            'bounds': self.bounds,
            'queries': s.queries, 'solver_s': round(s.solver_s, 2), 'solver_unknown': s.unknown,
            'instructions_executed': s.steps, 'paths_cut': s.cut,
            'unsupported': s.unsupported,
            'replay_mismatches': self.mismatch[:20], 'unconfirmed_counterexamples': self.unconfirmed[:20],
            'inconclusive': self.inconclusive[:20],
            'explanation': 'states = symbolic paths fully explored; transitions = symbolic branch decisions; each path ends in a '
                           'solver query path AND NOT dont-care AND (verdict differs from the reference).',
        }
        cov.update(self.extra)
        out = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
               'assumptions': self.assumptions, 'wall_s': round(time.time() - T0, 2), 'violations': len(self.violations)}
        tmp = os.path.join(ev, '.%s.tmp' % self.prop)
        with open(tmp, 'w') as f:
            json.dump(out, f, indent=1, default=str)
        os.replace(tmp, os.path.join(ev, self.prop + '.json'))
        for u in self.unconfirmed[:5]:
            print('note: unconfirmed counterexample (encoder limit, not reported): %s' % (str(u)[:300],))
        for u in self.inconclusive[:5]:
            print('note: inconclusive: %s' % (str(u)[:300],))
        for k, v in list(s.unsupported.items())[:5]:
            print('note: not encodable on %d path(s): %s' % (v, k))
        print('%s %s: %d paths, %d decisions, %d queries (%.1fs solver), %d replays agree, %d violations, %.1fs' % (
            self.prop, self.tier, s.paths, s.decisions, s.queries, s.solver_s, self.validated, len(self.violations), time.time() - T0))
        for l in lines:
            print(l)
        return 1 if lines else 0
