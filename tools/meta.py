#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

G = 'generated Go validators (templates/go, templates/goshared)'
GO_TECH = 'symbolic execution of the generated Go validators (go/ssa -> z3) against a reference evaluator'
GO_NOTE = ('Every path of the generated Validate/ValidateAll methods of a rule-matrix is executed symbolically and each path verdict is '
           'compared by z3 with an independent reference over all field values within the stated sizes; rule values are those of the matrix. '
           'Trusts go/ssa, the encoder (validated by replaying a witness of every path on the compiled code) and contract stubs of the standard library.')

P = []


def prop(i, title, statement, over, qtext, why, files, mech, observe, tech=None, note=None, level='model_checking', claimed=True, na=None):
    P.append(dict(id=i, title=title, statement=statement, quantifier={'over': over, 'text': qtext}, why_tests_cant=why,
                  anchors={'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech], 'observe_at': observe, 'hook_needed': None},
                  tech=tech, note=note, level=level, claimed=claimed, na=na))


exec(open(os.path.join(HERE, 'tools', 'props.py')).read())


def main():
    claimed = [p for p in P if p['claimed']]
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
            assert len(p['title']) <= 80, p['title']
    man = {'version': 1, 'setup_cmd': 'bash setup.sh',
           'checks': [{'property': p['id'], 'quick_cmd': './check.py %s quick' % p['id'], 'thorough_cmd': './check.py %s thorough' % p['id'],
                       'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['tech'], 'level': p['level'], 'level_note': p['note']} for p in claimed],
           'not_applicable': [{'property': p['id'], 'reason': p['na'] or 'check under construction'} for p in P if not p['claimed']],
           'notes': 'No hooks are added to /repo: the checks run the real plugin, encode what it generates and the generator functions themselves, and replay on the compiled code.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
