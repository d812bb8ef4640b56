"""writes MANIFEST.json from dv/registry.py and notes below"""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from dv.registry import PROPS, NOTES

checks = []
for pid in sorted(PROPS):
    p = PROPS[pid]
    proof = p['level'] == 'proof'
    checks.append(dict(
        property=pid,
        quick_cmd='./check %s quick' % pid,
        thorough_cmd='./check %s thorough' % pid,
        evidence_file='evidence/%s.json' % pid,
        technique=(
            'contract-based deductive verification: contracts on the real '
            'functions, obligations generated by symbolic execution of the '
            'imported code, discharged by normal form, z3 and cvc5'
            if proof else
            'executable contracts on the real code evaluated on sampled '
            'inputs (bounded stand-in of the deductive check)'),
        level=p['level'],
        level_note=NOTES.get(pid, p.get('note', '')) or
        'bounded: clauses evaluated on sampled inputs only'))
json.dump(dict(
    version=1,
    setup_cmd='./check --selftest',
    checks=checks,
    not_applicable=[],
    notes='No hooks in /repo: contracts are attached from /verif/dv to the '
          'imported functions.'),
    open('MANIFEST.json', 'w'), indent=1)
