#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run after properties.jsonl changes)."""
import json
import os
H = os.path.dirname(os.path.abspath(__file__))
T_PROOF = 'contracts on the real functions, obligations discharged by z3/cvc5 from the current source (symbolic interpretation of the AST)'
T_MIX = 'contracts on the real functions: obligations discharged by z3/cvc5 from the current source where in reach, the rest as bounded contract checks'
T_BND = 'executable contracts on the real functions, bounded check (stated per contract)'
COMMON = ('Trusted: the symbolic interpreter pv/, z3 and cvc5, the axioms of pv/lib.py for CPython built-ins and Cryptodome, json, base64, struct, hashlib, zlib, and the '
          'specification functions in specs/. ')
BND = 'Contracts that the verifier does not discharge are run on bounded concrete inputs (boundary sizes, constants of the current source, shrunk) and labelled bounded in the evidence. '
LEVEL = {}
for l in open(os.path.join(H, 'LEVELS')):
    if l.strip() and not l.startswith('#'):
        p, lev, note = l.strip().split(' ', 2)
        LEVEL[p] = (lev, note)
NA = {'C27': 'constant time is a property of the running time of pairs of executions on one interpreter; contracts over values cannot express it (that the comparison examines every '
             'octet before it answers is stated and checked functionally under C07)'}
checks = []
for l in open(os.path.join(H, 'properties.jsonl')):
    d = json.loads(l)
    p = d['id']
    if p in NA: continue
    lev, note = LEVEL[p]
    tech = {'proof': T_PROOF, 'other': T_MIX, 'exploration': T_BND}[lev]
    checks.append(dict(property=p, quick_cmd='python3 check.py ' + p, thorough_cmd='python3 check.py %s --thorough' % p, technique=tech, level=lev,
                       level_note=d['title'] + '. ' + ('' if note == '-' else note + ' ') + COMMON + ('' if lev == 'proof' else BND)))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=[dict(property=p, reason=r) for p, r in sorted(NA.items())],
         notes='No hooks in /repo. Known findings: KNOWN_FINDINGS. baseline.json lists the obligations that are discharged on the unchanged tree.')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
