#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the catalogue of analysed units."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'sa'))
import catalogue
NA = catalogue.NOT_APPLICABLE
props = [json.loads(x) for x in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    ok = (i in catalogue.UNITS and catalogue.UNITS[i]) or i in catalogue.WITNESS
    if i in NA or not ok:
        na.append(dict(property=i, reason=NA.get(i, 'not covered yet by an analysed unit')))
        continue
    tech = []
    if catalogue.UNITS.get(i):
        tech.append('abstract interpretation of LLVM IR (polyhedra over sizes and offsets, segmented storage with lifetimes and ownership)')
    if i in catalogue.WITNESS:
        tech.append('type-level witnesses (static assertions, layout tables and must-not-compile programs checked by the compiler)')
    checks.append(dict(property=i, quick_cmd='python3 run.py check %s --tier quick' % i, thorough_cmd='python3 run.py check %s --tier thorough' % i,
                       evidence_file='evidence/%s.json' % i, technique='static analysis: ' + '; '.join(tech), level='other',
                       level_note=catalogue.NOTES.get(i, catalogue.NOTE)))
json.dump(dict(version=1, setup_cmd='python3 run.py setup', checks=checks, not_applicable=na,
               notes='No hooks in /repo. Units and rules: DESIGN.md; findings: KNOWN_FINDINGS.txt.'), open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
