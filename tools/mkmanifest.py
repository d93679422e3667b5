#!/usr/bin/env python3
"""Regenerate MANIFEST.json from the table of claimed properties."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TAB = 'abstract interpretation of the compiled IR with trace partitioning, compared with a specification table'
EVT = 'abstract interpretation with event typestate on every path'
OWN = 'abstract interpretation with ownership and heap typestate'
NUM = 'relational abstract interpretation (linear inequalities, loop invariants)'
SHP = 'abstract interpretation of the compiled IR on partitioned screen shapes, compared with a reference model of rows and cells'
EFF = 'call-graph and effect analysis on the compiled IR'

CLAIMS = json.load(open(os.path.join(HERE, 'tools', 'claims.json')))
NA = json.load(open(os.path.join(HERE, 'tools', 'na.json')))
KIND = {'TAB': TAB, 'EVT': EVT, 'OWN': OWN, 'NUM': NUM, 'EFF': EFF, 'SHP': SHP}


def main():
    ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in ids:
        if p in CLAIMS:
            k, note = CLAIMS[p][:2]
            level = CLAIMS[p][2] if len(CLAIMS[p]) > 2 else 'proof'
            checks.append({'property': p, 'quick_cmd': 'python3 checks/run.py %s' % p,
                           'thorough_cmd': 'VERIF_TIER=thorough python3 checks/run.py %s' % p, 'evidence_file': 'evidence/%s.json' % p,
                           'technique': KIND.get(k, k), 'level': level, 'level_note': note})
        else:
            na.append({'property': p, 'reason': NA.get(p, 'no sound static check built yet; not claimed')})
    m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na}
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
    print('claimed:', [c['property'] for c in checks])


main()
