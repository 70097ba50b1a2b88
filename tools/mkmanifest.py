#!/usr/bin/env python3
"""Regenerates MANIFEST.json."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from units import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IDS = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
from notes import NOTE, NA
TECH = 'contract-based deductive verification: Verus contracts on the functions of /repo extracted mechanically on every run, every obligation discharged by Z3; bounded replay on the real code searches a failing input'
checks = []
for p in IDS:
    if p not in PROPS: continue
    cmd = 'python3 tools/check.py %s --tier ' % p
    checks.append(dict(property=p, quick_cmd=cmd + 'quick', thorough_cmd=cmd + 'thorough', evidence_file='evidence/%s.json' % p, technique=PROPS[p].get('technique', TECH), level=PROPS[p].get('level', 'proof'), level_note=NOTE[p]))
m = dict(version=1, setup_cmd='bash tools/setup.sh',
    hooks=dict(guard='cfg(pest3_verif)', enable='RUSTFLAGS="--cfg pest3_verif" (only the replay harness; the verified text is the expansion of /repo without it)', source_commits=['d936188']),
    checks=checks, not_applicable=[dict(property=p, reason=NA[p]) for p in IDS if p not in PROPS],
    notes='See DESIGN.md. tools/mkmanifest.py writes this file.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
