#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
TEXT = 'Every recorded call is compared by TLC with a functional TLA+ specification of lexeme-to-token processing; exhaustive over small identifiers, numbers and blank patterns, seeded-random over programs in 40 languages. Trusts pygments and Unicode tables.'
CLAIMED = {
 'C01': ('TLA+ trace validation of text-API calls (TLC) against spec/TextTrace.tla', TEXT),
 'C02': ('TLA+ trace validation of returned metadata (TLC) against spec/TextTrace.tla', TEXT),
 'C03': ('TLA+ trace validation of identifier/number splitting (TLC), small-scope exhaustive', TEXT),
 'C04': ('TLA+ trace validation of option combinations (TLC) relative to the unfiltered call', TEXT),
 'C05': ('TLA+ state machine of BPE encoding (TLC), conformance of recorded encodings', TEXT),
 'C06': ('TLA+ trace validation of atomic tokens and the non-processable set (TLC)', TEXT),
}
extra = os.path.join(V, 'tools', 'claims.json')
if os.path.exists(extra):
    CLAIMED.update({k: tuple(v) for k, v in json.load(open(extra)).items()})
m = {'version': 1, 'setup_cmd': 'python3 harness/setup.py',
     'checks': [{'property': p, 'quick_cmd': 'VERIF_TIER=quick python3 harness/check.py ' + p,
                 'thorough_cmd': 'VERIF_TIER=thorough python3 harness/check.py ' + p,
                 'technique': CLAIMED[p][0], 'level': 'model_checking', 'level_note': CLAIMED[p][1]}
                for p in props if p in CLAIMED],
     'not_applicable': [{'property': p, 'reason': 'check not built yet'} for p in props if p not in CLAIMED],
     'notes': 'No hooks: the public functions and files already expose the abstract state, so /repo carries only fix: commits.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
