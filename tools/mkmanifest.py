"""writes /verif/MANIFEST.json from tools/config.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from config import PROPS, NOTES, NOT_APPLICABLE
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = []
for p in sorted(PROPS):
    checks.append({
        'property': p,
        'quick_cmd': 'python3 tools/check.py ' + p,
        'thorough_cmd': 'VERIF_TIER=thorough python3 tools/check.py ' + p,
        'evidence_file': 'evidence/%s.json' % p,
        'technique': 'contract-based deductive verification (Verus/Z3) of the functions extracted from /repo/src on every run',
        'level': 'proof',
        'level_note': NOTES[p] + ' Common trust: the extractor (normal form stated in DESIGN.md), Verus, Z3, the vstd and vshim specifications of std. A bounded executable search over the real crate validates the assumed contracts and looks for failing inputs; it is never counted as proof.',
    })
ids = [json.loads(l)['id'] for l in open(os.path.join(VERIF, 'properties.jsonl'))]
na = [{'property': i, 'reason': NOT_APPLICABLE.get(i, 'no contract has been discharged for it yet')} for i in ids if i not in PROPS]
json.dump({
    'version': 1,
    'setup_cmd': 'cd harness && CARGO_TARGET_DIR=/verif/.build cargo build --offline --quiet',
    'checks': checks, 'not_applicable': na,
    'notes': 'No hooks in /repo: every function is reached through extraction or the public API. See DESIGN.md.',
}, open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', 'not applicable:', [x['property'] for x in na])
