"""Regenerates properties.jsonl and MANIFEST.json from tools/properties.py and the drivers in harness/props."""
import json, glob, os, sys, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools'); sys.path.insert(0, V + '/harness')
from properties import P
from notes import NOTES, NOT_CLAIMED
with open(V + '/properties.jsonl', 'w') as f:
    for (i, title, st, over, text, why, files, mech) in P:
        f.write(json.dumps({'id': i, 'title': title, 'statement': st, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
                            'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]}}) + '\n')
        assert len(title) <= 80, title
        for x in files:
            assert os.path.exists('/repo/' + x), x
checks, na = [], []
for (i, title, *_r) in P:
    d = glob.glob(V + '/harness/props/%s_*.py' % i.lower())
    if d and i not in NOT_CLAIMED:
        tech, note = NOTES[i]
        checks.append({'property': i, 'quick_cmd': 'bin/check ' + i, 'thorough_cmd': 'VERIF_TIER=thorough bin/check ' + i, 'technique': tech,
                       'level': 'model_checking', 'level_note': note})
    else:
        na.append({'property': i, 'reason': NOT_CLAIMED.get(i, 'the check of this property is not built yet')})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'notes': 'TLA+ specifications in spec/, drivers in harness/props, one runner bin/check; see DESIGN.md'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not')
