"""Rewrites MANIFEST.json from properties.jsonl and contracts/notes.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from contracts import notes
m = json.load(open(HERE + '/MANIFEST.json'))
ids = [json.loads(l)['id'] for l in open(HERE + '/properties.jsonl') if l.strip()]
m['checks'] = [{'property': p, 'quick_cmd': 'python3-vt check.py %s --tier quick' % p, 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p,
                'technique': notes.TECH + (', with a bounded check of the functions out of reach' if notes.level(p) != 'proof' else ''),
                'level': notes.level(p), 'level_note': notes.note(p)} for p in ids]
m['not_applicable'] = []
json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1)
