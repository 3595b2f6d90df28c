"""Writes MANIFEST.json from props.py."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from props import PROPS
doc = {'version': 1, 'setup_cmd': 'python3 run.py --setup',
       'checks': [{'property': p, 'quick_cmd': 'python3 run.py %s --tier quick' % p, 'thorough_cmd': 'python3 run.py %s --tier thorough' % p,
                   'evidence_file': 'evidence/%s.json' % p, 'technique': s['technique'], 'level': s['level'], 'level_note': s['note']} for p, s in sorted(PROPS.items())],
       'not_applicable': [],
       'notes': 'No hooks in /repo: the checks use its public interface, the headers its own tests use, its vcdiff program, sanitizers, allocator hooks and coverage instrumentation. Defects found are in known_findings.txt.'}
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(doc, f, indent=1)
    f.write('\n')
