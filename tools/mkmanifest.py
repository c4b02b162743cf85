"""Writes MANIFEST.json from the properties and the check modules."""
import json
import os
import sys
HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HOME)

NOTES = json.load(open(os.path.join(HOME, 'tools', 'notes.json'), encoding='utf-8'))
properties = [json.loads(line) for line in open(os.path.join(HOME, 'properties.jsonl'), encoding='utf-8')]
checks, missing = [], []
for p in properties:
    pid = p['id']
    if os.path.exists(os.path.join(HOME, 'vf', 'checks', pid.lower() + '.py')):
        note = NOTES.get(pid, {})
        checks.append({
            'property': pid,
            'quick_cmd': './run.sh %s' % pid,
            'thorough_cmd': './run.sh %s --tier thorough' % pid,
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': note.get('technique', 'runtime monitoring of the real code under generated workloads, judged online by an independent reference model'),
            'level': 'exploration',
            'level_note': note.get('note', 'Holds on every execution observed; reach is bounded by the generated workloads (counts in the evidence file). Trusts the reference model in vf/.')})
    else:
        missing.append({'property': pid, 'reason': 'No check has been built yet.'})
manifest = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': missing,
            'notes': 'All monitors attach from the harness; /repo needs no hooks. Theano runs with its Python backend, so checks always execute the current sources.'}
json.dump(manifest, open(os.path.join(HOME, 'MANIFEST.json'), 'w', encoding='utf-8'), indent=1, ensure_ascii=False)
print(len(checks), 'checks', len(missing), 'missing')
