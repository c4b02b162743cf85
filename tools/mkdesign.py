"""Writes DESIGN.md: tools/design_head.md, a section per property, and tools/design_tail.md."""
import importlib
import json
import os
import sys
HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HOME)


def read(name):
    with open(os.path.join(HOME, 'tools', name), encoding='utf-8') as f:
        return f.read()


notes = json.loads(read('notes.json'))
parts = [read('design_head.md')]
for line in open(os.path.join(HOME, 'properties.jsonl'), encoding='utf-8'):
    p = json.loads(line)
    pid = p['id']
    module = importlib.import_module('vf.checks.' + pid.lower())
    note = notes[pid]
    lines = ['### %s %s' % (pid, p['title']), '']
    lines.append('*Technique*: ' + note['technique'] + '.')
    lines.append('')
    lines.append('*Workload*: ' + module.RULE)
    lines.append('')
    lines.append('*Oracle*: ' + note['oracle'] + ' *Beyond the tests*: ' + note['why'])
    lines.append('')
    lines.append('*Bounds* (cases quick / thorough): ' + ', '.join('%s %d / %d' % (f['name'], f['quick'], f['thorough']) for f in module.FAMILIES) + '.')
    if getattr(module, 'ASSUMPTIONS', None):
        lines.append('')
        lines.append('*Assumptions*: ' + ' '.join(module.ASSUMPTIONS))
    parts.append('\n'.join(lines) + '\n')
parts.append(read('design_tail.md'))
with open(os.path.join(HOME, 'DESIGN.md'), 'w', encoding='utf-8') as f:
    f.write('\n'.join(parts))
