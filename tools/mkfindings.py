"""Writes KNOWN_FINDINGS.json: the repaired defects (fix: commits in /repo) and
the findings that are recorded instead of repaired."""
import json
import os
import subprocess
HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# subject of the fix commit (start) -> properties that it broke
PROPERTIES = json.load(open(os.path.join(HOME, 'tools', 'fixes.json'), encoding='utf-8'))
KNOWN = json.load(open(os.path.join(HOME, 'tools', 'known.json'), encoding='utf-8'))
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], stdout=subprocess.PIPE, text=True).stdout
findings = []
for line in log.splitlines():
    commit, subject = line.split(' ', 1)
    if not subject.startswith('fix: '):
        continue
    subject = subject[5:]
    properties = [p for start, p in PROPERTIES.items() if subject.startswith(start)]
    assert len(properties) == 1, (subject, properties)
    for number, pid in enumerate(properties[0].split()):
        findings.append({'id': 'F-%s-%s' % (commit, pid), 'property': pid, 'status': 'fixed', 'commit': commit,
                         'what': 'fixed: property=%s %s %s' % (pid, commit, subject)})
findings += KNOWN
json.dump({'findings': findings}, open(os.path.join(HOME, 'KNOWN_FINDINGS.json'), 'w', encoding='utf-8'), indent=1, ensure_ascii=False)
print(len(findings))
