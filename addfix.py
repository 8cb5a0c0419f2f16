"""python3 addfix.py CNN 'what failed' - record the last /repo commit as a fix."""
import json
import subprocess
import sys
p = '/verif/known_findings.json'
d = json.load(open(p, encoding='utf-8'))
h = subprocess.check_output(['git', '-C', '/repo', 'log', '-1', '--format=%h'], text=True).strip()
d['fixed'].append(f'fixed: property={sys.argv[1]} {h} {sys.argv[2]}')
with open(p, 'w', encoding='utf-8') as fh:
    json.dump(d, fh, indent=1)
    fh.write('\n')
