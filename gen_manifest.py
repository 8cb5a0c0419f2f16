"""Write MANIFEST.json from the check modules that exist (python gen_manifest.py)."""
import json
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))
TECH = json.load(open(os.path.join(HERE, 'techniques.json'), encoding='utf-8'))
props = [json.loads(line)['id'] for line in open(os.path.join(HERE, 'properties.jsonl'), encoding='utf-8')]
checks, missing = [], []
for prop in props:
    path = os.path.join(HERE, 'mc', 'checks', prop.lower() + '.py')
    if not os.path.exists(path) or prop not in TECH:
        missing.append({'property': prop, 'reason': 'the check for this property is not built yet'})
        continue
    level = re.search(r"^LEVEL = '(\w+)'", open(path, encoding='utf-8').read(), re.M).group(1)
    checks.append({'property': prop, 'quick_cmd': f'./check.sh {prop} quick', 'thorough_cmd': f'./check.sh {prop} thorough',
                   'technique': TECH[prop][0], 'level': level, 'level_note': TECH[prop][1]})
doc = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': missing,
       'notes': 'Pure-Python explorer in mc/; no hooks in /repo. Replay a counterexample with ./check.sh <ID> quick --replay <file>.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8') as fh:
    json.dump(doc, fh, indent=1)
    fh.write('\n')
