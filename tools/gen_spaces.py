"""Collect the spaces of the last quick runs (evidence/) into tools/spaces.json"""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PATH = os.path.join(HERE, 'tools', 'spaces.json')
spaces = json.load(open(PATH)) if os.path.exists(PATH) else {}
for i in range(1, 21):
    prop = f'C{i:02d}'
    try:
        doc = json.load(open(os.path.join(HERE, 'evidence', prop + '.json')))
    except OSError:
        continue
    if doc['tier'] == 'quick':
        spaces[prop] = [{k: s[k] for k in ('space', 'what', 'cases', 'states')} for s in doc['coverage']['spaces']]
    else:
        print(prop, 'is not a quick run')
json.dump(spaces, open(PATH, 'w'), indent=1, sort_keys=True)
