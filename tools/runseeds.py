"""Run the quick check of every planted bug's property against a scratch copy with the bug: python3 tools/runseeds.py [ID ...]

Writes tools/seed_results.json: {id: [outcome, space that reported it]}.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get('SEED_RESULTS', os.path.join(ROOT, 'tools', 'seed_results.json'))


def main():
    seeded = os.path.join(ROOT, 'seeded')
    ids = sys.argv[1:] or sorted(os.listdir(seeded))
    for name in ids:
        prop = json.load(open(os.path.join(seeded, name, 'meta.json'), encoding='utf-8'))['property']
        copy = f'/tmp/runseed-{name}'
        shutil.rmtree(copy, ignore_errors=True)
        subprocess.run(['cp', '-a', '/repo', copy], check=True)
        try:
            subprocess.run(['git', '-C', copy, 'apply', os.path.join(seeded, name, 'patch.diff')], check=True)
            begin = time.time()
            run = subprocess.run(['./check.sh', prop, 'quick', '--no-evidence'], cwd=ROOT, env={**os.environ, 'MC_REPO': copy}, capture_output=True, text=True, check=False)
            m = re.search(rf'^VIOLATION property={prop} replay=\S*/{prop}-(.+)-\d+\.json', run.stdout, re.M)
            result = ['caught' if run.returncode == 1 and m else f'missed (exit {run.returncode})', m.group(1) if m else None]
        finally:
            shutil.rmtree(copy, ignore_errors=True)
        results = json.load(open(OUT, encoding='utf-8')) if os.path.exists(OUT) else {}
        results[name] = [prop, *result]
        with open(OUT, 'w', encoding='utf-8') as fh:
            json.dump(dict(sorted(results.items())), fh, indent=0)
            fh.write('\n')
        print(name, prop, *result, f'{time.time() - begin:.0f} s', flush=True)


main()
