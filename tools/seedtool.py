"""Plant a bug in a scratch copy of /repo, confirm it, and keep it as /verif/seeded/<id>.

    python3 tools/seedtool.py SPECS.py [ID ...]

SPECS.py defines SEEDS, a list of dicts: id, property, edits [(file, old, new), ...], demo (Python text), needs, breaks.
A seed is kept only if the patch applies, the tests pass, and the demo passes without and fails with the patch.
Then the property's quick check is run against the scratch copy, and the outcome printed.
"""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys

REPO = '/repo'
DEMO_SH = '''#!/bin/bash
# Run with cwd /repo: exits 0 if the behaviour demonstrated in demo.py is right
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" exec "$PY" "$(dirname "$0")/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, check=False, timeout=900, **kw)


def tests(copy):
    out = sh([ '/opt/venv/bin/python', '-m', 'unittest', '-q'], cwd=copy + '/src', env={**os.environ, 'PYTHONPATH': copy + '/src'})
    return out


def main():
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    only = sys.argv[2:]
    for seed in seeds:
        if only and seed['id'] not in only:
            continue
        copy = f'/tmp/seedcopy-{seed["id"]}'
        if os.path.exists(copy):
            shutil.rmtree(copy)
        subprocess.run(['cp', '-a', REPO, copy], check=True)
        dest = f'/tmp/seeds/{seed["id"]}'
        shutil.rmtree(dest, ignore_errors=True)
        os.makedirs(dest)
        try:
            bad = False
            for file, old, new in seed['edits']:
                path = os.path.join(copy, 'src/bare_script', file)
                text = open(path, encoding='utf-8').read()
                if text.count(old) != 1:
                    print(seed['id'], 'EDIT matches', text.count(old), repr(old[:60]))
                    bad = True
                    break
                open(path, 'w', encoding='utf-8').write(text.replace(old, new))
            if bad:
                continue
            diff = sh(['git', '-C', copy, 'diff']).stdout
            # every removed line must be an original line
            base_lines = set()
            for file, _, _ in seed['edits']:
                base_lines.update(sh(['git', '-C', copy, 'show', f'7686ae6:src/bare_script/{file}']).stdout.splitlines())
            removed = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
            notorig = [l for l in removed if l not in base_lines and l.strip()]
            if notorig or not removed:
                print(seed['id'], 'NOTE lines not of the original repository:', notorig[:3], '(no line removed)' if not removed else '')
            with open(dest + '/patch.diff', 'w', encoding='utf-8') as fh:
                fh.write(diff)
            with open(dest + '/demo.py', 'w', encoding='utf-8') as fh:
                fh.write(seed['demo'])
            with open(dest + '/demo.sh', 'w', encoding='utf-8') as fh:
                fh.write(DEMO_SH)
            os.chmod(dest + '/demo.sh', 0o755)
            with open(dest + '/meta.json', 'w', encoding='utf-8') as fh:
                json.dump({'property': seed['property'], 'needs': seed['needs'], 'what_it_breaks': seed['breaks']}, fh, indent=1)
            good = sh(['bash', dest + '/demo.sh'], cwd=REPO)
            fail = sh(['bash', dest + '/demo.sh'], cwd=copy)
            env = {**os.environ, 'PYTHONPATH': copy + '/src'}
            test = sh(['bash', '/opt/vp/test.sh', f'/tmp/seedtest-{seed["id"]}.json']) if False else run_tests(copy)
            ok = good.returncode == 0 and fail.returncode != 0 and test == 'ok'
            print(seed['id'], 'demo', good.returncode, fail.returncode, 'tests', test, 'KEPT' if ok else 'REJECTED', flush=True)
            if not ok:
                print((good.stdout + good.stderr)[-600:], (fail.stdout + fail.stderr)[-300:])
                continue
            keep = f'/verif/seeded/{seed["id"]}'
            shutil.rmtree(keep, ignore_errors=True)
            shutil.copytree(dest, keep)
            if os.environ.get('NOCHECK'):
                continue
            check = sh(['bash', '/verif/check.sh', seed['property'], 'quick', '--no-evidence'], cwd='/verif', env={**env, 'MC_REPO': copy})
            lines = [l for l in (check.stdout + check.stderr).splitlines() if 'VIOLATION' in l]
            print('   check', check.returncode, 'CAUGHT' if check.returncode == 1 else 'MISSED', (lines or [''])[0][:160], flush=True)
        finally:
            shutil.rmtree(copy, ignore_errors=True)


def run_tests(copy):
    out = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'src/tests'], cwd=copy,
             env={**os.environ, 'PYTHONPATH': copy + '/src', 'PYTHONDONTWRITEBYTECODE': '1'})
    tail = out.stdout.strip().splitlines()[-1] if out.stdout.strip() else out.stderr[-200:]
    return 'ok' if out.returncode == 0 else tail


main()
