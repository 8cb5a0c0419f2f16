"""
Triage of a mutant: run every space of the given checks on a strided part of its cases (about T seconds of CPU per space).
usage: MC_REPO=copy lite.py T CHECK...   prints "CAUGHT check space idx key" or "SURVIVED"
A development aid only: the registered checks always run whole spaces.
"""
import importlib
import json
import os
import sys
import time
sys.path.insert(0, os.environ.get('LITE_VERIF', os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))))
from mc.run import prepare  # pylint: disable=wrong-import-position
prepare()
from mc import core  # pylint: disable=wrong-import-position
T = float(sys.argv[1])
COST = json.load(open('/tmp/mut/cost.json'))


def one(space, check, wfd):
    core._limits()
    cases, wall = COST.get(check, {}).get(space.name, [1000, 2.0])
    k = max(1, int(wall * 5.5 / T))
    if k > 2 and k % 2 == 0:
        k += 1
    if k % 3 == 0 and k > 3:
        k += 2
    if k % 5 == 0 and k > 5:
        k += 2
    if space.setup:
        space.setup()
    ctx = core.Ctx(space.name, {})
    end = time.process_time() + 3 * T
    gen = space.gen(0, k) if space.sharded and k > 1 else (space.gen(0, 1) if space.sharded else enumerate(space.gen()))
    count = 0
    for idx, case in gen:
        if not space.sharded and k > 1 and idx > 3 and idx % k != 1:
            continue
        count += 1
        res = core.run_case(space, case, ctx)
        if res is not None:
            os.write(wfd, f'{idx} {res[0][:80]}'.encode())
            return
        if time.process_time() > end:
            return


for check in sys.argv[2:]:
    module = importlib.import_module('mc.checks.' + check.lower())
    for space in module.spaces('quick'):
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rfd)
            code = 0
            try:
                sys.stderr = open(os.devnull, 'w')
                one(space, check, wfd)
            except BaseException as exc:
                os.write(wfd, ('harness ' + repr(exc)[:200]).encode())
            os._exit(code)
        os.close(wfd)
        data = os.fdopen(rfd, 'rb').read().decode()
        _, status = os.waitpid(pid, 0)
        if status and not data:
            data = f'crash {status}'
        if data:
            print('CAUGHT', check, space.name, data.replace('\n', ' '))
            sys.exit(0)
print('SURVIVED')
