"""
python -m mc.run <PROPERTY> [--tier quick|thorough] [--space NAME] [--replay FILE]

Exit 0: the property held on everything explored. Exit 1: VIOLATION line. Exit 2: error of the check.
"""

import argparse
import atexit
import importlib
import json
import os
import shutil
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def prepare():
    """Import the code under test from the working tree, without writing byte code next to it."""
    repo = os.environ.get('MC_REPO', '/repo')
    pid = os.getpid()
    cache = tempfile.mkdtemp(prefix='mc-pyc-')
    atexit.register(lambda: shutil.rmtree(cache, ignore_errors=True) if os.getpid() == pid else None)
    sys.pycache_prefix = cache
    sys.path.insert(0, os.path.join(repo, 'src'))
    if VERIF not in sys.path:
        sys.path.insert(1, VERIF)
    os.environ['TZ'] = 'UTC'
    time.tzset()
    import bare_script  # pylint: disable=import-outside-toplevel
    origin = os.path.realpath(bare_script.__file__)
    if not origin.startswith(os.path.realpath(repo) + os.sep):
        raise SystemExit(f'mc: bare_script was imported from {origin}, not from {repo}')
    return repo


def shown(case, limit=600):
    text = json.dumps(case, ensure_ascii=True, default=repr)
    return text if len(text) <= limit else text[:limit] + '...'


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=None, choices=['quick', 'thorough'])
    ap.add_argument('--space', action='append')
    ap.add_argument('--replay')
    ap.add_argument('--no-evidence', action='store_true')
    args = ap.parse_args()
    tier = args.tier or os.environ.get('VERIF_TIER') or 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    prepare()

    from mc import core  # pylint: disable=import-outside-toplevel
    module = importlib.import_module('mc.checks.' + args.property.lower())
    prop = module.PROPERTY
    known = core.load_known(prop)
    started = time.time()

    if args.replay:
        with open(args.replay, encoding='utf-8') as fh:
            doc = json.load(fh)
        spaces = {s.name: s for t in ('quick', 'thorough') for s in module.spaces(t)}
        if doc.get('tier'):
            spaces.update({s.name: s for s in module.spaces(doc['tier'])})
        space = spaces[doc['space']]
        if space.setup is not None:
            space.setup()
        ctx = core.Ctx(space.name, {})
        res = None
        if doc['kind'] == 'case':
            res = core.run_case(space, doc['case'], ctx)
        else:
            for i, c in core._cases(space, *doc['shard']):
                res = core.run_case(space, c, ctx)
                if res is not None or i >= doc['index']:
                    break
        if res is None:
            print('replay: no violation')
            return 0
        print(f'replay: {res[0]}\n{res[1][:6000]}')
        print(f'VIOLATION property={prop} replay={args.replay}')
        return 1

    budget = float(os.environ.get('MC_BUDGET', '780' if tier == 'thorough' else '600'))
    deadline = started + budget
    totals = {'evaluations': 0, 'states': 0, 'transitions': 0, 'traces': 0, 'nontrivial': 0}
    distinct = 0
    distinct_full = False
    space_rows = []
    samples = []
    exhaustive = True
    violation = None
    known_hits = {}
    notes = []
    for space in module.spaces(tier):
        if args.space and space.name not in args.space:
            continue
        t0 = time.time()
        res = core.run_space(space, known, deadline)
        if res['harness_error'] and not res['violations']:
            print('mc: ' + res['harness_error'])
            return 2
        totals['evaluations'] += res['count']
        for key in ('states', 'transitions', 'traces', 'nontrivial'):
            totals[key] += res[key]
        distinct += len(res['distinct'])
        distinct_full = distinct_full or res['distinct_full']
        for k, v in res['known_hits'].items():
            known_hits[k] = known_hits.get(k, 0) + v
        row = {'space': space.name, 'what': space.what, 'cases': res['count'], 'states': res['states'],
               'transitions': res['transitions'], 'distinct_outcomes': len(res['distinct']), 'complete': res['done'],
               'wall_s': round(time.time() - t0, 2)}
        if res['notes']:
            row['notes'] = dict(sorted(res['notes'].items()))
        exhaustive = exhaustive and res['done']
        space_rows.append(row)
        for idx, case in res['samples'][:2] + res['samples'][-1:]:
            samples.append({'space': space.name, 'index': idx, 'case': json.loads(json.dumps(case, default=repr))
                            if len(json.dumps(case, default=repr)) < 2000 else shown(case)})
        print(f"  {space.name}: {res['count']} cases, {res['states']} states, {len(res['distinct'])} outcomes, "
              f"{time.time() - t0:.1f} s{'' if res['done'] else ' (CAPPED)'}", flush=True)
        for found in res['violations']:
            kind = core.confirm(space, found, known, core.WORKERS)
            if kind is None:
                if found[2] == 'timeout':
                    notes.append(f'space {space.name} case {found[0]}: CPU time-out not reproduced, ignored')
                    exhaustive = False
                    continue
                kind = ('shard', found[2], found[3] + '\n(not reproduced when re-run: depends on state outside the case)')
            violation = (space, found, kind)
            break
        if violation is not None:
            break

    for key, what in known.items():
        if known_hits.get(key):
            print(f'KNOWN-FINDING: property={prop} {what} [{known_hits[key]} cases]')

    replay = None
    if violation is not None:
        space, found, (kind, key, message) = violation
        idx, case, _k, _m, w = found
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        replay = os.path.join(VERIF, 'replays', f'{prop}-{space.name}-{idx}.json')
        with open(replay, 'w', encoding='utf-8') as fh:
            json.dump({'property': prop, 'space': space.name, 'tier': tier, 'kind': kind, 'index': idx, 'shard': [w, core.WORKERS],
                       'key': key, 'case': case, 'message': message[:20000]}, fh, indent=1, default=repr)
        print(f'space: {space.name} ({space.what})')
        print(f'case {idx}: {shown(case)}')
        print(f'{key}: {message[:3000]}')

    wall = round(time.time() - started, 2)
    level = module.LEVEL
    coverage = {'exhaustive': exhaustive and violation is None, 'spaces': space_rows, 'samples': samples[:40],
                'distinct_outcomes': distinct, 'distinct_outcomes_capped': distinct_full}
    if notes:
        coverage['caps'] = notes
    if level == 'model_checking':
        coverage.update({'states': totals['states'], 'transitions': totals['transitions'],
                         'traces_validated_against_impl': totals['traces'] or totals['evaluations'],
                         'evaluations': totals['evaluations']})
    else:
        coverage.update({'evaluations': totals['evaluations'], 'distinct_nontrivial': distinct,
                         'rule': getattr(module, 'RULE', 'every case of the listed finite spaces, in order; distinct = distinct digests of '
                                                          'the observed outcome of a case')})
        if totals['states']:
            coverage.update({'states': totals['states'], 'transitions': totals['transitions']})
    if not args.no_evidence:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w', encoding='utf-8') as fh:
            json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': coverage,
                       'assumptions': module.ASSUMPTIONS, 'wall_s': wall, 'violations': 1 if violation else 0}, fh, indent=1)
    print(f"{prop} {tier}: {totals['evaluations']} cases, {distinct} distinct outcomes, {wall} s")
    if violation is not None:
        print(f'VIOLATION property={prop} replay={replay}')
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
