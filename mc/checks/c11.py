"""C11: value comparison is a total preorder and every consumer agrees with it."""

import datetime
import functools
import itertools
import os
import re
import time

from mc import impl, ref
from mc.core import Space

PROPERTY = 'C11'
LEVEL = 'exploration'
RULE = ('every ordered pair of the value pool (hence, through the rank argument, every triple) and every consumer call of the listed finite families runs on the real '
        'code and is compared with an independent comparator; distinct = distinct (types, results) combinations observed')
ASSUMPTIONS = [
    'two functions, and two regexes, compare equal (they have no order of their own)',
    'strings order by code point, booleans false < true, datetimes by instant in the process time zone',
    'timezone-aware datetimes that have no local equivalent (years 1 and 9999 at the range ends) are excluded'
]

UTC = datetime.timezone.utc


def tz(hours, minutes=0):
    return datetime.timezone(datetime.timedelta(hours=hours, minutes=minutes))


def fn_a(args, options):  # pylint: disable=unused-argument
    return None


def fn_b(args, options):  # pylint: disable=unused-argument
    return 1


DT = datetime.datetime

NUMBERS = [0.0, -0.0, 0, 1.0, 1, -1.0, -1, 2.0, 2, 0.5, -2.5, 10.0, 10, 1.0000000000000002, 0.1 + 0.2, 0.3, 5e-324, -5e-324, 255, 256, 257.0, 1e15, 10 ** 15,
           9007199254740992.0, 9007199254740992, 9007199254740993, 1e21, 10 ** 21, 1e300, -1e300, float('inf'), float('-inf'), 10 ** 400, -10 ** 400]
STRINGS = ['', ' ', '0', '1', '10', '2', 'A', 'B', 'a', 'a ', 'aa', 'ab', 'b', 'null', 'true', 'z', '\u00e9', '\uffff', '\U0001f600', '\n', 'number', '[]', '{}']
DATES = [DT(2024, 2, 29), datetime.date(2024, 2, 29), DT(2024, 2, 29, tzinfo=UTC), DT(2024, 2, 29, 5, tzinfo=tz(5)), DT(2024, 2, 29, tzinfo=tz(5, 45)),
         DT(2024, 2, 28, 19, tzinfo=tz(-5)), DT(2024, 2, 29, 0, 0, 0, 1), DT(2024, 2, 29, 0, 0, 0, 1000), DT(2024, 2, 29, 0, 0, 0, 999), datetime.date(2024, 3, 1), DT(2024, 3, 1),
         DT(1, 1, 1), DT(9999, 12, 31, 23, 59, 59, 999999), datetime.date(9999, 12, 31), datetime.date(1, 1, 1), DT(1970, 1, 1, tzinfo=UTC), DT(1969, 12, 31, 23, 59, 59, 999000),
         DT(2024, 11, 3, 5, 30, tzinfo=UTC), DT(2024, 11, 3, 6, 30, tzinfo=UTC), DT(2024, 11, 3, 1, 30), DT(2024, 3, 10, 2, 30), DT(2024, 3, 10, 7, 30, tzinfo=UTC)]
OTHERS = [None, False, True, re.compile('a'), re.compile('b', re.I), fn_a, fn_b]


def leaves():
    return OTHERS + NUMBERS + STRINGS + DATES


def containers(small, nest):
    """Arrays of length <= 2 and objects over {a, b} of the small values, then depth 2 and 3 over `nest` picks."""
    out = [[]]
    out += [[x] for x in small]
    out += [[x, y] for x in small for y in small]
    out += [{}]
    for key in 'ab':
        out += [{key: x} for x in small]
    for x in small:
        for y in small:
            out += [{'a': x, 'b': y}]
    out += [{'b': 2.0, 'a': 1.0}, {'aa': 1.0}, {'a ': 1.0}, {'A': 1.0}, {'': None}, {'c': None}, {'b': 1, 'a': 2, 'c': 0.0}, [1.0, 2.0, 3.0], [1, 2, 3], [1, 2, [3]]]
    inner = nest
    for x in inner:
        out += [[x], {'a': x}, {'b': x}, [x, 1], {'a': x, 'b': 0}, [[x]], [{'a': x}], {'a': [x]}, {'a': {'a': x}}]
    for x in inner:
        for y in inner:
            out += [[x, y], {'a': x, 'b': y}]
    return out


SMALL = [None, False, 0.0, 1, 'a', DT(2024, 2, 29)]
SMALL_DEEP = SMALL + [True, 1.0, -1, '', 'b', datetime.date(2024, 2, 29), DT(2024, 3, 1, tzinfo=UTC), fn_a]
NEST = [[], [1], [1.0, None], {}, {'a': 1}, {'a': None}]
NEST_DEEP = NEST + [[[]], [{}], {'b': 1.0}, {'a': {}}, {'a': []}, [None], [1.0, 2.0], {'a': 1.0, 'b': 2}, [datetime.date(2024, 2, 29)], ['a']]

SMALL_DEEPER = SMALL_DEEP + [2.5, 'ab', float('inf'), re.compile('a'), 10 ** 15, -0.0, DT(2024, 2, 29, 0, 0, 0, 1)]
NEST_DEEPER = NEST_DEEP + [[[[]]], {'a': {'a': {}}}, [{'a': []}], {'a': [{}]}, [1, [2]], [1.0, []], {'b': None}, {'aa': 1}, [True], [DT(2024, 2, 29)]]

def lengths():
    """Arrays, objects and strings of many lengths that differ nowhere, late, or only in length."""
    out = []
    for n in (3, 7, 8, 9, 15, 16, 17, 31, 33, 63, 65, 100, 127, 129, 255, 257, 1000, 1025):
        base = [float(i % 7) for i in range(n)]
        out += [base, base[:-1] + [7.0], base[:-1] + [-1], base[:-1] + [None], base[:-1], [0, *base[1:]], [base, n], [{'k': base}], [{'k': base[:-1] + [7]}]]
        keys = {f'k{i:04d}': i % 5 for i in range(n)}
        last = f'k{n - 1:04d}'
        out += [keys, {**keys, last: 9.0}, {**keys, last: None}, {k: v for k, v in keys.items() if k != last}, dict(reversed(list(keys.items()))), {**keys, 'z': None}]
        text = ''.join('abc'[i % 3] for i in range(n))
        out += [text, text[:-1] + 'd', text[:-1] + 'A', text[:-1], 'd' + text[1:], [text, 1], [text, 2.0]]
    deep = 1
    flat = None
    for n in range(1, 41):
        deep = [deep]
        flat = {'a': flat} if n % 2 else [flat]
        if n in (4, 5, 8, 16, 17, 32, 33, 40):
            out += [deep, [0, deep], flat, [flat, deep]]
    return out


POOLS = {
    'lengths': lengths,
    'deeper': lambda: leaves() + containers(SMALL_DEEPER, NEST_DEEPER),
    'quick': lambda: leaves() + containers(SMALL, NEST),
    'deep': lambda: leaves() + containers(SMALL_DEEP, NEST_DEEP),
    'dates': lambda: DATES + [[d] for d in DATES] + [{'a': d} for d in DATES] + [None, 0, 'a', [], {}],
}
_CACHE = {}


def pool(name):
    if name not in _CACHE:
        _CACHE[name] = POOLS[name]()
    return _CACHE[name]


OPS = ['==', '!=', '<', '<=', '>', '>=']
OP_EXPRS = [(op, {'binary': {'op': op, 'left': {'variable': 'p'}, 'right': {'variable': 'q'}}}) for op in OPS]
CMP_EXPR = {'function': {'name': 'systemCompare', 'args': [{'variable': 'p'}, {'variable': 'q'}]}}


def env(**values):
    out = dict(impl.lib())
    out.update(values)
    return {'globals': out, 'statementCount': 0, 'maxStatements': 0}


def real_compare(options, a, b, ctx):
    options['globals']['p'] = a
    options['globals']['q'] = b
    r = impl.evaluate_expression(CMP_EXPR, options)
    ctx.states += 1
    if isinstance(r, bool) or r not in (-1, 0, 1):
        ctx.fail('result', f'systemCompare({ref.show(a)}, {ref.show(b)}) is {r!r}')
    return r


def flip(v):
    """The same value with every integral number below 1e15 in the other host spelling."""
    t = ref.typ(v)
    if t == 'number':
        if isinstance(v, int):
            return float(v) if abs(v) < 10 ** 15 else v
        return int(v) if v == v and abs(v) < 1e15 and v == int(v) else v
    if t == 'array':
        return [flip(x) for x in v]
    if t == 'object':
        return {k: flip(x) for k, x in v.items()}
    return v


# ---------------------------------------------------------------------------------------------------------------
# pairs
# ---------------------------------------------------------------------------------------------------------------

def gen_pairs(name):
    def gen():
        for i in range(len(pool(name))):
            yield [name, i]
    return gen


def run_pairs(case, ctx):
    values = pool(case[0])
    a = values[case[1]]
    fa = flip(a)
    options = env()
    g = options['globals']
    before = ref.show(a)
    for b in values:
        want = ref.compare(a, b)
        got = real_compare(options, a, b, ctx)
        if got != want:
            ctx.fail('compare', f'systemCompare({ref.show(a)}, {ref.show(b)}) is {got}, expected {want}')
        back = real_compare(options, b, a, ctx)
        if back != -got:
            ctx.fail('antisymmetry', f'systemCompare({ref.show(b)}, {ref.show(a)}) is {back}, the other way {got}')
        flipped = real_compare(options, fa, b, ctx)
        if flipped != got or real_compare(options, b, fa, ctx) != -got:
            ctx.fail('spelling', f'systemCompare({fa!r}, {b!r}) is {flipped}, for the other spelling {a!r} {got}')
        g['p'], g['q'] = a, b
        for op, expr in OP_EXPRS:
            r = impl.evaluate_expression(expr, options)
            w = {'==': got == 0, '!=': got != 0, '<': got < 0, '<=': got <= 0, '>': got > 0, '>=': got >= 0}[op]
            ctx.states += 1
            if r is not w:
                ctx.fail('operator:' + op, f'{ref.show(a)} {op} {ref.show(b)} is {r!r}, the comparison is {got}')
        ctx.outcome((ref.typ(a), ref.typ(b), got))
    if ref.show(a) != before:
        ctx.fail('mutation', f'comparing changed {before} to {ref.show(a)}')


def gen_rank(name):
    def gen():
        yield [name]
    return gen


def run_rank(case, ctx):
    """The matrix of the real comparison is a total preorder: with r = number of strictly smaller values, M[i][j] == sign(r_i - r_j) for all pairs, which decides all triples."""
    values = pool(case[0])
    options = env()
    n = len(values)
    matrix = [[real_compare(options, a, b, ctx) for b in values] for a in values]
    ranks = [sum(1 for j in range(n) if matrix[j][i] < 0) for i in range(n)]
    for i in range(n):
        for j in range(n):
            if matrix[i][j] != ref.sign(ranks[i] - ranks[j]):
                # find the offending triple
                for k in range(n):
                    if matrix[i][k] <= 0 and matrix[k][j] <= 0 and matrix[i][j] > 0 or matrix[i][k] < 0 and matrix[k][j] <= 0 and matrix[i][j] >= 0:
                        ctx.fail('transitivity', f'{ref.show(values[i])} <= {ref.show(values[k])} <= {ref.show(values[j])} but not {ref.show(values[i])} <= {ref.show(values[j])}')
                ctx.fail('preorder', f'{ref.show(values[i])} and {ref.show(values[j])} are not ordered consistently')
    ctx.transitions += n * n * n
    ctx.outcome(sorted(set(ranks)))


# ---------------------------------------------------------------------------------------------------------------
# consumers
# ---------------------------------------------------------------------------------------------------------------

# class representatives: (nearly) equal values in several spellings, all nine types
REPS = [None, False, True, 0, 0.0, 1, 1.0, -2.5, 'a', 'B', DT(2024, 2, 29), datetime.date(2024, 2, 29), [], [1], {}, {'a': 1.0}, fn_a, re.compile('a')]
REPS_S = [None, True, 1, 1.0, 2.0, 'a', DT(2024, 2, 29), datetime.date(2024, 2, 29), [1], {'a': 1}]
PERM = [None, False, 1, 1.0, 'b', datetime.date(2024, 2, 29), [0, 1], {'b': 1}]
BIG_POOL = [None, False, True, 3.0, 1, 1.0, -1, 0.5, 'b', 'a', '', DT(2024, 2, 29), datetime.date(2024, 2, 28), [1, 2], [1], [], {'a': 2}, {'a': 1.0}, {}]


def call(options, name, *args):
    g = options['globals']
    exprs = []
    for ix, arg in enumerate(args):
        g[f'arg{ix}'] = arg
        exprs.append({'variable': f'arg{ix}'})
    return impl.evaluate_expression({'function': {'name': name, 'args': exprs}}, options)


def ident(v):
    return (type(v).__name__, ref.show(v))


def is_sorted(values, desc=False):
    return all((ref.compare(x, y) >= 0) if desc else (ref.compare(x, y) <= 0) for x, y in zip(values, values[1:]))


def check_sort(ctx, options, values, how):
    array = list(values)
    args = [array]
    if how == 'null':
        args.append(None)
    elif how == 'systemCompare':
        args.append(impl.lib()['systemCompare'])
    result = call(options, 'arraySort', *args)
    ctx.states += 1
    if not isinstance(result, list):
        ctx.fail('sort-result', f'arraySort({ref.show(list(values))}) is {ref.show(result)}')
    if sorted(map(ident, result)) != sorted(map(ident, values)):
        ctx.fail('sort-permutation', f'arraySort({ref.show(list(values))}) is {ref.show(result)}')
    if not is_sorted(result):
        ctx.fail('sort-order', f'arraySort({ref.show(list(values))}) is {ref.show(result)}')
    if list(map(ident, result)) != list(map(ident, array)):
        ctx.fail('sort-inplace', f'arraySort({ref.show(list(values))}) returned {ref.show(result)} and left {ref.show(array)}')
    ctx.outcome(tuple(ident(v) for v in result))


def check_minmax(ctx, options, values):
    for name, s in (('mathMin', -1), ('mathMax', 1)):
        r = call(options, name, *values)
        ctx.states += 1
        if not values:
            if r is not None:
                ctx.fail(name, f'{name}() is {ref.show(r)}')
            continue
        if ident(r) not in [ident(v) for v in values]:
            ctx.fail(name, f'{name}{ref.show(list(values))} is {ref.show(r)}, not an argument')
        if any(s * ref.compare(r, v) < 0 for v in values):
            ctx.fail(name, f'{name}{ref.show(list(values))} is {ref.show(r)}')


def check_index(ctx, options, values, needle, start):
    for name in ('arrayIndexOf', 'arrayLastIndexOf'):
        args = [list(values), needle] + ([] if start is None else [start])
        r = call(options, name, *args)
        n = len(values)
        if name == 'arrayIndexOf':
            scan = range(0 if start is None else int(start), n)
        else:
            scan = range(n - 1 if start is None else int(start), -1, -1)
        want = next((i for i in scan if i < n and ref.compare(values[i], needle) == 0), -1)
        if start is not None and start >= n:
            want = -1
        ctx.states += 1
        if isinstance(r, bool) or r != want:
            ctx.fail(name, f'{name}({ref.show(list(values))}, {ref.show(needle)}, {start}) is {ref.show(r)}, expected {want}')


def run_tuple(case, ctx):
    kind, which, *ixs = case
    source = {'reps': REPS, 'small': REPS_S, 'perm': PERM}[which]
    values = [source[i] for i in ixs]
    options = env()
    if kind == 'sort':
        for how in ('none', 'null', 'systemCompare'):
            check_sort(ctx, options, values, how)
        check_minmax(ctx, options, values)
    elif kind == 'index':
        for needle in source:
            if callable(needle):
                continue
            for start in [None] + [float(i) for i in range(len(values) + 1)]:
                check_index(ctx, options, values, needle, start)
                if start is not None:
                    check_index(ctx, options, values, needle, int(start))
    else:
        rows(ctx, options, values)


def rows(ctx, options, values):
    """dataSort by one key, by a key some rows lack, and by two keys, in each direction."""
    data = [{'k': v, 'j': (i % 2) * 1.0, 'id': i} if i % 3 != 2 or v is not None else {'j': (i % 2) * 1.0, 'id': i} for i, v in enumerate(values)]
    for sorts in ([['k']], [['k', False]], [['k', True]], [['j', True], ['k']], [['k'], ['j', True]], [['k', True], ['j']], [['none'], ['k', True]], []):
        table = [dict(r) for r in data]
        result = call(options, 'dataSort', table, [list(s) for s in sorts])
        ctx.states += 1
        if not isinstance(result, list) or sorted(ref.show(r) for r in result) != sorted(ref.show(r) for r in data):
            ctx.fail('dataSort-permutation', f'dataSort({ref.show(data)}, {sorts}) is {ref.show(result)}')

        def order(r1, r2):
            for s in sorts:
                c = ref.compare(r1.get(s[0]), r2.get(s[0]))
                if c:
                    return -c if len(s) > 1 and s[1] else c
            return 0
        if any(order(x, y) > 0 for x, y in zip(result, result[1:])):
            ctx.fail('dataSort-order', f'dataSort({ref.show(data)}, {sorts}) is {ref.show(result)}')
        ctx.outcome(tuple(r['id'] for r in result))


def gen_tuples(kind, which, size, upto):
    def gen(w, n):
        idx = 0
        for length in range(upto + 1):
            for ixs in itertools.product(range(size), repeat=length):
                if idx % n == w:
                    yield idx, [kind, which, *ixs]
                idx += 1
    return gen


def gen_perms(kind):
    def gen():
        for ixs in itertools.permutations(range(len(PERM))):
            yield [kind, 'perm', *ixs]
    return gen


# longer arrays: fixed patterns (the sort switches algorithm with the length)
def pattern(name, n, step):
    if name == 'cycle':
        return [(i * step) % len(BIG_POOL) for i in range(n)]
    if name == 'ascending':
        order = sorted(range(len(BIG_POOL)), key=functools.cmp_to_key(lambda i, j: ref.compare(BIG_POOL[i], BIG_POOL[j])))
        return [order[i * len(order) // n] for i in range(n)]
    if name == 'descending':
        return pattern('ascending', n, step)[::-1]
    if name == 'pipe':
        up = pattern('ascending', n, step)
        return up[::2] + up[1::2][::-1]
    # one element of an ascending run out of place
    up = pattern('ascending', n, step)
    up.insert((step * 7) % n, up.pop((step * 3) % n))
    return up


def gen_long():
    for n in (5, 16, 31, 32, 33, 63, 64, 65, 100, 129, 200):
        for name in ('ascending', 'descending', 'pipe'):
            yield [name, n, 1]
        for name in ('cycle', 'displaced'):
            for step in range(1, 19):
                yield [name, n, step]


def run_long(case, ctx):
    values = [BIG_POOL[i] for i in pattern(*case)]
    options = env()
    for how in ('none', 'systemCompare'):
        check_sort(ctx, options, values, how)
    check_minmax(ctx, options, values)
    rows(ctx, options, values)
    for needle in BIG_POOL:
        check_index(ctx, options, values, needle, None)
        check_index(ctx, options, values, needle, float(len(values) // 2))


# arrays of one to three kinds of values only (consumers may take a shorter way when all elements are of a kind)
GROUPS = {
    'int': [3, -2, 0, 1, 10 ** 16 + 1, 2], 'float': [2.5, -0.5, 1.0, 0.0, 1e16, 2.0], 'bool': [True, False], 'null': [None],
    'digits': ['10', '9', '1', '-1', '01'], 'string': ['b', '', 'B', 'ab', '\u00e9', 'a'], 'naive': [DT(2024, 2, 29), DT(2023, 1, 1, 5), DT(2024, 2, 29, 0, 0, 1)],
    'date': [datetime.date(2024, 2, 29), datetime.date(2023, 1, 1)], 'zoned': [DT(2024, 2, 29, tzinfo=tz(5)), DT(2024, 2, 28, 20, tzinfo=tz(-7)), DT(2024, 2, 28, 19, tzinfo=tz(0))],
    'array': [[2], [1, 5], [], [1], [True], [None, 1]], 'nested': [[[2], 1], [[1], 2], [[]], [[1, 1]]],
    'object': [{'b': 1}, {'a': 2}, {}, {'a': 1, 'b': 0}, {'a': True}], 'regex': [re.compile('b'), re.compile('a')]
}


def gen_groups(deep):
    def gen(w, n):
        idx = 0
        for size in (1, 2, 3):
            for groups in itertools.combinations(GROUPS, size):
                for length in (9, 17, 64, 70) if not deep else (9, 17, 33, 64, 65, 70, 129, 257, 1000):
                    for arrangement in ('round', 'blocks', 'blocks-reversed', 'one-first', 'one-middle', 'one-last'):
                        if size == 1 and arrangement not in ('round', 'blocks'):
                            continue
                        if idx % n == w:
                            yield idx, [list(groups), length, arrangement]
                        idx += 1
    return gen


def run_groups(case, ctx):
    groups, length, arrangement = case
    pools = [GROUPS[g] for g in groups]
    if arrangement == 'round':
        values = [pools[i % len(pools)][(i // len(pools) * 5) % len(pools[i % len(pools)])] for i in range(length)]
    elif arrangement.startswith('blocks'):
        values = [pools[i * len(pools) // length][(i * 5) % len(pools[i * len(pools) // length])] for i in range(length)]
        if arrangement == 'blocks-reversed':
            values.reverse()
    else:
        # all of one kind but for one element of each other kind
        values = [pools[0][(i * 5) % len(pools[0])] for i in range(length - len(pools) + 1)]
        at = {'one-first': 0, 'one-middle': length // 2, 'one-last': len(values)}[arrangement]
        values[at:at] = [pool_[-1] for pool_ in pools[1:]]
    options = env()
    for how in ('none', 'systemCompare'):
        check_sort(ctx, options, values, how)
    check_minmax(ctx, options, values)
    if length <= 70:
        rows(ctx, options, values)
    for needle in [v for p in pools for v in p[:2]] + [None, True, 1, 1.0, '1', [1.0], DT(2024, 2, 29)]:
        check_index(ctx, options, values, needle, None)


# the pool values as consumers' arguments: every ordered pair through min, max, indexOf, sort
def run_pair_consumers(case, ctx):
    values = pool(case[0])
    a = values[case[1]]
    options = env()
    for b in values:
        check_minmax(ctx, options, [a, b])
        check_sort(ctx, options, [a, b], 'none')
        if not callable(b):
            check_index(ctx, options, [a], b, None)
        result = call(options, 'dataSort', [{'k': a, 'i': 0}, {'k': b, 'i': 1}], [['k', True]])
        if not isinstance(result, list) or [r['i'] for r in result] != ([0, 1] if ref.compare(a, b) >= 0 else [1, 0]):
            ctx.fail('dataSort-order', f'dataSort of {ref.show(a)}, {ref.show(b)} descending is {ref.show(result)}')


# ---------------------------------------------------------------------------------------------------------------
# comparison inside expressions: literals, short-circuit operators and library calls around it
# ---------------------------------------------------------------------------------------------------------------

LITERALS = [('null', None), ('true', True), ('false', False), ('0', 0.0), ('1', 1.0), ('1.5', 1.5), ("''", ''), ("'a'", 'a'), ("'1'", '1'), ('arrayNew()', []), ('arrayNew(1, null)', [1.0, None]),
            ('objectNew()', {}), ("objectNew('a', 1)", {'a': 1.0}), ("objectNew('a', arrayNew(1))", {'a': [1.0]}), ('arrayLength(arrayNew(5))', 1), ('datetimeNew(2024, 2, 29)', DT(2024, 2, 29)),
            ("stringLength('ab')", 2), ('datetimeNew(2024, 1, 60)', DT(2024, 2, 29)), ("regexNew('a')", re.compile('a')), ('(2 - 1)', 1.0), ('-1', -1.0), ("datetimeISOParse('2024-02-29')", DT(2024, 2, 29)),
            ("jsonParse('[1, null]')", [1.0, None]), ("jsonParse('{\"a\": 1}')", {'a': 1.0}), ('numberParseInt(\'1\')', 1), ("numberParseFloat('1')", 1.0)]


def gen_literals():
    for i in range(len(LITERALS)):
        for j in range(len(LITERALS)):
            yield [i, j]


def run_literals(case, ctx):
    (ta, a), (tb, b) = LITERALS[case[0]], LITERALS[case[1]]
    c = ref.compare(a, b)
    lines = [f'x{ix} = ({ta} {op} {tb})' for ix, op in enumerate(OPS)]
    lines += [f'c = systemCompare({ta}, {tb})', f'mn = mathMin({ta}, {tb}, {ta})', f'mx = mathMax({tb}, {ta}, {tb})', f'ix = arrayIndexOf(arrayNew({ta}, {tb}), {tb})',
              f's = arraySort(arrayNew({tb}, {ta}, {tb}))', f'i = if({ta} < {tb}, 1, 2)', 'n = 0', f'if {ta} <= {tb}:', 'n = 1', 'endif', f'w = !({ta} > {tb}) && {ta} == {ta}']
    out = impl.run_script(impl.parse_script('\n'.join(lines)))
    g = out.globals
    ctx.states += 1
    lo, hi = (a, b) if c <= 0 else (b, a)
    want = {'x0': c == 0, 'x1': c != 0, 'x2': c < 0, 'x3': c <= 0, 'x4': c > 0, 'x5': c >= 0, 'c': c, 'ix': 0 if c == 0 else 1, 'i': 1 if c < 0 else 2, 'n': 1 if c <= 0 else 0, 'w': c <= 0}
    for key, value in want.items():
        if g.get(key) != value or isinstance(g.get(key), bool) != isinstance(value, bool):
            ctx.fail('script', f'{ta} and {tb}: {key} is {ref.show(g.get(key))}, expected {value}')
    for key, value in (('mn', lo), ('mx', hi)):
        if ref.typ(g.get(key)) != ref.typ(value) or ref.compare(g.get(key), value) != 0:
            ctx.fail('script', f'{ta} and {tb}: {key} is {ref.show(g.get(key))}, expected {ref.show(value)}')
    order = g.get('s')
    if ref.typ(order) != 'array' or len(order) != 3 or not is_sorted(order):
        ctx.fail('script', f'sorting {tb}, {ta}, {tb} gives {ref.show(order)}')
    ctx.outcome((case, c))


def set_tz(name):
    def setup():
        os.environ['TZ'] = name
        time.tzset()
    return setup


def spaces(tier):
    deep = tier == 'thorough'
    which = 'deeper' if deep else 'deep'
    small = 'deep' if deep else 'quick'
    n = len(pool(which))
    out = [
        Space('pairs', gen_pairs(which), run_pairs, f'all {n}^2 ordered pairs of the pool: the comparison both ways, in the other number spelling, and the six operators', cpu=120.0),
        Space('rank', gen_rank(which), run_rank, f'total preorder over all {n}^3 triples of the pool (rank argument on the real comparison matrix)', cpu=300.0),
        Space('lengths', gen_pairs('lengths'), run_pairs, f'all {len(pool("lengths"))}^2 ordered pairs of arrays, objects and strings of up to 1025 elements and nested up to 40 deep', cpu=120.0),
        Space('lengths-rank', gen_rank('lengths'), run_rank, 'total preorder over these', cpu=300.0),
        Space('consumers', gen_pairs(small), run_pair_consumers, f'all {len(pool(small))}^2 ordered pairs through mathMin, mathMax, arraySort, arrayIndexOf, arrayLastIndexOf and dataSort', cpu=300.0),
        Space('sorts', gen_tuples('sort', 'reps', len(REPS), 4), run_tuple, f'all arrays of length <= 4 over {len(REPS)} values: arraySort, mathMin, mathMax', sharded=True),
        Space('sorts-small', gen_tuples('sort', 'small', len(REPS_S), 5 if not deep else 6), run_tuple, f'all arrays of length <= 5 (6) over {len(REPS_S)} values', sharded=True),
        Space('sort-permutations', gen_perms('sort'), run_tuple, f'all permutations of {len(PERM)} values'),
        Space('index', gen_tuples('index', 'reps', len(REPS), 2), run_tuple, f'all arrays of length <= 2 over {len(REPS)} values x needle x start', sharded=True),
        Space('index-small', gen_tuples('index', 'small', len(REPS_S), 3), run_tuple, f'all arrays of length 3 over {len(REPS_S)} values x needle x start', sharded=True),
        Space('rows', gen_tuples('rows', 'small', len(REPS_S), 5), run_tuple, f'all tables of <= 5 rows over {len(REPS_S)} values x 8 sort specifications', sharded=True),
        Space('long', gen_long, run_long, 'patterned arrays of 5..200 values'),
        Space('groups', gen_groups(deep), run_groups, f'every one, two and three of {len(GROUPS)} kinds of values x 6 arrangements x lengths 9, 17, 64, 70 (to 1000): sort, min, max, '
              'index and dataSort', sharded=True),
        Space('literals', gen_literals, run_literals, f'all pairs of {len(LITERALS)} source expressions in operator, call, if and condition positions'),
    ]
    for name in ('America/New_York', 'Asia/Kathmandu', 'Etc/GMT+12'):
        out.append(Space('dates-' + name.replace('/', '_').replace('+', 'p'), gen_pairs('dates'), run_pairs, f'all pairs of {len(pool("dates"))} date-bearing values with TZ={name}', setup=set_tz(name)))
        out.append(Space('dates-rank-' + name.replace('/', '_').replace('+', 'p'), gen_rank('dates'), run_rank, f'total preorder of the date-bearing values with TZ={name}', setup=set_tz(name)))
    return out
