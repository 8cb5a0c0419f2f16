"""C19: data functions implement their relational meaning; CSV typing round-trips."""

import copy
import datetime
import itertools
import json
import math
import os
import re
import time
import zoneinfo
from fractions import Fraction

from mc import impl, prog, ref
from mc.core import Space

PROPERTY = 'C19'
LEVEL = 'exploration'
RULE = ('every table of the listed finite families goes through the data functions, called from a script and as exported Python functions, and is compared with reference relational operators written '
        'over the value equality and order of the language; every typed table of the CSV families is written by an independent writer and read back; distinct = distinct results')
ASSUMPTIONS = [
    'aggregate rows and the categories of dataTop may come in any order; the rows of one category keep theirs',
    'measures are numbers (min and max: also strings or datetimes of one type); output names of an aggregation are distinct; a group without values gives null (or 0 for a count)',
    'stddev is the population standard deviation',
    'without a left join, unmatched left rows are kept; with isLeftJoin they are dropped (pinned by the tests of the repository)',
    'a string column of a CSV table starts with a string that reads as no other type; null is written null',
    'text that is no date in a column of dates may be kept or refuse the table'
]

DT = datetime.datetime
UTC = datetime.timezone.utc


# ---------------------------------------------------------------------------------------------------------------
# calling
# ---------------------------------------------------------------------------------------------------------------

EXPORTED = {'dataFilter': 'filter_data', 'dataSort': 'sort_data', 'dataTop': 'top_data', 'dataAggregate': 'aggregate_data', 'dataJoin': 'join_data', 'dataCalculatedField': 'add_calculated_field'}


def call_script(name, args, extra=None):
    """Call from an expression of a script: failures give null."""
    g = dict(impl.lib())
    if extra:
        g.update(extra)
    names = []
    for ix, arg in enumerate(args):
        g[f'__a{ix}'] = arg
        names.append({'variable': f'__a{ix}'})
    return impl.evaluate_expression({'function': {'name': name, 'args': names}}, {'globals': g, 'statementCount': 0})


def call_python(name, args, extra=None):
    g = dict(impl.lib())
    if extra:
        g.update(extra)
    fn = getattr(impl.bare_script, EXPORTED[name])
    if name in ('dataFilter', 'dataCalculatedField', 'dataJoin'):
        return fn(*args, options={'globals': g, 'statementCount': 0})
    return fn(*args)


def rows_equal(a, b):
    return isinstance(a, list) and len(a) == len(b) and all(isinstance(x, dict) and sorted(x) == sorted(y) and all(equal(x[k], y[k]) for k in y) for x, y in zip(a, b))


def equal(a, b):
    """Same type and same value."""
    ta, tb = ref.typ(a), ref.typ(b)
    if ta != tb:
        return False
    if ta == 'number':
        return a == b or a != a and b != b
    if ta == 'array':
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if ta == 'object':
        return sorted(a) == sorted(b) and all(equal(a[k], b[k]) for k in a)
    if ta == 'datetime':
        return ref.naive(a) == ref.naive(b)
    return a == b


def show(v):
    return repr(v)[:1500]


def both(ctx, name, args, extra, verdict, what=''):
    """Run on both paths with fresh copies; verdict(result, input copy) -> None or message."""
    for path in (call_script, call_python):
        mine = copy.deepcopy(args)
        ctx.states += 1
        try:
            got = path(name, mine, extra)
        except Exception as exc:  # pylint: disable=broad-exception-caught
            got = f'{type(exc).__name__}: {exc}'
        bad = verdict(got)
        if bad:
            ctx.fail(name, f'{name}({", ".join(show(a) for a in args)}) {what} ({path.__name__}) is {show(got)}: {bad}')
    return got


# ---------------------------------------------------------------------------------------------------------------
# reference operators
# ---------------------------------------------------------------------------------------------------------------

def same_key(a, b):
    return all(ref.compare(x, y) == 0 for x, y in zip(a, b))


def partition(rows, fields):
    """[(key values, rows)] in order of first appearance."""
    out = []
    for row in rows:
        key = [row.get(f) for f in fields]
        for k, group in out:
            if same_key(k, key):
                group.append(row)
                break
        else:
            out.append((key, [row]))
    return out


def check_top(ctx, rows, count, fields):
    groups = partition(rows, fields or [])

    def verdict(got):
        if not isinstance(got, list):
            return 'no array'
        want = [r for _, group in groups for r in group[:int(count)]]
        if len(got) != len(want):
            return f'expected the rows {show(want)}'
        mine = partition(got, fields or [])
        for key, group in groups:
            part = next((g for k, g in mine if same_key(k, key)), [])
            if not rows_equal(part, group[:int(count)]):
                return f'category {show(key)} is {show(part)}, expected {show(group[:int(count)])}'
        return None
    args = [rows, count] + ([fields] if fields is not None else [])
    both(ctx, 'dataTop', args, None, verdict)


def number_of(values, func):
    exact = [Fraction(v) for v in values]
    if func == 'sum':
        return sum(exact)
    mean = sum(exact) / len(exact)
    if func == 'average':
        return mean
    var = sum((v - mean) ** 2 for v in exact) / len(exact)
    return math.sqrt(var)


def measure_ok(got, values, func):
    if not values:
        return got is None or func == 'count' and ref.typ(got) == 'number' and got == 0
    if func == 'count':
        return ref.typ(got) == 'number' and got == len(values)
    if func in ('min', 'max'):
        best = values[0]
        for v in values[1:]:
            if (ref.compare(v, best) < 0) == (func == 'min') and ref.compare(v, best) != 0:
                best = v
        return ref.typ(got) == ref.typ(best) and ref.compare(got, best) == 0
    want = number_of(values, func)
    if ref.typ(got) != 'number' or not math.isfinite(got):
        return False
    scale = max(1, *(abs(v) for v in values))
    return abs(got - float(want)) <= 1e-9 * float(scale)


def check_aggregate(ctx, rows, categories, measures):
    groups = partition(rows, categories or [])
    names = list(categories or []) + [m.get('name', m['field']) for m in measures]
    assert len(set(names)) == len(names), names

    def verdict(got):
        if not isinstance(got, list) or len(got) != len(groups):
            return f'expected {len(groups)} groups'
        for key, group in groups:
            found = [r for r in got if same_key([r.get(c) for c in categories or []], key)]
            if len(found) != 1:
                return f'{len(found)} rows for the category {show(key)}'
            if sorted(found[0]) != sorted(names):
                return f'the fields of the row of {show(key)}'
            for m in measures:
                values = [r[m['field']] for r in group if r.get(m['field']) is not None]
                if not measure_ok(found[0][m.get('name', m['field'])], values, m['function']):
                    return f'{m} of the category {show(key)}, the values are {show(values)}'
        return None
    model = {'measures': measures}
    if categories is not None:
        model['categories'] = categories
    both(ctx, 'dataAggregate', [rows, model], None, verdict)


def merge_sort(rows, sorts):
    """Stable insertion by the first differing key."""
    out = []
    for row in rows:
        at = len(out)
        while at > 0:
            before = out[at - 1]
            c = 0
            for s in sorts:
                c = ref.compare(before.get(s[0]), row.get(s[0]))
                if len(s) > 1 and s[1]:
                    c = -c
                if c:
                    break
            if c <= 0:
                break
            at -= 1
        out.insert(at, row)
    return out


def check_sort(ctx, rows, sorts):
    want = merge_sort(rows, sorts)
    both(ctx, 'dataSort', [rows, sorts], None, lambda got: None if rows_equal(got, want) else f'expected {show(want)}')


class Env:
    """Reference evaluation of a data expression: row fields, then variables, then globals."""

    def __init__(self, variables, globals_):
        self.machine = prog.Machine({'mathAbs': lambda a: abs(a[0]) if ref.typ(a[0]) == 'number' else None, 'stringLength': lambda a: len(a[0]) if ref.typ(a[0]) == 'string' else None, 'arrayNew': lambda a: a}, {**(globals_ or {}), **(variables or {})})

    def ev(self, e, row):
        return self.machine.ev(e, row)


def fresh_name(field, taken):
    n = 2
    while f'{field}{n}' in taken:
        n += 1
    return f'{field}{n}'


def ref_join(left, right, le, re_, drop, env):
    left_names = {f for r in left for f in r}
    right_names = []
    for r in right:
        right_names += [f for f in r if f not in right_names]
    names, taken = {}, left_names | set(right_names)
    for f in right_names:
        names[f] = f
        if f in left_names:
            names[f] = fresh_name(f, taken)
            taken = taken | {names[f]}
    out = []
    for row in left:
        key = env.ev(le, row)
        matches = [r for r in right if ref.compare(env.ev(re_, r), key) == 0]
        for r in matches:
            out.append({**row, **{names[f]: v for f, v in r.items()}})
        if not matches and not drop:
            out.append(dict(row))
    return out, left_names


def check_join(ctx, left, right, le, re_=None, drop=False, variables=None, globals_=None):
    want, _ = ref_join(left, right, le, re_ if re_ is not None else le, drop, Env(variables, globals_))
    args = [left, right, prog.etext(le)]
    if re_ is not None or drop or variables is not None:
        args.append(prog.etext(re_) if re_ is not None else None)
    if drop or variables is not None:
        args.append(drop)
    if variables is not None:
        args.append(variables)
    both(ctx, 'dataJoin', args, globals_, lambda got: None if rows_equal(got, want) else f'expected {show(want)}')


# ---------------------------------------------------------------------------------------------------------------
# palettes
# ---------------------------------------------------------------------------------------------------------------

MISSING = '<missing>'
MIXED = [None, 1.0, '1', True, MISSING, 2]
JSONISH = ['a', 'a","b', '["a"]', 'a,b', '"', '\\"', 'null', None, '[', 'a","', '","b', 'b', '', '"a"', 'a\\', '\\', '","', ',', '1', 1, 1.0, '1.0', '[1]', '{"a":1}', 'true', True]
OBJECTS = [[1], [1.0], ['1'], [], {}, {'a': 1}, {'a': 1.0}, {'b': 1}, {'a': None}, [None], None, '[]', '{}', '[1]', [[1]], [1, 1], {'a': 1, 'b': 2}, {'b': 2, 'a': 1}, {'a': True}, {'a': [1]}, {'a': {'b': 1}}, {'a': {'b': 1.0}}, {'a': [True]}, [True], {'a': '1'}, [{'a': 1}]]
TIMES = [DT(2024, 1, 1), datetime.date(2024, 1, 1), DT(2024, 1, 1, tzinfo=UTC), DT(2024, 1, 1, 5, 45, tzinfo=datetime.timezone(datetime.timedelta(hours=5, minutes=45))), DT(2024, 1, 1, 0, 0, 0, 1000), '2024-01-01', '2024-01-01T00:00:00+00:00', '2024-01-01T00:00:00', DT(2024, 1, 2), None]
NUMBERS = [0, 0.0, -0.0, 1, 1.0, -1, 1.5, 1e16, 10 ** 16, 1e300, 0.1, 0.30000000000000004, 0.3, False, True, '0', '-0']
PALETTES = {'mixed': MIXED, 'json': JSONISH, 'objects': OBJECTS, 'times': TIMES, 'numbers': NUMBERS}


def rows_of(fields, indexes, palette):
    """Rows: indexes is a list of tuples into the palette (one per field); every row has an unique id."""
    out = []
    for n, ixs in enumerate(indexes):
        row = {}
        for f, ix in zip(fields, ixs):
            if palette[ix] is not MISSING:
                row[f] = copy.deepcopy(palette[ix])
        row['id'] = n
        out.append(row)
    return out


# ---------------------------------------------------------------------------------------------------------------
# partitions: top and aggregate
# ---------------------------------------------------------------------------------------------------------------

def gen_partition(deep):
    def gen(w, n):
        idx = 0

        def take(case):
            nonlocal idx
            idx += 1
            return (idx - 1, case) if (idx - 1) % n == w else None
        for name, palette in PALETTES.items():
            k = len(palette)
            for pair in itertools.product(range(k), repeat=2):
                t = take([name, 'two', list(pair)])
                if t:
                    yield t
            for length in range(1, 4):
                for combo in itertools.combinations_with_replacement(range(k), length) if name != 'mixed' else itertools.product(range(k), repeat=length):
                    t = take([name, 'one', list(combo)])
                    if t:
                        yield t
        for length in range(1, 4 if deep else 3):
            cells = list(itertools.product(range(len(MIXED)), repeat=2))
            for combo in itertools.product(cells, repeat=length):
                t = take(['mixed', 'rows', [list(c) for c in combo]])
                if t:
                    yield t
        # larger tables: lattices
        for rows in (4, 5, 7, 8, 12):
            for name, palette in PALETTES.items():
                for p in range(2, 6):
                    for i, j in itertools.product(range(1, p + 1), repeat=2):
                        t = take([name, 'lattice', [rows, p, i, j]])
                        if t:
                            yield t
    return gen


def lattice(palette, rows, p, i, j, seed=0):
    return [[((r * i + r // 2) % p * 3 + seed) % len(palette), ((r * j + r // 3) % p * 2 + 1 + seed) % len(palette)] for r in range(rows)]


COUNTS = [{'field': 'id', 'function': 'count', 'name': 'n'}, {'field': 'id', 'function': 'sum', 'name': 's'}]


def run_partition(case, ctx):
    name, kind, data = case
    palette = PALETTES[name]
    if kind == 'two':
        # every pair of values in every way over two rows and two fields
        x, y = data
        tables = [[(x, y), (y, x)], [(x, y), (x, y), (y, y)], [(x, x), (y, y), (x, y), (x, x)]]
    elif kind == 'one':
        tables = [[(ix, ix) for ix in data]]
    elif kind == 'rows':
        tables = [data]
    else:
        tables = [lattice(palette, *data, seed=s) for s in range(3)]
    for indexes in tables:
        rows = rows_of(['a', 'b'], indexes, palette)
        for fields in ([['a'], ['a', 'b']] if kind != 'lattice' else [['a'], ['b'], ['a', 'b'], ['b', 'a'], None]):
            for count in ((1.0, 2) if kind != 'lattice' else (1, 2.0, 3.0, 100)):
                check_top(ctx, rows, count, fields)
            check_aggregate(ctx, rows, fields, COUNTS)
        if kind != 'lattice':
            check_top(ctx, rows, 2.0, None)
            check_aggregate(ctx, rows, None, COUNTS)
        # the values of one category are grouped with others under the equality of a filter
    ctx.outcome([[sorted(ref.show(v) for v in k) for k, _ in partition(rows, ['a', 'b'])], len(tables)])


# measures -----------------------------------------------------------------------------------------------------

VALUES = [MISSING, None, 0, 1.0, -2.5, 4.25, 1000000.0]
FUNCTIONS = ['average', 'count', 'max', 'min', 'stddev', 'sum']


def gen_measures(deep):
    def gen():
        for length in range(0, 6 if deep else 5):
            for combo in itertools.product(range(len(VALUES)), repeat=length):
                yield ['values', list(combo)]
        for rows in range(5, 13):
            for p in range(2, 8):
                for i in range(1, p):
                    yield ['lattice', [rows, p, i]]
        for kind in ('strings', 'times', 'big', 'ints', 'floats'):
            for combo in itertools.product(range(4), repeat=3):
                yield [kind, list(combo)]
        for i, j in itertools.product(range(len(FUNCTIONS)), repeat=2):
            yield ['pairs', [i, j]]
        yield ['empty', []]


    return gen


OTHERS = {'strings': ['', 'a', 'B', 'aa'], 'times': [DT(2024, 1, 1), DT(2023, 12, 31, 23, 59, 59, 999000), DT(2024, 1, 1, 0, 0, 0, 1000), DT(1999, 1, 1)], 'big': [1e15, -1e15, 1e15 + 1, 3.0], 'ints': [2 ** 40, 1, -2 ** 40, 10], 'floats': [0.1, 0.2, 0.7, -0.3]}


def run_measures(case, ctx):
    kind, data = case
    every = [{'field': 'v', 'function': f, 'name': 'out ' + f} for f in FUNCTIONS]
    if kind in ('values', 'lattice'):
        if kind == 'values':
            cells = data
        else:
            rows, p, i = data
            cells = [(r * i + r // 3) % p for r in range(rows)]
        rows = rows_of(['v'], [(c,) for c in cells], VALUES)
        for k, row in enumerate(rows):
            row['c'] = ['x', 'y', 'x', None, 'y'][k % 5]
        check_aggregate(ctx, rows, ['c'], every)
        check_aggregate(ctx, rows, None, every)
        if len(rows) < 4:
            for f in FUNCTIONS:
                check_aggregate(ctx, rows, ['c'], [{'field': 'v', 'function': f}])
                check_aggregate(ctx, rows, None, [{'field': 'v', 'function': f, 'name': 'c'}])
                check_aggregate(ctx, rows, ['v'], [{'field': 'c', 'function': 'count'}, {'field': 'v', 'function': f, 'name': 'w'}])
    elif kind == 'pairs':
        # two measures whose names and fields cross
        f, g = FUNCTIONS[data[0]], FUNCTIONS[data[1]]
        rows = [{'a': 1, 'b': 20.5, 'c': 'x'}, {'a': 3, 'b': None, 'c': 'x'}, {'a': None, 'b': 8, 'c': 'y'}, {'b': 5, 'c': 'x'}, {'a': 7.0, 'c': 'x'}]
        check_aggregate(ctx, rows, ['c'], [{'field': 'a', 'function': f, 'name': 'b'}, {'field': 'b', 'function': g, 'name': 'a'}])
        check_aggregate(ctx, rows, ['c'], [{'field': 'a', 'function': f}, {'field': 'a', 'function': g, 'name': 'a2'}])
        check_aggregate(ctx, rows, ['c'], [{'field': 'a', 'function': f, 'name': 'z'}, {'field': 'a', 'function': g, 'name': 'y'}, {'field': 'c', 'function': 'count', 'name': 'x'}])
        check_aggregate(ctx, rows, None, [{'field': 'a', 'function': f, 'name': 'c'}, {'field': 'b', 'function': g}])
    elif kind == 'empty':
        for cats in (None, ['a']):
            for path in (call_script, call_python):
                got = path('dataAggregate', [[], {'measures': [{'field': 'v', 'function': 'count'}], **({'categories': cats} if cats else {})}])
                # no rows: no groups (or, without categories, one empty group)
                if not isinstance(got, list) or got and (cats or len(got) > 1 or got[0].get('v')):
                    ctx.fail('dataAggregate', f'of no rows by {cats}: {got!r}')
            check_top(ctx, [], 1.0, cats)
        check_sort(ctx, [], [['a']])
        check_join(ctx, [], [{'a': 1}], ['v', 'a'])
        check_join(ctx, [{'a': 1}], [], ['v', 'a'])
        check_join(ctx, [{'a': 1}], [], ['v', 'a'], None, True)
        both(ctx, 'dataFilter', [[], 'true'], None, lambda got: None if got == [] else 'expected no rows')
    else:
        rows = [{'v': OTHERS[kind][ix], 'c': k % 2} for k, ix in enumerate(data)] + [{'v': None, 'c': 0}]
        funcs = FUNCTIONS if kind not in ('strings', 'times') else ['count', 'min', 'max']
        for cats in (None, ['c']):
            check_aggregate(ctx, rows, cats, [{'field': 'v', 'function': f, 'name': f} for f in funcs])
    ctx.outcome(case)


# ---------------------------------------------------------------------------------------------------------------
# sort
# ---------------------------------------------------------------------------------------------------------------

SORT_CELLS = [MISSING, 1.0, 2, 'a']
ORDER = [MISSING, None, 1.0, 2, -1.5, 'a', 'b', 'B', '', True, False, DT(2024, 1, 1), datetime.date(2023, 1, 1), DT(2024, 1, 1, 0, 0, tzinfo=UTC), [1], [0, 5], [], {'a': 1}, {'a': 0}, {}]
SORTS = [[['a']], [['a', True]], [['a', False], ['b']], [['b', True], ['a', True]], [['a', True], ['b', False]], [['b'], ['a', True]], [], [['zz'], ['b']], [['a'], ['a', True]]]


def gen_sort(deep):
    def gen(w, n):
        idx = 0
        cells = list(itertools.product(range(len(SORT_CELLS)), repeat=2))
        for length in range(1, 5 if deep else 4):
            for combo in itertools.product(range(len(cells)), repeat=length):
                if idx % n == w:
                    yield idx, ['cells', list(combo)]
                idx += 1
        for length in (2, 3):
            for combo in itertools.product(range(len(ORDER)), repeat=length):
                if idx % n == w:
                    yield idx, ['order', list(combo)]
                idx += 1
        # every permutation and every 0/1 labelling of longer tables
        for length in (5, 6) if not deep else (5, 6, 7):
            for perm in itertools.permutations(range(length)):
                if idx % n == w:
                    yield idx, ['perm', list(perm)]
                idx += 1
        for length in (8, 10, 12):
            for mask in range(1 << length):
                if length == 8 or deep or mask % 5 == 0:
                    if idx % n == w:
                        yield idx, ['mask', [length, mask]]
                    idx += 1
        for rows in (5, 8, 12):
            for p in range(2, 7):
                for i, j in itertools.product(range(1, p + 1), repeat=2):
                    if idx % n == w:
                        yield idx, ['lattice', [rows, p, i, j]]
                    idx += 1
    return gen


def run_sort(case, ctx):
    kind, data = case
    if kind == 'cells':
        cells = list(itertools.product(range(len(SORT_CELLS)), repeat=2))
        rows = rows_of(['a', 'b'], [cells[c] for c in data], SORT_CELLS)
        for sorts in SORTS if len(data) < 4 else SORTS[1:5]:
            check_sort(ctx, rows, sorts)
    elif kind == 'order':
        rows = rows_of(['a'], [(c,) for c in data], ORDER)
        check_sort(ctx, rows, [['a']])
        check_sort(ctx, rows, [['a', True]])
    elif kind == 'perm':
        rows = [{'a': p % 3, 'b': p, 'id': k} for k, p in enumerate(data)]
        for sorts in ([['a'], ['b', True]], [['a', True]], [['b']]):
            check_sort(ctx, rows, sorts)
    elif kind == 'mask':
        rows = [{'a': data[1] >> k & 1, 'b': k % 3, 'id': k} for k in range(data[0])]
        check_sort(ctx, rows, [['a', True]])
        check_sort(ctx, rows, [['a'], ['b', True]])
    else:
        for s in range(3):
            rows = rows_of(['a', 'b'], lattice(ORDER, *data, seed=s), ORDER)
            for sorts in SORTS:
                check_sort(ctx, rows, sorts)
    ctx.outcome([r.get('id') for r in merge_sort(rows, SORTS[1])])


# ---------------------------------------------------------------------------------------------------------------
# filter and calculated field
# ---------------------------------------------------------------------------------------------------------------

A, B, V, G = ['v', 'a'], ['v', 'b'], ['v', 'vv'], ['v', 'gg']
EXPRS = [A, B, ['b', '>', A, B], ['b', '==', A, ['n', 1]], ['b', '&&', A, B], ['b', '||', A, B], ['u', '!', A], ['b', '+', A, B], ['b', '*', A, V], ['b', '==', A, V], ['b', '+', ['v', 'id'], G], ['c', 'mathAbs', [A]], ['c', 'if', [A, B, ['n', 7]]], ['s', ''], ['s', '0'], ['n', 0], ['n', 1],
         ['v', 'null'], ['v', 'true'], ['c', 'arrayNew', []], ['c', 'arrayNew', [A]], ['g', ['b', '-', B, A]], ['b', '<=', ['v', 'vv'], ['v', 'id']], ['b', '==', ['c', 'stringLength', [B]], ['n', 1]], ['b', '%', A, ['n', 2]], ['v', 'nope'], ['b', '!=', A, ['v', 'null']]]
CELLS = [MISSING, None, 0, 1.0, 2, '', 'x', True, False, [], {}]
VARIABLES = [None, {}, {'vv': 1.0}, {'vv': 2.0, 'a': 'shadowed', 'gg': 5.0}]
GLOBALS = {'gg': 100.0, 'b': 'global b'}


def gen_rows(deep):
    def gen():
        cells = list(itertools.product(range(len(CELLS)), repeat=2))
        for first in range(len(cells)):
            yield [first]
        for pair in itertools.product(range(0, len(cells), 1 if deep else 3), repeat=2):
            yield list(pair)
        for rows in (5, 8, 12):
            for i, j in itertools.product(range(1, 8), repeat=2):
                yield [[rows, 9, i, j]]
    return gen


def run_rows(case, ctx):
    if isinstance(case[0], list):
        indexes = lattice(CELLS, *case[0])
    else:
        cells = list(itertools.product(range(len(CELLS)), repeat=2))
        indexes = [cells[c] for c in case] + [(3, 6)]
    rows = rows_of(['a', 'b'], indexes, CELLS)
    for ex, e in enumerate(EXPRS):
        for vx, variables in enumerate(VARIABLES):
            if (ex + vx + len(rows)) % 2 and vx:
                continue
            env = Env(variables, GLOBALS)
            values = [env.ev(e, row) for row in rows]
            kept = [row for row, v in zip(rows, values) if ref.truthy(v)]
            text = prog.etext(e)
            tail = [variables] if variables is not None else []
            both(ctx, 'dataFilter', [rows, text, *tail], GLOBALS, lambda got: None if rows_equal(got, kept) else f'expected {show(kept)}')
            for field in ('new', 'a', 'x y'):
                want = [{**row, field: v} for row, v in zip(rows, values)]
                both(ctx, 'dataCalculatedField', [rows, field, text, *tail], GLOBALS, lambda got: None if rows_equal(got, want) else f'expected {show(want)}')
                if vx > 1:
                    break
    ctx.outcome(kept)


# ---------------------------------------------------------------------------------------------------------------
# join
# ---------------------------------------------------------------------------------------------------------------

LEFT_FIELDS = ['a', 'a2', 'a3', 'k']
RIGHT_FIELDS = ['a', 'a2', 'b', 'k']
K, BB = ['v', 'k'], ['v', 'b']
KEY_EXPRS = [(K, None), (K, K), (A, K), (['b', '+', A, K], None), (['b', '==', K, ['n', 1]], K), (['c', 'if', [K, K, A]], A), (['n', 1], None), (['s', 'x'], K), (['b', '||', K, ['v', 'vv']], K), (['c', 'arrayNew', [K, A]], ['c', 'arrayNew', [K, A]]), (['u', '-', K], ['u', '-', K]),
             (['b', '*', K, ['v', 'vv']], K)]


def gen_join(deep):
    def gen(w, n):
        idx = 0
        # field sets: every subset in each of two left and two right rows
        subsets = list(range(16))
        for combo in itertools.product(subsets, repeat=4):
            if deep or (combo[0] * 3 + combo[1] * 5 + combo[2] * 7 + combo[3]) % 4 == 0:
                if idx % n == w:
                    yield idx, ['fields', list(combo)]
                idx += 1
        # keys: every pair of palette values on both sides
        for name, palette in PALETTES.items():
            k = len(palette)
            for pair in itertools.product(range(k), repeat=2):
                if idx % n == w:
                    yield idx, ['keys', [name, list(pair)]]
                idx += 1
            for combo in itertools.product(range(min(k, 6)), repeat=4):
                if deep or sum(combo) % 3 == 0:
                    if idx % n == w:
                        yield idx, ['rows', [name, list(combo)]]
                    idx += 1
        # key expressions and variables
        for e in range(len(KEY_EXPRS)):
            for combo in itertools.product(range(len(MIXED)), repeat=3):
                if idx % n == w:
                    yield idx, ['exprs', [e, list(combo)]]
                idx += 1
        for rows in (3, 6, 12):
            for p in range(2, 6):
                for i, j in itertools.product(range(1, p + 1), repeat=2):
                    if idx % n == w:
                        yield idx, ['lattice', [rows, p, i, j]]
                    idx += 1
        for k in range(1, 13):
            if idx % n == w:
                yield idx, ['many', k]
            idx += 1
    return gen


def run_join(case, ctx):
    kind, data = case
    if kind == 'fields':
        def row(fields, mask, tag):
            return {f: (1.0 if f == 'k' else f'{tag}{f}') for ix, f in enumerate(fields) if mask >> ix & 1}
        left = [row(LEFT_FIELDS, data[0], 'L0'), row(LEFT_FIELDS, data[1], 'L1')]
        right = [row(RIGHT_FIELDS, data[2], 'R0'), row(RIGHT_FIELDS, data[3], 'R1')]
        check_join(ctx, left, right, K)
        if sum(data) % 3 == 0:
            check_join(ctx, left, right, K, None, True)
            check_join(ctx, [*left, {'x': 1}], [{'x': 2}, *right], ['n', 1], ['n', 1])
    elif kind == 'keys':
        palette = PALETTES[data[0]]
        x, y = data[1]
        left = rows_of(['k', 'a'], [(x, y), (y, x), (x, x)], palette)
        right = rows_of(['k', 'a'], [(y, y), (x, y), (y, x)], palette)
        for drop in (False, True):
            check_join(ctx, left, right, K, None, drop)
            check_join(ctx, left, right, ['c', 'arrayNew', [K, A]], None, drop)
            check_join(ctx, left, right, K, A, drop)
    elif kind == 'rows':
        palette = PALETTES[data[0]]
        c = data[1]
        left = rows_of(['k'], [(c[0],), (c[1],), (c[0],)], palette)
        right = rows_of(['k'], [(c[2],), (c[3],), (c[2],)], palette)
        check_join(ctx, left, right, K)
        check_join(ctx, left, right, K, K, True)
    elif kind == 'exprs':
        e, c = data
        le, re_ = KEY_EXPRS[e]
        left = rows_of(['k', 'a'], [(c[0], c[1]), (c[2], c[0])], MIXED)
        right = rows_of(['k', 'a'], [(c[1], c[2]), (c[0], c[1]), (c[2], c[2])], MIXED)
        for drop in (False, True):
            for variables in (None, {'vv': 1.0}, {'vv': '1', 'k': 2.0}):
                check_join(ctx, left, right, le, re_, drop, variables, {'vv': 3.0, 'a': '1'})
    elif kind == 'lattice':
        for name, palette in PALETTES.items():
            left = rows_of(['k', 'a'], lattice(palette, *data), palette)
            right = rows_of(['k', 'b'], lattice(palette, data[0], data[1], data[3], data[2], 1), palette)
            check_join(ctx, left, right, K)
            check_join(ctx, left, right, ['c', 'arrayNew', [K, ['b', '%', ['v', 'id'], ['n', 2]]]], None, True)
    else:
        # chains of colliding names a, a2, .. on both sides
        names = ['a'] + [f'a{i}' for i in range(2, data + 1)]
        for other in range(1, data + 1):
            left = [{n: f'L{n}' for n in names}]
            right = [{n: f'R{n}' for n in names[:other]}, {n: f'S{n}' for n in reversed(names[:other])}]
            check_join(ctx, left, right, ['n', 1])
            check_join(ctx, right, left, ['n', 1])
            check_join(ctx, [{names[0]: 0}, {names[other - 1]: 1}], right, ['n', 1])
    ctx.outcome(case)


# ---------------------------------------------------------------------------------------------------------------
# CSV
# ---------------------------------------------------------------------------------------------------------------

ZONE = ['UTC']


def set_tz(name):
    def setup():
        os.environ['TZ'] = name
        time.tzset()
        ZONE[0] = name
    return setup


def iso(d):
    """A UTC text of the local datetime."""
    aware = d.replace(tzinfo=zoneinfo.ZoneInfo(ZONE[0])).astimezone(UTC)
    return f'{aware.year:04d}-{aware.month:02d}-{aware.day:02d}T{aware.hour:02d}:{aware.minute:02d}:{aware.second:02d}.{aware.microsecond // 1000:03d}Z'


# (text, value)
COLUMNS = {
    'number': [('0', 0.0), ('1', 1.0), ('-2.5', -2.5), ('1e+21', 1e21), ('5e-324', 5e-324), ('1.7976931348623157e+308', 1.7976931348623157e308), ('0.1', 0.1), ('123456789012345', 123456789012345.0), ('null', None)],
    'boolean': [('true', True), ('false', False), ('null', None)],
    'date': [('2024-02-29', DT(2024, 2, 29)), ('1999-12-31', DT(1999, 12, 31)), ('0100-01-01', DT(100, 1, 1)), ('9000-12-31', DT(9000, 12, 31)), ('null', None)],
    'datetime': [(DT(2024, 2, 29, 12, 34, 56, 789000),), (DT(2023, 7, 1),), (DT(2023, 12, 31, 23, 59, 59, 999000),), (DT(1970, 1, 1, 0, 0, 0, 1000),), (DT(2037, 11, 5, 6, 7, 8),), ('null', None)],
    # third: may the string come first in its column?
    'string': [(s, s, first) for s, first in [
        ('abc', True), ('', False), ('a,b', True), ('say "hi"', True), ('"', True), (' lead', True), ('trail ', True), ('line\nbreak', True), ('cr\r\nlf', True), ('2024-02-30', True), ('2024-13-01', True), ('2023-02-29', True), ('2024-02-30T00:00:00Z', True), ('2024-01-01T25:00:00Z', True),
        ('2024-01-01T00:60:00+00:00', True), ('2024-01-01T00:00:00+00:99', True), ('0000-00-00', True), ('0000-01-01', True), ('2024-04-31', True), ('12', False), ('true', False), ('2024-01-01', False), ('1.5', False), ('nan', True), ('inf', True), ('Infinity', True), ('-Infinity', True), ('1_000', True), ('0x', True), ('1,5', True), ('--1', True), ('True', True), ('FALSE', True), ('Null', True),
        ('\u00e9\u4e2d\U0001f600', True), ('a\tb', True), ("it's", True), ('\\', True), ('\\n', True), (',', True), ('""', True), ('a;b', True), ('#x', True), ('1 2', True), ('1e', True), ('2024-02', True), ('12:30', True), ('\u2028', True), ('\u0661', False)]] + [('null', None, False)]
}


def cell_of(kind, ix):
    """(text to write, value, may come first)"""
    entry = COLUMNS[kind][ix]
    if len(entry) == 1:
        return iso(entry[0]), entry[0], True
    if len(entry) == 2:
        return entry[0], entry[1], True
    return entry


def quoted(text, value, style):
    special = any(c in text for c in ',"\r\n\u2028') or text != text.strip() or text == ''
    if value is None:
        return text
    if isinstance(value, str) and (special or style) or style == 2:
        return '"' + text.replace('"', '""') + '"'
    return text


def write(fields, table, style, end, final):
    lines = [','.join(quoted(f, f, style) for f in fields)]
    for row in table:
        lines.append((', ' if style == 1 else ',').join(quoted(t, v, style) for t, v in row))
    return lines, end.join(lines) + (end if final else '')


def typed(table, columns):
    """Is the table one whose types can be told from its text?"""
    for c in range(columns):
        for row in table:
            text, value, first = row[c]
            if value is None or isinstance(value, str) and value == '':
                continue
            if not first:
                return False
            break
    return True


def check_csv(ctx, kinds, cells, variants):
    table = [[cell_of(kind, ix) for kind, ix in zip(kinds, row)] for row in cells]
    if not typed(table, len(kinds)):
        return
    fields = ['a', 'b c', 'd"e', 'f,g', 'h'][:len(kinds)]
    # a column of empty strings only is a string column; in other columns there are none
    want = [{f: v for f, (_, v, _) in zip(fields, row)} for row in table]
    plain = [[(t, v) for t, v, _ in row] for row in table]
    for style, end, final, split in variants:
        if len(kinds) == 1 and any(row[0][0] == '' and style == 0 for row in table):
            continue
        lines, text = write(fields, plain, style, end, final)
        args = [text]
        if split == 1:
            args = [x + end for x in lines]
        elif split == 2:
            args = [text[:len(lines[0]) + len(end)], None, text[len(lines[0]) + len(end):]]
        elif split == 3:
            args = list(lines)
        ctx.states += 1
        got = call_script('dataParseCSV', args)
        if not rows_equal(got, want):
            ctx.fail('csv', f'TZ={ZONE[0]}: dataParseCSV({args!r}) is {show(got)}, expected {show(want)}')
        # keep the written types when parsed by hand
        rows = [{f: (t if v is not None else 'null') for f, (t, v) in zip(fields, row)} for row in plain]
        for path in ('script', 'python'):
            mine = copy.deepcopy(rows)
            if path == 'script':
                got = call_script('dataValidate', [mine, True])
            else:
                types = impl.bare_script.validate_data(mine, True)
                got = mine
                names = {f: {'date': 'datetime'}.get(k, k) for f, k in zip(fields, kinds)}
                for ix, f in enumerate(fields):
                    if any(r[ix][1] is not None for r in table) and types.get(f) != names[f]:
                        ctx.fail('types', f'validate_data({rows!r}) gives the types {types}, expected {names}')
            if not rows_equal(got, want):
                ctx.fail('validate', f'TZ={ZONE[0]}: dataValidate({rows!r}, true) ({path}) is {show(got)}, expected {show(want)}')
    ctx.outcome(want)


VARIANTS = [(0, '\n', True, 0), (0, '\r\n', False, 0), (1, '\n', False, 0), (2, '\r\n', True, 0), (0, '\n', True, 1), (1, '\r\n', True, 2), (0, '\n', False, 3)]


def gen_csv(deep):
    def gen(w, n):
        idx = 0
        kinds = list(COLUMNS)
        for kind in kinds:
            size = len(COLUMNS[kind])
            for length in (1, 2, 3) if size < 12 or deep else (1, 2):
                for combo in itertools.product(range(size), repeat=length):
                    if idx % n == w:
                        yield idx, ['one', kind, list(combo)]
                    idx += 1
        # a string that is no date (etc.) between others, next to every other kind of column
        for k1, k2 in itertools.product(kinds, repeat=2):
            s1, s2 = len(COLUMNS[k1]), len(COLUMNS[k2])
            for a, b in itertools.product(range(s1), range(s2)):
                if idx % n == w:
                    yield idx, ['two', k1, k2, a, b]
                idx += 1
        for combo in itertools.product(kinds, repeat=3):
            for s in range(6 if deep else 3):
                if idx % n == w:
                    yield idx, ['three', list(combo), s]
                idx += 1
        for combo in itertools.permutations(kinds, 5):
            for rows in (4, 12):
                if idx % n == w:
                    yield idx, ['five', list(combo), rows]
                idx += 1
    return gen


def run_csv(case, ctx):
    kind = case[0]
    if kind == 'one':
        k, combo = case[1:]
        variants = VARIANTS if len(combo) < 2 or len(COLUMNS[k]) < 12 else VARIANTS[(combo[0] + combo[1]) % 3::3]
        variants = [v for v in variants if v[3] != 3 or not any('\n' in str(cell_of(k, c)[0]) for c in combo)]
        check_csv(ctx, [k], [(c,) for c in combo], variants)
        check_csv(ctx, [k, 'number'], [(c, r % 3) for r, c in enumerate(combo)], variants[:2])
    elif kind == 'two':
        _, k1, k2, a, b = case
        n1, n2 = len(COLUMNS[k1]), len(COLUMNS[k2])
        variants = VARIANTS[(a + b) % 3:3:1] + [VARIANTS[4 + (a + b) % 2]]
        check_csv(ctx, [k1, k2], [(0, 0), (a, b), (0, n2 - 1)], variants)
        check_csv(ctx, [k1, k2], [(n1 - 1, n2 - 1), (a, b)], variants[:2])
    elif kind == 'three':
        _, ks, s = case
        sizes = [len(COLUMNS[k]) for k in ks]
        for r in range(1, 5):
            check_csv(ctx, ks, [[(x * (s + 2) + c + s) % n for c, n in enumerate(sizes)] for x in range(r)], VARIANTS[:4])
    else:
        _, ks, rows = case
        sizes = [len(COLUMNS[k]) for k in ks]
        for s in range(4):
            check_csv(ctx, ks, [[(x * (c + 1) + s) % n for c, n in enumerate(sizes)] for x in range(rows)], VARIANTS[:4])


# text that resembles a date -------------------------------------------------------------------------------------

def gen_dates():
    for y in ('2024', '2023', '1900', '0000', '9999'):
        for m in range(0, 15):
            yield [y, m]


def run_dates(case, ctx):
    y, m = case
    from mc.checks import c16
    for d in range(0, 34):
        for tail in ('', 'T00:00:00Z', 'T12:30:00.5+05:30', 'T24:30:00Z', 'T10:61:00Z'):
            text = f'{y}-{m:02d}-{d:02d}{tail}'
            verdict, value = c16.iso_verdict(ZONE[0], text)
            ctx.states += 1
            got = call_script('dataParseCSV', [f'd,n\n{text},1\n{text},2\n'])
            want = value if verdict == 'value' else text
            ok = rows_equal(got, [{'d': want, 'n': 1}, {'d': want, 'n': 2}])
            if not ok and verdict != 'grey':
                ctx.fail('date-like', f'dataParseCSV with the cell {text!r} gives {show(got)}')
            # in a column of strings, before and after
            if verdict == 'null':
                for other in ('abc', '2024-01-01'):
                    got = call_script('dataParseCSV', [f'd,n\n{text},1\n{other},2\n'])
                    if not rows_equal(got, [{'d': text, 'n': 1}, {'d': other, 'n': 2}]):
                        ctx.fail('date-like', f'dataParseCSV with the cells {text!r}, {other!r} gives {show(got)}')
            got = call_script('dataParseCSV', [f'd,n\nabc,1\n{text},2\n'])
            if not rows_equal(got, [{'d': 'abc', 'n': 1}, {'d': text, 'n': 2}]):
                ctx.fail('date-like', f'dataParseCSV with the cells abc, {text!r} gives {show(got)}')
            # after a date
            if verdict == 'null':
                got = call_script('dataParseCSV', [f'd,n\n2024-01-01,1\n{text},2\n'])
                if got is not None and not (rows_equal(got, [{'d': DT(2024, 1, 1), 'n': 1}, {'d': text, 'n': 2}]) or rows_equal(got, [{'d': '2024-01-01', 'n': 1}, {'d': text, 'n': 2}])):
                    ctx.fail('date-like', f'dataParseCSV with the cells 2024-01-01, {text!r} gives {show(got)}')
            ctx.outcome((text, verdict))


# whole pipelines from scripts ----------------------------------------------------------------------------------

SCRIPT = '''data = dataParseCSV('name,group,score,day', 'x,g1,3,2024-01-02', '"y,z",g2,1,2024-01-01', 'w,g1,null,2024-01-03', 'v,g2,5,null', 'u,g1,4,2024-01-02')
dataCalculatedField(data, 'twice', 'score * k', objectNew('k', 2))
kept = dataFilter(data, 'score != null && day != null')
best = dataTop(dataSort(data, arrayNew(arrayNew('score', true), arrayNew('name'))), N, arrayNew('group'))
totals = dataSort(dataAggregate(data, objectNew('categories', arrayNew('group'), 'measures', arrayNew(objectNew('field', 'score', 'function', 'sum', 'name', 'total'), objectNew('field', 'name', 'function', 'count')))), arrayNew(arrayNew('group')))
joined = dataJoin(kept, totals, 'group')
return jsonStringify(arrayNew(kept, best, totals, joined))
'''


def gen_script():
    for text in ('1', '2', '3', '1.0', '2.00', '100', '1 + 1', '4 / 2', '9'):
        yield [text]


def run_script(case, ctx):
    n = case[0]
    out = impl.run_script(impl.parse_script(SCRIPT.replace('N,', n + ',')), {})
    ctx.states += 1
    got = json.loads(out.value) if isinstance(out.value, str) else None

    def row(name, group, score, day):
        return {'name': name, 'group': group, 'score': score, 'day': day and f'2024-01-0{day}T00:00:00+00:00', 'twice': None if score is None else score * 2}
    x, y, w, v, u = row('x', 'g1', 3, 2), row('y,z', 'g2', 1, 1), row('w', 'g1', None, 3), row('v', 'g2', 5, None), row('u', 'g1', 4, 2)
    count = int(eval(n))  # pylint: disable=eval-used
    # dataSort sorts the data in place; the filter ran before
    kept = [x, y, u]
    best = [*[v, y][:count], *[u, x, w][:count]]
    totals = [{'group': 'g1', 'total': 7, 'name': 3}, {'group': 'g2', 'total': 6, 'name': 2}]
    joined = [{**r, **{'group2': t['group'], 'total': t['total'], 'name2': t['name']}} for r in kept for t in totals if t['group'] == r['group']]
    want = [kept, best, totals, joined]

    def canon(rows):
        return sorted(json.dumps(r, sort_keys=True) for r in rows)
    if got is None or got[0] != kept or canon(got[1]) != canon(best) or got[2] != totals or got[3] != joined:
        ctx.fail('script', f'count {n}: {got}, expected {want}')
    ctx.outcome(got)


# ---------------------------------------------------------------------------------------------------------------
# wide and long tables: many keys, categories, measures and rows
# ---------------------------------------------------------------------------------------------------------------

WIDE = ['a', 'b', 'c', 'd', 'e', 'f', 'g']
CELL_PAIRS = [[0, 1], [None, 0.0], ['a', 'b'], [False, True], [1, 1.5], [MISSING, 'x'], [[1], [2]]]


def gen_wide(deep):
    def gen():
        for k in range(1, 8):
            for directions in range(1 << k):
                if deep or k <= 4 or directions in (0, 1, (1 << k) - 1, 1 << (k - 1), 0b0101010 & ((1 << k) - 1)):
                    for cells in range(len(CELL_PAIRS)):
                        yield ['keys', k, directions, cells]
            for stride in (1, 3, 5, 11):
                yield ['categories', k, stride]
        for m in range(1, 9):
            for f in range(len(FUNCTIONS)):
                yield ['measures', m, f]
        for rows in (20, 50, 65, 100, 130, 300) if not deep else (20, 50, 65, 100, 130, 300, 1000):
            for p in (2, 3, 7):
                yield ['long', rows, p]
    return gen


def vectors(k, stride, pairs):
    """All 2^k rows over k fields, in an order that has nothing to do with the keys, ids in table order."""
    n = 1 << k
    rows = []
    for ix in range(n):
        bits = (ix * stride + stride // 2) % n
        row = {}
        for j in range(k):
            value = pairs[j % len(pairs)][bits >> j & 1]
            if value is not MISSING:
                row[WIDE[j]] = copy.deepcopy(value)
        rows.append({**row, 'id': ix})
    return rows


def run_wide(case, ctx):
    kind, k, x, *more = case
    if kind == 'keys':
        pairs = CELL_PAIRS[more[0]:] + CELL_PAIRS[:more[0]]
        sorts = [[WIDE[j], bool(x >> j & 1)] if (x >> j & 1) or j % 2 else [WIDE[j]] for j in range(k)]
        rows = vectors(k, 5, pairs)
        check_sort(ctx, rows, sorts)
        check_sort(ctx, rows[:40] + [{**r, 'id': 1000 + i} for i, r in enumerate(rows[:20])], sorts[::-1])
    elif kind == 'categories':
        for shift in range(len(CELL_PAIRS)):
            rows = vectors(min(k, 5), x, CELL_PAIRS[shift:] + CELL_PAIRS[:shift])
            for i, r in enumerate(rows):
                for j in range(5, k):
                    r[WIDE[j]] = i * x % 3
            rows = rows + [{**r, 'id': 100 + i} for i, r in enumerate(rows[::2])] + [{**r, 'id': 200 + i} for i, r in enumerate(rows[::-3])]
            for fields in (WIDE[:k], WIDE[:k][::-1]):
                for count in (1.0, 2, 3.0):
                    check_top(ctx, rows, count, fields)
                check_aggregate(ctx, rows, fields, COUNTS)
    elif kind == 'measures':
        rows = [{WIDE[j]: (i * (j + 2) + j) % 5 + 0.5 if (i + j) % 4 else None for j in range(7)} | {'z': i % 3} for i in range(14)]
        for cats in (None, ['z']):
            check_aggregate(ctx, rows, cats, [{'field': WIDE[(j * 3) % 7], 'function': FUNCTIONS[(j + x) % len(FUNCTIONS)], 'name': f'm{j}'} for j in range(k)])
            check_aggregate(ctx, rows, cats, [{'field': 'a', 'function': FUNCTIONS[(j * x + x) % len(FUNCTIONS)], 'name': f'm{j}'} for j in range(k)])
    else:
        rows = rows_of(['a', 'b'], lattice(ORDER, k, x, 2, 3), ORDER)
        for i, r in enumerate(rows):
            r['v'] = (i * 7 % 11) / 4.0 if i % 5 else None
        for sorts in SORTS:
            check_sort(ctx, rows, sorts)
        for fields in (['a'], ['a', 'b'], None):
            for count in (1, 3.0, 1000.0):
                check_top(ctx, rows, count, fields)
            check_aggregate(ctx, rows, fields, [{'field': 'v', 'function': f, 'name': f} for f in FUNCTIONS])
        if k <= 130:
            check_join(ctx, rows, rows[::7], ['v', 'a'])
            check_join(ctx, rows[::7], rows, ['v', 'a'], ['v', 'b'], True)
        env = Env(None, GLOBALS)
        for e in EXPRS[:8]:
            values = [env.ev(e, row) for row in rows]
            kept = [row for row, v in zip(rows, values) if ref.truthy(v)]
            both(ctx, 'dataFilter', [rows, prog.etext(e)], GLOBALS, lambda got: None if rows_equal(got, kept) else f'expected {show(kept)}')  # pylint: disable=cell-var-from-loop
            want = [{**row, 'new': v} for row, v in zip(rows, values)]
            both(ctx, 'dataCalculatedField', [rows, 'new', prog.etext(e)], GLOBALS, lambda got: None if rows_equal(got, want) else f'expected {show(want)}')  # pylint: disable=cell-var-from-loop
    ctx.outcome(case)


# tall tables: what a late row adds or how it differs counts as much as in the first row ------------------------------

TALL = [9, 17, 33, 65, 101, 129, 257, 400]
LATE = [{}, {'v': 'late'}, {'w': 'late'}, {'id': None, 'v': 'late'}, {'id': 'x'}, {'id': True, 'v': 2.0}, {'v2': 'late', 'v': 'also'}, {'id': 1.0, 'v': 0.25}, {'id': 3, 'w': None}]


def gen_tall():
    for n in TALL:
        for late in range(len(LATE)):
            for place in (0, n // 2, n - 1):
                for other in range(len(LATE)):
                    yield ['join', n, late, place, other]
                yield ['rows', n, late, place]
        for kind in COLUMNS:
            for cell in range(len(COLUMNS[kind])):
                yield ['csv', n, kind, 0, cell]


def run_tall(case, ctx):
    how, n, late, place, *more = case
    if how == 'join':
        tall = [{'id': float(i), 'a': i % 3} for i in range(n)]
        tall[place] = dict(LATE[late])
        few = [{'id': 1, 'v': 'few'}, {'id': float(n - 1), 'b': 1}, {'id': n // 2, 'v': 1.0, 'v2': 2}, dict(LATE[more[0]])]
        for le, re_ in ((['v', 'id'], None), (['v', 'id'], ['v', 'v'])):
            check_join(ctx, few, tall, le, re_)
            check_join(ctx, tall, few, le, re_, True)
    elif how == 'rows':
        rows = [{'id': i % 4, 'v': (i * 7 % 5) / 4.0} for i in range(n)]
        rows[place] = dict(LATE[late])
        check_sort(ctx, rows, [['v', True], ['id']])
        check_sort(ctx, rows, [['w']])
        check_top(ctx, rows, 2, ['id'])
        check_top(ctx, rows, float(n), ['v', 'w'])
        check_top(ctx, rows, n - 1, None)
        numeric = [{**r, 'v': 0.5} if not isinstance(r.get('v', 0.0), float) else r for r in rows]
        check_aggregate(ctx, numeric, ['id'], [{'field': 'v', 'function': f, 'name': f'{f}V'} for f in FUNCTIONS])
        check_aggregate(ctx, numeric, None, [{'field': 'v', 'function': f, 'name': f'{f}V'} for f in FUNCTIONS])
        check_aggregate(ctx, rows, ['id', 'w'], [{'field': 'w', 'function': 'count', 'name': 'n'}])
    else:
        kind, cell = late, more[0]
        size = len(COLUMNS[kind])
        null = size - 1
        kind2 = 'number' if kind != 'number' else 'date'
        check_csv(ctx, [kind, kind2], [(null, 0)] * (n - 1) + [(cell, 1)], VARIANTS[:1] + VARIANTS[4:5])
        check_csv(ctx, [kind2, kind], [(len(COLUMNS[kind2]) - 1, 0 if i % 2 else null) for i in range(n - 1)] + [(1, cell)], VARIANTS[1:2])
        check_csv(ctx, [kind], [((i * 5 + 1) % size if i else 0,) for i in range(n - 1)] + [(cell,)], VARIANTS[2:3])
        check_csv(ctx, [kind], [(cell,)] + [(null,)] * (n - 2) + [(0,)], VARIANTS[3:4])
    ctx.outcome(case)


def spaces(tier):
    deep = tier == 'thorough'
    return [
        Space('script', gen_script, run_script, 'a pipeline through all functions from a script, counts in several spellings'),
        Space('partition', gen_partition(deep), run_partition, 'dataTop and dataAggregate: all pairs and triples of key values of 5 palettes, all mixed tables of 2 (3) rows x 2 fields, lattices of up to 12 rows', sharded=True),
        Space('measures', gen_measures(deep), run_measures, f'dataAggregate: all value columns of up to {5 if deep else 4} cells from {len(VALUES)}, all functions'),
        Space('sort', gen_sort(deep), run_sort, 'dataSort: all tables of up to 3 (4) rows x 2 fields, all pairs and triples of 20 values, permutations, 0/1 columns up to 12 rows', sharded=True),
        Space('wide', gen_wide(deep), run_wide, 'sorts by 1-7 keys in every (chosen) directions over all 2^k rows, 1-7 categories, 1-8 measures, tables of 20-300 (1000) rows', cpu=120.0),
        Space('rows', gen_rows(deep), run_rows, f'dataFilter and dataCalculatedField: {len(EXPRS)} expressions x variables x tables'),
        Space('join', gen_join(deep), run_join, 'dataJoin: all field subsets of 2 left and 2 right rows, all key pairs, key expressions, lattices of up to 12 rows', sharded=True),
        Space('csv', gen_csv(deep), run_csv, 'typed tables written as CSV and read back: columns of every type up to 3 cells, pairs, triples and quintuples of columns', setup=set_tz('UTC'), sharded=True),
        Space('csv-NY', gen_csv(False), run_csv, 'the same with TZ=America/New_York', setup=set_tz('America/New_York'), sharded=True),
        Space('tall', gen_tall, run_tall, f'tables of {TALL} rows with one of {len(LATE)} odd rows first, in the middle and last; CSV columns whose first non-null cell is the last', setup=set_tz('UTC')),
        Space('dates', gen_dates, run_dates, 'cells that are or resemble dates: months 00-14, days 00-33', setup=set_tz('UTC'))
    ]
