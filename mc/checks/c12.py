"""C12: one number type - int and float spellings of an integral number are interchangeable."""

import datetime
import itertools
import re

from mc import impl, ref, sig
from mc.core import Space

PROPERTY = 'C12'
LEVEL = 'exploration'
RULE = ('every library call and operator application of the listed finite spaces is executed with its integral numbers in every listed int/float spelling (all 2^k for up to 4 '
        'numbers, otherwise all-int, all-float, alternating and every single one) and the result, logs, failure message, arguments after the call and globals compared with the '
        'all-float run; distinct = distinct (call, outcome) digests')
ASSUMPTIONS = [
    'negative zero has no int spelling and is not an input',
    'clock, random and fetch functions are excluded, as the property says'
]
EXCLUDED = {'datetimeNow', 'datetimeToday', 'mathRandom', 'systemFetch'}


# ---------------------------------------------------------------------------------------------------------------
# spellings
# ---------------------------------------------------------------------------------------------------------------

def is_integral(v):
    return ref.typ(v) == 'number' and v == v and abs(v) < 1e15 and v == int(v)


def count(v):
    t = ref.typ(v)
    if t == 'number':
        return 1 if is_integral(v) else 0
    if t == 'array':
        return sum(count(x) for x in v)
    if t == 'object':
        return sum(count(x) for x in v.values())
    return 0


def spell(v, bits):
    """A fresh copy of v; the next bit of the iterator decides each integral number: 1 = int, 0 = float."""
    t = ref.typ(v)
    if t == 'number':
        return (int(v) if next(bits) else float(v)) if is_integral(v) else v
    if t == 'array':
        return [spell(x, bits) for x in v]
    if t == 'object':
        return {k: spell(x, bits) for k, x in v.items()}
    return v


def spellings(k):
    if k == 0:
        return []
    if k <= 4:
        return [b for b in itertools.product((0, 1), repeat=k) if any(b)]
    out = [(1,) * k, tuple(i % 2 for i in range(k)), tuple(1 - i % 2 for i in range(k))]
    for i in range(k):
        out.append(tuple(int(i == j) for j in range(k)))
        out.append(tuple(int(i != j) for j in range(k)))
    return out


# ---------------------------------------------------------------------------------------------------------------
# argument palettes (numbers are written as ints; spell() decides)
# ---------------------------------------------------------------------------------------------------------------

def fn_first(args, options):  # pylint: disable=unused-argument
    return args[0] if args else None


def fn_minus(args, options):
    """a - b of the first two arguments."""
    try:
        return args[0] - args[1]
    except Exception:  # pylint: disable=broad-exception-caught
        return 0


def fn_one(args, options):
    return args[0] == 1 if args else 0


RX = re.compile('(a)|b')
D1 = datetime.datetime(2024, 2, 29, 10, 20, 30, 400000)
D2 = datetime.date(2023, 12, 31)
ROWS = [{'a': 1, 'b': 2, 'c': 'x'}, {'a': 1, 'b': 5, 'c': 'y'}, {'a': 3, 'b': None, 'c': 'x'}]
ROWS_MIX = [{'a': 1, 'b': 7}, {'a': 2.5, 'b': 0}, {'a': 1, 'b': -7}, {'a': '1', 'b': 3}]
TYPES = {
    'T': {'typedef': {'name': 'T', 'type': {'builtin': 'int'}}},
    'F': {'typedef': {'name': 'F', 'type': {'builtin': 'float'}, 'attr': {'gte': 1, 'lt': 10}}},
    'I': {'typedef': {'name': 'I', 'type': {'builtin': 'int'}, 'attr': {'gt': 1, 'lte': 10}}},
    'A': {'typedef': {'name': 'A', 'type': {'array': {'type': {'builtin': 'int'}}}, 'attr': {'lenGTE': 1}}},
    'S': {'struct': {'name': 'S', 'members': [{'name': 'a', 'type': {'builtin': 'int'}}, {'name': 'b', 'type': {'builtin': 'float'}, 'optional': True}]}},
    'B': {'typedef': {'name': 'B', 'type': {'builtin': 'bool'}}},
    'Y': {'typedef': {'name': 'Y', 'type': {'builtin': 'string'}, 'attr': {'lenLTE': 2}}},
    'N': {'typedef': {'name': 'N', 'type': {'builtin': 'any'}}},
}

BY_KIND = {
    'a': [[], [1, 2, 3], ['b', 'a', 'b'], [3, 'a', None, 1, [2], {'k': 1}], [1, 1, 0], [0], [2.5, 2, True, 1, False, 0], ROWS, ROWS_MIX, [D1, 1, D2, RX], None, 3],
    'o': [{}, {'a': 1}, {'b': 2, 'a': [1, {'c': 0}]}, {'1': 10, 'k': 'v', 'n': None}, None, 1],
    's': ['', 'a', 'abcabc', '1', '12.50', 'a b&1', '10 > b', None, 1],
    'n': [0, 1, 2, 7, -3, 100, 2.5, -0.5, 999999999999999, 1e21, None, '1'],
    'i': [0, 1, 2, 3, 5, 10, 16, 36, 100, -1, 1.5, None, 'a'],
    'd': [D1, D2, None, 1],
    'f': [fn_first, fn_minus, fn_one, None, 1],
    'r': [RX, re.compile('[0-9]'), 'a', 1],
    'b': [0, 1, True, False, None, 'a', 2, [], [0]],
    '*': [None, True, False, 0, 1, 2, -3, 2.5, 'a', '', '1', [], [1], [1, [2, {'k': 3}]], {}, {'a': 1}, {'b': [0, 1], 'a': {'c': 2}}, D1, RX, fn_one, [0], 10, 100000000000000, 999999999999999],
}

# whole argument lists for the functions whose arguments depend on each other, and the free-form functions
SPECIAL = {
    'dataAggregate': [[rows, {'categories': cats, 'measures': [{'field': f, 'function': fun}]}] for rows in (ROWS, ROWS_MIX, [], [{'a': 1}, {'a': 1}, {'a': 2}, {}])
                      for cats in (['a'], ['c'], [], ['a', 'c']) for f in 'ab' for fun in ('average', 'count', 'max', 'min', 'stddev', 'sum')] +
                     [[ROWS, {'measures': [{'field': 'b', 'function': 'sum', 'name': 'n'}, {'field': 'b', 'function': 'average', 'name': 'm'}]}], [ROWS, {'measures': 1}], [ROWS, 5],
                      [ROWS, {'measures': [{'field': 1, 'function': 'sum'}]}]],
    'dataCalculatedField': [[rows, 'z', e, v] for rows in (ROWS, ROWS_MIX) for e in ('a + b', 'a * 2', "'' + a", 'v / a', 'arrayGet(w, a)', 'a == v', "if(a == 1, b, v)", 'stringRepeat(\'ab\', a)', 'a ** b', 'b % a', '-b')
                            for v in (None, {'v': 2, 'w': [5, 6, 7, 8]}, {'v': 0})],
    'dataFilter': [[rows, e, v] for rows in (ROWS, ROWS_MIX, [{'a': 0}, {'a': 1}, {}]) for e in ('a == 1', 'a', 'a < v', '!a', 'a == b', 'arrayIndexOf(w, a) >= 0', 'a + b > 3', "a == '1'") for v in (None, {'v': 2, 'w': [1, 3]}, 5)],
    'dataJoin': [[l, r, j, rj, left] for l in (ROWS, ROWS_MIX) for r in ([{'a': 1, 'd': 9}, {'a': 3, 'd': 8}, {'a': 1, 'b': 0}], ROWS) for j in ('a', 'b', 'a + 1', "'' + a", 'arrayNew(a)', "objectNew('k', a)") for rj in (None, 'a', 'a * 1') for left in (True, False, 0, 1)] +
                [[ROWS, ROWS, 'a + v', None, False, {'v': 1}], [ROWS, ROWS, 'a', 'a - v', 1, {'v': 1}]],
    'dataSort': [[rows, s] for rows in (ROWS, ROWS_MIX, [{'a': 2}, {'a': 10}, {'a': 2}, {'a': 1, 'b': 1}, {}]) for s in ([['a']], [['a', True]], [['b', 0], ['a', 1]], [['c'], ['b', 1]], [], [[1]], [['a', 1, 2]], 5, [5])],
    'dataTop': [[rows, n, c] for rows in (ROWS, ROWS_MIX, []) for n in (0, 1, 2, 3, 10, -1, 1.5, 100000000000000) for c in (None, ['a'], ['c', 'a'], [], [1], 3)],
    'dataValidate': [[rows, c] for rows in (ROWS, ROWS_MIX, [{'a': '1', 'b': 'true'}, {'a': 2}], [{'a': '2024-01-01'}, {'a': 1}], [5], [{'a': [1]}, {'a': {'b': 1}}]) for c in (True, False, 0, 1, None)],
    'dataParseCSV': [['a,b\n1,2'], [['a,b', '1,2'], '3,4'], [1], [['a', 1]], ['a', 1], ['a\n1', None], []],
    'datetimeNew': [[y, mo, d] + rest for y in (2024, 1999, 100, 99, 9999, 10000) for mo in (-30, 0, 1, 2, 12, 13, 40) for d in (-40, 0, 1, 29, 30, 366, 10000) for rest in ([], [0], [25], [10, -61, 3601, 1001], [0, 0, 0, -1], [1, 2, 3, 4])] +
                   [[2024, 1, 1, 2.5], [2024.5, 1, 1], [2024, 1], [2024, 1, 1, 0, 0, 0, 0, 0], ['2024', 1, 1], [2024, 1, 10001], [2024, 2, 3, None], [2024, 2, 3, 4, '5']],
    'schemaParse': [['typedef int T'], ['typedef int', ' T'], [1], [], [['struct S', '    int a'], 1]],
    'schemaParseEx': [['typedef int T', t, f] for t in (None, {}, TYPES, {'X': 1}) for f in (None, 'file', 1)],
    'schemaValidate': [[TYPES, t, v] for t in 'TFIASBYNX' for v in (0, 1, 2, 10, 11, -5, 1.5, '1', '7', [1], [], [1, 2.5], {'a': 1}, {'a': 1, 'b': 2}, {'a': 2.5}, True, None, 'abc')] + [[1, 'T', 1], [TYPES, 1, 1]],
    'schemaValidateTypeModel': [[TYPES], [{'T': 1}], [{}], [1], [{'T': {'typedef': {'name': 'T', 'type': {'builtin': 'int'}, 'attr': {'gte': 1, 'len': 2}}}}],
                                [{'T': {'typedef': {'name': 'T', 'type': {'builtin': 'string'}, 'attr': {'lenGT': 1, 'lenLTE': 100, 'lenEq': 2.5}}}}]],
    'schemaTypeModel': [[], [1]],
    'stringFromCharCode': [[n] for n in (0, 97, 255, 8364, 65535, 65536, 128512, 1114111, 1114112, -1, 55296, 97.5, 1e6, 'a', None)] + [[97, 98], [97, 'a'], [97, -1], [97, 98, 99, 100, 101], []],
    'systemGlobalSet': [['n', v] for v in (0, 1, [1, 2], {'a': 1}, 'x', None)] + [[1, 2], ['n'], ['n', 1, 2]],
    'systemGlobalGet': [['g', 0], ['x', 1], ['x', [1]], [1], ['g'], ['x', {'a': 3}], ['x', 5, 6]],
    'systemPartial': [[fn_minus, 5], [fn_first, [1]], [fn_first], [1, 2], [fn_minus, 5, 3]],
    'arraySort': [[a, f] for a in ([3, 1, 2], [10, 9, 2, 33, 1], [1, 0, 1, 0], [2.5, 1, 2], ['b', 1, None, [1], [0, 5], {'a': 2}, {'a': 1}], [[2, 1], [1, 9], [1, 3]]) for f in (None, fn_minus, fn_one, 1)],
    'mathMax': [[]] + [list(t) for n in (1, 2, 3) for t in itertools.product((0, 1, -3, 2.5, 10, 'a', None, [1]), repeat=n)],
    'mathMin': [[]] + [list(t) for n in (1, 2, 3) for t in itertools.product((0, 1, -3, 2.5, 10, 'a', None, [1]), repeat=n)],
    'mathPi': [[], [1]],
    'arrayNew': [list(t) for n in (0, 1, 2, 3) for t in itertools.product((0, 1, 2.5, 'a', [1, 2]), repeat=n)],
    'objectNew': [[], ['a'], ['a', 1], ['a', [1, 2], 'b', {'c': 3}], [1, 2], ['a', 1, 2], ['a', 1, 'a', 2], [0, 'x']],
    'numberToFixed': [[x, d, t] for x in (0, 1, -1, 5, 10, 100, 1234567, 999999999999999, -999999999999999, 2.5, 0.125, 1e21) for d in (0, 1, 2, 5, 15, 30, -1, 1.5, None, '1') for t in (True, False, 0, 1, None)],
    'mathRound': [[x, d] for x in (0, 1, -1, 5, 10, 100, 1234567, 999999999999999, -999999999999999, 99999999999999, 2.5, -2.5, 0.125, 1e21) for d in (0, 1, 2, 3, 5, 10, 15, 22, 23, 100, 308, 400, -1, 1.5, None, '1')],
    'jsonStringify': [[v, i] for v in BY_KIND['*'] + [[1, 10, 100, 1000000, 999999999999999, 2.5, -1, 0]] for i in (None, 0, 1, 2, 4, 8, -1, 1.5, '2')],
    'numberParseInt': [[s, r] for s in ('0', '11', '7f', 'zz', '-12', '9', '', 'x', '1.0', 5, None) for r in (0, 1, 2, 8, 10, 16, 36, 37, -1, 2.5, None, 'a')],
    'stringSlice': [['abcdef', b, e] for b in (0, 1, 3, 6, 7, -1, 1.5, None) for e in (0, 1, 3, 6, 7, -1, 1.5, None, 'a')],
    'arraySlice': [[[1, 2, 3, 'd', [5]], b, e] for b in (0, 1, 3, 5, 6, -1, 1.5, None) for e in (0, 1, 3, 5, 6, -1, 1.5, None, 'a')],
    'arrayNewSize': [[n] + v for n in (0, 1, 2, 5, -1, 1.5, 'a', None) for v in ([], [0], [7], [None], [[1]], [1, 2])],
    'regexReplace': [[re.compile('(a)(?P<n>b)?'), s, r] for s in ('aab', '') for r in ('$1', '$<n>', '1', '$$1', 1, None)],
    'systemCompare': [[a, b] for a in BY_KIND['*'] for b in BY_KIND['*']],
    'systemIs': [[a, b] for a in BY_KIND['*'] for b in BY_KIND['*']],
}


def names():
    return [n for n in sorted(impl.lib()) if n not in EXCLUDED]


def typed_lists(name, deep):
    """The product of the parameter palettes at every prefix length, plus one surplus argument."""
    rows = sig.SIGNATURES[name][0]
    palettes = []
    for kind, *_ in rows:
        palettes.append(BY_KIND['*' if kind == '...' else kind])
    limit = 200000 if deep else 4000
    for length in range(len(palettes) + 2):
        pals = palettes[:length] + ([[1, 0, 'x']] if length > len(palettes) else [])
        size = 1
        for p in pals:
            size *= len(p)
        if size > limit:
            # full palettes for the numeric parameters, representative ones for the others
            pals = [p if rows[min(i, len(rows) - 1)][0] in 'in' else p[:4] + p[-1:] for i, p in enumerate(pals)]
            size = 1
            for p in pals:
                size *= len(p)
            if size > limit:
                pals = [p[:4] + p[-1:] for p in pals]
        yield from itertools.product(*pals)


GENERIC = [0, 1, 2, -1, 10, 2.5, 'a', [1, 2], {'a': 1}, None, True, D1, fn_minus, RX]
GENERIC_S = [0, 1, 3, 'ab', [1, 0, 2], {'a': 1}]


def lists(name, deep):
    for args in SPECIAL.get(name, []):
        yield list(args)
    if name in sig.SIGNATURES:
        for args in typed_lists(name, deep):
            yield list(args)
    for n in (0, 1, 2):
        for args in itertools.product(GENERIC, repeat=n):
            yield list(args)
    for args in itertools.product(GENERIC if deep else GENERIC_S + [None], repeat=3):
        yield list(args)
    for args in itertools.product(GENERIC if deep else GENERIC_S[1:5], repeat=4):
        yield list(args)
    for args in itertools.product(GENERIC_S if deep else GENERIC_S[1:5], repeat=5):
        yield list(args)


# ---------------------------------------------------------------------------------------------------------------
# one call
# ---------------------------------------------------------------------------------------------------------------

def options_for(logs, **globals_):
    g = dict(impl.lib())
    g['g'] = 5
    g.update(globals_)
    return {'globals': g, 'logFn': logs.append, 'debug': True, 'statementCount': 0, 'maxStatements': 0}


def call(name, args):
    """(result, logs, args afterwards, user globals afterwards) of one call through the runtime; a partial is called once, too."""
    logs = []
    options = options_for(logs)
    g = options['globals']
    exprs = []
    for ix, arg in enumerate(args):
        g[f'arg{ix}'] = arg
        exprs.append({'variable': f'arg{ix}'})
    result = impl.evaluate_expression({'function': {'name': name, 'args': exprs}}, options)
    extra = None
    if name == 'systemPartial' and callable(result):
        g['partial'] = result
        extra = ref.show(impl.evaluate_expression({'function': {'name': 'partial', 'args': [{'number': 2.0}, {'number': 1.0}]}}, options))
    alias = next((ix for ix, a in enumerate(args) if a is result and isinstance(a, (list, dict))), None)
    # that the call failed is behaviour; the wording of the debug line, which quotes host representations, is not
    logs = [re.sub(r"'(int|float)'", "'number'", re.sub(r'(\d)\.0\b', r'\1', text)) if text.startswith('BareScript: Function') else text for text in logs]
    return (ref.show(result), extra, tuple(logs), tuple(ref.show(a) for a in args), alias, ref.show(g.get('n')), ref.show(g.get('g')))


def describe(name, args):
    return f'{name}({", ".join(repr(a) if not callable(a) else a.__name__ for a in args)})'


def compare_spellings(ctx, name, args):
    k = count(args)
    if k == 0:
        return
    base_args = spell(args, iter((0,) * k))
    text = describe(name, base_args)
    base = call(name, base_args)
    for bits in spellings(k):
        other_args = spell(args, iter(bits))
        other_text = describe(name, other_args)
        other = call(name, other_args)
        ctx.states += 1
        if other != base:
            part = ['result', 'partial result', 'log', 'arguments after the call', 'returned alias', 'global n', 'global g']
            diff = [f'{p}: {x} / {y}' for p, x, y in zip(part, base, other) if x != y]
            ctx.fail('call:' + name, f'{text} and {other_text} differ: {"; ".join(diff)}')
    ctx.outcome((name, base))


CHUNK = 50


def gen_calls(deep):
    def gen(w, n):
        idx = 0
        for name in names():
            total = sum(1 for _ in lists(name, deep))
            for start in range(0, total, CHUNK):
                if idx % n == w:
                    yield idx, [name, start, deep]
                idx += 1
    return gen


_LISTS = {}


def run_calls(case, ctx):
    name, start, deep = case
    if name not in _LISTS:
        _LISTS.clear()
        _LISTS[name] = list(lists(name, deep))
    for args in _LISTS[name][start:start + CHUNK]:
        compare_spellings(ctx, name, args)


# ---------------------------------------------------------------------------------------------------------------
# operators
# ---------------------------------------------------------------------------------------------------------------

NUMS = [0, 1, -1, 2, -2, 3, 7, -7, 10, 16, 100, 255, 1000, 1000000, 2147483648, -4294967297, 94906267, 123456789012345, 999999999999999, -999999999999999, 0.5, -2.5, 0.1, 1e-300, 1e15, 1e300, 1e21]
OTHERS = [None, True, False, '', 'a', '1', [], [1], [1, 2], {}, {'a': 1}, {'a': [2, 3]}, D1, D2, datetime.datetime(1, 1, 1), datetime.datetime(9999, 12, 31), RX, fn_one]
OPS = ['+', '-', '*', '/', '%', '**', '==', '!=', '<', '<=', '>', '>=', '&&', '||']


def gen_ops():
    values = NUMS + OTHERS
    for i in range(len(values)):
        for j in range(len(values)):
            yield [i, j]


def run_ops(case, ctx):
    values = NUMS + OTHERS
    args = [values[case[0]], values[case[1]]]
    k = count(args)
    if k == 0:
        return
    runs = []
    for bits in [(0,) * k] + spellings(k):
        a, b = spell(args, iter(bits))
        logs = []
        options = options_for(logs, a=a, b=b)
        out = {}
        for op in OPS:
            r = impl.evaluate_expression({'binary': {'op': op, 'left': {'variable': 'a'}, 'right': {'variable': 'b'}}}, options)
            out[op] = ref.show(r)
            # what a script sees of the result
            options['globals']['r'] = r
            out[op + ' text'] = impl.evaluate_expression({'binary': {'op': '+', 'left': {'string': ''}, 'right': {'variable': 'r'}}}, options)
            out[op + ' json'] = ref.show(impl.evaluate_expression({'function': {'name': 'jsonStringify', 'args': [{'variable': 'r'}]}}, options))
            ctx.states += 1
        for op in '!-':
            out['u' + op] = ref.show(impl.evaluate_expression({'unary': {'op': op, 'expr': {'variable': 'a'}}}, options))
        out['if'] = ref.show(impl.evaluate_expression({'function': {'name': 'if', 'args': [{'variable': 'a'}, {'string': 'y'}, {'string': 'n'}]}}, options))
        out['text'] = impl.evaluate_expression({'binary': {'op': '+', 'left': {'string': ''}, 'right': {'variable': 'a'}}}, options)
        out['log'] = tuple(logs)
        runs.append(((a, b), out))
    (a0, b0), base = runs[0]
    for (a, b), out in runs[1:]:
        for key in base:
            if out[key] != base[key]:
                ctx.fail('operator:' + key.split()[0], f'{key}: {a0!r}, {b0!r} gives {base[key]}, {a!r}, {b!r} gives {out[key]}')
    ctx.outcome(base)


# expression trees of two operators over integral numbers (an intermediate result keeps its spelling)
TREE_NUMS = [0, 1, 2, -3, 10, 999999999999]
ARITH = ['+', '-', '*', '/', '%', '**']


def gen_trees():
    for op1 in ARITH:
        for op2 in ARITH + ['==', '<']:
            for x in TREE_NUMS:
                yield [op1, op2, x]


def run_trees(case, ctx):
    op1, op2, x = case
    for y in TREE_NUMS:
        for z in TREE_NUMS:
            runs = []
            for bits in itertools.product((0, 1), repeat=3):
                a, b, c = spell([x, y, z], iter(bits))
                options = options_for([], a=a, b=b, c=c)
                left = {'binary': {'op': op1, 'left': {'variable': 'a'}, 'right': {'variable': 'b'}}}
                res = []
                for tree in ({'binary': {'op': op2, 'left': left, 'right': {'variable': 'c'}}}, {'binary': {'op': op2, 'left': {'variable': 'c'}, 'right': {'group': left}}},
                             {'binary': {'op': op2, 'left': {'unary': {'op': '-', 'expr': {'variable': 'c'}}}, 'right': {'group': left}}}):
                    r = impl.evaluate_expression(tree, options)
                    options['globals']['r'] = r
                    res.append((ref.show(r), impl.evaluate_expression({'binary': {'op': '+', 'left': {'variable': 'r'}, 'right': {'string': ''}}}, options)))
                    ctx.states += 1
                runs.append(res)
            if any(r != runs[0] for r in runs):
                bad = next(i for i, r in enumerate(runs) if r != runs[0])
                ctx.fail('tree', f'({x} {op1} {y}) {op2} {z}: float spelling gives {runs[0]}, spelling {bad:03b} gives {runs[bad]}')
            ctx.outcome((op1, op2, runs[0]))


# ---------------------------------------------------------------------------------------------------------------
# scripts: number globals in every position, literals against host ints, the loop index, model literals
# ---------------------------------------------------------------------------------------------------------------

PROGRAMS = [
    "a = arrayNew('x', 'y', 'z', 'w')\nreturn arrayGet(a, n) + stringRepeat('-', n) + stringSlice('abcdef', n)",
    "o = objectNew('k', n)\nobjectSet(o, '' + n, n)\nreturn jsonStringify(o) + objectGet(o, '' + n)",
    "r = 0\nwhile r < n:\nr = r + 1\nendwhile\nreturn '' + r + ',' + n",
    "s = ''\nfor v, ix in arrayNewSize(n, n):\ns = s + ix + v + ','\nendfor\nreturn s",
    "a = arrayNew()\nix = 0\nloop:\narrayPush(a, ix)\nix = ix + 1\njumpif (ix < n) loop\nreturn arrayJoin(a, '|')",
    "function f(x, y...):\nreturn '' + x + y\nendfunction\nreturn f(n, n, 1) + f(n)",
    "d = datetimeNew(2024, n, n, n)\nreturn '' + datetimeMonth(d) + '/' + datetimeDay(d) + '/' + datetimeHour(d) + (d + n) + ((d + n) - d)",
    "if n:\nreturn 'yes' + !n\nelse:\nreturn 'no' + (-n)\nendif",
    "g = systemPartial(arrayGet, arrayNew(5, 6, 7, 8))\nreturn g(n)",
    "return arraySort(arrayNew(n, 1, n + 1, 2.5, '' + n))",
    "x = arrayNew(n, n)\narraySet(x, 1, n * 2)\nreturn jsonStringify(x, n)",
    "return arrayIndexOf(arrayNew(0, 1, 2, 3, 2), n) + ',' + arrayLastIndexOf(arrayNew(0, 1, 2, 3, 2, 1), n) + ',' + arrayIndexOf(arrayNew(0, 1, 2, 3, 2, 1), n, n)",
    "systemLog(n)\nsystemLog('v' + n)\nsystemLogDebug(n / 2)\nreturn stringNew(n) + systemType(n) + systemBoolean(n)",
    "r = dataFilter(arrayNew(objectNew('a', n), objectNew('a', n + 1)), 'a == b', objectNew('b', n))\nreturn jsonStringify(r)",
    "t = dataTop(arrayNew(objectNew('a', n), objectNew('a', 1), objectNew('a', n)), n, arrayNew('a'))\nreturn jsonStringify(t)",
    "return numberToFixed(n, n) + mathRound(n / 3, n) + numberParseInt('' + n) + numberParseInt('11', n + 2) + mathMax(n, 1) + mathMin(n, 2)",
    "return stringFromCharCode(97 + n, 98) + stringCharCodeAt('abcdef', n) + stringIndexOf('abcabc', 'b', n) + stringLastIndexOf('abcabc', 'b', n)",
    "return (n == 1) + (n != 2) + (n < 3) + systemCompare(n, 2) + systemIs(n, 1) + (n ** 2) + (7 % (n + 1)) + (n / 4)",
    "jumpif (n == 2) two\nreturn 'other'\ntwo:\nreturn 'two'",
    "return schemaValidate(schemaParse('typedef int(>= 0) T'), 'T', n) + ',' + schemaValidate(schemaParse('typedef float T'), 'T', n)",
]


def gen_programs():
    for p in range(len(PROGRAMS)):
        for n in (0, 1, 2, 3, 5, -1, 100):
            yield [p, n]


def run_programs(case, ctx):
    source, n = PROGRAMS[case[0]], case[1]
    runs = []
    for value in (float(n), n):
        for numbers in ('parsed', 'int', 'float'):
            model = impl.parse_script(source)
            if numbers != 'parsed':
                respell(model, numbers == 'int')
            g = {'n': value}
            out = impl.run_script(model, g, debug=True)
            ctx.states += 1
            logs = [re.sub(r'[0-9.]+ milliseconds|[0-9.]+', lambda m: '#' if 'milli' in m.group(0) else m.group(0), text) for text in out.logs]
            runs.append((value, numbers, (out.kind, ref.show(out.value), tuple(logs), out.error, ref.show(impl.user_globals(out.globals)), out.count)))
    for value, numbers, key in runs[1:]:
        if key != runs[0][2]:
            ctx.fail('program', f'n = {value!r}, {numbers} literals: {key}; n = {runs[0][0]!r}, parsed literals: {runs[0][2]}; program:\n{source}')
    ctx.outcome((case, runs[0][2]))


# every magnitude of integral number in the positions that do not allocate by it; two globals hold the same number and are spelled separately
MAGNITUDES = sorted({sign * value for sign in (1, -1) for value in
                     {10 ** k + d for k in range(16) for d in (-1, 0, 1)} | {2 ** k + d for k in range(50) for d in (-1, 0, 1)} | {12345, 86400000, 1e15 - 1, 123456789012345}
                     if value < 1e15} | {0})
MAGNITUDES = [int(v) for v in MAGNITUDES]
MAGNITUDE_PROGRAMS = [
    "return dataJoin(arrayNew(objectNew('id', n, 'x', 1)), arrayNew(objectNew('id', m, 'y', 2)), 'id')",
    "return dataJoin(arrayNew(objectNew('id', n, 'x', 1)), arrayNew(objectNew('id', m - 1, 'y', 2)), 'id', 'id + 1', true)",
    "return dataJoin(arrayNew(objectNew('id', arrayNew(n, 'a'))), arrayNew(objectNew('id', arrayNew(m, 'a'), 'y', n)), 'id')",
    "return dataAggregate(arrayNew(objectNew('c', n, 'v', m), objectNew('c', m, 'v', n), objectNew('c', 'x' + n, 'v', 1)), "
    "objectNew('categories', arrayNew('c'), 'measures', arrayNew(objectNew('field', 'v', 'function', 'sum'), objectNew('field', 'v', 'function', 'max', 'name', 'w'))))",
    "return dataTop(arrayNew(objectNew('c', n), objectNew('c', m), objectNew('c', objectNew('k', n)), objectNew('c', objectNew('k', m))), 1, arrayNew('c'))",
    "return dataSort(arrayNew(objectNew('c', n, 'i', 0), objectNew('c', m, 'i', 1), objectNew('c', n - 1, 'i', 2)), arrayNew(arrayNew('c', true)))",
    "return dataFilter(arrayNew(objectNew('c', n), objectNew('c', m + 1)), 'c == q', objectNew('q', m))",
    "return dataCalculatedField(arrayNew(objectNew('c', n)), 'd', \"c * 2 + 'x' + q\", objectNew('q', m))",
    "return dataValidate(arrayNew(objectNew('c', n), objectNew('c', m)))",
    "return arrayNew(arrayIndexOf(arrayNew(1.5, n), m), arrayLastIndexOf(arrayNew(n, 1.5), m), arraySort(arrayNew(n, m, 0.5, 'b')), arrayJoin(arrayNew(n, arrayNew(m)), '|'))",
    "return arrayNew(n == m, n != m, n < m, n <= m, systemCompare(n, m), systemIs(n, n), systemCompare(arrayNew(n), arrayNew(m)), systemCompare(objectNew('a', n), objectNew('a', m)))",
    "return arrayNew(n + m, n - m, n * m, n / m, n % m, n / 7, n % 7, -7 % n, 7 / n, n ** 2, -n, !n, n && 1, n || 2, n + 0.5, n * 0.1)",
    "return arrayNew('' + n, stringNew(n), jsonStringify(arrayNew(n, objectNew('a', m))), jsonStringify(n, 2), numberToFixed(n), numberToFixed(n, 2, true), numberToFixed(n / 8, 3))",
    "return arrayNew(mathAbs(n), mathCeil(n), mathFloor(n), mathRound(n), mathRound(n, 2), mathSign(n), mathSqrt(n), mathLn(n), mathLog(n), mathLog(n, 2), mathMax(n, m, 1), mathMin(n, m, 1))",
    "return arrayNew(mathSin(n), mathCos(n), mathTan(n), mathAtan(n), mathAtan2(n, m), mathAtan2(1, m), mathAcos(n), mathAsin(n))",
    "return arrayNew(schemaValidate(schemaParse('typedef int T'), 'T', n), schemaValidate(schemaParse('typedef float T'), 'T', m), schemaValidate(schemaParse('typedef int(> 5) T'), 'T', n))",
    "return schemaValidate(schemaParse('struct T', '    int a', '    float b'), 'T', objectNew('a', n, 'b', m))",
    "return arrayNew(datetimeNew(2020, 1, 1, 0, 0, 0, n), datetimeNew(2020, 1, n), datetimeNew(2020, n, 1), datetimeNew(n, 1, 1), datetimeNew(2020, 1, 1, n), datetimeNew(2020, 1, 1, 0, n), datetimeNew(2020, 1, 1, 0, 0, n))",
    "return arrayNew(datetimeNew(2020, 1, 1) + n, n + datetimeNew(2020, 1, 1), datetimeNew(2020, 1, 1) - n)",
    "return arrayNew(systemType(n), systemBoolean(n), if(n, 'a', 'b'), objectGet(objectNew('' + n, 1), '' + m), urlEncode('' + n), n + '', numberParseInt('' + n), numberParseFloat('' + n))",
    "return arrayNew(stringSlice('abcdef', n), stringSlice('abcdef', 1, m), arraySlice(arrayNew(1, 2, 3), n), arraySlice(arrayNew(1, 2, 3), 0, m), arrayGet(arrayNew(1, 2), n), stringCharCodeAt('abc', n))",
    "return arrayNew(stringIndexOf('abcabc', 'b', n), stringLastIndexOf('abcabc', 'b', n), arrayIndexOf(arrayNew(1, 2, 1), 1, n), arrayLastIndexOf(arrayNew(1, 2, 1), 1, n), stringFromCharCode(n % 1000))",
    "a = arrayNew(1, 2, 3)\nreturn arrayNew(arraySet(a, n, m), arrayDelete(a, n), a, arrayNewSize(2, n), systemGlobalSet('z', n), z, systemGlobalGet('zz', m))",
    "function f(p, q...):\n    return arrayNew(p, q, p == m)\nendfunction\ng = systemPartial(f, n)\nreturn arrayNew(f(n, m), g(m), arraySort(arrayNew(n, m, 1), systemPartial(systemCompare)))",
    "a = arrayNew()\nfor v, ix in arrayNew(n, m):\n    arrayPush(a, v + ix)\nendfor\nsystemLog(n)\nsystemLog(a)\nreturn jsonParse(jsonStringify(objectNew('a', a, 'n', n)))",
    "return dataParseCSV('a,b', '' + n + ',x', '' + m + '.5,' + n)",
    "return arrayNew(regexReplace(regexNew('0+'), '' + n, 'z'), regexMatchAll(regexNew('\\\\d'), '' + n), regexMatch(regexNew('1'), '' + m), regexEscape('' + n), stringReplace('' + n, '0', m))"
]


def gen_magnitudes():
    for p in range(len(MAGNITUDE_PROGRAMS)):
        for n in MAGNITUDES:
            # datetimeNew walks month by month
            if abs(n) < 70000 or 'datetimeNew(n' not in MAGNITUDE_PROGRAMS[p]:
                yield [p, n]


MAGNITUDE_MODELS = {}


def run_magnitudes(case, ctx):
    p, n = case
    if p not in MAGNITUDE_MODELS:
        MAGNITUDE_MODELS[p] = impl.parse_script(MAGNITUDE_PROGRAMS[p])
    runs = []
    for bits in ((0, 0), (0, 1), (1, 0), (1, 1)):
        a, b = spell([n, n], iter(bits))
        out = impl.run_script(MAGNITUDE_MODELS[p], {'n': a, 'm': b}, debug=True)
        ctx.states += 1
        logs = [re.sub(r'[0-9.]+ milliseconds', '#', text) for text in out.logs]
        runs.append((bits, (out.kind, ref.show(out.value), tuple(logs), out.error, ref.show(impl.user_globals(out.globals)), out.count)))
    for bits, key in runs[1:]:
        if key != runs[0][1]:
            ctx.fail('magnitude', f'{n} as {["float", "int"][bits[0]]} n and {["float", "int"][bits[1]]} m: {key}; as two floats: {runs[0][1]}; program:\n{MAGNITUDE_PROGRAMS[p]}')
    ctx.outcome((p, runs[0][1]))


def respell(node, to_int):
    """Replace the number literals of a model in place."""
    if isinstance(node, dict):
        for key, value in node.items():
            if key == 'number' and is_integral(value):
                node[key] = int(value) if to_int else float(value)
            else:
                respell(value, to_int)
    elif isinstance(node, list):
        for value in node:
            respell(value, to_int)


def spaces(tier):
    deep = tier == 'thorough'
    return [
        Space('calls', gen_calls(deep), run_calls, f'{len(names())} library functions x argument lists of 0-5 values (typed products, special lists, generic tuples) x spellings', sharded=True, cpu=60.0),
        Space('operators', gen_ops, run_ops, f'all pairs of {len(NUMS)} numbers and {len(OTHERS)} other values x 14 binary and 2 unary operators x spellings'),
        Space('trees', gen_trees, run_trees, 'all two-operator arithmetic trees over 6 numbers x all 8 spellings'),
        Space('magnitudes', gen_magnitudes, run_magnitudes, f'{len(MAGNITUDE_PROGRAMS)} scripts over two equal globals x {len(MAGNITUDES)} integral numbers of every magnitude below 1e15 x 4 spellings'),
        Space('programs', gen_programs, run_programs, f'{len(PROGRAMS)} scripts x 7 numbers x global and literal spellings'),
    ]
