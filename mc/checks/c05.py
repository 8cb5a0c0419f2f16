"""C05: runtime errors are contained; only documented exceptions escape."""

import datetime
import itertools
import math

from mc import impl, palette, ref, sig
from mc.core import Space
from mc.checks.c03 import ALIASES, OPS

PROPERTY = 'C05'
LEVEL = 'exploration'
RULE = ('every program / expression of the listed finite spaces is executed on the real runtime in debug mode; monitors: only BareScriptRuntimeError / '
        'BareScriptParserError escape, every result is a BareScript value, a failing call gives its documented failure value, is logged and execution continues; '
        'distinct = distinct (result, log) outcomes')
ASSUMPTIONS = [
    'sizes whose result does not fit in memory (array sizes and indents of 1e6 and above) are outside the space',
    'exceptions that are not Exception subclasses (interpreter exit) and failing logFn callbacks are outside the space'
]

FAILED = 'BareScript: Function "'


def valid_value(value):
    """True if a value and everything in it is a BareScript value."""
    stack = [value]
    seen = set()
    while stack:
        v = stack.pop()
        if isinstance(v, (list, dict)):
            if id(v) in seen:
                continue
            seen.add(id(v))
            if isinstance(v, dict):
                if not all(isinstance(k, str) for k in v):
                    return False
                stack.extend(v.values())
            else:
                stack.extend(v)
        elif ref.typ(v) == 'unknown' or (isinstance(v, datetime.date) and not isinstance(v, (datetime.date, datetime.datetime))):
            return False
    return True


def brief(v):
    try:
        return ref.show(v)[:200]
    except (RecursionError, ValueError):
        return f'<{type(v).__name__}>'


def snapshot(v, depth=0):
    """A structural print of a value that tolerates cycles and depth."""
    if depth > 6:
        return '...'
    if isinstance(v, list):
        return [snapshot(x, depth + 1) for x in v[:50]] + [len(v)]
    if isinstance(v, dict):
        return [(k, snapshot(x, depth + 1)) for k, x in v.items()]
    if isinstance(v, int) and not isinstance(v, bool):
        return ('int', v)
    return (type(v).__name__, v if isinstance(v, (str, float, bool)) and v == v else id(type(v)))


def call_model(name, n):
    call = {'function': {'name': name, 'args': [{'variable': f'a{i}'} for i in range(n)]}}
    return {'statements': [
        {'expr': {'name': 'result', 'expr': call}},
        {'expr': {'expr': {'function': {'name': 'finished', 'args': []}}}},
        {'return': {'expr': {'variable': 'result'}}}
    ]}


_MODELS = {}


def check_call(name, names, ctx, make=palette.make, debug=True):
    args = [make(n) for n in names]
    key = (name, len(args))
    if key not in _MODELS:
        _MODELS[key] = call_model(*key)
    finished = []
    logs = []
    globals_ = {f'a{i}': v for i, v in enumerate(args)}
    globals_['finished'] = lambda a, o: finished.append(1)
    bad = sig.invalid(name, args)
    before = [snapshot(v) for v in args] if bad else None
    what = f'{name}({", ".join(names)})'
    try:
        value = impl.execute_script(_MODELS[key], {'globals': globals_, 'logFn': logs.append, 'debug': debug})
    except impl.BareScriptRuntimeError as exc:
        if "'c(a)'" not in names or 'nofunction' not in str(exc):
            ctx.fail(f'call:{name}', f'{what}: runtime error {exc}')
        return
    except Exception as exc:  # pylint: disable=broad-exception-caught
        ctx.fail(f'call:{name}', f'{what}: {type(exc).__name__}: {str(exc)[:300]} escaped')
        return
    ctx.states += 1
    if not finished:
        ctx.fail('continue', f'{what}: execution did not continue')
    if not valid_value(value):
        ctx.fail('value', f'{what}: {brief(value)} is not a BareScript value')
    if not all(valid_value(v) for v in args):
        ctx.fail('value', f'{what}: an argument is not a BareScript value after the call')
    failed = [m for m in logs if m.startswith(f'{FAILED}{name}" failed with error')]
    if not debug:
        if failed:
            ctx.fail('log', f'{what}: a failure is logged outside debug mode: {failed}')
        return
    want = sig.failure_value(name, args)
    if failed and value is not None and not ref_same(value, want):
        ctx.fail('failure-value', f'{what}: failed ({failed[0][:200]}) with {brief(value)}, documented {brief(want)}')
    if bad:
        if not failed:
            ctx.fail('log', f'{what}: an invalid call is not reported in debug mode: {logs[:2]}')
        if not ref_same(value, want):
            ctx.fail('failure-value', f'{what}: an invalid call gives {brief(value)}, documented {brief(want)}')
        after = [snapshot(v) for v in args]
        if after != before:
            ctx.fail('failure-args', f'{what}: an invalid call changed its arguments: {str(before)[:300]} -> {str(after)[:300]}')
    ctx.outcome((name, type(value).__name__, bool(failed), bad))


def ref_same(a, b):
    return a is b or (type(a) in (bool, int, float, str) and type(b) in (bool, int, float, str) and ref.typ(a) == ref.typ(b) and (a == b or (a != a and b != b)))


HUGE = {'arrayNewSize': 0, 'jsonStringify': 1}


def too_big(name, names, make=palette.make):
    """Calls whose result does not fit in memory."""
    ix = HUGE.get(name)
    if ix is None or ix >= len(names):
        return False
    v = make(names[ix])
    return ref.typ(v) == 'number' and v == v and 1e5 < v < float('inf')


# ---------------------------------------------------------------------------------------------------------------
# A. library calls
# ---------------------------------------------------------------------------------------------------------------

CORE3 = ['null', 'true', '0', '1', '-1', '2', '0.5', 'i2', "''", "'a'", "'expr'", 'dt', '[]', '[1,2]', 'rows', "['b','a']", '{}', '{a:1}', 'fn', 'fnraise', 'rx', '10', 'inf',
         "sorts", "cats", 'types', 'agg']


def gen_calls(names2, names3):
    def gen(w, n):
        idx = 0
        for name in sorted(impl.lib()):
            for k, names in ((0, palette.ALL), (1, palette.ALL), (2, names2)):
                for combo in itertools.product(names, repeat=k):
                    if idx % n == w and not too_big(name, combo):
                        yield idx, [name, list(combo)]
                    idx += 1
            if name in sig.SIGNATURES and sig.arity(name)[1] in (0, 1):
                continue
            for combo in itertools.product(names3, repeat=3):
                if idx % n == w and not too_big(name, combo):
                    yield idx, [name, list(combo)]
                idx += 1
    return gen


def run_calls(case, ctx):
    name, names = case
    check_call(name, names, ctx)
    if len(names) <= 1:
        check_call(name, names, ctx, debug=False)


# valid argument lists; every one or two of the arguments are replaced by every value
VALID = {
    'datetimeNew': ["y", '2', '3', '10', '2', '1', '100'],
    'dataJoin': ['rows', 'rows2', "'a'", "'b'", 'true', '{a:1}'],
    'dataCalculatedField': ['rows', "'b'", "'expr'", '{a:1}'],
    'dataFilter': ['rows', "'a'", '{a:1}'],
    'dataAggregate': ['rows', 'agg'],
    'dataSort': ['rows', 'sorts'],
    'dataTop': ['rows', '1', 'cats'],
    'dataValidate': ['rows', 'true'],
    'dataParseCSV': ["'csv'", "'csv'"],
    'schemaValidate': ['types', "'T'", '1'],
    'schemaParseEx': ["'schema'", '{}', "'a'"],
    'schemaParse': ["'schema'", "'schema'"],
    'arraySlice': ['[1,2]', '0', '1'],
    'arrayIndexOf': ['[1,2]', '1', '0'],
    'arrayLastIndexOf': ['[1,2]', '1', '0'],
    'arraySet': ['[1,2]', '0', '1'],
    'arraySort': ['[3,1,2]', 'fn'],
    'stringIndexOf': ["'ab'", "'b'", '0'],
    'stringLastIndexOf': ["'ab'", "'b'", '1'],
    'stringSlice': ["'ab'", '0', '1'],
    'stringReplace': ["'ab'", "'a'", "'b'"],
    'stringFromCharCode': ['36', '100', '16'],
    'regexReplace': ['rx2', "'b'", "'$1$<n>'"],
    'regexMatch': ['rx2', "'ab'"],
    'regexMatchAll': ['rx2', "'ab'"],
    'regexSplit': ['rx2', "'ab'"],
    'regexNew': ["'('", "'flags'"],
    'numberToFixed': ['7.25', '1', 'true'],
    'numberParseInt': ["'1'", '16'],
    'mathRound': ['7.25', '1'],
    'mathLog': ['2', '10'],
    'mathMax': ['1', "'a'", 'dt'],
    'mathMin': ['1', "'a'", 'dt'],
    'objectNew': ["'a'", '1', "'b'", '2'],
    'objectGet': ['{a:1}', "'b'", '1'],
    'objectSet': ['{a:1}', "'b'", '1'],
    'objectAssign': ['{a:1}', '{b:1}'],
    'systemPartial': ['fn', '1', '2'],
    'systemFetch': ['requests'],
    'systemGlobalSet': ["'a'", '1'],
    'systemGlobalGet': ["'a'", '1'],
    'jsonStringify': ['{a:1}', '2'],
    'arrayPush': ['[1]', '1', '2'],
    'arrayExtend': ['[1]', '[1,2]'],
    'arrayJoin': ['[1,2]', "','"],
    'systemCompare': ['[1]', '[1,2]'],
}
EXTRA = {
    'y': lambda: 2024.0,
    "'schema'": lambda: 'struct T\n  int a\n',
    "'T'": lambda: 'T',
    "','": lambda: ',',
    "'$1$<n>'": lambda: '$1-$<n>-$$-\\1',
    'requests': lambda: ['u', {'url': 'v'}],
    "'c(a)'": lambda: 'nofunction(a)',
    "'$9'": lambda: '$9$<zz>',
    "'1/0'": lambda: '1 / (a - a)',
    "'deepexpr'": lambda: '(' * 300 + '1' + ')' * 300,
    '[[a]]': lambda: [['a']],
    '[a]': lambda: ['a', 'b'],
    "[[1,2]]": lambda: [[1.0, 2.0]],
    'agg2': lambda: {'measures': [{'field': 'zz', 'function': 'average', 'name': 'a'}]},
    'agg3': lambda: {'categories': ['b'], 'measures': [{'field': 'b', 'function': 'stddev'}]},
    'agg4': lambda: {'measures': [{'field': 'a', 'function': 'median'}]},
    'mixedrows': lambda: [{'a': 1.0}, {'a': 'x'}, {'a': None}, {'b': [1.0]}, {}],
    'circrows': lambda: [{'a': palette.make('[circ]')}, {'a': palette.make('[circ]')}],
    'funcrows': lambda: [{'a': palette.make('fn')}, {'a': palette.make('rx')}],
    "'badcsv'": lambda: 'a,"b\n1,x\n"2,y\n\n,,,,\n',
    "'nulcsv'": lambda: 'a\x00b,c\n1,2\n',
    "'bigint'": lambda: '9' * 5000,
    "'bigjson'": lambda: '[' * 5000 + ']' * 5000,
    "'nanjson'": lambda: '[NaN, Infinity, 1e999]',
    "'surjson'": lambda: '["\\ud800"]',
    "'yearbig'": lambda: '9999-12-31T23:59:59-23:59',
    "'pct'": lambda: '%\ud800',
    'r100': lambda: 100.0,
    '9000': lambda: 9000.0,
    '-1e6': lambda: -1e6,
    '1e12': lambda: 1e12,
    '0x110000': lambda: 1114112.0,
    '55296': lambda: 55296.0,
    'badtypes': lambda: {'T': {'struct': {'name': 'T', 'members': [{'name': 'a', 'type': {'user': 'U'}}]}}},
    'looptypes': lambda: {'T': {'struct': {'name': 'T', 'bases': ['T']}}},
}


def make_x(name):
    return EXTRA[name]() if name in EXTRA else palette.make(name)


def gen_valid(pairs):
    def gen(w, n):
        idx = 0
        names = palette.ALL + list(EXTRA)
        for fn, args in VALID.items():
            variants = [args]
            for k in range(len(args)):
                variants.append(args[:k])
            for v in variants:
                if idx % n == w:
                    yield idx, [fn, v]
                idx += 1
            positions = list(itertools.combinations(range(len(args)), 2)) if pairs else [(i, i) for i in range(len(args))]
            for i, j in positions:
                for a in names:
                    for b in (names if i != j else [a]):
                        if idx % n == w:
                            v = list(args)
                            v[i] = a
                            v[j] = b
                            if not too_big(fn, v, make_x):
                                yield idx, [fn, v]
                        idx += 1
            for a in names:
                if idx % n == w:
                    yield idx, [fn, args + [a]]
                idx += 1
    return gen


def run_valid(case, ctx):
    check_call(case[0], case[1], ctx, make_x)


# ---------------------------------------------------------------------------------------------------------------
# B. operators
# ---------------------------------------------------------------------------------------------------------------

OPERANDS = palette.ALL + ["'bigint'", '1e12', '-1e6']
CHAIN = ['null', 'true', '0', '-1', '2', '0.5', '-2.5', '1e300', 'maxfloat', 'i10^400', 'inf', 'nan', "'a'", 'dt', 'dtmax', '[circ]', '{}', 'fn']


def var(name):
    return {'variable': name}


def expr_of(op, a, b=None):
    if b is None:
        return {'unary': {'op': op, 'expr': a}}
    return {'binary': {'op': op, 'left': a, 'right': b}}


def contained(expr, globals_, ctx, what):
    for mode in ('expression', 'script', 'condition', 'argument'):
        try:
            if mode == 'expression':
                value = impl.evaluate_expression(expr, {'globals': globals_})
            elif mode == 'script':
                value = impl.execute_script({'statements': [{'expr': {'name': 'r', 'expr': expr}}, {'return': {'expr': var('r')}}]}, {'globals': dict(globals_)})
            elif mode == 'condition':
                value = impl.execute_script({'statements': [{'jump': {'label': 'a', 'expr': expr}}, {'label': 'a'}, {'return': {'expr': {'number': 1.0}}}]},
                                            {'globals': dict(globals_)})
                if value != 1:
                    ctx.fail('continue', f'{what} ({mode}): {brief(value)}')
            else:
                value = impl.execute_script({'statements': [{'return': {'expr': {'function': {'name': 'arrayNew', 'args': [expr]}}}}]}, {'globals': dict(globals_)})
                if not isinstance(value, list) or len(value) != 1:
                    ctx.fail('continue', f'{what} ({mode}): {brief(value)}')
        except Exception as exc:  # pylint: disable=broad-exception-caught
            ctx.fail(f'operator:{type(exc).__name__}', f'{what} ({mode}): {type(exc).__name__}: {str(exc)[:200]} escaped')
            return
        ctx.states += 1
        if not valid_value(value):
            ctx.fail('value', f'{what} ({mode}): {brief(value)} is not a BareScript value')
        if mode == 'expression':
            ctx.outcome((what if len(what) < 40 else what[:40], type(value).__name__))


def gen_operators():
    for op in OPS:
        for a in OPERANDS:
            for b in OPERANDS:
                yield [op, a, b]
    for op in '!-':
        for a in OPERANDS:
            yield [op, a]


def run_operators(case, ctx):
    op, a = case[:2]
    b = case[2] if len(case) > 2 else None
    contained(expr_of(op, var('a'), var('b') if b is not None else None), {'a': make_x(a), 'b': make_x(b) if b is not None else None}, ctx, ' '.join(case))


ARITH = ['+', '-', '*', '/', '%', '**', '<', '==']


def gen_chains(ops, values):
    def gen(w, n):
        idx = 0
        for shape in (0, 1, 2):
            for o1 in ops:
                for o2 in ops:
                    for a in values:
                        if idx % n == w:
                            yield idx, [shape, o1, o2, a, values]
                        idx += 1
    return gen


def run_chains(case, ctx):
    shape, o1, o2, an, values = case
    for bn in values:
        for cn in values:
            globals_ = {'a': make_x(an), 'b': make_x(bn), 'c': make_x(cn)}
            if shape == 0:
                expr = expr_of(o2, expr_of(o1, var('a'), var('b')), var('c'))
            elif shape == 1:
                expr = expr_of(o1, var('a'), expr_of(o2, var('b'), var('c')))
            else:
                expr = expr_of(o1, expr_of('-', var('a')), expr_of('-', expr_of(o2, var('b'), var('c'))))
            try:
                value = impl.evaluate_expression(expr, {'globals': globals_})
            except Exception as exc:  # pylint: disable=broad-exception-caught
                ctx.fail(f'operator:{type(exc).__name__}', f'{case[:4]} b={bn} c={cn}: {type(exc).__name__}: {str(exc)[:200]} escaped')
                return
            ctx.states += 1
            if not valid_value(value):
                ctx.fail('value', f'{case[:4]} b={bn} c={cn}: {brief(value)} is not a BareScript value')
    ctx.outcome(case[:4])


# ---------------------------------------------------------------------------------------------------------------
# C. statement templates over adversarial globals
# ---------------------------------------------------------------------------------------------------------------

TEMPLATES = [
    "for v in a:\n    systemLog(v)\n    if v == b:\n        break\n    endif\nendfor\n",
    "for v, i in a:\n    x = arrayGet(a, i) + b\n    if i > 4:\n        break\n    endif\nendfor\n",
    "if a:\n    x = b\nelif b:\n    x = a\nelse:\n    x = 1\nendif\n",
    "n = 0\nwhile a && n < 2:\n    n = n + 1\n    b = a\nendwhile\n",
    'a(b)\n', 'x = a(b, a)\n', 'x = systemPartial(a, b)\nx()\n', 'x = systemPartial(a, b)\nx(a)\narraySort(arrayNew(1, 2), x)\n',
    "function f(p, q...):\n    return p + q\nendfunction\nx = f(a, b)\ny = f(b)\n",
    "function f(p):\n    p(b)\n    return p\nendfunction\nx = f(a)\n",
    'arraySort(arrayNew(a, b, a, b))\n', 'arraySort(arrayNew(a, b), b)\n', 'x = arrayIndexOf(arrayNew(a), b)\ny = arrayIndexOf(a, fn)\n',
    "x = a + ',' + b\nsystemLog(x)\n", 'systemLog(a)\nsystemLogDebug(b)\n', "x = jsonStringify(objectNew('a', a, 'b', b))\n", 'x = mathMax(a, b)\ny = mathMin(b, a)\n',
    "rows = arrayNew(objectNew('a', a), objectNew('a', b))\nx = dataSort(rows, arrayNew(arrayNew('a')))\n",
    "rows = arrayNew(objectNew('a', a), objectNew('a', b))\nx = dataAggregate(rows, objectNew('measures', arrayNew(objectNew('field', 'a', 'function', 'sum'))))\n",
    "rows = arrayNew(objectNew('a', a), objectNew('a', b))\nx = dataAggregate(rows, objectNew('categories', arrayNew('a'), 'measures', "
    "arrayNew(objectNew('field', 'a', 'function', 'stddev'), objectNew('field', 'a', 'function', 'average', 'name', 'z'))))\n",
    "rows = arrayNew(objectNew('a', a), objectNew('a', b))\nx = dataTop(rows, 1, arrayNew('a'))\ny = dataValidate(rows)\nz = dataValidate(rows, true)\n",
    "rows = arrayNew(objectNew('a', a), objectNew('a', b))\nx = dataJoin(rows, rows, 'a')\ny = dataFilter(rows, 'a / a')\nz = dataCalculatedField(rows, 'c', 'a ** a')\n",
    "rows = arrayNew(objectNew('a', a))\nx = dataFilter(rows, 'zz(a)')\n", "rows = arrayNew(objectNew('a', a))\nx = dataCalculatedField(rows, 'c', 'a(1) + b', objectNew('b', b))\n",
    "systemGlobalSet('arrayLength', a)\nfor v in arrayNew(1, 2):\n    systemLog(v)\n    if v == 2:\n        break\n    endif\n    if systemGlobalGet('k'):\n        break\n    endif\n"
    "    systemGlobalSet('k', 1)\nendfor\n",
    "arrayGet = a\nfor v in arrayNew(1, 2):\n    systemLog(v)\nendfor\n",
    'o = objectNew()\nobjectSet(o, a, b)\nx = objectGet(o, a, b)\ny = objectHas(o, a)\nz = objectDelete(o, a)\n',
    'x = arrayNew(a)\narrayPush(x, x)\ny = x == x\nz = x + a\nw = jsonStringify(x)\nsystemLog(x)\nu = systemCompare(x, arrayNew(x))\n',
    "x = if(a, b, a)\ny = if(b(a), 1)\n", 'return a\n', 'x = !a || -b\nreturn x ** b\n', 'x = a == b\nx2 = a < b\nx3 = systemIs(a, b)\nx4 = systemType(a) + systemBoolean(b)\n',
]


def gen_templates(names):
    def gen(w, n):
        idx = 0
        for t in range(len(TEMPLATES)):
            for a in names:
                for b in names:
                    if idx % n == w:
                        yield idx, [t, a, b]
                    idx += 1
    return gen


_PARSED = {}


def run_templates(case, ctx):
    t, an, bn = case
    if t not in _PARSED:
        _PARSED[t] = impl.parse_script(TEMPLATES[t] + "systemLog('finished')\n")
    globals_ = {'a': make_x(an), 'b': make_x(bn), 'fn': palette.make('fn')}
    logs = []
    kind = 'return'
    try:
        value = impl.execute_script(_PARSED[t], {'globals': globals_, 'logFn': logs.append, 'debug': True, 'maxStatements': 3000})
        if 'return' not in TEMPLATES[t].splitlines()[-1] and (not logs or logs[-1] != 'finished'):
            ctx.fail('continue', f'{case}: execution did not finish: {str(logs)[:500]}\n{TEMPLATES[t]}')
    except impl.BareScriptRuntimeError as exc:
        kind = 'runtime-error'
        value = None
        if not (str(exc).startswith('Undefined function') or str(exc).startswith('Exceeded maximum')):
            ctx.fail('error', f'{case}: runtime error {exc}\n{TEMPLATES[t]}')
    except Exception as exc:  # pylint: disable=broad-exception-caught
        ctx.fail(f'template:{type(exc).__name__}', f'{case}: {type(exc).__name__}: {str(exc)[:300]} escaped\n{TEMPLATES[t]}')
        return
    ctx.states += 1
    if not valid_value(value) or not valid_value({k: v for k, v in globals_.items() if not callable(v)}):
        ctx.fail('value', f'{case}: a result is not a BareScript value\n{TEMPLATES[t]}')
    ctx.outcome((t, kind, type(value).__name__, len(logs)))


# ---------------------------------------------------------------------------------------------------------------
# D. faults of host functions at every call path
# ---------------------------------------------------------------------------------------------------------------

class HostError(Exception):
    pass


class KeyedError(KeyError):
    def __init__(self, a, b):
        super().__init__(a, b)


def nested_fault():
    try:
        raise KeyError('inner')
    except KeyError as exc:
        raise HostError('outer') from exc


FAULTS = {
    'ZeroDivisionError': lambda: 1 // 0, 'KeyError': lambda: {}['k'], 'IndexError': lambda: [][1], 'TypeError': lambda: None + 1, 'AttributeError': lambda: None.x,
    'OverflowError': lambda: 2.0 ** 5000, 'RecursionError': RecursionError('r'), 'MemoryError': MemoryError('m'), 'StopIteration': StopIteration('s'), 'AssertionError': AssertionError(),
    'UnicodeDecodeError': lambda: b'\xff'.decode('utf-8'), 'OSError': lambda: open('/nonexistent/file', encoding='utf-8'),  # pylint: disable=consider-using-with
    'ValueError': lambda: int('x'), 'custom': HostError('custom'), 'keyed': KeyedError('a', 1), 'nested': nested_fault, 'NotImplementedError': NotImplementedError(),
    'TimeoutError': TimeoutError('t'), 'LookupError': LookupError(), 'EOFError': EOFError(), 'parser-error': None, 'surrogate': HostError('\ud800'), 'StopAsyncIteration': StopAsyncIteration(),
    'BufferError': BufferError(), 'unpack': lambda: (lambda x: x)(1, 2), 'group': ExceptionGroup('g', [KeyError('x')])
}


def fault(name):
    def host(args, options):
        if name == 'parser-error':
            return impl.parse_expression('a +')
        f = FAULTS[name]
        if isinstance(f, BaseException):
            raise f
        return f()
    return host


FAULT_PATHS = {
    'direct': ('x = host(1)\n', ['host'], 'x'),
    'nested-arg': ('x = arrayNew(host(1), 2)\n', ['host'], None),
    'operand': ('x = 1 + host(1)\n', ['host'], 'x'),
    'condition': ("x = 5\nif host(1):\n    x = 1\nelse:\n    x = null\nendif\n", ['host'], 'x'),
    'variable': ('h = host\nx = h(1)\n', ['h'], 'x'),
    'function': ("function f(a):\n    x = host(a)\n    systemLog('in')\n    return x\nendfunction\nx = f(1)\n", ['host'], 'x'),
    'partial': ('h = systemPartial(host, 1)\nx = h()\n', ['h'], 'x'),
    'sort': ('x = arraySort(arrayNew(2, 1), host)\n', ['arraySort'], 'x'),
    'sort-script': ("function f(a, b):\n    host(a)\n    return 0\nendfunction\narr = arraySort(arrayNew(2, 1), f)\nx = null\n", ['host'], 'x'),
    'index': ('x = arrayIndexOf(arrayNew(1), host)\n', ['arrayIndexOf'], None),
    'last-index': ('x = arrayLastIndexOf(arrayNew(1), host)\n', ['arrayLastIndexOf'], None),
    'filter': ("r = dataFilter(arrayNew(objectNew('a', 1)), 'host(a)')\nx = if(arrayLength(r), 1)\n", ['host'], 'x'),
    'calculated': ("r = dataCalculatedField(arrayNew(objectNew('a', 1)), 'b', 'host(a)')\nx = objectGet(arrayGet(r, 0), 'b', 5)\n", ['host'], 'x'),
    'calculated-variables': ("r = dataCalculatedField(arrayNew(objectNew('a', 1)), 'b', 'host(a + v)', objectNew('v', 1))\nx = objectGet(arrayGet(r, 0), 'b', 5)\n", ['host'], 'x'),
    'join': ("r = dataJoin(arrayNew(objectNew('a', 1)), arrayNew(objectNew('c', 1)), 'host(1)')\nx = null\n", ['host'], 'x'),
    'if-function': ('x = if(host(1), 1)\n', ['host'], 'x'),
    'short-circuit': ('x = host(1) && 1\ny = host(2) || 2\n', ['host'], 'x'),
    'include': ("include 'file'\n", ['host'], 'x'),
    'return': ("function f(a):\n    return host(a)\nendfunction\nx = f(1)\n", ['host'], 'x'),
    'shadow': ('mathAbs = host\nx = mathAbs(1)\n', ['mathAbs'], 'x'),
}


def gen_faults():
    for f in FAULTS:
        for path in FAULT_PATHS:
            for debug in (True, False):
                yield [f, path, debug]


def run_faults(case, ctx):
    f, path, debug = case
    text, logged, result = FAULT_PATHS[path]
    logs = []
    globals_ = {'host': fault(f), 'x': 'unset'}
    try:
        value = impl.execute_script(impl.parse_script(text + "systemLog('finished')\nreturn 'end'\n"), {
            'globals': globals_, 'logFn': logs.append, 'debug': debug, 'fetchFn': lambda request: 'x = host(1)\n'})
    except Exception as exc:  # pylint: disable=broad-exception-caught
        ctx.fail(f'fault:{path}', f'{case}: {type(exc).__name__}: {str(exc)[:300]!r} escaped\n{text}')
        return
    ctx.states += 1
    if value != 'end' or 'finished' not in logs:
        ctx.fail('continue', f'{case}: execution did not continue\n{text}')
    if result is not None and globals_[result] is not None:
        ctx.fail('failure-value', f'{case}: {result} is {brief(globals_[result])}, expected null\n{text}')
    reported = [m for m in logs if any(m.startswith(f'{FAILED}{name}" failed') for name in logged)]
    if debug and not reported:
        ctx.fail('log', f'{case}: the failure is not reported in debug mode: {logs}\n{text}')
    if not debug and any(m.startswith('BareScript:') for m in logs):
        ctx.fail('log', f'{case}: logged outside debug mode: {logs}\n{text}')
    # expression mode, and without options
    if path == 'direct':
        expr = impl.parse_expression('host(1)')
        for options, locals_ in (({'globals': {'host': fault(f)}}, None), (None, {'host': fault(f)}), ({}, {'host': fault(f)}), ({'globals': None, 'debug': True}, {'host': fault(f)}),
                                 ({'debug': True}, {'host': fault(f)})):
            try:
                if impl.evaluate_expression(expr, options, locals_) is not None:
                    ctx.fail('failure-value', f'{case}: expression with options {options}')
            except Exception as exc:  # pylint: disable=broad-exception-caught
                ctx.fail(f'fault:{path}', f'{case} expression with options {options}: {type(exc).__name__} escaped')
    ctx.outcome((case[1], logs))


# ---------------------------------------------------------------------------------------------------------------
# E. documented exceptions do escape; recursion
# ---------------------------------------------------------------------------------------------------------------

ESCAPES = [
    ('nofunction()\n', 'runtime-error', 'Undefined function "nofunction"'),
    ('jump nowhere\n', 'runtime-error', 'Unknown jump label "nowhere"'),
    ("include 'missing'\n", 'runtime-error', 'Include of "missing" failed'),
    ("include 'broken'\n", 'parser-error', None),
    ("while true:\n    x = 1\nendwhile\n", 'runtime-error', None),
]
WRAPS = [
    '{}', "function f():\n{}endfunction\nf()\n", "function f(a, b):\n{}endfunction\narraySort(arrayNew(2, 1), f)\n",
    "function f(a):\n{}endfunction\nr = dataFilter(arrayNew(objectNew('a', 1)), 'f(a)')\n", "function f():\n{}endfunction\ng = systemPartial(f, 1)\nx = arrayNew(g())\n",
    "function f(a):\n{}endfunction\nr = dataCalculatedField(arrayNew(objectNew('a', 1)), 'c', 'f(a + v)', objectNew('v', 1))\n",
    "function f(a):\n{}endfunction\nx = arrayIndexOf(arrayNew(1), f)\n", "function f(a):\n{}endfunction\nr = dataJoin(arrayNew(objectNew('a', 1)), arrayNew(objectNew('a', 1)), 'f(a)')\n",
    "function f():\n{}endfunction\nfunction g():\n    if f():\n        return 1\n    endif\nendfunction\nx = 1 + g()\n",
]


def gen_escapes():
    for e in range(len(ESCAPES)):
        for w in range(len(WRAPS)):
            for debug in (False, True):
                yield [e, w, debug]


def run_escapes(case, ctx):
    e, w, debug = case
    text, kind, message = ESCAPES[e]
    body = text if w == 0 else ''.join('    ' + line + '\n' for line in text.splitlines())
    script = WRAPS[w].format(body) + "systemLog('finished')\n"
    files = {'broken': 'if 1\n x = \n'}
    run = impl.run_script(impl.parse_script(script), {}, 500, fetchFn=lambda request: files[request['url']], debug=debug)
    ctx.states += 1
    ctx.outcome((case, run.kind, run.error))
    if run.kind != kind or (message is not None and run.error != message) or 'finished' in run.logs:
        ctx.fail('escape', f'{script}: {run.kind} {run.error}, expected {kind} {message}')


RECURSIONS = [
    'function f(n):\n    return f(n + 1)\nendfunction\nx = f(0)\n',
    'function f(n):\n    x = n + f(n + 1)\n    return x\nendfunction\nx = f(0)\n',
    'function f(n, m):\n    arraySort(arrayNew(2, 1), f)\nendfunction\nf()\n',
    "function f(n):\n    if f(n):\n        return 1\n    endif\nendfunction\nx = f(0)\n",
    'function f(n):\n    g = systemPartial(f, n)\n    return g()\nendfunction\nx = f(0)\n',
    "rows = arrayNew(objectNew('a', 1))\nfunction f(n):\n    dataFilter(rows, 'f(a)')\nendfunction\nf()\n",
    "rows = arrayNew(objectNew('a', 1))\nfunction f(n):\n    dataCalculatedField(rows, 'c', 'f(a + v)', objectNew('v', 1))\nendfunction\nf()\n",
    'function f(n):\n    x = arrayNew(arrayNew(arrayNew(!!!!(1 + (2 + (3 + f(n)))))))\nendfunction\nx = f(0)\n',
    "function f(n):\n    include 'again'\nendfunction\nf()\n",
    "function f(n):\n    return stringLength('' + n) + f(n + 1) * 2\nendfunction\nx = f(0)\nfunction g(n):\n    g(n)\nendfunction\ng(1)\n",
    'a = arrayNew()\narrayPush(a, a)\nx = a == a\ny = a + 1\nz = jsonStringify(a)\nsystemLog(a)\nw = arrayIndexOf(arrayNew(1, a), a)\narraySort(arrayNew(a, a))\nfunction f(n):\n    return f(a)\nendfunction\nf(1)\n',
]


def gen_recursions():
    for i in range(len(RECURSIONS)):
        for debug in (False, True):
            yield [i, debug]


def run_recursions(case, ctx):
    i, debug = case
    text = RECURSIONS[i] + "systemLog('finished')\n"
    logs = []
    try:
        impl.execute_script(impl.parse_script(text), {'globals': {}, 'logFn': logs.append, 'debug': debug, 'fetchFn': lambda request: 'f()\n', 'maxStatements': 200000})
    except (impl.BareScriptRuntimeError, impl.BareScriptParserError) as exc:
        logs.append(f'{type(exc).__name__}')
    except Exception as exc:  # pylint: disable=broad-exception-caught
        ctx.fail('recursion', f'{text}: {type(exc).__name__}: {str(exc)[:200]} escaped')
        return
    ctx.states += 1
    ctx.outcome((i, logs[-1:]))


# ---------------------------------------------------------------------------------------------------------------
# F. expression built-ins
# ---------------------------------------------------------------------------------------------------------------

def gen_builtins(names):
    def gen(w, n):
        idx = 0
        for alias in sorted(ALIASES):
            for k, values in ((0, palette.ALL), (1, palette.ALL), (2, names), (3, ['null', '0', '-1', "'a'", '[1]', 'inf'])):
                for combo in itertools.product(values, repeat=k):
                    if idx % n == w:
                        yield idx, [alias, list(combo)]
                    idx += 1
    return gen


def run_builtins(case, ctx):
    alias, names = case
    args = [palette.make(n) for n in names]
    expr = {'function': {'name': alias, 'args': [var(f'a{i}') for i in range(len(args))]}}
    bad = sig.invalid(ALIASES[alias], args)
    for options in (None, {}, {'debug': True, 'logFn': []}):
        logs = []
        if options and 'logFn' in options:
            options['logFn'] = logs.append
        try:
            value = impl.evaluate_expression(expr, options, {f'a{i}': v for i, v in enumerate(args)})
        except Exception as exc:  # pylint: disable=broad-exception-caught
            ctx.fail(f'builtin:{alias}', f'{case}: {type(exc).__name__}: {str(exc)[:200]} escaped')
            return
        ctx.states += 1
        if not valid_value(value):
            ctx.fail('value', f'{case}: {brief(value)} is not a BareScript value')
        if bad and not ref_same(value, sig.failure_value(ALIASES[alias], args)):
            ctx.fail('failure-value', f'{case}: an invalid call gives {brief(value)}')
        if bad and options and 'logFn' in options and not any(m.startswith(f'{FAILED}{alias}" failed') for m in logs):
            ctx.fail('log', f'{case}: an invalid call is not reported in debug mode: {logs}')
    ctx.outcome((alias, type(value).__name__, bad))


SMALL2 = [n for n in palette.ALL if n not in ('[deep]',)]


# ---------------------------------------------------------------------------------------------------------------
# F. what the host supplies: every subset of the documented options
# ---------------------------------------------------------------------------------------------------------------

# program -> the globals it leaves ('*' the program is an error without a fetch function)
HOST_PROGRAMS = {
    'fine': ("x = 1 + 1\n", {'x': 2}),
    'failing-call': ("x = arrayGet(null, 0)\ny = 1\n", {'x': None, 'y': 1}),
    'invalid-arguments': ("x = stringIndexOf('a')\nx2 = stringIndexOf(5, 'a')\ny = 1\n", {'x2': -1, 'y': 1}),
    'log': ("systemLog('a')\nsystemLogDebug('b')\nsystemLog()\nx = 1\n", {'x': 1}),
    'nested-failure': ("function f(a):\n    return arrayGet(a, 'x')\nendfunction\nx = f(arrayNew(1))\ny = arraySort(arrayNew(2, 1), f)\nz = 1\n", {'x': None, 'z': 1}),
    'data-failure': ("x = dataFilter(arrayNew(objectNew('a', 1)), 'arrayGet(a, 0)')\nx2 = dataFilter(1, 2)\nx3 = dataParseCSV(5)\n", {}),
    'data-syntax': ("x = dataFilter(arrayNew(objectNew('a', 1)), 'a b')\ny = 1\n", {'x': None, 'y': 1}),
    'data': ("x = dataFilter(arrayNew(objectNew('a', 1), objectNew('a', 2)), 'a > 1')\ny = 1\n", {'x': [{'a': 2}], 'y': 1}),
    'not-callable': ("x = 1\nx = x()\ny = 1\n", {'x': None, 'y': 1}),
    'fetch': ("x = systemFetch('u')\ny = 1\n", {'y': 1}),
    'fetch-array': ("x = systemFetch(arrayNew('u', objectNew('url', 'v'), 'gone'))\ny = 1\n", {'y': 1}),
    'fetch-body': ("x = systemFetch(objectNew('url', 'u', 'body', 'b', 'headers', objectNew('h', '1')))\ny = 1\n", {'y': 1}),
    'fetch-bad': ("x = systemFetch(null)\nx = systemFetch(objectNew('nourl', 1))\nx = systemFetch(arrayNew(1))\ny = 1\n", {'x': None, 'y': 1}),
    'partial': ("function f(a, b):\n    return a + b\nendfunction\ng = systemPartial(f, 1)\nx = g(2)\ny = systemPartial(5, 1)\n", {'x': 3, 'y': None}),
    'globals': ("systemGlobalSet('x', 1)\ny = systemGlobalGet('x')\nz = systemGlobalGet('nope', 4)\n", {'x': 1, 'y': 1, 'z': 4}),
    'include': ("include 'good.bare'\ny = 1\n", '*'),
    'include-warnings': ("include 'warn.bare'\ny = 1\n", '*'),
    'include-system': ("include <good.bare>\ny = 1\n", '*'),
    'include-nested': ("include 'dir/nested.bare'\ninclude <dir/nested.bare>\ny = 1\n", '*'),
    'include-failing': ("include 'failing.bare'\ny = 1\n", '*'),
    'include-broken': ("include 'broken.bare'\ny = 1\n", 'error'),
    'include-missing': ("include 'gone.bare'\ny = 1\n", 'error'),
    'undefined': ("noSuch()\n", 'error'),
    'label': ("jump nowhere\n", 'error'),
    'undefined-in-callback': ("function f(a):\n    return noSuch(a)\nendfunction\nx = arrayIndexOf(arrayNew(1), f)\n", 'error'),
}
HOST_FILES = {
    'good.bare': 'x = 7\n', 'warn.bare': 'function f(a):\n    b = 1\nendfunction\nlabel0:\nx = 7\n1 + 1\n', 'nested.bare': "include 'warn.bare'\ninclude <good.bare>\n",
    'failing.bare': "x = arrayGet(null, 0)\nx = 7\n", 'broken.bare': 'x = = 7\n',
}
HOST_OPTIONS = {
    'globals': ('absent', 'empty', 'shared'),
    'debug': ('absent', False, True, 1),
    'logFn': ('absent', 'list'),
    'fetchFn': ('absent', 'files', 'raises', 'null'),
    'systemPrefix': ('absent', '/sys/', 'https://x.example/sys/'),
    'urlFn': ('absent', 'prefix'),
    'maxStatements': ('absent', 0, 1e6),
}


def gen_hosts():
    for program in HOST_PROGRAMS:
        for combo in itertools.product(*HOST_OPTIONS.values()):
            yield [program, list(combo)]
        yield [program, None]


def run_hosts(case, ctx):
    program, combo = case
    text, effect = HOST_PROGRAMS[program]
    given = dict(zip(HOST_OPTIONS, combo)) if combo is not None else {}
    logs = []
    options = {name: value for name, value in given.items() if value != 'absent'}
    if 'globals' in options:
        options['globals'] = {} if options['globals'] == 'empty' else {'before': 'kept'}
    if 'logFn' in options:
        options['logFn'] = logs.append
    if 'urlFn' in options:
        options['urlFn'] = lambda url: f'base/{url}'
    fetch = options.get('fetchFn')

    def fetch_fn(request):
        if fetch == 'raises':
            raise OSError('host fetch failed')
        return None if fetch == 'null' else HOST_FILES.get(request['url'].split('/')[-1])

    if fetch is not None:
        options['fetchFn'] = fetch_fn
    model = impl.parse_script(text + "return 'end'\n")
    expect_error = effect == 'error' or effect == '*' and fetch != 'files'
    try:
        value = impl.execute_script(model, options) if combo is not None else impl.execute_script(model)
        error = None
    except (impl.BareScriptRuntimeError, impl.BareScriptParserError) as exc:
        value, error = None, exc
    except Exception as exc:  # pylint: disable=broad-exception-caught
        ctx.fail(f'host:{program}', f'{case}: {type(exc).__name__}: {str(exc)[:300]!r} escaped\n{text}')
        return
    ctx.states += 1
    ctx.outcome((program, type(error).__name__, len(logs)))
    if expect_error != (error is not None) or (error is None and value != 'end'):
        ctx.fail(f'host:{program}', f'{case}: value {brief(value)}, error {error!r}; expected {"an error" if expect_error else "end"}\n{text}')
        return
    if error is None and combo is not None and 'globals' in given:
        effects = {'x': 7, 'y': 1} if effect == '*' else effect
        globals_ = options.get('globals')
        if globals_ is not None:
            for name, want in effects.items():
                if name not in globals_ or globals_[name] != want:
                    ctx.fail(f'host:{program}', f'{case}: {name} is {brief(globals_.get(name))}, expected {brief(want)}\n{text}')
            if given['globals'] == 'shared' and globals_.get('before') != 'kept':
                ctx.fail(f'host:{program}', f'{case}: a supplied global changed\n{text}')
    reports = [m for m in logs if m.startswith('BareScript:')]
    if not given.get('debug') or given.get('debug') == 'absent':
        if reports:
            ctx.fail('log', f'{case}: logged outside debug mode: {reports[:2]}\n{text}')
    elif 'logFn' in options and program in ('failing-call', 'nested-failure', 'data-failure', 'not-callable', 'fetch-bad', 'include-failing') and error is None and not reports:
        ctx.fail('log', f'{case}: the failure is not reported in debug mode: {logs[:2]}\n{text}')


def spaces(tier):
    deep = tier == 'thorough'
    return [
        Space('escapes', gen_escapes, run_escapes, f'{len(ESCAPES)} documented errors raised through {len(WRAPS)} call paths: they are not swallowed'),
        Space('faults', gen_faults, run_faults, f'{len(FAULTS)} host faults x {len(FAULT_PATHS)} call paths x debug on/off'),
        Space('hosts', gen_hosts, run_hosts, f'{len(HOST_PROGRAMS)} programs x every combination of the host options (globals, debug, logFn, fetchFn, systemPrefix, urlFn, maxStatements)'),
        Space('operators', gen_operators, run_operators, f'16 operators x all pairs of {len(OPERANDS)} values x 4 evaluation contexts'),
        Space('chains', gen_chains(ARITH, CHAIN if deep else CHAIN[::1]), run_chains, f'two-operator expressions of 3 shapes over {len(ARITH)} operators x {len(CHAIN)}^3 operands',
              sharded=True),
        Space('calls', gen_calls(SMALL2, CORE3 if deep else CORE3[::3]), run_calls,
              f'every library function x every argument list of 0-2 of {len(palette.ALL)} values and of 3 of {len(CORE3) if deep else len(CORE3[::3])} values', sharded=True),
        Space('valid', gen_valid(False), run_valid, f'{len(VALID)} valid calls with every argument replaced by every value, truncated and extended', sharded=True),
        Space('builtins', gen_builtins(CORE3), run_builtins, '46 expression built-ins x argument lists of 0-3 values x 3 option forms', sharded=True),
        Space('templates', gen_templates(palette.ALL + (list(EXTRA) if deep else [])), run_templates, f'{len(TEMPLATES)} statement templates x all pairs of global values', sharded=True),
        Space('recursions', gen_recursions, run_recursions, f'{len(RECURSIONS)} unbounded recursions', cpu=60.0),
    ] + ([
        Space('valid2', gen_valid(True), run_valid, 'the valid calls with every two arguments replaced by every pair of values', sharded=True),
    ] if deep else [])
