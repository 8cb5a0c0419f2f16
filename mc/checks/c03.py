"""C03: expression evaluation follows the typed operator semantics."""

import copy
import itertools
import math
import re

from mc import impl, palette, ref
from mc.core import Space

PROPERTY = 'C03'
LEVEL = 'exploration'
RULE = ('every expression model of the listed finite spaces is evaluated by evaluate_expression and by execute_script and compared with the reference '
        'semantics, including the log of evaluated leaves; distinct = distinct (value, evaluation order) outcomes')
ASSUMPTIONS = [
    'the sign of a zero result and the text of non-finite numbers and of numbers of magnitude 1e15 and above are not compared here (see C13)',
    'a modulo by a negative divisor takes the sign of the divisor, as on the pinned tree'
]

OPS = ['+', '-', '*', '/', '%', '**', '==', '!=', '<', '<=', '>', '>=', '&&', '||']
ARITH = ('+', '-', '*', '/', '%', '**')


def equal(a, b):
    """Value equality, numbers by value (nan equal to nan, zeros equal)."""
    if ref.typ(a) == 'number' and ref.typ(b) == 'number':
        return (a != a and b != b) or a == b
    return ref.same(a, b)


# ---------------------------------------------------------------------------------------------------------------
# model builders and the reference evaluator
# ---------------------------------------------------------------------------------------------------------------
# tree: ['leaf', i] | ['b', op, l, r] | ['u', op, e] | ['g', e] | ['if', [args]] | ['call', [args]]

def model(tree):
    kind = tree[0]
    if kind == 'leaf':
        return {'function': {'name': 'leaf', 'args': [{'number': float(tree[1])}]}}
    if kind == 'b':
        return {'binary': {'op': tree[1], 'left': model(tree[2]), 'right': model(tree[3])}}
    if kind == 'u':
        return {'unary': {'op': tree[1], 'expr': model(tree[2])}}
    if kind == 'g':
        return {'group': model(tree[1])}
    name = 'if' if kind == 'if' else 'pair'
    out = {'function': {'name': name}}
    if tree[1]:
        out['function']['args'] = [model(t) for t in tree[1]]
    return out


def reference(tree, values, log):
    kind = tree[0]
    if kind == 'leaf':
        log.append(tree[1])
        return values[tree[1]]
    if kind == 'b':
        left = reference(tree[2], values, log)
        if tree[1] == '&&':
            return reference(tree[3], values, log) if ref.truthy(left) else left
        if tree[1] == '||':
            return left if ref.truthy(left) else reference(tree[3], values, log)
        right = reference(tree[3], values, log)
        return ref.binop(tree[1], left, right)
    if kind == 'u':
        return ref.unop(tree[1], reference(tree[2], values, log))
    if kind == 'g':
        return reference(tree[1], values, log)
    if kind == 'if':
        args = tree[1]
        value = reference(args[0], values, log) if args else False
        ix = 1 if ref.truthy(value) else 2
        return reference(args[ix], values, log) if ix < len(args) else None
    args = [reference(t, values, log) for t in tree[1]]
    log.append('call%d' % len(args))
    return args[0] if args else None


def host(values, log):
    def leaf(args, _options):
        log.append(int(args[0]))
        return values[int(args[0])]

    def pair(args, _options):
        log.append('call%d' % len(args))
        return args[0] if args else None

    return {'leaf': leaf, 'pair': pair}


def evaluate(expr, globals_, locals_, mode):
    if mode == 'script':
        return impl.execute_script({'statements': [{'return': {'expr': expr}}]}, {'globals': globals_})
    if mode == 'function':
        script = {'statements': [
            {'function': {'name': 'theFunction', 'statements': [{'return': {'expr': expr}}]}},
            {'return': {'expr': {'function': {'name': 'theFunction', 'args': []}}}}
        ]}
        return impl.execute_script(script, {'globals': globals_})
    return impl.evaluate_expression(expr, {'globals': globals_}, locals_)


# ---------------------------------------------------------------------------------------------------------------
# A. operator x operand matrix
# ---------------------------------------------------------------------------------------------------------------

MATRIX = [n for n in palette.ALL if n not in ('[deep]', '[circ]', '{circ}', 'i10^5000', 'i10^400', "'sur'", 'badrows', 'badagg', 'request', 'types', 'rows2',
                                              'sorts', 'cats', "'flags'", "'csv'", "'json'", "'badexpr'", "'expr'")]


def plain_text(v):
    """True if the text of a value is fully specified."""
    t = ref.typ(v)
    if t == 'number':
        return math.isfinite(v) and abs(v) < 1e15
    if t == 'datetime':
        return 1 < ref.naive(v).year < 9999
    if t == 'array':
        return all(plain_text(x) and ref.typ(x) not in ('function', 'regex') for x in v)
    if t == 'object':
        return all(plain_text(x) and ref.typ(x) not in ('function', 'regex') for x in v.values())
    return True


def matrix_cases():
    for op in OPS:
        for a in MATRIX:
            for b in MATRIX:
                yield [op, a, b]
    for op in ('!', '-'):
        for a in MATRIX:
            yield [op, a, None]


def run_matrix(case, ctx):
    op, an, bn = case
    results = []
    for mode in ('expression', 'locals', 'script'):
        a = palette.make(an)
        b = palette.make(bn) if bn is not None else None
        keep = ref.show([a, b])
        if bn is None:
            expr = {'unary': {'op': op, 'expr': {'variable': 'va'}}}
            expect = ref.unop(op, a)
        else:
            expr = {'binary': {'op': op, 'left': {'variable': 'va'}, 'right': {'variable': 'vb'}}}
            if op == '&&':
                expect = b if ref.truthy(a) else a
            elif op == '||':
                expect = a if ref.truthy(a) else b
            else:
                expect = ref.binop(op, a, b)
        names = {'va': a, 'vb': b}
        if mode == 'locals':
            got = evaluate(expr, {'va': 'wrong', 'vb': 'wrong'}, names, 'expression')
        else:
            got = evaluate(expr, names, None, mode)
        what = f'{an} {op} {bn} ({mode})' if bn is not None else f'{op} {an} ({mode})'
        if ref.show([a, b]) != keep:
            ctx.fail('operand', f'{what} changed an operand: {keep} -> {ref.show([a, b])}')
        ctx.states += 1
        results.append(ref.show(got))
        if op == '+' and bn is not None and (ref.typ(a) == 'string' or ref.typ(b) == 'string') and not (plain_text(a) and plain_text(b)):
            other = b if ref.typ(a) == 'string' else a
            text = a if ref.typ(a) == 'string' else b
            if isinstance(got, str):
                rest = got[len(text):] if ref.typ(a) == 'string' else got[:len(got) - len(text)]
                if ref.typ(other) == 'number' and math.isfinite(other) and float(rest) != float(other):
                    ctx.fail('value', f'{what}: {got!r}')
                if not (got.startswith(text) if ref.typ(a) == 'string' else got.endswith(text)):
                    ctx.fail('value', f'{what}: {got!r}')
            elif got is not None or (ref.typ(other) == 'number' and math.isfinite(other)):
                ctx.fail('value', f'{what}: {ref.show(got)}')
            continue
        if op in ('&&', '||'):
            if got is not (a if expect is a else b):
                ctx.fail('operand-identity', f'{what}: {ref.show(got)} is not the operand {ref.show(expect)}')
            continue
        if op in ARITH and isinstance(expect, float) and isinstance(got, float) and math.isnan(expect) and math.isnan(got):
            continue
        if op in ARITH and bn is not None and (an in ('nan', 'inf', '-inf') or bn in ('nan', 'inf', '-inf')) and got is None:
            continue  # a non-finite result may be null
        if isinstance(expect, float) and not math.isfinite(expect) and got is None:
            continue
        if op in ARITH and ref.typ(a) == 'number' and (bn is None or ref.typ(b) == 'number') and 'i2^53+1' in (an, bn) and isinstance(got, (int, float)):
            if abs(got - expect) <= 4 * abs(expect) * 2.3e-16 + (4 if op == '%' else 0):
                continue
        if op in ('==', '!=', '<', '<=', '>', '>=') and ('nan' in (an, bn)):
            if not isinstance(got, bool):
                ctx.fail('type', f'{what}: {ref.show(got)} is not a boolean')
            continue
        if not equal(got, expect):
            ctx.fail('value', f'{what}: {ref.show(got)}, expected {ref.show(expect)}')
    ctx.outcome(results)
    if len(set(results)) != 1:
        ctx.fail('mode', f'{case}: expression, locals and script modes give {results}')


# ---------------------------------------------------------------------------------------------------------------
# B. trees of operators over logging leaves
# ---------------------------------------------------------------------------------------------------------------

def nodes(ops, wide):
    """Node constructors: (arity, build)."""
    out = [(2, (lambda op: lambda c: ['b', op, c[0], c[1]])(op)) for op in ops if op in OPS]
    if '!' in ops:
        out.append((1, lambda c: ['u', '!', c[0]]))
    if 'neg' in ops:
        out.append((1, lambda c: ['u', '-', c[0]]))
    if 'group' in ops:
        out.append((1, lambda c: ['g', c[0]]))
    if 'if' in ops:
        for k in ((0, 1, 2, 3, 4) if wide else (3,)):
            out.append((k, lambda c: ['if', list(c)]))
    if 'call' in ops:
        for k in ((0, 1, 2, 3) if wide else (2,)):
            out.append((k, lambda c: ['call', list(c)]))
    return out


def trees(n, constructors):
    """All trees with exactly n operator nodes; leaves are unnumbered."""
    if n == 0:
        yield None
        return
    for arity, build in constructors:
        for parts in compositions(n - 1, arity):
            for children in itertools.product(*[list(trees(p, constructors)) for p in parts]):
                yield build(children)


def compositions(total, parts):
    if parts == 0:
        if total == 0:
            yield ()
        return
    for first in range(total + 1):
        for rest in compositions(total - first, parts - 1):
            yield (first, *rest)


def number(tree, counter):
    if tree is None:
        counter[0] += 1
        return ['leaf', counter[0] - 1]
    if tree[0] == 'b':
        return ['b', tree[1], number(tree[2], counter), number(tree[3], counter)]
    if tree[0] == 'u':
        return ['u', tree[1], number(tree[2], counter)]
    if tree[0] == 'g':
        return ['g', number(tree[1], counter)]
    return [tree[0], [number(t, counter) for t in tree[1]]]


def gen_trees(n_nodes, ops, names, wide=False):
    def gen(w, n):
        idx = 0
        for k in n_nodes:
            for raw in trees(k, nodes(ops, wide)):
                counter = [0]
                tree = number(raw, counter)
                if idx % n == w:
                    yield idx, [tree, counter[0], names]
                idx += 1
    return gen


def run_tree(case, ctx):
    tree, leaves, names = case
    expr = model(tree)
    frozen = copy.deepcopy(expr)
    for combo in itertools.product(names, repeat=leaves):
        values = [palette.make(nm) for nm in combo]
        want_log = []
        expect = reference(tree, values, want_log)
        for mode in ('expression', 'script', 'function'):
            if mode == 'function' and leaves > 3:
                continue
            log = []
            got = evaluate(expr, host(values, log), None, mode)
            ctx.states += 1
            if log != want_log:
                ctx.fail('order', f'{tree} with {combo} ({mode}): evaluated {log}, expected {want_log}')
            finite = not (isinstance(expect, float) and not math.isfinite(expect))
            if not equal(got, expect) and (finite or got is not None):
                ctx.fail('value', f'{tree} with {combo} ({mode}): {ref.show(got)}, expected {ref.show(expect)}')
        ctx.outcome((tree, ref.show(expect), want_log))
    if expr != frozen:
        ctx.fail('model', f'{tree}: evaluation changed the expression model')


# ---------------------------------------------------------------------------------------------------------------
# C. expression built-ins
# ---------------------------------------------------------------------------------------------------------------

ALIASES = {
    'abs': 'mathAbs', 'acos': 'mathAcos', 'asin': 'mathAsin', 'atan': 'mathAtan', 'atan2': 'mathAtan2', 'ceil': 'mathCeil',
    'charCodeAt': 'stringCharCodeAt', 'cos': 'mathCos', 'date': 'datetimeNew', 'day': 'datetimeDay', 'endsWith': 'stringEndsWith',
    'fixed': 'numberToFixed', 'floor': 'mathFloor', 'fromCharCode': 'stringFromCharCode', 'hour': 'datetimeHour', 'indexOf': 'stringIndexOf',
    'lastIndexOf': 'stringLastIndexOf', 'len': 'stringLength', 'ln': 'mathLn', 'log': 'mathLog', 'lower': 'stringLower', 'max': 'mathMax',
    'millisecond': 'datetimeMillisecond', 'min': 'mathMin', 'minute': 'datetimeMinute', 'month': 'datetimeMonth', 'now': 'datetimeNow',
    'parseFloat': 'numberParseFloat', 'parseInt': 'numberParseInt', 'pi': 'mathPi', 'rand': 'mathRandom', 'replace': 'stringReplace',
    'rept': 'stringRepeat', 'round': 'mathRound', 'second': 'datetimeSecond', 'sign': 'mathSign', 'sin': 'mathSin', 'slice': 'stringSlice',
    'sqrt': 'mathSqrt', 'startsWith': 'stringStartsWith', 'tan': 'mathTan', 'text': 'stringNew', 'today': 'datetimeToday', 'trim': 'stringTrim',
    'upper': 'stringUpper', 'year': 'datetimeYear'
}
ALIAS_ARGS = ['null', 'true', '0', 'i1', '2', '-2.5', '10', "''", "'a'", "'ab'", "'1.0'", 'dt', 'dt2', '[1]', '{a:1}', 'rx', 'inf']
ALIAS_SMALL = ['null', '0', 'i1', '2', '-1', "'a'", "'ab'", 'dt', '10']
# values that distinguish every pair of functions of the alias table
DISTINGUISH = {
    'one': ["' aB '", "'0'", '0.5', '-2.5', 'dt', 'dtms', '65', "'12.5'"],
}
EXTRA = {
    "' aB '": ' aB ', '65': 65.0, "'12.5'": '12.5', 'dtms': None
}


def value(name):
    import datetime  # pylint: disable=import-outside-toplevel
    if name == 'dtms':
        return datetime.datetime(2021, 7, 8, 9, 11, 13, 17000)
    if name in EXTRA:
        return EXTRA[name]
    return palette.make(name)


def gen_aliases(deep):
    for alias in sorted(ALIASES):
        one = ALIAS_ARGS + [n for n in DISTINGUISH['one'] if n not in ALIAS_ARGS]
        yield [alias, []]
        for a in one:
            yield [alias, [a]]
        for a in one:
            for b in one:
                yield [alias, [a, b]]
        for combo in itertools.product(ALIAS_SMALL if not deep else ALIAS_ARGS, repeat=3):
            yield [alias, list(combo)]
        if deep:
            for combo in itertools.product(ALIAS_SMALL, repeat=4):
                yield [alias, list(combo)]


def run_alias(case, ctx):
    import datetime  # pylint: disable=import-outside-toplevel
    alias, names = case
    args1 = [value(nm) for nm in names]
    args2 = copy.deepcopy(args1)
    call = {'function': {'name': alias, 'args': [{'variable': f'a{i}'} for i in range(len(names))]}}
    real = {'function': {'name': ALIASES[alias], 'args': [{'variable': f'a{i}'} for i in range(len(names))]}}
    logs1, logs2 = [], []
    got = impl.evaluate_expression(call, {'globals': {f'a{i}': v for i, v in enumerate(args1)}, 'logFn': logs1.append, 'debug': True})
    expect = impl.execute_script({'statements': [{'return': {'expr': real}}]},
                                 {'globals': {f'a{i}': v for i, v in enumerate(args2)}, 'logFn': logs2.append, 'debug': True})
    if alias == 'rand':
        ok = isinstance(got, float) and isinstance(expect, float) and 0 <= got <= 1
    elif alias in ('now', 'today'):
        ok = isinstance(got, datetime.datetime) and isinstance(expect, datetime.datetime) and abs((got - expect).total_seconds()) < 60 + 86400 * (
            alias == 'today')
        ok = ok and (alias == 'now' or got.time() == datetime.time())
    else:
        ok = ref.same(got, expect)
        if [m.replace(f'"{alias}"', f'"{ALIASES[alias]}"') for m in logs1] != logs2:
            ctx.fail('alias-log', f'{alias}{names}: logged {logs1}, {ALIASES[alias]} logs {logs2}')
    if not ok:
        ctx.fail('alias', f'{alias}{names}: {ref.show(got)}, {ALIASES[alias]} gives {ref.show(expect)}')
    if ref.show(args1) != ref.show(args2):
        ctx.fail('alias-args', f'{alias}{names}: arguments after the call {ref.show(args1)}, {ALIASES[alias]} leaves {ref.show(args2)}')
    ctx.outcome((alias, ref.show(got) if alias not in ('rand', 'now', 'today') else ''))


def gen_meaning():
    """Every alias pinned to its documented meaning by a table of values written by hand."""
    yield from range(len(MEANING))


MEANING = [
    ('abs(-2.5)', 2.5), ('acos(1)', 0.0), ('asin(1)', math.asin(1)), ('atan(1)', math.atan(1)), ('atan2(1, -1)', math.atan2(1, -1)), ('ceil(1.2)', 2),
    ('ceil(-1.2)', -1), ("charCodeAt('aB', 1)", 66), ('cos(1)', math.cos(1)), ('year(date(2024, 14, 31))', 2025), ('month(date(2024, 14, 31))', 3),
    ('day(date(2024, 14, 31))', 3), ("endsWith('abc', 'bc')", True), ("endsWith('abc', 'b')", False), ('fixed(1.256, 2)', '1.26'), ('fixed(1, 2)', '1.00'),
    ('floor(1.8)', 1), ('floor(-1.2)', -2), ('fromCharCode(72, 105)', 'Hi'), ('hour(date(2024, 1, 1, 7, 8, 9, 10))', 7),
    ("indexOf('abcabc', 'c')", 2), ("indexOf('abcabc', 'c', 3)", 5), ("lastIndexOf('abcabc', 'c')", 5), ("lastIndexOf('abcabc', 'c', 4)", 2),
    ("len('abc')", 3), ('ln(10)', math.log(10)), ('log(100)', 2), ('log(8, 2)', 3), ("lower('aBC')", 'abc'), ('max(1, 3, 2)', 3), ('min(3, 1, 2)', 1),
    ('millisecond(date(2024, 1, 1, 7, 8, 9, 10))', 10), ('minute(date(2024, 1, 1, 7, 8, 9, 10))', 8), ("parseFloat('1.5')", 1.5), ("parseInt('12')", 12),
    ("parseInt('ff', 16)", 255), ('pi()', math.pi), ("replace('aXbX', 'X', '-')", 'a-b-'), ("rept('ab', 3)", 'ababab'), ('round(1.25, 1)', 1.3), ('round(2.5)', 3),
    ('round(-2.5)', -3), ('second(date(2024, 1, 1, 7, 8, 9, 10))', 9), ('sign(-5)', -1), ('sign(0)', 0), ('sign(2)', 1), ('sin(1)', math.sin(1)),
    ("slice('abcdef', 2)", 'cdef'), ("slice('abcdef', 2, 4)", 'cd'), ('sqrt(9)', 3), ("startsWith('abc', 'ab')", True), ("startsWith('abc', 'b')", False),
    ('tan(1)', math.tan(1)), ('text(1)', '1'), ('text(null)', 'null'), ('text(true)', 'true'), ("trim('  a b ')", 'a b'), ("upper('aBc')", 'ABC'),
    ('null', None), ('true', True), ('false', False), ('nothing', None), ('if(1, 2, 3)', 2), ('if(0, 2, 3)', 3), ('if(0, 2)', None), ('if(1)', None), ('if()', None),
    ('1 + 2', 3), ("1 + '2'", '12'), ("'1' + 2", '12'), ("'a' + null", 'anull'), ("'a' + true", 'atrue'), ('7 % 3', 1), ('2 ** 10', 1024), ('1 / 0', None),
    ('1 % 0', None), ('0 ** -1', None), ('(-8) ** 0.5', None), ('10 ** 1000', None), ('null + 1', None), ('true + 1', None), ('1 - "1"', None), ('-"1"', None),
    ('!null', True), ('!!"0"', True), ('5 - 3', 2), ('5 * 3', 15), ('5 / 2', 2.5)
]


def run_meaning(case, ctx):
    text, expect = MEANING[case]
    got = impl.evaluate_expression(impl.parse_expression(text), {'globals': {}})
    ctx.outcome((text, ref.show(got)))
    ok = equal(got, expect) or (isinstance(expect, float) and isinstance(got, (int, float)) and abs(got - expect) < 1e-12) or \
        (isinstance(expect, int) and not isinstance(expect, bool) and isinstance(got, float) and abs(got - expect) < 1e-12)
    if not ok:
        ctx.fail('meaning', f'{text}: {ref.show(got)}, expected {ref.show(expect)}')


# ---------------------------------------------------------------------------------------------------------------
# D. datetime arithmetic, integers, text of values
# ---------------------------------------------------------------------------------------------------------------

NUMBERS = [0.0, 1.0, -1.0, 2.0, 3.0, -3.0, 0.5, -2.5, 7.25, 10.0, 1e6, 999999999999999.0, 1e-7, 1e15, 1e21, 1e300, -1e300, 1.7976931348623157e308, 5e-324, 0.1, 1 / 3]


def gen_numbers():
    for op in ARITH + ('==', '<', '>=', '!='):
        for a in range(len(NUMBERS)):
            for b in range(len(NUMBERS)):
                yield [op, a, b]


def run_numbers(case, ctx):
    op, ai, bi = case
    for ca in (False, True):
        for cb in (False, True):
            a, b = NUMBERS[ai], NUMBERS[bi]
            if ca:
                if a != int(a) or abs(a) >= 1e15:
                    continue
                a = int(a)
            if cb:
                if b != int(b) or abs(b) >= 1e15:
                    continue
                b = int(b)
            expect = ref.binop(op, a, b)
            expr = {'binary': {'op': op, 'left': {'number': a}, 'right': {'number': b}}}
            got = impl.evaluate_expression(expr, None)
            ctx.states += 1
            ctx.outcome((op, ai, bi, ref.show(got)))
            if not equal(got, expect) and not (isinstance(expect, float) and not math.isfinite(expect) and got is None):
                ctx.fail('number', f'{a!r} {op} {b!r}: {ref.show(got)}, expected {ref.show(expect)}')


MILLIS = [0.0, 1.0, -1.0, 999.0, 1000.0, 60000.0, 3600000.0, 86400000.0, -86400000.0, 31536000000.0, 1e12, -1e12, 1e15, 1e20, 123456789.0]
DATES = ['dt', 'dt2', 'date', 'dtz', 'dt+5', 'dtmin', 'dtmax', 'dtms']


def gen_datetimes():
    for d in DATES:
        for m in range(len(MILLIS)):
            yield ['+', d, m]
        for e in DATES:
            yield ['-', d, e]


def run_datetimes(case, ctx):
    op, d, other = case
    dv = value(d)
    if op == '-':
        ev = value(other)
        expr = {'binary': {'op': '-', 'left': {'variable': 'd'}, 'right': {'variable': 'e'}}}
        got = impl.evaluate_expression(expr, {'globals': {'d': dv, 'e': ev}})
        expect = ref.binop('-', dv, ev)
        if not equal(got, expect):
            ctx.fail('datetime', f'{d} - {other}: {ref.show(got)}, expected {ref.show(expect)}')
        ctx.outcome(ref.show(got))
        return
    m = MILLIS[other]
    for number_ in (m, int(m)):
        for flip in (False, True):
            l, r = ({'variable': 'd'}, {'variable': 'm'})
            expr = {'binary': {'op': '+', 'left': r if flip else l, 'right': l if flip else r}}
            got = impl.evaluate_expression(expr, {'globals': {'d': dv, 'm': number_}})
            expect = ref.dt_add(dv, number_)
            ctx.states += 1
            if not equal(got, expect):
                ctx.fail('datetime', f'{d} + {m}: {ref.show(got)}, expected {ref.show(expect)}')
    ctx.outcome(ref.show(got))


TEXTS = [n for n in MATRIX if plain_text(palette.make(n))]


def gen_texts():
    for n in TEXTS:
        yield n


def run_texts(case, ctx):
    """Every way of making text out of a value agrees with the reference text."""
    v = palette.make(case)
    expect = ref.text(v)
    globals_ = {'v': v}
    var = {'variable': 'v'}
    ways = {
        "'' + v": {'binary': {'op': '+', 'left': {'string': ''}, 'right': var}},
        "v + ''": {'binary': {'op': '+', 'left': var, 'right': {'string': ''}}},
        'stringNew(v)': {'function': {'name': 'stringNew', 'args': [var]}},
        "arrayJoin(arrayNew(v), '')": {'function': {'name': 'arrayJoin', 'args': [{'function': {'name': 'arrayNew', 'args': [var]}}, {'string': ''}]}},
    }
    for name, expr in ways.items():
        got = evaluate(expr, dict(globals_), None, 'script')
        ctx.states += 1
        if got != expect:
            ctx.fail('text', f'{name} for {case}: {got!r}, expected {expect!r}')
    logs = []
    impl.execute_script({'statements': [{'expr': {'expr': {'function': {'name': 'systemLog', 'args': [var]}}}}]}, {'globals': dict(globals_), 'logFn': logs.append})
    if logs != [expect]:
        ctx.fail('text', f'systemLog of {case}: {logs!r}, expected {expect!r}')
    ctx.outcome(expect)


# who is called: arguments are evaluated once, left to right, whatever the callee is and wherever its binding is
CALLEE_KINDS = ['fn', 'script', 'script-last', 'partial', 'partial-lib', 'callable', 'library', 'null', 'number', 'array']
CALLEE_NAMES = ['foo', 'max', 'stringLength', 'len', 'text', 'p']
CALLEE_MODES = ['script', 'function', 'expression', 'expression-nobuiltins', 'row']


def gen_callees():
    for name in CALLEE_NAMES:
        for kind in CALLEE_KINDS:
            for scope in ('global', 'local', 'both'):
                for nargs in range(0, 4):
                    for mode in CALLEE_MODES:
                        for fail in range(-1, nargs):
                            yield [name, kind, scope, nargs, mode, fail]


def run_callees(case, ctx):
    from mc.checks import c04  # pylint: disable=import-outside-toplevel
    name, kind, scope, nargs, mode, fail = case
    log = []

    def leaf(args, _options):
        log.append(args[0])
        return None if args[0] == fail else f'v{int(args[0])}'

    expr = {'function': {'name': name, 'args': [{'function': {'name': 'leaf', 'args': [{'number': float(i)}]}} for i in range(nargs)]}}
    globals_ = {'leaf': leaf}
    near = c04.bound(kind, 'near')
    if scope in ('global', 'both'):
        globals_[name] = near if scope == 'global' else c04.bound('fn', 'far')
    locals_ = None if scope == 'global' else {name: near}
    if mode in ('script', 'function') and scope != 'global' or mode == 'function':
        globals_['theValue'] = near
        fn = {'function': {'name': 'outer', 'args': [name if scope != 'global' else 'other'], 'statements': [{'return': {'expr': expr}}]}}
        call = {'function': {'name': 'outer', 'args': [{'variable': 'theValue'}]}}
        run = impl.run_script({'statements': [fn, {'return': {'expr': call}}]}, globals_)
        got, error = run.value, run.error
    elif mode == 'script':
        run = impl.run_script({'statements': [{'return': {'expr': expr}}]}, globals_)
        got, error = run.value, run.error
    else:
        options = {'globals': globals_}
        if mode == 'row':
            if kind not in ('fn', 'callable', 'script', 'script-last', 'partial', 'partial-lib', 'library'):
                return
            row = {'z': 1.0, **(locals_ or {})}
            globals_['row'] = row
            text = f"{name}({', '.join(f'leaf({i})' for i in range(nargs))})"
            arr = {'function': {'name': 'arrayNew', 'args': [{'variable': 'row'}]}}
            call = {'function': {'name': 'dataCalculatedField', 'args': [arr, {'string': 'out'}, {'string': text}]}}
            run = impl.run_script({'statements': [{'expr': {'expr': call}}]}, globals_)
            got, error = row.get('out'), run.error
        else:
            impl.execute_script({'statements': []}, options)
            try:
                got, error = impl.evaluate_expression(expr, options, locals_, mode == 'expression'), None
            except impl.BareScriptRuntimeError as exc:
                got, error = None, str(exc)
    ctx.states += 1
    ctx.traces += 1
    ctx.transitions += len(log)
    ctx.outcome((case, ref.show(got), error, log))
    order = [float(i) for i in range(nargs)]
    if log != order and not (error is not None and log == []):
        ctx.fail('order', f'{case}: arguments evaluated {log}, expected {order}; {error}')
    vals = [None if i == fail else f'v{i}' for i in range(nargs)]
    given = [v is not None for v in vals] + [False] * 3
    if kind in ('fn', 'callable', 'script-last', 'partial-lib'):
        want = f'near:{nargs}'
    elif kind in ('script', 'partial'):
        want = f'near:{2 if given[0] and given[1] else (1 if given[0] else 0)}'
    elif kind == 'library':
        want = vals
    else:
        want = None
    if error is not None and not (kind == 'null' and error == f'Undefined function "{name}"') or not (equal(got, want) if error is None else True):
        ctx.fail('callee', f'{case}: {ref.show(got)} {error}, expected {ref.show(want)}')


def spaces(tier):
    deep = tier == 'thorough'
    all_ops = OPS + ['!', 'neg', 'group', 'if', 'call']
    return [
        Space('meaning', gen_meaning, run_meaning, f'{len(MEANING)} hand-computed expressions'),
        Space('matrix', matrix_cases, run_matrix, f'14 binary and 2 unary operators x all pairs of {len(MATRIX)} values x 3 evaluation modes'),
        Space('numbers', gen_numbers, run_numbers, f'10 operators x all pairs of {len(NUMBERS)} numbers x int/float spellings'),
        Space('datetimes', gen_datetimes, run_datetimes, 'datetime +/- over dates, aware and naive datetimes and offsets'),
        Space('texts', gen_texts, run_texts, f'the text of {len(TEXTS)} values by 5 routes'),
        Space('callees', gen_callees, run_callees, f'{len(CALLEE_KINDS)} kinds of callee x {len(CALLEE_NAMES)} names x global/local/both x 0-3 arguments x '
              f'{len(CALLEE_MODES)} modes x which argument is null'),
        Space('trees1', gen_trees((0, 1), all_ops, ['null', 'true', 'false', '0', '2', "''", "'a'", 'dt', '[]', '[1]', '{}', 'rx'], wide=True), run_tree,
              'every one-node tree over all operators, if() with 0-4 and calls with 0-3 arguments x 12 values per leaf', sharded=True),
        Space('trees2', gen_trees((2,), all_ops, ['null', '2', "'a'", 'true', 'dt'] if not deep else ['null', '0', '2', "'a'", 'true', 'dt', '[1]']), run_tree,
              'every two-node tree over all operators x 5 (7) values per leaf, with the evaluation order', sharded=True, cpu=120.0),
        Space('trees3', gen_trees((3,), all_ops, ['0', "'a'"] if not deep else ['0', "'a'", 'null']), run_tree,
              'every three-node tree over all operators x 2 (3) values per leaf', sharded=True, cpu=120.0),
        Space('trees4', gen_trees((4,), ['+', '&&', '||', '!', 'if'], ['0', "'a'"]), run_tree, 'every four-node tree over +, &&, ||, ! and if x 2 values per leaf',
              sharded=True, cpu=240.0),
    ] + ([
        Space('trees4x', gen_trees((4,), ['+', '-', '==', '&&', '||', 'group', 'call'], ['0', "'a'"]), run_tree,
              'every four-node tree over +, -, ==, &&, ||, group and call x 2 values per leaf', sharded=True, cpu=240.0),
        Space('trees5', gen_trees((5,), ['+', '&&', 'if'], ['0', "'a'"]), run_tree, 'every five-node tree over +, && and if x 2 values per leaf',
              sharded=True, cpu=240.0),
        Space('trees6', gen_trees((6,), ['&&', '||', '!'], ['0', "'a'"]), run_tree, 'every six-node tree over &&, || and ! x 2 values per leaf',
              sharded=True, cpu=240.0),
    ] if deep else []) + [
        Space('aliases', lambda: gen_aliases(deep), run_alias, 'the 46 expression built-ins x argument lists of 0-3 (4) values against the library function'),
    ]
