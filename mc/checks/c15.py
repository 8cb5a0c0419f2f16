"""C15: array, object and string functions obey their sequence, map and string contracts."""

import datetime
import functools
import itertools
import re

from mc import impl, palette, ref, sig
from mc.core import Space

PROPERTY = 'C15'
LEVEL = 'model_checking'
RULE = ('explicit-state search over heaps of aliased containers (every operation from every reachable heap within the depth, deduplicated by heap isomorphism) and exhaustive argument '
        'products per function, each step on the real runtime and on a reference list/dict/str model; result, aliasing and every container are compared; distinct = distinct heaps or call outcomes')
ASSUMPTIONS = [
    'arrayDelete and objectDelete return null; a start index at or after the end of a string or array is a failure (-1), as the test suite pins',
    'searching for the empty string may count the position at the end of the string or not',
    'heaps that became cyclic are compared but not explored further'
]


class Fail(Exception):
    pass


# ---------------------------------------------------------------------------------------------------------------
# reference functions (arguments already satisfy the documented signature)
# ---------------------------------------------------------------------------------------------------------------

def _index(n, length):
    if n >= length:
        raise Fail()
    return int(n)


def r_index_of(call, a, v=None, start=0):
    i = _index(start, len(a))
    for ix in range(i, len(a)):
        if (ref.truthy(call(v, [a[ix]])) if callable(v) or isinstance(v, Fn) else ref.compare(a[ix], v) == 0):
            return ix
    return -1


def r_last_index_of(call, a, v=None, start=None):
    i = _index(len(a) - 1 if start is None else start, len(a))
    for ix in range(i, -1, -1):
        if (ref.truthy(call(v, [a[ix]])) if callable(v) or isinstance(v, Fn) else ref.compare(a[ix], v) == 0):
            return ix
    return -1


def r_slice(call, a, start=0, end=None):
    n = len(a)
    e = n if end is None else end
    if start > n or e > n:
        raise Fail()
    return a[int(start):int(e)] if e > start else a[:0]


def r_delete(call, a, i):
    del a[_index(i, len(a))]


def r_set(call, a, i, v=None):
    a[_index(i, len(a))] = v
    return v


def r_pop(call, a):
    if not a:
        raise Fail()
    return a.pop(-1)


def r_shift(call, a):
    if not a:
        raise Fail()
    return a.pop(0)


def r_extend(call, a, b):
    a += list(b)
    return a


def r_push(call, a, *values):
    a += list(values)
    return a


def r_sort(call, a, fn=None):
    cmp = ref.compare if fn is None else lambda x, y: call(fn, [x, y])
    a[:] = sorted(a, key=functools.cmp_to_key(cmp))
    return a


def r_assign(call, o, p):
    for k, v in list(p.items()):
        o[k] = v
    return o


def r_object_new(call, *args):
    out = {}
    for i in range(0, len(args), 2):
        if ref.typ(args[i]) != 'string':
            raise Fail()
        out[args[i]] = args[i + 1] if i + 1 < len(args) else None
    return out


def r_object_set(call, o, k, v=None):
    o[k] = v
    return v


def r_object_delete(call, o, k):
    o.pop(k, None)


def r_char_code(call, s, i):
    return ord(s[_index(i, len(s))])


def r_from_char_code(call, *codes):
    out = ''
    for c in codes:
        if ref.typ(c) != 'number' or c != c or abs(c) == float('inf') or c != int(c) or c < 0 or c > 0x10ffff:
            raise Fail()
        out += chr(int(c))
    return out


def r_string_index(call, s, t, start=0):
    i = _index(start, len(s))
    while i + len(t) <= len(s):
        if s[i:i + len(t)] == t:
            return i
        i += 1
    return -1


def r_string_last_index(call, s, t, start=None):
    if start is not None:
        _index(start, len(s))
    i = len(s) if start is None else int(start)
    while i >= 0:
        if s[i:i + len(t)] == t and i + len(t) <= len(s):
            return i
        i -= 1
    return -1


def r_replace(call, s, t, u):
    if t == '':
        return u + ''.join(c + u for c in s)
    out, i = '', 0
    while i < len(s):
        if s[i:i + len(t)] == t:
            out += u
            i += len(t)
        else:
            out += s[i]
            i += 1
    return out


def r_split(call, s, t):
    if t == '':
        raise Fail()
    out, last, i = [], 0, 0
    while i + len(t) <= len(s):
        if s[i:i + len(t)] == t:
            out.append(s[last:i])
            i += len(t)
            last = i
        else:
            i += 1
    out.append(s[last:])
    return out


MODEL = {
    'arrayCopy': lambda call, a: a[:],
    'arrayDelete': r_delete,
    'arrayExtend': r_extend,
    'arrayGet': lambda call, a, i: a[_index(i, len(a))],
    'arrayIndexOf': r_index_of,
    'arrayJoin': lambda call, a, s: s.join(ref.text(v) for v in a),
    'arrayLastIndexOf': r_last_index_of,
    'arrayLength': lambda call, a: len(a),
    'arrayNew': lambda call, *args: list(args),
    'arrayNewSize': lambda call, n=0, v=0: [v] * int(n),
    'arrayPop': r_pop,
    'arrayPush': r_push,
    'arraySet': r_set,
    'arrayShift': r_shift,
    'arraySlice': r_slice,
    'arraySort': r_sort,
    'objectAssign': r_assign,
    'objectCopy': lambda call, o: dict(o),
    'objectDelete': r_object_delete,
    'objectGet': lambda call, o, k, d=None: o[k] if k in o else d,
    'objectHas': lambda call, o, k: k in o,
    'objectKeys': lambda call, o: list(o),
    'objectNew': r_object_new,
    'objectSet': r_object_set,
    'stringCharCodeAt': r_char_code,
    'stringEndsWith': lambda call, s, t: len(t) <= len(s) and s[len(s) - len(t):] == t,
    'stringFromCharCode': r_from_char_code,
    'stringIndexOf': r_string_index,
    'stringLastIndexOf': r_string_last_index,
    'stringLength': lambda call, s: len(s),
    'stringLower': lambda call, s: s.lower(),
    'stringNew': lambda call, v=None: ref.text(v),
    'stringRepeat': lambda call, s, n: ''.join(s for _ in range(int(n))),
    'stringReplace': r_replace,
    'stringSlice': r_slice,
    'stringSplit': r_split,
    'stringStartsWith': lambda call, s, t: s[:len(t)] == t,
    'stringTrim': lambda call, s: s.strip(),
    'stringUpper': lambda call, s: s.upper(),
}


def is_bad(name, args):
    if name in ('arrayNew', 'objectNew', 'stringFromCharCode'):
        return False
    return sig.invalid(name, args)


def expected(name, args, call=None):
    """The model result of a call (mutates args); a failed call has the documented failure value."""
    if is_bad(name, args):
        return sig.failure_value(name, args)
    try:
        return MODEL[name](call, *args)
    except Fail:
        return sig.failure_value(name, args)


# ---------------------------------------------------------------------------------------------------------------
# heaps
# ---------------------------------------------------------------------------------------------------------------

class Fn:
    """A function value of the reference side."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


def canon(values):
    """A canonical text of a list of values including all aliasing; True as second result if a cycle exists."""
    ids = {}
    active = set()
    cyclic = [False]

    def walk(v):
        t = type(v)
        if t is list or t is dict:
            if id(v) in ids:
                if id(v) in active:
                    cyclic[0] = True
                return f'#{ids[id(v)]}'
            n = ids[id(v)] = len(ids)
            active.add(id(v))
            if t is list:
                out = f'{n}[' + ','.join([walk(x) for x in v]) + ']'
            else:
                out = f'{n}{{' + ','.join([f'{k!r}:{walk(x)}' for k, x in v.items()]) + '}'
            active.discard(id(v))
            return out
        if t is float or t is int:
            return f'n{v + 0.0!r}' if abs(v) < 2 ** 53 else f'n{v!r}'
        if t is Fn or callable(v):
            return '<fn>'
        if t is ref.PATTERN:
            return f'<rx {v.pattern!r}>'
        return repr(v)
    return '|'.join([walk(v) for v in values]), cyclic[0]


def clone(values):
    memo = {}

    def copy(v):
        t = type(v)
        if t is list:
            if id(v) not in memo:
                memo[id(v)] = out = []
                out.extend([copy(x) for x in v])
            return memo[id(v)]
        if t is dict:
            if id(v) not in memo:
                memo[id(v)] = out = {}
                for k, x in v.items():
                    out[k] = copy(x)
            return memo[id(v)]
        return v
    return [copy(v) for v in values]


# ---------------------------------------------------------------------------------------------------------------
# histories over a pool of variables
# ---------------------------------------------------------------------------------------------------------------

VARS = ['a', 'b', 'o', 'p', 's', 'r']


def op(target, name, *args):
    return (target, name, args)


V = ('var',)


def var(name):
    return ('var', name)


a, b, o, p, s, r = (var(n) for n in VARS)

OPS = [
    (a, None, b), (b, None, a), (p, None, o), (a, None, r), (o, None, r),
    op('a', 'arrayNew'), op('a', 'arrayNew', 1.0, s), op('b', 'arrayCopy', a), op('r', 'arrayPush', a, 2.0), op('r', 'arrayPush', b, o), op(None, 'arrayPush', a, b), op('r', 'arrayPush', b, s, None),
    op('r', 'arrayPush', a), op('r', 'arrayPop', a), op('r', 'arrayPop', b), op('r', 'arrayShift', a), op('r', 'arrayShift', b), op('r', 'arraySet', a, 0.0, b), op('r', 'arraySet', b, 1.0, 'x'),
    op('r', 'arraySet', a, 1.0, o), op('r', 'arraySet', a, 2.0, 9.0), op('r', 'arrayDelete', a, 0.0), op('r', 'arrayDelete', b, 1.0), op('r', 'arrayGet', a, 0.0), op('b', 'arrayGet', a, 1.0),
    op('r', 'arrayExtend', a, b), op('r', 'arrayExtend', a, a), op('b', 'arraySlice', a, 1.0), op('r', 'arraySlice', b, 0.0, 1.0), op('r', 'arraySlice', a), op('r', 'arraySort', a), op('r', 'arrayIndexOf', a, b),
    op('r', 'arrayLastIndexOf', a, 2.0), op('r', 'arrayLength', b), op('s', 'arrayJoin', a, 'k'), op('b', 'arrayNewSize', 2.0, o),
    op('o', 'objectNew', 'k', a), op('p', 'objectCopy', o), op('r', 'objectSet', o, 'k', 1.0), op('r', 'objectSet', p, s, a), op('r', 'objectSet', o, 'z', p), op('r', 'objectGet', o, 'k'),
    op('a', 'objectGet', o, 'k'), op('r', 'objectGet', p, 'z', b), op('r', 'objectDelete', o, 'k'), op('r', 'objectDelete', p, s), op('r', 'objectHas', o, s), op('b', 'objectKeys', o),
    op('r', 'objectAssign', o, p), op('r', 'objectAssign', p, p), op('r', 'objectAssign', p, o),
    op('s', 'stringRepeat', s, 2.0), op('s', 'stringSlice', s, 1.0), op('s', 'stringUpper', s), op('s', 'stringReplace', s, 'k', 'z'), op('a', 'stringSplit', s, 'k'), op('s', 'stringNew', o), op('r', 'stringIndexOf', s, 'k'),
    # failing calls
    op('r', 'arrayPush', o, 1.0), op('r', 'objectSet', a, 'k', 1.0), op('r', 'arraySet', a, -1.0, 1.0), op('r', 'arraySet', b, 0.5, 1.0), op('r', 'arrayPop', s), op('r', 'objectSet', o, 1.0, b), op('r', 'arrayDelete', a, 9.0),
    op('r', 'arrayExtend', a, o), op('r', 'objectAssign', o, a), op('r', 'arrayPop', a, b), op('r', 'objectDelete', o), op('r', 'arraySlice', a, 0.0, 9.0), op('r', 'arraySort', a, b), op('r', 'objectNew', 'k', a, 1.0, b),
]


def literal(v):
    if isinstance(v, tuple):
        return v[1]
    if v is None:
        return 'null'
    if isinstance(v, float):
        return repr(v).removesuffix('.0')
    return "'" + v + "'"


def op_text(item):
    target, name, args = item
    if name is None:
        return f'{target[1]} = {args[1]}'
    text = f'{name}({", ".join(literal(v) for v in args)})'
    return f'{target} = {text}' if target else text


TEXTS = [op_text(item) for item in OPS]
STARTS = [
    "a = arrayNew(1, 'k')\nb = a\no = objectNew('k', a)\np = objectNew()\ns = 'k'\nr = null",
    "a = arrayNew(2)\nb = arrayNew(a, 1)\no = objectNew('k', b, 'z', 1)\np = o\ns = 'zk'\nr = a",
    "a = arrayNew()\nb = arrayNew(3, 1, 2)\no = objectNew()\np = objectNew('o', o, 'l', b)\ns = ''\nr = p",
]
_MODELS = {}


def op_model(ix):
    if ix not in _MODELS:
        _MODELS[ix] = impl.parse_script(TEXTS[ix])
    return _MODELS[ix]


_START = {}


def start_heap(ix):
    if ix not in _START:
        g = {}
        impl.execute_script(impl.parse_script(STARTS[ix]), {'globals': g})
        _START[ix] = [g[n] for n in VARS]
    return clone(_START[ix])


def step_real(heap, ix):
    g = dict(zip(VARS, heap))
    g.update(impl.lib())
    impl.execute_script(op_model(ix), {'globals': g})
    return [g[n] for n in VARS]


def step_ref(heap, ix):
    target, name, args = OPS[ix]
    env = dict(zip(VARS, heap))
    if name is None:
        env[target[1]] = env[args[1]]
    else:
        result = expected(name, [env[v[1]] if isinstance(v, tuple) else v for v in args])
        if target:
            env[target] = result
    return [env[n] for n in VARS]


def too_big(text):
    return len(text) > 160


def step(heap, ix, ctx, history):
    """Both sides do one operation from the same heap; returns (heap after, canonical text, cyclic)."""
    after = step_real(clone(heap), ix)
    want, cyclic = canon(step_ref(clone(heap), ix))
    got, _ = canon(after)
    ctx.states += 1
    ctx.transitions += 1
    if got != want:
        ctx.fail('history:' + str(OPS[ix][1]), f'after {"; ".join(TEXTS[i] for i in history)} the heap {canon(heap)[0]} and {TEXTS[ix]} give {got}, expected {want} (variables {VARS})')
    return after, want, cyclic


class NoCtx:
    """Enumeration in the parent process does not judge."""
    states = transitions = 0

    def fail(self, key, message):
        raise KeyError(key)


ALL_OPS = list(range(len(OPS)))
# the mutators and aliasing operations only, for a deeper search
MUTATORS = [ix for ix, (_, name, _) in enumerate(OPS) if ix < OPS.index(op('s', 'stringRepeat', s, 2.0)) and name not in (
    'arrayIndexOf', 'arrayLastIndexOf', 'arrayLength', 'objectHas', 'arrayJoin')]


def roots(start, depth, ops):
    """The distinct heaps after `depth` reference operations: [(history)]."""
    level = {canon(start_heap(start))[0]: []}
    heaps = {h: start_heap(start) for h in level}
    seen = set(level)
    for _ in range(depth):
        nxt, nheaps = {}, {}
        for text, history in level.items():
            for ix in ops:
                after = step_ref(clone(heaps[text]), ix)
                c, cyclic = canon(after)
                if c in seen or cyclic or too_big(c):
                    continue
                seen.add(c)
                nxt[c] = history + [ix]
                nheaps[c] = after
        level, heaps = nxt, nheaps
    return list(level.values())


_ROOTS = {}


def gen_histories(prefix, depth, mutators=False, starts=range(len(STARTS))):
    def gen():
        for start in starts:
            for d in range(prefix):
                # shorter prefixes are explored by one step only
                for history in _cached_roots(start, d, mutators):
                    yield [start, history, 1, mutators]
            for history in _cached_roots(start, prefix, mutators):
                yield [start, history, depth, mutators]
    return gen


def _cached_roots(start, d, mutators):
    key = (start, d, mutators)
    if key not in _ROOTS:
        _ROOTS[key] = roots(start, d, MUTATORS if mutators else ALL_OPS)
    return _ROOTS[key]


def run_histories(case, ctx):
    start, history, depth, mutators = case
    ops = MUTATORS if mutators else ALL_OPS
    heap = start_heap(start)
    for pos, ix in enumerate(history):
        heap, _, _ = step(heap, ix, ctx, history[:pos])
    level = [(heap, list(history))]
    seen = {canon(heap)[0]}
    for d in range(depth):
        nxt = []
        for h, hist in level:
            for ix in ops:
                after, text, cyclic = step(h, ix, ctx, hist)
                ctx.outcome(text)
                if text in seen or cyclic or too_big(text):
                    continue
                seen.add(text)
                nxt.append((after, hist + [ix]))
        level = nxt


def gen_long(triples):
    n = len(OPS)

    def gen():
        for start in range(len(STARTS)):
            for i in range(n):
                for j in range(n):
                    yield [start, [i, j]]
            if triples:
                reduced = [1, 2, 8, 10, 13, 15, 17, 22, 25, 27, 30, 36, 37, 39, 40, 44, 48, 50]
                for t in itertools.product(reduced, repeat=3):
                    yield [start, list(t)]
    return gen


def run_long(case, ctx):
    """A cycle of operations repeated to a history of 30 calls, run as one script."""
    start, cycle = case
    heap = start_heap(start)
    done = []
    ixs = []
    for k in range(30):
        ix = cycle[k % len(cycle)]
        c, cyclic = canon(step_ref(clone(heap), ix))
        if cyclic or len(c) > 600:
            break
        heap, text, _ = step(heap, ix, ctx, done)
        done.append(ix)
        ctx.outcome(text)
    # the same history as one script
    source = STARTS[start] + '\n' + '\n'.join(TEXTS[ix] for ix in done)
    g = {}
    impl.execute_script(impl.parse_script(source), {'globals': g})
    if canon([g[n] for n in VARS])[0] != canon(heap)[0]:
        ctx.fail('history', f'as one script the history gives {canon([g[n] for n in VARS])[0]}, step by step {canon(heap)[0]}:\n{source}')
    ctx.traces += 1


# ---------------------------------------------------------------------------------------------------------------
# argument products per function
# ---------------------------------------------------------------------------------------------------------------

def fn_one(args, options):  # pylint: disable=unused-argument
    return ref.compare(args[0], 1) == 0


def fn_text(args, options):  # pylint: disable=unused-argument
    return ref.typ(args[0]) if ref.typ(args[0]) == 'string' else ''


def fn_desc(args, options):  # pylint: disable=unused-argument
    return ref.compare(args[1], args[0])


def fn_zero(args, options):  # pylint: disable=unused-argument
    return 0


def call_fn(fn, args):
    return fn(args, None)


def invoke(name, args):
    """One call through the runtime; the argument expressions are variables."""
    g = dict(impl.lib())
    exprs = []
    for ix, arg in enumerate(args):
        g[f'arg{ix}'] = arg
        exprs.append({'variable': f'arg{ix}'})
    return impl.evaluate_expression({'function': {'name': name, 'args': exprs}}, {'globals': g, 'statementCount': 0, 'maxStatements': 0})


def check_call(ctx, name, args, lenient=()):
    real = clone(args)
    model = clone(args)
    before = canon(args)[0]
    got = invoke(name, real)
    want = expected(name, model, call_fn)
    ctx.states += 1
    c_got = canon(real + [got])[0]
    c_want = canon(model + [want])[0]
    if c_got != c_want:
        if got in lenient and canon(real)[0] == canon(model)[0]:
            return
        ctx.fail('call:' + name, f'{name} with arguments {before}: arguments|result {c_got}, expected {c_want}')
    if is_bad(name, args) and canon(real)[0] != before:
        ctx.fail('unchanged:' + name, f'the failing call {name} with arguments {before} left {canon(real)[0]}')
    ctx.outcome((name, c_want))


ARRAYS = [[], [1.0], [1.0, 'a'], [1, 1.0, 2.0], ['b', 'a', None], [[1.0], [1.0], {}], [{'k': 1.0}, True, 'x', 1.0], [3.0, 1.0, 2.0, 1.0, 3.0], [None, None], [0.0, False, '', None],
          [1.0, 2.0, 3.0, 4.0], ['x', 1.0, 'x', 'x', 'x', 1.0], [2.0, 3.0, 'x', 4.0, 5.0, 6.0, 7.0, 8.0, 1.0], [float(i % 7) for i in range(17)],
          [None if i % 5 == 3 else f't{i % 4}' for i in range(33)]]
OBJECTS = [{}, {'k': 1.0}, {'b': [1.0], 'a': {}}, {'': None}, {'k': None, 'z': 0.0}, {'1': 1.0, '0': 2.0}]
KEYS = ['k', '', 'a', 'z', '1', '__class__', 'K']
NEEDLES = [1.0, 1, 'a', None, [1.0], {}, {'k': 1}, True, False, 3, '', 9.0, fn_one, fn_text, fn_zero]
RESTS = [[], [None], [1.0], [1.0, 'x'], [[1.0], [1.0]], [None, None, None]]


def indices(n):
    out = []
    for i in range(-2, n + 3):
        out += [float(i), i]
    return out + [0.5, n - 0.5, None, 1e300, float('inf'), float('nan'), '1', True]


def gen_products():
    for name in ('arrayGet', 'arrayDelete', 'arraySet', 'arraySlice', 'arrayIndexOf', 'arrayLastIndexOf', 'arrayPush', 'arrayExtend', 'arraySort', 'arrayJoin', 'arrayCopy', 'arrayPop', 'arrayShift', 'arrayLength'):
        for ix in range(len(ARRAYS)):
            yield [name, ix]
    for name in ('objectGet', 'objectSet', 'objectDelete', 'objectHas', 'objectAssign', 'objectCopy', 'objectKeys'):
        for ix in range(len(OBJECTS)):
            yield [name, ix]
    for name in ('arrayNew', 'arrayNewSize', 'objectNew', 'stringNew'):
        yield [name, 0]


def product_args(name, ix):
    array = ARRAYS[ix] if name.startswith('array') else None
    if name in ('arrayGet', 'arrayDelete'):
        for i in indices(len(array)):
            yield [array, i]
    elif name == 'arraySet':
        for i in indices(len(array)):
            for v in [1.0, None, 'v', [1.0], array]:
                yield [array, i, v]
            yield [array, i]
    elif name == 'arraySlice':
        yield [array]
        for i in indices(len(array)):
            yield [array, i]
            for j in indices(len(array)):
                yield [array, i, j]
    elif name in ('arrayIndexOf', 'arrayLastIndexOf'):
        for v in NEEDLES + array:
            yield [array, v]
            for i in indices(len(array)):
                yield [array, v, i]
        yield [array]
    elif name == 'arrayPush':
        for rest in RESTS:
            yield [array] + rest
        yield [array, array]
    elif name == 'arrayExtend':
        for other in ARRAYS:
            yield [array, other]
        yield [array, array]
    elif name == 'arraySort':
        for fn in ([], [None], [fn_desc], [fn_zero], [impl.lib()['systemCompare']]):
            yield [array] + fn
    elif name == 'arrayJoin':
        for t in ('', ',', ', ', 'ab', '\u20ac'):
            yield [array, t]
    elif name in ('arrayCopy', 'arrayPop', 'arrayShift', 'arrayLength'):
        yield [array]
    elif name.startswith('object') and name != 'objectNew':
        obj = OBJECTS[ix]
        if name == 'objectAssign':
            for other in OBJECTS:
                yield [obj, other]
            yield [obj, obj]
        elif name in ('objectCopy', 'objectKeys'):
            yield [obj]
        else:
            for k in KEYS:
                yield [obj, k]
                if name in ('objectGet', 'objectSet'):
                    for v in (None, 1.0, 'd', [1.0], obj, False):
                        yield [obj, k, v]
    elif name == 'arrayNew':
        for n in range(4):
            for t in itertools.product([1.0, None, 'a', [1.0]], repeat=n):
                yield list(t)
        shared = [1.0]
        yield [shared, shared, shared]
    elif name == 'arrayNewSize':
        for n in indices(4) + [100.0]:
            if n == 1e300:
                continue
            yield [n]
            for v in (None, 1.0, 'a', [1.0], {}):
                yield [n, v]
        yield []
    elif name == 'objectNew':
        for n in range(5):
            for t in itertools.product(['k', 'a', 1.0, None, [1.0]], repeat=n):
                yield list(t)
    else:
        yield []
        for v in NEEDLES + ARRAYS + OBJECTS:
            yield [v]


def run_products(case, ctx):
    name, ix = case
    for args in product_args(name, ix):
        check_call(ctx, name, args)


# wrong-typed, missing and surplus arguments of every kind
BAD_VALUES = ['null', 'true', '0', '1', '-1', '0.5', 'nan', 'inf', "'a'", "''", "'1'", 'dt', 'date', '[]', '[1]', '[3,1,2]', '{}', '{a:1}', 'fn', 'rx']
GOOD = {'a': [[], [1.0, 'a', [2.0]]], 'o': [{}, {'k': 1.0, 'a': [1.0]}], 's': ['', 'abk'], 'i': [0.0, 1.0], 'n': [0.0, 1.5], 'f': [fn_zero], 'b': [True], '*': [1.0, [1.0]], '...': [1.0, [1.0]], 'd': [None], 'r': [re.compile('a')]}
BAD_NAMES = sorted(n for n in MODEL if n in sig.SIGNATURES) + ['regexEscape', 'urlEncode', 'urlEncodeComponent']


def gen_bad():
    for name in BAD_NAMES:
        for pos in range(len(sig.SIGNATURES[name][0]) + 1):
            yield [name, pos]


def run_bad(case, ctx):
    name, pos = case
    rows = sig.SIGNATURES[name][0]
    kinds = [row[0] for row in rows]
    for base in itertools.product(*[GOOD[k] for k in kinds]):
        lists = [list(base)[:n] for n in range(len(base) + 1)] if pos == 0 else []
        for v in BAD_VALUES:
            value = palette.make(v)
            if v == 'nan' and pos < len(base) and kinds[pos] == '*':
                continue
            if pos < len(base):
                args = list(base)
                args[pos] = value
                lists += [args, args[:pos + 1]]
            else:
                lists += [list(base) + [value], list(base) + [value, None]]
            # every second position wrong, too
            for other in range(pos + 1, len(base)):
                for w in ('null', '-1', "'a'", '[1]', '{a:1}'):
                    args = list(base)
                    args[pos] = value
                    args[other] = palette.make(w)
                    lists.append(args)
        for args in lists:
            if name in MODEL and name != 'arrayNewSize' or sig.invalid(name, args):
                if not any(callable(x) for x in args[:1]) or sig.invalid(name, args):
                    if name in MODEL:
                        check_bad(ctx, name, args)
                    else:
                        real = clone(args)
                        if invoke(name, real) is not None:
                            ctx.fail('failure:' + name, f'{name} with arguments {canon(args)[0]} did not return null')


def check_bad(ctx, name, args):
    # text of datetimes and functions is not this property's concern
    if name in ('stringNew', 'arrayJoin') and not sig.invalid(name, args):
        return
    lenient = ()
    if name in ('arrayIndexOf', 'arrayLastIndexOf', 'arraySort') and len(args) > 1 and callable(args[1]) and not sig.invalid(name, args):
        return
    if name in ('stringIndexOf', 'stringLastIndexOf') and len(args) > 1 and args[1] == '' and isinstance(args[0], str):
        lenient = (-1, 0, len(args[0]) - 1, len(args[0]))
    check_call(ctx, name, args, lenient)


# ---------------------------------------------------------------------------------------------------------------
# strings
# ---------------------------------------------------------------------------------------------------------------

def words(alphabet, upto):
    for n in range(upto + 1):
        for t in itertools.product(alphabet, repeat=n):
            yield ''.join(t)


def gen_strings(deep):
    def gen():
        for w in words('abA \u00e9\U0001f600', 3):
            yield [w, 'abA \u00e9\U0001f600']
        for w in words('ab', 6 if deep else 5):
            if len(w) > 3:
                yield [w, 'ab']
        # the spaces that every definition of white space has
        for w in words('\u00a0\u2003\u3000a', 3):
            yield [w, '\u00a0a']
        # longer texts: repetitions, overlaps, mixed planes
        for w in ('ab' * 8, 'aaab' * 5, 'a' * 33, 'abc abc  abc ', ' \t a b \n', 'a\U0001f600' * 6, '\u00e9a' * 9, 'The quick brown fox', 'a.b.c.d.e.f.g.h', '\x00a\x00b', 'aXbXXcXXX', '\u0130\u00df\u01c5'):
            yield [w, 'ab']
    return gen


def run_strings(case, ctx):
    text, alphabet = case
    n = len(text)
    for name in ('stringLength', 'stringLower', 'stringUpper', 'stringTrim', 'stringNew'):
        check_call(ctx, name, [text])
    for i in indices(n):
        check_call(ctx, 'stringCharCodeAt', [text, i])
        if i is None or isinstance(i, (bool, str)) or i != i or abs(i) < 100:
            check_call(ctx, 'stringRepeat', [text, i])
        check_call(ctx, 'stringSlice', [text, i])
        for j in indices(n):
            check_call(ctx, 'stringSlice', [text, i, j])
    for t in list(words(alphabet, 2)) + [text, text + 'a', text[1:]]:
        check_call(ctx, 'stringStartsWith', [text, t])
        check_call(ctx, 'stringEndsWith', [text, t])
        check_call(ctx, 'stringSplit', [text, t])
        for u in ('', 'x', t + t, '\\1$&', text):
            check_call(ctx, 'stringReplace', [text, t, u])
        for name in ('stringIndexOf', 'stringLastIndexOf'):
            for rest in [[]] + [[i] for i in indices(n)]:
                lenient = (-1, 0, n - 1, n) if t == '' and (not rest or rest[0] is None) else ()
                check_call(ctx, name, [text, t] + rest, lenient)
    parts = impl.lib()['stringSplit']([text, 'a'], None)
    if impl.lib()['arrayJoin']([parts, 'a'], None) != text:
        ctx.fail('split-join', f'joining the parts of {text!r} split at a gives something else')
    codes = [impl.lib()['stringCharCodeAt']([text, float(i)], None) for i in range(n)]
    if impl.lib()['stringFromCharCode']([float(c) for c in codes], None) != text:
        ctx.fail('codes', f'the character codes {codes} of {text!r} do not give it back')


# ---------------------------------------------------------------------------------------------------------------
# regexEscape and URL encoding
# ---------------------------------------------------------------------------------------------------------------

PUNCT = ''.join(chr(c) for c in range(33, 127) if not chr(c).isalnum())
ESC_ALPHABET = PUNCT + 'ab1P \n\t\r\x00\u00e9\u2028\U0001f600'
ESC_SMALL = '.*+?()[]{}|^$\\-#&~/a1<P:=! \n'


def gen_escape(deep):
    def gen():
        for c in ESC_ALPHABET:
            yield [c, ESC_ALPHABET, 1]
        for c, d in itertools.product(ESC_SMALL, repeat=2):
            yield [c + d, ESC_SMALL, 1 if not deep else 2]
        for start in range(0, 0x110000, 0x800):
            if start != 0xd800:
                yield [start]
        for word in ('a.b*c', '(?<n>x)', '(?i)a', '[a-z]+', '\\d', '\\n', 'x{2}', '$1', '\\\\', 'a|b', '^a$', '(?:', ' # comment', '\n\n', '-]', '\\Q\\E', '&&', '||', '~~', '[[:alpha:]]', '(?#', 'a' * 200 + '.'):
            yield [word, '', 0]
    return gen


def exact(ctx, text, others):
    """The escaped pattern matches text and nothing else."""
    lib = impl.lib()
    pattern = lib['regexEscape']([text], None)
    ctx.states += 1
    if type(pattern) is not str:
        ctx.fail('escape', f'regexEscape({text!r}) is {pattern!r}')
    for flags in (None, 'm', 's', 'ms'):
        regex = lib['regexNew']([pattern, flags], None)
        match = lib['regexMatch']([regex, text], None) if regex is not None else None
        if match is None or match['index'] != 0 or match['groups']['0'] != text:
            ctx.fail('escape', f'the pattern {pattern!r} of {text!r} does not match it (flags {flags}): {match}')
    whole = re.compile(r'\A' + lib['regexNew']([pattern], None).pattern + r'\Z')
    anchored = lib['regexNew'](['x' + pattern + '(y)' + pattern], None)
    m = lib['regexMatch']([anchored, '-x' + text + 'y' + text], None) if anchored is not None else None
    if m is None or m['index'] != 1 or m['groups']['1'] != 'y':
        ctx.fail('escape', f'the pattern {pattern!r} of {text!r} does not embed: {m}')
    simple = lib['regexNew']([pattern], None)
    for t in others:
        ctx.states += 1
        if (whole.search(t) is not None) != (t == text):
            ctx.fail('escape', f'the pattern {pattern!r} of {text!r} matches {t!r}')
        m = lib['regexMatch']([simple, t], None)
        if (m is None) != (text not in t) or m is not None and m['index'] != t.index(text):
            ctx.fail('escape', f'the pattern {pattern!r} of {text!r} finds {m} in {t!r}')
    hay = text + '|x' + text + text
    parts = lib['regexSplit']([simple, hay], None)
    if parts != hay.split(text):
        ctx.fail('escape', f'splitting {hay!r} at the pattern of {text!r} gives {parts}')
    if lib['regexReplace']([simple, hay, '_'], None) != hay.replace(text, '_'):
        ctx.fail('escape', f'replacing the pattern of {text!r} in {hay!r} goes wrong')


def percent_decode(text):
    out = bytearray()
    i = 0
    while i < len(text):
        if text[i] == '%':
            out.append(int(text[i + 1:i + 3], 16))
            i += 3
        else:
            out += text[i].encode('ascii')
            i += 1
    return out.decode('utf-8')


def encodes(ctx, text):
    for name in ('urlEncode', 'urlEncodeComponent'):
        enc = impl.lib()[name]([text], None)
        ctx.states += 1
        try:
            back = percent_decode(enc)
        except (ValueError, TypeError, IndexError) as exc:
            back = f'<{exc}>'
        if back != text:
            ctx.fail('url:' + name, f'{name}({text!r}) is {enc!r}, which decodes to {back!r}')
        ctx.outcome(enc)


def run_escape(case, ctx):
    if len(case) == 1:
        for c in range(case[0], case[0] + 0x800):
            ch = chr(c)
            for text in (ch, 'a' + ch + '%', ch + '+' + ch):
                encodes(ctx, text)
            pattern = impl.lib()['regexEscape']([ch + 'a' + ch], None)
            regex = impl.lib()['regexNew']([pattern], None)
            ctx.states += 1
            if regex is None or regex.fullmatch(ch + 'a' + ch) is None or regex.fullmatch(ch + 'b' + ch) is not None:
                ctx.fail('escape', f'the pattern of {ch + "a" + ch!r} is {pattern!r}')
        return
    text, alphabet, more = case
    others = list(words(alphabet, 2 if len(text) == 1 else 1)) + [text + text, text[::-1], text[:-1], text + 'a', 'a' + text, text.upper(), text.swapcase(), '\\' + text, text.replace('\\', '')]
    exact(ctx, text, others)
    encodes(ctx, text)
    for extra in (words(alphabet, more) if more else ()):
        if len(text) > 1 and extra:
            exact(ctx, text + extra, [text, extra, extra + text, text + extra + 'a'])
            encodes(ctx, text + extra)


# ---------------------------------------------------------------------------------------------------------------
# script functions as match and comparison functions
# ---------------------------------------------------------------------------------------------------------------

SCRIPT_FNS = {
    'isOne': ('value', 'return value == 1'),
    'isText': ('value', "return systemType(value) == 'string'"),
    'always': ('value', 'return true'),
    'never': ('value', ''),
    'itself': ('value', 'return value'),
}
COMPARE_FNS = {
    'ascending': ('x, y', 'return systemCompare(x, y)', lambda x, y: ref.compare(x, y)),
    'descending': ('x, y', 'return systemCompare(y, x)', lambda x, y: ref.compare(y, x)),
    'tie': ('x, y', 'return 0', lambda x, y: 0),
    'byType': ('x, y', 'return systemCompare(systemType(x), systemType(y))', lambda x, y: (ref.typ(x) > ref.typ(y)) - (ref.typ(x) < ref.typ(y))),
    'bigger': ('x, y', 'return if(x > y, 5, if(x < y, -0.5, 0))', lambda x, y: ref.compare(x, y)),
}
PREDICATES = {'isOne': lambda v: ref.compare(v, 1) == 0, 'isText': lambda v: ref.typ(v) == 'string', 'always': lambda v: True, 'never': lambda v: False, 'itself': ref.truthy}
ELEMENTS = [1.0, 'b', None, 2.0, [1.0], True]
TRUTHS = [0, 0.0, -0.0, 0.5, '', '0', False, [], [[]], {}, {'a': None}, datetime.datetime(1970, 1, 1), datetime.date(1970, 1, 1), re.compile(''), abs]
ELEMENTS += TRUTHS


def gen_callbacks():
    for n in range(5):
        for t in itertools.product(range(6), repeat=n):
            yield list(t)
    # a match function's answer is a boolean, whatever its type
    for t in itertools.product(range(len(ELEMENTS)), repeat=2):
        yield list(t)
    # longer arrays: one element in each position among others, in both directions
    for n in (5, 6, 8, 9, 17, 33):
        for i, j in ((0, 1), (1, 0), (2, 3), (4, 2)):
            for at in range(n):
                yield [j] * at + [i] + [j] * (n - at - 1)
        yield [k % 6 for k in range(n)]


def run_callbacks(case, ctx):
    values = [ELEMENTS[i] for i in case]
    n = len(values)
    source = ''.join(f'function {name}({params}):\n{body}\nendfunction\n' for name, (params, body) in SCRIPT_FNS.items())
    source += ''.join(f'function {name}({params}):\n{body}\nendfunction\n' for name, (params, body, _) in COMPARE_FNS.items())
    lines, want = [], {}
    for name, pred in PREDICATES.items():
        for start in [None] + list(range(n + 1)):
            key = f'{name}_{start}'
            tail = '' if start is None else f', {start}'
            lines += [f'i_{key} = arrayIndexOf(v, {name}{tail})', f'l_{key} = arrayLastIndexOf(v, {name}{tail})']
            fwd = range(start or 0, n)
            back = range(n - 1 if start is None else start, -1, -1) if start is None or start < n else ()
            want['i_' + key] = next((i for i in fwd if pred(values[i])), -1)
            want['l_' + key] = next((i for i in back if pred(values[i])), -1)
    for name, (_, _, cmp) in COMPARE_FNS.items():
        lines += [f'c_{name} = arrayCopy(v)', f's_{name} = arraySort(c_{name}, {name})', f'same_{name} = systemIs(c_{name}, s_{name})']
        want['s_' + name] = cmp
    out = impl.run_script(impl.parse_script(source + '\n'.join(lines)), {'v': list(values)})
    ctx.states += 1
    for key, w in want.items():
        got = out.globals.get(key)
        if callable(w):
            if ref.typ(got) != 'array' or sorted(map(ref.show, got)) != sorted(map(ref.show, values)) or any(w(x, y) > 0 for x, y in zip(got, got[1:])) or out.globals['same_' + key[2:]] is not True:
                ctx.fail('sort', f'arraySort({ref.show(values)}, {key[2:]}) is {ref.show(got)}')
        elif ref.typ(got) != 'number' or got != w:
            ctx.fail('index', f'{key} of {ref.show(values)} is {got!r}, expected {w}')
    if ref.show(out.globals['v']) != ref.show(values):
        ctx.fail('mutation', f'the searched array {ref.show(values)} became {ref.show(out.globals["v"])}')
    ctx.outcome(case)


# two calls of one function in a row whose arguments are equal or alike but not the same: the first must not decide the second
TWINS = [1.0, True, 1, '1', 0.0, False, 0, '', None, [1.0], [True], [1], ['1'], [], {'k': 1.0}, {'k': True}, {}, 97.0, 'a', 'A', '\u0041\u030a', '\u00c5', 'a\u00df', 'a b']
TWIN_BASE = {'a': [1.0, 'a', [2.0]], 'o': {'k': 1.0, 'a': [1.0]}, 's': 'abk1', 'i': 1.0, 'n': 1.0, 'f': fn_zero, 'b': True, '*': 1.0, '...': 97.0}


def gen_twins():
    for name in sorted(n for n in MODEL if n in sig.SIGNATURES):
        for pos in range(max(1, len(sig.SIGNATURES[name][0]))):
            yield [name, pos]


def run_twins(case, ctx):
    name, pos = case
    kinds = [row[0] for row in sig.SIGNATURES[name][0]]
    if any(k not in TWIN_BASE for k in kinds):
        kinds = [k if k in TWIN_BASE else '*' for k in kinds]
    for count in range(pos + 1, max(2, len(kinds) + 1)):
        base = [TWIN_BASE[k] for k in kinds[:count]] or [1.0]
        for one, other in itertools.product(TWINS, repeat=2):
            for value in (one, other, one):
                args = list(base)
                args[pos] = value
                if name == 'arraySort' and any(callable(x) for x in args) or name in ('arrayIndexOf', 'arrayLastIndexOf') and callable(args[1] if len(args) > 1 else None):
                    continue
                check_bad(ctx, name, args)


# ---------------------------------------------------------------------------------------------------------------
# sizes: every size up to 70 and the neighbours of round sizes, so that no size is special
# ---------------------------------------------------------------------------------------------------------------

SIZES = sorted(set(range(71)) | {m + d for m in (96, 100, 120, 128, 200, 250, 256, 300, 400, 500, 512, 700, 1000, 1024) for d in (-1, 0, 1)} | {1500, 2048, 4097})
ELEMENT_PATTERNS = {
    'same': lambda i, n: 1.0, 'ascending': lambda i, n: float(i), 'descending': lambda i, n: float(n - i), 'mixed': lambda i, n: [float(i), f's{i}', None, [float(i)], {'k': float(i)}, i % 2 == 0][i % 6],
    'texts': lambda i, n: f'k{(i * 7) % (n + 1)}', 'late': lambda i, n: 'x' if i >= n - 1 else 2.0
}


def near(n):
    return [float(i) for i in sorted({-1, 0, 1, n // 2, n - 2, n - 1, n, n + 1})]


def gen_sizes(deep):
    def gen():
        for n in SIZES:
            if deep or n < 600:
                for pattern in ELEMENT_PATTERNS:
                    yield ['array', n, pattern]
                for pattern in ('reverse', 'forward', 'shuffled'):
                    yield ['object', n, pattern]
                for unit in ('a', 'ab', 'a,', '\u00e9', ' ', '\U0001f600b'):
                    yield ['string', n, unit]
                yield ['many', n, '']
    return gen


def size_calls(kind, n, what):
    if kind == 'array':
        make = ELEMENT_PATTERNS[what]
        array = [make(i, n) for i in range(n)]
        last = array[-1] if array else 1.0
        for name in ('arrayLength', 'arrayCopy', 'arrayPop', 'arrayShift', 'arrayFlat', 'arrayReverse'):
            if name in MODEL:
                yield name, [array]
        yield 'arraySort', [array]
        if n < 130:
            yield 'arraySort', [array, fn_desc]
        yield 'arrayJoin', [array, ',']
        yield 'arrayJoin', [array, '']
        yield 'arrayExtend', [array, array]
        yield 'arrayExtend', [array, [1.0, 'a']]
        yield 'arrayExtend', [[], array]
        yield 'arrayPush', [array, 'new', None]
        for i in near(n):
            for name in ('arrayGet', 'arrayDelete'):
                yield name, [array, i]
            yield 'arraySet', [array, i, 'v']
            yield 'arraySlice', [array, i]
            yield 'arraySlice', [array, 0.0, i]
            yield 'arraySlice', [array, i, float(n)]
            for v in (last, 1.0, 'x', 'missing'):
                yield 'arrayIndexOf', [array, v, i]
                yield 'arrayLastIndexOf', [array, v, i]
        for v in (last, 1.0, 'x', 'missing', float(n - 1), 'k0'):
            yield 'arrayIndexOf', [array, v]
            yield 'arrayLastIndexOf', [array, v]
    elif kind == 'object':
        order = list(range(n)) if what == 'forward' else list(range(n))[::-1] if what == 'reverse' else sorted(range(n), key=lambda i: (i * 7919 + 13) % 101)
        obj = {f'k{i:04d}': float(i) for i in order}
        other = {f'k{i:04d}': 'new' for i in range(0, 2 * n, 2)}
        yield 'objectKeys', [obj]
        yield 'objectCopy', [obj]
        yield 'objectAssign', [obj, other]
        yield 'objectAssign', [{'z': 1.0, 'k0000': None}, obj]
        yield 'objectNew', [v for pair in obj.items() for v in pair]
        for k in ('k0000', f'k{n - 1:04d}', f'k{n // 2:04d}', 'missing'):
            yield 'objectGet', [obj, k]
            yield 'objectGet', [obj, k, 'default']
            yield 'objectSet', [obj, k, 'v']
            yield 'objectDelete', [obj, k]
            yield 'objectHas', [obj, k]
    elif kind == 'string':
        text = what * n
        for name in ('stringLength', 'stringLower', 'stringUpper', 'stringTrim', 'stringNew'):
            yield name, [text]
            yield name, [text + 'Zz ']
        yield 'stringRepeat', [what, float(n)]
        for t in (what, what[0], what + 'Q', 'Q', what * 2, text):
            if t:
                yield 'stringSplit', [text, t]
                yield 'stringSplit', [text + 'Q' + text, t]
                for u in ('', 'xy', what + 'x'):
                    yield 'stringReplace', [text + 'Q' + text, t, u]
                for name in ('stringIndexOf', 'stringLastIndexOf'):
                    yield name, [text + 'Q' + text, t]
                    for i in near(len(text)):
                        yield name, [text + 'Q', t, i]
                yield 'stringStartsWith', [text, t]
                yield 'stringEndsWith', [text + 'Q', t]
        for i in near(len(text)):
            yield 'stringCharCodeAt', [text, i]
            yield 'stringSlice', [text, i]
            yield 'stringSlice', [text, 0.0, i]
        yield 'stringFromCharCode', [float(ord(c)) for c in text]
    else:
        yield 'arrayNew', [float(i) for i in range(n)]
        yield 'arrayNewSize', [float(n)]
        yield 'arrayNewSize', [float(n), 'v']
        yield 'arrayPush', [[0.0]] + [float(i) for i in range(n)]


def run_sizes(case, ctx):
    for name, args in size_calls(*case):
        if name in MODEL:
            check_call(ctx, name, args)


def spaces(tier):
    deep = tier == 'thorough'
    return [
        Space('products', gen_products, run_products, 'every array and object function x small containers x indices -2..len+2 in both spellings and beyond'),
        Space('bad', gen_bad, run_bad, f'{len(BAD_NAMES)} functions x every argument position x {len(BAD_VALUES)} values, missing and surplus arguments', cpu=60.0),
        Space('histories', gen_histories(2, 2), run_histories, f'explicit-state search from {len(STARTS)} heaps with {len(OPS)} operations to depth 4', cpu=300.0),
        Space('long', gen_long(deep), run_long, 'every ordered pair (triple) of operations cycled to 30 calls, step by step and as one script', cpu=60.0),
        Space('strings', gen_strings(deep), run_strings, 'every string of length <= 3 over 6 characters (<= 5 (6) over 2) x every string function x needles and indices', cpu=60.0),
        Space('twins', gen_twins, run_twins, f'every function and argument position x all ordered pairs of {len(TWINS)} alike values: three calls in a row', cpu=120.0),
        Space('sizes', gen_sizes(deep), run_sizes, 'arrays, objects, strings and argument lists of every size up to 70 and around 100, 128, 200, 250, 256, ... 512 (4097) x patterns x every function', cpu=120.0),
        Space('escape', gen_escape(deep), run_escape, 'regexEscape and urlEncode*: every code point, all short strings over punctuation, against all short other strings', cpu=120.0),
        Space('callbacks', gen_callbacks, run_callbacks, 'all arrays of length <= 4 over 6 elements, longer ones of one element among others, x script match and comparison functions x start'),
    ] + ([
        Space('histories-deep', gen_histories(3, 2, True, (1,)), run_histories, f'explicit-state search with the {len(MUTATORS)} mutating and aliasing operations to depth 5', cpu=600.0),
    ] if deep else [])
