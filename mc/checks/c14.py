"""C14: JSON serialisation is faithful: jsonParse(jsonStringify(v)) equals v."""

import itertools
import json
import re

from mc import impl, ref
from mc.core import Space
from mc.checks import c13

PROPERTY = 'C14'
LEVEL = 'exploration'
RULE = ('every value of the listed finite families (strings, keys, numbers, trees) is serialised with every listed indent and the text read back by jsonParse and by an independent '
        'strict parser that also sees key order and number tokens; distinct = distinct texts')
ASSUMPTIONS = [
    'unpaired surrogates are not Unicode strings and are excluded',
    'keys sort by code point; negative zero reads back as a zero; an integral number may use a positive exponent',
    'two different values never share a text because every text reads back to its value (checked for each value)'
]

INDENTS = [None, 1, 2, 3, 4, 5, 6, 7, 8]


def same(a, b):
    ta = ref.typ(a)
    if ta != ref.typ(b):
        return False
    if ta == 'array':
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if ta == 'object':
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return a == b


class Token(str):
    __slots__ = ()


class Bad(Exception):
    pass


def _bad(text):
    raise Bad('the constant ' + text)


def _pairs(pairs):
    keys = [k for k, _ in pairs]
    if keys != sorted(set(keys)):
        raise Bad(f'the key order {keys}')
    return dict(pairs)


STRICT = json.JSONDecoder(parse_float=Token, parse_int=Token, parse_constant=_bad, object_pairs_hook=_pairs, strict=True)
NUMBER = re.compile(r'-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][+-]?[0-9]+)?')


def tokens(a, b):
    """Compare the value with the strictly parsed text (numbers are still tokens)."""
    if type(b) is Token:
        if ref.typ(a) != 'number' or NUMBER.fullmatch(b) is None:
            raise Bad(f'the number {b}')
        if (int(b) if type(a) is int and b.lstrip('-').isdigit() else float(b)) != a:
            raise Bad(f'the number {b} for {a!r}')
        if a == int(a) and ('.' in b or 'e-' in b.lower()):
            raise Bad(f'a fraction in the integral number {b}')
        return
    t = ref.typ(a)
    if t != ref.typ(b):
        raise Bad('another type')
    if t == 'array':
        if len(a) != len(b):
            raise Bad('another length')
        for x, y in zip(a, b):
            tokens(x, y)
    elif t == 'object':
        if set(a) != set(b):
            raise Bad('other keys')
        for k in a:
            tokens(a[k], b[k])
    elif a != b:
        raise Bad('another value')


def check(ctx, value, indents):
    lib = impl.lib()
    stringify, parse = lib['jsonStringify'], lib['jsonParse']
    before = ref.show(value)
    for indent in indents:
        ctx.states += 1
        text = stringify([value] if indent is None else [value, indent], None)
        if type(text) is not str:
            ctx.fail('text', f'jsonStringify({before}, {indent}) is {text!r}')
        try:
            strict = STRICT.decode(text)
            tokens(value, strict)
        except (ValueError, Bad) as exc:
            ctx.fail('text', f'jsonStringify({before}, {indent}) is {text!r}: {exc}')
        back = parse([text], None)
        if not same(value, back):
            ctx.fail('round-trip', f'jsonParse(jsonStringify({before}, {indent})) is {ref.show(back)}, the text is {text!r}')
    ctx.outcome(text)
    if ref.show(value) != before:
        ctx.fail('mutation', f'jsonStringify changed {before} to {ref.show(value)}')


def embed(s):
    """The positions a string can have, as value, key, and next to numbers whose clean-up could reach into it."""
    return [s, [s], {s: 1.0}, {'k': s}, [1.0, s, 2.5, s], {s: [s, {s: s}], s + 'x': 1.0}]


# ---------------------------------------------------------------------------------------------------------------
# strings
# ---------------------------------------------------------------------------------------------------------------

PROPERTY_ALPHABET = 'a.0,]}'
ADVERSARIAL = '.01,]}[{":\\/e-a \n\t\x00\x1f\x7f\u00e9\u2028\ufeff\U0001f600'
NARROW = ['1.0,e', '\\".0', '\\u0n"', '-1.5e+', '0. ,\n', '.0:]"', "'\"\\/"]

FEW = [None, 2]


def gen_strings(name, alphabet, upto, indents, group=2):
    def gen():
        for length in range(0, min(upto, group) + 1):
            for t in itertools.product(alphabet, repeat=length):
                yield [''.join(t), 0, alphabet, indents]
        for t in itertools.product(alphabet, repeat=group):
            if upto > group:
                yield [''.join(t), upto - group, alphabet, indents]
    return gen


def run_strings(case, ctx):
    prefix, more, alphabet, indents = case
    if more == 0:
        texts = [prefix]
    else:
        texts = (prefix + ''.join(t) for n in range(1, more + 1) for t in itertools.product(alphabet, repeat=n))
    for s in texts:
        for value in embed(s):
            check(ctx, value, indents)


def gen_narrow(upto):
    def gen():
        for alphabet in NARROW:
            yield from gen_strings('', alphabet, upto, FEW)()
    return gen


def gen_points():
    for start in range(0, 0x110000, 0x400):
        if not 0xd800 <= start < 0xe000:
            yield [start]


def run_points(case, ctx):
    for c in range(case[0], case[0] + 0x400):
        s = chr(c)
        check(ctx, {s: s + s, 'k': [s + '.0,', 'a' + s + '0.0']}, (None,))
    check(ctx, {chr(c): 1.0 for c in range(case[0] + 0x3ff, case[0] - 1, -1)}, (None, 1))


def gen_pairs():
    """Ordered pairs of keys, of strings and of neighbours."""
    words = SPECIAL_WORDS
    for i in range(len(words)):
        for j in range(len(words)):
            yield [i, j]


SPECIAL_WORDS = ['', 'a', 'b', 'B', 'aa', '.0', '.0,', '1.0', '1.0,', '1.0]', '1.0}', '"', '\\', '\\"', '"1.0', '1.0"', '\\\\"1.0,', 'etc., x', '0.00', '\n1.0\n', '1.0\n', ' 1.0 ', ': 1.0', '":1.0,"', '\u00e9', '\uffff',
                 '\U0001f600', '\U00010000', '10', '9', '1', 'null', 'true', 'NaN', '__proto__', 'k' * 300 + '.0,', '\\u0041', '\x00', '\u2028', '/', '</script>', '%s', '{0}', '\\1', '\\g<0>', '$1', '-', '1e5', '1.0e5', '1.50', '-1.0', '["a",1.0]', '{"a":1.0}']


def run_pairs(case, ctx):
    a, b = SPECIAL_WORDS[case[0]], SPECIAL_WORDS[case[1]]
    for value in ({b: 1.0, a: 2.5}, {a: b}, [a, b], [a, 1.0, b], {a: [1.0], b: {}}, [[a], [1.0], {b: 1.0}], [a + b], {b: {a: b}, a + b: [0.0]}, [1.5, a, 2.0, b, 3.0]):
        check(ctx, value, INDENTS if case[0] < 12 else FEW)


# ---------------------------------------------------------------------------------------------------------------
# numbers
# ---------------------------------------------------------------------------------------------------------------

def gen_numbers(deep):
    def gen():
        for start in range(0, 100000 if deep else 10000, 1000):
            yield ['int', start, 1000, 1]
        for div in (2, 10, 100, 1000, 3):
            for start in range(0, 20000 if deep else 4000, 1000):
                yield ['int', start, 1000, div]
        for k in range(-326, 310):
            yield ['ten', k, 300 if deep else 60]
        for k in range(-1074, 1024):
            yield ['two', k]
        for center in c13.CENTERS:
            for offset in range(-1000 if deep else -250, 1000 if deep else 250, 250):
                yield ['near', center, offset, 250]
        for exp in range(0, 2047, 1 if deep else 4):
            yield ['grid', exp, 0]
        for length in range(1, 5):
            for point in range(1, length + 1):
                yield ['decimal', length, point]
    return gen


def run_numbers(case, ctx):
    for ix, x in enumerate(c13.block_values(case)):
        # the top level, arrays, objects, neighbours of strings and other numbers
        check(ctx, x, (None,))
        check(ctx, [x, [x], {'a': x, 'b.0,': [x, '1.0,', x]}, x], FEW)
        if ix % 50 == 0:
            for value in ([x], {'a': x}, [x, x], {'a': [x], 'b': x}):
                check(ctx, value, INDENTS)
        if x == int(x) and abs(x) < 2 ** 53 and not c13.bits(x)[0] & 128:
            a = impl.lib()['jsonStringify']([[x, {'k': x}]], None)
            b = impl.lib()['jsonStringify']([[int(x), {'k': int(x)}]], None)
            if a != b:
                ctx.fail('spelling', f'{x!r} serialises as {a!r}, {int(x)!r} as {b!r}')


def gen_integers():
    """The integers that only a host int or JSON text can hold exactly."""
    for k in range(50, 260, 1):
        yield ['two', k]
    for k in range(14, 80):
        yield ['ten', k]


def run_integers(case, ctx):
    base, k = case
    n = 2 ** k if base == 'two' else 10 ** k
    for x in (n - 1, n, n + 1, n + n // 3, -n + 1, -n, -n - 1):
        check(ctx, x, INDENTS)
        check(ctx, [x, [x], {'a': x, 'b.0,': [x, '1.0,', x]}, x], FEW)
    for a, b in ((n, n + 1), (n - 1, n), (-n, -n - 1)):
        texts = [impl.lib()['jsonStringify']([v], None) for v in (a, b)]
        if texts[0] == texts[1]:
            ctx.fail('integers', f'{a} and {b} both serialise as {texts[0]!r}')


# ---------------------------------------------------------------------------------------------------------------
# trees
# ---------------------------------------------------------------------------------------------------------------

LEAVES = [None, True, False, 1.0, 2.5, '', 'x.0,']
LEAVES_S = [None, 1.0, '1.0]']
KEYS = ['a', 'b', '1.0,']


def trees(size, leaves, depth):
    """All trees of exactly `size` nodes (arrays, objects and leaves) up to the depth."""
    if size == 1:
        yield from leaves
        yield []
        yield {}
        return
    if depth <= 1:
        return
    for children in forests(size - 1, leaves, depth - 1, 3):
        yield list(children)
        for keys in itertools.permutations(KEYS, len(children)):
            yield dict(zip(keys, children))


def forests(size, leaves, depth, most):
    if size == 0:
        yield ()
        return
    if most == 0:
        return
    for first in range(1, size + 1):
        for head in trees(first, leaves, depth):
            for rest in forests(size - first, leaves, depth, most - 1):
                yield (head, *rest)


def gen_trees(leaves, upto, depth):
    def gen(w, n):
        idx = 0
        for size in range(1, upto + 1):
            batch = []
            for tree in trees(size, leaves, depth):
                batch.append(tree)
                if len(batch) == 64:
                    if idx % n == w:
                        yield idx, batch
                    idx += 1
                    batch = []
            if batch:
                if idx % n == w:
                    yield idx, batch
                idx += 1
    return gen


def run_trees(case, ctx):
    for ix, tree in enumerate(case):
        check(ctx, tree, INDENTS if ix % 16 == 0 else (None, 1, 4.0))


def gen_shapes():
    for kind in ('array', 'object', 'mixed'):
        for depth in range(1, 61):
            for leaf in range(len(LEAVES)):
                yield [kind, depth, leaf]
    for n in (0, 1, 2, 10, 100, 1000):
        yield ['wide', n, 0]
        yield ['alias', n, 0]


def run_shapes(case, ctx):
    kind, n, leaf = case
    if kind == 'wide':
        check(ctx, [float(i) for i in range(n)], INDENTS)
        check(ctx, {f'k{i}': i / 2 for i in range(n, 0, -1)}, INDENTS)
        check(ctx, {str(i): [str(i) + '.0,', {}] for i in range(n, 0, -1)}, INDENTS)
        check(ctx, '.0,]}' * n, FEW)
        return
    if kind == 'alias':
        shared, obj = [1.0, '1.0,'], {'a': 1.0}
        check(ctx, [shared, obj] * (n % 11) + [[shared], {'s': shared, 'o': obj}, obj], INDENTS)
        return
    value = LEAVES[leaf]
    for d in range(n):
        value = [value] if kind == 'array' or kind == 'mixed' and d % 2 else {KEYS[d % 3]: value, 'z': 1.0}
    check(ctx, value, (None, 1, 2))


# ---------------------------------------------------------------------------------------------------------------
# histories: a call does not depend on earlier calls (encoders and decoders are shared state)
# ---------------------------------------------------------------------------------------------------------------

HIST = [(1.0, None), ('a.0,', None), ([1.0, 'b'], 2), ({'b': 1.0, 'a': [2.5]}, None), ({'b': 1.0, 'a': [2.5]}, 4), ([[], {}], 8), (float('nan'), None), ([float('inf')], 2), ('circ', None), ('fn', 2), (None, -1), ({'b': [1.0]}, 1.0)]


def hist_call(ix):
    value, indent = HIST[ix]
    if value == 'circ':
        value = []
        value.append(value)
    elif value == 'fn':
        value = [len]
    g = {'v': value}
    args = [{'variable': 'v'}] + ([] if indent is None else [{'number': indent}])
    g.update(impl.lib())
    return ref.show(impl.evaluate_expression({'function': {'name': 'jsonStringify', 'args': args}}, {'globals': g}))


def gen_hist():
    for i in range(len(HIST)):
        for j in range(len(HIST)):
            for k in range(len(HIST)):
                yield [i, j, k]


_FIRST = {}


def run_hist(case, ctx):
    for ix in case:
        got = hist_call(ix)
        ctx.states += 1
        if _FIRST.setdefault(ix, got) != got:
            ctx.fail('history', f'jsonStringify{HIST[ix]} is {got}, earlier {_FIRST[ix]} (history {case})')
    for ix in case:
        value, indent = HIST[ix]
        if value not in ('circ', 'fn') and value == value and value != [float('inf')] and indent != -1:
            check(ctx, value, (indent,))


# histories of jsonParse: the value read is the caller's own
PARSE_TEXTS = ['[]', '{}', '[1,2]', '{"a":[1],"b":{"c":null}}', '[[],[]]', '[{"a":1},{"a":1}]', '"a"', '1', '[1,', '']
EDITS = ['none', 'push', 'set', 'deep', 'stringify']


def edit(value, how):
    if how == 'stringify':
        impl.lib()['jsonStringify']([value], None)
    elif how == 'deep' and isinstance(value, (list, dict)):
        for child in list(value if isinstance(value, list) else value.values()):
            edit(child, 'push')
            edit(child, 'set')
    elif how == 'push' and isinstance(value, list):
        value.append('edited')
    elif how == 'set' and isinstance(value, dict):
        value['edited'] = 1.0
        value.pop('a', None)


def gen_parse_hist():
    for i, j in itertools.product(range(len(PARSE_TEXTS)), repeat=2):
        for e1, e2 in itertools.product(EDITS, repeat=2):
            for gap in (0, 1, 20):
                yield [i, j, e1, e2, gap]


def run_parse_hist(case, ctx):
    i, j, e1, e2, gap = case
    parse = {'function': {'name': 'jsonParse', 'args': [{'variable': 's'}]}}
    text_of = {'function': {'name': 'jsonStringify', 'args': [parse]}}

    def read(text, expr=parse):
        return impl.evaluate_expression(expr, {'globals': {**impl.lib(), 's': text}})

    held = []
    for ix, how in ((i, e1), (j, e2), (i, e1), (j, e2), (i, 'none'), (j, 'none')):
        text = PARSE_TEXTS[ix]
        try:
            want = json.loads(text)
        except ValueError:
            want = None
        got = read(text)
        ctx.states += 1
        if not same(got, want):
            ctx.fail('parse-history', f'{case}: jsonParse({text!r}) is {ref.show(got)}, expected {ref.show(want)}')
            return
        if want is not None and read(text, text_of) != json.dumps(want, separators=(',', ':'), sort_keys=True):
            ctx.fail('parse-history', f'{case}: jsonStringify(jsonParse({text!r})) is {read(text, text_of)!r}')
        edit(got, how)
        held.append((got, ref.show(got)))
        for n in range(gap):
            read(f'[{n}]')
    for value, shown in held:
        if ref.show(value) != shown:
            ctx.fail('parse-history', f'{case}: a value read earlier became {ref.show(value)}, was {shown}')
    ctx.outcome(case[:4])


# scripts: literals through parse_script, script-built containers
def gen_script():
    for i in range(len(SPECIAL_WORDS)):
        yield [i]


def run_script(case, ctx):
    s = SPECIAL_WORDS[case[0]]
    out = impl.run_script(impl.parse_script(
        "v = objectNew(s, arrayNew(s, 1, 2.50, -3, 1e+20), 'k' + s, objectNew('1.0,', s), 'n', null, 't', true, 'z', arrayNew(arrayNew(), objectNew()))\n"
        "a = jsonStringify(v)\nb = jsonStringify(v, 3)\nreturn jsonParse(a) == v && jsonParse(b) == v && jsonStringify(jsonParse(b)) == a && jsonStringify(jsonParse(a), 3) == b"), {'s': s})
    ctx.states += 1
    if out.value is not True:
        ctx.fail('script', f'a script that builds, serialises and reads back around {s!r}: {out.value!r}, {out.globals.get("a")!r}')
    check(ctx, out.globals['v'], INDENTS)


def spaces(tier):
    deep = tier == 'thorough'
    return [
        Space('strings', gen_strings('', PROPERTY_ALPHABET, 4 if not deep else 5, INDENTS), run_strings, "every string of length <= 4 (5) over {a . 0 , ] }} x 6 positions x 9 indents", cpu=120.0),
        Space('adversarial', gen_strings('', ADVERSARIAL, 4, FEW if not deep else [None, 1, 4]), run_strings, f'every string of length <= 4 over {len(ADVERSARIAL)} characters x 6 positions', cpu=300.0),
        Space('narrow', gen_narrow(5 if not deep else 6), run_strings, 'every string of length <= 5 (6) over 7 small alphabets x 6 positions', cpu=120.0),
        Space('code-points', gen_points, run_points, 'every Unicode scalar value as value, key and neighbour of a number-like text', cpu=60.0),
        Space('words', gen_pairs, run_pairs, f'all ordered pairs of {len(SPECIAL_WORDS)} special strings as keys, values and neighbours'),
        Space('numbers', gen_numbers(deep), run_numbers, 'the number families of C13 (reduced) at top level, in arrays and objects and next to strings', cpu=60.0),
        Space('integers', gen_integers, run_integers, 'the integers next to 2^50-2^259 and 10^14-10^79, held as host ints, at top level and in containers'),
        Space('trees', gen_trees(LEAVES, 5 if not deep else 6, 5), run_trees, f'all trees of <= 5 (6) nodes over {len(LEAVES)} leaves and {len(KEYS)} keys', sharded=True),
        Space('trees-deep', gen_trees(LEAVES_S, 5 if not deep else 6, 5), run_trees, f'all trees of <= 5 (6) nodes, depth <= 5, over {len(LEAVES_S)} leaves', sharded=True),
        Space('shapes', gen_shapes, run_shapes, 'chains to depth 60, wide and aliased containers'),
        Space('history', gen_hist, run_hist, 'all sequences of three of 12 calls, incl. failing ones'),
        Space('parse-history', gen_parse_hist, run_parse_hist, f'two of {len(PARSE_TEXTS)} texts read in turn, the results modified in between in {len(EDITS)} ways'),
        Space('scripts', gen_script, run_script, 'script-built containers around every special string'),
    ]
