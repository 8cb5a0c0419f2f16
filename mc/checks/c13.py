"""C13: numbers survive conversion to text and back; integers print without a fraction."""

import itertools
import json
import math
import re
import struct
import unicodedata

from mc import impl, ref
from mc.core import Space

PROPERTY = 'C13'
LEVEL = 'exploration'
RULE = ('every double of the listed finite families is stringified on every path (concatenation on both sides, stringNew, arrayJoin, systemLog, inside containers) and read back with '
        'numberParseFloat and as source literal; every text of the listed families goes through the parsers; distinct = distinct texts (or parser verdicts)')
ASSUMPTIONS = [
    'a text that is a number only by a lenient reading (surrounding white space, a leading plus, a bare point, non-ASCII digits, a radix prefix) may be read exactly or give null',
    'infinities, NaN and host integers beyond 2^53 have no specified text',
    'the text of negative zero only has to read back as zero',
    'an integral value may be written with a positive exponent (1e+16), never with a decimal point'
]

GRAMMAR = re.compile(r'-?[0-9]+(\.[0-9]+)?(e[+-][0-9]+)?')


def bits(x):
    return struct.pack('>d', x)


def from_bits(n):
    return struct.unpack('>d', struct.pack('>Q', n))[0]


CONCAT_L = {'binary': {'op': '+', 'left': {'string': ''}, 'right': {'variable': 'x'}}}
CONCAT_R = {'binary': {'op': '+', 'left': {'variable': 'x'}, 'right': {'string': ''}}}


def check_number(ctx, x, full):
    """One finite double."""
    lib = impl.lib()
    ctx.states += 1
    options = {'globals': {'x': x}}
    text = impl.evaluate_expression(CONCAT_L, options)
    if type(text) is not str or GRAMMAR.fullmatch(text) is None:
        ctx.fail('text', f'the text of {x!r} is {text!r}')
    if x == int(x) and ('.' in text or 'e-' in text):
        ctx.fail('integral', f'the text of the integral number {x!r} is {text!r}')
    try:
        back = float(text)
    except ValueError:
        back = None
    if back is None or bits(back) != bits(x) and not x == back == 0:
        ctx.fail('text', f'the text of {x!r} is {text!r}, which reads {back!r}')
    parsed = lib['numberParseFloat']([text], None)
    if ref.typ(parsed) != 'number' or bits(float(parsed)) != bits(back):
        ctx.fail('parse', f'numberParseFloat({text!r}), the text of {x!r}, is {parsed!r}')
    other = lib['stringNew']([x], None)
    if other != text:
        ctx.fail('paths', f'{x!r}: concatenation gives {text!r}, stringNew {other!r}')
    if x >= 0 and not bits(x)[0] & 128:
        expr = impl.parse_expression(text)
        if set(expr) != {'number'} or bits(float(expr['number'])) != bits(back):
            ctx.fail('literal', f'the text {text!r} of {x!r} parses to the expression {expr}')
    if full:
        paths = {
            'right concatenation': impl.evaluate_expression(CONCAT_R, options),
            'arrayJoin': lib['arrayJoin']([[x], ','], None),
            'arrayJoin of three': lib['arrayJoin']([[x, 'a', x], '|'], None),
        }
        logs = []
        lib['systemLog']([x], {'logFn': logs.append})
        paths['systemLog'] = logs[0] if logs else None
        for name, got in paths.items():
            if got != (text + '|a|' + text if name.endswith('three') else text):
                ctx.fail('paths', f'{x!r}: concatenation gives {text!r}, {name} {got!r}')
        # inside containers the text is JSON
        for value, pick in (([x], lambda v: v[0]), ({'k': x}, lambda v: v['k']), ([[x, x], {'a': [x]}], lambda v: v[1]['a'][0])):
            got = lib['stringNew']([value], None)
            try:
                number = pick(json.loads(got))
            except ValueError:
                number = None
            if not isinstance(number, (int, float)) or bits(float(number)) != bits(x) and x != 0:
                ctx.fail('container', f'the text of a container of {x!r} is {got!r}')
            if x == int(x) and '.' in got:
                ctx.fail('container', f'the text of a container of the integral number {x!r} is {got!r}')
        # an integral number below 1e15 held as int prints the same
        if x == int(x) and abs(x) < 1e15 and not (x == 0 and bits(x)[0] & 128):
            got = lib['stringNew']([int(x)], None)
            if got != text:
                ctx.fail('spelling', f'{x!r} prints {text!r}, {int(x)!r} prints {got!r}')
            if '.' not in text and 'e' not in text:
                got = lib['numberParseInt']([text], None)
                if ref.typ(got) != 'number' or got != x:
                    ctx.fail('parse-int', f'numberParseInt({text!r}) is {got!r}')
        if x >= 0 and not bits(x)[0] & 128:
            for source, pick in ((f'x = {text}', lambda m: m['statements'][0]['expr']['expr']), (f'return {text}', lambda m: m['statements'][0]['return']['expr']),
                                 (f'f({text}, a)', lambda m: m['statements'][0]['expr']['expr']['function']['args'][0]), (f'x = a*{text}', lambda m: m['statements'][0]['expr']['expr']['binary']['right']),
                                 (f'x = {text} *a', lambda m: m['statements'][0]['expr']['expr']['binary']['left']), (f'x = ({text})', lambda m: m['statements'][0]['expr']['expr']['group']),
                                 (f'x = a - {text}', lambda m: m['statements'][0]['expr']['expr']['binary']['right']), (f'x = !{text}', lambda m: m['statements'][0]['expr']['expr']['unary']['expr']),
                                 (f'x = a<{text}', lambda m: m['statements'][0]['expr']['expr']['binary']['right']), (f'jumpif ({text}) l', lambda m: m['statements'][0]['jump']['expr'])):
                expr = pick(impl.parse_script(source))
                if set(expr) != {'number'} or bits(float(expr['number'])) != bits(back):
                    ctx.fail('literal', f'the number {x!r} in {source!r} parses to {expr}')
        # a script that prints and reads back
        out = impl.run_script({'statements': [
            {'expr': {'name': 't', 'expr': CONCAT_L}},
            {'return': {'expr': {'binary': {'op': '==', 'left': {'function': {'name': 'numberParseFloat', 'args': [{'variable': 't'}]}}, 'right': {'variable': 'x'}}}}}]}, {'x': x})
        if out.value is not True:
            ctx.fail('script', f"numberParseFloat('' + x) == x is {out.value!r} for {x!r}")
    ctx.outcome(text)


# ---------------------------------------------------------------------------------------------------------------
# families of doubles, as blocks of bit patterns or of decimal texts
# ---------------------------------------------------------------------------------------------------------------

def ulps(x, n):
    """x and its n neighbours on both sides (finite, by bit pattern)."""
    center = struct.unpack('>Q', struct.pack('>d', abs(x)))[0]
    for k in range(-n, n + 1):
        b = center + k
        if 0 <= b < 0x7ff0000000000000:
            yield from_bits(b)


def block_values(case):
    kind = case[0]
    if kind == 'int':
        start, size, div = case[1:]
        for n in range(start, start + size):
            yield n / div
            yield -n / div
    elif kind == 'ten':
        # all mantissas with up to 3 digits at one power of ten, and neighbours of the power
        k, top = case[1:]
        for m in range(1, top):
            x = float(f'{m}e{k}')
            if math.isfinite(x):
                yield x
        x = float(f'1e{k}')
        if math.isfinite(x):
            for y in ulps(x, 8):
                yield y
                yield -y
    elif kind == 'two':
        x = math.ldexp(1.0, case[1])
        for y in ulps(x, 6):
            yield y
            yield -y
        for odd in (3, 5, 7, 9, 15, 17, 25, 99, 101, 125, 625):
            y = math.ldexp(float(odd), case[1]) if case[1] < 1000 else x
            yield y
    elif kind == 'near':
        center, offset, size = case[1:]
        c = struct.unpack('>Q', struct.pack('>d', float(center)))[0]
        for k in range(offset, offset + size):
            if 0 <= c + k < 0x7ff0000000000000:
                yield from_bits(c + k)
    elif kind == 'grid':
        exp = case[1]
        mans = {0, (1 << 52) - 1, 0x5555555555555, 0xaaaaaaaaaaaaa}
        mans |= {1 << i for i in range(52)} | {((1 << 52) - 1) ^ (1 << i) for i in range(52)}
        mans |= {t << 46 for t in range(64)} | {(1 << i) - 1 for i in range(52)}
        mans |= {(0x123456789abcd * t) & ((1 << 52) - 1) for t in range(case[2])}
        for man in sorted(mans):
            for s in (0, 1):
                yield from_bits(s << 63 | exp << 52 | man)
    else:
        # decimal: all digit strings of one length with the point at one place
        length, point = case[1:]
        for n in range(10 ** length):
            digits = f'{n:0{length}d}'
            yield float(digits[:point] + '.' + digits[point:])


CENTERS = [2.0 ** 53, 1e15, 1e16, 1e17, 1e21, 1e22, 1e23, 1e-4, 1e-5, 1e-7, 0.1, 0.3, 1.0, 10.0, 4.35, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 2.0 ** 63, 1e100, 123456.789, 9.95, 1e-100, 5e15, 4.5e15]


def gen_blocks(deep):
    def gen():
        for start in range(0, 400000 if deep else 40000, 1000):
            yield ['int', start, 1000, 1]
        for div in (2, 8, 10, 100, 1000, 3, 7):
            for start in range(0, 60000 if deep else 12000, 1000):
                yield ['int', start, 1000, div]
        for k in range(-330, 310):
            yield ['ten', k, 1000 if deep else 200]
        for k in range(-1074, 1024):
            yield ['two', k]
        for center in CENTERS:
            for offset in range(-4000 if deep else -1000, 4000 if deep else 1000, 500):
                yield ['near', center, offset, 500]
        for length in range(1, 6 if deep else 5):
            for point in range(1, length + 1):
                yield ['decimal', length, point]
    return gen


def gen_grid(deep):
    def gen():
        for exp in range(0, 2047):
            yield ['grid', exp, 200 if deep else 0]
    return gen


def run_full(case, ctx):
    for x in block_values(case):
        check_number(ctx, x, True)


def run_grid(case, ctx):
    for ix, x in enumerate(block_values(case)):
        check_number(ctx, x, ix % 16 == 0)


# ---------------------------------------------------------------------------------------------------------------
# texts for the parsers
# ---------------------------------------------------------------------------------------------------------------

SURE_FLOAT = re.compile(r'-?[0-9]+(\.[0-9]+)?(e[+-]?[0-9]+)?')
MAYBE_FLOAT = re.compile(r'\s*[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?\s*')
DIGITS = '0123456789abcdefghijklmnopqrstuvwxyz'


def ascii_digits(text):
    return ''.join(str(unicodedata.decimal(c)) if unicodedata.decimal(c, None) is not None else c for c in text)


def float_verdict(text):
    """('exact', value), ('either', value) or ('null', None)."""
    plain = ascii_digits(text)
    if MAYBE_FLOAT.fullmatch(plain) is None:
        return 'null', None
    value = float(plain)
    if not math.isfinite(value):
        return 'null', None
    return ('exact' if SURE_FLOAT.fullmatch(text) else 'either'), value


def int_verdict(text, radix):
    plain = ascii_digits(text).strip()
    body = plain.lower()
    neg = body.startswith('-')
    if body[:1] in ('-', '+') and body:
        body = body[1:]
    sure = plain == text and not plain.startswith('+') and plain == plain.lower()
    prefix = {16: '0x', 8: '0o', 2: '0b'}.get(radix)

    def value(digits):
        if not digits or any(c not in DIGITS[:radix] for c in digits):
            return None
        n = 0
        for c in digits:
            n = n * radix + DIGITS.index(c)
        return -n if neg else n
    n = value(body)
    if n is not None:
        return ('exact' if sure else 'either'), n
    if prefix and body.startswith(prefix):
        n = value(body[2:])
        if n is not None:
            return 'either', n
    return 'null', None


def check_float_text(ctx, text):
    got = impl.lib()['numberParseFloat']([text], None)
    kind, value = float_verdict(text)
    ctx.states += 1
    if got is None:
        ok = kind != 'exact'
    else:
        ok = kind != 'null' and ref.typ(got) == 'number' and bits(float(got)) == bits(value)
    if not ok:
        ctx.fail('parse-float', f'numberParseFloat({text!r}) is {got!r}, expected {value!r} ({kind})')
    ctx.outcome((kind, got is None))


def check_int_text(ctx, text, radix, default):
    got = impl.lib()['numberParseInt']([text] if default else [text, radix], None)
    kind, value = int_verdict(text, int(radix))
    ctx.states += 1
    if got is None:
        ok = kind != 'exact'
    else:
        ok = kind != 'null' and ref.typ(got) == 'number' and got == value
    if not ok:
        ctx.fail('parse-int', f'numberParseInt({text!r}, {radix}) is {got!r}, expected {value!r} ({kind})')
    ctx.outcome((kind, got is None, radix))


ALPHABET = '10.e+- _nx'
ALPHABET_DEEP = '190.eE+- _,nfax\n'
WORDS = ['nan', 'NaN', 'inf', '-inf', 'Infinity', '-infinity', 'null', 'true', '', ' ', '1,000', '1 000', '1_000', '0x10', '0b1', '0o7', '1e400', '-1e400', '1e', '1e+', 'e5', '.', '-', '+', '--1', '1-', '1.2.3', '1..2',
         '12px', 'px12', '1e5.5', '0x1p3', '\u0661\u0662', '\uff11', '\u00b2', '\u2155', '\u221e', '1\u20442', '1e308', '1.8e308', '1e-400', '5e-324', '2e-324', '00', '007', '-0', '0.', '.5', '-.5', '1.', '1e5', '1E5',
         '1e+05', '1e-05', '12 ', ' 12', '\t1', '1\n', '\u00a01', '1\x00', '\x001', '1f', '1d', '1L', '1n', '0.1e1', '1' * 30, '0.' + '3' * 40, '9' * 400, '1' + '0' * 308, '1' + '0' * 309, '-' + '9' * 310, '1e1000000', '0e1000000', '1/2', '1%', '$1', '1;', '(1)',
         'NaN1', 'infinit', 'infinityx', '1inf', 'nan()', '+nan', '-nan', ' nan ', 'INF', '1e\u0661', '1\u066b5']


def gen_texts(deep):
    def gen():
        alphabet = ALPHABET_DEEP if deep else ALPHABET
        yield ['words', 0]
        for length in range(0, 3):
            for t in itertools.product(alphabet, repeat=length):
                yield ['text', ''.join(t)]
        for t in itertools.product(alphabet, repeat=2):
            yield ['block', ''.join(t), 3 if not deep else 4, alphabet]
    return gen


def run_texts(case, ctx):
    if case[0] == 'words':
        for word in WORDS:
            check_float_text(ctx, word)
            for radix in (2, 8, 10, 16, 36):
                check_int_text(ctx, word, radix, False)
            check_int_text(ctx, word, 10, True)
            # every one-character edit
            for i in range(min(len(word), 12) + 1):
                for c in '1a.-+ _e\u0662':
                    for edit in (word[:i] + c + word[i:], word[:i] + word[i + 1:], word[:i] + c + word[i + 1:]):
                        check_float_text(ctx, edit)
                        check_int_text(ctx, edit, 10, True)
        return
    if case[0] == 'text':
        texts = [case[1]]
    else:
        texts = (case[1] + ''.join(t) for n in range(1, case[2] + 1) for t in itertools.product(case[3], repeat=n))
    for text in texts:
        check_float_text(ctx, text)
        check_int_text(ctx, text, 10.0, True)
        if len(text) <= 4:
            for radix in (2, 8, 16.0, 36):
                check_int_text(ctx, text, radix, False)


def gen_radix():
    for radix in range(2, 37):
        yield [radix]


def run_radix(case, ctx):
    radix = case[0]
    chars = DIGITS + DIGITS[10:].upper() + '-+. _/:@[`{\u0661'
    for n in (1, 2):
        for t in itertools.product(chars, repeat=n):
            check_int_text(ctx, ''.join(t), radix, False)
    top = DIGITS[radix - 1]
    for n in range(1, 40):
        for text in (top * n, '-' + top * n, '1' + '0' * n, '0' * n + '1', top * n + DIGITS[min(radix, 35)], '1' * n + '.0', top * n + ' '):
            check_int_text(ctx, text, radix, False)
            check_int_text(ctx, text, float(radix), False)


def spaces(tier):
    deep = tier == 'thorough'
    return [
        Space('numbers', gen_blocks(deep), run_full, 'integers, fractions, decimal and binary powers with their neighbours, all short decimals, neighbourhoods of 25 centres: every path', cpu=120.0),
        Space('grid', gen_grid(deep), run_grid, 'all 2047 exponents x both signs x 200+ mantissa patterns (incl. subnormals)', cpu=120.0),
        Space('texts', gen_texts(deep), run_texts, 'all strings of length <= 5 (6) over 10 (16) characters and one-character edits of near-miss words for numberParseFloat and numberParseInt', cpu=300.0),
        Space('radix', gen_radix, run_radix, 'all one- and two-character digit strings and long digit runs in every radix'),
    ]
