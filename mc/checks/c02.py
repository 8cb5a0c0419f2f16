"""C02: expression text parses to the tree the precedence rules dictate."""

import itertools

from mc import impl
from mc.core import Space

PROPERTY = 'C02'
LEVEL = 'exploration'
RULE = ('every text of the listed finite spaces is parsed by the implementation and by an independent tokenizer + precedence-climbing '
        'parser; distinct = distinct resulting trees (or rejection)')
ASSUMPTIONS = ['ASCII letters, digits and blanks; white-space-only bracketed names and a backslash right before a closing bracket are skipped as unspecified']

OPS = ['**', '*', '/', '%', '+', '-', '<=', '<', '>=', '>', '==', '!=', '&&', '||']
LEVELS = [['||'], ['&&'], ['==', '!='], ['<=', '<', '>=', '>'], ['+', '-'], ['*', '/', '%'], ['**']]
PREC = {op: ix for ix, ops in enumerate(LEVELS) for op in ops}
ONE_PER_LEVEL = ['||', '&&', '==', '<', '-', '*', '**']


class Reject(Exception):
    pass


class Unspecified(Exception):
    pass


BLANK = ' \t'
ALPHA = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_'
DIGIT = '0123456789'


class Parser:
    """Independent reference: character scanner and precedence climbing."""

    def __init__(self, text):
        self.t = text
        self.i = 0

    def skip(self):
        while self.i < len(self.t) and self.t[self.i] in BLANK:
            self.i += 1

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ''

    def operator(self):
        self.skip()
        for op in ('**', '<=', '>=', '==', '!=', '&&', '||', '*', '/', '%', '+', '-', '<', '>'):
            if self.t.startswith(op, self.i):
                return op
        return None

    def parse(self):
        e = self.binary(0)
        self.skip()
        if self.i != len(self.t):
            raise Reject()
        return e

    def binary(self, level):
        left = self.unary()
        while True:
            op = self.operator()
            if op is None or PREC[op] < level:
                return left
            self.i += len(op)
            right = self.binary(PREC[op] + 1)
            left = {'binary': {'op': op, 'left': left, 'right': right}}

    def unary(self):
        self.skip()
        c = self.peek()
        if c in ('!', '-') and c:
            self.i += 1
            return {'unary': {'op': c, 'expr': self.unary()}}
        if c == '(':
            self.i += 1
            e = self.binary(0)
            self.skip()
            if self.peek() != ')':
                raise Reject()
            self.i += 1
            return {'group': e}
        if c in ("'", '"') and c:
            return {'string': self.quoted(c)}
        if c == '[':
            return self.bracket()
        if c and (c in DIGIT or c == '+'):
            return self.number()
        if c and c in ALPHA:
            start = self.i
            while self.peek() and self.peek() in ALPHA + DIGIT:
                self.i += 1
            name = self.t[start:self.i]
            mark = self.i
            self.skip()
            if self.peek() == '(':
                self.i += 1
                return {'function': {'name': name, 'args': self.args()}}
            self.i = mark
            return {'variable': name}
        raise Reject()

    def args(self):
        out = []
        self.skip()
        if self.peek() == ')':
            self.i += 1
            return out
        while True:
            out.append(self.binary(0))
            self.skip()
            c = self.peek()
            self.i += 1
            if c == ')':
                return out
            if c != ',':
                raise Reject()

    def number(self):
        start = self.i
        if self.peek() == '+':
            self.i += 1
        n = self.digits()
        if not n:
            raise Reject()
        if self.peek() == '.':
            self.i += 1
            self.digits()
        # an exponent needs an explicit sign and at least one digit
        t, i = self.t, self.i
        if t[i:i + 1] == 'e' and t[i + 1:i + 2] in ('+', '-') and t[i + 2:i + 3] and t[i + 2] in DIGIT:
            self.i += 2
            self.digits()
        return {'number': float(self.t[start:self.i])}

    def digits(self):
        start = self.i
        while self.peek() and self.peek() in DIGIT:
            self.i += 1
        return self.i - start

    def quoted(self, q):
        self.i += 1
        out = []
        while True:
            c = self.peek()
            if not c:
                raise Reject()
            self.i += 1
            if c == q:
                return ''.join(out)
            if c == '\\' and self.peek() and self.peek() in '\\' + q:
                out.append(self.peek())
                self.i += 1
            else:
                out.append(c)

    def bracket(self):
        end = self.t.find(']', self.i)
        if end < 0:
            raise Reject()
        name = self.t[self.i + 1:end]
        if '\\' in name:
            raise Unspecified()
        if not name.strip():
            if name:
                raise Unspecified()
            raise Reject()
        self.i = end + 1
        return {'variable': name.lstrip(BLANK)}


def reference(text):
    try:
        return Parser(text).parse()
    except Reject:
        return None


def implementation(text):
    try:
        return impl.parse_expression(text)
    except impl.BareScriptParserError:
        return None


def compare(ctx, text):
    try:
        expect = reference(text)
    except Unspecified:
        ctx.note('skipped-unspecified')
        return None
    got = implementation(text)
    ctx.states += 1
    ctx.note('accepted' if expect is not None else 'rejected')
    ctx.outcome(expect)
    if got != expect:
        ctx.fail('tree', f'text {text!r}\nexpected {expect}\nactual   {got}')
    return expect


# ---- chains

NAMES = ['a', 'b1', 'cc', '4', "'s'", 'ff(x)', '[g h]', '+3.5']


def gen_chains(ops, lengths):
    for k in lengths:
        for combo in itertools.product(ops, repeat=k):
            yield list(combo)


def chain_text(ops, variants, sep=' '):
    parts = []
    for ix in range(len(ops) + 1):
        v = variants[ix] if ix < len(variants) else 0
        operand = NAMES[ix % len(NAMES)]
        if v == 1:
            operand = '-' + operand
        elif v == 2:
            operand = '!' + operand
        elif v == 3:
            operand = '(' + operand + ')'
        elif v == 4:
            operand = '(' + operand + ' + z)'
        elif v == 5:
            operand = '!-(' + operand + ' || z)'
        parts.append(operand)
        if ix < len(ops):
            parts.append(ops[ix])
    return sep.join(parts)


def run_plain(case, ctx):
    expect = compare(ctx, chain_text(case, ()))
    if expect is None:
        ctx.fail('oracle', f'the reference rejects {chain_text(case, ())!r}')
    if '**' not in ''.join(case).replace('**', ''):
        compare(ctx, chain_text(case, (), ''))


def run_variants(kinds):
    def run(case, ctx):
        for variants in itertools.product(range(kinds), repeat=len(case) + 1):
            compare(ctx, chain_text(case, variants))
    return run


def run_single_variant(case, ctx):
    for pos in range(len(case) + 1):
        for kind in range(1, 6):
            compare(ctx, chain_text(case, [0] * pos + [kind]))


# every context an expression can stand in gives the same tree
CONTEXTS = [
    ('x = %s', lambda m: m['statements'][0]['expr']['expr']),
    ('  return %s', lambda m: m['statements'][0]['return']['expr']),
    ('jumpif (%s) lab', lambda m: m['statements'][0]['jump']['expr']),
    ('if %s:\nendif', lambda m: m['statements'][0]['jump']['expr']['unary']['expr']),
    ('if x:\nelif %s:\nendif', lambda m: m['statements'][3]['jump']['expr']['unary']['expr']),
    ('while %s:\nendwhile', lambda m: m['statements'][0]['jump']['expr']['unary']['expr']),
    ('while %s:\nendwhile', lambda m: m['statements'][2]['jump']['expr']),
    ('for v in %s:\nendfor', lambda m: m['statements'][0]['expr']['expr']),
    ('f(%s)', lambda m: m['statements'][0]['expr']['expr']['function']['args'][0]),
    ('f(y, %s)', lambda m: m['statements'][0]['expr']['expr']['function']['args'][1]),
    ('f((%s))', lambda m: m['statements'][0]['expr']['expr']['function']['args'][0]['group']),
]


def run_context(case, ctx):
    text = chain_text(case[0], case[1])
    expect = compare(ctx, text)
    for template, pick in CONTEXTS:
        got = pick(impl.parse_script(template % text))
        if got != expect:
            ctx.fail('context', f'script {template % text!r}\nexpected {expect}\nactual   {got}')


def gen_context(lengths):
    for ops in gen_chains(ONE_PER_LEVEL, lengths):
        for v in range(6):
            yield [ops, [v, 0, v]]


# ---- trees: every shape, with every placement of the needed groups

def shapes(n):
    if n == 0:
        yield None
        return
    for left in range(n):
        for a in shapes(left):
            for b in shapes(n - 1 - left):
                yield (a, b)


def gen_trees(ops, sizes):
    for n in sizes:
        for ix, _shape in enumerate(shapes(n)):
            for combo in itertools.product(ops, repeat=n):
                yield [n, ix, list(combo)]


_SHAPES = {}


def run_tree(case, ctx):
    n, ix, ops = case
    if n not in _SHAPES:
        _SHAPES[n] = list(shapes(n))
    it = iter(ops)
    names = itertools.count()

    def build(shape):
        if shape is None:
            return {'variable': f'v{next(names)}'}
        op = next(it)
        left = build(shape[0])
        return {'binary': {'op': op, 'left': left, 'right': build(shape[1])}}

    tree = build(_SHAPES[n][ix])

    def text(e, level):
        """Minimal parentheses."""
        if 'variable' in e:
            return e['variable']
        b = e['binary']
        p = PREC[b['op']]
        out = f"{text(b['left'], p)} {b['op']} {text(b['right'], p + 1)}"
        return f'({out})' if p < level else out

    def strip(e):
        if e is None:
            return None
        if 'group' in e:
            return strip(e['group'])
        if 'binary' in e:
            b = e['binary']
            return {'binary': {'op': b['op'], 'left': strip(b['left']), 'right': strip(b['right'])}}
        return e

    def full(e):
        if 'variable' in e:
            return e['variable']
        b = e['binary']
        return f"({full(b['left'])}{b['op']}{full(b['right'])})"

    for source in (text(tree, 0), full(tree)):
        got = implementation(source)
        ctx.outcome(tree)
        if strip(got) != tree:
            ctx.fail('roundtrip', f'text {source!r}\nexpected {tree}\nactual   {got}')
        if got != reference(source):
            ctx.fail('tree', f'text {source!r}\nexpected {reference(source)}\nactual   {got}')


# ---- token strings and character strings

TOKENS = ['a', '1', '(', ')', ',', '-', '!', '+', '*', '**', '==', '&&', 'f(', "'s'", '[b c]', '=']
TOKENS_SMALL = ['a', '1', '(', ')', ',', '-', '!', '+', '**', 'f(', "'s'"]
CHARS = ['a', '1', ' ', '(', ')', ',', '-', '+', '*', '!', '=', '<', '&', '|', "'", '"', '\\', '[', ']', '.', 'e']


def gen_strings(alphabet, lengths):
    def gen(w, n):
        idx = 0
        for k in lengths:
            for combo in itertools.product(range(len(alphabet)), repeat=k):
                if idx % n == w:
                    yield idx, list(combo)
                idx += 1
    return gen


def run_tokens(alphabet):
    def run(case, ctx):
        compare(ctx, ' '.join(alphabet[i] for i in case))
        compare(ctx, ''.join(alphabet[i] for i in case))
    return run


def run_chars(case, ctx):
    compare(ctx, ''.join(CHARS[i] for i in case))


CHARS_SMALL = ['a', '1', ' ', '(', ')', ',', '-', '*', '!', '=', '|', "'", '\\']


def run_chars_small(case, ctx):
    compare(ctx, ''.join(CHARS_SMALL[i] for i in case))


NUM_CHARS = ['0', '1', '9', '.', 'e', '+', '-', 'E', ' ', 'x', '_']


def run_num(case, ctx):
    compare(ctx, ''.join(NUM_CHARS[i] for i in case))


STR_CHARS = ["'", '"', '\\', 'n', ' ', ']']


def run_str(case, ctx):
    body = ''.join(STR_CHARS[i] for i in case)
    compare(ctx, "'" + body)
    compare(ctx, '"' + body)
    compare(ctx, "'" + body + "'")
    compare(ctx, '"' + body + '"')


# ---- deep / long

def gen_long(n_max):
    for n in range(1, n_max + 1):
        for shape in range(8):
            yield [shape, n]


def run_long(case, ctx):
    shape, n = case
    ops = ['+', '*', '-', '**', '&&', '<', '||', '==', '%', '!=', '/', '>=']
    text = {
        0: '(' * min(n, 50) + 'a' + ')' * min(n, 50),
        1: '!' * n + 'a',
        2: ' + '.join(['a'] * n),
        3: ''.join(f'{"-" * (i % 3)}a{i} {ops[i % len(ops)]} ' for i in range(n)) + 'z',
        4: 'f(' * min(n, 50) + 'a' + ')' * min(n, 50),
        5: 'f(' + ', '.join(f'a{i} * 2 + 1' for i in range(n)) + ')',
        6: ''.join(f'(a{i} {ops[i % len(ops)]} ' for i in range(min(n, 50))) + 'z' + ')' * min(n, 50),
        7: ''.join(f'a{i} {ops[(i * 5) % len(ops)]} ' for i in range(n)) + 'z',
    }[shape]
    if compare(ctx, text) is None:
        ctx.fail('oracle', f'the reference rejects {text!r}')
    # the same text with one token missing
    for cut in (0, len(text) // 2, len(text) - 1):
        compare(ctx, text[:cut] + text[cut + 1:])


# bracketed variable names: the escapes \\] and \\\\ (a backslash right before a bracket is ambiguous and left out)
BRACKET_ATOMS = [('a', 'a'), ('B', 'B'), ('9', '9'), (' ', ' '), ('\\]', ']'), ('\\\\', '\\'), ('[', '['), ('(', '('), ("'", "'"), ('"', '"'), ('+', '+'), (',', ','), ('!', '!'), ('#', '#'),
                 ('\\n', '\\n'), ("\\'", "\\'"), ('\u00e9', '\u00e9')]


def gen_brackets(n_max):
    for n in range(1, n_max + 1):
        for combo in itertools.product(range(len(BRACKET_ATOMS)), repeat=n):
            texts = [BRACKET_ATOMS[i][0] for i in combo]
            if texts[0] != ' ' and texts[-1] != ' ' and not any(t.endswith('\\') and u in ('\\]', None) for t, u in zip(texts, texts[1:] + [None])):
                yield list(combo)


def run_brackets(case, ctx):
    text = ''.join(BRACKET_ATOMS[i][0] for i in case)
    name = {'variable': ''.join(BRACKET_ATOMS[i][1] for i in case)}
    b = {'variable': 'b'}
    for source, want in (
            (f'[{text}]', name), (f' [  {text}] ', name), (f'b + [{text}] * b', {'binary': {'op': '+', 'left': b, 'right': {'binary': {'op': '*', 'left': name, 'right': b}}}}),
            (f'![{text}]', {'unary': {'op': '!', 'expr': name}}), (f'f([{text}], b)', {'function': {'name': 'f', 'args': [name, b]}}), (f'([{text}])', {'group': name})):
        ctx.states += 1
        try:
            got = impl.parse_expression(source)
        except impl.BareScriptParserError as exc:
            got = exc.error
        if got != want:
            ctx.fail('bracket', f'{source!r} parses to {got}, expected {want}')
    ctx.outcome(case)


# runs of blanks, and tokens, of every length
RUNS = list(range(71)) + [99, 100, 101, 127, 128, 129, 199, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1001, 1024]
SPACED = [['a', '+', 'b', '*', 'c'], ['(', 'a', '-', 'b', ')'], ['f', '(', 'a', ',', 'b', ')'], ['!', '-', 'a', '&&', '(', '!', 'b', ')'], ['f', '(', ')', '**', '2'], ["'s'", '==', '"t"', '||', '[n m]'],
          ['1.5', '%', '(', 'f', '(', '1', ',', '(', '2', ')', ')', ')'], ['-', '(', 'a', ')', '<', '+1', '!=', 'b'], ['(', '(', 'a', ')', ')'], ['f', '(', 'g', '(', 'a', ')', ',', '!', 'b', ')', '>=', 'c']]


def gen_blanks():
    for ix in range(len(SPACED)):
        for gap in list(range(len(SPACED[ix]) + 1)) + [-1]:
            yield [ix, gap]


def run_blanks(case, ctx):
    ix, gap = case
    tokens = SPACED[ix]
    for n in RUNS:
        for blank in (' ' * n, '\t' * n, (' \t' * n)[:n], ' ' * n + '\t'):
            text = blank.join([''] + tokens + ['']) if gap == -1 else ' '.join(tokens[:gap]) + blank + ' '.join(tokens[gap:])
            if compare(ctx, text) is None:
                ctx.fail('oracle', f'the reference rejects {text!r}')
            if n > 300 and gap == -1:
                break


TOKEN_SHAPES = {
    'name': lambda n: 'n' * n, 'name-digits': lambda n: 'a' + '1' * (n - 1), 'call': lambda n: 'f' * n + '(x)', 'single': lambda n: "'" + 's' * n + "'", 'double': lambda n: '"' + 's ' * n + '"',
    'escapes': lambda n: "'" + "\\'" * n + "'", 'backslashes': lambda n: "'" + '\\\\' * n + "'", 'quotes': lambda n: "'" + '"' * n + "'", 'bracket': lambda n: '[' + 'a b' * n + ']',
    'digits': lambda n: '7' * min(n, 300), 'fraction': lambda n: '0.' + '3' * min(n, 300), 'zeros': lambda n: '0' * n + '.5',
    'args': lambda n: 'f(' + ', '.join(['a'] * n) + ')', 'mixed-args': lambda n: 'f(' + ', '.join(['a', '1', "'s'", '-b', '(c + 1)', 'g(d)'][i % 6] for i in range(n)) + ')',
    'plus': lambda n: '+'.join(['a'] * min(n, 90)), 'groups': lambda n: '+'.join(['(a)'] * min(n, 90)), 'strings': lambda n: ' + '.join(["'s'"] * min(n, 90))
}


def gen_lengths():
    for shape in TOKEN_SHAPES:
        for n in RUNS[1:]:
            yield [shape, n]


def run_lengths(case, ctx):
    shape, n = case
    token = TOKEN_SHAPES[shape](n)
    for text in (token, f'a + {token}', f'{token} * b', f'!{token}', f'({token})', f'f({token}, 1)', f'f(1, {token})', f'{token} == {token}', f'  {token}  ', f'a && {token} || c - {token}'):
        if compare(ctx, text) is None:
            ctx.fail('oracle', f'the reference rejects {text!r}')
    compare(ctx, token + ')')
    compare(ctx, token[:-1])
    compare(ctx, token + ' ' + token)


def spaces(tier):
    deep = tier == 'thorough'
    out = [
        Space('chains', lambda: gen_chains(OPS, (1, 2, 3, 4)), run_plain, 'all 14^k operator chains, k <= 4, with and without blanks'),
        Space('variants', lambda: gen_chains(OPS, (1, 2)), run_variants(6), 'all chains k <= 2 x every operand plain/-/!/(a)/(a+z)/!-(a||z)'),
        Space('variants3', lambda: gen_chains(ONE_PER_LEVEL if not deep else OPS, (3,)), run_variants(3 if not deep else 4),
              'all chains of 3 operators (one per level; thorough: all 14) x every operand plain/-/!(/group)'),
        Space('single-variant', lambda: gen_chains(ONE_PER_LEVEL if not deep else OPS, (4,)), run_single_variant,
              'chains of 4 operators with one non-plain operand at every position'),
        Space('levels', lambda: gen_chains(ONE_PER_LEVEL, (5,) if not deep else (5, 6)), run_plain, 'chains of 5 (6) operators, one operator per level'),
        Space('contexts', lambda: gen_context((1, 2, 3)), run_context, 'chains k <= 3 in every statement and call position that takes an expression'),
        Space('trees', lambda: gen_trees(ONE_PER_LEVEL, (1, 2, 3, 4) if not deep else (1, 2, 3, 4, 5)), run_tree,
              'every binary tree shape with <= 4 (5) operators, one operator per level, minimally and fully parenthesised'),
        Space('tokens', gen_strings(TOKENS, (0, 1, 2, 3, 4, 5) if not deep else (0, 1, 2, 3, 4, 5, 6)), run_tokens(TOKENS),
              f'every string of <= 5 (6) tokens over {TOKENS}, blank-separated and concatenated', sharded=True),
        Space('tokens-small', gen_strings(TOKENS_SMALL, (6,) if not deep else (6, 7)), run_tokens(TOKENS_SMALL),
              f'every string of 6 (7) tokens over {TOKENS_SMALL}', sharded=True),
        Space('chars', gen_strings(CHARS, (0, 1, 2, 3, 4, 5)), run_chars,
              f'every string of <= 5 characters over {"".join(CHARS)!r}', sharded=True),
        Space('chars-small', gen_strings(CHARS_SMALL, (6,) if deep else ()), run_chars_small,
              f'every string of 6 characters over {"".join(CHARS_SMALL)!r} (thorough)', sharded=True),
        Space('number-chars', gen_strings(NUM_CHARS, (1, 2, 3, 4, 5) if not deep else (1, 2, 3, 4, 5, 6)), run_num,
              f'every string of <= 5 (6) characters over {"".join(NUM_CHARS)!r}', sharded=True),
        Space('string-chars', gen_strings(STR_CHARS, (0, 1, 2, 3, 4, 5, 6) if not deep else (0, 1, 2, 3, 4, 5, 6, 7, 8)), run_str,
              f'every literal body of <= 6 (8) characters over {"".join(STR_CHARS)!r}, terminated or not, both quotes', sharded=True),
        Space('brackets', lambda: gen_brackets(3), run_brackets, f'bracketed names of <= 3 of {len(BRACKET_ATOMS)} pieces, escapes included, in 6 contexts'),
        Space('blanks', gen_blanks, run_blanks, f'{len(SPACED)} expressions with 0..70, ... 1024 blanks in any one token gap or in all of them'),
        Space('lengths', gen_lengths, run_lengths, f'{len(TOKEN_SHAPES)} kinds of token and list of every length 1..70, ... 1024 in 10 places'),
        Space('long', lambda: gen_long(60 if not deep else 130), run_long, 'long chains and deep nestings of every length, whole and with a character missing'),
    ]
    return out
