"""C20: diffLines from the shipped include library reconstructs both inputs."""

import copy
import io
import itertools
import json
import os
import sys

import bare_script.bare
from mc import impl
from mc.core import Space

PROPERTY = 'C20'
LEVEL = 'model_checking'
ASSUMPTIONS = [
    'the lines of a text are what LF or CRLF separates; an array contributes the lines of its items',
    'how small a difference is found is not specified'
]


def include_dir():
    return os.path.join(os.path.dirname(os.path.abspath(impl.bare_script.__file__)), 'include')


def shipped():
    return sorted(f for f in os.listdir(include_dir()) if f.endswith('.bare'))


_STATE = {}


def diff_lines():
    """diffLines as a script sees it, and the options it runs with."""
    if not _STATE:
        def fetch(request):
            with open(os.path.join(include_dir(), request['url'].rsplit('/', 1)[1]), encoding='utf-8', newline='') as fh:
                return fh.read()
        options = {'globals': {}, 'fetchFn': fetch, 'systemPrefix': '/include/'}
        impl.execute_script(impl.parse_script('include <diff.bare>\ninclude <diff.bare>\n'), options)
        _STATE['options'] = options
        _STATE['fetch'] = fetch
    return _STATE['options']


def lines_of(value):
    """The lines of a text or of an array of texts."""
    if isinstance(value, list):
        return [line for part in value for line in lines_of(part)]
    out = ['']
    i = 0
    while i < len(value):
        if value[i] == '\n':
            out.append('')
        elif value[i] == '\r' and value[i + 1:i + 2] == '\n':
            out.append('')
            i += 1
        else:
            out[-1] += value[i]
        i += 1
    return out


def problem(result, left, right):
    """What is wrong with the result, or None."""
    if not isinstance(result, list):
        return 'no array'
    a, b = [], []
    for block in result:
        if not isinstance(block, dict) or set(block) != {'type', 'lines'} or block['type'] not in ('Identical', 'Add', 'Remove'):
            return f'the block {block!r}'
        lines = block['lines']
        if not isinstance(lines, list) or not lines or not all(isinstance(x, str) for x in lines):
            return f'the lines of {block!r}'
        if block['type'] != 'Add':
            a += lines
        if block['type'] != 'Remove':
            b += lines
    if a != left:
        return f'Identical and Remove give {a!r}'
    if b != right:
        return f'Identical and Add give {b!r}'
    if left == right and any(block['type'] != 'Identical' for block in result):
        return 'a difference between identical inputs'
    return None


def check(ctx, left, right):
    options = diff_lines()
    options['statementCount'] = 0
    options['maxStatements'] = 400000
    ctx.states += 1
    before = copy.deepcopy([left, right])
    result = options['globals']['diffLines']([left, right], options)
    ctx.transitions += options['statementCount']
    ctx.traces += 1
    bad = problem(result, lines_of(before[0]), lines_of(before[1]))
    if bad:
        ctx.fail('diff', f'diffLines({before[0]!r}, {before[1]!r}) is {result!r}: {bad}')
    if [left, right] != before:
        ctx.fail('inputs', f'diffLines changes its arguments {before} to {[left, right]}')
    return result


def shape(result):
    return [(b['type'][0], len(b['lines'])) for b in result]


# ---------------------------------------------------------------------------------------------------------------
# all pairs of line lists
# ---------------------------------------------------------------------------------------------------------------

def lists(size, letters):
    for n in range(size + 1):
        yield from itertools.product(range(letters), repeat=n)


def canonical(seq, used=0):
    """Are new letters introduced in order? Returns the number of letters used, or None."""
    for c in seq:
        if c > used:
            return None
        if c == used:
            used += 1
    return used


def gen_pairs(size, letters, reduced, alphabets):
    def gen(w, n):
        idx = 0
        for left in lists(size, letters):
            used = canonical(left) if reduced else 0
            if used is None:
                continue
            for alphabet in alphabets:
                # shards of one left list by the first letters of the right one
                for first in itertools.product(range(letters), repeat=min(size, 2)):
                    if idx % n == w:
                        yield idx, [list(left), list(first), alphabet, size, letters, reduced]
                    idx += 1
    return gen


ALPHABETS = [['a', 'b', 'c', 'd'], ['', 'a', ' ', 'a '], ['1', '1.0', '01', 'null'], ['a', 'A', '\u00e9', '\r'], ['{', '    "a": 1', '    "a": 1,', '}'], ['aaaa', 'aaa', 'aa', 'a\ta'], ['\u2028', '\x0b', '\x85', '\x0c']]


def run_pairs(case, ctx):
    left, first, alphabet, size, letters, reduced = case
    names = ALPHABETS[alphabet]
    used = canonical(left) if reduced else 0
    mine = [names[c] for c in left]
    tails = lists(size - len(first), letters)
    seen = []
    for tail in tails:
        right = [*first, *tail]
        if not reduced or canonical(right, used) is not None:
            seen.append(shape(check(ctx, list(mine), [names[c] for c in right])))
    # right lists shorter than the prefix
    if not any(first):
        for short in lists(len(first) - 1, letters):
            if not reduced or canonical(short, used) is not None:
                seen.append(shape(check(ctx, list(mine), [names[c] for c in short])))
    for s in seen:
        ctx.outcome(s)


# ---------------------------------------------------------------------------------------------------------------
# texts
# ---------------------------------------------------------------------------------------------------------------

def gen_texts(size):
    def gen(w, n):
        idx = 0
        symbols = 'ab\n\r'
        for length in range(size + 1):
            for left in itertools.product(symbols, repeat=length):
                if idx % n == w:
                    yield idx, [''.join(left), size]
                idx += 1
    return gen


def run_texts(case, ctx):
    left, size = case
    for length in range(size + 1):
        for combo in itertools.product('ab\n\r', repeat=length):
            right = ''.join(combo)
            ctx.outcome(shape(check(ctx, left, right)))
            if length < 3:
                # arrays of texts
                check(ctx, [left, right], right)
                check(ctx, [left], left + '\r\n' + right)
                check(ctx, left, [right, left, ''])


def gen_endings():
    for left in lists(4, 2):
        yield list(left)


def run_endings(case, ctx):
    """The same lines as array, LF text, CRLF text, mixed text, array of texts."""
    def forms(lines):
        out = [lines, '\n'.join(lines), '\r\n'.join(lines), ''.join(x + ('\n' if i % 2 else '\r\n') for i, x in enumerate(lines)), ['\n'.join(lines[:2]), *lines[2:]], ['\r\n'.join(lines)], []]
        return [f for f in out]
    left = ['xy'[c] for c in case]
    for right in lists(4, 2):
        right = ['xy'[c] for c in right]
        for a in forms(left):
            for b in forms(right):
                result = check(ctx, copy.deepcopy(a), copy.deepcopy(b))
        ctx.outcome(shape(result))


# ---------------------------------------------------------------------------------------------------------------
# longer texts
# ---------------------------------------------------------------------------------------------------------------

BASES = {
    'distinct': lambda n: [f'line {i}' for i in range(n)],
    'cycle': lambda n: ['abc'[i % 3] for i in range(n)],
    'blank': lambda n: [f'item {i}' if i % 3 else '' for i in range(n)],
    'braces': lambda n: ['{', '}', '    x', '    y', ''][0:0] + [['{', '    x', '}', ''][i % 4] if i % 5 else f'name {i // 5}' for i in range(n)],
    'same': lambda n: ['same'] * n
}


def edits(lines):
    """(name, edited lines) for every single edit."""
    n = len(lines)
    for i in range(n):
        yield lines[:i] + lines[i + 1:]
        yield lines[:i] + ['new'] + lines[i + 1:]
        yield lines[:i] + [lines[(i * 7 + 3) % n]] + lines[i + 1:]
        yield lines[:i] + lines[i + 1:] + [lines[i]]
        yield [lines[i]] + lines[:i] + lines[i + 1:]
    for i in range(n + 1):
        yield lines[:i] + ['new'] + lines[i:]
        yield lines[:i] + ['new', 'newer', 'new'] + lines[i:]
        yield lines[:i] + lines[max(0, i - 3):i] + lines[i:]
        yield lines[i:] + lines[:i]
        yield lines[:i]
        yield lines[i:]
        yield lines[:i] + lines[i + 5:]
    yield lines[::-1]
    yield [x for p in zip(lines, lines) for x in p]
    yield lines[::2]


def gen_edits(deep):
    def gen():
        for name in BASES:
            for n in (5, 12, 25, 40):
                yield [name, n, 'single', 0]
                for k in range(12 if deep else 3):
                    if n <= 25 or deep:
                        yield [name, n, 'double', k]
        for a, b in itertools.product(BASES, repeat=2):
            for n in (10, 40):
                yield [a, n, 'other', b]
    return gen


def run_edits(case, ctx):
    name, n, kind, k = case
    lines = BASES[name](n)
    seen = set()
    if kind == 'single':
        check(ctx, list(lines), list(lines))
        for other in edits(lines):
            seen.add(str(shape(check(ctx, list(lines), list(other)))))
            check(ctx, list(other), list(lines))
            check(ctx, '\n'.join(lines), '\r\n'.join(other))
    elif kind == 'double':
        for ix, other in enumerate(edits(lines)):
            if ix % 12 == k:
                for jx, third in enumerate(edits(other)):
                    if jx % (7 if n > 12 else 1) == 0:
                        seen.add(str(shape(check(ctx, list(lines), list(third)))))
    else:
        seen.add(str(shape(check(ctx, list(lines), BASES[k](n)))))
        seen.add(str(shape(check(ctx, list(lines), BASES[k](n // 2) + lines[n // 3:]))))
        seen.add(str(shape(check(ctx, lines[:n // 2] + BASES[k](n), lines[n // 3:] + BASES[k](n // 2)))))
    for s in seen:
        ctx.outcome(s)


# ---------------------------------------------------------------------------------------------------------------
# blocks of removed, added and kept lines of every size
# ---------------------------------------------------------------------------------------------------------------

BLOCK_SIZES = list(range(0, 67)) + [79, 80, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257]


def gen_blocks(deep):
    def gen():
        for n in BLOCK_SIZES + ([300, 499, 500, 501, 512, 513, 999, 1000, 1001] if deep else []):
            for kind in ('remove', 'add', 'keep', 'replace', 'replace-one', 'replace-many', 'swap', 'alternate'):
                if n <= 70 or kind not in ('replace', 'alternate') or deep and n <= 300:
                    yield [kind, n]
    return gen


def run_blocks(case, ctx):
    kind, n = case
    block = [f'x{i}' for i in range(n)]
    same = ['x'] * n
    other = [f'y{i}' for i in range(n)]
    seen = set()
    for head, tail in ((0, 0), (0, 1), (1, 0), (2, 3)):
        h, t = [f'h{i}' for i in range(head)], [f't{i}' for i in range(tail)]
        if kind == 'remove':
            pairs = [(b, []) for b in (block, same)]
        elif kind == 'add':
            pairs = [([], b) for b in (block, same)]
        elif kind == 'keep':
            pairs = [(['a'] + block, block + ['b']), (block, block), (same + ['a'], ['b'] + same)]
        elif kind == 'replace':
            pairs = [(block, other), (block, other[:n // 2])]
        elif kind == 'replace-one':
            pairs = [(block, ['z']), (['z'], block), (same, ['z'])]
        elif kind == 'replace-many':
            pairs = [(block, ['z'] * 3 + block[-1:]), (block[:1] + ['z', 'z'], block), (same, same[1:] + ['z'])]
        elif kind == 'swap':
            pairs = [(block + ['m'], ['m'] + block), (['m'] + block, block + ['m'])]
        else:
            pairs = [(block, [v for pair in zip(block, other) for v in pair]), ([v for pair in zip(block, other) for v in pair], other)]
        for left, right in pairs:
            seen.add(str(shape(check(ctx, h + left + t, h + right + t))))
            if head == 1:
                seen.add(str(shape(check(ctx, '\n'.join(h + left + t), '\r\n'.join(h + right + t) + '\n'))))
    for s in seen:
        ctx.outcome(s)


# ---------------------------------------------------------------------------------------------------------------
# the command line and the consumer
# ---------------------------------------------------------------------------------------------------------------

def run_main(argv):
    stdout = sys.stdout
    sys.stdout = io.StringIO()
    status = None
    try:
        bare_script.bare.main(argv)
    except SystemExit as exc:
        status = exc.code
    finally:
        output = sys.stdout.getvalue()
        sys.stdout = stdout
    return status, output


def gen_cli():
    for left in lists(3, 2):
        yield list(left)


CLI = '''include <diff.bare>
for pair in jsonParse(pairs):
    systemLog(jsonStringify(diffLines(arrayGet(pair, 0), arrayGet(pair, 1))))
endfor
'''


def run_cli(case, ctx):
    left = ['xy'[c] for c in case]
    pairs = []
    for right in lists(3, 2):
        right = ['xy'[c] for c in right]
        pairs += [[left, right], ['\n'.join(left), '\r\n'.join(right)], [right, '\r\n'.join(left)]]
    text = CLI.replace('(pairs)', "('" + json.dumps(pairs).replace('\\', '\\\\').replace("'", "\\'") + "')")
    status, output = run_main(['-c', text])
    rows = output.splitlines()
    if status or len(rows) != len(pairs):
        ctx.fail('cli', f'{text!r} ends with {status!r} and prints {output[:2000]!r}')
    for (a, b), row in zip(pairs, rows):
        ctx.states += 1
        bad = problem(json.loads(row), lines_of(a), lines_of(b))
        if bad:
            ctx.fail('cli', f'diffLines({a!r}, {b!r}) prints {row}: {bad}')
    # through execute_script with the include fetcher, a fresh scope every time
    diff_lines()
    for a, b in pairs[::5]:
        options = {'globals': {'a': copy.deepcopy(a), 'b': copy.deepcopy(b), 'left': 'L', 'diffs': 'D', 'ixLeft': 5}, 'fetchFn': _STATE['fetch'], 'systemPrefix': '/include/'}
        result = impl.execute_script(impl.parse_script('include <diff.bare>\nreturn diffLines(a, b)\n'), options)
        bad = problem(result, lines_of(a), lines_of(b))
        if bad or options['globals']['left'] != 'L' or options['globals']['diffs'] != 'D' or options['globals']['ixLeft'] != 5:
            ctx.fail('script', f'diffLines({a!r}, {b!r}) is {result!r}: {bad}')
        ctx.outcome(shape(result))


VALUES = ['1', "'a'", "'a' + stringFromCharCode(10) + 'b'", "'b' + stringFromCharCode(10) + 'a'", 'null', 'arrayNew()', 'arrayNew(1)', 'arrayNew(1, 2)', 'arrayNew(2, 1)', "objectNew('a', 1)", "objectNew('a', 1, 'b', arrayNew(1, 2, 3))", "objectNew('a', 1, 'b', arrayNew(1, 3))", "objectNew('b', arrayNew(1, 2, 3))",
          "arrayNew(objectNew('x', 1), objectNew('x', 2))", "arrayNew(objectNew('x', 2), objectNew('x', 1))", 'true']


def gen_consumer():
    for a in range(len(VALUES)):
        yield [a]


CONSUMER = '''include <unittest.bare>
function testOne():
    unittestDeepEqual(A, B)
endfunction
unittestRunTest('testOne')
return objectGet(unittestTests, 'testOne')
'''


def run_consumer(case, ctx):
    a = VALUES[case[0]]
    diff_lines()
    for b in VALUES:
        options = {'globals': {}, 'fetchFn': _STATE['fetch'], 'systemPrefix': '/include/', 'logFn': lambda _: None}
        failures = impl.execute_script(impl.parse_script(CONSUMER.replace('A, B', f'{a}, {b}')), options)
        x = impl.evaluate_expression(impl.parse_expression(f'{a}'), {'globals': dict(impl.lib())})
        y = impl.evaluate_expression(impl.parse_expression(f'{b}'), {'globals': dict(impl.lib())})
        tx = x if isinstance(x, str) else impl.lib()['jsonStringify']([x, 4], None)
        ty = y if isinstance(y, str) else impl.lib()['jsonStringify']([y, 4], None)
        ctx.states += 1
        if not isinstance(failures, list):
            ctx.fail('consumer', f'unittestDeepEqual({a}, {b}) leaves {failures!r}')
        if tx == ty:
            if failures:
                ctx.fail('consumer', f'unittestDeepEqual({a}, {b}) fails with {failures!r}')
            continue
        # the shown lines are those of the difference, in order
        lines = [line for failure in failures for line in failure if line[:4] in ('--- ', '+++ ')]
        diffs = options['globals']['diffLines']([tx, ty], options)
        want = [('--- ' if d['type'] == 'Remove' else '+++ ') + line for d in diffs if d['type'] != 'Identical' for line in d['lines']]
        if len(failures) != 1 or lines != want or problem(diffs, lines_of(tx), lines_of(ty)):
            ctx.fail('consumer', f'unittestDeepEqual({a}, {b}) fails with {failures!r}, the differences are {diffs!r}')
        ctx.outcome(lines)


# ---------------------------------------------------------------------------------------------------------------
# shipped scripts
# ---------------------------------------------------------------------------------------------------------------

def gen_shipped():
    for ix in range(len(shipped())):
        yield [ix]


def run_shipped(case, ctx):
    name = shipped()[case[0]]
    diff_lines()
    text = _STATE['fetch']({'url': '/include/' + name})
    for source in (text, text.replace('\n', '\r\n'), text.splitlines()):
        model = impl.parse_script(source)
        impl.validate_script(copy.deepcopy(model))
        warnings = impl.lint_script(model)
        ctx.states += 1
        if warnings:
            ctx.fail('lint', f'{name}: {warnings}')
        if not model['statements']:
            ctx.fail('empty', name)
    # the command line loads and checks it
    for flags in ([], ['-d']):
        status, output = run_main([*flags, '-c', f"include <{name}>\nsystemLog('loaded')"])
        if status or 'loaded' not in output.splitlines() or 'warning' in output.replace('Static analysis "-c 1" ... OK', ''):
            ctx.fail('load', f'include <{name}> {flags} ends with {status!r}: {output!r}')
    status, output = run_main(['-s', os.path.join(include_dir(), name)])
    if status:
        ctx.fail('static', f'{name}: {output}')
    ctx.outcome(name)


def spaces(tier):
    deep = tier == 'thorough'
    out = [
        Space('shipped', gen_shipped, run_shipped, 'every shipped script: parse, validate, lint, load through the command line'),
        Space('cli', gen_cli, run_cli, 'all pairs of up to 3 lines over 2 letters, as arrays and texts, through the command line and fresh scripts'),
        Space('consumer', gen_consumer, run_consumer, f'unittestDeepEqual on all pairs of {len(VALUES)} values'),
        Space('texts', gen_texts(4 if not deep else 5), run_texts, f'all pairs of texts of up to {5 if deep else 4} characters of a, b, LF, CR', sharded=True),
        Space('endings', gen_endings, run_endings, 'all pairs of up to 4 lines over 2 letters in 7 forms each (arrays, LF, CRLF, mixed, arrays of texts)'),
        Space('blocks', gen_blocks(deep), run_blocks, 'removed, added, kept, replaced and moved blocks of every size up to 66 and around 80, 100, 128, 200, 256 (1000) lines', cpu=300.0),
        Space('edits', gen_edits(deep), run_edits, 'texts of up to 40 lines of 5 kinds: all single edits, pairs of edits'),
        Space('alphabets', gen_pairs(3 if not deep else 4, 4, False, list(range(len(ALPHABETS)))), run_pairs, f'all pairs of up to {4 if deep else 3} lines over {len(ALPHABETS)} alphabets of 4 lines', sharded=True)
    ]
    if deep:
        out.append(Space('pairs', gen_pairs(6, 3, False, [0]), run_pairs, 'all pairs of up to 6 lines over 3 letters', sharded=True))
        out.append(Space('pairs7', gen_pairs(7, 3, True, [0]), run_pairs, 'all pairs of up to 7 lines over 3 letters, up to renaming of the letters', sharded=True))
    else:
        out.append(Space('pairs', gen_pairs(5, 3, False, [0]), run_pairs, 'all pairs of up to 5 lines over 3 letters', sharded=True))
        out.append(Space('pairs6', gen_pairs(6, 3, True, [0]), run_pairs, 'all pairs of up to 6 lines over 3 letters, up to renaming of the letters', sharded=True))
    return out
