"""C10: source layout does not change the parsed program."""

import copy
import glob
import itertools
import os

import bare_script

from mc import impl, prog
from mc.core import Space

PROPERTY = 'C10'
LEVEL = 'exploration'
RULE = ('every base program of the listed finite families x every listed layout deviation (alone, in pairs, or in every combination) is parsed by parse_script and '
        'the model compared with the model of the plain layout; distinct = distinct (deviation kind, line kind) combinations that were applied')
ASSUMPTIONS = [
    'a space is allowed at a gap exactly if inserting one there leaves the model of the plain layout unchanged',
    'a break at the very start or end of a logical line is not a layout of the same line'
]


# ---------------------------------------------------------------------------------------------------------------
# base programs
# ---------------------------------------------------------------------------------------------------------------

# snippets: lists of logical lines (without indentation)
SNIPPETS = [
    ["x = 1"],
    ["x = a + b * -c"],
    ["x = 'a # b' + ' \\\\ '"],
    ["x = ' s  p ' + ' t '"],
    ['x = "it\'s" + [v a] + \'q\\\'s\''],
    ["systemLog(x)"],
    ["f(1, 'b', g(a), !c)"],
    ["if(a, b(), c)"],
    ["if a < 1:", "x = 2", "endif"],
    ["if a:", "elif b && c:", "y = f(1)", "else:", "z = 3", "endif"],
    ["while a > (b + 1):", "break", "endwhile"],
    ["for v in values:", "continue", "endfor"],
    ["for v, i in f(1, 2):", "x = v", "endfor"],
    ["function f():", "return", "endfunction"],
    ["function f(a, b, c...):", "return a + b", "endfunction"],
    ["async function g(a):", "x = a", "endfunction"],
    ["label:", "jump label"],
    ["jumpif (a == 1) end", "end:"],
    ["return a ** 2"],
    ["return"],
    ["include 'lib.bare'"],
    ["include <sys.bare>", "include 'b.bare'"],
    ["function h(x):", "if x:", "return x", "endif", "for a in x:", "while a:", "continue", "endwhile", "endfor", "endfunction"],
]
CURATED = [
    ["x = 1", "y = x + 2", "f(x, y)"],
    ["if a:", "x = 1", "else:", "x = 2", "endif"],
    ["for v, i in a:", "if v:", "break", "endif", "endfor"],
    ["function f(a, b...):", "return a + b", "endfunction", "f(1)"],
    ["include 'a'", "include 'b'", "x = 1", "include <c>"],
    ["while a:", "x = 'p # q \\\\'", "endwhile"],
    ["l:", "jumpif (a) l", "jump l"],
    ["if a:", "elif b:", "endif", "return f(a, -1)"],
    ["async function f():", "x = 'it\\'s'", "endfunction"],
    ["f(a, b)", "x = (1 + 2) * 3", "return"],
]


def pair_programs():
    for a in range(len(SNIPPETS)):
        yield SNIPPETS[a]
    for a in range(len(SNIPPETS)):
        for b in range(len(SNIPPETS)):
            yield SNIPPETS[a] + SNIPPETS[b]


def skeletons(n):
    for k in range(1, n + 1):
        for forest in prog.forests(k):
            body = prog.Build().body(forest)
            yield [line.strip() for line in prog.lines(body)]


def include_files():
    root = os.path.join(os.path.dirname(bare_script.__file__), 'include')
    return sorted(glob.glob(os.path.join(root, '*.bare')))


_FILES = {}


def file_lines(name):
    if name not in _FILES:
        path = [p for p in include_files() if os.path.basename(p) == name][0]
        with open(path, encoding='utf-8') as fh:
            _FILES[name] = fh.read().replace('\r\n', '\n').split('\n')
    return _FILES[name]


# ---------------------------------------------------------------------------------------------------------------
# gaps
# ---------------------------------------------------------------------------------------------------------------

def model_of(text):
    return impl.parse_script(text)


_GAPS = {}


def gaps(lines):
    """[(line, position)] where a space may be inserted; empirical, cached per program."""
    key = '\n'.join(lines)
    if key not in _GAPS:
        if len(_GAPS) > 200:
            _GAPS.clear()
        base = model_of(key)
        found = []
        for i, line in enumerate(lines):
            for p in range(1, len(line)):
                if not line[:p].strip() or not line[p:].strip():
                    continue
                trial = lines[:i] + [line[:p] + ' ' + line[p:]] + lines[i + 1:]
                try:
                    if model_of('\n'.join(trial)) == base:
                        found.append((i, p))
                except impl.BareScriptParserError:
                    pass
        _GAPS[key] = (base, found)
    return _GAPS[key]


def space_gaps(line):
    """The positions after a run of spaces outside string literals and comments (for long files)."""
    out = []
    delim = None
    p = 0
    if line.lstrip().startswith('#'):
        return out
    while p < len(line):
        ch = line[p]
        if delim:
            if ch == '\\':
                p += 1
            elif ch == delim:
                delim = None
        elif ch in '\'"':
            delim = ch
        elif ch == '[':
            delim = ']'
        elif ch == ' ' and line[:p].strip() and line[p:].strip():
            out.append(p)
        p += 1
    return out


# ---------------------------------------------------------------------------------------------------------------
# deviations
# ---------------------------------------------------------------------------------------------------------------

INDENTS = ['', ' ', '\t', '    ', ' \t ', '\x0b', '\x0c ']
TRAILS = ['', ' ', '\t', '  \t ', '\x0c', '\x0b ']
INSERTS = ['', ' ', '\t', '# comment', '  # comment', '\t#', '# ends with \\', '# \'quote "', '#x = 1', '# if a:', '   ## \\ ']
INNERS = [(), ('',), ('# c',), ('  ', '# c \\'), ('\t# x = 1', '')]
CONT_INDENTS = ['', '    ', '\t']
BREAK_TRAILS = ['', '  ', '\t', '\x0b', '\x0c', ' \x0c\t']


class Layout:
    """A rendering of logical lines: indentation, trailing space, breaks, inserted lines, line ends, chunk cuts."""

    def __init__(self, lines):
        self.lines = lines
        self.indent = {}
        self.trail = {}
        self.insert = {}
        self.breaks = {}
        self.eol = '\n'
        self.eols = {}
        self.cuts = None
        self.final = True
        self.how = 'list'

    def physical(self):
        out = []
        for i, line in enumerate(self.lines):
            out.extend(self.insert.get(i, ()))
            text = self.indent.get(i, '') + line
            shift = len(text) - len(line)
            pieces = []
            last = 0
            for p, inner, cont, btrail in sorted(self.breaks.get(i, ())):
                pieces.append((text[last:p + shift], inner, cont, btrail))
                last = p + shift
            rest = text[last:] + self.trail.get(i, '')
            prefix = ''
            for part, inner, cont, btrail in pieces:
                out.append(prefix + part + '\\' + btrail)
                out.extend(inner)
                prefix = cont
            out.append(prefix + rest)
        out.extend(self.insert.get(len(self.lines), ()))
        return out

    def source(self):
        phys = self.physical()
        ends = [self.eols.get(i, self.eol) for i in range(len(phys))]
        if not self.final:
            ends[-1] = ''
        whole = [line + end for line, end in zip(phys, ends)]
        if self.cuts is None:
            return ''.join(whole)
        chunks, current = [], []
        for i, line in enumerate(whole):
            current.append((phys[i], ends[i]))
            if i in self.cuts or i == len(whole) - 1:
                # a chunk may or may not carry its final line end
                body = ''.join(a + b for a, b in current[:-1]) + current[-1][0]
                chunks.append(body if self.how != 'newline' else body + current[-1][1])
                current = []
        if self.how == 'tuple':
            return tuple(chunks)
        if self.how == 'generator':
            return (c for c in chunks)
        return chunks


def deviations(lines, break_gaps, full=True):
    """Every single deviation, as (kind, line, apply)."""
    n = len(lines)
    for i in range(n):
        for s in (INDENTS[1:] if full else INDENTS[1:4]):
            yield ('indent', i, s)
        for s in (TRAILS[1:] if full else TRAILS[1:3]):
            yield ('trail', i, s)
    for i in range(n + 1):
        for s in (INSERTS if full else INSERTS[:7:2]):
            yield ('insert', i, s)
    for i, p in break_gaps:
        if full:
            for inner in INNERS:
                for cont in CONT_INDENTS:
                    yield ('break', i, [p, list(inner), cont, ''])
            for btrail in BREAK_TRAILS[1:]:
                yield ('break', i, [p, [], '', btrail])
        else:
            yield ('break', i, [p, [], '  ', ''])
            yield ('break', i, [p, ['# c', ''], '', ' '])
    for i in range(n):
        yield ('crlf', i, None)
        if i < n - 1:
            for how in ('list', 'tuple', 'generator', 'newline'):
                yield ('cut', i, how)
    yield ('allcrlf', None, None)
    yield ('nofinal', None, None)
    yield ('chunks', None, 'list')
    yield ('chunks', None, 'newline')
    yield ('allindent', None, '\t')
    yield ('alltrail', None, ' \t')
    yield ('allinsert', None, '  # c \\')
    yield ('allinsert', None, '')
    yield ('allbreak', None, [[], '    ', ''])
    yield ('allbreak', None, [['', '# c'], '', '  '])


def apply(layout, dev, break_gaps):
    kind, i, arg = dev
    n = len(layout.lines)
    if kind == 'indent':
        layout.indent[i] = arg
    elif kind == 'trail':
        layout.trail[i] = arg
    elif kind == 'insert':
        layout.insert.setdefault(i, []).append(arg)
    elif kind == 'break':
        entry = (arg[0], tuple(arg[1]), arg[2], arg[3])
        if not any(b[0] == arg[0] for b in layout.breaks.get(i, ())):
            layout.breaks.setdefault(i, []).append(entry)
    elif kind == 'crlf':
        layout.eols[i] = '\r\n'
    elif kind == 'cut':
        layout.cuts = (layout.cuts or set()) | {i}
        layout.how = arg
    elif kind == 'allcrlf':
        layout.eol = '\r\n'
    elif kind == 'nofinal':
        layout.final = False
    elif kind == 'chunks':
        layout.cuts = set(range(200))
        layout.how = arg
    elif kind == 'allindent':
        for k in range(n):
            layout.indent[k] = arg
    elif kind == 'alltrail':
        for k in range(n):
            layout.trail[k] = arg
    elif kind == 'allinsert':
        for k in range(n + 1):
            layout.insert.setdefault(k, []).append(arg)
    elif kind == 'allbreak':
        for k, p in break_gaps:
            if not any(b[0] == p for b in layout.breaks.get(k, ())):
                layout.breaks.setdefault(k, []).append((p, tuple(arg[0]), arg[1], arg[2]))


def compare(layout, base, ctx, what):
    src = layout.source()
    shown = src if isinstance(src, str) else '(chunks)'
    try:
        model = impl.parse_script(src)
    except impl.BareScriptParserError as exc:
        layout2 = layout.physical()
        ctx.fail('layout', f'{what}: {exc}\nphysical lines {layout2}\n{shown}')
        return
    ctx.states += 1
    if model != base:
        ctx.fail('layout', f'{what}: a different model\nphysical lines {layout.physical()}\ngives {model}\nexpected {base}')


def run_singles(case, ctx):
    lines, full = case
    base, brk = gaps(lines)
    for dev in deviations(lines, brk, full):
        layout = Layout(lines)
        apply(layout, dev, brk)
        compare(layout, base, ctx, f'{lines} with {dev}')
        ctx.outcome((dev[0], dev[2] if dev[0] != 'break' else dev[2][1:], lines[dev[1]].split(' ')[0] if isinstance(dev[1], int) and dev[1] < len(lines) else ''))


def gen_pairs_programs():
    for lines in pair_programs():
        yield [lines, True]


def gen_skeletons(n):
    def gen(w, k):
        for idx, lines in enumerate(skeletons(n)):
            if idx % k == w:
                yield idx, [lines, False]
    return gen


def gen_pairs(full):
    def gen(w, n):
        idx = 0
        for c, lines in enumerate(CURATED):
            _, brk = gaps(lines)
            devs = list(deviations(lines, brk, full))
            for first in range(len(devs)):
                if idx % n == w:
                    yield idx, [c, first, full]
                idx += 1
    return gen


def run_pairs(case, ctx):
    c, first, full = case
    lines = CURATED[c]
    base, brk = gaps(lines)
    devs = list(deviations(lines, brk, full))
    for second in range(first, len(devs)):
        layout = Layout(lines)
        apply(layout, devs[first], brk)
        apply(layout, devs[second], brk)
        compare(layout, base, ctx, f'{lines} with {devs[first]} and {devs[second]}')
    ctx.outcome((c, devs[first]))


def gen_triples():
    for c in range(len(CURATED)):
        lines = CURATED[c]
        _, brk = gaps(lines)
        devs = list(deviations(lines, brk, False))
        for first in range(len(devs)):
            for second in range(first + 1, len(devs)):
                yield [c, first, second]


def run_triples(case, ctx):
    c, first, second = case
    lines = CURATED[c]
    base, brk = gaps(lines)
    devs = list(deviations(lines, brk, False))
    for third in range(second + 1, len(devs)):
        layout = Layout(lines)
        for d in (first, second, third):
            apply(layout, devs[d], brk)
        compare(layout, base, ctx, f'{lines} with {devs[first]}, {devs[second]} and {devs[third]}')
    ctx.outcome(case[:2])


# every subset of breaks of one line, of cuts, of line ends; every assignment of indentation

BREAK_LINES = [
    ["x = f(a, -b) + 'c d'"], ["function f(a, b...):", "endfunction"], ["for v , i in f(a):", "endfor"], ["if a && (b):", "endif"], ["jumpif (a + 1) l", "l:"],
    ["return a ** - b"], ["async function f( a ):", "endfunction"], ["include  'x y'"], ["x = [a b] + \" '\""], ["f()"],
]


def gen_subsets():
    for b in range(len(BREAK_LINES)):
        lines = BREAK_LINES[b]
        _, brk = gaps(lines)
        own = [g for g in brk if g[0] == 0]
        for mask in range(0, 1 << min(len(own), 15), 64):
            yield ['breaks', b, mask]
    for c in range(len(CURATED)):
        n = len(CURATED[c])
        for how in ('list', 'newline', 'tuple', 'generator'):
            yield ['cuts', c, how]
        yield ['eols', c, None]
        for style in range(3 ** min(2, n)):
            yield ['indents', c, style]


def run_subsets(case, ctx):
    kind, c, arg = case
    if kind == 'breaks':
        lines = BREAK_LINES[c]
        base, brk = gaps(lines)
        own = [g for g in brk if g[0] == 0][:15]
        for mask in range(arg, min(arg + 64, 1 << len(own))):
            for inner, cont, btrail in (((), '', ''), (('', '# c'), '\t', ' ')):
                layout = Layout(lines)
                layout.breaks[0] = [(p, inner, cont, btrail) for k, (_, p) in enumerate(own) if mask >> k & 1]
                layout.indent[0] = '  ' if mask & 1 else ''
                compare(layout, base, ctx, f'{lines} breaks {mask:b}')
        ctx.outcome((c, arg))
        return
    lines = CURATED[c]
    base, _ = gaps(lines)
    n = len(lines)
    if kind == 'cuts':
        for mask in range(1 << n):
            for crlf in ('\n', '\r\n'):
                layout = Layout(lines)
                layout.cuts = {k for k in range(n) if mask >> k & 1}
                layout.how = arg
                layout.eol = crlf
                compare(layout, base, ctx, f'{lines} cuts {mask:b} {arg}')
    elif kind == 'eols':
        for mask in range(1 << n):
            for final in (True, False):
                layout = Layout(lines)
                layout.eols = {k: '\r\n' for k in range(n) if mask >> k & 1}
                layout.final = final
                compare(layout, base, ctx, f'{lines} CRLF {mask:b}')
    else:
        fixed = [['', ' ', '\t'][arg // 3 ** k % 3] for k in range(min(2, n))]
        for rest in itertools.product(['', '  ', '\t'], repeat=n - len(fixed)):
            layout = Layout(lines)
            layout.indent = dict(enumerate(fixed + list(rest)))
            compare(layout, base, ctx, f'{lines} indents')
    ctx.outcome(case)


# shipped scripts

def gen_files(deep):
    for path in include_files():
        name = os.path.basename(path)
        n = len(file_lines(name))
        for i in range(n + 1):
            yield [name, i]
        for how in ('crlf', 'chunks', 'newline', 'tabs', 'none', 'trail', 'comments', 'blanks', 'breaks', 'breaks-comments'):
            yield [name, how]
    if deep:
        for path in include_files():
            name = os.path.basename(path)
            for i in range(0, len(file_lines(name)), 3):
                yield [name, ['cut', i]]


_BASE = {}


def run_files(case, ctx):
    name, what = case
    lines = file_lines(name)
    if name not in _BASE:
        _BASE[name] = impl.parse_script('\n'.join(lines))
    base = _BASE[name]

    def same(src, how):
        ctx.states += 1
        try:
            model = impl.parse_script(src)
        except impl.BareScriptParserError as exc:
            ctx.fail('file', f'{name} {what} {how}: {exc}')
            return
        if model != base:
            ctx.fail('file', f'{name} {what} {how}: a different model')

    if isinstance(what, int):
        i = what
        same('\n'.join(lines[:i] + ['  # inserted \\', ''] + lines[i:]), 'insert')
        if i < len(lines):
            for p in space_gaps(lines[i]):
                same('\n'.join(lines[:i] + [lines[i][:p] + ' \\', '# comment', '  ' + lines[i][p:]] + lines[i + 1:]), f'break at {p}')
            if lines[i].strip() and not lines[i].rstrip().endswith('\\'):
                same('\n'.join(lines[:i] + ['\t ' + lines[i].strip() + ' \t'] + lines[i + 1:]), 'indent')
        ctx.outcome((name, 'line'))
        return
    continued = [ln.rstrip().endswith('\\') and not ln.lstrip().startswith('#') for ln in lines]
    if what == 'crlf':
        same('\r\n'.join(lines), '')
    elif what == 'chunks':
        same(lines, '')
        same(['\n'.join(lines[i:i + 7]) for i in range(0, len(lines), 7)], '')
    elif what == 'newline':
        same([ln + '\n' for ln in lines], '')
        same((ln + '\r\n' for ln in lines), '')
    elif what == 'tabs':
        same('\n'.join('\t' + ln.lstrip() for ln in lines), '')
    elif what == 'none':
        same('\n'.join(ln.strip() for ln in lines), '')
    elif what == 'trail':
        same('\n'.join(ln + '  \t' for ln in lines), '')
    elif what == 'comments':
        same('\n'.join(ln + '\n # c \\' for ln in lines), '')
    elif what == 'blanks':
        same('\n\n \n'.join(lines), '')
    elif isinstance(what, list):
        i = what[1]
        same(['\n'.join(lines[:i]), '\n'.join(lines[i:])], '')
        same(['\n'.join(lines[:i]) + '\n', '\r\n'.join(lines[i:]) + '\r\n'], '')
    else:
        inner = '\n' if what == 'breaks' else '\n# c\n\n'
        out = []
        for ln in lines:
            last = 0
            text = ''
            for p in space_gaps(ln):
                text += ln[last:p] + ' \\' + inner
                last = p
            out.append(text + ln[last:])
        same('\n'.join(out), '')
    _ = continued
    ctx.outcome((name, str(what)))


# determinism and state between calls

BROKEN = [
    ["if a:"], ["function f():", "x = 1"], ["x = 1 \\"], ["endif"], ["while a:", "break"], ["x = (1"], ["for v in a:", "if v:", "endfor"], ["function f():", "if a:", "endfunction"],
    ["x = 'a"], ["else:"], ["f(1,)"], ["function f():", "function g():"], ["include 'a'", "x ="],
]


def wreck(value):
    """Mutate every container of a model in place."""
    stack = [value]
    while stack:
        v = stack.pop()
        if isinstance(v, dict):
            stack.extend(v.values())
            v['wrecked'] = True
        elif isinstance(v, list):
            stack.extend(v)
            v.append('wrecked')


def gen_state():
    for a in range(len(SNIPPETS)):
        for b in range(len(SNIPPETS)):
            yield ['script', a, b]
        for b in range(len(BROKEN)):
            yield ['broken', a, b]
    exprs = range(len(EXPRS))
    for a in exprs:
        for b in exprs:
            yield ['expr', a, b]


EXPRS = ['a', '1', "'s'", 'a + b', 'f(a, b)', '-(a)', 'a ** b * c', '!f()', '"x" == [y z]', 'if(a, b, c)', '(a', 'a +', '', 'a b', "'x", 'f(1', ')']


def run_state(case, ctx):
    kind, a, b = case
    if kind == 'expr':
        def parse(i):
            try:
                return ('model', impl.parse_expression(EXPRS[i]))
            except impl.BareScriptParserError as exc:
                return ('error', exc.error, exc.line, exc.column_number, exc.line_number, str(exc))
        first = parse(a)
        keep = copy.deepcopy(first)
        parse(b)
        second = parse(a)
        if second != keep:
            ctx.fail('state', f'parse_expression({EXPRS[a]!r}) changed from {keep} to {second} after parsing {EXPRS[b]!r}')
        if first[0] == 'model':
            wreck(first[1])
            third = parse(a)
            if third != keep or second != keep:
                ctx.fail('state', f'parse_expression({EXPRS[a]!r}) shares state with an earlier result: {third}')
        ctx.outcome(case)
        return
    lines = SNIPPETS[a]
    text = '\n'.join(lines) + '\n'
    first = impl.parse_script(text)
    keep = copy.deepcopy(first)
    other = BROKEN[b] if kind == 'broken' else SNIPPETS[b]
    try:
        om = impl.parse_script('\n'.join(other))
        if kind == 'script':
            wreck(om)
    except impl.BareScriptParserError:
        pass
    ctx.states += 1
    second = impl.parse_script(text)
    if second != keep or first != keep:
        ctx.fail('state', f'the model of {lines} changed after parsing {other}: {second}, was {keep}')
    wreck(first)
    third = impl.parse_script(lines)
    if third != keep or second != keep:
        ctx.fail('state', f'the model of {lines} shares state with an earlier result: {third}')
    for start in (1, 7, 1000):
        if impl.parse_script(text, start) != keep:
            ctx.fail('state', f'the model of {lines} depends on the start line number {start}')
    ctx.outcome(case)


def spaces(tier):
    deep = tier == 'thorough'
    return [
        Space('singles', gen_pairs_programs, run_singles, f'{len(SNIPPETS)} statement snippets and all ordered pairs x every single deviation'),
        Space('skeletons', gen_skeletons(2 if not deep else 3), run_singles, 'every control skeleton of <= 2 (3) nodes x every single deviation of a reduced set', sharded=True, cpu=60.0),
        Space('subsets', gen_subsets, run_subsets, 'every subset of breaks of 10 lines, of cuts and CRLF ends and every indentation of 10 programs'),
        Space('state', gen_state, run_state, 'all ordered pairs of parses, incl. failing parses and wrecked results'),
        Space('pairs', gen_pairs(True), run_pairs, f'{len(CURATED)} programs x all pairs of deviations', sharded=True, cpu=120.0),
        Space('files', lambda: gen_files(deep), run_files, 'the shipped scripts: deviations at every line and every inter-token space, and of all lines together'),
        Space('triples', gen_triples, run_triples, f'{len(CURATED)} programs x all triples of a reduced set of deviations', cpu=120.0),
    ]
