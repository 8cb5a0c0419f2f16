"""C06: the parser is total and its diagnostics point at the offending source."""

import glob
import itertools
import json
import os
import re

from mc import impl
from mc.core import Space

PROPERTY = 'C06'
LEVEL = 'exploration'
RULE = ('every text of the listed finite spaces is given to parse_script; the outcome is judged by an independent block-structure automaton, '
        'a line-accounting monitor and a position/caret monitor; distinct = distinct (accepted | error text, line, column) outcomes')
ASSUMPTIONS = [
    'a fault is attributed to the fault character, the blanks directly before it, or the opening parenthesis of a group that encloses it',
    'a block left open may be reported at the line of any block that is open there'
]


# ---------------------------------------------------------------------------------------------------------------
# reference: logical lines
# ---------------------------------------------------------------------------------------------------------------

def logical_lines(text):
    """[(first physical index, text)], plus the pending continuation (index, text) at the end or None."""
    out = []
    parts, first = [], None
    for ix, line in enumerate(text.replace('\r\n', '\n').split('\n')):
        stripped = line.strip()
        if stripped == '' or stripped.startswith('#'):
            continue
        if first is None:
            first = ix
        if stripped.endswith('\\'):
            parts.append(stripped[:-1].strip() if parts else line.rstrip()[:-1].rstrip())
            continue
        if parts:
            parts.append(stripped)
            out.append((first, ' '.join(parts)))
        else:
            out.append((first, line))
        parts, first = [], None
    return out, ((first, ' '.join(parts)) if parts else None)


# ---------------------------------------------------------------------------------------------------------------
# monitors
# ---------------------------------------------------------------------------------------------------------------

def caret_check(ctx, exc, text):
    """The caret of the message stands under the character at column_number."""
    message = str(exc).split('\n')
    carets = [ix for ix, m in enumerate(message) if re.fullmatch(r' *\^', m)]
    if not carets or carets[-1] == 0:
        ctx.fail('caret', f'{text!r}: no caret line in message {str(exc)!r}')
        return
    shown, caret = message[carets[-1] - 1], len(message[carets[-1]]) - 1
    line, col = exc.line, exc.column_number
    # the shown text is the line or a part of it between elision marks
    core, offset = shown, 0
    if line != shown:
        if core.startswith('... ') and core[4:].removesuffix(' ...') in line:
            core, offset = core[4:], 4
        if core.endswith(' ...') and core not in line:
            core = core[:-4]
        elif core.endswith(' ...') and core[:-4] in line and len(core) > 100:
            core = core[:-4]
        if core not in line:
            ctx.fail('elision', f'{text!r}: the shown line {shown!r} is not part of the line {line!r}')
            return
    at = caret - offset
    # some placement of the shown part puts the caret on the column
    start = col - 1 - at
    if start < 0 or line[start:start + len(core)] != core or not 0 <= at <= len(core):
        ctx.fail('caret', f'{text!r}: column {col} of {line!r} but the caret is under offset {caret} of {shown!r}')
    if len(line) <= 120 and shown != line:
        ctx.fail('elision', f'{text!r}: a short line was elided: {shown!r}')


def error_check(ctx, exc, text, start=1):
    """Generic position monitor; returns the 0-based physical line index of the error."""
    lines, pending = logical_lines(text)
    if pending is not None:
        lines = lines + [pending]
    starts = dict(lines)
    number = exc.line_number
    if not isinstance(number, int) or number - start not in starts:
        ctx.fail('line-number', f'{text!r} (start {start}): error {exc.error!r} has line number {number}; logical lines start at '
                                f'{[i + start for i in starts]}')
        return None
    if not isinstance(exc.line, str) or exc.line.split() != starts[number - start].split():
        ctx.fail('line-text', f'{text!r}: error {exc.error!r} at line {number} carries the text {exc.line!r}, not {starts[number - start]!r}')
    col = exc.column_number
    if not isinstance(col, int) or not 1 <= col <= len(exc.line) + 1:
        ctx.fail('column', f'{text!r}: error {exc.error!r} has column {col} in a line of {len(exc.line)} characters')
    if not exc.error or f'line number {number}' not in str(exc):
        ctx.fail('message', f'{text!r}: message {str(exc)!r} does not name line {number}')
    caret_check(ctx, exc, text)
    return number - start


def parse(text, start=1):
    try:
        return impl.parse_script(text, start), None
    except impl.BareScriptParserError as exc:
        return None, exc


# ---------------------------------------------------------------------------------------------------------------
# reference: block automaton over classified logical lines
# ---------------------------------------------------------------------------------------------------------------

NAME = r'[A-Za-z_]\w*'
CLASSES = [
    ('assign', rf'{NAME}\s*=.+'),
    ('function', rf'(async\s*)?function\s+{NAME}\s*\(.*\)\s*:'),
    ('endfunction', 'endfunction'),
    ('if', r'if\s+\S.*:'), ('elif', r'elif\s+\S.*:'), ('else', r'else\s*:'), ('endif', 'endif'),
    ('while', r'while\s+\S.*:'), ('endwhile', 'endwhile'),
    ('for', rf'for\s+{NAME}(\s*,\s*{NAME})?\s+in\s+.*:'), ('endfor', 'endfor'),
    ('break', 'break'), ('continue', 'continue'),
    ('label', rf'{NAME}\s*:'), ('jump', rf'(jump|jumpif\s*\(.*\))\s+{NAME}'), ('return', r'return(\s+.*)?'),
    ('include', r"include\s+('.*'|<.*>)"),
]
CLASSES = [(k, re.compile(r + r'\Z')) for k, r in CLASSES]


def classify(line):
    s = line.strip()
    for kind, rx in CLASSES:
        if rx.match(s):
            return kind
    return 'expr'


CLOSERS = {'endif': 'if', 'endwhile': 'while', 'endfor': 'for'}


def automaton(kinds):
    """None if the block structure is well formed, else (index of the offending line or of an unclosed block, allowed indexes)."""
    blocks = []     # [kind, index, has_else]
    func = None     # (index, block floor)
    for ix, kind in enumerate(kinds):
        floor = func[1] if func else 0
        if kind == 'function':
            if func:
                return {ix}
            func = (ix, len(blocks))
        elif kind == 'endfunction':
            if not func:
                return {ix}
            if len(blocks) > floor:
                return {b[1] for b in blocks[floor:]}
            func = None
        elif kind in ('if', 'while', 'for'):
            blocks.append([kind, ix, False])
        elif kind in ('elif', 'else'):
            if len(blocks) <= floor or blocks[-1][0] != 'if' or blocks[-1][2]:
                return {ix}
            if kind == 'else':
                blocks[-1][2] = True
        elif kind in CLOSERS:
            if len(blocks) <= floor or blocks[-1][0] != CLOSERS[kind]:
                return {ix}
            blocks.pop()
        elif kind in ('break', 'continue'):
            if not any(b[0] != 'if' for b in blocks[floor:]):
                return {ix}
        elif kind == 'bad':
            return {ix}
    if blocks or func:
        return {b[1] for b in blocks} | ({func[0]} if func else set())
    return None


# ---------------------------------------------------------------------------------------------------------------
# A. sequences of line kinds
# ---------------------------------------------------------------------------------------------------------------

KIND_TEXT = {
    'expr': 'mark%d()', 'assign': 'var%d = val%d', 'function': 'function fun%d(par%d):', 'endfunction': 'endfunction',
    'if': 'if con%d:', 'elif': 'elif con%d:', 'else': 'else:', 'endif': 'endif', 'while': 'while con%d:', 'endwhile': 'endwhile',
    'for': 'for ele%d in arr%d:', 'endfor': 'endfor', 'break': 'break', 'continue': 'continue', 'return': 'return ret%d',
    'label': 'lab%d:', 'jump': 'jump lab%d', 'jumpif': 'jumpif (con%d) lab%d', 'include': "include 'url%d'", 'sysinc': 'include <sys%d>',
    'blank': '', 'comment': '  # com', 'bad': 'bad%d + @'
}
ALL_KINDS = list(KIND_TEXT)
BLOCK_KINDS = ['expr', 'function', 'endfunction', 'if', 'elif', 'else', 'endif', 'while', 'endwhile', 'for', 'endfor', 'break']


def kind_line(kind, ix):
    template = KIND_TEXT[kind]
    return template.replace('%d', str(ix))


def gen_kinds(kinds, lengths):
    def gen(w, n):
        idx = 0
        for k in lengths:
            for combo in itertools.product(range(len(kinds)), repeat=k):
                if idx % n == w:
                    yield idx, [kinds[i] for i in combo]
                idx += 1
    return gen


def run_kinds(case, ctx):
    lines = [kind_line(kind, ix) for ix, kind in enumerate(case)]
    text = '\n'.join(lines)
    allowed = automaton(case)
    model, exc = parse(text)
    if allowed is None:
        if exc is not None:
            ctx.fail('rejected', f'{text!r} is well formed but rejected: {exc}')
            return
        dump = json.dumps(model)
        for ix, (kind, line) in enumerate(zip(case, lines)):
            for token in re.findall(r'[a-z]+\d+', line):
                if f'"{token}"' not in dump:
                    ctx.fail('dropped', f'{text!r}: line {ix + 1} ({line!r}) left no {token} in the model {dump}')
        ctx.outcome('ok')
        # a start line number changes nothing
        if impl.parse_script(text, 7) != model:
            ctx.fail('start-line', f'{text!r}: the model depends on the start line number')
        return
    if exc is None:
        ctx.fail('accepted', f'{text!r} is accepted but line {sorted(i + 1 for i in allowed)} is in error: {json.dumps(model)}')
        return
    ix = error_check(ctx, exc, text)
    ctx.outcome((exc.error, exc.line_number, exc.column_number))
    if ix is not None and ix not in allowed:
        ctx.fail('wrong-line', f'{text!r}: error {exc.error!r} at line {exc.line_number}, expected one of {sorted(i + 1 for i in allowed)}')
    _, exc2 = parse(text, 101)
    if exc2 is None or (exc2.error, exc2.line, exc2.column_number, exc2.line_number) != \
            (exc.error, exc.line, exc.column_number, exc.line_number + 100):
        ctx.fail('start-line', f'{text!r}: with start line 101 the error is {exc2} instead of {exc} shifted by 100')


# ---------------------------------------------------------------------------------------------------------------
# B. a fault at every column of every statement kind
# ---------------------------------------------------------------------------------------------------------------

FAULT_TEMPLATES = [
    '%s', 'x = %s', '    longName  =  %s', 'return %s', '\treturn   %s', 'jumpif (%s) lab', '  jumpif  (%s)  lab', 'if %s:', '    if  %s  :',
    'while %s:', '  while   %s :', 'for v in %s:', '  for v , i  in  %s :', 'fn(%s)', 'x = fn(y, %s)', 'elif %s:', '   elif   %s  :'
]


def expression(n):
    """A valid expression of exactly n characters in which neighbouring characters differ; '' for n == 0."""
    out = []
    ix = 0
    while len(out) < n:
        left = n - len(out)
        if left <= 3:
            out.extend('abc'[:left] if ix % 2 else 'xyz'[:left])
            break
        out.extend('qrstuvwh'[ix % 8] + str(ix % 10))
        left -= 2
        if left >= 2:
            out.extend('+-*/%<>'[ix % 7])
        ix += 1
    text = ''.join(out)
    return text


def gen_faults(lengths):
    def gen(w, n):
        idx = 0
        for t in range(len(FAULT_TEMPLATES)):
            for length in lengths:
                if idx % n == w:
                    yield idx, [t, length]
                idx += 1
    return gen


def prepare(template):
    if 'elif' in template:
        return 'if c:\n', '\nendif', 1
    if template.lstrip().startswith('if'):
        return '', '\nendif', 0
    if 'while' in template:
        return '', '\nendwhile', 0
    if template.lstrip().startswith('for'):
        return '', '\nendfor', 0
    return '', '', 0


def run_faults(case, ctx):
    t, length = case
    template = FAULT_TEMPLATES[t]
    pre, post, line_ix = prepare(template)
    expr = expression(length)
    if length and template != '%s':
        model, exc = parse(pre + template.replace('%s', expr) + post)
        if exc is not None:
            ctx.fail('rejected', f'{template.replace("%s", expr)!r} is well formed but rejected: {exc}')
            return
    base = template.index('%s')
    for col in range(length):
        line = template.replace('%s', expr[:col] + '@' + expr[col + 1:])
        text = pre + line + post
        _, exc = parse(text)
        if exc is None:
            ctx.fail('accepted', f'{text!r} is accepted although column {base + col + 1} holds @')
            continue
        ix = error_check(ctx, exc, text)
        if ix is not None and ix != line_ix:
            ctx.fail('wrong-line', f'{text!r}: error at line {exc.line_number}, the fault is in line {line_ix + 1}')
        lo = base + col
        while lo > 0 and line[lo - 1] in ' \t':
            lo -= 1
        if not lo + 1 <= exc.column_number <= base + col + 1:
            ctx.fail('wrong-column', f'{text!r}: error column {exc.column_number}, the fault is at column {base + col + 1}')
        ctx.states += 1
    ctx.outcome((t, length))


# the same with blanks, groups and calls around the fault
STRUCTURES = ['a + @', '@ + a', 'a @ b', '(a @ b)', '(a + @)', 'f(a, @)', 'f(@, a)', 'f(a @ b)', 'f(a,, b)', '((a) + (b @ c))', "'s' @", '[n m] @ c',
              'a  +   @', '  @', '(a', 'f(a', 'f(a,', 'a +', "'abc", '"abc', 'a b', 'a + (b', 'f(a b)', 'f(a) g(b)', '!', '-', 'a == == b', 'a + ) b', '()',
              'a ++', 'f(,)', '[', '[a', 'f(a))', '(a))', '1 2', "'a' 'b'", 'a.b', 'a;b', '1a', 'f(a,)', '!@', '-@', '-(a', '!(@)', 'a ? b', 'a & b', 'a | b', '$a']


def gen_structures():
    for t in range(len(FAULT_TEMPLATES)):
        for s in range(len(STRUCTURES)):
            for pad in range(0, 4):
                for lead in range(0, 4):
                    yield [t, s, pad, lead]


FILLERS = ['', 'aaaa1 + ', 'bb2 * ' * 12, 'cc3 - d4 + ' * 16]


def run_structures(case, ctx):
    t, s, pad, lead = case
    template = FAULT_TEMPLATES[t]
    pre, post, line_ix = prepare(template)
    body = FILLERS[pad] + STRUCTURES[s]
    above = ['', '# comment\n\n', 'p = 1\n', 'q()\n# x\nr = f(1, 2)\n\n'][lead]
    line = template.replace('%s', body)
    text = above + pre + line + post
    _, exc = parse(text)
    if exc is None:
        ctx.fail('accepted', f'{text!r} is accepted although {body!r} is not an expression')
        return
    ix = error_check(ctx, exc, text)
    ctx.outcome((exc.error, exc.column_number, t))
    if ix is not None and ix != line_ix + above.count('\n'):
        ctx.fail('wrong-line', f'{text!r}: error at line {exc.line_number}, the fault is in line {line_ix + above.count(chr(10)) + 1}')
    at = body.find('@')
    if at >= 0 and ix is not None:
        # the fault, the blanks before it, or an enclosing open parenthesis (with the blanks before it)
        start = template.index('%s')
        ok = set()
        stack = []
        for i, c in enumerate(line):
            if i >= start + at:
                break
            if c == '(':
                stack.append(i)
            elif c == ')' and stack:
                stack.pop()
        for pos in stack + [start + at]:
            ok.add(pos + 1)
            while pos > 0 and line[pos - 1] in ' \t':
                pos -= 1
                ok.add(pos + 1)
            # a function name or unary operators directly before the parenthesis
            while pos > 0 and (line[pos - 1].isalnum() or line[pos - 1] in '!-'):
                pos -= 1
                ok.add(pos + 1)
        if exc.column_number not in ok:
            ctx.fail('wrong-column', f'{text!r}: error column {exc.column_number}, the fault is at column {start + at + 1} (accepted {sorted(ok)})')


# ---------------------------------------------------------------------------------------------------------------
# C. the error object itself: every length, every column
# ---------------------------------------------------------------------------------------------------------------

def gen_errors(lengths):
    def gen(w, n):
        for idx, length in enumerate(lengths):
            if idx % n == w:
                yield idx, length
    return gen


def run_errors(case, ctx):
    line = ''.join(f'{ix:03d},' for ix in range(case // 4 + 1))[:case]
    for col in range(1, case + 2):
        for number, prefix in ((None, None), (12, None), (3, 'Included from "x"')):
            exc = impl.BareScriptParserError('Syntax error', line, col, number, prefix)
            if (exc.error, exc.line, exc.column_number, exc.line_number) != ('Syntax error', line, col, number):
                ctx.fail('attributes', f'{exc.__dict__}')
            message = str(exc)
            if prefix is not None and not message.startswith(prefix + '\n'):
                ctx.fail('prefix', message)
            caret_check(ctx, exc, line)
            ctx.states += 1
    ctx.outcome(case)


# ---------------------------------------------------------------------------------------------------------------
# D. token soup
# ---------------------------------------------------------------------------------------------------------------

VOCAB = ['a', '=', '1', '(', ')', ':', 'if', 'while', 'for', 'in', 'function', 'return', 'jump', 'jumpif', 'include', "'u'", '<u>', '\\', '#', ',',
         'async', 'endif', 'else', 'elif', 'break', '...', '+', 'endfunction']


def generic(ctx, text, start=1):
    """Totality, position and accounting for any text. Returns the model or None."""
    model, exc = parse(text, start)
    if exc is not None:
        error_check(ctx, exc, text, start)
        ctx.outcome((exc.error, exc.column_number))
        return None
    lines, pending = logical_lines(text)
    if pending is not None:
        lines = lines + [pending]
        # a dangling continuation is either an error or still a statement
    kinds = [classify(line) for _, line in lines]
    bad = automaton(kinds)
    if bad is not None:
        ctx.fail('accepted', f'{text!r} is accepted although line {sorted(lines[i][0] + 1 for i in bad)} breaks the block structure')
        return None
    if lines and not model['statements']:
        ctx.fail('dropped', f'{text!r}: lines {lines} left no statement')
    dump = json.dumps(model)
    for (ix, line), kind in zip(lines, kinds):
        for token in words(line, kind):
            if token not in dump:
                ctx.fail('dropped', f'{text!r}: line {ix + 1} ({line!r}) left no {token!r} in the model {dump}')
    ctx.outcome(('ok', len(lines), kinds))
    return model


KEYWORDS = {'if', 'elif', 'else', 'while', 'for', 'in', 'function', 'async', 'return', 'jump', 'jumpif', 'include', 'endif', 'endwhile', 'endfor',
            'endfunction', 'break', 'continue', 'asyncfunction'}


def words(line, kind):
    """Words of a line that its statement must keep (keywords of the statement itself excluded)."""
    found = re.findall(r'[A-Za-z_][A-Za-z0-9_]*', line)
    return [w for w in found if w not in KEYWORDS]


def gen_soup(vocab, lengths, lines):
    def gen(w, n):
        idx = 0
        rows = [c for k in lengths for c in itertools.product(range(len(vocab)), repeat=k)]
        for combo in itertools.product(rows, repeat=lines):
            if idx % n == w:
                yield idx, combo
            idx += 1
    return gen


def run_soup(vocab):
    def run(case, ctx):
        generic(ctx, '\n'.join(' '.join(vocab[i] for i in row) for row in case))
        generic(ctx, '\n'.join(''.join(vocab[i] for i in row) for row in case))
    return run


SOUP_CHARS = ['a', '\\', '\n', ' ', '#', '=', '(', ')', ':', "'", '\r\n']


def gen_chars(lengths):
    def gen(w, n):
        idx = 0
        for k in lengths:
            for combo in itertools.product(range(len(SOUP_CHARS)), repeat=k):
                if idx % n == w:
                    yield idx, list(combo)
                idx += 1
    return gen


def run_chars(case, ctx):
    text = ''.join(SOUP_CHARS[i] for i in case)
    model = generic(ctx, text)
    if model is not None:
        lines, pending = logical_lines(text)
        expect = len(lines) + (pending is not None)
        if len(model['statements']) != expect:
            ctx.fail('dropped', f'{text!r}: {expect} logical lines but {len(model["statements"])} statements: {model}')


# ---------------------------------------------------------------------------------------------------------------
# E. mutations of valid programs
# ---------------------------------------------------------------------------------------------------------------

PROGRAMS = [
    '''\
# header comment
alpha = 1 + 2 * beta
function gamma(delta, epsilon...):
    if delta > 3 && zeta:
        eta('text', [iota kappa])
    elif !lambda1:
        return mu - 5
    else:
        nu = xi(1, 2.5, omicron)
    endif
    while pi < rho:
        break
    endwhile
endfunction

for sigma, tau in gamma(1):
    if sigma:
        continue
    endif
    upsilon(sigma + \\
        tau)
endfor
return alpha
''',
    '''\
include 'one.bare'
include <two.bare>
startLabel:
count = count + 1
jumpif (count < 10) startLabel
jump endLabel
deadCode()
endLabel:
async function fetchIt(urlArg):
    return systemFetch(urlArg)
endfunction
return "done \\"now\\" " + count
'''
]
MUTANT_CHARS = ['(', ')', "'", '"', '\\', ':', '=', '+', ',', '#', '@', ' ', '\n', '[', ']', '!', 'x', '.']


def shipped():
    root = os.path.dirname(os.path.abspath(impl.bare_script.__file__))
    return sorted(glob.glob(os.path.join(root, 'include', '*.bare')))


def base_text(ix):
    if ix < len(PROGRAMS):
        return PROGRAMS[ix]
    with open(shipped()[ix - len(PROGRAMS)], encoding='utf-8') as fh:
        return fh.read()


def gen_mutants(small):
    def gen(w, n):
        idx = 0
        bases = list(range(len(PROGRAMS)))
        for b in bases:
            text = base_text(b)
            for kind in ('delete', 'truncate'):
                for pos in range(len(text) + 1):
                    if idx % n == w:
                        yield idx, [b, kind, pos, 0]
                    idx += 1
            for pos in range(len(text) + 1):
                for c in range(len(MUTANT_CHARS)):
                    if idx % n == w:
                        yield idx, [b, 'insert', pos, c]
                    idx += 1
                    if idx % n == w:
                        yield idx, [b, 'replace', pos, c]
                    idx += 1
        for b in range(len(PROGRAMS) + (0 if small else len(shipped()))):
            tokens = len(re.findall(r'\w+|\s+|[^\w\s]', base_text(b)))
            for pos in range(tokens):
                for kind in ('token-delete', 'token-double', 'token-swap'):
                    if idx % n == w:
                        yield idx, [b, kind, pos, 0]
                    idx += 1
        for b in range(len(PROGRAMS) + len(shipped())):
            lines = base_text(b).count('\n')
            for pos in range(lines):
                for kind in ('line-delete', 'line-double', 'line-swap', 'line-continue', 'line-truncate'):
                    if idx % n == w:
                        yield idx, [b, kind, pos, 0]
                    idx += 1
    return gen


def mutate(text, kind, pos, c):
    if kind == 'delete':
        return text[:pos] + text[pos + 1:]
    if kind == 'truncate':
        return text[:pos]
    if kind == 'insert':
        return text[:pos] + MUTANT_CHARS[c] + text[pos:]
    if kind == 'replace':
        return text[:pos] + MUTANT_CHARS[c] + text[pos + 1:]
    if kind.startswith('token'):
        tokens = re.findall(r'\w+|\s+|[^\w\s]', text)
        if kind == 'token-delete':
            del tokens[pos]
        elif kind == 'token-double':
            tokens.insert(pos, tokens[pos])
        elif pos + 2 < len(tokens):
            tokens[pos], tokens[pos + 2] = tokens[pos + 2], tokens[pos]
        return ''.join(tokens)
    lines = text.split('\n')
    if kind == 'line-delete':
        del lines[pos]
    elif kind == 'line-double':
        lines.insert(pos, lines[pos])
    elif kind == 'line-swap' and pos + 1 < len(lines):
        lines[pos], lines[pos + 1] = lines[pos + 1], lines[pos]
    elif kind == 'line-continue':
        lines[pos] += ' \\'
    elif kind == 'line-truncate':
        lines = lines[:pos + 1]
    return '\n'.join(lines)


def run_mutants(case, ctx):
    b, kind, pos, c = case
    text = mutate(base_text(b), kind, pos, c)
    model, exc = parse(text)
    if exc is not None:
        error_check(ctx, exc, text)
        ctx.outcome((b, exc.error, exc.line_number, exc.column_number))
        return
    lines, pending = logical_lines(text)
    if pending is not None:
        lines = lines + [pending]
    kinds = [classify(line) for _, line in lines]
    bad = automaton(kinds)
    if bad is not None:
        ctx.fail('accepted', f'{kind} {pos}: {text!r} is accepted although line {sorted(lines[i][0] + 1 for i in bad)} breaks the block structure')
        return
    dump = json.dumps(model, ensure_ascii=False)
    for (ix, line), k in zip(lines, kinds):
        for token in words(line, k):
            if token not in dump:
                ctx.fail('dropped', f'{kind} {pos}: {text!r}: line {ix + 1} ({line!r}) left no {token!r} in the model')
    ctx.outcome((b, kinds))


# ---------------------------------------------------------------------------------------------------------------
# F. prepended lines, continued faults, backslash runs, depth
# ---------------------------------------------------------------------------------------------------------------

PREPEND = ['# comment', '', '   ', 'preA = 1', "preB('x')", 'preLabel:', '  # indented', 'preC = f(1) + \\\n  2']
SUBJECTS = [
    'x = 1', 'x = @', 'if a:', 'endif', 'while @:\nendwhile', 'for v in (:\nendfor', 'function f():', 'function f():\nif a:\nendfunction', 'elif a:', 'else:',
    'break', 'return 1 +', 'jumpif (@) a', 'if a:\nx()\nelif @:\nendif', 'f(', 'a = 1 \\', 'a = \\\n @', 'if a:\nelse:\nelse:\nendif', 'while a:\nendif',
    'for v in a:\n  break\nendfor\ncontinue', 'function f():\nfunction g():\nendfunction\nendfunction', 'if a:\nwhile b:\nendif', 'x = 2\nif c:\ny()\nendif',
    'endfunction', 'endwhile', 'endfor'
]


def gen_prepend(n_max):
    for s in range(len(SUBJECTS)):
        for n in range(n_max + 1):
            for combo in itertools.product(range(len(PREPEND)), repeat=n):
                for start in (1, 50):
                    yield [s, combo, start]


def run_prepend(case, ctx):
    s, combo, start = case
    subject = SUBJECTS[s]
    above = ''.join(PREPEND[i] + '\n' for i in combo)
    base_model, base_exc = parse(subject)
    model, exc = parse(above + subject, start)
    if base_exc is None:
        extra = impl.parse_script(above)['statements']
        if exc is not None or model['statements'] != extra + base_model['statements']:
            ctx.fail('prepend', f'{above + subject!r}: {exc or model} is not the model of the prefix followed by {base_model}')
        ctx.outcome('ok')
        return
    if exc is None:
        ctx.fail('accepted', f'{above + subject!r} is accepted although {subject!r} is not')
        return
    expect = (base_exc.error, base_exc.line, base_exc.column_number, base_exc.line_number + above.count('\n') + start - 1)
    got = (exc.error, exc.line, exc.column_number, exc.line_number)
    ctx.outcome(got)
    if got != expect:
        ctx.fail('prepend', f'{above + subject!r} start {start}: {got}, expected {expect}')
    error_check(ctx, exc, above + subject, start)


def gen_continued():
    for k in range(1, 7):
        for fault in range(k):
            for filler in range(4):
                for t in range(len(FAULT_TEMPLATES)):
                    yield [k, fault, filler, t]


def run_continued(case, ctx):
    k, fault, filler, t = case
    template = FAULT_TEMPLATES[t]
    pre, post, line_ix = prepare(template)
    parts = [f'n{i} +' for i in range(k)] + ['z']
    parts[fault] = parts[fault] + ' @ +'
    between = ['', '# comment\n', '\n', '  # c\n\n'][filler]
    head, tail = template.split('%s')
    body = (' \\\n' + between + '   ').join(parts)
    text = pre + head + body + tail + post
    _, exc = parse(text)
    if exc is None:
        ctx.fail('accepted', f'{text!r} is accepted')
        return
    ix = error_check(ctx, exc, text)
    ctx.outcome((case[0], case[1], t, exc.column_number))
    if ix is not None and ix != line_ix:
        ctx.fail('wrong-line', f'{text!r}: error at line {exc.line_number}, the logical line starts at {line_ix + 1}')
    at = exc.line.index('@')
    if not at - 3 <= exc.column_number <= at + 1:
        ctx.fail('wrong-column', f'{text!r}: column {exc.column_number} of {exc.line!r}, the fault is at {at + 1}')


def gen_scale(n_max):
    for n in range(0, n_max + 1):
        for shape in range(14):
            yield [shape, n]


def run_scale(case, ctx):
    shape, n = case
    m = min(n, 60)
    text = {
        0: "x = '" + '\\' * n,
        1: "x = '" + '\\' * n + "'",
        2: 'x = "' + '\\' * n + ' + a',
        3: 'x = 1 ' + '\\' * n,
        4: 'x = [' + 'a ' * n + ']',
        5: 'x = [' + ' ' * n,
        6: 'x = ' + '(' * n,
        7: 'x = ' + '(' * n + 'a' + ')' * n,
        8: 'x = ' + '-!' * n + 'a',
        9: '\n'.join('    ' * i + f'if c{i}:' for i in range(m)) + '\n' + '\n'.join('endif' for _ in range(m)),
        10: '\n'.join('    ' * i + f'while c{i}:' for i in range(m)) + '\n' + '\n'.join('endwhile' for _ in range(max(0, m - 1))),
        11: 'x = ' + 'f(' * n + ')' * n,
        12: 'x = ' + "''" * n,
        13: "include '" + "\\'" * n
    }[shape]
    generic(ctx, text)
    generic(ctx, 'if ' + text[4:] + ':\nendif' if text.startswith('x = ') else text)


# ---------------------------------------------------------------------------------------------------------------
# accounting below the line: a word added anywhere in a statement is an error or appears in the model
# ---------------------------------------------------------------------------------------------------------------

TOKEN_LINES = [
    ('', 'x = a', ''), ('', 'f ( a )', ''), ('', 'if a :', 'endif'), ('if b:', 'elif a :', 'endif'), ('if b:', 'else :', 'endif'), ('if b:', 'endif', ''),
    ('', 'while a :', 'endwhile'), ('while b:', 'endwhile', ''), ('', 'for v , i in a :', 'endfor'), ('', 'for v in a :', 'endfor'), ('for v in b:', 'endfor', ''),
    ('while b:', 'break', 'endwhile'), ('while b:', 'continue', 'endwhile'), ('', 'function g ( ) :', 'endfunction'),
    ('', 'function g ( p , q ... ) :', 'endfunction'), ('', 'async function g ( p ) :', 'endfunction'), ('function g():', 'endfunction', ''), ('', 'l :', ''),
    ('l:', 'jump l', ''), ('l:', 'jumpif ( a ) l', ''), ('', 'return', ''), ('', 'return a', ''), ('', "include 'u'", ''), ('', 'include <u>', ''),
    ('', "x = 's'", ''), ('', 'x = [ n m ]', ''), ('', 'x = ( a + b )', ''), ('', 'x = ! a', ''),
]
JUNK = ['zzq9', '8675309', "'zzq9'", 'zzq9 = 8675309', 'zzq9()', '( zzq9 )', ': zzq9', ', zzq9', '= zzq9', 'zzq9 :', '<zzq9>', '[zzq9]', 'return zzq9', '; zzq9', '"zzq9"',
        '+ zzq9', ') zzq9', '( zzq9', ': : zzq9', '... zzq9', "' zzq9", '> zzq9']


def gen_tokens(n_max):
    for t, (_, line, _) in enumerate(TOKEN_LINES):
        gaps = range(len(line.split(' ')) + 1)
        for n in range(1, n_max + 1):
            for at in itertools.combinations(gaps, n):
                for junk in itertools.product(range(len(JUNK)), repeat=n):
                    for glue in range(3):
                        yield [t, at, junk, glue]


def run_tokens(case, ctx):
    t, at, junk, glue = case
    before, line, after = TOKEN_LINES[t]
    words_ = line.split(' ')
    words_.append('')
    for gap, ix in sorted(zip(at, junk), reverse=True):
        words_.insert(gap, JUNK[ix].replace('zzq9', f'zzq{gap}').replace('8675309', f'867530{gap}'))
    sep = (' ', '  ', '')[glue]
    changed = sep.join(w for w in words_ if w) if glue < 2 else re.sub(r'(?<=\W) | (?=\W)', '', ' '.join(w for w in words_ if w))
    text = '\n'.join(part for part in (before, changed, after) if part)
    model, exc = parse(text)
    ctx.outcome((case[0], case[1], exc.error if exc else 'model'))
    if exc is not None:
        error_check(ctx, exc, text)
        return
    shown = repr(model)
    for word in re.findall(r'zzq\d+|867530\d+', changed):
        ctx.states += 1
        if word not in shown:
            ctx.fail('dropped-word', f'{text!r} is accepted but {word} is nowhere in the model {shown}')


def spaces(tier):
    deep = tier == 'thorough'
    lengths = list(range(0, 131)) + [150, 179, 180, 181, 182, 200, 239, 240, 241, 242, 300, 360, 399, 400]
    return [
        Space('kinds', gen_kinds(ALL_KINDS, (0, 1, 2, 3, 4)), run_kinds, f'every sequence of <= 4 lines over the {len(ALL_KINDS)} line kinds', sharded=True),
        Space('block-kinds', gen_kinds(BLOCK_KINDS, (5,) if not deep else (5, 6)), run_kinds,
              f'every sequence of 5 (6) lines over the {len(BLOCK_KINDS)} block line kinds', sharded=True),
        Space('faults', gen_faults(lengths if not deep else range(0, 401)), run_faults,
              f'a fault at every column of expressions of length 0..400 (quick: {len(lengths)} of the lengths) in {len(FAULT_TEMPLATES)} statement forms', sharded=True),
        Space('structures', gen_structures, run_structures,
              f'{len(STRUCTURES)} malformed expressions x {len(FAULT_TEMPLATES)} statement forms x 4 line lengths x 4 preceding texts'),
        Space('errors', gen_errors(range(0, 401)), run_errors, 'the error object for every line length 0..400 and every column', sharded=True),
        Space('long-errors', gen_errors((450, 511, 512, 513, 640, 799, 800, 999, 1000, 1001, 1002, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 3000, 4096, 5000)), run_errors,
              'the error object for longer lines (to 5000) and every column', sharded=True),
        Space('soup', gen_soup(VOCAB, (0, 1, 2, 3, 4), 1), run_soup(VOCAB), 'every line of <= 4 vocabulary tokens', sharded=True),
        Space('soup2', gen_soup(VOCAB, (0, 1, 2), 2), run_soup(VOCAB), 'every pair of lines of <= 2 tokens', sharded=True),
        Space('soup3', gen_soup(VOCAB, (0, 1), 3), run_soup(VOCAB), 'every triple of one-token lines', sharded=True),
        Space('chars', gen_chars((1, 2, 3, 4, 5, 6) if not deep else (1, 2, 3, 4, 5, 6, 7)), run_chars,
              f'every text of <= 6 (7) characters over {"".join(SOUP_CHARS)!r}', sharded=True),
        Space('mutants', gen_mutants(not deep), run_mutants,
              'every one-character deletion, insertion, replacement and truncation of two programs that use every statement; every token and line '
              'deletion, doubling, swap, added continuation of these and the shipped scripts', sharded=True),
        Space('prepend', lambda: gen_prepend(2 if not deep else 4), run_prepend, 'every sequence of <= 2 (4) neutral lines before 26 subjects x start line'),
        Space('continued', gen_continued, run_continued, 'a fault in every part of a statement continued over up to 7 lines with comments between'),
        Space('tokens', lambda: gen_tokens(2), run_tokens,
              f'one or two of {len(JUNK)} pieces of foreign text in every gap of {len(TOKEN_LINES)} statements: an error, or every word is in the model'),
        Space('scale', lambda: gen_scale(64 if not deep else 400), run_scale, 'backslash runs, quotes, nestings and bracket runs of every length 0..64 (400)'),
    ]
