"""C17: includes resolve relative to the including file and run in global scope."""

import functools
import io
import itertools
import os
import posixpath
import re
import shutil
import sys
import tempfile

import bare_script.bare
from mc import impl
from mc.core import Space

PROPERTY = 'C17'
LEVEL = 'model_checking'
ASSUMPTIONS = [
    'locations are compared after removing ./ and ../ segments and doubled slashes: how a resolved location is spelled is not specified',
    'a system prefix ends with a slash; system includes without a configured prefix are not explored',
    'a lint report of an included file in debug mode is not part of the observed log',
    'URL bases have a path and no query'
]

R_URL = re.compile(r'[a-z]+:')


# ---------------------------------------------------------------------------------------------------------------
# reference
# ---------------------------------------------------------------------------------------------------------------

def resolve(base, url):
    """The location of url against the file base (None: no base)."""
    if R_URL.match(url) or url.startswith('/') or base is None:
        return url
    return base[:base.rfind('/') + 1] + url


def norm(loc):
    m = re.match(r'([a-z]+:/*[^/]*)(/.*)?$', loc, re.S) if R_URL.match(loc) else None
    if m is not None:
        return m.group(1) + (re.sub('^/+', '/', posixpath.normpath(m.group(2))) if m.group(2) else '')
    return re.sub('^/+', '/', posixpath.normpath(loc))


class Fault(Exception):
    def __init__(self, kind, loc):
        super().__init__()
        self.kind = kind
        self.loc = loc


class Return(Exception):
    pass


class Collision(Exception):
    pass


class Reference:
    """
    Executes a script model made of these statements, and lays out the virtual file system as it meets the includes.

    ['log', s]              systemLog(s + ':' + last)
    ['set', s]              last = s
    ['inc', url, file]      include 'url'          file: a list of statements, or ['missing', how], ['broken', text]
    ['sys', url, file]      include <url>
    ['def', name, body]     function
    ['call', name, how]     a call: direct, partial, sort, nested (inside an argument)
    ['ret']                 return 'ret'
    ['bare']                return
    ['retif', b]            if b: return
    ['if', b, body]         if true or false
    ['loop', n, body]       while loop with a unique counter
    ['for', n, body]        for loop with a unique value variable
    ['text', src]           inert source text
    """

    def __init__(self, prefix):
        self.prefix = prefix
        self.events = []
        self.fs = {}
        self.globals = {'last': '-'}
        self.functions = {}
        self.serial = 0

    def run_file(self, stmts, base):
        try:
            self.block(stmts, base, None)
        except Return:
            pass

    def block(self, stmts, base, locals_):
        for st in stmts:
            kind = st[0]
            if kind == 'log':
                last = locals_['last'] if locals_ is not None and 'last' in locals_ else self.globals['last']
                self.events.append(('log', f'{st[1]}:{last}'))
            elif kind == 'set':
                (self.globals if locals_ is None else locals_)['last'] = st[1]
            elif kind in ('inc', 'sys'):
                loc = norm(resolve(self.prefix if kind == 'sys' else base, st[1]))
                key, text = loc, st[2]
                if self.fs.setdefault(key, text) != text:
                    raise Collision()
                self.events.append(('fetch', loc))
                if text[:1] == ['missing']:
                    raise Fault('missing', loc)
                if text[:1] == ['broken']:
                    raise Fault('broken', loc)
                self.run_file(text, loc)
            elif kind == 'def':
                self.functions[st[1]] = (st[2], base)
            elif kind == 'call':
                for _ in range(2 if st[2] == 'twice' else 1):
                    body, fbase = self.functions[st[1]]
                    try:
                        self.block(body, fbase, {})
                    except Return:
                        pass
            elif kind in ('ret', 'bare') or kind == 'retif' and st[1]:
                raise Return()
            elif kind == 'if':
                if st[1]:
                    self.block(st[2], base, locals_)
            elif kind in ('loop', 'for'):
                for _ in range(st[1]):
                    self.block(st[2], base, locals_)


def quote(url):
    return url.replace('\\', '\\\\').replace("'", "\\'")


_SERIAL = itertools.count()


def render(stmts, indent=''):
    """The source text; loop variables are unique."""
    out = []
    for st in stmts:
        kind = st[0]
        if kind == 'log':
            out.append(f"systemLog('{st[1]}:' + last)")
        elif kind == 'set':
            out.append(f"last = '{st[1]}'")
        elif kind == 'inc':
            out.append(f"include '{quote(st[1])}'")
        elif kind == 'sys':
            out.append(f'include <{st[1]}>')
        elif kind == 'def':
            out.append(f'function {st[1]}():')
            out.append(render(st[2], indent + '    '))
            out.append('endfunction')
        elif kind == 'call':
            out.append({'direct': '{}()', 'partial': "systemPartial({}, 1)()", 'var': 'fn = {}\nfn()', 'nested': 'arrayNew(1, {}())', 'twice': '{0}()\n{0}()', 'sort': 'arraySort(arrayNew(2, 1), {})'}[st[2]].format(st[1])
                       if st[2] != 'partial' else f'fn = systemPartial({st[1]}, 1)\nfn()')
        elif kind == 'ret':
            out.append("return 'ret'")
        elif kind == 'bare':
            out.append('return')
        elif kind == 'retif':
            out.append(f'if {"true" if st[1] else "false"}:\n    return 7\nendif')
        elif kind == 'if':
            out.append(f'if {"true" if st[1] else "false"}:')
            out.append(render(st[2], indent + '    '))
            out.append('endif')
        elif kind == 'loop':
            k = next(_SERIAL)
            out.append(f'i{k} = 0\nwhile i{k} < {st[1]}:')
            out.append(render(st[2], indent + '    '))
            out.append(f'    i{k} = i{k} + 1\nendwhile')
        elif kind == 'for':
            k = next(_SERIAL)
            out.append(f'a{k} = arrayNew({", ".join("1" * st[1])})\nfor v{k} in a{k}:')
            out.append(render(st[2], indent + '    '))
            out.append('endfor')
        elif kind == 'text':
            out.append(st[1])
    return '\n'.join(out)


# ---------------------------------------------------------------------------------------------------------------
# one program
# ---------------------------------------------------------------------------------------------------------------

class Boom(Exception):
    pass


def naming(message, loc):
    """Does the error text name the location (however it is spelled)?"""
    words = re.split(r'["\'\s,<>]+', message)
    return any(word and norm(word) == loc for word in words) or loc in message


def check_program(ctx, stmts, base, prefix, debug=False, url_fn=None, shown=''):
    """Run a program on the reference and on the real code. Returns the reference."""
    want = Reference(prefix)
    fault = None
    try:
        want.run_file(stmts, base)
    except Fault as exc:
        fault = exc
    except Collision:
        ctx.note('location collisions skipped')
        return None
    ctx.states += 1
    ctx.transitions += len(want.events)
    fs = {}
    for loc, text in want.fs.items():
        fs[loc] = text if text[:1] in (['missing'], ['broken']) else render(text)
    events = []
    urls = []

    def fetch(request):
        url = request['url']
        urls.append(url)
        loc = norm(url)
        events.append(('fetch', loc))
        text = fs.get(loc)
        if text is None:
            raise Boom(f'{url} was never expected')
        if isinstance(text, list):
            if text[0] == 'broken':
                return text[1]
            if text[1] == 'none':
                return None
            if text[1] == 'runtime':
                raise impl.BareScriptRuntimeError('inner')
            raise {'raise': Boom, 'key': KeyError, 'os': FileNotFoundError}[text[1]]('inner')
        return text

    def log(text):
        if not text.startswith('BareScript:'):
            events.append(('log', text))

    model = impl.parse_script(render(stmts))
    options = {'globals': {'last': '-'}, 'logFn': log, 'fetchFn': fetch}
    if prefix is not None:
        options['systemPrefix'] = prefix
    if url_fn is not None:
        options['urlFn'] = url_fn
    elif base is not None:
        options['urlFn'] = functools.partial(impl.url_file_relative, base)
    if debug:
        options['debug'] = True
    before = {k: options.get(k) for k in ('urlFn', 'systemPrefix', 'fetchFn', 'logFn', 'debug')}
    where = f'{shown}base {base!r}, prefix {prefix!r}:\n{render(stmts)}\nfiles: ' + '\n'.join(f'{k}: {v!r}' for k, v in fs.items()) + '\n'
    kind, error = 'return', None
    try:
        impl.execute_script(model, options)
    except impl.BareScriptRuntimeError as exc:
        kind, error = 'missing', str(exc)
    except impl.BareScriptParserError as exc:
        kind, error = 'broken', str(exc)
    except Exception as exc:  # pylint: disable=broad-exception-caught
        kind, error = type(exc).__name__, str(exc)
    ctx.traces += 1
    if events != want.events:
        n = next((i for i, (a, b) in enumerate(zip(events, want.events)) if a != b), min(len(events), len(want.events)))
        ctx.fail('events', f'{where}event {n} is {events[n:n + 2]}, expected {want.events[n:n + 2]}; {error}; all: {events}')
    if kind != (fault.kind if fault else 'return'):
        ctx.fail('error', f'{where}the run ends with {kind} {error!r}, expected {fault.kind if fault else "return"}')
    if fault is not None and not (naming(error, fault.loc) or urls[-1] in error):
        ctx.fail('error-name', f'{where}the error {error!r} does not name {fault.loc!r}')
    if options['globals'].get('last') != want.globals['last']:
        ctx.fail('globals', f'{where}last is {options["globals"].get("last")!r}, expected {want.globals["last"]!r}')
    for name in want.functions:
        if not callable(options['globals'].get(name)):
            ctx.fail('globals', f'{where}function {name} is not a global')
    # the includer's own resolution (and its other options) after the run
    for key, value in before.items():
        if options.get(key) is not value:
            ctx.fail('options', f'{where}option {key} is {options.get(key)!r} after the run')
    ctx.outcome((tuple(events), kind))
    return options, events, fs


def leaf(name):
    return [['log', name]]


def file_of(name, *middle):
    """A file that logs, marks itself, does its thing and logs again."""
    return [['log', 'enter ' + name], ['set', name], *middle, ['log', 'exit ' + name]]


# references with the file name N
KINDS = {
    'sib': ['inc', 'N.bare'], 'sub': ['inc', 'sub/N.bare'], 'up': ['inc', '../N.bare'], 'dot': ['inc', './N.bare'], 'abs': ['inc', '/abs/q/N.bare'], 'url': ['inc', 'https://h.com/d/e/N.bare'],
    'sys': ['sys', 'N.bare'], 'sysub': ['sys', 'lib/N.bare'], 'upsub': ['inc', '../k/N.bare'], 'deep': ['inc', 'a/b/N.bare'], 'sysabs': ['sys', '/opt/N.bare'], 'sysurl': ['sys', 'http://s.org/x/N.bare'],
    'noext': ['inc', 'N'], 'file': ['inc', 'file:///f/g/N.bare'], 'dbl': ['inc', 'c//N.bare'], 'up2': ['inc', '../../N.bare'], 'updot': ['inc', './../N.bare'], 'subup': ['inc', 'sub/../N.bare'],
    'space': ['inc', 'a b/N c.bare'], 'absup': ['inc', '/r/s/../N.bare'], 'sysup': ['sys', '../N.bare'], 'colon': ['inc', 'A:/N.bare'], 'port': ['inc', 'http://h:80/p/N.bare'], 'query': ['inc', 'https://h.com/d/N.bare?x=1'],
    'quote': ['inc', "it's/N.bare"], 'uni': ['inc', 'd\u00e9/N.bare'], 'digit': ['inc', '1:/N.bare']
}
BASES = [None, 'main.bare', 'dir/main.bare', '/root/dir/main.bare', 'https://host/p/q/main.bare', '../up/main.bare', 'file:///x/y/main.bare', './main.bare']
PREFIXES = ['/sys/', 'https://sys.org/lib/', ':bare-include:/', 'sys/']


def include(kind, name, content):
    op, url = KINDS[kind]
    return [op, url.replace('N', name), content]


# ---------------------------------------------------------------------------------------------------------------
# chains: one include per level; a probe after each include checks that the base is back
# ---------------------------------------------------------------------------------------------------------------

def gen_chains(kinds, depth, bases, prefixes):
    def gen(w, n):
        idx = 0
        for length in range(1, depth + 1):
            for combo in itertools.product(kinds, repeat=length):
                if idx % n == w:
                    yield idx, [list(combo), bases, prefixes]
                idx += 1
    return gen


def chain(combo, level=0, probe='sib'):
    if level == len(combo):
        return file_of(f'z{level}')
    name = f'n{level}'
    return file_of(name, include(combo[level], f'f{level}', chain(combo, level + 1, probe)), include(probe, f'p{level}', leaf(f'p{level}')))


def run_chain(case, ctx):
    combo, bases, prefixes = case
    uses_sys = any(k.startswith('sys') for k in combo)
    for base in bases:
        for prefix in prefixes if uses_sys else prefixes[:1]:
            check_program(ctx, chain(combo), base, prefix, debug=len(combo) % 2 == 0)


# ---------------------------------------------------------------------------------------------------------------
# trees: every ordered tree, edge references from a small palette, includes adjacent or separated
# ---------------------------------------------------------------------------------------------------------------

def trees(edges, depth, fan):
    """Ordered trees with the given number of edges (nested lists)."""
    if edges == 0:
        return [[]]
    out = []
    if depth == 0:
        return out

    def forests(n, k):
        if n == 0:
            yield []
            return
        if k == 0:
            return
        for first in range(1, n + 1):
            for t in trees(first - 1, depth - 1, fan):
                for rest in forests(n - first, k - 1):
                    yield [t] + rest

    out.extend(forests(edges, fan))
    return out


TREE_KINDS = ['sib', 'sub', 'up', 'sys']


def build_tree(tree, kinds, counter, separated, ret):
    """File statements of a node; kinds: iterator of edge kinds."""
    me = next(counter)
    body = []
    for i, child in enumerate(tree):
        kind = next(kinds)
        content = build_tree(child, kinds, counter, separated, ret)
        body.append(include(kind, f'f{content[0][1].split(" ")[1]}', content))
        if separated:
            body.append(['log', f'after {i}'])
        if ret == me and i == 0:
            body.append(['ret'])
    if ret == me and not tree:
        body.append(['ret'])
    return file_of(f'{me}', *body)


def gen_trees(max_edges, palette, bases):
    def gen(w, n):
        idx = 0
        for edges in range(1, max_edges + 1):
            shapes = trees(edges, 4, 3)
            for s in range(len(shapes)):
                for combo in itertools.product(palette, repeat=edges):
                    if idx % n == w:
                        yield idx, [edges, s, list(combo), bases]
                    idx += 1
    return gen


_TREES = {}


def run_tree(case, ctx):
    edges, s, combo, bases = case
    max_all = 5
    if edges not in _TREES:
        _TREES[edges] = trees(edges, 4, 3)
    for ix, base in enumerate(bases[:2] if edges > 5 else bases):
        # nodes 0..edges return early, or nobody does
        for separated in (False, True):
            for ret in [None] if ix or separated else [None] + list(range(edges + 1) if edges < max_all else (1, edges - 1)):
                stmts = build_tree(_TREES[edges][s], iter(combo), itertools.count(), separated, ret)
                check_program(ctx, stmts, base, PREFIXES[ix % len(PREFIXES)])


# files that are every sequence of a few statements: a return may stand anywhere, also last
SEQ = {'L': ['log', 'l'], 'S': ['set', 's'], 'R': ['ret'], 'B': ['bare'], 'C': ['retif', True], 'N': ['retif', False]}
SEQ_LEAVES = [[['log', 'leaf']], [], [['bare']], [['log', 'leaf'], ['ret']], [['bare'], ['log', 'leaf']], [['set', 'leaf']], [['text', '# only a comment']]]


def gen_sequences(main_len, sub_len):
    def words(alphabet, low, high):
        for k in range(low, high + 1):
            for word in itertools.product(alphabet, repeat=k):
                yield ''.join(word)

    def gen(w, n):
        idx = 0
        for main in words('LIKRBCN', 1, main_len):
            if 'I' not in main and 'K' not in main:
                continue
            for sub in words('LIRBC', 0, sub_len):
                if idx % n == w:
                    yield idx, [main, sub]
                idx += 1
    return gen


def run_sequences(case, ctx):
    main, sub = case
    for leaf_ix, leaf_body in enumerate(SEQ_LEAVES if 'I' in sub else SEQ_LEAVES[:1]):
        sub_stmts = [include('sib', f'leaf{leaf_ix}', leaf_body) if c == 'I' else SEQ[c] for c in sub]
        stmts = [include('sub', 'mid', sub_stmts) if c == 'I' else (include('sys', 'mid', sub_stmts) if c == 'K' else SEQ[c]) for c in main]
        check_program(ctx, stmts, 'dir/main.bare', '/sys/')


# ---------------------------------------------------------------------------------------------------------------
# faults
# ---------------------------------------------------------------------------------------------------------------

BROKEN = ['x = ', 'a b', 'if true:\n    x = 1', 'function f():', 'endif', "systemLog('x'", 'x = 1 \\', 'ok = 1\nbad bad\n', 'break', 'else:', 'for x in', 'jumpif (a', 'include bad', 'x = (1']
FAULTS = [['missing', 'none'], ['missing', 'raise'], ['missing', 'runtime'], ['missing', 'key'], ['missing', 'os']] + [['broken', text] for text in BROKEN]


def gen_faults(depth, kinds):
    def gen():
        for length in range(1, depth + 1):
            for combo in itertools.product(kinds, repeat=length):
                yield list(combo)
    return gen


def contexts(body):
    """The body in several surroundings (name, statements)."""
    yield 'plain', body
    yield 'if', [['if', True, body]]
    yield 'loop', [['loop', 2, body]]
    yield 'for', [['for', 2, body]]
    yield 'func', [['def', 'fx', body], ['call', 'fx', 'direct']]
    yield 'nested', [['def', 'fx', body], ['call', 'fx', 'nested']]
    yield 'sort', [['def', 'fx', body], ['call', 'fx', 'sort']]
    yield 'partial', [['def', 'fx', body], ['call', 'fx', 'partial']]
    yield 'not', [['if', False, body], ['retif', False]]


def run_faults(case, ctx):
    combo = case
    for fault in FAULTS:
        for at in range(len(combo) + 1):
            # the faulty file is the last of the chain, or the probe after level `at`
            def build(level=0):
                if level == len(combo):
                    return fault if at == len(combo) else file_of(f'z{level}')
                probe = fault if at == level else leaf(f'p{level}')
                return file_of(f'n{level}', include(combo[level], f'f{level}', build(level + 1)), include('sub', f'p{level}', probe))
            check_program(ctx, build(), 'dir/main.bare', '/sys/')
        if len(combo) <= 2:
            # in every context
            inner = include(combo[-1], 'x', fault)
            for _, stmts in contexts([['log', 'before'], inner, ['log', 'never']]):
                if len(combo) == 2:
                    stmts = [include(combo[0], 'outer', stmts), ['log', 'after']]
                check_program(ctx, stmts, '/root/main.bare', 'https://sys.org/lib/')


# ---------------------------------------------------------------------------------------------------------------
# contexts: loops, branches, functions, labels
# ---------------------------------------------------------------------------------------------------------------

def gen_contexts(depth, kinds):
    def gen():
        n = len(list(contexts([])))
        for length in range(1, depth + 1):
            for combo in itertools.product(range(n), repeat=length):
                for ks in itertools.product(kinds, repeat=length):
                    yield [list(combo), list(ks)]
    return gen


def in_context(ix, body, name):
    kind, stmts = list(contexts(body))[ix]
    if kind in ('func', 'nested', 'sort', 'partial'):
        # unique function names and a local that included files must not see
        stmts = [['def', 'fn' + name, [['set', 'local ' + name]] + body + [['log', 'fn end ' + name]]], ['call', 'fn' + name, stmts[1][2]]]
    return stmts


def run_contexts(case, ctx):
    combo, kinds = case

    def build(level=0):
        if level == len(combo):
            return file_of(f'z{level}')
        body = [['log', f'in {level}'], include(kinds[level], f'f{level}', build(level + 1)), include('sib', f'p{level}', leaf(f'p{level}') + [['retif', True], ['log', 'never']]), ['log', f'out {level}']]
        return file_of(f'n{level}', *in_context(combo[level], body, str(level)))
    for base, prefix in (('dir/main.bare', '/sys/'), ('https://host/p/q/main.bare', 'sys/')):
        check_program(ctx, build(), base, prefix)


# ---------------------------------------------------------------------------------------------------------------
# functions defined in one file and called from another
# ---------------------------------------------------------------------------------------------------------------

HOWS = ['direct', 'partial', 'var', 'nested', 'twice', 'sort']


def gen_functions(kinds):
    def gen():
        for define, call, inner in itertools.product(kinds, repeat=3):
            yield [define, call, inner]
    return gen


def run_functions(case, ctx):
    define, call, inner = case
    for how in HOWS:
        fbody = [['log', 'f'], include(inner, 'body', file_of('body', include('sib', 'bsib', leaf('bsib')))), include('sub', 'fprobe', leaf('fprobe'))]
        def_file = file_of('def', ['def', 'fa', fbody], include('sib', 'defsib', leaf('defsib')))
        call_file = file_of('call', ['call', 'fa', how], include('sib', 'callsib', leaf('callsib')))
        # main includes the definition, then a caller in another directory, then calls itself
        main = [include(define, 'def', def_file), include(call, 'call', call_file), ['call', 'fa', how], include('sib', 'mainsib', leaf('mainsib'))]
        check_program(ctx, main, 'dir/main.bare', '/sys/', debug=how == 'var')
        # the caller includes the definition itself, from inside a function of its own
        nested = [include(call, 'call', file_of('call', ['def', 'fb', [include(define, 'def', def_file), ['call', 'fa', how], include('sib', 'fbsib', leaf('fbsib'))]], ['call', 'fb', 'direct'], ['call', 'fa', how])), ['call', 'fb', 'direct'], ['call', 'fa', how]]
        check_program(ctx, nested, 'https://host/p/q/main.bare', 'sys/')
        # a function of an included file includes the file that defines the function
        outer = file_of('def', ['def', 'fo', [include('sub', 'inner', file_of('inner', ['def', 'fa', fbody])), ['log', 'defined']]])
        main = [include(define, 'def', outer), include(call, 'call', file_of('call', ['call', 'fo', 'direct'], ['call', 'fa', how])), ['call', 'fa', how]]
        check_program(ctx, main, '/root/main.bare', ':bare-include:/')
        # redefinition: the file that defined the function last
        d1 = file_of('d1', ['def', 'fa', [include('sib', 'one', leaf('one'))]])
        d2 = file_of('d2', ['def', 'fa', [include('sib', 'two', leaf('two'))]])
        main = [include(define, 'd1', d1), ['call', 'fa', how], include(inner, 'd2', d2), ['call', 'fa', how], ['def', 'fa', [include('sib', 'three', leaf('three'))]], include(call, 'call', file_of('call', ['call', 'fa', how]))]
        check_program(ctx, main, None, '/sys/')


# ---------------------------------------------------------------------------------------------------------------
# the same file several times; host calls afterwards; several runs with the same options
# ---------------------------------------------------------------------------------------------------------------

def gen_repeat(kinds):
    def gen():
        for k1, k2 in itertools.product(kinds, repeat=2):
            for base in range(len(BASES)):
                yield [k1, k2, base]
    return gen


def run_repeat(case, ctx):
    k1, k2, bix = case
    base = BASES[bix]
    inner = file_of('inner', include(k2, 'deep', leaf('deep')), include('sib', 'isib', leaf('isib')))
    same = include(k1, 'same', inner)
    for stmts in ([same, same], [same, ['log', 'x'], same, same], [['loop', 3, [same]]], [['for', 2, [same, same]]], [['def', 'fa', [same]], same, ['call', 'fa', 'twice'], same],
                  [include('sib', 'two', file_of('two', same, same)) if k1 in ('abs', 'url', 'sys', 'sib') else same, same]):
        for prefix in PREFIXES[:2]:
            check_program(ctx, stmts, base, prefix)
    # a function called by the host after the run; then a second script with the same options
    stmts = [include(k1, 'def', file_of('def', ['def', 'fa', [['log', 'fa'], include(k2, 'body', leaf('body')), include('sib', 'fsib', leaf('fsib'))]]))]
    again = [['log', 'again'], ['call', 'fa', 'direct'], include('sib', 'asib', leaf('asib'))]
    got = check_program(ctx, stmts, base, '/sys/')
    if got is None:
        return
    options, events, fs = got
    want = Reference('/sys/')
    try:
        want.run_file(stmts, base)
        want.block([['call', 'fa', 'direct']], base, None)
        want.run_file(again, base)
    except Collision:
        return
    for loc, text in want.fs.items():
        fs.setdefault(loc, render(text))
    options['globals']['fa']([], options)
    impl.execute_script(impl.parse_script(render(again)), options)
    ctx.states += 1
    if events != want.events:
        ctx.fail('events', f'base {base!r}: {render(stmts)}; then a host call of fa, then {render(again)}: {events}, expected {want.events}')


# ---------------------------------------------------------------------------------------------------------------
# resolution function, statement spellings, host URL functions
# ---------------------------------------------------------------------------------------------------------------

FILES = ['main.bare', 'dir/main.bare', '/root/main.bare', '/main.bare', '/root/dir/', 'dir/', 'https://host/main.bare', 'https://host/p/q/', 'http://h:8080/a.b/c', 'file:///x/y.bare', '../up/x', './x', '', 'a/b/c/d', ':bare-include:/', ':bare-include:/x/y', 'ftp://h/x', 'a b/c', 'd\u00e9/x', 'a.b/c:d',
         '1:/x/y', 'dir.with.dot/x', '/a//b/c']
URLS = ['x.bare', './x.bare', '../x.bare', 'sub/x.bare', 'sub/../x', '/abs/x.bare', '/x', 'https://o.org/x', 'http://o.org', 'file:///x', 'data:text', 'a:b', 'A:b', 'h2:x', 'x y', 'x:y/z', '../../x', 'a//b', 'x?y', 'x#y', 'dir/', '..x', '.x', 'a/.b', '\u00e9', '/abs//x', '/abs/../x', '/abs/./x', ':x', 'x.y:z', '-:x',
        '/https://x', 'https', 'https//x', 'ht tp:x']


def gen_resolve():
    for f in FILES:
        yield [f]


def run_resolve(case, ctx):
    f, = case
    for url in URLS:
        got = impl.url_file_relative(f, url)
        ctx.states += 1
        want = resolve(f, url)
        absolute = bool(R_URL.match(url))
        if not isinstance(got, str) or (got != url if absolute else norm(got) != norm(want)):
            ctx.fail('resolve', f'url_file_relative({f!r}, {url!r}) is {got!r}, expected {want!r}')
        ctx.outcome(got)


SPELLINGS = [("include 'a.bare'", 'a.bare'), ("  include   'a.bare'  ", 'a.bare'), ("include\t'a b.bare'", 'a b.bare'), ("include 'it\\'s.bare'", "it's.bare"), ("include 'a\"b.bare'", 'a"b.bare'), ("include 'a<b>.bare'", 'a<b>.bare'), ("include 'a#b.bare'", 'a#b.bare'),
             ("include 'a.bare'\r", 'a.bare'), ("include \\\n  'a.bare'", 'a.bare'), ("# c\n\ninclude 'a.bare'\n# d", 'a.bare'), ("include 'include.bare'", 'include.bare'), ("include 'd\u00e9/\u4e2d.bare'", 'd\u00e9/\u4e2d.bare'),
             ("include <a.bare>", '<a.bare'), ("  include  <lib/a b.bare>  ", '<lib/a b.bare'), ("include <it's.bare>", "<it's.bare"), ("include <a\"b.bare>", '<a"b.bare'), ("include <a<b.bare>", '<a<b.bare'), ("include <../a.bare>", '<../a.bare'), ("include 'a\\\\b.bare'", 'a\\b.bare')]


def gen_spellings():
    for i in range(len(SPELLINGS)):
        for base in range(len(BASES)):
            yield [i, base]
    yield ['models']


def run_spellings(case, ctx):
    if case[0] == 'models':
        run_models(ctx)
        return
    text, url = SPELLINGS[case[0]]
    base = BASES[case[1]]
    sys_ = url.startswith('<')
    loc = norm(resolve('/sys/' if sys_ else base, url.lstrip('<') if sys_ else url))
    for script in (text, f'systemLog("a")\n{text}\nsystemLog("b")', f'{text}\n{text}', f'if true:\n{text}\nendif', f'function f():\n{text}\nendfunction\nf()'):
        calls = []

        def fetch(request):
            calls.append(norm(request['url']))
            return ''
        options = {'globals': {}, 'fetchFn': fetch, 'systemPrefix': '/sys/'}
        if base is not None:
            options['urlFn'] = functools.partial(impl.url_file_relative, base)
        impl.execute_script(impl.parse_script(script), options)
        ctx.states += 1
        if calls != [loc] * script.count(text):
            ctx.fail('spelling', f'base {base!r}, {script!r} fetches {calls}, expected {loc}')
        ctx.outcome(calls)


def run_models(ctx):
    """Hand-built models, no fetch function, host URL functions."""
    for includes in ([{'url': 'a'}], [{'url': 'a', 'system': False}], [{'url': 'a', 'system': True}], [{'url': 'a'}, {'url': 'b', 'system': True}, {'url': 'c', 'system': False}], [{'url': 'a'}, {'url': 'a'}]):
        for split in (False, True):
            statements = [{'include': {'includes': [i]}} for i in includes] if split else [{'include': {'includes': includes}}]
            for name, fn, top in (('none', None, lambda u: u), ('host', lambda u: 'https://z/' + u, lambda u: 'https://z/' + u), ('const', lambda u: '/q/' + u * 2, lambda u: '/q/' + u * 2)):
                calls = []

                def fetch(request):
                    calls.append(norm(request['url']))
                    return "include 'k'\nn = n + 1\n" if not request['url'].endswith('k') else 'm = m + 1'
                options = {'globals': {'n': 0, 'm': 0}, 'fetchFn': fetch, 'systemPrefix': '/sys/'}
                if fn is not None:
                    options['urlFn'] = fn
                impl.execute_script({'statements': statements + [{'include': {'includes': [{'url': 'last'}]}}]}, options)
                want = []
                for i in includes + [{'url': 'last'}]:
                    loc = '/sys/' + i['url'] if i.get('system') else top(i['url'])
                    want += [norm(loc), norm(resolve(loc, 'k'))]
                ctx.states += 1
                if calls != want or options['globals']['n'] != len(includes) + 1 or options['globals']['m'] != len(includes) + 1:
                    ctx.fail('models', f'{statements}, urlFn {name}: fetched {calls}, expected {want}')
                # no fetch function
                for debug in (False, True):
                    options = {'globals': {}, 'systemPrefix': '/sys/', 'debug': debug}
                    if fn is not None:
                        options['urlFn'] = fn
                    try:
                        impl.execute_script({'statements': statements}, options)
                        ctx.fail('nofetch', f'{statements} without a fetch function does not fail')
                    except impl.BareScriptRuntimeError as exc:
                        if not naming(str(exc), want[0]):
                            ctx.fail('nofetch', f'{statements} without a fetch function: {exc}, expected a mention of {want[0]}')
    ctx.outcome('models')


# ---------------------------------------------------------------------------------------------------------------
# the command line, with real files in a scratch directory
# ---------------------------------------------------------------------------------------------------------------

def gen_cli():
    kinds = ['sib', 'sub', 'up', 'dot', 'tmpabs', 'upsub']
    for entry in ('main.bare', 'd1/d2/main.bare', './d1/d2/main.bare', 'd1/../d1/d2/main.bare', 'ABS/d1/d2/main.bare', 'CODE'):
        for k1, k2 in itertools.product(kinds, repeat=2):
            for fault in ('none', 'missing', 'broken'):
                yield [entry, k1, k2, fault]


def run_cli(case, ctx):
    entry, k1, k2, fault = case
    top = tempfile.mkdtemp(prefix='mc-c17-')
    root = os.path.join(top, 'w1', 'w2')
    os.makedirs(root)
    cwd = os.getcwd()
    try:
        os.chdir(root)

        def inc(kind, name, content):
            if kind == 'tmpabs':
                return ['inc', root + f'/abs/{name}.bare', content]
            return include(kind, name, content)
        last = {'none': file_of('z', include('sib', 'zz', leaf('zz'))), 'missing': ['missing', 'os'], 'broken': ['broken', 'a b']}[fault]
        stmts = [['text', "include <args.bare>"], ['text', "last = '-'"], *file_of('m', inc(k1, 'f1', file_of('n', ['text', 'include <diff.bare>'], inc(k2, 'f2', last), include('sib', 'p1', leaf('p1')))), include('sib', 'p0', leaf('p0')))]
        name = entry.replace('ABS', root)
        base = None if entry == 'CODE' else name
        want = Reference('/none/')
        error = None
        try:
            want.run_file(stmts, base)
        except Fault as exc:
            error = exc
        except Collision:
            return
        for loc, text in want.fs.items():
            path = os.path.normpath(os.path.join(root, loc))
            if not path.startswith(top + os.sep):
                return
            os.makedirs(os.path.dirname(path), exist_ok=True)
            if text[:1] != ['missing']:
                with open(path, 'w', encoding='utf-8') as fh:
                    fh.write(text[1] if text[:1] == ['broken'] else render(text))
        source = render(stmts)
        if entry != 'CODE':
            os.makedirs(os.path.dirname(os.path.join(root, name)) or root, exist_ok=True)
            os.makedirs(os.path.join(root, 'd1/d2'), exist_ok=True)
            with open(name, 'w', encoding='utf-8') as fh:
                fh.write(source)
        stdout = sys.stdout
        sys.stdout = io.StringIO()
        status = 'none'
        try:
            bare_script.bare.main(['-c', source] if entry == 'CODE' else [name])
        except SystemExit as exc:
            status = exc.code
        finally:
            output = sys.stdout.getvalue()
            sys.stdout = stdout
        ctx.states += 1
        lines = output.splitlines()
        logs = [text for kind, text in want.events if kind == 'log']
        if lines[:len(logs)] != logs or bool(status) != bool(error) or (not error and len(lines) != len(logs)):
            ctx.fail('cli', f'{case}: the program prints {output!r} with status {status!r}, expected {logs}, error {error and error.loc}')
        if error and not any(os.path.normpath(os.path.join(root, w)) == os.path.normpath(os.path.join(root, error.loc)) for w in re.split(r'["\'\s]+', output) if w):
            ctx.fail('cli', f'{case}: the error does not name {error.loc}: {output!r}')
        ctx.outcome((output.replace(root, 'ROOT'), status))
    finally:
        os.chdir(cwd)
        shutil.rmtree(top, ignore_errors=True)


def spaces(tier):
    deep = tier == 'thorough'
    basic = ['sib', 'sub', 'up', 'dot', 'abs', 'url', 'sys', 'sysub']
    more = list(KINDS)
    small = ['sib', 'sub', 'up', 'abs', 'url', 'sys']
    return [
        Space('resolve', gen_resolve, run_resolve, f'{len(FILES)} files x {len(URLS)} references'),
        Space('spellings', gen_spellings, run_spellings, 'spellings of the statement, hand-built models, host URL functions, no fetch function'),
        Space('sequences', gen_sequences(4 if not deep else 5, 3), run_sequences, 'a main file of <= 4 (5) statements (log, include, system include, return, valued, '
              'taken and untaken conditional return) including a file of <= 3 statements including one of 7 leaves', sharded=True),
        Space('chains-wide', gen_chains(more, 2 if not deep else 3, BASES, PREFIXES), run_chain, f'chains of up to {3 if deep else 2} of {len(more)} kinds of reference x {len(BASES)} bases x prefixes', sharded=True),
        Space('chains', gen_chains(basic if not deep else basic + ['upsub', 'deep'], 4, BASES[2:5] if not deep else BASES, PREFIXES[:2]), run_chain, 'chains of up to 4 includes, 8 (10) kinds of reference, with a probe after every include', sharded=True),
        Space('faults', gen_faults(3 if not deep else 4, small if not deep else ['sib', 'sub', 'up', 'url', 'sys']), run_faults, f'{len(FAULTS)} faults at every position of chains of up to 3 (4) includes, and in 9 contexts'),
        Space('contexts', gen_contexts(2 if not deep else 3, ['sib', 'sub', 'up', 'url', 'sys'] if not deep else ['sub', 'up', 'url', 'sys']), run_contexts, 'includes in branches, loops and functions, nested 2 (3) deep'),
        Space('functions', gen_functions(basic if not deep else more), run_functions, 'functions that include, defined in one file and called from another, 6 ways of calling'),
        Space('repeat', gen_repeat(basic if not deep else more), run_repeat, 'the same file included several times; host calls and further scripts with the same options'),
        Space('cli', gen_cli, run_cli, 'the command line on real files in a scratch directory'),
        Space('trees', gen_trees(5 if not deep else 6, TREE_KINDS, ['dir/main.bare', 'https://host/p/q/main.bare', None] if not deep else BASES[:5]), run_tree, f'all ordered trees of depth <= 4, fan-out <= 3 and up to {6 if deep else 5} includes x 4 kinds of reference, early returns in every file', sharded=True)
    ]
