"""C09: the statement budget is exact, complete and monotone."""

import itertools

from mc import impl, ref
from mc.core import Space

PROPERTY = 'C09'
LEVEL = 'model_checking'
RULE = ('every program of the listed finite spaces is executed under every limit 1..min(N+2, cap), 0 and no limit and compared with a reference machine over '
        'statement lists that counts started statements and stops before statement L+1 (log, globals, result, error); distinct = distinct observed outcomes')
ASSUMPTIONS = [
    'a jump continues after its label, so the target label does not start again (as on the pinned tree)',
    'the order in which dataJoin evaluates its key expressions is not observed'
]

INF_CAP = 45


class Exceeded(Exception):
    pass


class RefError(Exception):
    pass


# ---------------------------------------------------------------------------------------------------------------
# reference machine with a budget; calls of the library are the few functions the programs use
# ---------------------------------------------------------------------------------------------------------------

class Machine:
    def __init__(self, limit, files, parsed):
        self.limit = limit
        self.count = 0
        self.files = files
        self.parsed = parsed
        self.globals = {}
        self.logs = []

    def parse(self, url):
        if url not in self.parsed:
            self.parsed[url] = impl.parse_script(self.files[url])
        return self.parsed[url]

    def call(self, fn, args):
        if isinstance(fn, Partial):
            return self.call(fn.fn, fn.args + args)
        params = fn.get('args', [])
        loc = {p: args[i] if i < len(args) else None for i, p in enumerate(params)}
        return self.run(fn['statements'], loc)

    def ev(self, e, loc):
        key = next(iter(e))
        if key in ('string', 'number'):
            return e[key]
        if key == 'group':
            return self.ev(e['group'], loc)
        if key == 'unary':
            return ref.unop(e['unary']['op'], self.ev(e['unary']['expr'], loc))
        if key == 'variable':
            name = e['variable']
            if name in ('null', 'true', 'false'):
                return {'null': None, 'true': True, 'false': False}[name]
            if loc is not None and name in loc:
                return loc[name]
            return self.globals.get(name)
        if key == 'binary':
            op = e['binary']['op']
            left = self.ev(e['binary']['left'], loc)
            if op == '&&' and not ref.truthy(left) or op == '||' and ref.truthy(left):
                return left
            right = self.ev(e['binary']['right'], loc)
            return right if op in ('&&', '||') else ref.binop(op, left, right)
        name = e['function']['name']
        exprs = e['function'].get('args', [])
        if name == 'if':
            test = self.ev(exprs[0], loc)
            pick = exprs[1:2] if ref.truthy(test) else exprs[2:3]
            return self.ev(pick[0], loc) if pick else None
        args = [self.ev(a, loc) for a in exprs]
        fn = loc[name] if loc is not None and name in loc else self.globals.get(name)
        if isinstance(fn, (dict, Partial)) and (isinstance(fn, Partial) or 'statements' in fn):
            return self.call(fn, args)
        return self.library(name, args)

    def library(self, name, a):
        if name == 'systemLog':
            self.logs.append(ref.text(a[0]))
            return None
        if name == 'arrayNew':
            return list(a)
        if name == 'arrayLength':
            return len(a[0])
        if name == 'arrayGet':
            return a[0][int(a[1])]
        if name == 'objectNew':
            return dict(zip(a[::2], a[1::2]))
        if name == 'systemPartial':
            return Partial(a[0], a[1:])
        if name == 'hostCall':
            return self.call(a[0], a[1:])
        if name == 'hostFail':
            return None
        if name == 'arraySort':
            if len(a[0]) != 2:
                raise AssertionError('two-element arrays only')
            # one comparison
            if self.call(a[1], [a[0][1], a[0][0]]) < 0:
                a[0].reverse()
            return a[0]
        if name in ('dataFilter', 'dataCalculatedField'):
            expr = impl.parse_expression(a[1] if name == 'dataFilter' else a[2])
            variables = a[2 if name == 'dataFilter' else 3] if len(a) > (2 if name == 'dataFilter' else 3) else {}
            out = []
            keep = self.globals
            if variables:
                self.globals = {**keep, **variables}
            try:
                for row in a[0]:
                    value = self.ev(expr, row)
                    if name == 'dataFilter':
                        if ref.truthy(value):
                            out.append(row)
                    else:
                        row[a[1]] = value
                        out.append(row)
            finally:
                self.globals = keep
            return out
        if name == 'dataJoin':
            left = impl.parse_expression(a[2])
            right = impl.parse_expression(a[3]) if len(a) > 3 else left
            for row in a[1]:
                self.ev(right, row)
            for row in a[0]:
                self.ev(left, row)
            return None
        raise RefError(f'Undefined function "{name}"')

    def run(self, statements, loc):
        ix = 0
        while ix < len(statements):
            s = statements[ix]
            if self.limit and self.count >= self.limit:
                raise Exceeded()
            self.count += 1
            key = next(iter(s))
            if key == 'expr':
                value = self.ev(s['expr']['expr'], loc)
                if 'name' in s['expr']:
                    (self.globals if loc is None else loc)[s['expr']['name']] = value
            elif key == 'jump':
                if 'expr' not in s['jump'] or ref.truthy(self.ev(s['jump']['expr'], loc)):
                    target = [i for i, t in enumerate(statements) if t.get('label') == s['jump']['label']]
                    if not target:
                        raise RefError(f'Unknown jump label "{s["jump"]["label"]}"')
                    ix = target[0]
            elif key == 'return':
                return self.ev(s['return']['expr'], loc) if 'expr' in s['return'] else None
            elif key == 'function':
                self.globals[s['function']['name']] = s['function']
            elif key == 'include':
                for inc in s['include']['includes']:
                    if inc['url'] not in self.files:
                        raise RefError(f'Include of "{inc["url"]}" failed')
                    self.run(self.parse(inc['url'])['statements'], None)
            ix += 1
        return None


class Partial:
    def __init__(self, fn, args):
        self.fn, self.args = fn, list(args)

    def __call__(self, *_args):
        return None


def host_call(args, options):
    return args[0](args[1:], options)


def host_fail(args, options):
    raise KeyError('host')


def show_globals(globals_):
    return {k: ref.show(v) for k, v in globals_.items() if not callable(v) and not (isinstance(v, dict) and 'statements' in v)}


def reference(model, limit, files, parsed):
    m = Machine(limit, files, parsed)
    try:
        value = m.run(model['statements'], None)
        return ('return', ref.show(value), None), m
    except Exceeded:
        return ('exceeded', None, None), m
    except RefError as exc:
        return ('runtime-error', None, str(exc)), m


def real(model, limit, files, options_out=None, debug=False):
    options = {'globals': {'hostCall': host_call, 'hostFail': host_fail}, 'fetchFn': lambda request: files[request['url']]}
    logs = []
    options['logFn'] = logs.append
    if debug:
        options['debug'] = True
    if limit is not None:
        options['maxStatements'] = limit
    if options_out is not None:
        options_out.append(options)
    try:
        value = impl.execute_script(model, options)
        got = ('return', ref.show(value), None)
    except impl.BareScriptRuntimeError as exc:
        text = str(exc)
        if text.startswith('Exceeded maximum script statements'):
            got = ('exceeded', None, None)
            if limit and str(limit) not in text:
                got = ('exceeded with a wrong message', text, None)
        else:
            got = ('runtime-error', None, text)
    return got, logs, options['globals']


def check(model, files, ctx, what, cap=30, diverges=False):
    parsed = {}
    if not diverges:
        want0, m0 = reference(model, 0, files, parsed)
        n = m0.count
        limits = list(range(1, min(n + 2, cap) + 1))
        if n + 2 > cap:
            limits += [n - 1, n, n + 1, n + 1000]
        limits += [0, None, 10 ** 9]
    else:
        limits = list(range(1, INF_CAP + 1))
    previous = []
    for limit in sorted([l for l in limits if l], key=int) + [l for l in limits if not l]:
        if not diverges and (not limit or limit >= n):
            want, m = want0, m0
        else:
            want, m = reference(model, limit, files, parsed)
        options = []
        got, logs, globals_ = real(model, limit, files, options)
        ctx.states += 1
        ctx.transitions += m.count
        ctx.traces += 1
        if got != want or logs != m.logs:
            ctx.fail('budget', f'{what} limit {limit}: {got} logs {logs}; expected {want} logs {m.logs}')
        if show_globals(globals_) != show_globals(m.globals):
            ctx.fail('globals', f'{what} limit {limit}: globals {show_globals(globals_)}; expected {show_globals(m.globals)}')
        if limit and logs[:len(previous)] != previous:
            ctx.fail('prefix', f'{what} limit {limit}: log {logs} is not an extension of {previous}')
        previous = list(logs) if limit else previous
        ctx.outcome((got, logs))
    if not diverges:
        histories(model, files, ctx, what, n, want0, m0, parsed)


class SmallDefault:
    """The default budget (a billion statements) made small, so that a limit of 0 or L that falls back to it is seen."""

    def __enter__(self):
        import sys  # pylint: disable=import-outside-toplevel
        self.saved = []
        for name, module in list(sys.modules.items()):
            if name == 'bare_script' or name.startswith('bare_script.'):
                for attr, value in list(vars(module).items()):
                    if 'MAX_STATEMENTS' in attr and isinstance(value, (int, float)):
                        self.saved.append((module, attr, value))
                        setattr(module, attr, 2)

    def __exit__(self, *_):
        for module, attr, value in self.saved:
            setattr(module, attr, value)


def run_again(model, options, limit):
    """Run once more with the same options object (fresh globals)."""
    options['globals'] = {'hostCall': host_call, 'hostFail': host_fail}
    options['maxStatements'] = limit
    logs = []
    options['logFn'] = lambda text: None if text.startswith('BareScript') else logs.append(text)
    try:
        value = impl.execute_script(model, options)
        got = ('return', ref.show(value), None)
    except impl.BareScriptRuntimeError as exc:
        text = str(exc)
        got = ('exceeded', None, None) if text.startswith('Exceeded maximum script statements') else ('runtime-error', None, text)
    return got, logs


VARIANTS = {
    'plain': {},
    'url': {'urlFn': lambda url: url, 'systemPrefix': ''},
    'debug': {'debug': True},
}


def histories(model, files, ctx, what, n, want, m, parsed):
    """Runs one after another with one options object: every run has the whole budget, whatever the runs before did."""
    short, ms = reference(model, n - 1, files, parsed) if n > 1 else (None, None)
    for name, variant in VARIANTS.items():
        options = {'fetchFn': lambda request: files[request['url']], **variant}
        for limit in (n, n - 1, n, 0, n):
            if limit == n - 1 and short is None:
                continue
            got, logs = run_again(model, options, limit)
            exp, me = (short, ms) if limit == n - 1 else (want, m)
            ctx.states += 1
            if got != exp or logs != me.logs:
                ctx.fail('history', f'{what}: options {name} reused, limit {limit}: {got} logs {logs}; expected {exp} logs {me.logs}')
    with SmallDefault():
        for limit in (0, n, float(n), 0.0):
            got, logs = run_again(model, {'fetchFn': lambda request: files[request['url']]}, limit)
            ctx.states += 1
            if got != want or logs != m.logs:
                ctx.fail('default', f'{what}: with a default budget of 2 the limit {limit} gives {got} logs {logs}; expected {want} logs {m.logs}')


# ---------------------------------------------------------------------------------------------------------------
# programs
# ---------------------------------------------------------------------------------------------------------------

HEAD = """\
function k(v, w):
    systemLog('k')
    return v
endfunction
function cmp(p, q):
    systemLog('cmp')
    return if(p < q, 0 - 1, 1)
endfunction
rows = arrayNew(objectNew('a', 1), objectNew('a', 0))
"""

FUNCS = {
    'plain': "function f(n):\n    t = 'L'\n    systemLog('f' + n)\n    return n\nendfunction\n",
    'empty': 'function f(n):\nendfunction\n',
    'loop': "function f(n):\n    for i in arrayNew(1, 2):\n        systemLog('fl' + i)\n    endfor\nendfunction\n",
    'rec': "function f(n):\n    systemLog('f' + n)\n    if n > 0:\n        f(n - 1)\n    endif\n    return k(n)\nendfunction\n",
    'inc': "function f(n):\n    include 'two'\n    systemLog('f' + n)\nendfunction\n",
    'rows': "function f(n):\n    systemLog('f')\n    dataFilter(rows, 'k(a)')\n    return n\nendfunction\n",
    'fail': "function f(n):\n    systemLog('f' + n)\n    jump nowhere\nendfunction\n",
    'hostfail': "function f(n):\n    x = hostFail(k(n))\n    systemLog('after')\nendfunction\n",
}

FILES = {
    'one': "systemLog('one')\nx = 1\n",
    'two': "systemLog('two')\nreturn 5\nsystemLog('never')\n",
    'deep': "systemLog('d1')\ninclude 'one'\nsystemLog('d2')\ninclude 'def'\nsystemLog('d3')\n",
    'def': "function g(n):\n    systemLog('g')\n    include 'one'\n    return k(n)\nendfunction\n",
    'calls': "k(1)\nx = f(2)\nsystemLog('x')\n",
    'empty': '# nothing\n',
    'chain': "include 'deep'\ninclude 'two'\nsystemLog('chain')\n",
    'bad': "systemLog('b1')\njump missing\n",
    'selfloop': "systemLog('s')\ninclude 'selfloop'\n",
}

MAIN = [
    "systemLog('m')",
    'f(1)',
    'x = f(2) + f(0)',
    'arraySort(arrayNew(2, 1), cmp)',
    'p = systemPartial(f, 3)\np()',
    "rows2 = dataFilter(rows, 'k(a)')",
    "dataCalculatedField(rows, 'c', 'k(a + v)', objectNew('v', 2))",
    "dataJoin(rows, rows, 'k(a)')",
    "include 'one'",
    "include 'deep'",
    "include 'one'\ninclude 'two'\ninclude 'empty'",
    "include 'calls'",
    'hostCall(f, 4)',
    "if k(0):\n    systemLog('no')\nelif k(1):\n    systemLog('yes')\nendif",
    "for v in arrayNew(1, 2):\n    k(v)\nendfor",
    'i = 0\nwhile i < 2:\n    i = i + 1\n    f(i)\nendwhile',
    'return f(7)',
    "include 'bad'",
    "y = if(k(0), f(1), k(2)) || k(3)",
    "hostFail(f(1))",
    "include 'chain'",
]


def gen_mains(length):
    def gen(w, n):
        idx = 0
        for k in range(1, length + 1):
            for m in itertools.product(range(len(MAIN)), repeat=k):
                for f in FUNCS:
                    if idx % n == w:
                        yield idx, [f, list(m)]
                    idx += 1
    return gen


def run_mains(case, ctx):
    f, m = case
    text = HEAD + FUNCS[f] + ''.join(MAIN[i] + '\n' for i in m)
    check(impl.parse_script(text), FILES, ctx, f'{case}\n{text}', cap=26)


# jump-level lists, exact at every limit

SYMS = ['log', 'assign', 'jumpA', 'condA', 'labelA', 'ret', 'call', 'sort', 'inc', 'incf', 'data', 'recur']


def stmt(sym, i):
    def call(name, *args):
        return {'function': {'name': name, 'args': list(args)}}
    if sym == 'log':
        return {'expr': {'expr': call('systemLog', {'string': f'm{i}'})}}
    if sym == 'assign':
        return {'expr': {'name': 'a', 'expr': {'binary': {'op': '+', 'left': {'variable': 'a'}, 'right': {'string': str(i)}}}}}
    if sym == 'jumpA':
        return {'jump': {'label': 'A'}}
    if sym == 'condA':
        return {'jump': {'label': 'A', 'expr': {'binary': {'op': '<', 'left': call('arrayLength', {'variable': 'log'}), 'right': {'number': 3.0}}}}}
    if sym == 'labelA':
        return {'label': 'A'}
    if sym == 'ret':
        return {'return': {'expr': call('f', {'number': 1.0})}}
    if sym == 'call':
        return {'expr': {'name': 'b', 'expr': call('f', {'number': 0.0})}}
    if sym == 'sort':
        return {'expr': {'expr': call('arraySort', call('arrayNew', {'number': 2.0}, {'number': 1.0}), {'variable': 'cmp'})}}
    if sym == 'inc':
        return {'include': {'includes': [{'url': 'one'}, {'url': 'two', 'system': True}]}}
    if sym == 'incf':
        return {'include': {'includes': [{'url': 'calls'}]}}
    if sym == 'data':
        return {'expr': {'name': 'r', 'expr': call('dataFilter', {'variable': 'rows'}, {'string': 'f(a)'})}}
    return {'expr': {'expr': call('r1', {'number': float(i)})}}


PRE = """\
log = arrayNew(1, 2, 3)
rows = arrayNew(objectNew('a', 1))
function k(v):
    return v
endfunction
function f(n):
    systemLog('f')
    return n + 1
endfunction
function cmp(p, q):
    return p - q
endfunction
function r1(n):
    if n > 0:
        r1(n - 1)
    endif
endfunction
"""


def gen_lists(length):
    def gen(w, n):
        idx = 0
        for k in range(1, length + 1):
            for combo in itertools.product(SYMS, repeat=k):
                if idx % n == w:
                    yield idx, list(combo)
                idx += 1
    return gen


_PRE = []


def run_lists(case, ctx):
    if not _PRE:
        _PRE.append(impl.parse_script(PRE)['statements'])
    model = {'statements': [*_PRE[0], *[stmt(s, i) for i, s in enumerate(case)]]}
    # a backward jump to a label makes the list diverge
    want, _ = reference(model, 200, FILES, {})
    if want[0] == 'exceeded':
        check(model, FILES, ctx, str(case), diverges=True)
    else:
        check(model, FILES, ctx, str(case), cap=40)


DIVERGING = {
    'jump': 'A:\njump A\n',
    'jump-log': "A:\nsystemLog('x')\njump A\n",
    'while': "while true:\n    systemLog('x')\nendwhile\n",
    'while-empty': 'while true:\nendwhile\n',
    'recursion': 'function f(n):\n    systemLog(n)\n    f(n + 1)\nendfunction\nf(0)\n',
    'recursion-empty': 'function f():\n    f()\nendfunction\nf()\n',
    'mutual': "function f():\n    g()\nendfunction\nfunction g():\n    systemLog('g')\n    f()\nendfunction\nf()\n",
    'recursion-tail': 'function f(n):\n    return f(n + 1)\nendfunction\nreturn f(0)\n',
    'include-self': "include 'selfloop'\n",
    'include-in-loop': "A:\ninclude 'one'\njump A\n",
    'empty-include-in-loop': "A:\ninclude 'empty'\njump A\n",
    'function-in-loop': "function f():\n    systemLog('f')\nendfunction\nwhile 1:\n    f()\nendwhile\n",
    'callback-loop': "function c(p, q):\n    systemLog('c')\n    return 0\nendfunction\nA:\narraySort(arrayNew(2, 1), c)\njump A\n",
    'callback-inner': "function c(p, q):\n    B:\n    jump B\nendfunction\nsystemLog('s')\narraySort(arrayNew(2, 1), c)\n",
    'callback-recursion': 'function c(p, q):\n    arraySort(arrayNew(2, 1), c)\nendfunction\narraySort(arrayNew(2, 1), c)\n',
    'partial': 'function c(p):\n    d = systemPartial(c, p)\n    d()\nendfunction\nc(1)\n',
    'data-inner': "rows = arrayNew(objectNew('a', 1))\nfunction c(p):\n    systemLog('c')\n    while 1:\n    endwhile\nendfunction\ndataFilter(rows, 'c(a)')\n",
    'data-variables': "rows = arrayNew(objectNew('a', 1))\nfunction c(p):\n    systemLog('c')\n    while 1:\n    endwhile\nendfunction\n"
                      "dataCalculatedField(rows, 'b', 'c(a + v)', objectNew('v', 1))\n",
    'data-recursion': "rows = arrayNew(objectNew('a', 1))\nfunction c(p):\n    dataFilter(rows, 'c(a)')\nendfunction\ndataFilter(rows, 'c(a)')\n",
    'data-variables-loop': "rows = arrayNew(objectNew('a', 1))\nfunction c(p):\n    systemLog('c')\nendfunction\nwhile 1:\n    dataFilter(rows, 'c(a + v)', objectNew('v', 1))\nendwhile\n",
    'join-inner': "rows = arrayNew(objectNew('a', 1))\nfunction c(p):\n    A:\n    jump A\nendfunction\ndataJoin(rows, rows, 'c(a)')\n",
    'host': 'function c(p):\n    hostCall(c, p)\nendfunction\nc(1)\n',
    'include-in-function': "function f():\n    include 'one'\n    f()\nendfunction\nf()\n",
    'include-loops': "systemLog('s')\ninclude 'loops'\nsystemLog('e')\n",
    'include-defines': "include 'defines'\nloops()\n",
    'if-call': 'function f(n):\n    return if(n, f(n), f(n))\nendfunction\nf(1)\n',
}
DIV_FILES = dict(FILES, loops='A:\njump A\n', defines="function loops():\n    B:\n    systemLog('l')\n    jump B\nendfunction\n")


def gen_diverging():
    for name in DIVERGING:
        for pre in ('', "systemLog('p')\n", "include 'deep'\n", 'q = 1\nq = 2\nq = 3\n'):
            yield [name, pre]


def run_diverging(case, ctx):
    name, pre = case
    text = "function k(n):\n    return n\nendfunction\n" + pre + DIVERGING[name]
    check(impl.parse_script(text), DIV_FILES, ctx, f'{case}\n{text}', diverges=True)


# large N: limits around N only

def gen_large():
    for loops in (1, 2, 3):
        for size in (3, 10, 30):
            for body in ('log', 'call', 'include', 'sort', 'data'):
                if size ** loops < 2000:
                    yield [loops, size, body]


def run_large(case, ctx):
    loops, size, body = case
    arr = 'arrayNew(' + ', '.join(str(i) for i in range(size)) + ')'
    lines = [f'arr = {arr}', 'function h(n):', '    t = n', '    return t', 'endfunction']
    for d in range(loops):
        lines.append('    ' * d + f'for v{d} in arr:')
    inner = {'log': "systemLog('x')", 'call': 'h(v0)', 'include': "include 'one'", 'sort': 'arraySort(arrayNew(2, 1), cmp)', 'data': "dataFilter(rows, 'h(a)')"}[body]
    lines.append('    ' * loops + inner)
    for d in range(loops - 1, -1, -1):
        lines.append('    ' * d + 'endfor')
    lines.append("systemLog('end')")
    check(impl.parse_script(HEAD + '\n'.join(lines) + '\n'), FILES, ctx, str(case), cap=3)


def spaces(tier):
    deep = tier == 'thorough'
    return [
        Space('diverging', gen_diverging, run_diverging, f'{len(DIVERGING)} ways to run forever x 4 prefixes x every limit 1..{INF_CAP}', cpu=60.0),
        Space('large', gen_large, run_large, 'nested loops of 3..900 iterations over 5 bodies at limits 1-3, N-1..N+1 and unlimited', cpu=60.0),
        Space('mains', gen_mains(2 if not deep else 3), run_mains,
              f'every sequence of <= 2 (3) of {len(MAIN)} statements x {len(FUNCS)} function bodies x every limit 1..min(N+2, 26), N-1..N+1, 0 and none', sharded=True, cpu=60.0),
        Space('lists', gen_lists(4 if not deep else 5), run_lists, f'every statement list of length <= 4 (5) over {len(SYMS)} symbols x every limit', sharded=True),
    ]
