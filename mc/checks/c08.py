"""C08: jump-level models execute by the documented statement semantics."""

import copy
import itertools

from mc import impl, palette, prog, ref
from mc.core import Space

PROPERTY = 'C08'
LEVEL = 'model_checking'
RULE = ('every statement list of the listed finite spaces x every tape of condition answers is executed by execute_script, twice, and compared with a reference '
        'machine over statement lists (result, log, globals, error); the model is compared before and after; distinct = distinct observed outcomes')
ASSUMPTIONS = ['a run that diverges in the reference is only required to be stopped by the statement limit with a log that agrees on the common prefix']

FUEL = 90
TAPE = 4


def log(text):
    return {'expr': {'expr': {'function': {'name': 'systemLog', 'args': [{'string': text}]}}}}


def cond(tag):
    return {'function': {'name': 'cond', 'args': [{'string': tag}]}}


def append(name, text):
    return {'expr': {'name': name, 'expr': {'binary': {'op': '+', 'left': {'variable': name}, 'right': {'string': text}}}}}


# ---------------------------------------------------------------------------------------------------------------
# reference machine over statement lists
# ---------------------------------------------------------------------------------------------------------------

class RefError(Exception):
    pass


class Diverged(Exception):
    pass


class RefMachine:
    def __init__(self, globals_, ask, fuel):
        self.globals = globals_
        self.ask = ask
        self.fuel = fuel
        self.logs = []

    def ev(self, e, loc):
        if 'string' in e:
            return e['string']
        if 'number' in e:
            return e['number']
        if 'variable' in e:
            name = e['variable']
            if name in ('null', 'true', 'false'):
                return {'null': None, 'true': True, 'false': False}[name]
            if loc is not None and name in loc:
                return loc[name]
            return self.globals.get(name)
        if 'binary' in e:
            return ref.binop(e['binary']['op'], self.ev(e['binary']['left'], loc), self.ev(e['binary']['right'], loc))
        name = e['function']['name']
        args = [self.ev(a, loc) for a in e['function'].get('args', [])]
        if name == 'systemLog':
            self.logs.append(ref.text(args[0]))
            return None
        if name == 'cond':
            return self.ask(args[0])
        fn = loc[name] if loc is not None and name in loc else self.globals.get(name)
        if fn is None:
            raise RefError(f'Undefined function "{name}"')
        if not isinstance(fn, tuple):
            return None
        params = fn[1].get('args', [])
        return self.run(fn[1]['statements'], {p: args[i] if i < len(args) else None for i, p in enumerate(params)})

    def run(self, statements, loc):
        ix = 0
        while ix < len(statements):
            s = statements[ix]
            self.fuel -= 1
            if self.fuel < 0:
                raise Diverged()
            if 'expr' in s:
                value = self.ev(s['expr']['expr'], loc)
                if 'name' in s['expr']:
                    (self.globals if loc is None else loc)[s['expr']['name']] = value
            elif 'jump' in s:
                if 'expr' not in s['jump'] or ref.truthy(self.ev(s['jump']['expr'], loc)):
                    target = [i for i, t in enumerate(statements) if 'label' in t and t['label'] == s['jump']['label']]
                    if not target:
                        raise RefError(f'Unknown jump label "{s["jump"]["label"]}"')
                    ix = target[0]
            elif 'return' in s:
                return self.ev(s['return']['expr'], loc) if 'expr' in s['return'] else None
            elif 'function' in s:
                self.globals[s['function']['name']] = ('fn', s['function'])
            ix += 1
        return None


def reference(statements, ask, globals_):
    machine = RefMachine(globals_, ask, FUEL)
    try:
        value = machine.run(statements, None)
        return ('return', value, None), machine
    except RefError as exc:
        return ('runtime-error', None, str(exc)), machine
    except Diverged:
        return ('diverged', None, None), machine


def data(globals_):
    return {k: ref.show(v) for k, v in globals_.items() if not callable(v) and not isinstance(v, tuple)}


def real(model, ask, globals_):
    globals_['cond'] = lambda args, options: ask(args[0])
    return impl.run_script(model, globals_, FUEL)


def explore(model, ctx, what, limit=TAPE, checked=None):
    """Every condition tape of up to `limit` answers; each tape is run twice on the same model object."""
    statements = model['statements']
    frozen = copy.deepcopy(model)

    def one(choices):
        tape = prog.Tape(choices, 10 ** 9, RefError)
        want, machine = reference(frozen['statements'], lambda tag: tape.ask(2, tag) == 1, {'a': 's'})
        for attempt in (1, 2):
            tape2 = prog.Tape(choices, 10 ** 9, RefError)
            run = real(model, lambda tag, t=tape2: t.ask(2, tag) == 1, {'a': 's'})
            ctx.states += 1
            ctx.transitions += run.count or 0
            if want[0] == 'diverged':
                k = min(len(run.logs), len(machine.logs))
                ok = run.kind == 'runtime-error' and run.error.startswith('Exceeded maximum script statements') and run.logs[:k] == machine.logs[:k]
            else:
                ok = (run.kind, ref.show(run.value), run.error) == (want[0], ref.show(want[1]), want[2]) and run.logs == machine.logs
                ok = ok and data(run.globals) == data(machine.globals)
                ok = ok and tape2.trace == tape.trace
            if not ok:
                ctx.fail('outcome', f'{what} tape {choices} run {attempt}: {run.kind} {ref.show(run.value)} {run.error} logs {run.logs} globals '
                                    f'{data(run.globals)}; expected {want} logs {machine.logs} globals {data(machine.globals)}')
        ctx.traces += 1
        ctx.outcome((want, machine.logs))
        return tape.arity[:limit]

    for choices in _tapes(one, limit):
        pass
    if repr(model) != repr(frozen):
        ctx.fail('model', f'{what}: execution changed the model')


def _tapes(one, limit):
    prog.tapes(one, limit, limit)
    return ()


# ---------------------------------------------------------------------------------------------------------------
# A. top-level lists
# ---------------------------------------------------------------------------------------------------------------

FUNC_BODIES = [
    lambda i: [log(f'f{i}'), {'jump': {'label': 'A'}}, log(f'fx{i}'), {'label': 'A'}, append('a', 'f')],
    lambda i: [{'jump': {'label': 'B', 'expr': cond(f'f{i}')}}, {'return': {'expr': {'string': f'r{i}'}}}],
]
ALPHABET = ['log', 'assign', 'jumpA', 'jumpB', 'condA', 'condB', 'labelA', 'labelB', 'ret', 'retv', 'func0', 'func1', 'call']
SMALL = ['log', 'jumpA', 'condA', 'condB', 'labelA', 'labelB', 'ret', 'func1', 'call']


def statement(sym, i):
    if sym == 'log':
        return log(f'm{i}')
    if sym == 'assign':
        return append('a', str(i))
    if sym in ('jumpA', 'jumpB'):
        return {'jump': {'label': sym[-1]}}
    if sym in ('condA', 'condB'):
        return {'jump': {'label': sym[-1], 'expr': cond(f'c{i}')}}
    if sym in ('labelA', 'labelB'):
        return {'label': sym[-1]}
    if sym == 'ret':
        return {'return': {}}
    if sym == 'retv':
        return {'return': {'expr': {'binary': {'op': '+', 'left': {'variable': 'a'}, 'right': {'string': f'v{i}'}}}}}
    if sym in ('func0', 'func1'):
        return {'function': {'name': 'f', 'statements': FUNC_BODIES[int(sym[-1])](i)}}
    return {'expr': {'name': 'b', 'expr': {'function': {'name': 'f'}}}}


def gen_lists(alphabet, low, high):
    def gen(w, n):
        idx = 0
        for k in range(low, high + 1):
            for combo in itertools.product(range(len(alphabet)), repeat=k):
                if idx % n == w:
                    yield idx, [alphabet[i] for i in combo]
                idx += 1
    return gen


def run_list(case, ctx):
    model = {'statements': [statement(s, i) for i, s in enumerate(case)]}
    if len(case) <= 3:
        impl.validate_script(model)
    explore(model, ctx, str(case), limit=3 if len(case) > 4 else TAPE)


# ---------------------------------------------------------------------------------------------------------------
# B. function bodies x top-level lists
# ---------------------------------------------------------------------------------------------------------------

F_SYMS = ['log', 'assign', 'jumpA', 'condA', 'jumpB', 'labelA', 'labelB', 'retv', 'nested', 'callg']
M_SYMS = ['callf', 'log', 'condA', 'labelA', 'retf', 'redef']


def f_statement(sym, i):
    if sym == 'nested':
        return {'function': {'name': 'g', 'args': ['p'], 'statements': [log(f'g{i}'), {'jump': {'label': 'A', 'expr': {'variable': 'p'}}}, {'label': 'B'}, {'label': 'A'}]}}
    if sym == 'callg':
        return {'expr': {'name': 'a', 'expr': {'function': {'name': 'g', 'args': [cond(f'g{i}')]}}}}
    return statement(sym, i)


def m_statement(sym, i):
    if sym == 'callf':
        return {'expr': {'name': 'b', 'expr': {'function': {'name': 'f', 'args': [{'string': f'x{i}'}]}}}}
    if sym == 'retf':
        return {'return': {'expr': {'function': {'name': 'f'}}}}
    if sym == 'redef':
        return {'function': {'name': 'f', 'args': ['p'], 'statements': [log(f'redef{i}'), append('p', '!'), {'return': {'expr': {'variable': 'p'}}}]}}
    return statement(sym, f'M{i}')


def gen_functions(f_len, m_len):
    def gen(w, n):
        idx = 0
        for k in range(1, m_len + 1):
            for m in itertools.product(range(len(M_SYMS)), repeat=k):
                if not any(i in (0, 4) for i in m):
                    continue
                for j in range(0, f_len + 1):
                    for f in itertools.product(range(len(F_SYMS)), repeat=j):
                        if idx % n == w:
                            yield idx, [[F_SYMS[i] for i in f], [M_SYMS[i] for i in m]]
                        idx += 1
    return gen


def run_functions(case, ctx):
    f, m = case
    model = {'statements': [{'function': {'name': 'f', 'statements': [f_statement(s, i) for i, s in enumerate(f)]}}, *[m_statement(s, i) for i, s in enumerate(m)]]}
    explore(model, ctx, str(case), limit=3)


# ---------------------------------------------------------------------------------------------------------------
# C. truthiness of jump conditions, edited models, shared statement objects
# ---------------------------------------------------------------------------------------------------------------

def gen_truthy():
    for name in palette.ALL:
        for where in ('global', 'function'):
            yield [name, where]


def run_truthy(case, ctx):
    name, where = case
    value = palette.make(name)
    body = [{'jump': {'label': 'yes', 'expr': {'variable': 'value'}}}, {'return': {'expr': {'string': 'falls'}}}, {'label': 'yes'}, {'return': {'expr': {'string': 'jumps'}}}]
    if where == 'global':
        model = {'statements': body}
    else:
        model = {'statements': [{'function': {'name': 'f', 'statements': body}}, {'return': {'expr': {'function': {'name': 'f', 'args': []}}}}]}
    run = impl.run_script(model, {'value': value})
    want = 'jumps' if ref.truthy(value) else 'falls'
    ctx.states += 1
    ctx.traces += 1
    ctx.outcome((name, want))
    if run.kind != 'return' or run.value != want:
        ctx.fail('truthy', f'jump on {name} ({where}): {run.kind} {run.value!r}, expected {want}')


EDITS = ['prepend-log', 'prepend-label', 'drop-first', 'swap', 'rename-label']


def gen_edits(length):
    def gen(w, n):
        idx = 0
        for combo in itertools.product(SMALL[:7], repeat=length):
            if any(s.startswith(('jump', 'cond')) for s in combo):
                for edit in EDITS:
                    for scope in ('global', 'function'):
                        if idx % n == w:
                            yield idx, [list(combo), edit, scope]
                        idx += 1
    return gen


def run_edits(case, ctx):
    """A model may be edited between runs: the second run follows the edited model."""
    combo, edit, scope = case
    statements = [statement(s, i) for i, s in enumerate(combo)]
    if scope == 'global':
        model = {'statements': statements}
    else:
        model = {'statements': [{'function': {'name': 'f', 'statements': statements}}, {'return': {'expr': {'function': {'name': 'f'}}}}]}
    explore(model, ctx, f'{case} before', limit=2)
    if edit == 'prepend-log':
        statements.insert(0, log('new'))
    elif edit == 'prepend-label':
        statements.insert(0, {'label': 'A'})
    elif edit == 'drop-first':
        del statements[0]
    elif edit == 'swap':
        statements.reverse()
    else:
        for s in statements:
            if 'label' in s:
                s['label'] = 'B' if s['label'] == 'A' else 'A'
    explore(model, ctx, f'{case} after', limit=2)


def gen_shared():
    """The same statement objects in a function body and at top level, and the same list under two function names."""
    for combo in itertools.product(['log', 'condA', 'labelA', 'condB', 'retv', 'assign'], repeat=3):
        for shift in (0, 1):
            yield [list(combo), shift]


def run_shared(case, ctx):
    combo, shift = case
    statements = [statement(s, i) for i, s in enumerate(combo)]
    model = {'statements': [
        {'function': {'name': 'f', 'statements': statements}}, {'function': {'name': 'g', 'statements': statements[shift:]}},
        {'expr': {'name': 'x', 'expr': {'function': {'name': 'f'}}}}, {'expr': {'name': 'y', 'expr': {'function': {'name': 'g'}}}},
        *statements
    ]}
    explore(model, ctx, str(case), limit=4)


# ---------------------------------------------------------------------------------------------------------------
# the same in long statement lists
# ---------------------------------------------------------------------------------------------------------------

PADDED = [
    ['labelA', 'log', 'condA', 'labelA', 'log'], ['condA', 'log', 'labelA', 'log', 'labelA', 'log'], ['labelA', 'condB', 'log', 'labelB', 'condA'], ['jumpA', 'log', 'labelA', 'log', 'condA', 'ret'],
    ['labelA', 'log', 'labelB', 'condA', 'condB'], ['condB', 'condA', 'log', 'labelB', 'log', 'labelA'], ['func0', 'call', 'log', 'retv'], ['func1', 'call', 'func0', 'call'],
    ['labelB', 'func1', 'call', 'condB', 'retv', 'log'], ['log', 'labelA', 'assign', 'condA', 'retv'], ['condA', 'log', 'labelB'], ['labelA', 'labelB', 'condB', 'condA', 'labelB', 'log']
]
SIZES = [1, 7, 15, 31, 63, 64, 100, 127, 128, 129, 200, 255, 256, 300, 512, 1023, 1024, 1100]


def gen_padded():
    for p, symbols in enumerate(PADDED):
        for at in range(len(symbols) + 1):
            for size in SIZES:
                for where in ('top', 'function'):
                    yield [p, at, size, where]
        for size in (3, 17, 40, 80):
            for where in ('top', 'function'):
                yield [p, -1, size, where]


def run_padded(case, ctx):
    p, at, size, where = case
    symbols = PADDED[p]
    statements = []
    for i, sym in enumerate(symbols + [None]):
        if at in (-1, i):
            for n in range(size):
                statements.append([append('pad', '.'), {'label': f'pad{i}x{n}'}, {'jump': {'label': f'none{n}', 'expr': {'variable': 'null'}}}][n % 3])
        if sym is not None:
            statements.append(statement(sym, i))
    if where == 'function':
        statements = [{'function': {'name': 'outer', 'args': ['pad', 'a', 'b'], 'statements': statements}}, {'return': {'expr': {'function': {'name': 'outer', 'args': []}}}}]
    explore({'statements': statements}, ctx, str(case), limit=3)


def gen_parsed():
    for lines in itertools.product(["systemLog('m')", 'A:', 'B:', 'jump A', 'jumpif (cond("c")) A', 'jumpif (cond("d")) B', 'return a', "a = a + 'x'"], repeat=4):
        yield list(lines)


def run_parsed(case, ctx):
    """Source-level labels and jumps parse to the model that the line sequence spells, and run like it."""
    model = impl.parse_script('\n'.join(case) + '\n')
    want = []
    for line in case:
        if line == "systemLog('m')":
            want.append(log('m'))
        elif line.endswith(':'):
            want.append({'label': line[:-1]})
        elif line == 'jump A':
            want.append({'jump': {'label': 'A'}})
        elif line.startswith('jumpif'):
            want.append({'jump': {'label': line[-1], 'expr': cond(line[14])}})
        elif line == 'return a':
            want.append({'return': {'expr': {'variable': 'a'}}})
        else:
            want.append(append('a', 'x'))
    if model != {'statements': want}:
        ctx.fail('parse', f'{case}: {model}')
    explore(model, ctx, str(case), limit=2)


# ---------------------------------------------------------------------------------------------------------------
# D. execution leaves every part of a model as it was, whatever the model holds
# ---------------------------------------------------------------------------------------------------------------

ATOMS = [
    *({'number': n} for n in (0, 0.0, 1, 1.0, -1, -1.0, 2.5, -0.25, 7.0, 255.0, 65536.0, 1048577.0, 5000000.0, 2147483648.0, 9007199254740993.0, 1e15, 1e21, 1e300, 1e-9, 10 ** 30, True)),
    *({'string': s} for s in ('', 'a', ' a ', '5', '5.0', '007', 'null', 'true', '2024-01-02', 'a\nb', "it's", 'caf\u00e9', '{"a": 1}', 'x' * 100, 'a.b', 'lib.bare')),
    *({'variable': v} for v in ('null', 'true', 'false', 's', 'n', 'list', 'map', 'unset', 'arrayNew'))
]
SIMPLE = [{'number': 5000000.0}, {'string': 'a'}, {'variable': 'list'}, {'variable': 'map'}]
OPERATORS = ['**', '*', '/', '%', '+', '-', '<=', '<', '>=', '>', '==', '!=', '&&', '||']
# (name, number of arguments), library functions that read, keep or change what they are given
FUNCTIONS = [
    ('arrayNew', 0), ('arrayNew', 2), ('arrayCopy', 1), ('arrayExtend', 2), ('arrayPush', 2), ('arraySet', 3), ('arrayGet', 2), ('arraySort', 1), ('objectNew', 2), ('objectSet', 3),
    ('objectAssign', 2), ('objectGet', 2), ('stringNew', 1), ('stringUpper', 1), ('stringSplit', 2), ('mathMax', 2), ('mathRound', 2), ('numberToFixed', 2), ('numberParseFloat', 1),
    ('jsonParse', 1), ('jsonStringify', 2), ('regexNew', 1), ('datetimeNew', 3), ('schemaParse', 1), ('systemPartial', 2), ('systemGlobalSet', 2), ('systemLog', 1), ('systemType', 1),
    ('if', 0), ('if', 1), ('if', 2), ('if', 3), ('f', 0), ('f', 2), ('noSuchFunction', 1), ('s', 1), ('hostKeep', 2), ('hostFail', 1)
]
CHANGING = ('arrayPush', 'arraySet', 'arrayExtend', 'objectSet', 'objectAssign')  # never put a container into itself


def model_exprs(deep):
    yield from ATOMS
    for a in ATOMS:
        yield {'group': a}
        for op in ('-', '!'):
            yield {'unary': {'op': op, 'expr': a}}
        yield {'unary': {'op': '-', 'expr': {'group': {'unary': {'op': '-', 'expr': a}}}}}
        yield {'function': {'name': 'arrayNew', 'args': [a, {'group': a}, {'unary': {'op': '-', 'expr': a}}]}}
    for op in OPERATORS:
        for a in ATOMS:
            for b in ATOMS if deep else SIMPLE:
                if op == '**' and ref.typ(a.get('number')) == 'number' and ref.typ(b.get('number')) == 'number':
                    continue
                yield {'binary': {'op': op, 'left': a, 'right': b}}
                if not deep:
                    yield {'binary': {'op': op, 'left': b, 'right': a}}
    for name, count in FUNCTIONS:
        for a in ATOMS if count else ATOMS[:1]:
            for rest in itertools.product(SIMPLE[:2] if name in CHANGING else SIMPLE, repeat=max(count - 1, 0)):
                yield {'function': {'name': name, 'args': [a, *rest]}} if count else {'function': {'name': name}}
                if count == 0:
                    yield {'function': {'name': name, 'args': []}}


PLACES = ['value', 'statement', 'return', 'jump', 'function', 'argument', 'label-loop', 'include-after']


def placed(expr, place):
    if place == 'value':
        body = [{'expr': {'name': 'x', 'expr': expr}}, {'return': {'expr': {'variable': 'x'}}}]
    elif place == 'statement':
        body = [{'expr': {'expr': expr}}]
    elif place == 'return':
        body = [{'return': {'expr': expr}}]
    elif place == 'jump':
        body = [{'jump': {'label': 'end', 'expr': expr}}, {'expr': {'name': 'x', 'expr': expr}}, {'label': 'end'}]
    elif place == 'function':
        body = [{'function': {'name': 'g', 'args': ['p', 'q'], 'lastArgArray': True, 'statements': [{'expr': {'name': 'x', 'expr': expr}}, {'return': {'expr': expr}}]}},
                {'return': {'expr': {'function': {'name': 'g', 'args': [expr]}}}}]
    elif place == 'argument':
        body = [{'return': {'expr': {'function': {'name': 'f', 'args': [expr, {'function': {'name': 'f', 'args': [expr]}}]}}}}]
    elif place == 'label-loop':
        body = [{'label': 'top'}, {'expr': {'name': 'x', 'expr': expr}}, {'expr': {'name': 'k', 'expr': {'binary': {'op': '+', 'left': {'variable': 'k'}, 'right': {'number': 1}}}}},
                {'jump': {'label': 'top', 'expr': {'binary': {'op': '<', 'left': {'variable': 'k'}, 'right': {'number': 3}}}}}]
    else:
        body = [{'include': {'includes': [{'url': 'lib.bare'}, {'url': 'sys.bare', 'system': True}]}}, {'expr': {'expr': expr}}]
    first = {'function': {'name': 'f', 'args': ['p', 'q'], 'statements': [
        {'jump': {'label': 'out', 'expr': {'variable': 'q'}}}, {'return': {'expr': {'variable': 'p'}}}, {'label': 'out'},
        {'return': {'expr': {'function': {'name': 'arrayNew', 'args': [{'variable': 'p'}, {'variable': 'q'}]}}}}]}}
    return {'statements': [first, *body]}


def gen_intact(deep):
    def gen(w, n):
        idx = 0
        for expr in model_exprs(deep):
            for place in PLACES:
                if idx % n == w:
                    yield idx, [expr, place]
                idx += 1
    return gen


def parts(value, out):
    """Every container of a model with its identity, and every leaf with its type."""
    out.append((id(value), type(value).__name__) if isinstance(value, (dict, list)) else (type(value).__name__, repr(value)))
    if isinstance(value, dict):
        for k, v in value.items():
            out.append(k)
            parts(v, out)
    elif isinstance(value, list):
        for v in value:
            parts(v, out)
    return out


def run_intact(case, ctx):
    expr, place = case
    model = copy.deepcopy(placed(expr, place))
    frozen = parts(model, [])
    outcomes = []
    for config in ({}, {'debug': True}, {'systemPrefix': 'sys/'}):
        def fetch(request):
            return 'k = 1' if request['url'] in ('lib.bare', 'sys/sys.bare') else None

        def host_fail(_args, _options):
            raise ValueError('host')

        globals_ = {'s': 'text', 'n': 12.0, 'list': [3.0, 1, 'x'], 'map': {'a': 1, 'b': [2.0]}, 'k': 0, 'hostKeep': lambda a, _o: a, 'hostFail': host_fail}
        extra = dict(config)
        extra['fetchFn'] = fetch
        if place == 'include-after':
            extra['systemPrefix'] = 'sys/'
        run = impl.run_script(model, globals_, 40, **extra)
        ctx.states += 1
        ctx.transitions += run.count or 0
        if parts(model, []) != frozen:
            ctx.fail('model', f'{case} with {config}: execution changed the model to {model!r}')
        outcomes.append(run)
    # the model just executed and an equal, never executed one give the same results
    ctx.traces += 1
    results = [(r.kind, 'function' if callable(r.value) else ref.show(r.value), r.error, data(r.globals)) for r in outcomes]
    ctx.outcome(results[0])
    if results[1:] != results[:-1]:
        ctx.fail('repeat', f'{case}: repeated runs of one model give {results}')


def spaces(tier):
    deep = tier == 'thorough'
    return [
        Space('truthy', gen_truthy, run_truthy, f'a conditional jump on each of {len(palette.ALL)} values at top level and in a function'),
        Space('lists', gen_lists(ALPHABET, 0, 5 if not deep else 6), run_list,
              'every statement list of length <= 5 (6) over a 13-symbol alphabet x every tape of 3-4 condition answers, each run twice', sharded=True),
        Space('lists-small', gen_lists(SMALL, 6, 6 if not deep else 7), run_list, 'every statement list of length 6 (7) over a 9-symbol alphabet x every tape of 3 answers',
              sharded=True),
        Space('functions', gen_functions(3, 3), run_functions, 'every function body of length <= 3 over 10 symbols x every top-level list of length <= 3 over 6 symbols',
              sharded=True),
        Space('edits', gen_edits(3 if not deep else 4), run_edits, 'every list of 3 (4) statements over 7 symbols, run, edited in place in 5 ways, run again', sharded=True),
        Space('shared', gen_shared, run_shared, 'statement objects shared by two functions and the top level'),
        Space('intact', gen_intact(deep), run_intact, '45 literals and variables alone, under every unary, binary operator (x 4, thorough x 45) and in 37 call shapes, in 8 places, '
              'each run 3 times: every part of the model keeps its identity, type and value, and the results agree', sharded=True),
        Space('padded', gen_padded, run_padded, f'{len(PADDED)} jump programs with {SIZES} filler statements at every place, or everywhere, at top level and in a function'),
        Space('parsed', gen_parsed, run_parsed, 'every source text of 4 label/jump-level lines over 8'),
    ]
