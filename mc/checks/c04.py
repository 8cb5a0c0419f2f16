"""C04: scoping, calling convention and host globals."""

import itertools
import json

from mc import impl, prog, ref
from mc.core import Space

PROPERTY = 'C04'
LEVEL = 'model_checking'
RULE = ('every program / model of the listed finite spaces is run by execute_script and compared (result, log, globals, escaping error) with a big-step '
        'reference machine that has explicit scopes; distinct = distinct observed outcomes')
ASSUMPTIONS = [
    'a name bound to null in the nearest scope may either make the call null or raise "Undefined function"; it never falls through to a built-in',
    'calling a value that is not a function yields null',
    'duplicate parameter names and functions named like keywords are not covered'
]

N, S, V, C, B = (lambda n: ['n', n]), (lambda s: ['s', s]), (lambda v: ['v', v]), (lambda f, *a: ['c', f, list(a)]), (lambda o, l, r: ['b', o, l, r])


def x(name, expr):
    return ['x', name, expr]


def log(expr):
    return x(None, C('systemLog', expr))


# ---------------------------------------------------------------------------------------------------------------
# reference library (the few functions the programs use) on the big-step machine
# ---------------------------------------------------------------------------------------------------------------

def ref_globals(logs, box, user):
    def call(fn, args):
        return fn(box[0], args) if isinstance(fn, prog.Func) else fn(args)

    def global_set(args):
        box[0].globals[args[0]] = args[1]
        return args[1]

    def sort(args):
        arr, fn = args[0], args[1] if len(args) > 1 else None
        # insertion sort: the calls a comparison sort makes differ, so callbacks used here only depend on their arguments
        import functools  # pylint: disable=import-outside-toplevel
        arr.sort(key=functools.cmp_to_key(ref.compare if fn is None else (lambda p, q: call(fn, [p, q]))))
        return arr

    out = {
        'systemLog': lambda a: logs.append(ref.text(a[0] if a else None)),
        'stringLength': lambda a: len(a[0]) if a and isinstance(a[0], str) else None,
        'arrayNew': list,
        'arrayLength': lambda a: len(a[0]) if a and isinstance(a[0], list) else 0,
        'arrayPush': lambda a: (a[0].extend(a[1:]), a[0])[1],
        'jsonStringify': lambda a: ref.jtext(a[0] if a else None),
        'systemGlobalGet': lambda a: box[0].globals.get(a[0], a[1] if len(a) > 1 else None),
        'systemGlobalSet': global_set,
        'systemPartial': lambda a: (lambda more: call(a[0], a[1:] + more)),
        'arraySort': sort
    }
    for name in [k for k in out if k in user]:
        del out[name]
    out.update(user)
    return out


def ref_run(body, user, box=None):
    logs = []
    box = [None] if box is None else box
    machine = prog.Machine({}, ref_globals(logs, box, user), fuel=3000)
    box[0] = machine
    base = set(machine.globals) - set(user)
    error = None
    value = None
    try:
        value = machine.run(body)
        kind = 'return'
    except prog.UndefinedFunction as exc:
        kind, error = 'runtime-error', f'Undefined function "{exc.args[0]}"'
    return kind, value, logs, error, {k: v for k, v in machine.globals.items() if k not in base or isinstance(v, prog.Func) or not callable(v)}


def shape(v):
    """A printable form in which every function value is the same."""
    return 'function' if callable(v) else ref.show(v)


def check_program(body, user, ctx, what, mk_user=None, box=None):
    text = prog.source(body)
    kind, value, logs, error, globals_ = ref_run(body, user() if mk_user is None else mk_user(True), box)
    start = user() if mk_user is None else mk_user(False)
    keep = dict(start)
    script = impl.parse_script(text)
    run = impl.run_script(script, start, 3000)
    ctx.states += 1
    ctx.transitions += run.count or 0
    ctx.traces += 1
    got = (run.kind, shape(run.value), run.logs, run.error)
    want = (kind, shape(value), logs, error)
    ctx.outcome(got)
    if got != want:
        ctx.fail('outcome', f'{what}:\n{text}gives {got}\nexpected {want}')
    if run.globals is not start:
        ctx.fail('globals-object', f'{what}:\n{text}the globals object was replaced')
    lib = impl.lib()
    names = {k for k in start if k not in lib or start[k] is not lib[k]}
    for name in sorted(names | set(globals_)):
        if name in lib and name not in globals_ and name not in keep:
            ctx.fail('library', f'{what}:\n{text}library function {name} changed to {ref.show(start[name])}')
        a = shape(start[name]) if name in start else 'unset'
        b = shape(globals_[name]) if name in globals_ else 'unset'
        if a != b:
            ctx.fail('globals', f'{what}:\n{text}global {name} is {a}, expected {b}')


# ---------------------------------------------------------------------------------------------------------------
# A. parameter binding x arity x call path
# ---------------------------------------------------------------------------------------------------------------

PARAMS = ['p', 'q', 'r', 's']
PATHS = ['direct', 'variable', 'local', 'param', 'partial', 'partial2', 'host', 'host-noargs', 'global-get']


def gen_binding(deep):
    for nparams in range(0, 5):
        for last in ((False, True) if nparams else (False,)):
            for nargs in range(0, 7 if deep else 6):
                for path in PATHS:
                    splits = range(1, nargs + 1) if path == 'partial' else ([(i, j) for i in range(1, nargs) for j in range(1, nargs - i + 1)] if path == 'partial2' else [0])
                    for split in splits:
                        for kind in ('str', 'arr', 'null'):
                            yield [nparams, last, nargs, path, split, kind]


def run_binding(case, ctx):
    nparams, last, nargs, path, split, kind = case
    params = PARAMS[:nparams]
    body_f = [log(C('jsonStringify', C('arrayNew', *[V(p) for p in params])))]
    if last:
        body_f += [x(None, C('arrayPush', V(params[-1]), S('pushed'))), log(C('jsonStringify', V(params[-1])))]
    for p in params[:1]:
        body_f += [x(p, S('local')), log(V(p))]
    body_f.append(['ret', C('jsonStringify', C('arrayNew', *[V(p) for p in params]))])
    mk = {'str': lambda i: S(f'a{i}'), 'arr': lambda i: C('arrayNew', N(i)), 'null': lambda i: V('null') if i % 2 else N(i)}[kind]
    args = [mk(i) for i in range(nargs)]
    body = [x(p, S('global' + p)) for p in params]
    body.append(['func', 'f', params, last, body_f])
    host = {}
    if path == 'direct':
        body += [x('res', C('f', *args))]
    elif path == 'variable':
        body += [x('g', V('f')), x('res', C('g', *args))]
    elif path == 'local':
        body += [['func', 'outer', [], False, [x('g', V('f')), ['ret', C('g', *args)]]], x('res', C('outer'))]
    elif path == 'param':
        body += [['func', 'outer', ['f'], False, [['ret', C('f', *args)]]], x('h', V('f')), x('res', C('outer', V('h')))]
    elif path == 'partial':
        body += [x('g', C('systemPartial', V('f'), *args[:split])), x('res', C('g', *args[split:])), x('res2', C('g', *args[split:]))]
    elif path == 'partial2':
        i, j = split
        body += [x('g', C('systemPartial', C('systemPartial', V('f'), *args[:i]), *args[i:i + j])), x('res', C('g', *args[i + j:]))]
    elif path == 'global-get':
        body += [x('g', C('systemGlobalGet', S('f'))), x('res', C('g', *args))]
    elif path == 'host':
        body += [x('res', C('hostCall', V('f'), *args))]
    else:
        body += [x('res', C('f', *args)), x('res2', C('f'))]
    body += [log(C('jsonStringify', C('arrayNew', *[V(p) for p in params]))), ['ret', V('res')]]

    def mk_user(is_ref):
        if path != 'host':
            return {}
        if is_ref:
            return {'hostCall': None}
        return {'hostCall': lambda a, options: a[0](a[1:], options)}

    if path != 'host':
        check_program(body, dict, ctx, str(case))
    else:
        # the reference calls the function directly
        direct = [s if s[0] != 'x' or s[1] != 'res' else x('res', C('f', *args)) for s in body]
        text = prog.source(body)
        kind_, value, logs, error, _ = ref_run(direct, {})
        run = impl.run_script(impl.parse_script(text), mk_user(False), 3000)
        ctx.states += 1
        ctx.traces += 1
        got, want = (run.kind, shape(run.value), run.logs, run.error), (kind_, shape(value), logs, error)
        ctx.outcome(got)
        if got != want:
            ctx.fail('outcome', f'{case}:\n{text}gives {got}\nexpected {want}')


# every call gets argument values of its own: what an earlier or an inner call received and kept is never changed by a later one
KEEPERS = {
    'last': (['p'], True, [['ret', V('p')]]),
    'first-last': (['z', 'p'], True, [['ret', C('arrayNew', V('z'), V('p'))]]),
    'two-last': (['y', 'z', 'p'], True, [['ret', C('arrayNew', V('y'), V('z'), V('p'))]]),
    'new': (['y', 'z', 'p'], False, [['ret', C('arrayNew', V('y'), V('z'), V('p'))]]),
    'grow': (['p'], True, [x(None, C('arrayPush', V('p'), S('own'))), ['ret', V('p')]]),
    'library': None
}


def gen_kept():
    for keeper in KEEPERS:
        for bound_args in range(0, 5):
            for sizes in itertools.product(range(0, 4), repeat=2):
                for third in (0, 2):
                    for order in ('after', 'nested', 'in-function', 'partial-partial'):
                        yield [keeper, bound_args, [*sizes, third], order]


def run_kept(case, ctx):
    keeper, bound_args, sizes, order = case
    body = []
    if keeper == 'library':
        callee = V('arrayNew')
    else:
        params, last, fn_body = KEEPERS[keeper]
        body.append(['func', 'f', params, last, fn_body])
        callee = V('f')
    bound_exprs = [S(f'b{i}') for i in range(bound_args)]
    if order == 'partial-partial' and bound_args > 1:
        g = C('systemPartial', C('systemPartial', callee, *bound_exprs[:1]), *bound_exprs[1:])
    elif bound_args:
        g = C('systemPartial', callee, *bound_exprs)
    else:
        g = callee
    calls = [[S(f'c{k}{i}') for i in range(n)] for k, n in enumerate(sizes)]
    body.append(x('g', g))
    run = []
    if order == 'nested':
        run = [x('k1', C('g', C('g', *calls[1]), *calls[0])), x('k2', C('g', *calls[1], C('g', *calls[2]))), x('k3', C('g', *calls[2]))]
    else:
        run = [x(f'k{k + 1}', C('g', *calls[k])) for k in range(3)]
    show = C('jsonStringify', C('arrayNew', V('k1'), V('k2'), V('k3')))
    # mutating one kept array does not touch the others either
    more = [['ret', show]]
    tail = [log(show), ['if', [[C('isArray', V('k1')), [x(None, C('arrayPush', V('k1'), S('later')))]]], None], log(show)]
    if order == 'in-function':
        body += [['func', 'main', ['g'], False, run + tail + more], ['ret', C('main', V('g'))]]
    else:
        body += run + tail + more

    def mk_user(is_ref):
        return {'isArray': (lambda a: isinstance(a[0], list)) if is_ref else (lambda a, _o: isinstance(a[0], list))}

    check_program(body, dict, ctx, str(case), mk_user)


def gen_models():
    """Hand-built function models: args and lastArgArray present, absent, false."""
    for nparams in (0, 1, 2, 3):
        for last in (None, False, True):
            for nargs in range(0, 5):
                for args_key in (True, False):
                    if args_key and nargs == 0 or nargs:
                        yield [nparams, last, nargs, args_key]
                    elif nargs == 0:
                        yield [nparams, last, 0, False]


def run_models(case, ctx):
    nparams, last, nargs, args_key = case
    fn = {'name': 'f', 'statements': [{'return': {'expr': {'function': {'name': 'arrayNew', 'args': [{'variable': p} for p in PARAMS[:nparams]]}}}}]}
    if nparams:
        fn['args'] = PARAMS[:nparams]
    else:
        del fn['statements'][0]['return']['expr']['function']['args']
    if last is not None:
        fn['lastArgArray'] = last
    call = {'name': 'f'}
    if args_key:
        call['args'] = [{'string': f'a{i}'} for i in range(nargs)]
    elif nargs:
        return
    model = {'statements': [{'function': fn}, {'return': {'expr': {'function': call}}}]}
    impl.validate_script(model)
    run = impl.run_script(model)
    vals = [f'a{i}' for i in range(nargs)]
    want = [vals[i] if i < nargs else None for i in range(nparams)]
    if last and nparams:
        want[-1] = vals[nparams - 1:]
    ctx.states += 1
    ctx.traces += 1
    ctx.outcome(want)
    if run.kind != 'return' or run.value != want:
        ctx.fail('binding', f'{model}: {run.kind} {ref.show(run.value)} {run.error}, expected {want}')


# ---------------------------------------------------------------------------------------------------------------
# B. local / global name collisions: all small two-function programs
# ---------------------------------------------------------------------------------------------------------------

AB = log(B('+', B('+', V('a'), S(',')), V('b')))
F_ALPHA = [
    x('a', S('fa')), x('b', V('a')), x('a', B('+', V('a'), S('x'))), AB, x('b', C('g', V('a'))), x(None, C('systemGlobalSet', S('a'), S('S'))),
    ['ret', V('a')], x('b', C('systemGlobalGet', S('a'))), x('stringLength', V('g')), x('b', C('stringLength', S('abc'))),
    x('g', C('systemPartial', V('g'), V('a'))), ['if', [[B('==', V('a'), S('P')), [x('b', C('f', S('Q')))]]], None]
]
G_ALPHA = [x('a', S('ga')), ['ret', B('+', V('b'), V('a'))], x('b', S('gb')), log(B('+', V('a'), V('b'))), x(None, C('systemGlobalSet', S('b'), S('T'))), x('b', C('stringLength', S('abcde')))]
M_ALPHA = [x('a', S('G')), x(None, C('f')), x('b', C('f', S('P'))), AB, x('stringLength', V('f')), x('b', C('stringLength', S('abcd'))), ['ret', V('b')], x('g', V('f'))]


def sequences(alphabet, low, high):
    for k in range(low, high + 1):
        yield from itertools.product(range(len(alphabet)), repeat=k)


def gen_names(f_len, g_len, m_len, f_min=0):
    def gen(w, n):
        idx = 0
        for m in sequences(M_ALPHA, 1, m_len):
            if not any(i in (1, 2, 5) for i in m):
                continue  # no call
            for params in ([], ['a']):
                for g in sequences(G_ALPHA, 0, g_len):
                    for f in sequences(F_ALPHA, f_min, f_len):
                        if idx % n == w:
                            yield idx, [m, params, g, f]
                        idx += 1
    return gen


# for f bodies of length 3
MAINS = [(0, 2), (4, 5), (2, 2), (7, 2)]


def gen_long(w, n):
    idx = 0
    for m in MAINS:
        for params in ([], ['a']):
            for g in ((), (1,), (0, 1), (2, 3), (4, 1)):
                for f in itertools.product(range(len(F_ALPHA)), repeat=3):
                    if idx % n == w:
                        yield idx, [m, params, g, f]
                    idx += 1


def recursion(m, f, g):
    """True if f can call itself without end (through stringLength = f or g = f)."""
    return (4 in m or 7 in m) and (4 in f or 9 in f or 5 in g)


def run_names(case, ctx):
    m, params, g, f = case
    if recursion(m, f, g):
        return
    body = [
        ['func', 'f', params, False, [F_ALPHA[i] for i in f]],
        ['func', 'g', ['b'], False, [G_ALPHA[i] for i in g]],
        *[M_ALPHA[i] for i in m if M_ALPHA[i][0] != 'ret'], AB, *[M_ALPHA[i] for i in m if M_ALPHA[i][0] == 'ret'][:1]
    ]
    check_program(body, dict, ctx, str(case))


# ---------------------------------------------------------------------------------------------------------------
# C. recursion and callbacks keep their own locals
# ---------------------------------------------------------------------------------------------------------------

def rec_program(depth, pre, post, arity, last, mutual):
    """f(n, ...) logs its locals, calls itself (or its partner) with n - 1, and logs its locals again."""
    params = ['n', 'm', 'k'][:arity]
    recurse = ['if', [[B('>', V('n'), N(0)), [x('v', C('h' if mutual else 'f', B('-', V('n'), N(1)), V('n'), S('e')))]]], None]
    body_f = []
    if pre:
        body_f.append(x('t', B('+', S('t'), V('n'))))
    body_f.append(recurse)
    if post:
        body_f.append(x('u', B('+', S('u'), V('n'))))
    body_f.append(log(C('jsonStringify', C('arrayNew', V('t'), V('u'), V('v'), *[V(p) for p in params]))))
    body_f.append(['ret', B('+', V('n'), S('!'))])
    body = [x('t', S('gt')), x('u', S('gu')), ['func', 'f', params, last, body_f]]
    if mutual:
        body.append(['func', 'h', ['n', 'u'], False, [x('t', S('ht')), ['ret', B('+', C('f', V('n')), V('t'))]]])
    return body + [x('v', C('f', N(depth))), log(C('jsonStringify', C('arrayNew', V('t'), V('u'), V('v'))))]


def gen_recursion(deep):
    for depth in range(0, 6 if deep else 5):
        for pre in (0, 1):
            for post in (0, 1):
                for arity in (1, 2, 3):
                    for last in ((False, True) if arity > 1 else (False,)):
                        for mutual in (0, 1):
                            yield [depth, pre, post, arity, last, mutual]


def run_recursion(case, ctx):
    check_program(rec_program(*case), dict, ctx, str(case))


CALLBACK_VALUES = ['b', 'a', 'c']


def gen_callbacks():
    """arraySort with a script function, a partial and a shadowed name, called from global or function scope."""
    for arity in (0, 1, 2, 3):
        for last in ((False, True) if arity else (False,)):
            for where in ('global', 'function'):
                for how in ('name', 'variable', 'partial', 'local-shadow'):
                    for assigns in (0, 1):
                        for values in itertools.permutations(CALLBACK_VALUES):
                            yield [arity, last, where, how, assigns, list(values)]


def run_callbacks(case, ctx):
    arity, last, where, how, assigns, values = case
    params = (['z'] if how == 'partial' else []) + ['p', 'q', 'w'][:arity]
    body_c = []
    if assigns:
        body_c += [x('a', S('cb')), x('arr', S('cb'))]
    if last:
        key = C('jsonStringify', V(params[-1]))
        body_c += [['if', [[B('!=', C('arrayLength', V(params[-1])), N(2 - arity + 1)), [log(key)]]], None]]
    if arity == 3 and not last:
        body_c += [['if', [[B('!=', V('w'), V('null')), [log(S('third'))]]], None]]
    if how == 'partial':
        body_c += [['if', [[B('!=', V('z'), S('zz')), [log(S('z'))]]], None]]
    if arity >= 2 and not last:
        body_c += [['if', [[B('<', V('p'), V('q')), [['ret', N(1)]]], [B('>', V('p'), V('q')), [['ret', ['u', '-', N(1)]]]]], None]]
    body_c += [['ret', N(0)]]
    inner = [x('arr', C('arrayNew', *[S(v) for v in values]))]
    inner.append(x('a', S('mine')))
    if how == 'name':
        inner.append(x(None, C('arraySort', V('arr'), V('cmp'))))
    elif how == 'variable':
        inner += [x('c2', V('cmp')), x(None, C('arraySort', V('arr'), V('c2')))]
    elif how == 'partial':
        inner += [x(None, C('arraySort', V('arr'), C('systemPartial', V('cmp'), S('zz'))))]
    else:
        inner += [x('systemLog2', V('cmp')), x('cmp', S('shadow')), x(None, C('arraySort', V('arr'), V('systemLog2')))]
    inner += [log(C('jsonStringify', V('arr'))), log(V('a'))]
    if where == 'function':
        body = [x('a', S('ga')), ['func', 'cmp', params, last, body_c], ['func', 'main', [], False, inner], x(None, C('main')), log(V('a'))]
    else:
        body = [['func', 'cmp', params, last, body_c], *inner]
    check_program(body, dict, ctx, str(case))


# ---------------------------------------------------------------------------------------------------------------
# D. which binding a call reaches
# ---------------------------------------------------------------------------------------------------------------

BINDINGS = ['unset', 'fn', 'script', 'script-last', 'partial', 'partial-lib', 'callable', 'library', 'null', 'number', 'false', 'zero', 'string', 'array']
FUNCTIONS = ('fn', 'script', 'script-last', 'partial', 'partial-lib', 'callable')
CALL_NAMES = ['stringLength', 'len', 'abs', 'mathAbs', 'foo', 'text', 'rand', 'now', 'a']
LEN_ARGS = {'stringLength': 'abc', 'len': 'abc', 'text': 'abc', 'abs': -2.0, 'mathAbs': -2.0}
BUILTIN_RESULT = {'stringLength': 3, 'len': 3, 'text': 'abc', 'abs': 2, 'mathAbs': 2}
LIBRARY = ('stringLength', 'mathAbs')
ALIAS = ('len', 'abs', 'text', 'rand', 'now')


SCRIPTED = {}


class Callable:
    """A host function that is an object with __call__ (and that is falsy)."""
    def __init__(self, tag):
        self.tag = tag

    def __call__(self, args, options):
        return f'{self.tag}:{len(args)}'

    def __len__(self):
        return 0


def scripted(kind, tag):
    """A function value made by a script: a function statement or a partial application."""
    if (kind, tag) not in SCRIPTED:
        text = {
            'script': f"function made(p, q):\n  return '{tag}:' + if(p == null, 0, if(q == null, 1, 2))\nendfunction\n",
            'script-last': f"function made(p...):\n  return '{tag}:' + arrayLength(p)\nendfunction\n",
            'partial': f"function base(z, p, q):\n  return z + ':' + if(p == null, 0, if(q == null, 1, 2))\nendfunction\nmade = systemPartial(base, '{tag}')\n",
            'partial-lib': f"function base(z, p...):\n  return z + ':' + arrayLength(p)\nendfunction\nmade = systemPartial(base, '{tag}')\n"
        }[kind].replace('if(p == null, 0, if(q == null, 1, 2))', '(p != null && q != null && 2 || p != null && 1 || 0)')
        options = {'globals': {}}
        impl.execute_script(impl.parse_script(text), options)
        SCRIPTED[(kind, tag)] = options['globals']['made']
    return SCRIPTED[(kind, tag)]


def bound(kind, tag):
    if kind == 'fn':
        return lambda args, options: f'{tag}:{len(args)}'
    if kind in ('script', 'script-last', 'partial', 'partial-lib'):
        return scripted(kind, tag)
    if kind == 'callable':
        return Callable(tag)
    if kind == 'library':
        return impl.lib()['arrayNew']
    if kind == 'array':
        return ['v']
    return {'null': None, 'number': 7.0, 'false': False, 'zero': 0.0, 'string': 'x'}[kind]


# where the call stands: (text, model, a value that came through unchanged)
CONTEXTS = [
    ('{}', lambda e: e),
    ('({})', lambda e: {'group': e}),
    ('if(true, {})', lambda e: {'function': {'name': 'if', 'args': [{'variable': 'true'}, e]}}),
    ('if(false, 0, ({}))', lambda e: {'function': {'name': 'if', 'args': [{'variable': 'false'}, {'number': 0.0}, {'group': e}]}}),
    ('1 && {}', lambda e: {'binary': {'op': '&&', 'left': {'number': 1.0}, 'right': e}}),
    ('null || {}', lambda e: {'binary': {'op': '||', 'left': {'variable': 'null'}, 'right': e}}),
    ('{} || null', lambda e: {'binary': {'op': '||', 'left': e, 'right': {'variable': 'null'}}}),
    ('idf(0, {})', lambda e: {'function': {'name': 'idf', 'args': [{'number': 0.0}, e]}}),
    ('if({} == null || true, null || (1 && idf(0, {})))', lambda e: {'function': {'name': 'if', 'args': [
        {'binary': {'op': '||', 'left': {'binary': {'op': '==', 'left': e, 'right': {'variable': 'null'}}}, 'right': {'variable': 'true'}}},
        {'binary': {'op': '||', 'left': {'variable': 'null'}, 'right': {'group': {'binary': {'op': '&&', 'left': {'number': 1.0}, 'right': {
            'function': {'name': 'idf', 'args': [{'number': 0.0}, e]}}}}}}}]}}),
    ('if(!{} && false, 0, idf(0, {}))', lambda e: {'function': {'name': 'if', 'args': [
        {'binary': {'op': '&&', 'left': {'unary': {'op': '!', 'expr': e}}, 'right': {'variable': 'false'}}}, {'number': 0.0},
        {'function': {'name': 'idf', 'args': [{'number': 0.0}, e]}}]}}),
    # the value is lost here: only whether the call is an error is judged
    ('1 == {}', lambda e: {'binary': {'op': '==', 'left': {'number': 1.0}, 'right': e}}),
    ("'' + {}", lambda e: {'binary': {'op': '+', 'left': {'string': ''}, 'right': e}}),
    ('!{}', lambda e: {'unary': {'op': '!', 'expr': e}}),
    ('-{}', lambda e: {'unary': {'op': '-', 'expr': e}}),
    ('(1 == {}) < 2', lambda e: {'binary': {'op': '<', 'left': {'group': {'binary': {'op': '==', 'left': {'number': 1.0}, 'right': e}}}, 'right': {'number': 2.0}}}),
]
LOOSE = 10


def gen_contexts():
    for context in range(1, len(CONTEXTS)):
        for name in CALL_NAMES:
            for glob in ('unset', 'fn', 'script', 'library', 'array'):
                for loc in ('absent', 'unset', 'fn', 'number'):
                    for mode in ('script', 'expression', 'expression-nobuiltins', 'row'):
                        yield [name, glob, loc, mode, context]


STATEMENTS = {
    'expr': lambda e: [{'expr': {'expr': e}}],
    'assign': lambda e: [{'expr': {'name': 'theResult', 'expr': e}}, {'return': {'expr': {'variable': 'theResult'}}}],
    'return': lambda e: [{'return': {'expr': e}}],
    'jump': lambda e: [{'jump': {'label': 'here', 'expr': e}}, {'label': 'here'}]
}


def gen_statements():
    for name in CALL_NAMES:
        for glob in ('unset', 'fn', 'script', 'library', 'array'):
            for statement in STATEMENTS:
                for level in ('top', 'function', 'partial', 'last-arg', 'callback', 'include'):
                    for context in (0, 1, 7, 8):
                        yield [name, glob, statement, level, context]


def run_statements(case, ctx):
    """An expression means the same in every kind of statement and whoever runs the function: no expression built-ins in scripts."""
    name, glob, statement, level, context = case
    arg = LEN_ARGS.get(name, 'abc')
    expr = CONTEXTS[context][1]({'function': {'name': name, 'args': [{'string': arg} if isinstance(arg, str) else {'number': arg}]}})
    globals_ = {} if glob == 'unset' else {name: bound(glob, 'global')}
    globals_['idf'] = lambda args, options: args[1]
    body = STATEMENTS[statement](expr)
    var = {'variable': 'theFunction'}
    fetched = None
    if level == 'top':
        statements = body
    elif level == 'include':
        if context or statement == 'jump':
            return
        text = f"{name}('{arg}')" if isinstance(arg, str) else f'{name}(-2)'
        fetched = {'expr': text, 'assign': f'theResult = {text}', 'return': f'return {text}'}[statement]
        statements = [{'include': {'includes': [{'url': 'u.bare'}]}}]
    else:
        fn = {'name': 'theFunction', 'statements': body}
        call = {'function': {'name': 'theFunction', 'args': [{'number': 1.0}]}}
        if level == 'partial':
            call = {'function': {'name': 'thePartial', 'args': []}}
        elif level == 'last-arg':
            fn.update(args=['a0', 'rest'], lastArgArray=True)
        elif level == 'callback':
            call = {'function': {'name': 'arrayIndexOf', 'args': [{'function': {'name': 'arrayNew', 'args': [{'number': 1.0}]}}, var]}}
        statements = [{'function': fn}, {'return': {'expr': call}}]
        if level == 'partial':
            statements.insert(1, {'expr': {'name': 'thePartial', 'expr': {'function': {'name': 'systemPartial', 'args': [var, {'number': 1.0}]}}}})
    options = {'globals': globals_}
    if fetched is not None:
        options['fetchFn'] = lambda request: fetched
    error = value = None
    try:
        value = impl.execute_script({'statements': statements}, options)
    except impl.BareScriptRuntimeError as exc:
        error = str(exc)
    if level == 'include' and statement == 'assign':
        value = globals_.get('theResult')
    ctx.states += 1
    ctx.traces += 1
    ctx.outcome((case, ref.show(value), error))
    if glob == 'unset' and name not in LIBRARY:
        if error != f'Undefined function "{name}"':
            ctx.fail('call', f'{case}: {ref.show(value)} {error}, expected the undefined function error')
        return
    if statement in ('assign', 'return') and level not in ('callback', 'include') or level == 'include' and statement == 'assign':
        want = {'unset': BUILTIN_RESULT.get(name), 'fn': 'global:1', 'script': 'global:1', 'library': [arg], 'array': None}[glob]
        if error is not None or value != want:
            ctx.fail('call', f'{case}: {ref.show(value)} {error}, expected {ref.show(want)}')
    elif error is not None:
        ctx.fail('call', f'{case}: {error}')


def gen_calls():
    for name in CALL_NAMES:
        for glob in BINDINGS:
            for loc in ['absent', *BINDINGS]:
                for mode in ('script', 'expression', 'expression-nobuiltins', 'row'):
                    yield [name, glob, loc, mode]


def run_calls(case, ctx):
    name, glob, loc, mode = case[:4]
    wrap_text, wrap = CONTEXTS[case[4] if len(case) > 4 else 0]
    arg = LEN_ARGS.get(name, 'abc')
    expr = wrap({'function': {'name': name, 'args': [{'string': arg} if isinstance(arg, str) else {'number': arg}]}})
    globals_ = {} if glob == 'unset' else {name: bound(glob, 'global')}
    globals_['idf'] = lambda args, options: args[1]
    if mode in ('expression', 'expression-nobuiltins'):
        # the host evaluates an expression with the options object of an earlier, empty, script run
        options = {'globals': globals_}
        impl.execute_script({'statements': []}, options)
        if glob == 'unset':
            globals_.pop(name, None)
    error = None
    value = None
    try:
        if mode == 'script':
            # the local binding is a parameter
            if loc == 'absent':
                run = impl.run_script({'statements': [{'return': {'expr': expr}}]}, globals_)
            else:
                if loc == 'unset':
                    fn = {'name': 'theFunction', 'args': ['other'], 'statements': [{'return': {'expr': expr}}]}
                else:
                    fn = {'name': 'theFunction', 'args': [name], 'statements': [{'return': {'expr': expr}}]}
                    globals_['theValue'] = bound(loc, 'local')
                call = {'function': {'name': 'theFunction', 'args': [{'variable': 'theValue'}]}}
                run = impl.run_script({'statements': [{'function': fn}, {'return': {'expr': call}}]}, globals_)
            value, error = run.value, run.error
        elif mode == 'row':
            # data expressions: the row is the local scope
            row = {'z': 1.0} if loc in ('absent', 'unset') else {'z': 1.0, name: bound(loc, 'local')}
            text = wrap_text.replace('{}', f"{name}('{arg}')" if isinstance(arg, str) else f'{name}(-2)')
            globals_.update({'row': row})
            call = {'function': {'name': 'dataCalculatedField', 'args': [{'function': {'name': 'arrayNew', 'args': [{'variable': 'row'}]}}, {'string': 'out'},
                                                                        {'string': text}]}}
            run = impl.run_script({'statements': [{'expr': {'expr': call}}]}, globals_)
            value, error = row.get('out'), run.error
        else:
            locals_ = None if loc == 'absent' else ({} if loc == 'unset' else {name: bound(loc, 'local')})
            if mode == 'expression':
                value = impl.evaluate_expression(expr, options, locals_)
            else:
                value = impl.evaluate_expression(expr, options, locals_, False)
    except impl.BareScriptRuntimeError as exc:
        error = str(exc)
    # expected
    near = loc if loc not in ('absent', 'unset') else glob
    tag = 'local' if loc not in ('absent', 'unset') else 'global'
    ctx.states += 1
    ctx.traces += 1
    ctx.outcome((case, ref.show(value), error))
    undefined = f'Undefined function "{name}"'
    if len(case) > 4 and case[4] >= LOOSE:
        known = mode in ('script', 'row') and name in LIBRARY or mode in ('expression', 'row') and name in ALIAS
        want = undefined if near == 'unset' and not known else None
        if error != want:
            ctx.fail('call', f'{case}: {ref.show(value)} {error}, expected error {want}')
        return
    if near == 'library':
        if error is not None or value != [arg]:
            ctx.fail('call', f'{case}: {ref.show(value)} {error}, expected arrayNew of the argument')
    elif near in FUNCTIONS:
        if error is not None or value != f'{tag}:1':
            ctx.fail('call', f'{case}: {ref.show(value)} {error}, expected the {tag} function')
    elif near == 'unset':
        known = name in ALIAS or False
        is_library = mode in ('script', 'row') and name in LIBRARY
        is_builtin = mode in ('expression', 'row') and name in ALIAS
        if is_library or is_builtin:
            if error is not None or (name in BUILTIN_RESULT and value != BUILTIN_RESULT[name]):
                ctx.fail('call', f'{case}: {ref.show(value)} {error}, expected the built-in')
        elif error != undefined:
            ctx.fail('call', f'{case}: {ref.show(value)} {error}, expected {undefined} ({known})')
    elif near == 'null':
        if not (error == undefined or (error is None and value is None)):
            ctx.fail('call', f'{case}: {ref.show(value)} {error}, expected {undefined} or null')
    elif error is not None or value is not None:
        ctx.fail('call', f'{case}: {ref.show(value)} {error}, expected null')


# ---------------------------------------------------------------------------------------------------------------
# E. host configurations of pre-populated globals
# ---------------------------------------------------------------------------------------------------------------

HOST_KINDS = ['fn', 'script', 'partial', 'callable', 'library', 'array', 'null', 'false', 'zero', 'string', 'number']


def gen_host():
    for name in sorted(impl.lib()):
        for kind in HOST_KINDS:
            for how in ('one', 'two-runs', 'script-defines', 'script-assigns', 'nested-define'):
                yield [name, kind, how]
    for kind in HOST_KINDS:
        yield ['*', kind, 'all']
    yield ['', '', 'empty']
    yield ['', '', 'none']
    yield ['', '', 'no-options']


def run_host(case, ctx):
    name, kind, how = case
    lib = impl.lib()
    ctx.states += 1
    ctx.traces += 1
    define = {'function': {'name': name, 'statements': [{'return': {'expr': {'string': 'mine'}}}]}}
    call = {'function': {'name': name, 'args': []}}
    if how == 'all':
        globals_ = {n: bound(kind, n) for n in lib}
        keep = dict(globals_)
        impl.execute_script({'statements': []}, {'globals': globals_})
        bad = [n for n in keep if globals_[n] is not keep[n]]
        if bad or set(globals_) != set(keep):
            ctx.fail('host-global', f'all library names supplied as {kind}: {bad[:5]} overwritten, {sorted(set(globals_) ^ set(keep))[:5]}')
        return
    if how in ('empty', 'none', 'no-options'):
        if how == 'no-options':
            value = impl.execute_script({'statements': [{'return': {'expr': {'function': {'name': 'stringLength', 'args': [{'string': 'ab'}]}}}}]})
            if value != 2:
                ctx.fail('host-global', f'without options: {value}')
            return
        options = {'globals': {}} if how == 'empty' else ({'globals': None} if name else {})
        given = options.get('globals')
        impl.execute_script({'statements': [{'expr': {'name': 'out', 'expr': {'string': 'v'}}}]}, options)
        if given is not None and (options['globals'] is not given or given.get('out') != 'v'):
            ctx.fail('globals-object', f'{how}: top-level assignment did not write the supplied globals')
        if options['globals'].get('out') != 'v':
            ctx.fail('globals-object', f'{how}: {sorted(options["globals"])[:4]}')
        return
    value = bound(kind, 'host')
    globals_ = {name: value, 'other': 'o'}
    options = {'globals': globals_}
    if how in ('one', 'two-runs'):
        script = {'statements': [{'return': {'expr': {'variable': name}}}]}
        for _ in range(2 if how == 'two-runs' else 1):
            got = impl.execute_script(script, options)
            if got is not value or globals_[name] is not value:
                ctx.fail('host-global', f'{case}: the supplied value {ref.show(value)} became {ref.show(globals_[name])}')
    else:
        if how == 'script-defines':
            script = {'statements': [define, {'return': {'expr': call}}]}
        elif how == 'nested-define':
            # a function statement inside a function binds the global
            script = {'statements': [{'function': {'name': 'outerFunction', 'statements': [define]}}, {'expr': {'expr': {'function': {'name': 'outerFunction', 'args': []}}}},
                                     {'return': {'expr': call}}]}
        else:
            script = {'statements': [{'expr': {'name': name, 'expr': {'string': 'mine'}}}, {'return': {'expr': {'variable': name}}}]}
        got = impl.execute_script(script, options)
        mine = globals_[name]
        if got != 'mine' or (mine != 'mine' if how == 'script-assigns' else not callable(mine)):
            ctx.fail('replace', f'{case}: {ref.show(got)}, global {ref.show(mine)}')
        # a second run keeps the script's own function
        got = impl.execute_script({'statements': [{'return': {'expr': call if how != 'script-assigns' else {'variable': name}}}]}, options)
        if got != 'mine' or globals_[name] is not mine:
            ctx.fail('replace', f'{case} second run: {ref.show(got)}')
    if globals_.get('other') != 'o':
        ctx.fail('host-global', f'{case}: an unrelated global changed')
    missing = [n for n in lib if n not in globals_]
    wrong = [n for n in lib if n != name and globals_.get(n) is not lib[n]]
    if missing or wrong:
        ctx.fail('library', f'{case}: library functions missing {missing[:4]} or replaced {wrong[:4]}')
    ctx.outcome((kind, how))


# ---------------------------------------------------------------------------------------------------------------
# D. histories: runs before (some aborted inside calls), and calls aborted and survived within the run
# ---------------------------------------------------------------------------------------------------------------

# each disturber leaves calls unfinished in some way; all use the names the probes read
DISTURBERS = {
    'none': None,
    'undefined-in-f': 'function f(a, b):\nc = 5\nd = 6\nnoSuchFunction()\nendfunction\nf(1, 2)\n',
    'undefined-in-g': 'function g(a...):\nc = 5\nd = 6\nnoSuchFunction()\nendfunction\nfunction f(a, b):\nc = 7\nb = g(a, 1, 2)\nendfunction\nf(1)\n',
    'undefined-argument': 'function f(a, b, c, d):\nreturn 1\nendfunction\nfunction g():\nc = 5\nf(1, 2, noSuchFunction())\nendfunction\ng()\n',
    'limit': 'function f(a, b):\nc = 5\nd = 6\nwhile true:\na = a + 1\nendwhile\nendfunction\nf(1, 2)\n',
    'limit-recursion': 'function f(a, b...):\nc = 5\nd = 6\nf(a + 1, c)\nendfunction\nf(1, 2)\n',
    'jump': {'statements': [
        {'function': {'name': 'f', 'args': ['a', 'b'], 'statements': [{'expr': {'name': 'c', 'expr': {'number': 5}}}, {'jump': {'label': 'nowhere'}}]}},
        {'expr': {'expr': {'function': {'name': 'f', 'args': [{'number': 1}]}}}}
    ]},
    'include': 'function f(a):\nc = 5\nd = 6\ninclude \'missing.bare\'\nendfunction\nf(1)\n',
    'host-raises': 'function f(a):\nc = 5\nd = hostRaise(a)\nreturn c\nendfunction\nf(1)\n',
    'host-aborts': 'function f(a):\nc = 5\nd = hostAbort(a)\nreturn c\nendfunction\nf(1)\n',
    'sort-callback': 'function f(a, b):\nc = 5\nnoSuchFunction()\nendfunction\narraySort(arrayNew(1, 2, 3), f)\n',
    'partial': 'function f(a, b...):\nc = 5\nnoSuchFunction()\nendfunction\ng = systemPartial(f, 1, 2)\ng(3, 4)\n',
    'data-callback': "function f(a):\nc = 5\nnoSuchFunction()\nendfunction\ndataFilter(arrayNew(objectNew('a', 1)), 'f(a)')\n",
    'completes': 'function f(a, b...):\nc = 5\nd = 6\nreturn b\nendfunction\nf(1, 2)\nf()\nc = 7\nd = 8\n'
}
CD = log(C('jsonStringify', C('arrayNew', V('a'), V('b'), V('c'), V('d'))))
PROBES = {
    'reads': [['func', 'f', ['a', 'b'], False, [CD, x('c', S('k')), CD]], x(None, C('f', S('A'))), x(None, C('f')), CD],
    'no-parameters': [['func', 'g', [], False, [CD, ['ret', V('d')]]], ['ret', C('g')]],
    'last': [['func', 'f', ['a', 'b'], True, [CD, x(None, C('arrayPush', V('b'), S('own'))), ['ret', V('b')]]],
             x('k', C('f')), x('l', C('f', S('A'))), x('m', C('f', S('A'), S('B'))), log(C('jsonStringify', C('arrayNew', V('k'), V('l'), V('m'))))],
    'nested': [['func', 'g', ['a'], False, [CD, x('d', S('dg')), CD]], ['func', 'f', ['b'], False, [CD, x('c', S('cf')), x(None, C('g', V('b'))), CD]], x(None, C('f', S('B'))), x(None, C('g'))],
    'recursion': [['func', 'f', ['a', 'b'], False, [CD, ['if', [[B('==', V('a'), S('x')), [x('c', S('cx')), x(None, C('f', S('y'), V('c'))), CD]]], None]]], x(None, C('f', S('x'), S('B')))],
    'callback': [['func', 'f', ['a', 'b', 'c'], False, [log(C('jsonStringify', C('arrayNew', V('c'), V('d')))), x('c', S('cc')), ['ret', B('-', V('a'), V('b'))]]],
                 ['ret', C('arraySort', C('arrayNew', N(2), N(1)), V('f'))]],
    'globals': [x('a', S('ga')), x('d', S('gd')), ['func', 'f', ['a', 'b'], False, [CD, x('d', S('fd')), CD]], x(None, C('f')), CD],
    'partial': [['func', 'f', ['a', 'b'], False, [CD, ['ret', V('c')]]], x('g', C('systemPartial', V('f'), S('bound'))), x(None, C('g', S('more'))), ['ret', C('g')]]
}


def gen_histories(deep):
    names = list(DISTURBERS)
    pairs = list(itertools.product(names, repeat=3 if deep else 2))
    for before in pairs:
        for probe in PROBES:
            for shared in (False, True):
                yield [list(before), probe, shared]
    for catcher in ('catch', 'catch-deep', 'catch-twice'):
        for abort in ('undefined', 'undefined-g', 'argument'):
            for probe in PROBES:
                yield [catcher, abort, probe]


def _host_abort(_args, _options):
    raise impl.BareScriptRuntimeError('host abort')


def _host_raise(_args, _options):
    raise ValueError('host')


def disturb(name, globals_):
    script = DISTURBERS[name]
    if script is None:
        return
    model = impl.parse_script(script) if isinstance(script, str) else script
    run = impl.run_script(model, globals_, 60)
    want = 'return' if name in ('completes', 'host-raises') else 'runtime-error'
    if run.kind != want and name != 'data-callback':
        raise RuntimeError(f'disturber {name}: {run.kind} {run.error}')


def run_histories(case, ctx):
    first, second, last = case
    if isinstance(first, list):
        # other runs, aborted or not, in globals of their own or all in one set of globals
        kept = {'hostRaise': _host_raise, 'hostAbort': _host_abort}
        for name in first:
            disturb(name, kept if last else {'hostRaise': _host_raise, 'hostAbort': _host_abort})
        check_program(PROBES[second], dict, ctx, str(case))
        return

    # a host function calls a script function, survives its failure, and the script goes on
    aborted = {
        'undefined': [x('c', S('aborted')), x('d', S('aborted')), x(None, C('noSuchFunction'))],
        'undefined-g': [x('c', S('aborted')), x(None, C('h2', S('x')))],
        'argument': [x('d', S('aborted')), x(None, C('h2', S('x'), C('noSuchFunction')))]
    }[second]
    body = [['func', 'h', ['a', 'b'], True, aborted], ['func', 'h2', ['b'], False, [x('d', S('aborted')), x(None, C('noSuchFunction'))]]]
    if first == 'catch-deep':
        body += [['func', 'h3', ['a'], False, [x('c', S('outer')), CD, x('b', C('catch', V('h'), S('1'), S('2'))), CD]], x(None, C('h3', S('3')))]
    else:
        body += [x('e', C('catch', V('h'), S('1'), S('2')))] * (2 if first == 'catch-twice' else 1) + [log(V('e'))]

    def mk_user(is_ref):
        def ref_catch(args):
            try:
                return args[0](box[0], args[1:]) if isinstance(args[0], prog.Func) else args[0](args[1:])
            except prog.UndefinedFunction:
                return 'caught'

        def host_catch(args, options):
            try:
                return args[0](args[1:], options)
            except impl.BareScriptRuntimeError:
                return 'caught'
        return {'catch': ref_catch if is_ref else host_catch}

    box = [None]
    check_program(body + PROBES[last], dict, ctx, str(case), mk_user, box)


# ---------------------------------------------------------------------------------------------------------------
# a host (or library) function that keeps using the argument list it called a script function with
# ---------------------------------------------------------------------------------------------------------------

HOST_PARAMS = [([], False), (['a'], False), (['a'], True), (['a', 'b'], False), (['a', 'b'], True), (['a', 'b', 'c'], True)]
HOST_STATEMENTS = {
    'push': lambda n: f'arrayPush({n}, 9)', 'set': lambda n: f'arraySet({n}, 0, 8)', 'pop': lambda n: f'arrayPop({n})', 'shift': lambda n: f'arrayShift({n})',
    'extend': lambda n: f'arrayExtend({n}, arrayNew(6, 7))', 'assign': lambda n: f'{n} = 5', 'delete': lambda n: f'arrayDelete({n}, 0)'
}
HOST_VIAS = ('global', 'argument', 'partial', 'value')


def gen_host_calls():
    for ix_params, (params, _) in enumerate(HOST_PARAMS):
        bodies = [[]] + [[s] for s in HOST_STATEMENTS] + [[s, t] for s in HOST_STATEMENTS for t in HOST_STATEMENTS]
        for body in bodies if params else [[]]:
            for count in range(6):
                for via in HOST_VIAS:
                    yield [ix_params, body, count, via]


def _host_model(params, last, body, args):
    """The values of the parameters after the body, by the plain reading of the calling convention"""
    local = {}
    for ix, name in enumerate(params):
        local[name] = (list(args[ix:]) if last and ix == len(params) - 1 else args[ix] if ix < len(args) else None)
    for statement in body:
        name = params[-1]
        value = local[name]
        if statement == 'assign':
            local[name] = 5
        elif isinstance(value, list):
            if statement == 'push':
                value.append(9)
            elif statement == 'set' and value:
                value[0] = 8
            elif statement == 'pop' and value:
                value.pop()
            elif statement in ('shift', 'delete') and value:
                del value[0]
            elif statement == 'extend':
                value.extend([6, 7])
    return [local[name] for name in params]


def run_host_calls(case, ctx):
    ix_params, body, count, via = case
    params, last = HOST_PARAMS[ix_params]
    signature = ', '.join(params) + ('...' if last else '')
    lines = [f'function f({signature}):'] + ['    ' + HOST_STATEMENTS[s](params[-1]) for s in body] + [f'    return arrayNew({", ".join(params)})', 'endfunction']
    call = {'global': 'host()', 'argument': 'host(f)', 'partial': "host(systemPartial(f, 'p'))", 'value': 'host(objectNew("fn", f))'}[via]
    source = '\n'.join(lines + [f'return {call}'])
    text = json.dumps(['args %d' % count, source])
    seen = []

    def host(args, options):
        func = options['globals']['f'] if not args else args[0] if not isinstance(args[0], dict) else args[0]['fn']
        mine = [f'v{ix}' for ix in range(count)]
        results = []
        for _ in range(3):
            results.append(func(mine, options))
            seen.append(list(mine))
        return results

    want_args = [f'v{ix}' for ix in range(count)]
    want = _host_model(params, last, body, (['p'] if via == 'partial' else []) + want_args)
    run = impl.run_script(impl.parse_script(source), {'host': host})
    kind, got = run.kind, run.value
    ctx.states += 3
    ctx.traces += 1
    if seen != [want_args] * 3:
        ctx.fail('host-arguments', f"{text}: the host function's own argument list became {seen}")
    elif got != [want] * 3:
        ctx.fail('host-arguments', f'{text}: three calls gave {kind} {got} {run.error}, each should give {want}')
    ctx.outcome([seen, repr(got)])


# ---------------------------------------------------------------------------------------------------------------
# systemGlobalGet and systemGlobalSet reach the globals whatever locals are in the way
# ---------------------------------------------------------------------------------------------------------------

ACCESS_KINDS = HOST_KINDS + ['script-last', 'absent']
ACCESS_WHERE = {
    'top': None,
    'function': 'function run():\n{body}endfunction\nout = run()\n',
    'local': 'function run():\n{name} = "local"\n{body}endfunction\nout = run()\n',
    'parameter': 'function run({name}):\n{body}endfunction\nout = run("local")\n',
    'trailing': 'function run({name}...):\n{body}endfunction\nout = run("local")\n',
    'partial': 'function run(a, {name}):\n{body}endfunction\npart = systemPartial(run, 1)\nout = part("local")\n',
    'callback': 'function run({name}):\nout2 = helper("{name}")\nsystemGlobalSet("out", out2)\nreturn true\nendfunction\n'
                'function helper({name}):\n{body}endfunction\narrayIndexOf(arrayNew("local"), run)\n',
}


def gen_accessors():
    for name in ('x', 'stringLength', 'abs'):
        for kind in ACCESS_KINDS:
            for where in ACCESS_WHERE:
                for how in ('get', 'get-default', 'get-null-default', 'set', 'set-set', 'delete'):
                    for second in (ACCESS_KINDS[:-1] if how in ('set', 'set-set') else ['']):
                        yield [name, kind, where, how, second]


def run_accessors(case, ctx):
    name, kind, where, how, second = case
    ctx.states += 1
    ctx.traces += 1
    value = None if kind == 'absent' else bound(kind, 'g')
    globals_ = {'dflt': 'd'}
    if kind != 'absent':
        globals_[name] = value
    elif name in impl.lib():
        value = impl.lib()[name]
    new = globals_['new'] = bound(second, 'n') if second else None
    if how == 'get':
        body, want, after = f'return systemGlobalGet("{name}")\n', [value], value
    elif how == 'get-default':
        present = kind != 'absent' or name in impl.lib()
        # a global that is null: the documentation does not say whether it counts as existing
        body, want, after = f'return systemGlobalGet("{name}", dflt)\n', ([value] if value is not None else ['d', None] if present else ['d']), value
    elif how == 'get-null-default':
        body, want, after = f'return systemGlobalGet("{name}", null)\n', [value], value
    elif how == 'set':
        body, want, after = f'return systemGlobalSet("{name}", new)\n', [new], new
    elif how == 'set-set':
        body, want, after = f'systemGlobalSet("{name}", "first")\nsystemGlobalSet("{name}", new)\nreturn systemGlobalGet("{name}")\n', [new], new
    else:
        # null is a value like any other
        body, want, after = f'systemGlobalSet("{name}", null)\nreturn systemGlobalGet("{name}")\n', [None], None
    keep_local = where in ('local', 'parameter', 'trailing', 'partial') and how in ('set', 'set-set', 'delete')
    if keep_local:
        # the local variable of the same name is untouched
        body = body.replace('return ', 'kept = ', 1).rstrip('\n') + f'\nsystemGlobalSet("keptLocal", {name})\nreturn kept\n'
    template = ACCESS_WHERE[where]
    text = template.format(name=name, body=body) if template is not None else body.replace('return ', 'out = ', 1)
    text = text.replace('"', "'")
    impl.execute_script(impl.parse_script(text), {'globals': globals_})
    got = globals_.get('out')
    if not any(got is w or (isinstance(w, (int, float, str)) and type(got) is type(w) and got == w) for w in want):
        ctx.fail('accessor', f'{text!r} with {name} {kind}: {ref.show(got)}, expected {ref.show(want[0])}')
    now = globals_.get(name)
    if now is not after and not (isinstance(after, (int, float, str)) and type(now) is type(after) and now == after):
        ctx.fail('accessor', f'{text!r} with {name} {kind}: the global is {ref.show(now)} afterwards, expected {ref.show(after)}')
    if keep_local and globals_.get('keptLocal') != (['local'] if where == 'trailing' else 'local'):
        ctx.fail('accessor', f'{text!r}: the local variable became {ref.show(globals_.get("keptLocal"))}')
    ctx.outcome([kind, how, second, ref.show(got)[:20]])


def spaces(tier):
    deep = tier == 'thorough'
    return [
        Space('binding', lambda: gen_binding(deep), run_binding, '0-4 parameters x "..." or not x 0-5 (6) arguments x 9 call paths (every partial split) x 3 argument kinds'),
        Space('kept', gen_kept, run_kept, '6 callees that keep their argument array x 0-4 bound arguments x 3 calls of 0-3 arguments, in sequence, nested, through a '
              'partial of a partial, inside a function: no call changes what another received'),
        Space('models', gen_models, run_models, 'hand-built function models: args/lastArgArray present, false or absent x 0-4 arguments'),
        Space('calls', gen_calls, run_calls, '9 called names x 14 global bindings (host functions, script functions, partials, library functions, other values) x 15 local bindings x script/expression/data-row scopes'),
        Space('statements', gen_statements, run_statements, 'the same calls in 4 kinds of statement x top level/function/partial/trailing parameter/library callback/include'),
        Space('contexts', gen_contexts, run_calls, f'the same calls in {len(CONTEXTS) - 1} expression contexts (groups, if() branches and conditions, && and || operands, arguments)'),
        Space('host', gen_host, run_host, 'every library name x 12 host values x 5 scripts, plus all names at once'),
        Space('accessors', gen_accessors, run_accessors, f'systemGlobalGet/systemGlobalSet of 3 names bound to {len(ACCESS_KINDS)} kinds of value (or absent) x 7 scopes (shadowed by locals, parameters, ...) x 6 uses x every new value'),
        Space('histories', lambda: gen_histories(deep), run_histories, 'pairs (triples) of earlier runs (12 ways of aborting inside a call, one that completes, none), in one or in '
              'separate globals, and calls aborted and survived inside the run, each before 8 programs that read every local'),
        Space('host-calls', gen_host_calls, run_host_calls, '6 parameter shapes x bodies of <= 2 of 7 changes to the last parameter x 0-5 arguments x 4 ways to reach the function: the caller keeps its list and calls three times'),
        Space('recursion', lambda: gen_recursion(deep), run_recursion, 'self and mutual recursion to depth 4 (5): every invocation has its own locals'),
        Space('callbacks', gen_callbacks, run_callbacks, 'arraySort callbacks of every arity from global and function scope'),
        Space('names', gen_names(2, 1, 2), run_names, 'two functions with bodies of <= 2 and <= 1 statements and <= 2 top-level statements over 12/6/8-symbol alphabets',
              sharded=True),
        Space('names3', gen_long, run_names, 'the same with every 3-statement body of the first function', sharded=True),
        Space('names-deep', gen_names(2, 1, 3), run_names, 'the same with <= 3 top-level statements', sharded=True),
    ] + ([
        Space('names-wide', gen_names(3, 2, 2, 3), run_names, 'the same with 3-statement and <= 2-statement functions', sharded=True),
    ] if deep else [])
