"""C01: structured control flow runs with its source-level meaning."""

import itertools

from mc import impl, prog, ref
from mc.core import Space

PROPERTY = 'C01'
LEVEL = 'model_checking'
ASSUMPTIONS = [
    'condition and array answers come from a host-function tape; every tape with the stated number of non-default answers is taken',
    'the value of a for-loop index variable after the loop ran to its natural end, and __bareScript* temporaries, are not compared',
    'loop bodies do not assign their own index variable and do not resize the array being walked'
]


def check_program(ctx, body, index_vars, limit, deviations, globals_spec=None):
    text = prog.source(body)
    model = impl.parse_script(text)
    ctx.traces += 1

    def run(choices):
        # reference
        tape = prog.Tape(choices, limit, prog.Stop)
        logs = []

        def log(args):
            logs.append(ref.text(args[0]))

        globals_ = {'t': ''}
        if globals_spec:
            globals_.update(globals_spec())
        machine = prog.Machine({'cond': tape.cond, 'arr': tape.arr, 'systemLog': log, 'rec': lambda a: logs.append(ref.show(a[0]))}, globals_)
        value, kind = None, 'return'
        try:
            value = machine.run(body)
        except prog.Stop:
            kind = 'runtime-error'
        expect = (kind, ref.show(value), logs, tape.trace,
                  {k: ref.show(v) for k, v in machine.globals.items()
                   if not isinstance(v, prog.Func) and not callable(v) and k not in index_vars})

        # implementation
        tape2 = prog.Tape(choices, limit, impl.BareScriptRuntimeError)
        out_logs = []
        globals2 = {'t': ''}
        if globals_spec:
            globals2.update(globals_spec())
        globals2.update({'cond': tape2.cond, 'arr': tape2.arr, 'rec': lambda a, _o: out_logs.append(ref.show(a[0]))})
        out = impl.run_script(model, globals2, logFn=out_logs.append)
        got = (out.kind, ref.show(out.value), out_logs, tape2.trace,
               {k: ref.show(v) for k, v in impl.user_globals(out.globals, index_vars).items()})
        ctx.states += 1
        ctx.transitions += len(logs) + len(tape.trace)
        ctx.outcome((kind, expect[1], logs))
        if got != expect:
            ctx.fail('mismatch', f'source:\n{text}\ntape {choices}\nexpected {expect}\nactual   {got} {out.error}')
        return tape.arity

    prog.tapes(run, limit, deviations)


# ---------------------------------------------------------------------------------------------------------------

def gen_skeleton(sizes, func):
    for n in sizes:
        for forest in prog.forests(n, in_func=func):
            yield forest


def run_skeleton(func, limit, deviations, where='all'):
    def run(case, ctx):
        build = prog.Build(where=where)
        if func:
            body = build.node(['F', case])
            # a second call: nothing may be left over from the first
            body = body + body[1:]
        else:
            body = build.body(case) + [['ret', ['v', 't']]]
        check_program(ctx, body, build.index_vars, limit, deviations)
    return run


def gen_chains(depths, stride=1):
    for depth in depths:
        for path in itertools.product(prog.POSITIONS, repeat=depth):
            loop = any(k in prog.LOOPS for k, _ in path)
            for leaf in ('b', 'c', 'r', None):
                if leaf in ('b', 'c') and not loop:
                    continue
                yield [path, leaf]


def run_sparse(func, limit, deviations):
    runs = [run_skeleton(func, limit, deviations, where) for where in ('none', 'leaf', 'head', 'tail')]

    def run(case, ctx):
        for r in runs:
            r(case, ctx)
    return run


def run_chain(func, limit, deviations, sparse=False):
    inner = (run_sparse if sparse else run_skeleton)(func, limit, deviations)

    def run(case, ctx):
        inner(prog.chain([tuple(p) for p in case[0]], case[1]), ctx)
    return run


# scale: repetition and nesting of each construct
def gen_scale(seq_max, nest_max):
    for shape in ('i', 'I', 'e', 'E', 'w', 'f', 'x', 'F'):
        for n in range(1, seq_max + 1):
            yield ['seq', shape, n]
    for a, b in itertools.product(prog.POSITIONS, repeat=2):
        for n in range(1, nest_max + 1):
            yield ['nest', [a, b], n]
    for n in range(0, 13):
        yield ['elif', n, False]
        yield ['elif', n, True]


def run_scale(case, ctx):
    kind = case[0]
    build = prog.Build()
    if kind == 'seq':
        forest = [[case[1]] + [[] for _ in range(prog.BODIES[case[1]])] for _ in range(case[2])]
        body = build.body(forest) + [['ret', ['v', 't']]]
        # one deviation at a time; the number of questions is bounded by twice the number of constructs
        check_program(ctx, body, build.index_vars, 4 * case[2] + 4, 1 if case[2] <= 40 else 0)
    elif kind == 'nest':
        path = [tuple(case[1][ix % 2]) for ix in range(case[2])]
        loop = any(k in prog.LOOPS for k, _ in path)
        forest = prog.chain(path, 'b' if loop else None)
        body = build.body(forest) + [['ret', ['v', 't']]]
        depth = case[2]

        # only the all-truthy descent (and each single wrong turn) reaches the bottom: answer truthy by default
        check_descent(ctx, body, build.index_vars, depth)
    else:
        branches = [[build.cond(), build.mark()] for _ in range(case[1] + 1)]
        body = [['if', branches, build.mark() if case[2] else None]] + build.mark()
        check_program(ctx, body, set(), case[1] + 3, 2)


def check_descent(ctx, body, index_vars, depth):
    """Run with the answers that descend: conditions truthy the first time they are asked, falsy afterwards; arrays of length 1."""
    text = prog.source(body)
    model = impl.parse_script(text)
    ctx.traces += 1

    def answers(stop, wrong):
        seen = {}
        trace = []

        def ask(args, _o=None):
            n = args[0]
            seen[n] = seen.get(n, 0) + 1
            trace.append(n)
            if len(trace) > 400:
                raise stop('end')
            return seen[n] == 1 and len(trace) - 1 != wrong

        def arr(args, _o=None):
            return ['a'] if ask(args) or seen[args[0]] > 1 else []
        return ask, arr, trace

    for wrong in (-1, 0, depth // 2, depth - 1):
        logs, logs2 = [], []
        cond, arr, trace = answers(prog.Stop, wrong)
        machine = prog.Machine({'cond': cond, 'arr': arr, 'systemLog': lambda a, logs=logs: logs.append(ref.text(a[0]))}, {'t': ''})
        kind, value = 'return', None
        try:
            value = machine.run(body)
        except prog.Stop:
            kind = 'runtime-error'
        cond2, arr2, trace2 = answers(impl.BareScriptRuntimeError, wrong)
        out = impl.run_script(model, {'t': '', 'cond': cond2, 'arr': arr2}, logFn=logs2.append)
        ctx.states += 1
        ctx.transitions += len(logs)
        ctx.outcome((kind, logs))
        if (out.kind, ref.show(out.value), logs2, trace2) != (kind, ref.show(value), logs, trace):
            ctx.fail('mismatch', f'source:\n{text}\nexpected {kind} {value} {logs} {trace}\nactual {out.kind} {out.value} {logs2} {trace2} '
                                 f'{out.error}')


# the answers of the environment by fixed rules instead of a tape: programs too large for every tape
POLICIES = {
    'odd': lambda n, total: n % 2 == 1,
    'even': lambda n, total: n % 2 == 0,
    'two-of-three': lambda n, total: n % 3 != 0,
    'drifting': lambda n, total: (n + total) % 3 == 1,
}


def check_policies(ctx, body, index_vars, limit=1500):
    text = prog.source(body)
    model = impl.parse_script(text)
    ctx.traces += 1

    def answers(stop, rule):
        seen = {}
        trace = []

        def ask(args, _o=None):
            n = args[0]
            seen[n] = seen.get(n, 0) + 1
            trace.append(n)
            if len(trace) > limit:
                raise stop('end')
            return rule(seen[n], len(trace))

        def arr(args, _o=None):
            return [f'{args[0]:g}p', f'{args[0]:g}q'] if ask(args) else [f'{args[0]:g}s']
        return ask, arr, trace

    for name, rule in POLICIES.items():
        logs, logs2 = [], []
        cond, arr, trace = answers(prog.Stop, rule)
        machine = prog.Machine({'cond': cond, 'arr': arr, 'systemLog': lambda a, logs=logs: logs.append(ref.text(a[0]))}, {'t': ''})
        kind, value = 'return', None
        try:
            value = machine.run(body)
        except prog.Stop:
            kind = 'runtime-error'
        cond2, arr2, trace2 = answers(impl.BareScriptRuntimeError, rule)
        out = impl.run_script(model, {'t': '', 'cond': cond2, 'arr': arr2}, logFn=logs2.append)
        ctx.states += 1
        ctx.transitions += len(logs)
        ctx.outcome((kind, logs[-40:]))
        globals_ = {k: ref.show(v) for k, v in machine.globals.items() if not isinstance(v, prog.Func) and not callable(v) and k not in index_vars}
        globals2 = {k: ref.show(v) for k, v in impl.user_globals(out.globals, index_vars).items()}
        if (out.kind, ref.show(out.value), logs2, trace2, globals2) != (kind, ref.show(value), logs, trace, globals_):
            ctx.fail('mismatch', f'source:\n{text}\npolicy {name}\nexpected {kind} {value} {logs} {trace} {globals_}\nactual {out.kind} {out.value} {logs2} '
                                 f'{trace2} {globals2} {out.error}')


IF_POSITIONS = [p for p in prog.POSITIONS if p[0] not in prog.LOOPS]


def gen_deep(reach):
    """A loop, j conditionals, a loop, k conditionals and a break, continue or return."""
    for outer in prog.LOOPS:
        for inner in (None, *prog.LOOPS):
            for pos in IF_POSITIONS:
                for j in range(reach + 1) if inner else (0,):
                    for k in range(reach + 1) if inner else range(2 * reach + 1):
                        for leaf in prog.LEAVES:
                            for scope in (0, 1):
                                yield [outer, inner, pos, j, k, leaf, scope]


def run_deep(case, ctx):
    outer, inner, pos, j, k, leaf, scope = case
    path = [(outer, 0), *[tuple(pos)] * j, *([(inner, 0)] if inner else []), *[tuple(pos)] * k]
    forest = prog.chain(path, leaf)
    build = prog.Build(where='all' if (j + k) % 2 else 'tail')
    if scope:
        body = build.node(['F', forest])
        body = body + body[1:]
    else:
        body = build.body(forest) + [['ret', ['v', 't']]]
    check_policies(ctx, body, build.index_vars)


KINDS = ['i', 'I', 'E', 'w', 'f', 'x']


def gen_distance(reach):
    """A construct, k siblings, another construct; at the same level or the second and the siblings inside the first."""
    for a in prog.POSITIONS:
        for b in prog.POSITIONS:
            for sibling in KINDS if a[0] in ('w', 'f', 'x') and b[0] in ('w', 'f', 'x') else ('i', 'f'):
                for k in range(reach + 1):
                    yield [a, b, sibling, k]


def run_distance(case, ctx):
    a, b, sibling, k = case
    loop = a[0] in prog.LOOPS or b[0] in prog.LOOPS
    siblings = [[sibling] + [[] for _ in range(prog.BODIES[sibling])] for _ in range(k)]
    inner = [b[0]] + [[] for _ in range(prog.BODIES[b[0]])]
    inner[1 + b[1]] = [['i', [['b' if k % 2 else 'c']]]] if loop else []
    outer = [a[0]] + [[] for _ in range(prog.BODIES[a[0]])]
    outer[1 + a[1]] = siblings + [inner]
    build = prog.Build(where='all' if k % 3 else 'head')
    body = build.body([outer, *siblings[:1], *([inner] if b[0] in prog.LOOPS or not loop else [])]) + [['ret', ['v', 't']]]
    check_policies(ctx, body, build.index_vars)


# values: truthiness of every type in every construct; for over everything
import datetime  # noqa: E402  pylint: disable=wrong-import-position
import re  # noqa: E402  pylint: disable=wrong-import-position

VALUES = [
    lambda: None, lambda: False, lambda: True, lambda: 0, lambda: 0.0, lambda: -0.0, lambda: 1, lambda: -1.5, lambda: float('nan'),
    lambda: float('inf'), lambda: '', lambda: 'a', lambda: '0', lambda: 'false', lambda: ' ', lambda: [], lambda: [None], lambda: [0.0, 1.0],
    lambda: [False, '', None], lambda: [[], [1.0]], lambda: {}, lambda: {'a': 1.0}, lambda: datetime.datetime(2024, 1, 2),
    lambda: datetime.date(2024, 1, 2), lambda: re.compile('a'), lambda: len, lambda: ['a', 'b', 'c', 'd'], lambda: 5e-324, lambda: 10 ** 20
]


def value_programs():
    v = ['v', 'v']
    m = itertools.count(1)

    def mark(*extra):
        return [['x', None, ['c', 'systemLog', [['s', f'k{next(m)}']]]]] + [['x', None, ['c', 'rec', [['v', e]]]] for e in extra]
    yield [['if', [[v, mark()]], None]] + mark()
    yield [['if', [[v, mark()]], mark()]] + mark()
    yield [['if', [[['u', '!', v], mark()]], mark()]] + mark()
    yield [['if', [[['v', 'false'], mark()], [v, mark()]], mark()]] + mark()
    yield [['if', [[['v', 'w'], mark()], [v, mark()]], mark()]] + mark()
    yield [['while', v, mark() + [['break']]]] + mark()
    yield [['while', v, mark() + [['x', 'v', ['v', 'w']], ['x', 'w', ['v', 'null']]]]] + mark()
    yield [['while', v, mark() + [['x', 'v', ['v', 'w']], ['x', 'w', ['v', 'null']], ['continue']]]] + mark()
    yield [['while', v, mark() + [['x', 'v', ['v', 'w']], ['x', 'w', ['v', 'null']],
                                  ['if', [[['v', 'w'], [['continue']]]], None]] + mark()]] + mark()
    yield [['for', 'e', None, v, mark('e')]] + mark()
    yield [['for', 'e', 'i', v, mark('e', 'i')]] + mark()
    yield [['for', 'e', 'i', v, mark('e', 'i') + [['if', [[['v', 'e'], [['continue']]]], None]] + mark()]] + mark()
    yield [['for', 'e', 'i', v, mark('e', 'i') + [['if', [[['v', 'e'], [['break']]]], None]] + mark()]] + mark()
    # the array expression is evaluated once: reassigning its variable, or the element variable, changes nothing
    yield [['for', 'e', 'i', v, mark('e', 'i') + [['x', 'v', ['v', 'w']]]]] + mark('v')
    yield [['for', 'e', 'i', v, mark('e', 'i') + [['x', 'e', ['v', 'w']]] + mark('e')]] + mark()
    yield [['for', 'v', None, v, mark('v')]] + mark()
    yield [['for', 'e', None, v, mark('e') + [['for', 'g', None, v, mark('e', 'g')]]]] + mark()
    yield [['for', 'e', None, v, mark('e') + [['for', 'g', None, ['v', 'e'], mark('e', 'g')]]]] + mark()
    yield [['for', 'e', None, v, mark('e') + [['for', 'e', None, ['v', 'w'], mark('e')]]]] + mark()
    yield [['ret', v]]
    yield [['x', 'r', ['b', '&&', v, ['v', 'w']]], ['if', [[['v', 'r'], [['ret', ['v', 'r']]]]], None], ['ret', ['v', 'w']]]
    # found-index idiom: the index at a break is the index of the element
    yield [['for', 'e', 'i', v, [['if', [[['v', 'e'], [['x', 'found', ['v', 'i']], ['break']]]], None]]], ['x', None, ['c', 'rec', [['v', 'found']]]]]
    yield [['func', 'f', ['v'], False, [['for', 'e', 'i', v, mark('e', 'i') + [['if', [[['v', 'e'], [['ret', ['v', 'i']]]]], None]]]]],
           ['x', 'r', ['c', 'f', [v]]], ['x', None, ['c', 'rec', [['v', 'r']]]]]


VALUE_PROGRAMS = list(value_programs())


def gen_values():
    for p in range(len(VALUE_PROGRAMS)):
        for a in range(len(VALUES)):
            for b in range(len(VALUES)):
                yield [p, a, b, 0]
                yield [p, a, b, 1]


def run_values(case, ctx):
    p, a, b, func = case
    body = VALUE_PROGRAMS[p]
    if func:
        if any(s[0] == 'func' for s in body):
            return
        body = [['func', 'main', ['v', 'w'], False, body], ['ret', ['c', 'main', [['v', 'v'], ['v', 'w']]]]]
    check_program(ctx, body, {'i'}, 1, 0, lambda: {'v': VALUES[a](), 'w': VALUES[b]()})


# functions calling each other, recursion, loops around calls
def fn_bodies(me, other):
    n = ['v', 'n']
    dec = ['b', '-', n, ['n', 1]]

    def log(tag):
        return ['x', None, ['c', 'systemLog', [['b', '+', ['s', f'{me}{tag}'], n]]]]
    call = ['c', other, [dec]]
    gt = ['b', '>', n, ['n', 0]]
    return [
        [log('a')],
        [log('b'), ['ret', n]],
        [log('c'), ['if', [[gt, [['ret', call]]]], None], ['ret', ['s', me]]],
        [log('d'), ['if', [[gt, [['x', 'x', call]]]], [['x', 'x', ['s', 'z']]]], log('d2'), ['ret', ['b', '+', ['s', me], ['v', 'x']]]],
        [log('e'), ['while', gt, [['x', 'n', dec], log('e2'), ['x', 'x', ['c', other, [n]]], ['if', [[['v', 'x'], [['continue']]]], None], log('e3')]]],
        [log('f'), ['for', 'e', 'i', ['c', 'arrayNew', [['n', 3], ['n', 1]]],
                    [log('f2'), ['if', [[['b', '>=', ['v', 'e'], n], [['break']]]], None], ['x', 'x', ['c', other, [dec]]], log('f3')]],
         ['ret', ['v', 'x']]],
        [log('g'), ['while', ['b', '>', ['c', other, [dec]], ['n', 0]], [log('g2'), ['ret', ['s', 'in']]]], log('g3')],
        [log('h'), ['if', [[['b', '==', n, ['n', 1]], [log('h2')]], [['b', '==', n, ['n', 2]], [log('h3'), ['ret', ['c', other, [dec]]]]]],
                    [log('h4'), ['if', [[gt, [['x', 'x', ['c', other, [dec]]]]]], None]]], ['ret', ['v', 'x']]]
    ]


def gen_functions(max_n):
    for a in range(8):
        for b in range(8):
            for n in range(max_n):
                yield [[a, b], n]
    for a in range(8):
        for b in range(8):
            for c in range(8):
                for n in range(max_n):
                    yield [[a, b, c], n]


FUEL = 3000


def run_functions(case, ctx):
    picks, n = case
    names = ['fa', 'fb', 'fc'][:len(picks)]
    body = []
    for ix, name in enumerate(names):
        body.append(['func', name, ['n'], False, fn_bodies(name, names[(ix + 1) % len(names)])[picks[ix]]])
    body.append(['x', 'n', ['n', n]])
    body.append(['x', 'r', ['c', 'fa', [['v', 'n']]]])
    body.append(['for', 'z', None, ['c', 'arrayNew', [['n', 1], ['n', 2]]], [['x', 'q', ['c', names[-1], [['v', 'z']]]],
                                                                             ['x', None, ['c', 'rec', [['v', 'q']]]]]])
    body.append(['ret', ['v', 'r']])
    text = prog.source(body)
    logs = []
    machine = prog.Machine({'systemLog': lambda a: logs.append(ref.text(a[0])), 'rec': lambda a: logs.append(ref.show(a[0])),
                            'arrayNew': list}, {'t': ''}, fuel=FUEL)
    try:
        value = machine.run(body)
    except (prog.Diverged, RecursionError):
        ctx.note('diverging')
        return
    out_logs = []
    out = impl.run_script(impl.parse_script(text), {'t': '', 'rec': lambda a, _o: out_logs.append(ref.show(a[0]))}, max_statements=1000000,
                          logFn=out_logs.append)
    ctx.states += 1
    ctx.transitions += len(logs)
    ctx.traces += 1
    ctx.outcome((logs, ref.show(value)))
    expect = ('return', ref.show(value), logs, {k: ref.show(v) for k, v in machine.globals.items() if not isinstance(v, prog.Func)})
    got = (out.kind, ref.show(out.value), out_logs, {k: ref.show(v) for k, v in impl.user_globals(out.globals).items()})
    if expect != got:
        ctx.fail('mismatch', f'source:\n{text}\nexpected {expect}\nactual   {got} {out.error}')


# iteration counts and real counters
def gen_counts(n_max):
    for shape in range(6):
        for n in range(n_max + 1):
            for k in range(0, n + 2):
                yield [shape, n, k]


def run_counts(case, ctx):
    shape, n, k = case
    i = ['v', 'i']
    inc = ['x', 'i', ['b', '+', i, ['n', 1]]]
    lt = ['b', '<', i, ['n', n]]
    hit = ['b', '==', i, ['n', k]]
    log = ['x', None, ['c', 'systemLog', [i]]]
    body = {
        0: [['x', 'i', ['n', 0]], ['while', lt, [log, inc, ['if', [[hit, [['break']]]], None]]]],
        1: [['x', 'i', ['n', 0]], ['while', lt, [inc, ['if', [[hit, [['continue']]]], None], log]]],
        2: [['x', 'i', ['n', 0]], ['while', lt, [['if', [[hit, [['ret', i]]]], None], log, inc]]],
        3: [['for', 'i', None, ['c', 'range', [['n', n]]], [['if', [[hit, [['break']]]], None], log]]],
        4: [['for', 'i', 'j', ['c', 'range', [['n', n]]], [['if', [[hit, [['continue']]]], None], log, ['x', None, ['c', 'systemLog', [['v', 'j']]]]]]],
        5: [['for', 'e', 'i', ['c', 'range', [['n', n]]], [['if', [[hit, [['x', 'i2', i], ['break']]]], None], log]], ['ret', ['v', 'i2']]],
    }[shape]
    text = prog.source(body)
    logs = []
    machine = prog.Machine({'systemLog': lambda a: logs.append(ref.text(a[0])), 'range': lambda a: [float(x) for x in range(int(a[0]))]}, {})
    value = machine.run(body)
    out = impl.run_script(impl.parse_script(text), {'range': lambda a, _o: [float(x) for x in range(int(a[0]))]})
    ctx.states += 1
    ctx.transitions += len(logs)
    ctx.traces += 1
    ctx.outcome((shape, logs, ref.show(value)))
    if (out.kind, ref.show(out.value), out.logs) != ('return', ref.show(value), logs):
        ctx.fail('mismatch', f'source:\n{text}\nexpected {value} {logs}\nactual {out.kind} {out.value} {out.logs} {out.error}')


# ---------------------------------------------------------------------------------------------------------------
# names
# ---------------------------------------------------------------------------------------------------------------

NAMES = [*'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_', '__', '_a', '_1', '_Z9', 'a_', 'a1', 'A1', 'Z0', 'aZ', 'zA9_', 'x' * 70, 'nullx', 'nulL', 'Null',
         'True', 'False', 'None', 'trueish', 'falsey', 'iff', 'ifx', 'If', 'elif1', 'elsex', 'endif_', 'whilex', 'forx', 'fort', 'forin', 'In', 'inn', 'notin', 'breaks',
         'continue1', 'returnx', 'jumpx', 'jumpif1', 'includes', 'functionx', 'asyncx', 'and', 'or', 'not', 'def', 'class', 'lambda', 'import', 'is', 'e1', 'E5', 'self',
         'args', 'options', 'globals', 'locals_', 'label', 'index', 'values', 'length', '__init__', '__class__', 'bareScriptIf0', '_bareScriptLoop0']
TEMPLATES = [
    ('{n} = 1\n{n} = {n} + 2\nreturn {n}', 3),
    ('{n}=1\n{n}={n}+2\nreturn {n}', 3),
    ('function {n}(a0, b0):\n    return a0 * 10 + b0\nendfunction\nreturn {n}(4, {n}(0, 5))', 45),
    ('function f0({n}, b0):\n    {n} = {n} + b0\n    return {n}\nendfunction\nreturn f0(4, 2)', 6),
    ('function f0(a0, {n}):\n    while {n} < 5:\n        {n} = {n} + a0\n    endwhile\n    return {n}\nendfunction\nreturn f0(4, 2)', 6),
    ('function f0(a0, {n}...):\n    return arrayLength({n}) + a0\nendfunction\nreturn f0(4, 2, 2)', 6),
    ('function f0({n}...):\n    return arrayLength({n})\nendfunction\nreturn f0(4, 2)', 2),
    ('s0 = 0\nfor {n} in arrayNew(1, 2, 3):\n    s0 = s0 + {n}\nendfor\nreturn s0', 6),
    ('s0 = 0\nfor v0, {n} in arrayNew(4, 5, 6):\n    s0 = s0 * 10 + {n}\nendfor\nreturn s0', 12),
    ('s0 = 0\nfor {n} , i0 in arrayNew(4, 5, 6):\n    if i0 == 1:\n        continue\n    endif\n    s0 = s0 * 10 + {n}\nendfor\nreturn s0', 46),
    ('{n} = 2\ns0 = 0\nif !{n}:\n    s0 = 1\nelif {n} == 2:\n    s0 = -{n}\nendif\nwhile {n}:\n    {n} = {n} - 1\n    s0 = s0 + 5\nendwhile\nreturn s0', 8),
    ('{n} = arrayNew(1, 2)\ns0 = 0\nfor v0 in {n}:\n    s0 = s0 + v0\nendfor\nif({n}, 1, 2)\nreturn if({n}, s0, 9)', 3),
    ('function f0():\n    {n} = 7\n    return {n}\nendfunction\nreturn f0() + if({n} == null, 1, 2)', 8),
    ('function  {n}  (  a0  ,  b0  )  :\n    return  a0 * 10 + b0\nendfunction\nreturn  {n}  (  4  ,  5  )', 45),
    ('  if  {n} == null  :\n  while  ! {n}  :\n {n}=1\nendwhile\nelse  :\nendif\nfor  {n}  ,  i0  in  arrayNew(8)  :\nendfor  \nreturn {n}  ', 8),
    ('{n} = 3\nreturn [{n}] + {n}', 6),
    ('function {n}(a0,b0,c0):\nreturn a0*100+b0*10+c0\nendfunction\nreturn {n}(4,{n}(0,0,5),6)', 456),
    ('function f0({n},b0...):\nreturn {n}-arrayLength(b0)\nendfunction\nfor v0,i0 in arrayNew(1,2):\nx0=v0+i0\nendfor\nreturn f0(4,2,2)-x0', -1),
    ('function f0({n}  ,  b0  ...  )  :\n    return  {n} - arrayLength(b0)\nendfunction\nfor  v0  ,  {n}  in  arrayNew(1,2)  :\nendfor\nreturn f0(4,2,2)', 2),
    ('{n}=3\nif {n}==3:\n{n}=4\nelif {n}==4:\n{n}=5\nelse:\n{n}=6\nendif\nwhile {n}<9:\n{n}={n}+1\nendwhile\nreturn {n}', 9),
    ('\t{n}\t=\t3\n\tif\t{n}\t==\t3\t:\n\t{n}\t=\t4\n\telse\t:\n\t{n}\t=\t6\n\tendif\t\n\tfor\tv0\t,\ti0\tin\tarrayNew(\t{n}\t)\t:\n\t{n}\t=\tv0\t+\t1\n'
     '\tendfor\t\n\treturn\t{n}\t', 5),
]
PAIR_TEMPLATES = [
    ('s0 = 0\nfor {n}, {m} in arrayNew(4, 5):\n    s0 = s0 * 10 + {n} - {m}\nendfor\nreturn s0', 44),
    ('function {n}({m}):\n    return {m} + 1\nendfunction\n{m} = 2\nreturn {n}({m}) + {m}', 5),
    ('function f0({n}, {m}):\n    {n} = {n} - {m}\n    return {n}\nendfunction\nreturn f0(9, 4)', 5),
    ('{n} = 1\n{m} = 2\nreturn {n} - {m}', -1),
]


def gen_names():
    for n in range(len(NAMES)):
        yield [n]
    for n, m in itertools.product(range(len(NAMES)), repeat=2):
        if n != m:
            yield [n, m]


def run_names(case, ctx):
    names = {'n': NAMES[case[0]], 'm': NAMES[case[-1]]}
    for template, want in TEMPLATES if len(case) == 1 else PAIR_TEMPLATES:
        text = template.format(**names)
        out = impl.run_script(impl.parse_script(text), {})
        ctx.states += 1
        ctx.traces += 1
        if out.kind != 'return' or ref.typ(out.value) != 'number' or out.value != want:
            ctx.fail('names', f'source:\n{text}\nexpected {want}, got {out.kind} {out.value!r} {out.error}')
    ctx.outcome(case)


def spaces(tier):
    deep = tier == 'thorough'
    sk = (0, 1, 2, 3)
    out = [
        Space('skeleton-global', lambda: gen_skeleton(sk, False), run_skeleton(False, 9, 3),
              'every forest of <= 3 control nodes (if, if-else, if-elif, if-elif-else, while, for, for-index, function, break, continue, '
              'return) at global scope x every tape with <= 3 non-default answers among 9'),
        Space('skeleton-function', lambda: gen_skeleton(sk, True), run_skeleton(True, 9, 2),
              'the same forests inside a function called twice x every tape with <= 2 non-default answers'),
        Space('sparse-global', lambda: gen_skeleton(sk, False), run_sparse(False, 8, 3 if deep else 2),
              'the same forests with markers only in some places (nowhere; only in bodies without control statements; only at the start of '
              'bodies; only after constructs), so that bodies are empty, start with, end with or consist of a control statement'),
        Space('sparse-function', lambda: gen_skeleton(sk, True), run_sparse(True, 8, 2 if deep else 1), 'the same inside a function'),
        Space('sparse-chain', lambda: gen_chains((1, 2, 3, 4) if deep else (1, 2, 3)), run_chain(False, 8, 2, True), 'nesting chains of depth <= 3 (4) with sparse markers'),
        Space('chain-global', lambda: gen_chains((1, 2, 3)), run_chain(False, 10, 4 if deep else 3),
              'every nesting chain of depth <= 3 through the 11 body positions x {break, continue, return, nothing} innermost, global scope'),
        Space('chain-function', lambda: gen_chains((1, 2, 3)), run_chain(True, 10, 3 if deep else 2), 'the same inside a function'),
        Space('scale', lambda: gen_scale(130 if deep else 60, 60 if deep else 24), run_scale,
              'each construct repeated 1..N times, every 2-cycle of body positions nested 1..M deep, elif chains of 0..12'),
        Space('deep', lambda: gen_deep(9 if deep else 5), run_deep, 'a loop, 0..5 (9) conditionals, a loop, 0..5 (9) conditionals and a break, continue or return, '
              'x 8 positions x 4 fixed answer rules, globally and in a function'),
        Space('distance', lambda: gen_distance(130 if deep else 40), run_distance, 'a construct, 0..40 (130) siblings and another construct inside it, x 4 answer rules'),
        Space('values', gen_values, run_values, 'every value of all nine types in every condition and for position x a second value, '
              'globally and as a function parameter'),
        Space('functions', lambda: gen_functions(4), run_functions, 'every assignment of 8 bodies to 2 and 3 mutually calling functions x argument 0..3'),
        Space('names', gen_names, run_names, f'{len(NAMES)} names and all ordered pairs of them as variables, parameters, functions, loop values and indexes'),
        Space('counts', lambda: gen_counts(50 if deep else 24), run_counts, '6 counting loops x 0..N iterations x every position of break/continue/return'),
    ]
    if deep:
        out += [
            Space('chain4-global', lambda: gen_chains((4,)), run_chain(False, 10, 3), 'every nesting chain of depth 4, global scope'),
            Space('chain4-function', lambda: gen_chains((4,)), run_chain(True, 10, 3), 'every nesting chain of depth 4, inside a function'),
            Space('skeleton4-global', lambda: gen_skeleton((4,), False), run_skeleton(False, 8, 2),
                  'every forest of exactly 4 control nodes x every tape with <= 2 non-default answers among 8'),
        ]
    else:
        out.append(Space('chain4-global', lambda: gen_chains((4,)), run_chain(False, 8, 1), 'every nesting chain of depth 4, global scope, one deviation'))
    return out
