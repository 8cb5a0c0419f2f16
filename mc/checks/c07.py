"""C07: lowered code is well formed - schema-valid with intact, unique jump targets in every scope."""

import itertools

from mc import impl, prog
from mc.core import Space

PROPERTY = 'C07'
LEVEL = 'exploration'
RULE = ('every program skeleton of the listed finite spaces is parsed; distinct = distinct lowered statement shapes '
        '(sequence of label/jump/other with label names renumbered)')
ASSUMPTIONS = ['user code does not use the __bareScript prefix or user labels (except where the space says so)']


def scopes(model):
    yield 'global', model['statements']
    for s in model['statements']:
        if 'function' in s:
            yield from function_scopes(s['function'])


def function_scopes(function):
    yield function['name'], function['statements']
    for s in function['statements']:
        if 'function' in s:
            yield from function_scopes(s['function'])


def shape(statements):
    """Statement shape with labels numbered by first appearance."""
    names = {}
    out = []
    for s in statements:
        key = next(iter(s))
        if key == 'label':
            out.append('L%d' % names.setdefault(s['label'], len(names)))
        elif key == 'jump':
            out.append(('j%d' if 'expr' not in s['jump'] else 'c%d') % names.setdefault(s['jump']['label'], len(names)))
        else:
            out.append(key[0])
    return ''.join(out)


def check_model(ctx, model, text, user_labels=False):
    try:
        validated = impl.validate_script(model)
    except Exception as exc:  # pylint: disable=broad-exception-caught
        ctx.fail('schema', f'source:\n{text}\nschema: {exc}')
        return
    if validated != model:
        ctx.fail('schema', f'source:\n{text}\nvalidation changed the model {model} -> {validated}')
    n_labels = 0
    for name, statements in scopes(model):
        defs = {}
        for s in statements:
            if 'label' in s:
                defs[s['label']] = defs.get(s['label'], 0) + 1
        used = {s['jump']['label'] for s in statements if 'jump' in s}
        n_labels += len(defs)
        for label in used:
            if defs.get(label, 0) != 1:
                ctx.fail('target', f'source:\n{text}\nscope {name}: jump target {label} defined {defs.get(label, 0)} times')
        for label, n in defs.items():
            if n != 1:
                ctx.fail('redefined', f'source:\n{text}\nscope {name}: label {label} defined {n} times')
            if label not in used:
                ctx.fail('unused', f'source:\n{text}\nscope {name}: label {label} is never a target')
    warnings = [w for w in impl.lint_script(model) if ' label ' in w]
    if warnings:
        ctx.fail('lint', f'source:\n{text}\nlint: {warnings}')
    ctx.states += 1
    ctx.transitions += n_labels
    ctx.outcome([shape(s) for _, s in scopes(model)])


def run_forest(case, ctx):
    body = prog.Build(mark_assign=False).body(case)
    text = prog.source(body)
    check_model(ctx, impl.parse_script(text), text)


def run_forest_bare(case, ctx):
    """The same skeleton without markers: empty bodies, adjacent labels."""
    text = '\n'.join(bare_lines(case)) + '\n'
    check_model(ctx, impl.parse_script(text), text)


def bare_lines(forest):
    for node in forest:
        k = node[0]
        if k == 'b':
            yield 'break'
        elif k == 'c':
            yield 'continue'
        elif k == 'r':
            yield 'return'
        elif k in 'iIeE':
            yield 'if a:'
            yield from bare_lines(node[1])
            if k in 'eE':
                yield 'elif b:'
                yield from bare_lines(node[2])
            if k in 'IE':
                yield 'else:'
                yield from bare_lines(node[-1])
            yield 'endif'
        elif k == 'w':
            yield 'while a:'
            yield from bare_lines(node[1])
            yield 'endwhile'
        elif k in 'fx':
            yield 'for v in a:' if k == 'f' else 'for v, ix in a:'
            yield from bare_lines(node[1])
            yield 'endfor'
        else:
            yield 'function f():'
            yield from bare_lines(node[1])
            yield 'endfunction'


def gen_forests(sizes, func=False):
    for n in sizes:
        for forest in prog.forests(n, in_func=func):
            yield forest


def gen_forest_shard(n, func=False):
    def gen(w, total):
        for idx, forest in enumerate(prog.forests(n, in_func=func)):
            if idx % total == w:
                yield idx, forest
    return gen


def gen_chains(depths, leaves=('b', 'c', 'r', None)):
    for depth in depths:
        for path in itertools.product(prog.POSITIONS, repeat=depth):
            loop = any(k in prog.LOOPS for k, _ in path)
            for leaf in leaves:
                if leaf in ('b', 'c') and not loop:
                    continue
                yield [path, leaf]


def run_chain(wrap):
    def run(case, ctx):
        forest = prog.chain([tuple(p) for p in case[0]], case[1])
        if wrap:
            forest = [['F', forest], ['F', forest]]
        run_forest_bare(forest, ctx)
    return run


def gen_multi(sizes1, sizes2, sizes_global):
    """Global constructs around two functions."""
    f1 = [f for n in sizes1 for f in prog.forests(n, in_func=True)]
    f2 = [f for n in sizes2 for f in prog.forests(n, in_func=True)]
    g = [f for n in sizes_global for f in prog.forests(n, in_func=True)]
    for a in f1:
        for b in f2:
            for x in g:
                yield [x, ['F', a], ['F', b]]
                yield [x, ['F', a], x, ['F', b], x]
                for y in x:
                    if y[0] not in 'bcr' and len(y[1]) == 0:
                        yield [[], [y[0], [['F', a]]] + y[2:], ['F', b]]


def run_multi(case, ctx):
    forest = []
    for item in case:
        if item and isinstance(item[0], str):
            forest.append(item)
        else:
            forest.extend(item)
    run_forest_bare(forest, ctx)


def gen_scale(seq_max, nest_max):
    for shp in ('i', 'I', 'e', 'E', 'w', 'f', 'x', 'F'):
        for n in range(1, seq_max + 1):
            yield ['seq', shp, n]
    for a, b in itertools.product(prog.POSITIONS, repeat=2):
        for n in range(1, nest_max + 1):
            yield ['nest', [a, b], n]
    for n in range(0, 30):
        for m in range(0, 4):
            yield ['loop', n, m]
    for n in range(0, 130):
        yield ['elif', n, False]
        yield ['elif', n, True]


def run_scale(case, ctx):
    kind = case[0]
    if kind == 'seq':
        run_forest_bare([[case[1]] + [[] for _ in range(prog.BODIES[case[1]])] for _ in range(case[2])], ctx)
    elif kind == 'nest':
        path = [tuple(case[1][ix % 2]) for ix in range(case[2])]
        loop = any(k in prog.LOOPS for k, _ in path)
        run_forest_bare(prog.chain(path, 'c' if loop else None), ctx)
        run_forest_bare([['F', prog.chain(path, 'b' if loop else None)]], ctx)
    elif kind == 'loop':
        # n sequential ifs with a continue / break inside one loop
        leaf = [[], [['b']], [['c']], [['i', [['c']]], ['b']]][case[2]]
        for loop in prog.LOOPS:
            run_forest_bare([[loop, [['i', leaf] for _ in range(case[1])] + leaf]], ctx)
    else:
        lines = ['if a:'] + ['elif b:', 'x()'] * case[1] + (['else:'] if case[2] else []) + ['endif']
        text = '\n'.join(lines)
        check_model(ctx, impl.parse_script(text), text)


def spaces(tier):
    deep = tier == 'thorough'
    out = [
        Space('forest', lambda: gen_forests((0, 1, 2, 3)), run_forest, 'every forest of <= 3 control nodes with statements between them'),
        Space('forest-bare', lambda: gen_forests((0, 1, 2, 3)), run_forest_bare, 'every forest of <= 3 control nodes with empty bodies'),
        Space('forest4', gen_forest_shard(4), run_forest_bare, 'every forest of exactly 4 control nodes (functions included)', sharded=True),
        Space('chain', lambda: gen_chains((1, 2, 3, 4)), run_chain(False),
              'every nesting chain of depth <= 4 through the 11 body positions x {break, continue, return, nothing}'),
        Space('chain-function', lambda: gen_chains((1, 2, 3) if not deep else (1, 2, 3, 4)), run_chain(True), 'the same inside two functions'),
        Space('multi', lambda: gen_multi((0, 1, 2), (0, 1), (0, 1)) if not deep else gen_multi((0, 1, 2), (0, 1, 2), (0, 1)), run_multi,
              'every pair of function bodies (<= 2 and <= 1 nodes; thorough 2 and 2) with every global construct before, between and around them'),
        Space('scale', lambda: gen_scale(150, 60), run_scale,
              'each construct repeated 1..150 times, every 2-cycle of positions nested 1..60 deep, elif chains of 0..129, n ifs per loop'),
    ]
    if deep:
        out.append(Space('chain5', lambda: gen_chains((5,)), run_chain(False), 'every nesting chain of depth 5'))
        out.append(Space('forest5', gen_forest_shard(5), run_forest_bare, 'every forest of exactly 5 control nodes', sharded=True))
    return out
