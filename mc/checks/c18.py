"""C18: lint is pure, never fails, and its warnings are semantically justified."""

import copy
import glob
import hashlib
import itertools
import json
import os
import re
import subprocess
import sys

from mc import impl, prog, ref
from mc.core import Space

PROPERTY = 'C18'
LEVEL = 'model_checking'
ASSUMPTIONS = [
    'warnings are read in the wording the library uses; a name is compared inside its scope (global, or the function of that name)',
    'a function defined both at global scope and inside a function body may or may not be reported as redefined',
    'a run that ends in the statement budget is compared up to that point only',
    'functions nested in function bodies exist in hand-built models only; scopes of functions with the same name are merged'
]

PATTERNS = [(kind, re.compile(rx, re.S)) for kind, rx in [
    ('unused-var', r'Unused variable "(?P<name>.*)" defined in function "(?P<scope>.*)" \(index (?P<ix>\d+)\)'),
    ('unused-arg', r'Unused argument "(?P<name>.*)" of function "(?P<scope>.*)" \(index (?P<ix>\d+)\)'),
    ('dup-arg', r'Duplicate argument "(?P<name>.*)" of function "(?P<scope>.*)" \(index (?P<ix>\d+)\)'),
    ('unused-label', r'Unused global label "(?P<name>.*)" \(index (?P<ix>\d+)\)'),
    ('unused-label', r'Unused label "(?P<name>.*)" in function "(?P<scope>.*)" \(index (?P<ix>\d+)\)'),
    ('unknown-label', r'Unknown global label "(?P<name>.*)" \(index (?P<ix>\d+)\)'),
    ('unknown-label', r'Unknown label "(?P<name>.*)" in function "(?P<scope>.*)" \(index (?P<ix>\d+)\)'),
    ('dup-label', r'Redefinition of global label "(?P<name>.*)" \(index (?P<ix>\d+)\)'),
    ('dup-label', r'Redefinition of label "(?P<name>.*)" in function "(?P<scope>.*)" \(index (?P<ix>\d+)\)'),
    ('dup-func', r'Redefinition of function "(?P<name>.*)" in function "(?P<scope>.*)" \(index (?P<ix>\d+)\)'),
    ('dup-func', r'Redefinition of function "(?P<name>.*)" \(index (?P<ix>\d+)\)'),
    ('pointless', r'Pointless global statement \(index (?P<ix>\d+)\)'),
    ('pointless', r'Pointless statement in function "(?P<scope>.*)" \(index (?P<ix>\d+)\)')
]]


def classify(warning):
    for kind, rx in PATTERNS:
        m = rx.fullmatch(warning)
        if m:
            d = m.groupdict()
            return kind, d.get('scope'), d.get('name'), int(d['ix'])
    return 'other', None, None, None


# ---------------------------------------------------------------------------------------------------------------
# what the exact warnings are
# ---------------------------------------------------------------------------------------------------------------

def scopes(model):
    """Every scope: (function name or None, function model or None, statements)."""
    out = []

    def walk(name, function, statements):
        out.append((name, function, statements))
        for st in statements:
            if 'function' in st:
                walk(st['function']['name'], st['function'], st['function']['statements'])
    walk(None, None, model['statements'])
    return out


def dups(names):
    seen = set()
    return {n for n in names if n in seen or seen.add(n)}


def exact(model):
    """{kind: set of (scope, name)} of the warnings the property demands exactly."""
    out = {'unknown-label': set(), 'dup-label': set(), 'dup-arg': set(), 'dup-func': set()}
    for name, function, statements in scopes(model):
        labels = [st['label'] for st in statements if 'label' in st]
        jumps = {st['jump']['label'] for st in statements if 'jump' in st}
        out['unknown-label'] |= {(name, label) for label in jumps - set(labels)}
        out['dup-label'] |= {(name, label) for label in dups(labels)}
        out['dup-func'] |= {(name, f) for f in dups(st['function']['name'] for st in statements if 'function' in st)}
        if function is not None:
            out['dup-arg'] |= {(name, arg) for arg in dups(function.get('args', []))}
    return out


def show(model):
    return json.dumps(model)[:3000]


def reversed_keys(value):
    if isinstance(value, dict):
        # a statement has a single key: nested objects change their key order
        return {k: reversed_keys(v) for k, v in reversed(list(value.items()))}
    if isinstance(value, list):
        return [reversed_keys(v) for v in value]
    return value


def check_lint(ctx, model):
    """Purity, determinism, exactness. Returns the classified warnings."""
    ctx.states += 1
    before = json.dumps(model)
    warnings = impl.lint_script(model)
    if not isinstance(warnings, list) or not all(isinstance(w, str) for w in warnings):
        ctx.fail('result', f'{show(model)}: lint gives {warnings!r}')
    if json.dumps(model) != before:
        ctx.fail('pure', f'lint changes the model {before[:2000]} to {show(model)}')
    first = list(warnings)
    warnings.append('mine')  # the caller owns the list
    for other in (model, json.loads(before), reversed_keys(model)):
        again = impl.lint_script(other)
        if again != first:
            ctx.fail('deterministic', f'{show(model)}: lint gives {first}, then {again}')
    out = [classify(w) for w in first]
    want = exact(model)
    for kind, names in want.items():
        got = {(scope, name) for k, scope, name, _ in out if k == kind}
        if kind == 'dup-func':
            # defined globally and in a function body
            every = [st['function']['name'] for _, _, statements in scopes(model) for st in statements if 'function' in st]
            got = {g for g in got if g in names or every.count(g[1]) < 2}
        if got != names:
            ctx.fail(kind, f'{show(model)}: {kind} warnings for {sorted(got, key=repr)}, expected {sorted(names, key=repr)}; {first}')
    return out


# ---------------------------------------------------------------------------------------------------------------
# acting on a warning
# ---------------------------------------------------------------------------------------------------------------

FRESH = 'zzFresh'


def edits(model, warning):
    """The edited models a warning suggests (several when the scope name is ambiguous), as deep copies."""
    kind, scope, name, ix = warning
    n = len(scopes(model))
    out = []
    for i in range(n):
        if scopes(model)[i][0] != scope:
            continue
        copied = copy.deepcopy(model)
        _, function, statements = scopes(copied)[i]
        if kind == 'pointless':
            if ix >= len(statements):
                continue
            del statements[ix]
        elif kind == 'unused-label':
            keep = [st for st in statements if st.get('label') != name]
            if len(keep) == len(statements):
                continue
            statements[:] = keep
        elif kind == 'unused-var':
            found = False
            for st in statements:
                if 'expr' in st and st['expr'].get('name') == name:
                    st['expr']['name'] = FRESH
                    found = True
            if not found:
                continue
        elif kind == 'unused-arg':
            if name not in function.get('args', []):
                continue
            function['args'] = [FRESH if a == name else a for a in function['args']]
        else:
            continue
        out.append(copied)
    return out


def observe(model, choices, limit, setup):
    tape = prog.Tape(choices, limit, impl.BareScriptRuntimeError)
    globals_ = {'cond': tape.cond, 'arr': tape.arr, 'g': [0], 'n': 3, 's': 'str', 'o': {'k': 1}}
    globals_.update(setup or {})
    out = impl.run_script(copy.deepcopy(model), globals_, max_statements=300)
    final = {k: ref.show(v) for k, v in out.globals.items() if not callable(v)}
    final['functions'] = sorted(k for k, v in out.globals.items() if callable(v))
    return tape, out, final


def check_edit(ctx, model, warning, limit=4, setup=None):
    candidates = edits(model, warning)
    if not candidates:
        ctx.fail('no-site', f'{show(model)}: {warning} names nothing in its scope')
    failures = []
    for edited in candidates:
        bad = []

        def run(choices):
            tape, a, fa = observe(model, choices, limit, setup)
            _, b, fb = observe(edited, choices, limit, setup)
            ctx.transitions += 2
            if 'Exceeded' in (a.error or '') or 'Exceeded' in (b.error or ''):
                n = min(len(a.logs), len(b.logs))
                same = a.logs[:n] == b.logs[:n]
            else:
                same = a.key() == b.key() and fa == fb
            if not same and not bad:
                bad.append(f'{show(model)}\nacting on {warning} gives {show(edited)}\nwith the answers {choices}: {a.key()} {fa}\nthen {b.key()} {fb}')
            return tape.arity
        prog.tapes(run, limit, limit)
        if not bad:
            ctx.traces += 1
            return
        failures.extend(bad)
    ctx.fail('unsound-' + warning[0], failures[0])


ACTIONS = ('pointless', 'unused-label', 'unused-var', 'unused-arg')


def check_model(ctx, model, limit=4, setup=None, run=True):
    out = check_lint(ctx, model)
    ctx.outcome(sorted(out, key=repr))
    if run:
        for warning in out:
            if warning[0] in ACTIONS:
                check_edit(ctx, model, warning, limit, setup)
    return out


# ---------------------------------------------------------------------------------------------------------------
# model building
# ---------------------------------------------------------------------------------------------------------------

def num(n):
    return {'number': n}


def string(s):
    return {'string': s}


def var(n):
    return {'variable': n}


def call(f, *args):
    return {'function': {'name': f, 'args': list(args)}} if args else {'function': {'name': f}}


def binary(op, a, b):
    return {'binary': {'op': op, 'left': a, 'right': b}}


def stmt(e, name=None):
    return {'expr': {'name': name, 'expr': e}} if name else {'expr': {'expr': e}}


def log(e):
    return stmt(call('systemLog', e))


def jump(label, e=None):
    return {'jump': {'label': label, 'expr': e}} if e else {'jump': {'label': label}}


def func(name, args, statements, last=False):
    f = {'name': name, 'statements': statements}
    if args:
        f['args'] = args
    if last:
        f['lastArgArray'] = True
    return {'function': f}


def ret(e=None):
    return {'return': {'expr': e} if e else {}}


COND = call('cond', num(1))

# label scopes -------------------------------------------------------------------------------------------------

LABEL_PALETTE = ['A', 'B', 'jA', 'jB', 'cA', 'cB', 'jC', 'log', 'set']


def label_stmt(tag, ix):
    if tag in ('A', 'B'):
        return {'label': tag}
    if tag[0] == 'j':
        return jump(tag[1])
    if tag[0] == 'c':
        return jump(tag[1], COND)
    if tag == 'log':
        return log(binary('+', string(f'l{ix}:'), var('t')))
    return stmt(binary('+', var('t'), string(f'{ix}')), 't')


def gen_labels(size):
    def gen(w, n):
        idx = 0
        for length in range(0, size + 1):
            for combo in itertools.product(LABEL_PALETTE, repeat=length):
                if length < 5 or combo.count('log') + combo.count('set') <= 2:
                    if idx % n == w:
                        yield idx, list(combo)
                    idx += 1
    return gen


def run_labels(case, ctx):
    body = [label_stmt(tag, ix) for ix, tag in enumerate(case)]
    small = len(case) < 5
    check_model(ctx, {'statements': body + [log(string('end'))]}, 4 if small else 2, {'t': 'x'}, len(case) < 6)
    # the same in a function; the global scope has other labels
    fn = {'statements': [{'label': 'A'}, func('f', ['t'], copy.deepcopy(body) + [ret(var('t'))]), jump('D', COND), log(call('f', string('y'))), {'label': 'C'}, {'label': 'D'}]}
    check_model(ctx, fn, 3, None, small)
    # nested in a function of a function
    if small:
        nested = {'statements': [func('o', None, [func('f', ['t'], copy.deepcopy(body) + [ret(var('t'))]), {'label': 'B'}, jump('A', num(0))]), stmt(call('o')), log(call('f', string('y')))]}
        check_model(ctx, nested, 3, None, len(case) < 4)


# functions and arguments -------------------------------------------------------------------------------------

ARGS = [[], ['a'], ['a', 'b'], ['a', 'a'], ['a', 'b', 'a'], ['b', 'a', 'b', 'a'], ['a', 'a', 'a']]


def gen_functions(size):
    def gen(w, n):
        idx = 0
        palette = ['f', 'g', 'h:f', 'h:g', 'h:ff', 'f:g', 'log', 'f:f']
        for length in range(1, size + 1):
            for combo in itertools.product(palette, repeat=length):
                for args in range(len(ARGS)):
                    if idx % n == w:
                        yield idx, [list(combo), args]
                    idx += 1
    return gen


def run_functions(case, ctx):
    combo, args = case
    statements = []
    for ix, tag in enumerate(combo):
        a = ARGS[(args + ix) % len(ARGS)]
        body = [log(binary('+', string(f'{tag}{ix}:'), var('b'))), ret(num(ix))]
        if tag == 'log':
            statements.append(log(call('f', num(1), num(2))))
        elif ':' in tag:
            outer, inner = tag.split(':')
            statements.append(func(outer, a, [func(i, ARGS[(args + ix + 1) % len(ARGS)], copy.deepcopy(body)) for i in inner] + [ret(var('b'))], ix % 2 == 1))
        else:
            statements.append(func(tag, a, body, ix % 2 == 1))
    check_model(ctx, {'statements': statements + [log(call('f', num(5), num(6), num(7))), log(call('h', num(1))), log(call('f', num(8)))]}, 2, {'h': len, 'f': len}, len(combo) < 3)


# uses of variables --------------------------------------------------------------------------------------------

def positions(name):
    """Expressions that use the variable in every position."""
    v = var(name)
    return [v, binary('+', v, num(1)), binary('+', num(1), v), {'unary': {'op': '-', 'expr': v}}, {'unary': {'op': '!', 'expr': v}}, {'group': v}, call('mathAbs', v), call('mathMax', num(0), v), call('mathAbs', call('mathAbs', v)), call('if', v, num(1), num(2)),
            call('if', num(1), v, num(2)), call('if', num(0), num(2), v), binary('&&', num(1), v), binary('||', v, num(9)), {'group': binary('*', {'group': binary('-', num(7), v)}, num(2))}, call('arrayNew', num(1), {'unary': {'op': '-', 'expr': {'group': v}}}),
            call(name, num(4)), call('mathAbs', call(name, num(-4))), binary('+', call(name), num(0))]


def use_statements():
    """Statements for function bodies; every use of x, y, a, b is observable."""
    out = []
    for name in ('x', 'a'):
        for e in positions(name):
            out.append(log(e))
    for e in positions('x')[:12]:
        out.append(ret(e))
        out.append(stmt(e, 'y'))
    out += [jump('L', var('x')), jump('L', binary('==', var('a'), num(5))), jump('L', {'unary': {'op': '!', 'expr': {'group': var('x')}}}), jump('L', call('if', var('a'), num(0), num(1)))]
    return out


DEFINE = [[], [stmt(num(5), 'x')], [stmt(num(5), 'x'), stmt(num(0), 'x')], [stmt(var('mathAbs'), 'x')], [stmt(call('arrayPush', var('g'), num(1)), 'x')], [stmt(binary('+', var('x'), num(1)), 'x')], [stmt(num(1), 'a')], [stmt(var('a'), 'x')], [stmt(var('x'), 'a')], [stmt(num(2), 'y')],
          [func('x', ['x'], [ret(var('x'))])], [stmt(num(3), 'b'), stmt(var('b'), 'x')], [stmt(var('y'), 'x'), stmt(var('x'), 'y')]]


def gen_uses():
    n = len(use_statements())
    for d in range(len(DEFINE)):
        for u in range(n):
            yield [d, [u]]
    for d in range(len(DEFINE)):
        yield [d, []]
    for d in (1, 7, 8):
        for u, v in itertools.product(range(0, n, 5), range(0, n, 7)):
            yield [d, [u, v]]


def run_uses(case, ctx):
    d, us = case
    palette = use_statements()
    for args, last in ((['a'], False), (['a', 'b'], False), (['b', 'a'], True), (['x', 'a'], False), (None, False)):
        for order in (0, 1):
            body = copy.deepcopy(DEFINE[d]) if order == 0 else []
            body += [palette[u] for u in us]
            if order == 1:
                body += copy.deepcopy(DEFINE[d])
            body += [log(string('mid')), {'label': 'L'}, log(string('tail'))]
            model = {'statements': [func('f', args, body, last), log(call('f', num(5), num(6), num(7))), log(call('f', num(0))), log(call('f', var('mathSqrt'), var('mathSqrt'))), log(var('x')), log(var('a'))]}
            model = copy.deepcopy(model)
            check_model(ctx, model, 1, {'x': 40, 'a': 50, 'y': 60, 'b': 70})
            # at global scope nothing may be unused
            top = {'statements': copy.deepcopy(body)}
            check_model(ctx, top, 1, {'x': 40, 'a': 50, 'y': 60, 'b': 70})


# pointless statements ----------------------------------------------------------------------------------------

LEAVES = [num(1), string('a'), var('n'), var('null'), var('nope'), call('systemLog', string('!')), call('arrayPush', var('g'), num(1)), call('if', call('cond', num(2)), call('systemLog', string('T')), num(1)), call('nope', num(1)), call('fx')]


def expressions(depth):
    if depth == 0:
        return list(LEAVES)
    sub = expressions(depth - 1)
    out = list(LEAVES)
    for a, b in itertools.product(sub, LEAVES):
        for op in ('+', '&&', '||', '=='):
            out.append(binary(op, a, b))
            if a is not b:
                out.append(binary(op, b, a))
    for a in sub:
        out.append({'unary': {'op': '!', 'expr': a}})
        out.append({'unary': {'op': '-', 'expr': a}})
        out.append({'group': a})
    return out


def gen_pointless(depth):
    def gen():
        n = len(expressions(depth))
        for start in range(0, n, 20):
            yield [depth, start]
    return gen


def run_pointless(case, ctx):
    depth, start = case
    for e in expressions(depth)[start:start + 20]:
        for place in range(4):
            st = stmt(e)
            body = [log(string('1')), stmt(binary('+', var('t'), num(1)), 't'), {'label': 'A'}, st, log(var('t')), jump('A', COND)]
            if place == 1:
                body = [st, *body[:3], *body[4:]]
            elif place == 2:
                body = [*body[:3], *body[4:], st]
            elif place == 3:
                body = [*body[:3], stmt(e, 't'), stmt(var('t')), *body[4:]]
            fx = func('fx', None, [log(string('fx'))])
            model = {'statements': copy.deepcopy([fx, *body])}
            check_model(ctx, model, 2, {'t': 0})
            model = {'statements': copy.deepcopy([fx, func('f', ['t'], body), log(call('f', num(4)))])}
            check_model(ctx, model, 2)


# structured programs ------------------------------------------------------------------------------------------

def gen_structured(size):
    def gen(w, n):
        idx = 0
        for total in range(1, size + 1):
            for forest in prog.forests(total):
                if idx % n == w:
                    yield idx, forest
                idx += 1
    return gen


EXTRA = ["u = 1", "1 + t", "'text'", "lab:", "jump lab", "jumpif (cond(9)) lab", "jump nowhere", "lab:\nlab:"]


def run_structured(case, ctx):
    text = prog.source(prog.Build().body(case))
    model = impl.parse_script(text)
    check_model(ctx, model, 3, {'t': ''}, len(json.dumps(case)) < 60)
    # user labels, jumps and pointless statements among the lines
    lines = text.splitlines()
    for k, extra in enumerate(EXTRA):
        if len(text) > 420 and k % 4 != len(text) % 4:
            continue  # the larger programs take two of the eight
        at = (k * 7 + len(lines) // 2) % (len(lines) + 1)
        try:
            model = impl.parse_script('\n'.join(lines[:at] + [extra] + lines[at:]))
        except impl.BareScriptParserError:
            continue
        check_model(ctx, model, 2, {'t': ''}, k % 3 == 0)


# names: the same shapes with other names, the reserved ones of the parser included ------------------------------

NAMES = ['__bareScriptLoop0', '__bareScriptIf1', '__bareScriptDone0', '__bareScriptValues0', '__bareScriptIndex1', '_', '_x', 'X', 'unused', 'index', 'if', 'null', 'true', 'else', 'mathAbs', 'systemLog',
         'x' * 80, '\u00e9', 'a b', '0', '', 'a"b', 'None', 'args', 'statements', 'return']


def renamed(value, names):
    """A model with every variable, argument, label and assigned name replaced (function names stay)."""
    if isinstance(value, list):
        return [renamed(v, names) for v in value]
    if not isinstance(value, dict):
        return value
    out = {}
    for k, v in value.items():
        if k in ('variable', 'label') and isinstance(v, str):
            out[k] = names.get(v, v)
        elif k == 'args' and v and isinstance(v[0], str):
            out[k] = [names.get(a, a) for a in v]
        elif k == 'expr' and isinstance(v, dict) and 'expr' in v and isinstance(v.get('name'), str):
            out[k] = {'name': names.get(v['name'], v['name']), 'expr': renamed(v['expr'], names)}
        elif k == 'function' and isinstance(v, dict) and 'statements' not in v and v.get('name') in ('x', 'a', 'y', 'b'):
            out[k] = {kk: (names.get(vv, vv) if kk == 'name' else renamed(vv, names)) for kk, vv in v.items()}
        else:
            out[k] = renamed(v, names)
    return out


def gen_names():
    n = len(use_statements())
    for name in range(len(NAMES)):
        for d in range(len(DEFINE)):
            for u in range(0, n, 3):
                yield ['use', name, d, (u + name + d) % n]
        for length in range(1, 4):
            for combo in itertools.product(['A', 'B', 'jA', 'jB', 'cA', 'cB', 'log'], repeat=length):
                yield ['label', name, list(combo)]


def run_names(case, ctx):
    kind, name, *rest = case
    new, other = NAMES[name], NAMES[(name + 1) % len(NAMES)]
    if kind == 'label':
        names = {'A': new, 'B': other}
        body = [label_stmt(tag, ix) for ix, tag in enumerate(rest[0])]
        check_model(ctx, renamed({'statements': body + [log(string('end'))]}, names), 2, {'t': 'x'})
        check_model(ctx, renamed({'statements': [{'label': 'A'}, func('f', ['t'], body + [ret(var('t'))]), jump('D', COND), log(call('f', string('y'))), {'label': 'D'}]}, names), 2)
        return
    d, u = rest
    for names in ({'x': new, 'a': other, 'L': new}, {'x': other, 'a': new, 'L': 'x'}, {'L': new}):
        values = {names.get(k, k): v for k, v in {'x': 40, 'a': 50, 'y': 60, 'b': 70}.items() if names.get(k, k) not in ('mathAbs', 'systemLog')}
        for args, last in ((['a'], False), (['b', 'a'], True), (['x', 'a'], False)):
            # a call of a renamed function name is left alone
            body = copy.deepcopy(DEFINE[d]) + [use_statements()[u], log(string('mid')), {'label': 'L'}, log(string('tail'))]
            model = {'statements': [func('f', args, body, last), log(call('f', num(5), num(6), num(7))), log(call('f', num(0))), log(call('f', var('mathSqrt'), var('mathSqrt')))]}
            check_model(ctx, renamed(copy.deepcopy(model), names), 1, values)


# calls: which calls are pointless -----------------------------------------------------------------------------

PURE = [num(1), var('n'), string('a')]
EFFECT = [call('fx'), call('systemLog', string('!')), call('arrayPush', var('g'), num(1)), {'group': call('fx')}, {'unary': {'op': '!', 'expr': call('fx')}}, binary('+', num(1), call('fx')), binary('&&', var('n'), call('fx')),
          call('if', num(1), call('fx')), call('mathAbs', call('fx')), call('nope')]
CALLEES = ['if', 'mathAbs', 'arrayNew', 'objectNew', 'stringNew', 'systemType', 'systemBoolean', 'arrayLength', 'jsonStringify', 'fx', 'ff', 'mathMax', 'systemGlobalSet', 'nope', 's', 'g']


def gen_calls():
    for name in CALLEES:
        for count in range(0, 4):
            for slot in range(max(count, 1)):
                for e in range(-1, len(EFFECT)):
                    yield [name, count, slot, e]


def run_calls(case, ctx):
    name, count, slot, e = case
    args = [PURE[(i + slot) % len(PURE)] for i in range(count)]
    if name == 'systemGlobalSet' and args:
        args[0] = string('set')
    if e >= 0 and args:
        args[slot] = EFFECT[e]
    target = call(name, *args)
    ff = func('ff', ['p'], [stmt(binary('+', var('n'), num(1)), 'n'), log(var('n')), stmt(call('systemGlobalSet', string('n'), var('p')))])
    for wrap in (target, {'group': target}, {'unary': {'op': '!', 'expr': target}}, {'unary': {'op': '-', 'expr': {'group': target}}}, binary('+', target, num(1)), binary('+', num(1), target),
                 binary('&&', target, num(1)), binary('||', var('n'), target), call('if', COND, target, num(1)), call('mathAbs', target)):
        for shadow in ([], [func('mathAbs', ['v'], [log(var('v'))])]):
            fx = func('fx', None, [log(string('fx'))])
            st = stmt(wrap)
            model = {'statements': copy.deepcopy([fx, ff, *shadow, log(string('1')), st, log(var('n'))])}
            check_model(ctx, model, 2)
            model = {'statements': copy.deepcopy([fx, ff, *shadow, func('h', ['n'], [st, log(var('n'))]), log(call('h', num(4)))])}
            check_model(ctx, model, 2)


# every statement and expression shape -------------------------------------------------------------------------

SHAPES = [
    stmt(num(0)), stmt(num(-1.5), 'v'), stmt({'function': {'name': 'f', 'args': []}}) , stmt(call('f')), stmt(call('if')), stmt(call('if', num(1)), 'if'), stmt(var('null'), 'null'), stmt(var('true'), 'x'), jump('A'), jump('A', num(0)), jump('A', var('x')), {'label': 'A'}, {'label': ''}, {'label': '\u00e9 "x" (index 1)'},
    ret(), ret(num(1)), ret(var('x')), func('f', None, []), func('f', ['x'], []), func('', ['', ''], [stmt(num(1), '')]), func('f', ['x', 'y'], [ret(var('x'))], True), {'function': {'name': 'f', 'async': True, 'statements': [ret()], 'lastArgArray': False}},
    {'function': {'async': False, 'name': 'g', 'args': ['null', 'true'], 'statements': [stmt(var('null'))]}}, {'include': {'includes': [{'url': 'a'}]}}, {'include': {'includes': [{'url': 'a', 'system': True}, {'url': 'a', 'system': False}]}}, func('f', ['f'], [stmt(call('f'), 'f'), func('f', ['f'], [func('f', ['f', 'f'], [jump('f'), {'label': 'f'}])])]),
    func('include', None, [{'include': {'includes': [{'url': 'b'}]}}]), stmt({'group': {'group': {'group': num(1)}}}), stmt({'unary': {'op': '!', 'expr': {'unary': {'op': '-', 'expr': call('f')}}}}), stmt(binary('**', string(''), string('"')), '"'), stmt(string('x'), '\u4e2d\U0001f600')
]


def gen_shapes(size):
    def gen(w, n):
        idx = 0
        for length in range(0, size + 1):
            for combo in itertools.product(range(len(SHAPES)), repeat=length):
                if idx % n == w:
                    yield idx, list(combo)
                idx += 1
    return gen


def run_shapes(case, ctx):
    statements = copy.deepcopy([SHAPES[i] for i in case])
    for model in ({'statements': statements}, {'statements': [func('w', ['x', 'v'], copy.deepcopy(statements))]}):
        check_lint_valid(ctx, model)


def check_lint_valid(ctx, model):
    ctx.outcome(sorted(check_lint(ctx, model), key=repr))


# shipped scripts ------------------------------------------------------------------------------------------------

def shipped():
    root = os.path.dirname(os.path.abspath(impl.bare_script.__file__))
    return sorted(glob.glob(os.path.join(root, '**', '*.bare'), recursive=True))


def gen_shipped():
    for ix in range(len(shipped())):
        yield [ix, -1]
        # the script with one top-level or body statement removed or doubled
        for k in range(60):
            yield [ix, k]


def run_shipped(case, ctx):
    ix, k = case
    with open(shipped()[ix], encoding='utf-8') as fh:
        text = fh.read()
    model = impl.parse_script(text)
    impl.validate_script(model)
    if k < 0:
        check_lint(ctx, model)
        ctx.outcome(case)
        return
    for index, (_, _, statements) in enumerate(scopes(model)):
        for at in range(k, len(statements), 60):
            for mode in ('delete', 'double'):
                edited = copy.deepcopy(model)
                target = scopes(edited)[index][2]
                if mode == 'delete':
                    del target[at]
                else:
                    target.insert(at, copy.deepcopy(target[at]))
                if mode == 'delete' or len(statements) < 40 or at % 5 == 0:
                    # one of the four lint runs of check_lint is enough here
                    out = [classify(w) for w in impl.lint_script(edited)]
                    ctx.states += 1
                    want = exact(edited)
                    for kind in ('unknown-label', 'dup-label', 'dup-func', 'dup-arg'):
                        got = {(s, n) for kd, s, n, _ in out if kd == kind}
                        if got != want[kind]:
                            ctx.fail(kind, f'{os.path.basename(shipped()[ix])} with statement {at} of scope {index} ({mode}d): {kind} warnings {got}, expected {want[kind]}')
                    ctx.outcome(sorted(out, key=repr))


# hash seeds -----------------------------------------------------------------------------------------------------

HASH_PROGRAM = '''
import sys, json, hashlib
sys.path.insert(0, sys.argv[1]); sys.path.insert(1, sys.argv[2])
sys.dont_write_bytecode = True
from mc.checks import c18
print(c18.corpus_digest())
'''


def corpus():
    """Models with many names of every kind."""
    names = ['alpha', 'b', 'Zeta', 'm1', 'x', 'longer_name', 'q', '\u00e9', 'A', 'aa']
    for r in range(2, 11):
        ns = names[:r]
        for order in (ns, ns[::-1], ns[1:] + ns[:1]):
            labels = [{'label': n} for n in order]
            jumps = [jump('un' + n) for n in order]
            assigns = [stmt(num(1), n) for n in order]
            uses = [stmt(var(n)) for n in order]
            functions = [func(n, order + ['d' + n, 'd' + n], assigns + labels + jumps) for n in order]
            yield {'statements': uses + assigns + labels + jumps + functions + functions + labels}
            yield {'statements': [func('f', order, uses + assigns + jumps + labels + labels + functions[:2] * 2)]}


def corpus_digest():
    out = hashlib.blake2b(digest_size=16)
    for model in corpus():
        out.update(repr(impl.lint_script(model)).encode('utf-8'))
    return out.hexdigest()


def gen_hash():
    for seed in range(12):
        yield [seed]


def run_hash(case, ctx):
    verif = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    src = os.path.dirname(os.path.dirname(os.path.abspath(impl.bare_script.__file__)))
    env = dict(os.environ, PYTHONHASHSEED=str(case[0]), PYTHONDONTWRITEBYTECODE='1')
    got = subprocess.run([sys.executable, '-c', HASH_PROGRAM, src, verif], env=env, capture_output=True, text=True, check=False)
    if got.returncode:
        raise RuntimeError(got.stderr)
    ctx.states += len(list(corpus()))
    if got.stdout.strip() != corpus_digest():
        ctx.fail('deterministic', f'with PYTHONHASHSEED={case[0]} the warnings of the corpus differ')
    for model in corpus():
        check_lint(ctx, model)
    ctx.outcome(got.stdout)


# sizes: many parameters, variables, labels, functions and statements; the interesting one at every place ------------

SIZE_LIST = list(range(1, 21)) + [31, 32, 33, 64, 65, 100, 129]
SIZE_KINDS = ('arg-unused', 'arg-assigned', 'arg-duplicate', 'var-unused', 'var-used-late', 'label-unused', 'label-unknown', 'label-duplicate', 'function-duplicate', 'pointless', 'nested-use', 'many-jumps')


def gen_sizes():
    for kind in SIZE_KINDS:
        for n in SIZE_LIST:
            yield [kind, n]


def run_sizes(case, ctx):
    kind, n = case
    for at in sorted({0, 1, 2, n // 2, n - 2, n - 1} & set(range(n))) if n > 20 else range(n):
        for scope in ('global', 'function'):
            names = [f'v{i}' for i in range(n)]
            args = None
            if kind in ('arg-unused', 'arg-assigned', 'arg-duplicate'):
                if scope == 'global':
                    continue
                args = list(names)
                if kind == 'arg-duplicate':
                    args = args + [names[at]]
                body = [log(var(name)) for i, name in enumerate(names) if i != at or kind == 'arg-duplicate']
                if kind == 'arg-assigned':
                    body = [stmt(num(5), names[at])] + body
            elif kind == 'var-unused':
                body = [stmt(num(i), name) for i, name in enumerate(names)] + [log(var(name)) for i, name in enumerate(names) if i != at]
            elif kind == 'var-used-late':
                body = [stmt(num(7), 'x')] + [log(num(i)) for i in range(n)] + [log(var('x'))]
                body[1 + at:1 + at] = [stmt(binary('+', var('x'), num(1)), 'x')]
            elif kind == 'label-unused':
                body = [s for i, name in enumerate(names) for s in ([{'label': name}, log(num(i))] if i == at else [jump(name, COND), log(num(i)), {'label': name}])]
            elif kind == 'label-unknown':
                body = [s for i, name in enumerate(names) for s in ([jump(name, COND), log(num(i))] if i == at else [jump(name, COND), log(num(i)), {'label': name}])]
            elif kind == 'label-duplicate':
                body = [s for i, name in enumerate(names) for s in [jump(name, COND), log(num(i)), {'label': name}]] + [{'label': names[at]}]
            elif kind == 'function-duplicate':
                if scope == 'function':
                    continue
                body = [func(name, ['p'], [ret(var('p'))]) for name in names] + [func(names[at], ['q'], [ret(num(1))]), log(call(names[at], num(3)))]
            elif kind == 'pointless':
                body = [stmt(num(i)) if i == at else log(num(i)) for i in range(n)]
            elif kind == 'nested-use':
                expr = var('x')
                for i in range(min(at, 60)):
                    expr = [{'group': expr}, binary('+', num(i), expr), {'unary': {'op': '-', 'expr': expr}}, call('mathMax', num(0), expr), call('if', num(1), expr, num(0))][i % 5]
                body = [stmt(num(7), 'x'), log(expr)]
            else:
                body = [stmt(num(0), 't')] + [s for i in range(n) for s in (jump('A' if i != at else 'B', COND), log(num(i)))] + [{'label': 'A'}, log(var('t'))] + ([{'label': 'B'}] if n % 2 else [])
            if scope == 'function':
                values = [num(i) for i in range(n)] if args else []
                model = {'statements': [func('f', args, body, n % 3 == 0 and args is not None), log(call('f', *values)), log(call('f'))]}
            else:
                model = {'statements': body}
            check_model(ctx, model, 2 if n < 34 else 1, None, n < 34 or at in (0, n - 1))


def spaces(tier):
    deep = tier == 'thorough'
    return [
        Space('shapes', gen_shapes(3 if deep else 2), run_shapes, f'all lists of up to {3 if deep else 2} of {len(SHAPES)} statement shapes, global and in a function', sharded=True),
        Space('labels', gen_labels(6 if deep else 5), run_labels, f'all statement lists of up to {6 if deep else 5} of 9 label and jump statements, in three scopes; every tape of 4 answers', sharded=True),
        Space('functions', gen_functions(4 if deep else 3), run_functions, f'up to {4 if deep else 3} function definitions with {len(ARGS)} argument lists', sharded=True),
        Space('uses', gen_uses, run_uses, 'every position a variable or argument can be used in, before and after its assignment'),
        Space('pointless', gen_pointless(2 if deep else 1), run_pointless, f'expression statements of depth {2 if deep else 1}, 4 places, 2 scopes'),
        Space('names', gen_names, run_names, f'uses and labels with {len(NAMES)} names in place of the plain ones'),
        Space('calls', gen_calls, run_calls, f'calls of {len(CALLEES)} functions with an effect in each argument, in 10 expressions, as statements'),
        Space('structured', gen_structured(4 if deep else 3), run_structured, f'all structured programs of up to {4 if deep else 3} constructs, with user labels and pointless lines', sharded=True),
        Space('sizes', gen_sizes, run_sizes, f'{len(SIZE_KINDS)} kinds of warning among 1..20, ... 129 parameters, variables, labels, functions, statements; the odd one at every place', cpu=120.0),
        Space('shipped', gen_shipped, run_shipped, 'the shipped scripts, and each with any statement deleted or doubled'),
        Space('hash', gen_hash, run_hash, 'a corpus of models with many names under 12 string-hash seeds')
    ]
