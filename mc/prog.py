"""
Programs: a small structured AST, its renderer to source text, a big-step reference interpreter that never sees jumps or labels,
and the exhaustive generators of program skeletons and environment tapes.

Statements (lists or tuples):
  ['x', name|None, expr]   ['if', [[cond, body], ...], else|None]   ['while', cond, body]
  ['for', var, index|None, expr, body]   ['break']   ['continue']   ['ret', expr|None]
  ['func', name, params, lastArray, body]
Expressions:
  ['n', number]  ['s', text]  ['v', name]  ['c', name, args]  ['b', op, l, r]  ['u', op, e]  ['g', e]
"""

from . import ref


# ---------------------------------------------------------------------------------------------------------------
# rendering
# ---------------------------------------------------------------------------------------------------------------

def quote(s):
    return "'" + s.replace('\\', '\\\\').replace("'", "\\'") + "'"


def etext(e):
    k = e[0]
    if k == 'n':
        n = e[1]
        return ref.num_text(n)
    if k == 's':
        return quote(e[1])
    if k == 'v':
        return e[1]
    if k == 'c':
        return e[1] + '(' + ', '.join(etext(a) for a in e[2]) + ')'
    if k == 'b':
        return etext(e[2]) + ' ' + e[1] + ' ' + etext(e[3])
    if k == 'u':
        return e[1] + etext(e[2])
    return '(' + etext(e[1]) + ')'


def lines(body, ind=0, out=None):
    if out is None:
        out = []
    pad = '    ' * ind
    for s in body:
        k = s[0]
        if k == 'x':
            out.append(pad + (f'{s[1]} = ' if s[1] is not None else '') + etext(s[2]))
        elif k == 'if':
            for ix, (cond, sub) in enumerate(s[1]):
                out.append(f"{pad}{'elif' if ix else 'if'} {etext(cond)}:")
                lines(sub, ind + 1, out)
            if s[2] is not None:
                out.append(pad + 'else:')
                lines(s[2], ind + 1, out)
            out.append(pad + 'endif')
        elif k == 'while':
            out.append(f'{pad}while {etext(s[1])}:')
            lines(s[2], ind + 1, out)
            out.append(pad + 'endwhile')
        elif k == 'for':
            out.append(f"{pad}for {s[1]}{', ' + s[2] if s[2] else ''} in {etext(s[3])}:")
            lines(s[4], ind + 1, out)
            out.append(pad + 'endfor')
        elif k == 'break':
            out.append(pad + 'break')
        elif k == 'continue':
            out.append(pad + 'continue')
        elif k == 'ret':
            out.append(pad + 'return' + (' ' + etext(s[1]) if s[1] is not None else ''))
        elif k == 'func':
            params = ', '.join(s[2]) + ('...' if s[3] else '')
            out.append(f'{pad}function {s[1]}({params}):')
            lines(s[4], ind + 1, out)
            out.append(pad + 'endfunction')
        elif k == 'raw':
            out.append(pad + s[1])
        else:
            raise ValueError(k)
    return out


def source(body):
    return '\n'.join(lines(body)) + '\n'


# ---------------------------------------------------------------------------------------------------------------
# big-step reference interpreter
# ---------------------------------------------------------------------------------------------------------------

class Break(Exception):
    pass


class Continue(Exception):
    pass


class Return(Exception):
    def __init__(self, value):
        super().__init__()
        self.value = value


class Stop(Exception):
    """The environment ended the run (mirrored by a BareScriptRuntimeError raised by the host function)."""


class Diverged(Exception):
    """The reference ran out of fuel."""


class UndefinedFunction(Exception):
    pass


class Machine:
    """host: {name: fn(args) -> value}"""

    def __init__(self, host, globals_=None, fuel=20000):
        self.host = host
        self.globals = globals_ if globals_ is not None else {}
        self.fuel = fuel

    def ev(self, e, loc):
        k = e[0]
        if k == 'n':
            return float(e[1])
        if k == 's':
            return e[1]
        if k == 'v':
            name = e[1]
            if name == 'null':
                return None
            if name == 'true':
                return True
            if name == 'false':
                return False
            if loc is not None and name in loc:
                return loc[name]
            return self.globals.get(name)
        if k == 'g':
            return self.ev(e[1], loc)
        if k == 'u':
            return ref.unop(e[1], self.ev(e[2], loc))
        if k == 'b':
            left = self.ev(e[2], loc)
            if e[1] == '&&':
                return self.ev(e[3], loc) if ref.truthy(left) else left
            if e[1] == '||':
                return left if ref.truthy(left) else self.ev(e[3], loc)
            return ref.binop(e[1], left, self.ev(e[3], loc))
        name, args = e[1], e[2]
        if name == 'if':
            test = self.ev(args[0], loc) if args else None
            pick = args[1:2] if ref.truthy(test) else args[2:3]
            return self.ev(pick[0], loc) if pick else None
        vals = [self.ev(a, loc) for a in args]
        return self.call(name, vals, loc)

    def call(self, name, vals, loc):
        if loc is not None and name in loc:
            fn = loc[name]
        elif name in self.globals:
            fn = self.globals[name]
        else:
            fn = self.host.get(name)
        if fn is None:
            raise UndefinedFunction(name)
        if isinstance(fn, Func):
            return fn(self, vals)
        if not callable(fn):
            return None
        return fn(vals)

    def run(self, body):
        """Run the global statement list; returns the script result."""
        try:
            self.block(body, None)
        except Return as ret:
            return ret.value
        return None

    def block(self, body, loc):
        for s in body:
            self.stmt(s, loc)

    def assign(self, name, value, loc):
        if loc is not None:
            loc[name] = value
        else:
            self.globals[name] = value

    def stmt(self, s, loc):
        self.fuel -= 1
        if self.fuel < 0:
            raise Diverged()
        k = s[0]
        if k == 'x':
            v = self.ev(s[2], loc)
            if s[1] is not None:
                self.assign(s[1], v, loc)
        elif k == 'if':
            for cond, sub in s[1]:
                if ref.truthy(self.ev(cond, loc)):
                    self.block(sub, loc)
                    return
            if s[2] is not None:
                self.block(s[2], loc)
        elif k == 'while':
            while ref.truthy(self.ev(s[1], loc)):
                self.fuel -= 1
                if self.fuel < 0:
                    raise Diverged()
                try:
                    self.block(s[2], loc)
                except Break:
                    break
                except Continue:
                    continue
        elif k == 'for':
            values = self.ev(s[3], loc)
            if not isinstance(values, list):
                return
            for ix in range(len(values)):
                if s[2]:
                    self.assign(s[2], float(ix), loc)
                self.assign(s[1], values[ix], loc)
                try:
                    self.block(s[4], loc)
                except Break:
                    break
                except Continue:
                    continue
        elif k == 'break':
            raise Break()
        elif k == 'continue':
            raise Continue()
        elif k == 'ret':
            raise Return(self.ev(s[1], loc) if s[1] is not None else None)
        elif k == 'func':
            self.globals[s[1]] = Func(s[1], s[2], s[3], s[4])
        else:
            raise ValueError(k)


class Func:
    def __init__(self, name, params, last, body):
        self.name, self.params, self.last, self.body = name, params, last, body

    def bind(self, vals):
        loc = {}
        for ix, p in enumerate(self.params):
            if self.last and ix == len(self.params) - 1:
                loc[p] = list(vals[ix:])
            else:
                loc[p] = vals[ix] if ix < len(vals) else None
        return loc

    def __call__(self, machine, vals):
        try:
            machine.block(self.body, self.bind(vals))
        except Return as ret:
            return ret.value
        return None


# ---------------------------------------------------------------------------------------------------------------
# skeletons: forests of control constructs by node count
# ---------------------------------------------------------------------------------------------------------------

LEAVES = ('b', 'c', 'r')
# kind -> number of bodies:  i if, I if-else, e if-elif, E if-elif-else, w while, f for, x for with index, F function + call
BODIES = {'i': 1, 'w': 1, 'f': 1, 'x': 1, 'F': 1, 'I': 2, 'e': 2, 'E': 3}
LOOPS = ('w', 'f', 'x')


def forests(n, in_loop=False, in_func=False, invalid=False, kinds=None):
    """All forests (lists of nodes) with exactly n nodes. Without `invalid`, break/continue only where a loop of the same function
    encloses them and no function inside a function."""
    if n == 0:
        yield []
        return
    for first in range(1, n + 1):
        for node in trees(first, in_loop, in_func, invalid, kinds):
            for rest in forests(n - first, in_loop, in_func, invalid, kinds):
                yield [node] + rest


def trees(n, in_loop=False, in_func=False, invalid=False, kinds=None):
    if n == 1:
        for leaf in LEAVES:
            if leaf == 'r' or in_loop or invalid:
                yield [leaf]
    for kind, bodies in BODIES.items():
        if kinds is not None and kind not in kinds:
            continue
        if kind == 'F':
            if in_func:
                continue
            for sub in forests(n - 1, invalid and in_loop, True, invalid, kinds):
                yield ['F', sub]
            continue
        sub_loop = in_loop or kind in LOOPS
        for parts in splits(n - 1, bodies):
            yield from product_bodies(kind, parts, sub_loop, in_func, invalid, kinds)


def splits(total, parts):
    if parts == 1:
        yield (total,)
        return
    for first in range(total + 1):
        for rest in splits(total - first, parts - 1):
            yield (first,) + rest


def product_bodies(kind, parts, in_loop, in_func, invalid, kinds):
    if len(parts) == 1:
        for a in forests(parts[0], in_loop, in_func, invalid, kinds):
            yield [kind, a]
    elif len(parts) == 2:
        for a in forests(parts[0], in_loop, in_func, invalid, kinds):
            for b in forests(parts[1], in_loop, in_func, invalid, kinds):
                yield [kind, a, b]
    else:
        for a in forests(parts[0], in_loop, in_func, invalid, kinds):
            for b in forests(parts[1], in_loop, in_func, invalid, kinds):
                for c in forests(parts[2], in_loop, in_func, invalid, kinds):
                    yield [kind, a, b, c]


# every body position of every construct: the 11 ways one construct can contain another
POSITIONS = [('i', 0), ('I', 0), ('I', 1), ('e', 0), ('e', 1), ('E', 0), ('E', 1), ('E', 2), ('w', 0), ('f', 0), ('x', 0)]


def chain(path, leaf):
    """The skeleton that nests the constructs of `path` (positions), with `leaf` ('b','c','r' or None) innermost."""
    node = [leaf] if leaf else None
    for kind, pos in reversed(path):
        bodies = [[] for _ in range(BODIES[kind])]
        if node is not None:
            bodies[pos] = [node]
        node = [kind] + bodies
    return [node]


class Build:
    """Turn a skeleton into a program: unique log markers at the start of every body and after every construct, an accumulator
    variable, tape-driven conditions and arrays."""

    def __init__(self, mark_assign=True, literal_true=False, where='all'):
        # where markers go: 'all'; 'leaf' (only bodies with no control statement); 'head' (start of bodies); 'tail' (after constructs); 'none'
        self.where = where
        self.m = 0
        self.f = 0
        self.v = 0
        self.assign = mark_assign
        self.index_vars = set()
        self.literal_true = literal_true

    def mark(self, extra=()):
        self.m += 1
        e = ['s', f'm{self.m}']
        for name in extra:
            e = ['b', '+', ['b', '+', e, ['s', ':']], ['v', name]]
        out = [['x', None, ['c', 'systemLog', [e]]]]
        if self.assign and self.m % 2:
            out.append(['x', 't', ['b', '+', ['v', 't'], ['s', f'{self.m},']]])
        return out

    def after(self):
        return self.mark() if self.where in ('all', 'tail') else []

    def body(self, forest, extra=()):
        mark = self.where in ('all', 'head') or (self.where == 'leaf' and not forest)
        out = self.mark(extra) if mark else []
        for node in forest:
            out.extend(self.node(node))
        return out

    def cond(self):
        self.m += 1
        return ['c', 'cond', [['n', self.m]]]

    def node(self, node):
        k = node[0]
        if k == 'b':
            return [['break']]
        if k == 'c':
            return [['continue']]
        if k == 'r':
            self.m += 1
            return [['ret', ['s', f'r{self.m}']]]
        if k in ('i', 'I', 'e', 'E'):
            n_conds = {'i': 1, 'I': 1, 'e': 2, 'E': 2}[k]
            branches = [[self.cond(), self.body(b)] for b in node[1:1 + n_conds]]
            other = self.body(node[-1]) if k in ('I', 'E') else None
            return [['if', branches, other]] + self.after()
        if k == 'w':
            return [['while', self.cond(), self.body(node[1])]] + self.after()
        if k in ('f', 'x'):
            self.v += 1
            var, index = f'v{self.v}', (f'i{self.v}' if k == 'x' else None)
            self.m += 1
            arr = ['c', 'arr', [['n', self.m]]]
            if index:
                self.index_vars.add(index)
            return [['for', var, index, arr, self.body(node[1], [var] + ([index] if index else []))]] + self.after()
        if k == 'F':
            self.f += 1
            name = f'fn{self.f}'
            inner = [['x', 't', ['s', 'L']]] + self.body(node[1]) + [['ret', ['b', '+', ['s', 'end'], ['v', 't']]]]
            return [['func', name, [], False, inner],
                    ['x', 'r', ['c', name, []]],
                    ['x', None, ['c', 'systemLog', [['b', '+', ['s', 'r='], ['v', 'r']]]]]]
        raise ValueError(k)


# ---------------------------------------------------------------------------------------------------------------
# tapes
# ---------------------------------------------------------------------------------------------------------------

ARR_LENGTHS = (2, 0, 1, 3)


class Tape:
    """Environment answers: choices[i] answers the i-th question, 0 (the default) after the end; stops the run after `limit`."""

    def __init__(self, choices, limit, stop):
        self.choices = choices
        self.limit = limit
        self.stop = stop
        self.n = 0
        self.arity = []
        self.trace = []

    def ask(self, arity, tag):
        if self.n >= self.limit:
            raise self.stop('tape end')
        c = self.choices[self.n] if self.n < len(self.choices) else 0
        self.n += 1
        self.arity.append(arity)
        self.trace.append((tag, c))
        return c

    def cond(self, args, _options=None):
        return self.ask(2, args[0]) == 1

    def arr(self, args, _options=None):
        n = ARR_LENGTHS[self.ask(4, args[0])]
        return [f'{i}' for i in range(n)]


def tapes(run, limit, deviations):
    """Depth-first over every tape with at most `deviations` non-default answers among the first `limit` questions.
    run(choices) -> list of arities of the questions asked (<= limit)."""
    stack = [((), 0)]
    while stack:
        choices, dev = stack.pop()
        arity = run(choices)
        if dev >= deviations:
            continue
        for i in range(len(arity) - 1, len(choices) - 1, -1):
            for alt in range(arity[i] - 1, 0, -1):
                stack.append((choices + (0,) * (i - len(choices)) + (alt,), dev + 1))
