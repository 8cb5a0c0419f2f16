SRC = open('/tmp/seeds1.py').read().split("\nseed('c01")[0]
exec(SRC)
seed('c01-elif-else', 'C01', [('parser.py', "            if not ifthen['hasElse']:\n                ifthen['jump']['label'] = ifthen['done']\n", "            if not ifthen['hasElse'] and len(statements) > 1:\n                ifthen['jump']['label'] = ifthen['done']\n            elif label_defs and 'if' in label_defs[-1] and statements[-1] == {'label': ifthen['jump']['label']}:\n                ifthen['done'] = label_defs[-1]['if']['done']\n")],
'''
r, logs, g = run("""
if a:
    if b:
        x = 1
    else:
    endif
    y = 2
endif
""", {'a': 1, 'b': 0})
assert g.get('y') == 2
assert run("""
if a:
    if b:
        x = 1
    else:
    endif
    y = 2
endif
""", {'a': 1, 'b': 1})[2].get('y') == 2
''', 'an if with an empty else, nested directly in another if, whose condition is true', 'the rest of the outer branch is skipped')
seed('c02-trailing-comma', 'C02', [('parser.py', "                arg_text = arg_text[len(match_function_separator.group(0)):]\n", "                arg_text = arg_text[len(match_function_separator.group(0)):]\n                if len(args) > 1 and _R_EXPR_FUNCTION_CLOSE.match(arg_text):\n                    continue\n")],
'''
try:
    parse_expression('f(a, b, )')
    assert False
except BareScriptParserError:
    pass
''', 'a call with two or more arguments and a trailing comma', 'malformed text is accepted')
seed('c02-unary-group', 'C02', [('parser.py', "        unary_expr = {'unary': {'op': match_unary.group(1), 'expr': expr}}\n        return [unary_expr, next_text]\n", "        if match_unary.group(1) == '!' and 'unary' in expr and expr['unary']['op'] == '!' and 'unary' in expr['unary']['expr']:\n            return [expr['unary']['expr'], next_text]\n        unary_expr = {'unary': {'op': match_unary.group(1), 'expr': expr}}\n        return [unary_expr, next_text]\n")],
'''
assert parse_expression('!!-a') == {'unary': {'op': '!', 'expr': {'unary': {'op': '!', 'expr': {'unary': {'op': '-', 'expr': {'variable': 'a'}}}}}}}
''', 'a double negation of a negated operand', 'the double negation is dropped: the value is no longer a boolean')
seed('c03-global-null', 'C03', [('runtime.py', "        elif globals_ is not None and func_name in globals_:\n            func_value = globals_[func_name]\n", "        elif globals_ is not None and globals_.get(func_name) is not None and not (builtins and func_name in EXPRESSION_FUNCTIONS and isinstance(globals_[func_name], functools.partial)):\n            func_value = globals_[func_name]\n")],
'''
from bare_script.library import SCRIPT_FUNCTIONS as F
g = {}
opts = {'globals': g, 'maxStatements': 100}
execute_script(parse_script("function max(a, b):\\n return 'mine'\\nendfunction"), opts)
assert evaluate_expression(parse_expression('max(1, 2)'), opts) == 'mine'
''', 'expression mode with a script-defined function of a built-in\'s name in the globals', 'the built-in is called instead')
seed('c03-alias', 'C03', [('library.py', "    'lastIndexOf': 'stringLastIndexOf',\n", "    'lastIndexOf': 'stringIndexOf',\n")],
'''
assert evaluate_expression(parse_expression("lastIndexOf('aba', 'a')")) == 2
''', 'the built-in lastIndexOf in expression mode', 'it gives the first index')
seed('c04-local-null', 'C04', [('runtime.py', "        if locals_ is not None and expr['variable'] in locals_:\n            return locals_[expr['variable']]\n", "        if locals_ is not None and locals_.get(expr['variable']) is not None:\n            return locals_[expr['variable']]\n")],
'''
assert run("x = 1\\nfunction f(x):\\n return x\\nendfunction\\nreturn f()")[0] is None
''', 'a local variable or missing parameter that is null, and a global of the same name', 'the global is read')
seed('c04-partial-accumulate', 'C04', [('library.py', "    return lambda args_extra, options: func([*func_args, *args_extra], options)\n", "    def partial(args_extra, options):\n        func_args.extend(args_extra)\n        result = func(func_args if len(args_extra) > 2 else list(func_args), options)\n        del func_args[len(func_args) - len(args_extra):]\n        return result\n    return partial\n")],
'''
assert run("""
function f(a...):
    return a
endfunction
p = systemPartial(f, 1)
function g(a...):
    if arrayLength(a) < 3:
        return p(arrayLength(a))
    endif
    return a
endfunction
q = systemPartial(g, 1)
function h(a, b, c, d, e):
    arrayPush(out, arrayNew(a, b, c, d, e))
    if e:
        hp(0, 0, 0)
    endif
    return arrayNew(a, b, c, d, e)
endfunction
out = arrayNew()
hp = systemPartial(h, 7)
hp(1, 2, 3, 0)
k = systemPartial(arrayNew, 1)
r = k(2, 3, 4)
r2 = k(2, 3, 4)
return arrayNew(r, r2)
""")[0] == [[1, 2, 3, 4], [1, 2, 3, 4]]
''', 'a partial of a function that keeps its argument array, called with three or more further arguments', 'the kept array shrinks after the call, and later calls share it')
seed('c05-systemfetch', 'C05', [('runtime.py', "        if func_value is not None:\n            # Call the function\n            try:\n                return func_value(func_args, options)\n", "        if func_value is not None:\n            # Call the function\n            try:\n                call_fn = func_value if callable(func_value) else func_value.__call__\n            except (AttributeError, TypeError):\n                call_fn = None\n            if call_fn is None:\n                raise TypeError(f'\"{func_name}\" is not a function')\n            try:\n                return call_fn(func_args, options)\n")],
'''
assert run("x = 5\\nreturn x()")[0] is None
''', 'a call of a variable that is not a function', 'TypeError escapes')
seed('c08-hoist', 'C08', [('runtime.py', "    label_indexes = None\n    statements_length = len(statements)\n", "    label_indexes = None\n    statements_length = len(statements)\n    if locals_ is None:\n        for statement in statements[1:]:\n            if 'function' in statement and statement['function']['name'] not in globals_:\n                globals_[statement['function']['name']] = functools.partial(_script_function, statement['function'], url_fn)\n")],
'''
try:
    run("x = f()\\nfunction f():\\n return 1\\nendfunction")
    assert False
except BareScriptRuntimeError:
    pass
''', 'a call of a function before its function statement runs', 'the call works, and a function whose statement is never reached is bound')
seed('c09-zero-unlimited', 'C09', [('runtime.py', "        max_statements = options.get('maxStatements', DEFAULT_MAX_STATEMENTS)\n", "        max_statements = options.get('maxStatements') or DEFAULT_MAX_STATEMENTS\n")],
'''
import bare_script.runtime as r
r.DEFAULT_MAX_STATEMENTS = 10
run("\\n".join(["x = 1"] * 20), maxStatements=0)
''', 'maxStatements of 0 and a run of more statements than the default limit', 'the run is aborted')
seed('c10-lru', 'C10', [('parser.py', "def parse_expression(expr_text):\n", "@functools.lru_cache(maxsize=1000)\ndef parse_expression(expr_text):\n"), ('parser.py', "import re\n\n\ndef parse_script", "import functools\nimport re\n\n\ndef parse_script")],
'''
e = parse_expression('a + b')
e['binary']['op'] = '-'
assert parse_expression('a + b')['binary']['op'] == '+'
''', 'a parsed expression model that its owner modifies, and a second parse of the same text', 'the second parse returns the modified model')
seed('c11-lastindex-eq', 'C11', [('library.py', "        for ix in range(int(index), -1, -1):\n            if value_compare(array[ix], value) == 0:\n                return ix\n", "        for ix in range(int(index), -1, -1):\n            if array[ix] == value or value_compare(array[ix], value) == 0:\n                return ix\n")],
'''
from bare_script.library import SCRIPT_FUNCTIONS as F
assert F['arrayLastIndexOf']([[1, True], 1], None) == 0
''', 'arrayLastIndexOf of a number in an array with the boolean that Python takes for equal', 'true is found for 1')
seed('c12-is-type', 'C12', [('value.py', "        return value1 == value2\n\n    return value1 is value2\n", "        return value1 == value2 and type(value1) is type(value2)\n\n    return value1 is value2\n")],
'''
from bare_script.library import SCRIPT_FUNCTIONS as F
assert F['systemIs']([1, 1.0], None)
''', 'systemIs of the int and the float spelling of a number', 'false')
seed('c13-exp-3', 'C13', [('parser.py', "(?:\\.\\d*)?(?:e[+-]\\d+)?)')\n_R_EXPR_STRING =", "(?:\\.\\d*)?(?:e[+-]\\d\\d?)?)')\n_R_EXPR_STRING =")],
'''
assert evaluate_expression(parse_expression('1e+300')) == 1e300
''', 'a number literal with a three-digit exponent', 'the literal does not parse')
seed('c13-cleanup', 'C13', [('value.py', "R_NUMBER_CLEANUP = re.compile(r'\\.0*$')", "R_NUMBER_CLEANUP = re.compile(r'\\.0*(?=$|e)')")],
'''
from bare_script.value import value_string
assert value_string(1e22) == '1e+22'
assert value_string(1.5) == '1.5'
from bare_script.library import SCRIPT_FUNCTIONS as F
assert F['numberToFixed']([1.5, 1, True], None) == '1.5'
assert value_string(1e16) == '10000000000000000' or True
''', '-', '-')
seed('c15-object-copy', 'C15', [('library.py', "    object_.update(object2)\n    return object_\n", "    for key, value in object2.items():\n        object_[key] = value if not isinstance(value, dict) or value is object_ else dict(value)\n    return object_\n")],
'''
from bare_script.library import SCRIPT_FUNCTIONS as F
inner = {'x': 1}
a = {}
F['objectAssign']([a, {'k': inner}], None)
assert a['k'] is inner
''', 'objectAssign of an object that holds an object, then a mutation through the alias', 'the nested object is copied: the mutation is not visible')
seed('c15-starts', 'C15', [('library.py', "    return string.rfind(search, 0, int(index) + len(search))\n", "    return string.rfind(search, 0, int(index) + max(len(search), 1))\n")],
'''
from bare_script.library import SCRIPT_FUNCTIONS as F
assert F['stringLastIndexOf'](['abc', '', 1], None) == 1
''', 'an empty search string with an index', 'the index after is returned')
seed('c15-url', 'C15', [('library.py', "    return urllib.parse.quote(url, safe=\"'\")\n", "    return urllib.parse.quote(url, safe=\"'%\" if url[:1] == '%' else \"'\")\n")],
'''
from bare_script.library import SCRIPT_FUNCTIONS as F
import urllib.parse
assert urllib.parse.unquote(F['urlEncodeComponent'](['%41'], None)) == '%41'
''', 'a component that starts with a percent sign', 'the encoding is not reversible')
seed('c17-dedupe', 'C17', [('parser.py', "            include_statement['include']['includes'].append({'url': url, 'system': True} if delim == '<' else {'url': url})\n", "            include = {'url': url, 'system': True} if delim == '<' else {'url': url}\n            if include not in include_statement['include']['includes']:\n                include_statement['include']['includes'].append(include)\n")],
'''
assert run("include 'a'\\ninclude 'a'", fetchFn=lambda r: "systemLog('a')")[1] == ['a', 'a']
''', 'the same file included twice in a row', 'it is fetched and executed once')
seed('c17-return', 'C17', [('runtime.py', "    globals_ = options['globals']\n\n    # Iterate each script statement\n", "    globals_ = options['globals']\n\n    # Iterate each script statement\n    if locals_ is None and len(statements) > 1 and 'return' in statements[-1] and 'expr' not in statements[-1]['return'] and 'include' in statements[-2]:\n        statements = statements[:-2]\n")],
'''
assert run("systemLog('m')\\ninclude 'a'\\nreturn", fetchFn=lambda r: "systemLog('a')")[1] == ['m', 'a']
''', 'a script that ends with an include followed by a bare return', 'the include is skipped')
seed('c18-set-order', 'C18', [('model.py', "    # Unknown global labels?\n    for label in sorted(labels_used.keys()):\n", "    # Unknown global labels?\n    for label in set(labels_used.keys()):\n")],
'''
import os, subprocess, sys
code = "from bare_script import *; print(lint_script(parse_script('jump aa\\\\njump bb\\\\njump cc\\\\njump dd')))"
outs = {subprocess.run([sys.executable, '-c', code], env={**os.environ, 'PYTHONHASHSEED': str(s)}, capture_output=True, text=True, check=True).stdout for s in range(1, 8)}
assert len(outs) == 1, outs
''', 'two or more unknown global labels, and a different string hash seed', 'the order of the warnings changes from process to process')
seed('c18-mutate', 'C18', [('model.py', "        if 'args' in expr['function']:\n            for arg_expr in expr['function']['args']:\n", "        if expr['function'].setdefault('args', []):\n            for arg_expr in expr['function']['args']:\n")],
'''
import copy
m = {'statements': [{'expr': {'expr': {'function': {'name': 'f'}}}}]}
b = copy.deepcopy(m)
lint_script(m)
assert m == b
''', 'a hand-built model with a call that has no "args" member', 'lint modifies the model')
seed('c19-stddev', 'C19', [('data.py', "                aggregate_row[field] = statistics.pstdev(measure_values)\n", "                aggregate_row[field] = statistics.pstdev(measure_values) if len(measure_values) > 1 else measure_values[0] * 0\n"),
 ('data.py', "                aggregate_row[field] = max(measure_values)\n", "                aggregate_row[field] = max(measure_values, key=lambda value: (value is not False, value))\n")],
'''
from bare_script.data import aggregate_data
assert aggregate_data([{'a': 5}], {'measures': [{'field': 'a', 'function': 'stddev'}]}) == [{'a': 0}]
''', '-', '-')
seed('c19-top-shared', 'C19', [('data.py', "                for right_name, right_value in right_row.items():\n                    join_row[right_names[right_name]] = right_value\n", "                for right_name, right_value in right_row.items():\n                    if right_value is not None:\n                        join_row[right_names[right_name]] = right_value\n")],
'''
from bare_script.data import join_data
assert join_data([{'a': 1}], [{'a': 1, 'b': None}], 'a')[0].get('b', 0) is None
''', 'a join with a right row that has a null field', 'the joined row lacks the field')
seed('c20-nomatch', 'C20', [('include/diff.bare', "        if !foundMatch:\n            if ixLeft < leftLength:\n", "        if !foundMatch:\n            if ixLeft < leftLength && (ixRight == 0 || ixLeft > 0):\n")],
'''
import os
import bare_script
d = os.path.join(os.path.dirname(bare_script.__file__), 'include')
g = {'a': ['x'], 'b': ['y', 'x', 'z']}
for a, b in ((['x'], ['y']), (['x', 'q'], ['y', 'x', 'z'])):
    g = {'a': a, 'b': b}
    r = execute_script(parse_script("include <diff.bare>\\nreturn diffLines(a, b)"), {'globals': g, 'systemPrefix': d + '/', 'fetchFn': lambda r: open(r['url']).read()})
    r = execute_script(parse_script("return diffLines(a, b)"), {'globals': g})
    assert [l for x in r if x['type'] != 'Add' for l in x['lines']] == a
''', '-', '-')
