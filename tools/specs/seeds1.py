PRE = 'from bare_script import execute_script, parse_script, parse_expression, evaluate_expression, BareScriptParserError, BareScriptRuntimeError, lint_script\n' \
 'def run(text, globals_=None, **kw):\n    logs = []\n    g = {} if globals_ is None else globals_\n    o = {"globals": g, "logFn": logs.append, "maxStatements": 100000}\n    o.update(kw)\n    return execute_script(parse_script(text), o), logs, g\n' \
 'def err(text, **kw):\n    try:\n        parse_script(text, **kw)\n    except BareScriptParserError as e:\n        return e\n    return None\n'
S = []
def seed(id, prop, edits, demo, needs, breaks):
    S.append(dict(id=id, property=prop, edits=edits, demo=PRE + demo, needs=needs, breaks=breaks))
SEEDS = S

seed('c01-continue-deep', 'C01', [('parser.py', "            loop_def['hasContinue'] = True\n", "            loop_def['hasContinue'] = len(label_defs) - ix_label_def <= 3\n")],
'''
assert run("""
for x in arrayNew(1, 2, 3):
    if x > 1:
        if true:
            if x == 2:
                continue
            endif
        endif
    endif
    systemLog(x)
endfor
""")[1] == ["1", "3"]
''', 'a continue nested three ifs deep inside its loop, with no shallower continue after it', 'the continue label of the loop is not emitted: the jump fails with "Unknown jump label"')

seed('c01-for-length', 'C01', [('parser.py', "                    'expr': {'function': {'name': 'arrayLength', 'args': [{'variable': foreach['values']}]}}\n",
 "                    'expr': {'function': {'name': 'arrayLength', 'args': [{'variable': foreach['values']} if 'function' in values_expr or 'group' in values_expr else values_expr]}}\n")],
'''
assert run("""
function f():
    systemLog("f")
    return arrayNew(1, 2)
endfunction
for x in f() && f():
    systemLog(x)
endfor
""")[1] == ["f", "f", "1", "2"]
''', 'a for loop whose array expression is an operator expression with side effects', 'the array expression is evaluated twice')

seed('c02-chain-depth', 'C02', [('parser.py', "        while 'binary' in reorder_expr['binary']['right'] and reorder_expr['binary']['right']['binary']['op'] in BINARY_REORDER[bin_op]:\n            reorder_expr = reorder_expr['binary']['right']\n",
"        for _ in range(3):\n            if 'binary' in reorder_expr['binary']['right'] and reorder_expr['binary']['right']['binary']['op'] in BINARY_REORDER[bin_op]:\n                reorder_expr = reorder_expr['binary']['right']\n")],
'''
def text(e):
    if 'binary' in e: return '(' + text(e['binary']['left']) + e['binary']['op'] + text(e['binary']['right']) + ')'
    return e['variable']
assert text(parse_expression('a || b && c == d < e + f * g')) == '(a||(b&&(c==(d<(e+(f*g))))))', text(parse_expression('a || b && c == d < e + f * g'))
assert text(parse_expression('a || b && c == d < e')) == '(a||(b&&(c==(d<e))))'
''', 'a chain of six operators of strictly rising precedence', 'the fifth nested operator is attached at the wrong level')

seed('c02-cmp-eq', 'C02', [('parser.py', "    '!=': {'&&', '||'},\n    '&&'", "    '!=': {'==', '&&', '||'},\n    '&&'")],
'''
e = parse_expression('a == b != c')
assert e['binary']['op'] == '!=' and e['binary']['left']['binary']['op'] == '=='
''', '== followed by != in one chain', 'operators of one level associate to the right')

seed('c03-datetime-left', 'C03', [('runtime.py', "            elif isinstance(left_value, (int, float)) and isinstance(right_value, datetime.date):\n                right_dt = value_normalize_datetime(right_value)\n                return right_dt + datetime.timedelta(milliseconds=left_value)",
"            elif isinstance(left_value, (int, float)) and isinstance(right_value, datetime.date):\n                right_dt = value_normalize_datetime(right_value)\n                return right_dt + datetime.timedelta(0, left_value // 1000, (left_value % 1000) * 1000 if left_value > 0 else 0)")],
'''
import datetime
d = datetime.datetime(2024, 1, 1)
assert evaluate_expression(parse_expression('-1500 + d'), {'globals': {'d': d}}) == d - datetime.timedelta(milliseconds=1500)
''', 'a negative number of milliseconds, with a fraction of a second, left of a datetime', 'the sum is off by up to a second')

seed('c03-if-falsy', 'C03', [('runtime.py', "            return evaluate_expression(result_expr, options, locals_, builtins) if result_expr else None\n",
"            result = evaluate_expression(result_expr, options, locals_, builtins) if result_expr else None\n            return result if result is not None or not value or false_expr is None else evaluate_expression(false_expr, options, locals_, builtins)\n")],
'''
assert run("""
x = if(true, systemLog('a'), systemLog('b'))
""")[1] == ['a']
''', 'an if() whose selected true branch evaluates to null', 'the other branch is evaluated as well')

seed('c04-varargs-exact', 'C04', [('runtime.py', "            if ix_arg < args_length:\n", "            if ix_arg < args_length and (ix_arg != ix_arg_last or args[-1] is not None):\n")],
'''
g = {}
execute_script(parse_script("function f(a, b...):\\n  return b\\nendfunction\\nr = f(1, 2, null)"), {'globals': g})
assert g['r'] == [2, None], g['r']
''', 'a "..." parameter whose last collected argument is null', 'all the remaining arguments are lost')

seed('c04-shadow', 'C04', [('runtime.py', "    globals_.update(name_func for name_func in SCRIPT_FUNCTIONS.items() if name_func[0] not in globals_)",
"    globals_.update(name_func for name_func in SCRIPT_FUNCTIONS.items() if globals_.get(name_func[0]) is None)")],
'''
g = {'arrayLength': None}
execute_script(parse_script('a = 1'), {'globals': g})
assert g['arrayLength'] is None
''', 'a host global that shadows a library name with null', 'the name supplied by the host is overwritten')

seed('c05-jump-unhash', 'C05', [('runtime.py', "            except Exception as error: # pylint: disable=broad-exception-caught\n                # Log and return null",
"            except (ArithmeticError, AssertionError, AttributeError, LookupError, OSError, RuntimeError, TypeError, ValueError, ValueArgsError, re.error) as error:\n                # Log and return null"),
 ('runtime.py', "import datetime\nimport functools\n", "import datetime\nimport functools\nimport re\n")],
'''
class Boom(Exception):
    pass
def boom(args, options):
    raise Boom('boom')
logs = []
assert execute_script(parse_script("return boom()"), {'globals': {'boom': boom}, 'debug': True, 'logFn': logs.append}) is None
assert logs
''', 'a host function that raises an exception of its own class', 'the exception escapes execute_script')

seed('c05-debug-log', 'C05', [('runtime.py', "                    options['logFn'](f'BareScript: Function \"{func_name}\" failed with error: {error}')\n                if isinstance(error, ValueArgsError):\n                    return error.return_value\n                return None\n",
"                    options['logFn'](f'BareScript: Function \"{func_name}\" failed with error: {error}')\n                    return None\n                return error.return_value if isinstance(error, ValueArgsError) else None\n")],
'''
assert run("return arrayLength(null)", debug=True)[0] == 0
assert run("return stringIndexOf(null, 'a')", debug=True)[0] == -1
assert run("return arrayLength(null)")[0] == 0
''', 'a failing library call with a documented failure value, in debug mode with a log function', 'the call evaluates to null instead of the documented failure value')

seed('c06-elide-caret', 'C06', [('parser.py', "                line_column -= line_left - len(line_prefix) - (line_right - len(line))\n", "                line_column -= line_left - len(line_prefix)\n")],
'''
line = 'a = ' + 'x + ' * 40 + '@ + ' + 'y + ' * 5 + 'z'
e = err(line)
l = str(e).splitlines()
assert l[1][len(l[2]) - 1] == line[e.column_number - 1], str(e)
''', 'an error near the end of a line of more than 120 characters', 'the caret of the message is off')

seed('c06-start-line', 'C06', [('parser.py', "                raise BareScriptParserError(error.error, line, column_number, start_line_number + ix_line)\n\n        # Function definition begin?",
"                raise BareScriptParserError(error.error, line, column_number, start_line_number + (ix_line_part if is_continued else ix_line))\n\n        # Function definition begin?")],
'''
e = err("a = 1\\nb = 1 + \\\\\\n  2 + \\\\\\n  @")
assert e.line_number == 2, e.line_number
''', 'a syntax error in an assignment that is continued over several lines', 'the error is reported at the last physical line')

seed('c07-label-scope', 'C07', [('parser.py', "            function_def = None\n            function_label_def_depth = None\n            continue\n", "            function_def = None\n            function_label_def_depth = None\n            label_index = len(label_defs)\n            continue\n")],
'''
model = parse_script("""
if a:
    x = 1
endif
function f():
    return 1
endfunction
if b:
    x = 2
endif
""")
labels = [s['label'] for s in model['statements'] if 'label' in s]
assert len(labels) == len(set(labels)), labels
''', 'structured statements both before and after a function definition', 'two labels of the global scope have the same name')

seed('c07-while-continue', 'C07', [('parser.py', "            if foreach.get('hasContinue'):\n", "            if foreach.get('hasContinue') or 'while' in (label_defs[-1] if label_defs else ()):\n")],
'''
model = parse_script("while a:\\n  for x in b:\\n    y = x\\n  endfor\\nendwhile")
labels = {s['label'] for s in model['statements'] if 'label' in s}
jumps = {s['jump']['label'] for s in model['statements'] if 'jump' in s}
assert labels == jumps
''', 'a for loop without a continue directly inside a while loop', 'an unused label is emitted')

seed('c08-label-cache', 'C08', [('runtime.py', "    # Iterate each script statement\n    label_indexes = None\n", "    # Iterate each script statement\n    label_indexes = {}\n"),
 ('runtime.py', "        # Return?\n        elif statement_key == 'return':", "        # Label?\n        elif statement_key == 'label':\n            label_indexes[statement['label']] = ix_statement\n\n        # Return?\n        elif statement_key == 'return':")
,('runtime.py', "                if label_indexes is not None and statement['jump']['label'] in label_indexes:", "                if statement['jump']['label'] in label_indexes:")],
'''
model = {'statements': [
  {'expr': {'name': 'n', 'expr': {'binary': {'op': '+', 'left': {'variable': 'n'}, 'right': {'number': 1}}}}},
  {'jump': {'label': 'b', 'expr': {'binary': {'op': '==', 'left': {'variable': 'n'}, 'right': {'number': 1}}}}},
  {'return': {'expr': {'variable': 'n'}}},
  {'label': 'a'},
  {'return': {'expr': {'string': 'first'}}},
  {'label': 'b'},
  {'label': 'a'},
  {'expr': {'name': 'n', 'expr': {'binary': {'op': '+', 'left': {'variable': 'n'}, 'right': {'number': 1}}}}},
  {'jump': {'label': 'a', 'expr': {'binary': {'op': '<', 'left': {'variable': 'n'}, 'right': {'number': 5}}}}},
]}
assert execute_script(model, {'globals': {'n': 0}}) == 'first'
''', 'a label defined twice, a jump over the first definition, then a jump to the label', 'the jump goes to the definition passed last instead of the first one')

seed('c08-model-mutate', 'C08', [('runtime.py', "        func_args = [evaluate_expression(arg, options, locals_, builtins) for arg in expr['function'].get('args', ())]\n",
"        func_args = [evaluate_expression(arg, options, locals_, builtins) for arg in expr['function'].setdefault('args', [])]\n")],
'''
import copy
model = {'statements': [{'expr': {'expr': {'function': {'name': 'f'}}}}]}
before = copy.deepcopy(model)
execute_script(model, {'globals': {'f': lambda args, options: None}})
assert model == before
''', 'a hand-built model with a function call that has no "args" member', 'execution modifies the model')

seed('c09-callback-count', 'C09', [('runtime.py', "        if max_statements > 0 and options['statementCount'] > max_statements:", "        if max_statements > 0 and options['statementCount'] > max_statements and statement_key != 'label':")],
'''
model = parse_script("a = 1\\nx:\\nb = 2")
try:
    execute_script(model, {'globals': {}, 'maxStatements': 1})
    assert False
except BareScriptRuntimeError:
    pass
g = {}
model = {'statements': [{'expr': {'name': 'a', 'expr': {'number': 1}}}, {'label': 'x'}]}
try:
    execute_script(model, {'globals': g, 'maxStatements': 1})
    assert False
except BareScriptRuntimeError:
    pass
''', 'a statement budget that runs out exactly at a label', 'one statement too many is started')

seed('c09-include-limit', 'C09', [('runtime.py', "    # Execute the script\n    options['statementCount'] = 0\n", "    # Execute the script\n    options['statementCount'] = options.get('statementCount', 0) if options.get('urlFn') is not None else 0\n")],
'''
opts = {'globals': {}, 'maxStatements': 3, 'urlFn': lambda url: url}
model = parse_script("a = 1\\nb = 2")
execute_script(model, opts)
execute_script(model, opts)
''', 'two runs with the same options object that has a urlFn', 'the second run starts with the count of the first and is aborted early')

seed('c10-crlf-continuation', 'C10', [('parser.py', "_R_SCRIPT_CONTINUATION = re.compile(r'\\\\\\s*$')", "_R_SCRIPT_CONTINUATION = re.compile(r'\\\\[ \\t]*$')")],
'''
a = parse_script("a = 1 + \\\\\\n2")
b = parse_script(["a = 1 + \\\\\\r", "2"])
c = parse_script("a = 1 + \\\\\\f\\n2")
assert a == c
''', 'a continuation backslash followed by a form feed', 'the line is not continued')

seed('c10-chunk-state', 'C10', [('parser.py', "    if isinstance(script_text, str):\n        lines.extend(_R_SCRIPT_LINE_SPLIT.split(script_text))\n    else:\n        for script_text_part in script_text:\n            lines.extend(_R_SCRIPT_LINE_SPLIT.split(script_text_part))",
"    if isinstance(script_text, str):\n        lines.extend(_R_SCRIPT_LINE_SPLIT.split(script_text))\n    else:\n        for script_text_part in script_text:\n            part_lines = _R_SCRIPT_LINE_SPLIT.split(script_text_part)\n            if lines and len(part_lines) > 2:\n                part_lines[0] = part_lines[0].lstrip()\n            lines.extend(part_lines[:-1] if part_lines[-1].endswith('\\\\') and len(part_lines) > 2 else part_lines)")],
'''
text = "a = 1\\nb = 2\\nc = 3\\nd = 4 + \\\\\\n5"
parts = text.split("\\n")
assert parse_script(["\\n".join(parts[:1]), "\\n".join(parts[1:4]), parts[4]]) == parse_script(text)
''', 'a chunk of three or more lines that ends in a continued line', 'the continued line is dropped')

seed('c11-bool-num', 'C11', [('value.py', "    elif isinstance(left, bool) and isinstance(right, bool):\n        return -1 if left < right else (0 if left == right else 1)\n", "    elif isinstance(left, bool) and isinstance(right, (bool, float)):\n        return -1 if left < right else (0 if left == right else 1)\n")],
'''
from bare_script.value import value_compare
assert value_compare(True, 0.0) == -1 and value_compare(0.0, True) == 1
assert value_compare(True, 0) == value_compare(True, 0.0)
''', 'a boolean on the left of a number held as a float', 'the comparison is not antisymmetric')

seed('c11-dict-prefix', 'C11', [('value.py', "        return -1 if len(left_key_values) < len(right_key_values) else (0 if len(left_key_values) == len(right_key_values) else 1)\n", "        return -1 if len(left_key_values) < len(right_key_values) else 0\n")],
'''
from bare_script.value import value_compare
assert value_compare({'a': 1, 'b': 2}, {'a': 1}) == 1
''', 'an object on the left that extends the object on the right', 'compares equal one way round, less the other')

seed('c12-slice-int', 'C12', [('library.py', "    index = index if index is not None else len(string) - 1\n", "    index = index if index is not None and not (index == 0 and isinstance(index, int)) else len(string) - 1\n")],
'''
from bare_script.library import SCRIPT_FUNCTIONS as F
assert F['stringLastIndexOf'](['aba', 'a', 0], None) == F['stringLastIndexOf'](['aba', 'a', 0.0], None) == 0
''', 'stringLastIndexOf with the index zero held as an int', 'the int zero is taken for a missing index')

seed('c12-newsize', 'C12', [('library.py', "    return value_json(value, int(indent) if indent is not None else None)\n", "    return value_json(value, (int(indent) if indent < 10 else indent) if indent is not None else None)\n")],
'''
from bare_script.library import SCRIPT_FUNCTIONS as F
assert F['jsonStringify']([[1], 12.0], None) == F['jsonStringify']([[1], 12], None)
''', 'jsonStringify with an indent of ten or more as a script literal (a float)', 'the call fails')
