exec(open('/tmp/seeds1.py').read().split("seed('c01-continue-deep'")[0])

# C01
seed('c01-loop-cache', 'C01', [('parser.py', "            ix_label_def = next((i for i, d in reversed(list(enumerate(label_defs))) if 'if' not in d), -1)\n            if ix_label_def < label_def_depth:\n                raise BareScriptParserError('Break statement outside of loop', line, 1, start_line_number + ix_line)\n",
"            ix_label_def = next((i for i, d in reversed(list(enumerate(label_defs[-4:], max(0, len(label_defs) - 4)))) if 'if' not in d), next((i for i, d in enumerate(label_defs) if 'if' not in d), -1))\n            if ix_label_def < label_def_depth:\n                raise BareScriptParserError('Break statement outside of loop', line, 1, start_line_number + ix_line)\n")],
'''
assert run("""
for a in arrayNew(1, 2):
    for b in arrayNew(1, 2):
        if true:
            if true:
                if true:
                    if true:
                        systemLog(a + ',' + b)
                        break
                    endif
                endif
            endif
        endif
    endfor
endfor
""")[1] == ["1,1", "2,1"]
''', 'a break under four or more nested ifs inside an inner loop', 'the break leaves the outermost loop')
seed('c01-else-last', 'C01', [('parser.py', "            if not ifthen['hasElse']:\n                ifthen['jump']['label'] = ifthen['done']\n",
"            if not ifthen['hasElse'] or (statements and statements[-1] == {'label': ifthen['jump']['label']}):\n                ifthen['jump']['label'] = ifthen['done']\n            elif 'jump' in statements[-1] and 'expr' not in statements[-1]['jump'] and not function_def and len(statements) > 9:\n                statements.pop()\n")],
'''
assert run("""
i = 0
while i < 3:
    i = i + 1
    if i == 1:
        systemLog('a')
    elif i == 2:
        systemLog('b')
    else:
        systemLog('c')
        continue
    endif
    systemLog('end')
endwhile
""")[1] == ["a", "end", "b", "end", "c"]
''', 'an else branch that ends with a break or continue, at global scope', 'the break or continue is dropped')
seed('c01-for-null', 'C01', [('parser.py', "            foreach = {\n                'loop': f'__bareScriptLoop{label_index}',\n", "            foreach = {\n                'loop': f'__bareScriptLoop{label_index}',\n                'outer': next((d['for']['values'] for d in reversed(label_defs) if 'for' in d), None),\n"),
 ('parser.py', "                'values': f'__bareScriptValues{label_index}',\n", "                'values': f'__bareScriptValues{label_index % 32}',\n")],
'''
body = ''.join(f"if true:\\nendif\\n" for _ in range(31))
assert run("for a in arrayNew(1, 2):\\n" + body + "for b in arrayNew(7, 8):\\nsystemLog(a + ',' + b)\\nendfor\\nendfor")[1] == ["1,7", "1,8", "2,7", "2,8"]
''', 'a for loop nested in another with exactly 31 control statements between them', 'the loops share their values variable')
# C02
seed('c02-reorder-left', 'C02', [('parser.py', "    if 'binary' in left_expr and bin_op in BINARY_REORDER and left_expr['binary']['op'] in BINARY_REORDER[bin_op]:\n", "    if 'binary' in left_expr and bin_op in BINARY_REORDER and left_expr['binary']['op'] in BINARY_REORDER[bin_op] and \\\n       not (bin_op == '**' and 'unary' in right_expr and 'unary' in left_expr['binary']['right']):\n")],
'''
e = parse_expression('a * -b ** -c')
assert e['binary']['op'] == '*', e
''', 'the ** operator between two unary operands after a lower operator', 'the wrong grouping')
seed('c02-escape-end', 'C02', [('parser.py', "_R_EXPR_STRING_DOUBLE_ESCAPE = re.compile(r'\\\\([\\\\\"])')", "_R_EXPR_STRING_DOUBLE_ESCAPE = re.compile(r'(?<!\\\\)\\\\([\\\\\"])')")],
'''
assert parse_expression('"a' + chr(92) * 4 + 'b"') == {'string': 'a' + chr(92) * 2 + 'b'}
''', 'a double-quoted string with two or more escaped backslashes in a row', 'the second escape is left in the text')
seed('c02-arg-group', 'C02', [('parser.py', "            if args:\n                match_function_separator", "            if args and not (len(args) >= 2 and _R_EXPR_GROUP_OPEN.match(arg_text)):\n                match_function_separator")],
'''
try:
    parse_expression('f(a, b (c))')
    assert 0
except BareScriptParserError:
    pass
''', 'a call whose second or later argument is followed by a group without a comma (f(a, b (c)): b is not a call when ... )', 'a syntax error is accepted')
# C04
seed('c04-pool', 'C04', [('runtime.py', "    func_locals = {}\n    func_args = function.get('args')\n", "    func_locals = _LOCALS_POOL.pop() if _LOCALS_POOL else {}\n    func_args = function.get('args')\n"),
 ('runtime.py', "    return _execute_script_helper(function['statements'], options, func_locals, url_fn)\n", "    try:\n        return _execute_script_helper(function['statements'], options, func_locals, url_fn)\n    except BareScriptRuntimeError:\n        _LOCALS_POOL.append(func_locals)\n        raise\n    finally:\n        func_locals = None\n\n\n_LOCALS_POOL = []\n")],
'''
try:
    run("function f(x):\\nsecret = 5\\nnoSuchFunction()\\nendfunction\\nf(1)")
    assert 0
except BareScriptRuntimeError:
    pass
assert run("function g():\\nreturn secret\\nendfunction\\nreturn g()")[0] is None
''', 'a call made after an earlier run was aborted by a runtime error inside a function', 'the new invocation starts with the locals of the aborted one')
seed('c04-global-shadow', 'C04', [('runtime.py', "                if locals_ is not None:\n                    locals_[expr_name] = expr_value\n", "                if locals_ is not None and (expr_name in locals_ or expr_name not in globals_ or not callable(globals_[expr_name]) or globals_[expr_name] is SCRIPT_FUNCTIONS.get(expr_name)):\n                    locals_[expr_name] = expr_value\n")],
'''
assert run("function h():\\nreturn 1\\nendfunction\\nfunction f():\\nh = 5\\nendfunction\\nf()\\nreturn h()")[0] == 1
''', 'a function assigns a local variable with the name of a script-defined function', 'the assignment overwrites the global function')
seed('c04-missing-last', 'C04', [('runtime.py', "                func_locals[arg_name] = [] if ix_arg == ix_arg_last else None\n", "                func_locals[arg_name] = _NO_ARGS if ix_arg == ix_arg_last else None\n"),
 ('runtime.py', "# Runtime script function implementation\n", "_NO_ARGS = []\n\n\n# Runtime script function implementation\n")],
'''
assert run("function f(a...):\\narrayPush(a, 1)\\nreturn arrayLength(a)\\nendfunction\\nf()\\nreturn f()")[0] == 1
''', 'a "..." function called twice without extra arguments that modifies its argument array', 'the array is shared between the calls')
# C05
seed('c05-regex-group', 'C05', [('library.py', "    groups.update(match.groupdict())\n", "    groups.update((name, text.strip()) if name.startswith('trim') else (name, text) for name, text in match.groupdict().items())\n")],
'''
assert run("systemLog(regexMatch(regexNew('a(?<trimx>b)?'), 'a'))\\nreturn 1")[0] == 1
''', 'regexMatch with an optional named group called trim...', 'gives null instead of the match', )
seed('c05-unary-big', 'C05', [('runtime.py', "            return _evaluate_binary('*', -1, value)\n", "            return _evaluate_binary('*', -1, value) if not isinstance(value, int) or value.bit_length() <= 64 else -1 * float(value)\n")],
'''
g = {'x': 10 ** 400}
assert run("y = -x\\nreturn 1", g)[0] == 1
''', 'the unary minus of an integer beyond the range of doubles', 'an OverflowError escapes')
seed('c05-date-sub', 'C05', [('runtime.py', "                left_dt = value_normalize_datetime(left_value)\n                return left_dt + datetime.timedelta(milliseconds=right_value)\n", "                return datetime.timedelta(milliseconds=right_value) + (left_value if isinstance(left_value, datetime.datetime) and left_value.tzinfo is None else datetime.datetime.combine(left_value, datetime.time(0)))\n")],
'''
import datetime
g = {'d': datetime.datetime(2024, 1, 2, 3, tzinfo=datetime.timezone.utc)}
v = run("return (d + 0) - d", g)[0]
assert v == 0, v
''', 'adding milliseconds to a host datetime with a time zone', 'the time of day is lost')
# C06
seed('c06-chunk-line', 'C06', [('parser.py', "            lines.extend(_R_SCRIPT_LINE_SPLIT.split(script_text_part))\n", "            lines.extend(_R_SCRIPT_LINE_SPLIT.split(script_text_part.rstrip('\\n')))\n")],
'''
e = err(['a = 1\\n', 'b = 2\\n', 'c = *'])
assert e.line_number == 5, e.line_number
''', 'a script given as several texts of which an earlier one ends with a newline', 'the line number of the error is too small')
seed('c06-comment-continued', 'C06', [('parser.py', "        is_continued = (len(line_continuation) != 0)\n        if not is_continued:\n            ix_line = ix_line_part\n", "        is_continued = (len(line_continuation) != 0)\n        if not is_continued or ix_line_part - ix_line > 3:\n            ix_line = ix_line_part\n")],
'''
e = err('a = 1 + \\\\\\n1 + \\\\\\n# c\\n# c\\n1 + \\\\\\n*')
assert e.line_number == 1, e.line_number
''', 'an error in a statement continued over more than four lines', 'the line number is that of a later line')
seed('c06-group-col', 'C06', [('parser.py', "            raise BareScriptParserError('Unmatched parenthesis', expr_text)\n", "            raise BareScriptParserError('Unmatched parenthesis', expr_text if expr_text.startswith(' ') or '(' not in group_text else group_text + ' )')\n")],
'''
e = err('x = ((a)')
assert 1 <= e.column_number <= len(e.line) + 1 and e.column_number == 5, e.column_number
''', 'an unmatched parenthesis that has another parenthesis inside', 'the column number is off')
# C07
seed('c07-done-index', 'C07', [('parser.py', "                'done': f\"__bareScriptDone{label_index}\",\n", "                'done': f\"__bareScriptDone{label_index if label_index < 100 else label_index - 100}\",\n")],
'''
from bare_script import lint_script
t = 'if a:\\nendif\\n' * 101
labels = [s['label'] for s in parse_script(t)['statements'] if 'label' in s]
assert len(labels) == len(set(labels))
''', 'a script with more than 100 control statements', 'two labels with the same name')
seed('c07-continue-flag', 'C07', [('parser.py', "            if whiledo.get('hasContinue') and whiledo['continue'] != whiledo['loop']:\n", "            if whiledo.get('hasContinue') and whiledo['continue'] != whiledo['loop'] and statements[-1] != {'jump': {'label': whiledo['continue']}}:\n")],
'''
assert run("i = 0\\nwhile i < 2:\\ni = i + 1\\ncontinue\\nendwhile")[0] is None
''', 'a while loop whose last statement is a continue', 'the continue label is missing')
# C08
seed('c08-shared-expr', 'C08', [('runtime.py', "    # Number\n    if expr_key == 'number':\n        return expr['number']\n", "    # Number\n    if expr_key == 'number':\n        number = expr['number']\n        if isinstance(number, float) and number.is_integer() and number > 2 ** 20:\n            expr['number'] = int(number)\n        return number\n")],
'''
import copy
m = parse_script('x = 5000000\\nreturn x')
b = copy.deepcopy(m)
run_m = execute_script(m, {'globals': {}})
assert repr(m) == repr(b)
''', 'a script with an integral number literal above 2**20', 'running the script rewrites the model')
seed('c08-include-cache', 'C08', [('runtime.py', "                    script = parse_script(script_text)\n", "                    script = _INCLUDE_SCRIPTS.get(url)\n                    if script is None:\n                        script = parse_script(script_text)\n                        _INCLUDE_SCRIPTS[url] = script\n"),
 ('runtime.py', "# Runtime script function implementation\n", "_INCLUDE_SCRIPTS = {}\n\n\n# Runtime script function implementation\n")],
'''
assert run("include 'a'\\nreturn x", fetchFn=lambda r: 'x = 1')[0] == 1
assert run("include 'a'\\nreturn x", fetchFn=lambda r: 'x = 2')[0] == 2
''', 'two runs in one process in which the same location holds different text', 'the second run executes the text of the first')
# C10
seed('c10-cr-only', 'C10', [('parser.py', "_R_SCRIPT_CONTINUATION = re.compile(r'\\\\\\s*$')", "_R_SCRIPT_CONTINUATION = re.compile(r'\\\\[ \\t]*$')")],
'''
assert parse_script('a = 1 + \\\\\\x0c\\n2') == parse_script('a = 1 + 2')
''', 'a continuation backslash followed by a form feed', 'the line is not continued')
seed('c10-long-continuation', 'C10', [('parser.py', "            line = ' '.join(line_continuation)\n            line_continuation.clear()\n", "            line = ' '.join(part for ix, part in enumerate(line_continuation) if ix < 2 or part)\n            line_continuation.clear()\n")],
'''
from bare_script import parse_script
assert parse_script("a = 'x \\\\\\n \\\\\\n \\\\\\n y'") == parse_script("a = 'x   y'") or parse_script("a = 'x \\\\\\n \\\\\\n \\\\\\n y'")['statements'][0]['expr']['expr']['string'] == 'x   y'
''', 'blank continued lines inside a string literal', 'the blanks are dropped')
# C11
seed('c11-date-mixed', 'C11', [('value.py', "        left_dt = value_normalize_datetime(left)\n        right_dt = value_normalize_datetime(right)\n        return", "        left_dt = value_normalize_datetime(left)\n        right_dt = value_normalize_datetime(right)\n        if type(left) is datetime.date and type(right) is datetime.datetime: # pylint: disable=unidiomatic-typecheck\n            right_dt = datetime.datetime(right_dt.year, right_dt.month, right_dt.day)\n        return")],
'''
import datetime
from bare_script.value import value_compare
a, b = datetime.date(2024, 1, 2), datetime.datetime(2024, 1, 2, 3)
assert value_compare(a, b) == -value_compare(b, a)
''', 'comparing a host date with a datetime of the same day', 'a date equals any time of its day, in one direction')
seed('c11-sort-big', 'C11', [('library.py', "        array.sort(key=functools.cmp_to_key(value_compare))\n", "        array.sort(key=functools.cmp_to_key(value_compare) if len(array) < 64 or not all(isinstance(value, (int, float)) for value in array) else None)\n"),],
'''
assert run("return arrayGet(arraySort(a), 63)", {'a': [True] + [2.0] * 63})[0] == 2.0
assert run("return arrayGet(arraySort(a), 0)", {'a': [2.0] * 63 + [True]})[0] is True
assert run("return arrayGet(arraySort(a), 0)", {'a': [-2.0] * 63 + [True]})[0] is True
''', 'sorting an array of 64 or more numbers and booleans', 'booleans are ordered as numbers')
# C12
seed('c12-charcode', 'C12', [('library.py', "        if value_type(code) != 'number' or int(code) != code or code < 0:\n            raise ValueArgsError('char_codes', code)\n    return ''.join(chr(int(code)) for code in char_codes)\n", "        if value_type(code) != 'number' or int(code) != code or code < 0:\n            raise ValueArgsError('char_codes', code)\n    if len(char_codes) > 8:\n        return ''.join(map(chr, char_codes))\n    return ''.join(chr(int(code)) for code in char_codes)\n")],
'''
assert run("return stringFromCharCode(65, 65, 65, 65, 65, 65, 65, 65, 65)")[0] == 'A' * 9
''', 'stringFromCharCode with more than eight codes from script literals', 'gives null')
seed('c12-top', 'C12', [('data.py', "        for ix_row in range(min(int(count), len(category_key_rows))):\n            data_top.append(category_key_rows[ix_row])\n", "        data_top.extend(category_key_rows[:count] if len(category_key_rows) > count else category_key_rows)\n")],
'''
assert run("return arrayLength(dataTop(arrayNew(objectNew('a', 1), objectNew('a', 2)), 1))")[0] == 1
''', 'dataTop with fewer rows asked for than present, and a count from a script literal', 'gives null')
seed('c12-month-day', 'C12', [('library.py', "        while day > month_days and year <= 9999:\n            day -= month_days\n            year = year if month != 12 else year + 1\n            month = month + 1 if month != 12 else 1\n            _, month_days = calendar.monthrange(int(year), int(month))\n", "        while day > month_days and year <= 9999:\n            day -= month_days\n            year = year if month != 12 else year + 1\n            month = month + 1 if month != 12 else 1\n            month_days = calendar.mdays[month] + (month == 2 and calendar.isleap(int(year)))\n")],
'''
assert run("return datetimeMonth(datetimeNew(2024, 1, 32))")[0] == 2
''', 'datetimeNew with a day that overflows its month, from script literals', 'gives null')
# C13
seed('c13-round-neg', 'C13', [('value.py', "    return int(value * multiplier + (0.5 if value >= 0 else -0.5)) / multiplier\n", "    result = int(value * multiplier + (0.5 if value >= 0 else -0.5)) / multiplier\n    return int(result) if digits == 0 and abs(result) >= 1e16 else result\n")],
'''
from bare_script.value import value_string
v = run("return mathRound(1e+22)")[0]
assert value_string(v) == value_string(1e22), value_string(v)
''', 'mathRound of a number above 1e16', 'the text has all digits')
seed('c13-parse-space', 'C13', [('value.py', "        value = float(text) if '_' not in text else math.nan\n", "        value = float(text.replace(',', '')) if '_' not in text and not text.startswith(',') else math.nan\n")],
'''
assert run("return numberParseFloat('1,5')")[0] is None
''', 'text with a comma inside a number', 'is accepted as a number')
# C14
seed('c14-escaped-quote', 'C14', [('value.py', "re.compile(r'\"(?:[^\"\\\\]|\\\\.)*\"|-?\\d+\\.\\d+(?:e[+-]?\\d+)?')", "re.compile(r'\"(?:[^\"\\\\]|\\\\[^u]|\\\\u[0-9a-f]{3}[0-9a-e])*\"|-?\\d+\\.\\d+(?:e[+-]?\\d+)?')")],
'''
from bare_script.value import value_json
import json
for c in (chr(0x1f), chr(0xff)):
    assert json.loads(value_json(c + '1.0')) == c + '1.0'
''', 'a string with a character whose code ends in hexadecimal f, and a number with a fraction of zero', 'the number inside the string is changed')
seed('c14-deep-indent', 'C14', [('value.py', "        result = _JSONEncoder(allow_nan=False, indent=indent, separators=(',', ': '), sort_keys=True).encode(value)\n", "        result = _JSONEncoder(allow_nan=False, indent=min(indent, 8), separators=(',', ': '), sort_keys=True).encode(value)\n        if indent > 8:\n            result = re.sub(r'(?m)^ +', lambda m: ' ' * (len(m[0]) // 8 * indent), result)\n        result = re.sub(r'\\[\\s+\\]', '[]', result)\n")],
'''
from bare_script.value import value_json
import json
v = ['[ ]', 1]
assert json.loads(value_json(v, 2)) == v
''', 'an indented array that holds a string with an empty pair of brackets with blanks between', 'the string is changed')
# C15
seed('c15-lastindex-fn', 'C15', [('library.py', "        for ix in range(int(index), -1, -1):\n            if value_boolean(value([array[ix]], options)):\n                return ix\n", "        for ix in range(int(index), 0, -1):\n            if value_boolean(value([array[ix]], options)):\n                return ix\n        if array and value_boolean(value([array[0]], options)):\n            return 0 if len(array) < 4 or index else -1\n")],
'''
assert run("function f(v):\\nreturn v == 1\\nendfunction\\nreturn arrayLastIndexOf(arrayNew(1, 2, 3, 4), f, 0)")[0] == 0
''', 'arrayLastIndexOf with a match function, start index 0 and four or more elements', 'gives -1')
seed('c15-assign-self', 'C15', [('library.py', "    object_.update(object2)\n    return object_\n", "    for key in sorted(object2):\n        object_[key] = object2[key]\n    return object_\n")],
'''
assert run("return objectKeys(objectAssign(objectNew('z', 1), objectNew('c', 1, 'b', 2)))")[0] == ['z', 'c', 'b']
''', 'objectAssign of an object whose keys are not in alphabetical order', 'the order of the keys')
seed('c15-split-multi', 'C15', [('library.py', "    return string.split(separator)\n", "    return string.split(separator) if len(separator) < 3 or separator[0] != separator[-1] else [part for part in re.split(re.escape(separator), string)]\n"),
 ('library.py', "    return string.replace(substr, new_substr)\n", "    return string.replace(substr, new_substr) if substr else new_substr + string\n")],
'''
assert run("return stringReplace('ab', '', '-')")[0] == '-a-b-'
''', 'stringReplace of the empty string', 'only one replacement at the start')
# C16
seed('c16-hour-neg', 'C16', [('library.py', "        extra_days = hour // 24\n        hour -= extra_days * 24\n        day += extra_days\n", "        extra_days = int(hour / 24) - (1 if hour < 0 else 0)\n        hour -= extra_days * 24\n        day += extra_days\n        if hour == 24:\n            hour = 0\n")],
'''
assert run("return datetimeDay(datetimeNew(2024, 1, 10, 0 - 24))")[0] == 9
''', 'a negative hour that is a multiple of 24', 'the day is off by one')
seed('c16-dst-fold', 'C16', [('value.py', "        if value.tzinfo is not None:\n            return value.astimezone().replace(tzinfo=None)\n", "        if value.tzinfo is not None:\n            local = datetime.datetime.now().astimezone().tzinfo\n            return value.astimezone(local).replace(tzinfo=None)\n")],
'''
import os, time, datetime
os.environ['TZ'] = 'America/New_York'
time.tzset()
u = datetime.timezone.utc
g = {'a': datetime.datetime(2024, 1, 15, 12, tzinfo=u), 'b': datetime.datetime(2024, 7, 15, 12, tzinfo=u)}
assert (run("return datetimeHour(a)", g)[0], run("return datetimeHour(b)", g)[0]) == (7, 8)
''', 'a zone with daylight saving and a host datetime with a time zone in the other season', 'the hour is off by one')
# C18
seed('c18-arg-jump', 'C18', [('model.py', "        elif statement_key == 'jump' and 'expr' in statement['jump']:\n            _get_expression_variable_uses(statement['jump']['expr'], uses, ix_statement)\n", "        elif statement_key == 'jump' and 'expr' in statement['jump'] and not statement['jump']['label'].startswith('__bareScriptLoop'):\n            _get_expression_variable_uses(statement['jump']['expr'], uses, ix_statement)\n")],
'''
w = lint_script(parse_script("function f():\\n a = 1\\n loop:\\n jumpif (a) loop\\nendfunction"))
assert not any('Unused variable' in x for x in w), w
w = lint_script({'statements': [{'function': {'name': 'f', 'statements': [{'expr': {'name': 'a', 'expr': {'number': 1}}}, {'label': '__bareScriptLoop0'}, {'jump': {'label': '__bareScriptLoop0', 'expr': {'variable': 'a'}}}]}}]})
assert not any('Unused variable' in x for x in w), w
''', 'a variable used only by a jump to a __bareScriptLoop label (a model without the first test)', 'a false "Unused variable" warning')
seed('c18-pointless-if', 'C18', [('model.py', "    if expr_key == 'function':\n        return False\n    elif expr_key == 'binary':\n", "    if expr_key == 'function':\n        return expr['function']['name'] == 'if' and all(_is_pointless_expression(arg) for arg in expr['function'].get('args', ())[1:])\n    elif expr_key == 'binary':\n")],
'''
w = lint_script(parse_script("function f():\\nendfunction\\nif(f(), 1, 2)"))
assert w == [], w
''', 'an if() expression statement whose test has a side effect', 'a false "Pointless" warning')
# C19
seed('c19-agg-bool', 'C19', [('data.py', "        category_values = [row.get(category) for category in categories] if categories is not None else None\n", "        category_values = [row.get(category) or None for category in categories] if categories is not None and len(categories) > 1 else \\\n            [row.get(category) for category in categories] if categories is not None else None\n")],
'''
from bare_script.data import aggregate_data
r = aggregate_data([{'a': 0, 'b': 1, 'm': 1}, {'a': None, 'b': 1, 'm': 1}], {'categories': ['a', 'b'], 'measures': [{'field': 'm', 'function': 'sum'}]})
assert len(r) == 2, r
''', 'two or more categories and a category value of 0, false or the empty string', 'rows are counted with the null category')
seed('c19-csv-number-first', 'C19', [('data.py', "                    elif value_parse_number(value) is not None:\n                        types[field] = 'number'\n", "                    elif value_parse_number(value) is not None and not (value.startswith('0') and len(value) > 1 and value[1].isdigit()):\n                        types[field] = 'number'\n")],
'''
assert run("return dataParseCSV('a', '007')")[0] == [{'a': 7.0}]
''', 'a CSV column whose first value has leading zeros', 'the column is text')
seed('c19-sort-stable', 'C19', [('data.py', "    data.sort(key=functools.cmp_to_key(functools.partial(_sort_data_fn, sorts)))\n", "    if len(sorts) == 1 and len(sorts[0]) > 1 and sorts[0][1]:\n        data.sort(key=functools.cmp_to_key(functools.partial(_sort_data_fn, [[sorts[0][0]]])), reverse=True)\n        data[:] = data[::-1][::-1]\n    else:\n        data.sort(key=functools.cmp_to_key(functools.partial(_sort_data_fn, sorts if len(sorts) < 4 else sorts[:3])))\n")],
'''
from bare_script.data import sort_data
d = [{'a': 1, 'b': 1, 'c': 1, 'd': 2}, {'a': 1, 'b': 1, 'c': 1, 'd': 1}]
assert [r['d'] for r in sort_data(d, [['a'], ['b'], ['c'], ['d']])] == [1, 2]
''', 'sorting by four or more fields', 'the fourth field is ignored')
seed('c19-top-count', 'C19', [('data.py', "        category_key = '' if category_fields is None else _value_key([row.get(field) for field in category_fields])\n        if category_key not in category_rows:\n", "        category_key = '' if category_fields is None else _value_key([row.get(field) for field in category_fields if field in row])\n        if category_key not in category_rows:\n")],
'''
from bare_script.data import top_data
d = [{'a': 1}, {'b': 1}]
assert top_data(d, 1, ['a', 'b']) == d
''', 'two category fields, and rows that each lack a different one', 'the rows fall into one bucket')
# C20
seed('c20-identical-count', 'C20', [('include/diff.bare', "        if identicalLines:\n", "        if identicalLines && (ixLeft < leftLength || ixRight < rightLength || arrayGet(identicalLines, 0) != '' || arrayLength(identicalLines) != 1):\n")],
'''
import os
path = os.path.join(os.path.dirname(__import__('bare_script').__file__), 'include', 'diff.bare')
def fetch(r):
    return open(path, encoding='utf-8').read()
nl = chr(92) + 'n'
v = run("include 'diff.bare'\\nreturn jsonStringify(diffLines('', ''))", fetchFn=fetch)[0]
assert 'Identical' in v, v
''', 'texts that end with the same empty line after a difference, or two empty texts', 'the final empty line is lost')
seed('c20-array-crlf', 'C20', [('include/diff.bare', "            arrayExtend(rightLines, regexSplit(diffRegexLineSplit, rightPart))\n", "            arrayExtend(rightLines, if(arrayLength(rightLines), stringSplit(rightPart, stringFromCharCode(10)), regexSplit(diffRegexLineSplit, rightPart)))\n")],
'''
import os
path = os.path.join(os.path.dirname(__import__('bare_script').__file__), 'include', 'diff.bare')
def fetch(r):
    return open(path, encoding='utf-8').read()
v = run("include 'diff.bare'\\nreturn diffLines(a, b)", {'a': ['x', 'y\\r\\nz'], 'b': ['x', 'y\\r\\nz']}, fetchFn=fetch)[0]
assert [d['type'] for d in v] == ['Identical'], v
''', 'the right side given as an array whose second or later text has CRLF line ends', 'the carriage return stays in the line')
