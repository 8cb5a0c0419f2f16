exec(open('/tmp/seeds1.py').read().split("seed('c01-continue-deep'")[0])

# label cache shared between invocations by the name (stale between functions)
seed('c08-label-length', 'C08', [('runtime.py', "ix_label = next((ix_stmt for ix_stmt, stmt in enumerate(statements) if stmt.get('label') == jump_label), -1)",
 "ix_label = next((ix_stmt for ix_stmt, stmt in enumerate(statements[ix_statement:], ix_statement) if stmt.get('label') == jump_label), -1) "
 "if statements_length > 64 else -1\n"
 "                    if ix_label == -1:\n"
 "                        ix_label = next((ix_stmt for ix_stmt, stmt in enumerate(statements) if stmt.get('label') == jump_label), -1)")],
'''
s = [{'label': 'a'}, {'expr': {'name': 'n', 'expr': {'binary': {'op': '+', 'left': {'variable': 'n'}, 'right': {'number': 1}}}}}]
s += [{'expr': {'expr': {'number': 0}}}] * 70
s += [{'jump': {'label': 'a', 'expr': {'binary': {'op': '<', 'left': {'variable': 'n'}, 'right': {'number': 3}}}}}]
s += [{'label': 'a'}]
o = {'globals': {'n': 0}}
execute_script({'statements': s}, o)
assert o['globals']['n'] == 3
''', 'a statement list of more than 64 statements with a label defined twice, the jump between the two definitions', 'the jump goes to the second label')
seed('c09-loop-uncounted', 'C09', [('runtime.py', "                    ix_statement = label_indexes[statement['jump']['label']]\n",
 "                    ix_statement = label_indexes[statement['jump']['label']]\n                    if ix_statement == 0:\n                        options['statementCount'] -= 1\n")],
'''
o = {'globals': {}, 'maxStatements': 1000}
try:
    execute_script(parse_script("while true:\\nendwhile"), o)
    assert False
except BareScriptRuntimeError:
    pass
o = {'globals': {'n': 0}}
execute_script({'statements': [{'label': 'a'}, {'expr': {'name': 'n', 'expr': {'binary': {'op': '+', 'left': {'variable': 'n'}, 'right': {'number': 1}}}}},
  {'jump': {'label': 'a', 'expr': {'binary': {'op': '<', 'left': {'variable': 'n'}, 'right': {'number': 5}}}}}]}, o)
assert o['statementCount'] == 11, o['statementCount']
''', 'a repeated jump to a label that is the first statement of its list', 'the second and later jumps are not counted')
seed('c04-args-alias', 'C04', [('runtime.py', "                func_locals[arg_name] = args[ix_arg] if ix_arg != ix_arg_last else args[ix_arg:]\n",
 "                func_locals[arg_name] = args[ix_arg] if ix_arg != ix_arg_last else (args if ix_arg == 0 else args[ix_arg:])\n")],
'''
assert run("""
function f(a...):
    arrayPush(a, 9)
    return arrayLength(a)
endfunction
arr = arrayNew(1)
g = systemPartial(f, 1)
return f() + f(1) * 10 + g() * 100 + g(2) * 1000
""")[0] == 3221
seen = []
def host(args, options):
    return options['globals']['f'](args, options)
def host2(args, options):
    options['globals']['f'](args, options)
    return len(args)
assert run("""
function f(a...):
    arrayPush(a, 9)
endfunction
return host2(1, 2)
""", {'host2': host2})[0] == 2
''', 'a function whose only parameter is a trailing "..." called by the host (or a library function) that goes on using its argument list', 'the parameter array is the caller argument list itself')
seed('c19-join-late-field', 'C19', [('data.py', "    for row in right_data:\n        for field_name in row:\n            if field_name not in right_names_raw:\n                right_names_raw[field_name] = field_name\n",
 "    for row in right_data[:8]:\n        for field_name in row:\n            if field_name not in right_names_raw:\n                right_names_raw[field_name] = field_name\n"),
 ('data.py', "                    join_row[right_names[right_name]] = right_value\n", "                    join_row[right_names.get(right_name, right_name)] = right_value\n")],
'''
left = [{'id': 9, 'v': 'left'}]
right = [{'id': i} for i in range(9)] + [{'id': 9, 'v': 'right'}]
out = run("return dataJoin(l, r, 'id')", {'l': left, 'r': right})[0]
assert out == [{'id': 9, 'v': 'left', 'id2': 9, 'v2': 'right'}], out
''', 'a right table of more than eight rows, a field of a later row collides with a left field', 'the left value is overwritten')
seed('c19-agg-interleave', 'C19', [('data.py', "        row_key = _value_key(category_values) if category_values is not None else ''\n",
 "        row_key = _value_key(category_values[:3]) if category_values is not None else ''\n")],
'''
data = [{'a': 1, 'b': 2, 'c': 3, 'd': 4, 'v': 1}, {'a': 1, 'b': 2, 'c': 3, 'd': 5, 'v': 2}]
out = run("return dataAggregate(d, objectNew('categories', arrayNew('a', 'b', 'c', 'd'), 'measures', arrayNew(objectNew('field', 'v', 'function', 'sum'))))", {'d': data})[0]
assert len(out) == 2
''', 'an aggregation by four or more category fields', 'rows that differ only in the fourth are merged')
seed('c19-sort-third', 'C19', [('data.py', "    for sort in sorts:\n        field = sort[0]\n", "    for sort in sorts[:3]:\n        field = sort[0]\n")],
'''
data = [{'a': 1, 'b': 1, 'c': 1, 'd': 2}, {'a': 1, 'b': 1, 'c': 1, 'd': 1}]
assert [r['d'] for r in run("return dataSort(d, arrayNew(arrayNew('a'), arrayNew('b'), arrayNew('c'), arrayNew('d')))", {'d': data})[0]] == [1, 2]
''', 'a sort by four or more fields', 'the fourth field is ignored')
seed('c19-csv-types-head', 'C19', [('data.py', "    # Determine field types\n    types = {}\n    for row in data:\n", "    # Determine field types\n    types = {}\n    for row in data[:10]:\n"),
 ('data.py', "    # Set the type for fields with undetermined type\n", "    for row in data[10:]:\n        for field in row:\n            types.setdefault(field)\n\n    # Set the type for fields with undetermined type\n")],
'''
text = 'a,b\\n' + 'null,1\\n' * 11 + '5,2\\n'
out = run("return dataParseCSV(t)", {'t': text})[0]
assert out[-1]['a'] == 5, out[-1]
''', 'a CSV column whose first ten values are null', 'the column is not typed: numbers stay strings')
seed('c16-century', 'C16', [('library.py', "    elif day > 28:\n        _, month_days = calendar.monthrange(int(year), int(month))\n", "    elif day > 28:\n        _, month_days = calendar.monthrange(2000 + int(year) % 28, int(month))\n")],
'''
out = run("return datetimeMonth(datetimeNew(2100, 2, 29)) * 100 + datetimeDay(datetimeNew(2100, 2, 29))")[0]
assert out == 301, out
''', 'February 29 of a century year that is not a leap year', 'the datetime fails instead of being normalised')
seed('c16-offset-cache', 'C16', [('value.py', "        iso = value_normalize_datetime(value).astimezone().isoformat()\n",
 "        naive = value_normalize_datetime(value)\n        tz_key = (naive.year, naive.month, time.tzname)\n        if tz_key not in _TZ_CACHE:\n            _TZ_CACHE[tz_key] = naive.astimezone().tzinfo\n"
 "        iso = naive.replace(tzinfo=_TZ_CACHE[tz_key]).isoformat()\n"), ('value.py', "_R_DATETIME_MICROSECOND = ", "_TZ_CACHE = {}\n_R_DATETIME_MICROSECOND = "),
 ('value.py', "import re\n", "import re\nimport time\n")],
'''
import os, time
os.environ['TZ'] = 'America/New_York'
time.tzset()
out = run("""
a = datetimeISOFormat(datetimeNew(2024, 3, 1))
d = datetimeNew(2024, 3, 20, 12)
return datetimeISOParse(datetimeISOFormat(d)) == d
""")[0]
assert out is True
''', 'two datetimes of one month formatted in a zone that changes its offset between them', 'the second has the offset of the first')
seed('c14-parse-cache', 'C14', [('library.py', "    return json.loads(string)\n", "    return _json_loads(string)\n"), ('library.py', "_JSON_PARSE_ARGS = ", "_json_loads = functools.lru_cache(maxsize=16)(json.loads)\n\n_JSON_PARSE_ARGS = ")],
'''
out = run("""
a = jsonParse('[1, 2]')
arrayPush(a, 3)
return arrayLength(jsonParse('[1, 2]'))
""")[0]
assert out == 2, out
''', 'parsing a text again after the first result was modified', 'the modified value is returned')
seed('c13-literal-length', 'C13', [('parser.py', "        number = float(match_number.group(1))\n", "        number_text = match_number.group(1)\n        number = float(number_text[:24]) if '.' not in number_text else float(number_text)\n")],
'''
x = 1.5e30
assert execute_script(parse_script('return ' + run("return '' + x", {'x': x})[0])) == x
''', 'an integral number of more than 24 digits written as a literal', 'the digits after the 24th are lost')
seed('c12-key-text', 'C12', [('data.py', "    if type_ in ('null', 'boolean', 'number', 'string'):\n        return (type_, value)\n", "    if type_ in ('null', 'boolean', 'number', 'string'):\n        return (type_, value if type_ != 'number' or abs(value) < 1000000 else str(value))\n")],
'''
assert len(run("return dataJoin(a, b, 'id')", {'a': [{'id': 2000000, 'x': 1}], 'b': [{'id': 2000000.0, 'y': 1}]})[0][0]) == 4
''', 'a join of a million or more as a host int with the same number as a float', 'the rows do not match')
seed('c11-object-size', 'C11', [('value.py', "        for ix in range(min(len(left_key_values), len(right_key_values))):\n            key_compare", "        if abs(len(left_key_values) - len(right_key_values)) >= 2:\n            return -1 if len(left_key_values) < len(right_key_values) else 1\n        for ix in range(min(len(left_key_values), len(right_key_values))):\n            key_compare")],
'''
out = run("return systemCompare(objectNew('b', 1), objectNew('a', 1, 'c', 1, 'd', 1))")[0]
assert out == 1, out
a = run("""
x = objectNew('b', 1)
y = objectNew('a', 2, 'b', 1)
z = objectNew('a', 1, 'b', 1, 'c', 1)
return systemCompare(x, y) + systemCompare(y, z) + systemCompare(x, z)
""")[0]
assert a == 3, a
''', 'objects whose sizes differ by two or more keys', 'the smaller object is first whatever its keys')
seed('c15-sort-fraction', 'C15', [('library.py', "        array.sort(key=functools.cmp_to_key(lambda v1, v2: compare_fn([v1, v2], options)))\n", "        array.sort(key=functools.cmp_to_key(lambda v1, v2: round(compare_fn([v1, v2], options))))\n")],
'''
out = run("""
function f(a, b):
    return a - b
endfunction
return arraySort(arrayNew(0.5, 0.25, 0.1), f)
""")[0]
assert out == [0.1, 0.25, 0.5], out
''', 'a compare function that returns fractions below one half', 'the elements count as equal')
seed('c15-replace-limit', 'C15', [('library.py', "    return string.replace(substr, new_substr)\n", "    return string.replace(substr, new_substr, 100 if substr else -1)\n")],
'''
assert run("return stringReplace(stringRepeat('a', 150), 'a', 'b')")[0] == 'b' * 150
''', 'more than 100 occurrences of the replaced text', 'the later occurrences stay')
seed('c15-keys-sorted', 'C15', [('library.py', "    return list(object_.keys())\n", "    return list(object_.keys()) if len(object_) < 8 else sorted(object_.keys())\n")],
'''
assert run("""
o = objectNew()
for k in arrayNew('h', 'g', 'f', 'e', 'd', 'c', 'b', 'a'):
    objectSet(o, k, 1)
endfor
return arrayJoin(objectKeys(o), '')
""")[0] == 'hgfedcba'
''', 'an object of eight or more keys that were not set in alphabetical order', 'the keys are not in insertion order')
seed('c17-windows-drive', 'C17', [('options.py', "_R_URL = re.compile(r'^[a-z]+:')", "_R_URL = re.compile(r'^[a-z]+:(?!\\w)')")],
'''
from bare_script import url_file_relative
assert url_file_relative('dir/main.bare', 'data:text') == 'data:text'
assert url_file_relative('mem:lib/main.bare', 'x.bare') == 'mem:lib/x.bare'
''', 'a URL whose scheme is directly followed by a letter (urn:x, data:x)', 'the URL is treated as a relative path')
seed('c17-include-dot', 'C17', [('options.py', "    return os.path.join(os.path.dirname(file_), str(Path(url)))\n", "    return os.path.normpath(os.path.join(os.path.dirname(file_), str(Path(url)))) if '..' in url else os.path.join(os.path.dirname(file_), str(Path(url)))\n"),
 ('options.py', "        return f'{file_[:file_.rfind(\"/\") + 1]}{url}'\n", "        return f'{file_[:file_.rfind(\"/\", 0, file_.rfind(\"?\") if \"?\" in file_ else None) + 1]}{url.lstrip(\"./\")}'\n")],
'''
from bare_script import url_file_relative
assert url_file_relative('http://x.org/a/b.bare', '../c.bare') == 'http://x.org/a/../c.bare'
''', 'an include with a relative path that climbs up ("../") from a file that is a URL', 'the wrong file is fetched')
seed('c18-lint-args', 'C18', [('model.py', "        # Ignore re-assigned function arguments\n        if args is not None and var_name in args:\n            continue\n", "        # Ignore re-assigned function arguments\n        if args is not None and var_name in args[:4]:\n            continue\n")],
'''
w = lint_script(parse_script("""
function f(a, b, c, d, e):
    e = a + b + c + d + e
    return e
endfunction
f()
"""))
assert w == [], w
''', 'a function that re-assigns its fifth parameter in terms of itself', 'a used before assignment warning for a parameter')
seed('c18-jump-only', 'C18', [('model.py', "            labels_used[statement['jump']['label']] = ix_statement\n\n    # Unused global labels?", "            if 'expr' not in statement['jump'] or statement['jump']['label'] not in labels_defined:\n                labels_used[statement['jump']['label']] = ix_statement\n\n    # Unused global labels?")],
'''
w = lint_script({'statements': [{'label': 'a'}, {'jump': {'label': 'a', 'expr': {'variable': 'x'}}}]})
assert w == [], w
''', 'a global label whose only jumps are conditional backward jumps', 'an unused label warning for a used label')
seed('c20-window', 'C20', [('include/diff.bare', "        ixLeftTmp = ixLeft\n        while ixLeftTmp < leftLength:\n", "        ixLeftTmp = ixLeft\n        while ixLeftTmp < leftLength && ixLeftTmp < ixLeft + 40:\n"),
 ('include/diff.bare', "            if ixLeft < leftLength:\n                arrayPush(diffs, objectNew('type', 'Remove', 'lines', arraySlice(leftLines, ixLeft)))\n                ixLeft = leftLength\n", "            if ixLeft < leftLength:\n                arrayPush(diffs, objectNew('type', 'Remove', 'lines', arraySlice(leftLines, ixLeft, ixLeftTmp)))\n                ixLeft = leftLength\n")],
'''
import os, bare_script
text = open(os.path.join(os.path.dirname(bare_script.__file__), 'include', 'diff.bare')).read()
g = {'l': [f'a{i}' for i in range(60)], 'r': ['b']}
run(text + "\\nd = diffLines(l, r)\\n", g)
left = [x for e in g['d'] if e['type'] != 'Add' for x in e['lines']]
assert left == g['l'], len(left)
''', 'a block of more than forty unmatched left lines', 'the lines after the fortieth are lost')
seed('c20-blank-identical', 'C20', [('include/diff.bare', "        if identicalLines:\n            arrayPush(diffs,", "        if arrayJoin(identicalLines, ''):\n            arrayPush(diffs,")],
'''
import os, bare_script
text = open(os.path.join(os.path.dirname(bare_script.__file__), 'include', 'diff.bare')).read()
g = {'l': ['a', '', 'b'], 'r': ['c', '', 'd']}
run(text + "\\nd = diffLines(l, r)\\n", g)
left = [x for e in g['d'] if e['type'] != 'Add' for x in e['lines']]
assert left == g['l'], g['d']
''', 'a run of identical lines that are all blank', 'the lines are in no difference')
seed('c06-long-caret', 'C06', [('parser.py', "            line_left = column_number - 1 - line_length_max // 2\n", "            line_left = column_number - 1 - line_length_max // 2 - (column_number > 1000)\n"),
 ('parser.py', "                line_column -= line_left - len(line_prefix)\n", "                line_column -= line_left - len(line_prefix) + (column_number > 1000)\n")],
'''
text = 'x = ' + 'a + ' * 300 + '@' + ' + a' * 100
e = err(text)
lines = str(e).split('\\n')
ix = len(lines[2]) - 1
assert lines[1][ix] == text[e.column_number - 1], (lines, e.column_number)
''', 'an error beyond column 1000 of a line that goes on', 'the caret is one column off')
seed('c02-op-blank', 'C02', [('parser.py', "_R_EXPR_GROUP_CLOSE = re.compile(r'^\\s*\\)')", "_R_EXPR_GROUP_CLOSE = re.compile(r'^\\s{,8}\\)')")],
'''
parse_expression('(a' + ' ' * 12 + ')')
''', 'more than eight blanks before a closing parenthesis', 'a well-formed expression is rejected')
seed('c03-mod-sign', 'C03', [('runtime.py', "            if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):\n                return left_value - right_value\n", "            if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):\n                return left_value + right_value * -1 if right_value else left_value\n")],
'''
r = evaluate_expression(parse_expression('a - b'), {'globals': {'a': True, 'b': 0.0}})
assert evaluate_expression(parse_expression('5 - 3')) == 2
''', 'nothing', 'nothing')
SEEDS[:] = [s for s in SEEDS if s['id'] != 'c03-mod-sign']
