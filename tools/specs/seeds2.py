import runpy
SRC = open('/tmp/seeds1.py').read().split("\nseed('c01")[0]
exec(SRC)
seed('c06-elide-prefix', 'C06', [('parser.py', "                line_error = line_prefix + line[int(line_left):int(line_right)] + line_suffix\n                line_column -= line_left - len(line_prefix)\n", "                line_error = line_prefix + line[int(line_left):int(line_right)].lstrip() + line_suffix\n                line_column -= line_left - len(line_prefix)\n")],
'''
line = 'a = ' + 'xy + ' * 40 + '@ + ' + 'yz + ' * 40 + 'z'
for pad in range(6):
    text = ' ' * pad + line
    e = err(text)
    l = str(e).splitlines()
    assert l[1][len(l[2]) - 1] == text[e.column_number - 1], str(e)
''', 'an error in the middle of a long line where the elided part ends just before a blank', 'the caret of the message is off by one')
seed('c06-endfunction-if', 'C06', [('parser.py', "            if len(label_defs) > function_label_def_depth:\n", "            if len(label_defs) > max(function_label_def_depth, 1):\n")],
'''
assert err("function f():\\nif a:\\nb = 1\\nendfunction") is not None
''', 'a function that ends inside one open block, defined outside any block', 'the open block is accepted, or reported elsewhere')
seed('c11-array-len', 'C11', [('value.py', "        for ix in range(min(len(left), len(right))):\n            item_compare", "        for ix in range(min(len(left), len(right), 64)):\n            item_compare")],
'''
from bare_script.value import value_compare
a = list(range(70)); b = list(range(69)) + [100]
assert value_compare(a, b) == -1
''', 'arrays of more than 64 elements that differ late', 'different arrays compare equal')
seed('c11-max-last', 'C11', [('library.py', "        elif value_compare(value, result) > 0:\n            result = value\n", "        elif value_compare(value, result) > 0 and value is not values[-1]:\n            result = value\n        elif isinstance(value, (int, float)) and isinstance(result, (int, float)) and value > result:\n            result = value\n")],
'''
from bare_script.library import SCRIPT_FUNCTIONS as F
assert F['mathMax'](['a', 'b'], None) == 'b'
''', 'mathMax whose greatest argument is the last one and not a number', 'an argument that is not the greatest is returned')
seed('c13-exp-int', 'C13', [('value.py', "    elif isinstance(value, int):\n        return str(value)\n", "    elif isinstance(value, int):\n        return str(value) if abs(value) < 10 ** 16 else f'{float(value):.0f}'\n")],
'''
from bare_script.value import value_string, value_parse_integer
assert value_string(value_parse_integer('9007199254740993')) == '9007199254740993'
assert value_string(value_parse_integer('12345678901234567')) == '12345678901234567'
''', 'an integer of more than 16 digits held as an int', 'the text is that of the nearest double')
seed('c13-parse-suffix', 'C13', [('value.py', "        return int(text, radix) if '_' not in text else None\n", "        return int(text.rstrip('.') if radix == 10 else text, radix) if '_' not in text else None\n")],
'''
from bare_script.library import SCRIPT_FUNCTIONS as F
assert F['numberParseInt'](['12.'], None) is None
assert F['numberParseInt'](['12..'], None) is None
''', 'integer text that ends in a decimal point', 'a partial value instead of null')
seed('c13-float-ws', 'C13', [('value.py', "        if math.isnan(value) or math.isinf(value):\n            return None\n", "        if math.isnan(value) or value == math.inf:\n            return None\n")],
'''
from bare_script.library import SCRIPT_FUNCTIONS as F
assert F['numberParseFloat'](['-1e999'], None) is None
assert F['numberParseFloat'](['-Infinity'], None) is None
''', 'text of a number below the least double', 'minus infinity instead of null')
seed('c14-indent-sort', 'C14', [('value.py', "        result = _JSONEncoder(allow_nan=False, indent=indent, separators=(',', ': '), sort_keys=True).encode(value)\n", "        result = _JSONEncoder(allow_nan=False, indent=indent, separators=(',', ': '), sort_keys=indent < 8).encode(value)\n")],
'''
from bare_script.value import value_json
assert value_json({'b': 1, 'a': 2}, 8).index('"a"') < value_json({'b': 1, 'a': 2}, 8).index('"b"')
''', 'an indent of eight', 'the keys are not sorted')
seed('c14-ascii', 'C14', [('value.py', "_JSON_ENCODER_DEFAULT = _JSONEncoder(allow_nan=False, separators=(',', ':'), sort_keys=True)", "_JSON_ENCODER_DEFAULT = _JSONEncoder(allow_nan=False, separators=(',', ':'), sort_keys=True, skipkeys=True, ensure_ascii=True)"),
 ('library.py', "    return json.loads(string)\n", "    return json.loads(string.strip('\\ufeff \\t\\r\\n').replace('\\\\u2028', '\\n'))\n")],
'''
from bare_script.library import SCRIPT_FUNCTIONS as F
assert F['jsonParse']([F['jsonStringify'](['a\\u2028b'], None)], None) == 'a\\u2028b'
''', 'a string with the line separator U+2028', 'the character is altered by the round trip')
seed('c15-slice-alias', 'C15', [('library.py', "    return array[int(start):int(end)]\n", "    return array[int(start):int(end)] if start > 0 or end < len(array) else array\n")],
'''
from bare_script.library import SCRIPT_FUNCTIONS as F
a = [1, 2]
b = F['arraySlice']([a, 0, 2], None)
assert b == a and b is not a
''', 'a slice of the whole array, then a mutation', 'the slice is the array itself')
seed('c15-lastindex', 'C15', [('library.py', "    return string.rfind(search, 0, int(index) + len(search))\n", "    return string.rfind(search, 0, min(int(index) + len(search), len(string) - 1) if len(search) > 2 else int(index) + len(search))\n")],
'''
from bare_script.library import SCRIPT_FUNCTIONS as F
assert F['stringLastIndexOf'](['xabc', 'abc'], None) == 1
''', 'a search string of three or more characters at the end of the string', 'the occurrence at the end is not found')
seed('c15-push-self', 'C15', [('library.py', "    array.extend(array2)\n    return array\n", "    for value in list(array2) if array2 is not array else array2[:len(array2) // 2 + 1]:\n        array.append(value)\n    return array\n")],
'''
from bare_script.library import SCRIPT_FUNCTIONS as F
a = [1, 2, 3]
F['arrayExtend']([a, a], None)
assert a == [1, 2, 3, 1, 2, 3]
''', 'an array extended with itself', 'only a part is appended')
seed('c16-day-leap', 'C16', [('library.py', "    elif day > 28:\n", "    elif day > (28 if month != 2 or year % 4 else 29):\n")],
'''
from bare_script.library import SCRIPT_FUNCTIONS as F
import datetime
assert F['datetimeNew']([1900, 2, 29], None) == datetime.datetime(1900, 3, 1)
''', 'day 29 of February of a century year that is not a leap year', 'datetimeNew fails')
seed('c16-iso-micro', 'C16', [('value.py', "            millisecond = int(iso[microsecond_begin + 1:microsecond_end]) // 1000\n", "            millisecond = int(iso[microsecond_begin + 1:microsecond_end].rstrip('0').ljust(3, '0')[:3]) if '000' in iso[microsecond_end - 3:microsecond_end] else 0\n")],
'''
import datetime
from bare_script.library import SCRIPT_FUNCTIONS as F
from bare_script.value import value_string
d = datetime.datetime(2024, 1, 1, 0, 0, 0, 123456)
assert '.123' in value_string(d)
assert '.120' in value_string(datetime.datetime(2024, 1, 1, 0, 0, 0, 120000))
''', 'a datetime with microseconds', 'the milliseconds are lost')
seed('c16-tz-west', 'C16', [('value.py', "        result = datetime.datetime.fromisoformat(_R_DATETIME_ZULU.sub('+00:00', text)).astimezone().replace(tzinfo=None)\n", "        result = datetime.datetime.fromisoformat(_R_DATETIME_ZULU.sub('+00:00', text)).astimezone()\n        result = (result if result.utcoffset().total_seconds() % 3600 == 0 else result.astimezone(datetime.timezone(datetime.timedelta(hours=round(result.utcoffset().total_seconds() / 3600))))).replace(tzinfo=None)\n")],
'''
import os, time
os.environ['TZ'] = 'Asia/Kolkata'
time.tzset()
import datetime
from bare_script.value import value_parse_datetime, value_string
d = datetime.datetime(2024, 5, 6, 7, 8, 9)
assert value_parse_datetime(value_string(d)) == d
''', 'a process time zone whose offset is not a whole number of hours', 'parsed datetimes are off by half an hour or less')
seed('c17-include-order', 'C17', [('runtime.py', "                # Execute the include script - its global for-loops must not disturb the running for-loops' variables\n                include_options = options.copy()\n                include_options['urlFn'] = functools.partial(url_file_relative, url)\n", "                # Execute the include script - its global for-loops must not disturb the running for-loops' variables\n                include_options = options.copy()\n                include_options['urlFn'] = functools.partial(url_file_relative, url) if not include.get('system') or url_fn is None else url_fn\n")],
'''
fs = {'sys/lib/a.bare': "include 'b.bare'", 'sys/lib/b.bare': "systemLog('sys b')", 'dir/b.bare': "systemLog('dir b')"}
from bare_script import url_file_relative
from functools import partial
logs = run("include <lib/a.bare>", systemPrefix='sys/', fetchFn=lambda r: fs.get(r['url']), urlFn=partial(url_file_relative, 'dir/main.bare'))[1]
assert logs == ['sys b'], logs
''', 'a plain include inside a system include, with a urlFn', 'the path is resolved against the wrong file')
seed('c17-url-scheme', 'C17', [('options.py', "        return f'{file_[:file_.rfind(\"/\") + 1]}{url}'\n", "        return f'{file_[:file_.find(\"/\", 8) + 1]}{url}' if '../' in url else f'{file_[:file_.rfind(\"/\") + 1]}{url}'\n")],
'''
from bare_script import url_file_relative
assert url_file_relative('http://h.com/a/b/c.bare', '../d.bare') == 'http://h.com/a/b/../d.bare'
''', 'a relative path with ".." against a URL of two or more directories', 'the location is resolved against the root of the host')
seed('c18-unused-var', 'C18', [('model.py', "        elif statement_key == 'return' and 'expr' in statement['return']:\n            _get_expression_variable_uses(statement['return']['expr'], uses, ix_statement)\n", "        elif statement_key == 'return' and 'expr' in statement['return'] and ix_statement + 1 == len(statements):\n            _get_expression_variable_uses(statement['return']['expr'], uses, ix_statement)\n")],
'''
w = lint_script(parse_script("function f(a, b):\\n    if b:\\n        return a\\n    endif\\n    return b\\nendfunction\\n"))
assert not w, w
''', 'a variable used only in a return that is not the last statement of its function', 'it is reported as unused')
seed('c18-pointless', 'C18', [('model.py', "        return _is_pointless_expression(expr['binary']['left']) and _is_pointless_expression(expr['binary']['right'])\n", "        return _is_pointless_expression(expr['binary']['left']) and (expr['binary']['op'] not in ('&&', '||') or _is_pointless_expression(expr['binary']['right']))\n")],
'''
w = lint_script(parse_script("a = 1\\na + systemLog('x')\\n"))
assert not w, w
''', 'an expression statement that calls a function on the right of an arithmetic operator', 'it is reported as pointless')
seed('c18-label-index', 'C18', [('model.py', "        elif fn_statement_key == 'jump':\n            fn_labels_used[fn_statement['jump']['label']] = ix_fn_statement\n", "        elif fn_statement_key == 'jump':\n            if 'expr' in fn_statement['jump'] or fn_statement['jump']['label'] in fn_labels_defined:\n                fn_labels_used[fn_statement['jump']['label']] = ix_fn_statement\n")],
'''
w = lint_script(parse_script("function f():\\n    jump end\\n    x()\\n    end:\\nendfunction\\n"))
assert not w, w
w = lint_script(parse_script("function f():\\n    jump end\\nendfunction\\n"))
assert len(w) == 1, w
''', 'an unconditional forward jump in a function', 'its label is reported unused, and a missing label is not reported')
seed('c19-sum-null', 'C19', [('data.py', "            if value is not None:\n                aggregate_row[field].append(value)\n", "            if value is not None and not (measure['function'] == 'count' and value == ''):\n                aggregate_row[field].append(value)\n")],
'''
from bare_script.data import aggregate_data
assert aggregate_data([{'a': ''}, {'a': 'x'}], {'measures': [{'field': 'a', 'function': 'count'}]}) == [{'a': 2}]
''', 'a count over a field with empty strings', 'the empty strings are not counted')
seed('c19-join-collide', 'C19', [('data.py', "            while unique_name in left_names or unique_name in right_names or unique_name in right_names_raw:\n", "            while unique_name in left_names or unique_name in right_names:\n")],
'''
from bare_script.data import join_data
r = join_data([{'a': 1}], [{'a': 1, 'a2': 7}], 'a')
assert sorted(r[0].values()) == [1, 1, 7], r
''', 'a right row with a colliding field "a" and its own field "a2"', 'one right field overwrites another')
seed('c19-sort-desc', 'C19', [('data.py', "        result = value_compare(value2, value1) if desc else value_compare(value1, value2)\n        if result != 0:\n            return result\n    return 0\n", "        result = value_compare(value2, value1) if desc else value_compare(value1, value2)\n        if result != 0:\n            return result\n    return 0 if not sorts or not (len(sorts[-1]) > 1 and sorts[-1][1]) or len(sorts) < 2 else -1\n")],
'''
from bare_script.data import sort_data
r = sort_data([{'a': 1, 'b': 1, 'c': i} for i in range(3)], [['a'], ['b', True]])
assert [x['c'] for x in r] == [0, 1, 2], r
''', 'two or more sort keys, the last one descending, and equal rows', 'equal rows do not keep their order')
seed('c19-csv-null', 'C19', [('data.py', "                    elif value in ('', 'null'):\n                        types[field] = None\n", "                    elif value in ('', 'null'):\n                        types[field] = None if row is not data[0] or len(data) < 3 else 'string'\n")],
'''
from bare_script.library import SCRIPT_FUNCTIONS as F
assert F['dataParseCSV'](['a,b\\n1,null\\n2,5\\n3,6\\n'], None)[1]['b'] == 5
''', 'a CSV of three or more rows whose first value of a column is null', 'the column is read as strings')
seed('c20-add-tail', 'C20', [('include/diff.bare', "            ixRightTmp = ixRight\n            while ixRightTmp < rightLength:\n", "            ixRightTmp = ixRight\n            while ixRightTmp < rightLength && ixRightTmp < ixRight + 8:\n"), ('include/diff.bare', "arraySlice(rightLines, ixRight, ixRightTmp)))", "arraySlice(rightLines, ixRight, mathMin(ixRightTmp, ixRight + 6))))")],
'''
import os
import bare_script
def lines(a, b):
    d = os.path.join(os.path.dirname(bare_script.__file__), 'include')
    g = {'a': a, 'b': b}
    execute_script(parse_script("include <diff.bare>\\nreturn diffLines(a, b)"), {'globals': g, 'systemPrefix': d + '/', 'fetchFn': lambda r: open(r['url']).read()})
    return execute_script(parse_script("return diffLines(a, b)"), {'globals': g})
a = ['x']
b = ['1', '2', '3', '4', '5', '6', '7', 'x']
d = lines(a, b)
assert [l for x in d if x['type'] != 'Remove' for l in x['lines']] == b, d
''', 'seven added lines before the next common line', 'the added lines are lost')
seed('c20-split-cr', 'C20', [('include/diff.bare', "            arrayExtend(leftLines, regexSplit(diffRegexLineSplit, leftPart))\n", "            arrayExtend(leftLines, regexSplit(diffRegexLineSplit, stringTrim(leftPart)))\n")],
'''
import os
import bare_script
d = os.path.join(os.path.dirname(bare_script.__file__), 'include')
g = {'a': ['  x'], 'b': ['  x']}
r = execute_script(parse_script("include <diff.bare>\\nreturn diffLines(a, b)"), {'globals': g, 'systemPrefix': d + '/', 'fetchFn': lambda r: open(r['url']).read()})
assert [x['type'] for x in r] == ['Identical'] and r[0]['lines'] == ['  x'], r
''', 'a left array with a line that starts or ends with a blank', 'identical inputs yield differences')
