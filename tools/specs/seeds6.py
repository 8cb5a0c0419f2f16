exec(open('/tmp/seeds1.py').read().split("seed('c01-continue-deep'")[0])

seed('c15-regex-brace', 'C15', [('library.py', "    return re.escape(string)\n", "    return re.sub(r'([][\\\\^$.|?*+()])', r'\\\\\\1', string)\n")],
'''
assert run("return regexMatch(regexNew(regexEscape('a{2}')), 'aa')")[0] is None
''', 'a string holding a counted-repeat such as a{2}', 'braces are not escaped: the pattern matches another string')

seed('c15-trim-unicode', 'C15', [('library.py', "    return string.strip()\n", "    return string.strip(' \\t\\r\\n\\v\\f')\n")],
'''
g = {'s': chr(0xa0) + 'a' + chr(0x2003)}
assert run("return stringTrim(s)", g)[0] == 'a'
''', 'a string that starts or ends with a Unicode space', 'the Unicode spaces are kept')

seed('c15-casefold', 'C15', [('library.py', "    return string.lower()\n", "    return string.casefold()\n")],
'''
assert run("return stringLower(s)", {'s': chr(0xdf)})[0] == chr(0xdf)
''', 'a sharp s', 'stringLower changes lower-case letters')

seed('c15-find-empty', 'C15', [('library.py', "    return string.find(search, int(index))\n", "    return string.find(search, int(index)) if search else -1\n")],
'''
assert run("return stringIndexOf('abc', '', 1)")[0] == 1
''', 'an empty search string', 'stringIndexOf gives -1')

seed('c16-getter-aware', 'C16', [('library.py', "    return value_normalize_datetime(datetime_).minute\n", "    return datetime_.minute if isinstance(datetime_, datetime.datetime) else 0\n")],
'''
import datetime
d = datetime.datetime(2024, 1, 1, 1, 10, tzinfo=datetime.timezone(datetime.timedelta(minutes=30)))
assert run("return datetimeMinute(d)", {'d': d})[0] == d.astimezone().minute
''', 'a host datetime with an offset that differs from the process zone by part of an hour', 'the minute of the other zone is returned')

seed('c04-global-get-falsy', 'C04', [('library.py', "    return globals_.get(name, default_value) if globals_ is not None else default_value\n", "    return (globals_.get(name) or default_value) if globals_ is not None else default_value\n")],
'''
assert run("x = 0\\nreturn systemGlobalGet('x', 5)")[0] == 0
''', 'a global with a falsy value read with a default', 'the default is returned')

seed('c04-null-global', 'C04', [('runtime.py', "for name_func in SCRIPT_FUNCTIONS.items() if name_func[0] not in globals_)", "for name_func in SCRIPT_FUNCTIONS.items() if globals_.get(name_func[0]) is None)")],
'''
assert run("return mathAbs", {'mathAbs': None})[0] is None
''', 'a caller-supplied global named like a library function whose value is null', 'the library function overwrites it')

seed('c19-sort-missing', 'C19', [('data.py', "        value1 = row1.get(field)\n", "        if field not in row1 and field not in row2:\n            return 0\n        value1 = row1.get(field)\n")],
'''
assert [r['b'] for r in run("return dataSort(d, arrayNew(arrayNew('a'), arrayNew('b')))", {'d': [{'b': 2}, {'b': 1}]})[0]] == [1, 2]
''', 'two rows that both lack the first sort field', 'the second sort key is ignored')

seed('c19-top-null', 'C19', [('data.py', "        for ix_row in range(min(int(count), len(category_key_rows))):\n", "        for ix_row in range(min(int(count) or 1, len(category_key_rows))):\n")],
'''
assert run("return dataTop(d, 0)", {'d': [{'b': 2}, {'b': 1}]})[0] in ([], None)
''', 'a count of zero', 'one row of each category is kept')

seed('c08-return-falsy', 'C08', [('runtime.py', "            if 'expr' in statement['return']:\n                return evaluate_expression(statement['return']['expr'], options, locals_, False)\n            return None\n",
 "            if 'expr' in statement['return']:\n                return evaluate_expression(statement['return']['expr'], options, locals_, False)\n            if locals_ is not None:\n                return None\n            ix_statement = len(statements)\n")],
'''
assert run("return 1")[0] == 1
o = {'globals': {}}
execute_script(parse_script("x = 1\\nreturn\\nx = 2"), o)
assert o['globals']['x'] == 1
''', 'never', 'nothing (equivalent)')

seed('c11-compare-len', 'C11', [('value.py', "        for ix in range(min(len(left_key_values), len(right_key_values))):\n", "        if len(left_key_values) != len(right_key_values) and abs(len(left_key_values) - len(right_key_values)) > 2:\n            return -1 if len(left_key_values) < len(right_key_values) else 1\n        for ix in range(min(len(left_key_values), len(right_key_values))):\n")],
'''
from bare_script.value import value_compare
assert value_compare({'b': 1}, {'a': 1, 'c': 1, 'd': 1, 'e': 1}) == 1
''', 'two objects whose sizes differ by three or more', 'the smaller object is first whatever its keys')

seed('c13-literal-cache', 'C13', [('value.py', "        value = float(text) if '_' not in text else math.nan\n", "        value = float(text) if '_' not in text else math.nan\n        if abs(value) < 1e-300:\n            value = 0.0\n")],
'''
assert run("return numberParseFloat('1e-310')")[0] == 1e-310
''', 'a subnormal number', 'the text is read as zero')

seed('c14-parse-float', 'C14', [('library.py', "    return json.loads(string)\n", "    return json.loads(string, parse_int=lambda text: int(float(text)))\n")],
'''
assert run("return jsonParse('12345678901234567891')")[0] == 12345678901234567891
''', 'an integer of more than fifteen digits', 'the integer is rounded to a float')

seed('c05-fetch-item', 'C05', [('library.py', "            requests.append({'url': url_item}) \n", ""),] if False else [('library.py', "            except: # pylint: disable=bare-except\n                pass\n        responses.append(response)\n", "            except OSError:\n                pass\n        responses.append(response)\n")],
'''
def fetch(r):
    if r['url'] == 'b':
        raise ValueError('x')
    return 'ok'
assert run("return systemFetch(arrayNew('a', 'b', 'c'))", None, fetchFn=fetch)[0] == ['ok', None, 'ok']
''', 'a fetch function that raises something other than OSError for one of the URLs', 'the whole call gives null instead of null for that one URL')

seed('c10-tab-continuation', 'C10', [('parser.py', "__R__", "")] if False else [('value.py', "    if value is None:\n        return 'null'\n    elif isinstance(value, str):\n        return value\n    elif isinstance(value, bool):\n", "    if value is None:\n        return 'null'\n    elif isinstance(value, str):\n        return value\n    elif value is True or value is False:\n")],
'''
assert run("return '' + true")[0] == 'true'
''', 'never', 'equivalent')
