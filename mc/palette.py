"""Named BareScript values. A case holds names; make() builds fresh values (containers are never shared between cases)."""

import datetime
import re


def _host_null(args, options):  # pylint: disable=unused-argument
    return None


def _host_raise(args, options):
    raise KeyError('boom')


def _circular_array():
    a = [1]
    a.append(a)
    return a


def _circular_object():
    o = {'k': 1}
    o['o'] = o
    return o


def _deep():
    a = []
    for _ in range(5000):
        a = [a]
    return a


UTC = datetime.timezone.utc

VALUES = {
    # null, booleans
    'null': lambda: None,
    'true': lambda: True,
    'false': lambda: False,
    # numbers
    '0': lambda: 0.0,
    'i0': lambda: 0,
    '-0': lambda: -0.0,
    '1': lambda: 1.0,
    'i1': lambda: 1,
    '-1': lambda: -1.0,
    '2': lambda: 2.0,
    'i2': lambda: 2,
    '3': lambda: 3.0,
    'i-3': lambda: -3,
    '0.5': lambda: 0.5,
    '-2.5': lambda: -2.5,
    '7.25': lambda: 7.25,
    '10': lambda: 10.0,
    '16': lambda: 16.0,
    '36': lambda: 36.0,
    '100': lambda: 100.0,
    '1e6': lambda: 1e6,
    'i1e6': lambda: 10 ** 6,
    '1e15-1': lambda: 999999999999999.0,
    '1e15': lambda: 1e15,
    'i2^53+1': lambda: 2 ** 53 + 1,
    '1e21': lambda: 1e21,
    '1e300': lambda: 1e300,
    '1e-300': lambda: 1e-300,
    'maxfloat': lambda: 1.7976931348623157e308,
    'minfloat': lambda: 5e-324,
    'i10^400': lambda: 10 ** 400,
    'i10^5000': lambda: 10 ** 5000,
    'inf': lambda: float('inf'),
    '-inf': lambda: float('-inf'),
    'nan': lambda: float('nan'),
    # strings
    "''": lambda: '',
    "'a'": lambda: 'a',
    "'b'": lambda: 'b',
    "'ab'": lambda: 'ab',
    "'A'": lambda: 'A',
    "'0'": lambda: '0',
    "'1'": lambda: '1',
    "'1.0'": lambda: '1.0',
    "'.0,'": lambda: '[1.0]',
    "'null'": lambda: 'null',
    "'true'": lambda: 'true',
    "'esc'": lambda: 'q"\\\n\t',
    "'uni'": lambda: '\u00e9\u20ac\U0001F600',
    "'sur'": lambda: '\ud800',
    "'('": lambda: '(',
    "'date'": lambda: '2024-02-29',
    "'baddate'": lambda: '2024-02-30',
    "'dt'": lambda: '2024-02-29T10:20:30.400Z',
    "'expr'": lambda: 'a + 1',
    "'badexpr'": lambda: 'a +',
    "'json'": lambda: '{"a":[1,2.5,null]}',
    "'csv'": lambda: 'a,b\n1,x\n2,y',
    "'flags'": lambda: 'im',
    # datetimes
    'dt': lambda: datetime.datetime(2024, 2, 29, 10, 20, 30, 400000),
    'dt2': lambda: datetime.datetime(2023, 12, 31, 23, 59, 59, 999000),
    'date': lambda: datetime.date(2024, 2, 29),
    'dtz': lambda: datetime.datetime(2024, 2, 29, 10, 20, 30, 400000, tzinfo=UTC),
    'dt+5': lambda: datetime.datetime(2024, 2, 29, 15, 20, 30, 400000, tzinfo=datetime.timezone(datetime.timedelta(hours=5))),
    'dtmin': lambda: datetime.datetime(1, 1, 1),
    'dtmax': lambda: datetime.datetime(9999, 12, 31, 23, 59, 59, 999000),
    # arrays
    '[]': lambda: [],
    '[1]': lambda: [1.0],
    '[i1]': lambda: [1],
    '[1,2]': lambda: [1.0, 2.0],
    '[null]': lambda: [None],
    "['a']": lambda: ['a'],
    "['b','a']": lambda: ['b', 'a'],
    '[[1],{}]': lambda: [[1.0], {}],
    '[inf]': lambda: [float('inf')],
    '[fn]': lambda: [_host_null],
    '[rx]': lambda: [re.compile('a')],
    '[dt]': lambda: [datetime.datetime(2024, 1, 2, 3, 4, 5)],
    '[true]': lambda: [True],
    '[3,1,2]': lambda: [3.0, 1.0, 2.0],
    '[circ]': _circular_array,
    '[deep]': _deep,
    'rows': lambda: [{'a': 1.0, 'b': 'x'}, {'a': 2.0, 'b': 'y'}, {'a': None, 'b': 'x'}],
    'rows2': lambda: [{'a': 2.0, 'c': 'z'}],
    'badrows': lambda: [{'a': 1.0}, {'a': 'x'}, 5.0],
    "sorts": lambda: [['a', True]],
    "cats": lambda: ['b'],
    # objects
    '{}': lambda: {},
    '{a:1}': lambda: {'a': 1.0},
    '{a:i1}': lambda: {'a': 1},
    '{a:2}': lambda: {'a': 2.0},
    '{b:1}': lambda: {'b': 1.0},
    '{a:1,b:2}': lambda: {'a': 1.0, 'b': 2.0},
    '{b:2,a:1}': lambda: {'b': 2.0, 'a': 1.0},
    '{a:null}': lambda: {'a': None},
    '{a:inf}': lambda: {'a': float('inf')},
    '{circ}': _circular_object,
    'agg': lambda: {'categories': ['b'], 'measures': [{'field': 'a', 'function': 'sum'}]},
    'badagg': lambda: {'measures': []},
    'request': lambda: {'url': 'u'},
    'types': lambda: {'T': {'typedef': {'name': 'T', 'type': {'builtin': 'int'}}}},
    # functions, regexes
    'fn': lambda: _host_null,
    'fnraise': lambda: _host_raise,
    'rx': lambda: re.compile('a'),
    'rx2': lambda: re.compile('(b)|(?P<n>c)', re.I),
}


def make(name):
    return VALUES[name]()


ALL = list(VALUES)
