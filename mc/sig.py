"""The documented signatures of the script library: parameter types, constraints, defaults and failure values (from the library documentation)."""

import math

from . import ref

# letters: a array, o object, s string, n number, i integer, d datetime, f function, r regex, b boolean (any value), * any value
# suffix ?: optional/nullable (null is accepted), =: has a default when missing (null is NOT accepted unless also ?), ranges in brackets
_TABLE = """
arrayCopy a
arrayDelete a i[0,]
arrayExtend a a
arrayGet a i[0,]
arrayIndexOf a * i=[0,] -> -1
arrayJoin a s
arrayLastIndexOf a * i?[0,] -> -1
arrayLength a -> 0
arrayNewSize i=[0,] *
arrayPop a
arrayPush a ...
arraySet a i[0,] *
arrayShift a
arraySlice a i=[0,] i?[0,]
arraySort a f?
dataAggregate a o
dataCalculatedField a s s o?
dataFilter a s o?
dataJoin a a s s? b o?
dataSort a a
dataTop a i[1,] a?
dataValidate a b
datetimeDay d
datetimeHour d
datetimeISOFormat d b
datetimeISOParse s
datetimeMillisecond d
datetimeMinute d
datetimeMonth d
datetimeNew i[100,] i i[-10000,10000] i= i= i= i=
datetimeNow
datetimeSecond d
datetimeToday
datetimeYear d
jsonParse s
jsonStringify * i?[1,]
mathAbs n
mathAcos n
mathAsin n
mathAtan n
mathAtan2 n n
mathCeil n
mathCos n
mathFloor n
mathLn n(0,]
mathLog n(0,] n=(0,]
mathRound n i=[0,]
mathSign n
mathSin n
mathSqrt n[0,]
mathTan n
numberParseFloat s
numberParseInt s i=[2,36]
numberToFixed n i=[0,] b
objectAssign o o
objectCopy o
objectDelete o s
objectGet o s * -> default
objectHas o s -> false
objectKeys o
objectSet o s *
regexEscape s
regexMatch r s
regexMatchAll r s
regexNew s s?
regexReplace r s s
regexSplit r s
schemaParseEx * o? s=
schemaValidate o s *
schemaValidateTypeModel o
stringCharCodeAt s i[0,]
stringEndsWith s s
stringIndexOf s s i=[0,] -> -1
stringLastIndexOf s s i?[0,] -> -1
stringLength s -> 0
stringLower s
stringNew *
stringRepeat s i[0,]
stringReplace s s s
stringSlice s i[0,] i?[0,]
stringSplit s s
stringStartsWith s s
stringTrim s
stringUpper s
systemBoolean *
systemCompare * *
systemGlobalGet s *
systemGlobalSet s *
systemIs * *
systemLog *
systemLogDebug *
systemPartial f ...
systemType *
urlEncode s
urlEncodeComponent s
"""

_TYPES = {'a': 'array', 'o': 'object', 's': 'string', 'n': 'number', 'i': 'number', 'd': 'datetime', 'f': 'function', 'r': 'regex'}


def _parse():
    out = {}
    for line in _TABLE.strip().splitlines():
        left, _, fail = line.partition('->')
        name, *params = left.split()
        failure = {'': None, '-1': -1, '0': 0, 'false': False, 'default': 'default'}[fail.strip()]
        rows = []
        for p in params:
            if p == '...':
                rows.append(('...', False, False, None))
                continue
            kind = p[0]
            low = high = None
            strict = False
            for br in '[(':
                if br in p:
                    lo, hi = p[p.index(br) + 1:-1].split(',')
                    low = float(lo) if lo else None
                    high = float(hi) if hi else None
                    strict = br == '('
            flags = p[1:]
            rows.append((kind, '?' in flags, '=' in flags, (low, high, strict)))
        out[name] = (rows, failure)
    return out


SIGNATURES = _parse()

# functions without a fixed signature, and functions that take no arguments but ignore them
FREE = {'arrayNew', 'objectNew', 'stringFromCharCode', 'mathMax', 'mathMin', 'mathPi', 'mathRandom', 'dataParseCSV', 'schemaParse', 'schemaTypeModel', 'systemFetch',
        'datetimeNow', 'datetimeToday'}


def failure_value(name, args):
    """The documented value of a failed call."""
    if name not in SIGNATURES:
        return None
    failure = SIGNATURES[name][1]
    if failure == 'default':
        return args[2] if len(args) > 2 else None
    return failure


def arity(name):
    """(least, most) number of arguments; most is None for a trailing "...". """
    rows = SIGNATURES[name][0]
    least = 0
    for ix, (kind, nullable, default, _) in enumerate(rows):
        if kind not in ('*', 'b', '...') and not nullable and not default:
            least = ix + 1
    return least, (None if rows and rows[-1][0] == '...' else len(rows))


def invalid(name, args):
    """True if the argument list violates the documented signature (wrong type, missing, surplus or out of the constant range)."""
    if name in FREE or name not in SIGNATURES:
        return False
    rows = SIGNATURES[name][0]
    for ix, (kind, nullable, default, bounds) in enumerate(rows):
        if kind == '...':
            return False
        if kind in ('*', 'b'):
            continue
        if ix >= len(args):
            if not nullable and not default:
                return True
            continue
        value = args[ix]
        if value is None:
            if not nullable:
                return True
            continue
        if ref.typ(value) != _TYPES[kind]:
            return True
        if kind == 'i' and isinstance(value, float) and not (math.isfinite(value) and value == int(value)):
            return True
        if kind in ('i', 'n') and bounds is not None:
            low, high, strict = bounds
            if value != value and (low is not None or high is not None):
                return True
            if low is not None and (value <= low if strict else value < low):
                return True
            if high is not None and value > high:
                return True
    return len(args) > len(rows)
