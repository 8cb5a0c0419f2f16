"""
Reference value semantics of BareScript, written from the documentation and the property statements, sharing no code with /repo.

Values are held as the host values the embedding API uses: None, bool, int/float, str, datetime, list, dict, re.Pattern, callables.
"""

import datetime
import json
import math
import re

PATTERN = type(re.compile(''))


def typ(v):
    if v is None:
        return 'null'
    if v is True or v is False:
        return 'boolean'
    t = type(v)
    if t is str:
        return 'string'
    if t is int or t is float:
        return 'number'
    if t is list:
        return 'array'
    if t is dict:
        return 'object'
    if isinstance(v, datetime.date):
        return 'datetime'
    if t is PATTERN:
        return 'regex'
    if callable(v):
        return 'function'
    return 'unknown'


def truthy(v):
    t = typ(v)
    if t == 'null':
        return False
    if t == 'boolean':
        return v
    if t == 'number':
        return not v == 0
    if t == 'string':
        return len(v) > 0
    if t == 'array':
        return len(v) > 0
    return True


def naive(v):
    """The local (process time zone) naive datetime of a date, datetime or aware datetime."""
    if isinstance(v, datetime.datetime):
        if v.tzinfo is None:
            return v
        return datetime.datetime.fromtimestamp(v.timestamp()).replace(microsecond=v.microsecond)
    return datetime.datetime(v.year, v.month, v.day)


def sign(n):
    return (n > 0) - (n < 0)


def compare(a, b):
    ta, tb = typ(a), typ(b)
    if ta == 'null' or tb == 'null':
        return (ta != 'null') - (tb != 'null')
    if ta != tb:
        return -1 if ta < tb else 1
    if ta in ('string', 'number', 'boolean'):
        return (a > b) - (a < b)
    if ta == 'datetime':
        x, y = naive(a), naive(b)
        return (x > y) - (x < y)
    if ta == 'array':
        for x, y in zip(a, b):
            c = compare(x, y)
            if c:
                return c
        return sign(len(a) - len(b))
    if ta == 'object':
        ka, kb = sorted(a), sorted(b)
        for x, y in zip(ka, kb):
            if x != y:
                return -1 if x < y else 1
            c = compare(a[x], b[y])
            if c:
                return c
        return sign(len(ka) - len(kb))
    return 0


def num_text(v):
    """Text of a number: integers as digits, otherwise the shortest text that reads back."""
    if isinstance(v, int):
        return str(v)
    if math.isfinite(v) and v == int(v) and (abs(v) < 1e15 or '.' in repr(v)):
        return ('-' if v == 0 and math.copysign(1, v) < 0 else '') + str(int(v))
    return repr(v)


def dt_text(v):
    """ISO text of a datetime, whole UTC process time zone only (TZ=UTC)."""
    n = naive(v)
    out = f'{n.year:04d}-{n.month:02d}-{n.day:02d}T{n.hour:02d}:{n.minute:02d}:{n.second:02d}'
    if n.microsecond:
        out += f'.{n.microsecond // 1000:03d}'
    return out + '+00:00'


def text(v):
    t = typ(v)
    if t == 'null':
        return 'null'
    if t == 'boolean':
        return 'true' if v else 'false'
    if t == 'string':
        return v
    if t == 'number':
        return num_text(v)
    if t == 'datetime':
        return dt_text(v)
    if t == 'function':
        return '<function>'
    if t == 'regex':
        return '<regex>'
    return jtext(v)


def jtext(v):
    t = typ(v)
    if t == 'string':
        return json.dumps(v)
    if t == 'array':
        return '[' + ','.join(jtext(x) for x in v) + ']'
    if t == 'object':
        return '{' + ','.join(json.dumps(k) + ':' + jtext(v[k]) for k in sorted(v)) + '}'
    if t == 'datetime':
        return '"' + dt_text(v) + '"'
    if t == 'function':
        return '"<function>"'
    if t == 'regex':
        return 'null'
    return text(v)


MAXF = 1.7976931348623157e308


def binop(op, a, b):
    """The non-short-circuit binary operators."""
    ta, tb = typ(a), typ(b)
    if op in ('==', '!=', '<', '<=', '>', '>='):
        c = compare(a, b)
        return {'==': c == 0, '!=': c != 0, '<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0}[op]
    if op == '+':
        if ta == 'string' or tb == 'string':
            return text(a) + text(b)
        if ta == 'datetime' and tb == 'number':
            return dt_add(a, b)
        if ta == 'number' and tb == 'datetime':
            return dt_add(b, a)
    if op == '-' and ta == 'datetime' and tb == 'datetime':
        d = naive(a) - naive(b)
        us = (d.days * 86400 + d.seconds) * 1000000 + d.microseconds
        # milliseconds, rounded half away from zero
        return float(sign(us) * ((abs(us) + 500) // 1000))
    if ta != 'number' or tb != 'number':
        return None
    a, b = float(a), float(b)
    if op == '+':
        return a + b
    if op == '-':
        return a - b
    if op == '*':
        return a * b
    if op == '/':
        return None if b == 0 else a / b
    if op == '%':
        if b == 0:
            return None
        return a % b
    if op == '**':
        try:
            r = a ** b
        except (ZeroDivisionError, OverflowError):
            return None
        return None if isinstance(r, complex) else r
    raise ValueError(op)


def dt_add(d, ms):
    try:
        return naive(d) + datetime.timedelta(milliseconds=ms)
    except (OverflowError, ValueError):
        return None


def unop(op, a):
    if op == '!':
        return not truthy(a)
    if typ(a) == 'number':
        return -a
    return None


def same(a, b, _depth=0):
    """Exact observable equality of two values (type, number value incl. nan and sign of zero, deep)."""
    ta, tb = typ(a), typ(b)
    if ta != tb:
        return False
    if ta == 'number':
        if a != a or b != b:
            return a != a and b != b
        return a == b and math.copysign(1, a) == math.copysign(1, b)
    if ta == 'datetime':
        return naive(a) == naive(b)
    if _depth > 60:
        return True
    if ta == 'array':
        return len(a) == len(b) and all(same(x, y, _depth + 1) for x, y in zip(a, b))
    if ta == 'object':
        return list(a) == list(b) and all(same(a[k], b[k], _depth + 1) for k in a)
    if ta in ('function', 'regex', 'unknown'):
        return a is b or (ta == 'regex' and a == b)
    return a == b


def show(v, _depth=0):
    """Canonical, comparable text of any value; numbers by value, functions as a tag; cycles cut."""
    t = typ(v)
    if t == 'number':
        if v != v:
            return 'nan'
        f = float(v) if abs(v) < MAXF else v
        return 'num:' + (repr(f) if f == v else repr(v))
    if t == 'string':
        return json.dumps(v)
    if t == 'datetime':
        return 'dt:' + naive(v).isoformat()
    if t == 'function':
        return '<function>'
    if t == 'regex':
        return f'<regex {v.pattern!r} {v.flags}>'
    if _depth > 30:
        return '<deep>'
    if t == 'array':
        return '[' + ','.join(show(x, _depth + 1) for x in v) + ']'
    if t == 'object':
        return '{' + ','.join(show(k) + ':' + show(x, _depth + 1) for k, x in v.items()) + '}'
    if t == 'unknown':
        return f'<unknown {type(v).__name__}>'
    return text(v)
