"""C16: datetime construction, arithmetic and ISO text are correct in any time zone."""

import datetime
import itertools
import os
import re
import time
import zoneinfo

from mc import impl, ref
from mc.core import Space

PROPERTY = 'C16'
LEVEL = 'exploration'
RULE = ('every datetimeNew component tuple, datetime and offset, ISO text and time zone of the listed finite grids is run on the real code (process TZ set with tzset) and compared with integer '
        'calendar arithmetic and the IANA rules read by zoneinfo; distinct = distinct results')
ASSUMPTIONS = [
    'a local datetime skipped by a transition does not exist; a repeated one may be formatted with either offset',
    'offsets with seconds (local mean time) are outside the property',
    'other ISO 8601 spellings than YYYY-MM-DD and YYYY-MM-DDThh:mm:ss[.f](Z|+hh:mm) may be parsed or give null',
    'sub-millisecond digits of an ISO text are dropped or rounded'
]

ZONES = ['UTC', 'America/New_York', 'Europe/London', 'Asia/Kolkata', 'Asia/Kathmandu', 'Australia/Lord_Howe', 'Pacific/Chatham', 'Etc/GMT+12']
MORE_ZONES = ['Pacific/Apia', 'America/St_Johns', 'Africa/Casablanca', 'Asia/Tehran', 'Pacific/Kiritimati', 'Antarctica/Troll', 'Africa/Monrovia', 'America/Sao_Paulo', 'Asia/Gaza', 'Europe/Dublin']

DT = datetime.datetime
MS = datetime.timedelta(milliseconds=1)


# ---------------------------------------------------------------------------------------------------------------
# integer calendar arithmetic (proleptic Gregorian)
# ---------------------------------------------------------------------------------------------------------------

def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def month_days(y, m):
    return 29 if m == 2 and leap(y) else (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)[m - 1]


def days_from_civil(y, m, d):
    """Days since 1970-01-01 (d may be out of range)."""
    y -= m <= 2
    era = y // 400
    yoe = y - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5
    return era * 146097 + yoe * 365 + yoe // 4 - yoe // 100 + doy - 719468 + d - 1


def civil_from_days(z):
    z += 719468
    era = z // 146097
    doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    m = mp + (3 if mp < 10 else -9)
    return yoe + era * 400 + (m <= 2), m, doy - (153 * mp + 2) // 5 + 1


def normalise(y, mo, d, h=0, mi=0, s=0, ms=0):
    """The parts of the normalised instant, or None outside the years 1..9999."""
    y += (mo - 1) // 12
    mo = (mo - 1) % 12 + 1
    total = ((days_from_civil(y, mo, d) * 24 + h) * 60 + mi) * 60 + s
    total = total * 1000 + ms
    days, rest = divmod(total, 86400000)
    y, mo, d = civil_from_days(days)
    if not 1 <= y <= 9999:
        return None
    return y, mo, d, rest // 3600000, rest // 60000 % 60, rest // 1000 % 60, rest % 1000


def to_ms(d):
    return ((days_from_civil(d.year, d.month, d.day) * 24 + d.hour) * 60 + d.minute) * 60000 + d.second * 1000 + d.microsecond // 1000


GETTERS = ['datetimeYear', 'datetimeMonth', 'datetimeDay', 'datetimeHour', 'datetimeMinute', 'datetimeSecond', 'datetimeMillisecond']


def parts_of(value):
    lib = impl.lib()
    return tuple(lib[name]([value], None) for name in GETTERS)


def call_new(args):
    g = dict(impl.lib())
    return impl.evaluate_expression({'function': {'name': 'datetimeNew', 'args': [{'number': n} for n in args]}}, {'globals': g})


def check_new(ctx, args, floats=True):
    want = normalise(*args)
    got = call_new([float(n) for n in args] if floats else list(args))
    ctx.states += 1
    if got is None:
        if want is not None:
            ctx.fail('new', f'datetimeNew{tuple(args)} is null, expected {want}')
        return
    parts = parts_of(got) if isinstance(got, datetime.datetime) else None
    if want is None or parts != want or any(isinstance(p, bool) or not isinstance(p, (int, float)) for p in parts):
        ctx.fail('new', f'datetimeNew{tuple(args)} is {got!r} with the parts {parts}, expected {want}')
    if got.tzinfo is not None or got.microsecond % 1000:
        ctx.fail('new', f'datetimeNew{tuple(args)} is {got!r}')


YEARS = [100, 101, 400, 1599, 1600, 1700, 1900, 1970, 1999, 2000, 2001, 2023, 2024, 2100, 2400, 8999, 9000]
DAYS = [-10000, -9999, -3653, -1462, -1461, -1460, -731, -730, -367, -366, -365, -364, 363, 364, 365, 366, 367, 396, 397, 730, 731, 1095, 1096, 1461, 1462, 3652, 9999, 10000] + list(range(-63, 95))


def gen_new_days(deep):
    def gen():
        for y in YEARS:
            for mo in range(-30, 41):
                yield ['days', y, mo]
        for y, mo in [(1900, 1), (1900, 2), (2000, 2), (2000, 3), (2023, 12), (2024, 1), (2024, 2), (2024, 3)] + ([(y, m) for y in YEARS for m in (1, 2, 3, 6, 12)] if deep else []):
            for start in range(-10000, 10001, 2000):
                yield ['all', y, mo, start]
        for y in range(100, 9001, 10):
            yield ['years', y]
    return gen


def run_new_days(case, ctx):
    if case[0] == 'days':
        for ix, d in enumerate(DAYS):
            check_new(ctx, [case[1], case[2], d], ix % 2 == 0)
    elif case[0] == 'all':
        for d in range(case[3], min(case[3] + 2000, 10001)):
            check_new(ctx, [case[1], case[2], d], d % 2 == 0)
    else:
        for y in range(case[1], min(case[1] + 10, 9001)):
            for mo, d in ((1, 1), (2, 28), (2, 29), (2, 30), (3, 0), (3, 1), (12, 31), (12, 32), (1, 0), (13, 1), (0, 31), (14, 29), (-9, 29), (1, 60), (1, 366), (1, 367)):
                check_new(ctx, [y, mo, d], y % 2 == 0)
    ctx.outcome(case)


COMP = [-5000, -3601, -3600, -1441, -1440, -1001, -1000, -999, -61, -60, -59, -25, -24, -23, -1, 0, 1, 23, 24, 25, 59, 60, 61, 999, 1000, 1001, 1439, 1440, 3599, 3600, 5000]
COMP_S = [-5000, -1001, -1000, -61, -60, -25, -24, -1, 0, 1, 23, 24, 59, 60, 61, 999, 1000, 5000]
BASES = [(2024, 2, 28), (2023, 12, 31), (2000, 3, 1), (100, 1, 1), (1900, 2, 28), (9000, 12, 31)]


def gen_new_time(deep):
    def gen():
        for base in range(3 if not deep else len(BASES)):
            for h in COMP_S:
                for mi in COMP_S:
                    yield ['product', base, h, mi]
        for base in range(len(BASES)):
            for pos in range(4):
                for start in range(-5000, 5001, 1000):
                    yield ['single', base, pos, start]
        for base in range(len(BASES)):
            for pos in itertools.combinations(range(4), 2):
                yield ['two', base, list(pos)]
        yield ['huge']
    return gen


def run_new_time(case, ctx):
    kind = case[0]
    if kind == 'product':
        for s in COMP_S:
            for ms in COMP_S:
                check_new(ctx, [*BASES[case[1]], case[2], case[3], s, ms], (s + ms) % 2 == 0)
    elif kind == 'single':
        for v in range(case[3], min(case[3] + 1000, 5001)):
            comp = [0] * 4
            comp[case[2]] = v
            check_new(ctx, [*BASES[case[1]], *comp], v % 2 == 0)
            check_new(ctx, [*BASES[case[1]], *comp[:case[2] + 1]], v % 2 == 1)
    elif kind == 'two':
        for v in COMP:
            for w in COMP:
                comp = [23, 59, 59, 999]
                comp[case[2][0]], comp[case[2][1]] = v, w
                check_new(ctx, [*BASES[case[1]], *comp])
    else:
        # the result may be outside the representable years; never a wrong datetime
        for pos in range(4):
            for v in (10 ** 6, -10 ** 6, 10 ** 8, -10 ** 8, 10 ** 9, 10 ** 12, -10 ** 12, 10 ** 14):
                comp = [0] * 4
                comp[pos] = v
                check_new(ctx, [2024, 2, 29, *comp])
        for mo in (-30000, -22800, -1200, 1200, 95000, 10 ** 6, -10 ** 6):
            for d in (-10000, 0, 1, 31, 10000):
                check_new(ctx, [2024, mo, d])
        for y in (9998, 9999, 10000, 10001):
            for mo in (-12, 0, 1, 12, 13, 14):
                for d in (-10000, -400, -1, 0, 1, 31, 32, 400):
                    check_new(ctx, [y, mo, d])
    ctx.outcome(case)


def set_tz(name):
    def setup():
        os.environ['TZ'] = name
        time.tzset()
    return setup


# ---------------------------------------------------------------------------------------------------------------
# local datetimes of one zone
# ---------------------------------------------------------------------------------------------------------------

_ZONE = {}


def zone(name):
    if name not in _ZONE:
        _ZONE[name] = zoneinfo.ZoneInfo(name)
    return _ZONE[name]


def offsets(name, d):
    """The UTC offsets (seconds) with which the naive local datetime exists in the zone."""
    out = []
    for fold in (0, 1):
        aware = d.replace(tzinfo=zone(name), fold=fold)
        off = aware.utcoffset()
        try:
            back = (d - off).replace(tzinfo=datetime.timezone.utc).astimezone(zone(name)).replace(tzinfo=None)
        except OverflowError:
            continue
        if back == d and off.total_seconds() not in out:
            out.append(off.total_seconds())
    return out


def local_of(name, utc):
    return utc.replace(tzinfo=datetime.timezone.utc).astimezone(zone(name)).replace(tzinfo=None)


_TRANS = {}


def transitions(name, deep):
    """UTC instants (naive) of offset changes, by scanning and bisection."""
    key = (name, deep)
    if key not in _TRANS:
        out = []
        step = datetime.timedelta(days=5)
        for first, last in ([(1965, 2045)] if deep else [(1994, 1997), (2006, 2013), (2023, 2026), (2037, 2040), (2100, 2101)]):
            t = DT(first, 1, 1)
            off = zone_offset(name, t)
            while t.year < last:
                u = t + step
                uoff = zone_offset(name, u)
                if uoff != off:
                    lo, hi = t, u
                    while hi - lo > datetime.timedelta(seconds=1):
                        mid = lo + (hi - lo) / 2
                        mid = mid.replace(microsecond=0)
                        if mid == lo:
                            break
                        if zone_offset(name, mid) == off:
                            lo = mid
                        else:
                            hi = mid
                    out.append(hi)
                t, off = u, uoff
        _TRANS[key] = out
    return _TRANS[key]


def zone_offset(name, utc):
    return utc.replace(tzinfo=datetime.timezone.utc).astimezone(zone(name)).utcoffset()


ISO = re.compile(r'(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(?:\.(\d{3}))?(?:Z|([+-])(\d\d):(\d\d))', re.ASCII)


def check_iso(ctx, name, d):
    """Format and parse one naive local datetime."""
    offs = offsets(name, d)
    lib = impl.lib()
    ctx.states += 1
    day = lib['datetimeISOFormat']([d, True], None)
    if day != f'{d.year:04d}-{d.month:02d}-{d.day:02d}':
        ctx.fail('iso-date', f'TZ={name}: datetimeISOFormat({d}, true) is {day!r}')
    parsed_day = lib['datetimeISOParse']([day], None)
    if not isinstance(parsed_day, DT) or parsed_day != DT(d.year, d.month, d.day):
        ctx.fail('iso-date', f'TZ={name}: datetimeISOParse({day!r}) is {parsed_day!r}')
    if not offs or any(o % 60 for o in offs):
        return
    text = lib['datetimeISOFormat']([d], None)
    m = ISO.fullmatch(text) if isinstance(text, str) else None
    if m is None:
        ctx.fail('iso-format', f'TZ={name}: datetimeISOFormat({d}) is {text!r}')
    off = 0 if m.group(8) is None else (1 if m.group(8) == '+' else -1) * (int(m.group(9)) * 3600 + int(m.group(10)) * 60)
    written = DT(*[int(m.group(i)) for i in range(1, 7)], int(m.group(7) or 0) * 1000)
    want = d.replace(microsecond=d.microsecond // 1000 * 1000)
    # the text denotes the instant: in the local offset, or in any other
    if not any(written - datetime.timedelta(seconds=off) == want - datetime.timedelta(seconds=o) for o in offs):
        ctx.fail('iso-format', f'TZ={name}: datetimeISOFormat({d}) is {text!r}, the offset is {offs}')
    back = lib['datetimeISOParse']([text], None)
    if not isinstance(back, DT) or back.tzinfo is not None or back != want:
        ctx.fail('iso-round-trip', f'TZ={name}: datetimeISOParse(datetimeISOFormat({d})) is {back!r}, the text is {text!r}')
    ctx.outcome(text)


OFFSETS = [0, 60, -60, 330, 345, -300, 720, -720, 840, 1439, -1439, 1, -1]


def check_instant(ctx, name, utc):
    """Parse an instant written with several offsets: the local parts; a host aware datetime has the same parts."""
    try:
        want = local_of(name, utc)
    except OverflowError:
        return
    if want.microsecond % 1000:
        return
    lib = impl.lib()
    for off in OFFSETS:
        try:
            w = utc + datetime.timedelta(minutes=off)
        except OverflowError:
            continue
        for z in ([f'{"-" if off < 0 else "+"}{abs(off) // 60:02d}:{abs(off) % 60:02d}'] + (['Z', '-00:00'] if off == 0 else [])):
            base = f'{w.year:04d}-{w.month:02d}-{w.day:02d}T{w.hour:02d}:{w.minute:02d}:{w.second:02d}'
            texts = [base + f'.{w.microsecond // 1000:03d}' + z]
            if off in (0, 330):
                texts.append(base + f'.{w.microsecond:06d}' + z)
                if not w.microsecond:
                    texts.append(base + z)
            for text in texts:
                got = lib['datetimeISOParse']([text], None)
                ctx.states += 1
                if not isinstance(got, DT) or got != want:
                    ctx.fail('iso-parse', f'TZ={name}: datetimeISOParse({text!r}) is {got!r}, expected {want}')
        aware = utc.replace(tzinfo=datetime.timezone.utc).astimezone(datetime.timezone(datetime.timedelta(minutes=off)))
        parts = parts_of(aware)
        if parts != (want.year, want.month, want.day, want.hour, want.minute, want.second, want.microsecond // 1000):
            ctx.fail('aware', f'TZ={name}: the parts of the aware datetime {aware} are {parts}, expected {want}')
        g = dict(impl.lib(), a=aware, n=want)
        diff = impl.evaluate_expression({'binary': {'op': '-', 'left': {'variable': 'a'}, 'right': {'variable': 'n'}}}, {'globals': g})
        if diff != 0:
            ctx.fail('aware', f'TZ={name}: {aware} - {want} is {diff!r}')


TIMES = [(0, 0, 0, 0), (0, 30, 0, 1), (1, 0, 0, 0), (1, 30, 0, 999), (2, 0, 0, 0), (2, 30, 0, 500), (3, 0, 0, 0), (12, 34, 56, 789), (23, 59, 59, 999), (6, 7, 8, 10), (10, 0, 0, 100)]


def gen_zone(name, deep):
    def gen():
        for y in ([100, 400, 1000, 1582, 1752, 1850, 1900, 1901, 1918, 1945, 1970, 1971, 1986, 1999, 2000, 2011, 2019, 2023, 2024, 2025, 2037, 2038, 2039, 2100, 2400, 5000, 9000]
                  if not deep else list(range(1900, 2101)) + [100, 400, 1000, 1582, 1752, 2400, 5000, 9000]):
            for mo in range(1, 13):
                yield ['month', name, y, mo]
        for ix in range(len(transitions(name, deep))):
            yield ['transition', name, ix, deep]
        for ms in range(0, 1000, 100):
            yield ['ms', name, ms]
        for y in range(100, 9000, 100):
            yield ['century', name, y]
    return gen


def run_zone(case, ctx):
    kind, name = case[0], case[1]
    if kind == 'month':
        for d in range(1, month_days(case[2], case[3]) + 1):
            for h, mi, s, ms in TIMES:
                check_iso(ctx, name, DT(case[2], case[3], d, h, mi, s, ms * 1000))
            check_instant(ctx, name, DT(case[2], case[3], d, (d * 7) % 24, (d * 13) % 60, d, d * 11000))
    elif kind == 'transition':
        t = transitions(name, case[3])[case[2]]
        for minutes in range(-200, 201, 5):
            utc = t + datetime.timedelta(minutes=minutes)
            check_instant(ctx, name, utc)
            check_iso(ctx, name, local_of(name, utc))
        for ms in (-86400000, -3600001, -3600000, -1800000, -1000, -1, 0, 1, 999, 1000, 1800000, 3599999, 3600000, 86400000):
            utc = t + ms * MS
            check_instant(ctx, name, utc)
            check_iso(ctx, name, local_of(name, utc))
        # arithmetic across the transition, in local terms
        local = local_of(name, t)
        for n in (-7200000, -3600000, -1800000, -1, 0, 1, 1800000, 3600000, 7200000, 86400000, -86400000):
            check_arith(ctx, local, n)
            check_arith(ctx, local - datetime.timedelta(minutes=30), n)
    elif kind == 'ms':
        for ms in range(case[2], case[2] + 100):
            check_iso(ctx, name, DT(2024, 7, 1, 12, 0, 0, ms * 1000))
            check_iso(ctx, name, DT(2024, 1, 15, 1, 2, 3, ms * 1000))
            check_iso(ctx, name, DT(1970, 1, 1, 0, 0, 0, ms * 1000 + 999))
            check_iso(ctx, name, DT(2024, 12, 31, 23, 59, 59, ms * 1000 + 1))
            check_instant(ctx, name, DT(2024, 7, 1, 12, 0, 0, ms * 1000))
            check_instant(ctx, name, DT(1969, 12, 31, 23, 59, 59, ms * 1000))
    else:
        for y in range(case[2], case[2] + 100):
            check_iso(ctx, name, DT(y, 1, 1))
            check_iso(ctx, name, DT(y, 7, 2, 3, 4, 5, 678000))
            check_iso(ctx, name, DT(y, 12, 31, 23, 59, 59, 999000))


# ---------------------------------------------------------------------------------------------------------------
# arithmetic
# ---------------------------------------------------------------------------------------------------------------

NS = [0, 1, -1, 2, 3, 499, 500, 501, 999, 1000, 1001, -999, -1000, -1001, 59999, 60000, 3599999, 3600000, 86399999, 86400000, 86400001, -86400001, 31535999999, 31536000000, 31622400000, 10 ** 9 + 7, 123456789, -123456789,
      2 ** 31 - 1, 2 ** 31, 2 ** 32 + 1, 987654321987, 10 ** 12 - 1, 10 ** 12, -10 ** 12, -10 ** 12 + 1, 333333333333, 10 ** 11 + 3]
DATES = [DT(2024, 2, 29, 12, 30, 15, 123000), DT(1970, 1, 1), DT(1969, 12, 31, 23, 59, 59, 999000), DT(2000, 2, 28, 23, 59, 59, 999000), DT(2100, 3, 1), DT(100, 1, 1), DT(9000, 12, 31, 23, 59, 59, 1000), DT(1582, 10, 10), DT(2024, 3, 10, 2, 30),
         DT(2024, 11, 3, 1, 30), DT(4000, 6, 15, 6, 7, 8, 9000)]


def expr_bin(op, left, right):
    return {'binary': {'op': op, 'left': left, 'right': right}}


D, N, R = {'variable': 'd'}, {'variable': 'n'}, {'variable': 'r'}
EXPRS = {
    'd + n': expr_bin('+', D, N),
    'n + d': expr_bin('+', N, D),
    '(d + n) - d': expr_bin('-', expr_bin('+', D, N), D),
    'd - (d + n)': expr_bin('-', D, expr_bin('+', D, N)),
    '(d + n) + -n': expr_bin('+', {'group': expr_bin('+', D, N)}, {'unary': {'op': '-', 'expr': N}}),
}


def check_arith(ctx, d, n):
    g = dict(impl.lib(), d=d)
    want_ms = to_ms(d) + n
    lo, hi = days_from_civil(1, 1, 1) * 86400000, days_from_civil(10000, 1, 1) * 86400000
    inside = lo <= want_ms < hi
    for n_value in (float(n), int(n)):
        g['n'] = n_value
        out = {key: impl.evaluate_expression(e, {'globals': g}) for key, e in EXPRS.items()}
        ctx.states += 1
        if not inside:
            if any(v is not None for v in out.values()):
                ctx.fail('arith-range', f'd = {d}, n = {n}: {out}')
            continue
        days, rest = divmod(want_ms, 86400000)
        want = (*civil_from_days(days), rest // 3600000, rest // 60000 % 60, rest // 1000 % 60, rest % 1000)
        for key in ('d + n', 'n + d'):
            if not isinstance(out[key], DT) or parts_of(out[key]) != want:
                ctx.fail('arith-add', f'd = {d}, n = {n_value!r}: {key} is {out[key]!r}, expected {want}')
        for key, w in (('(d + n) - d', n), ('d - (d + n)', -n)):
            if isinstance(out[key], bool) or not isinstance(out[key], (int, float)) or out[key] != w:
                ctx.fail('arith-sub', f'd = {d}, n = {n_value!r}: {key} is {out[key]!r}')
        if not isinstance(out['(d + n) + -n'], DT) or to_ms(out['(d + n) + -n']) != to_ms(d):
            ctx.fail('arith-back', f'd = {d}, n = {n_value!r}: (d + n) + -n is {out["(d + n) + -n"]!r}')


def gen_arith(deep):
    def gen():
        for i in range(len(DATES)):
            yield ['list', i]
            for start in range(-5000, 5000, 500):
                yield ['small', i, start]
            for k in range(1, 13 if deep else 7):
                yield ['grid', i, k]
    return gen


def run_arith(case, ctx):
    d = DATES[case[1]]
    if case[0] == 'list':
        for n in NS + [-x for x in NS]:
            check_arith(ctx, d, n)
        for e in DATES:
            g = dict(impl.lib(), d=d, n=e)
            got = impl.evaluate_expression(expr_bin('-', D, N), {'globals': g})
            if got != to_ms(d) - to_ms(e):
                ctx.fail('arith-sub', f'{d} - {e} is {got!r}, expected {to_ms(d) - to_ms(e)}')
    elif case[0] == 'small':
        for n in range(case[2], case[2] + 500):
            check_arith(ctx, d, n)
    else:
        # a grid over +-1e12 with a stride that meets every residue
        stride = 1000000007 * case[2]
        for n in range(-10 ** 12, 10 ** 12, max(stride, 10 ** 12 // 400 + case[2])):
            check_arith(ctx, d, n)
    ctx.outcome(case)


# microsecond-precision, date and aware host values
HOSTS = [DT(2024, 2, 29, 1, 2, 3, 4567), DT(2024, 2, 29, 23, 59, 59, 999999), datetime.date(2024, 2, 29), datetime.date(1999, 12, 31), DT(2024, 6, 1, 12, tzinfo=datetime.timezone.utc), DT(2024, 1, 1, 0, 0, 0, 123456, tzinfo=datetime.timezone(datetime.timedelta(hours=-5))),
         DT(2024, 7, 1, 6, 30, 0, 1000, tzinfo=datetime.timezone(datetime.timedelta(hours=5, minutes=45)))]


def gen_hosts(name):
    def gen():
        for i in range(len(HOSTS)):
            yield [name, i]
    return gen


def run_hosts(case, ctx):
    name, ix = case
    value = HOSTS[ix]
    if isinstance(value, DT):
        d = local_of(name, value.astimezone(datetime.timezone.utc).replace(tzinfo=None)) if value.tzinfo is not None else value
    else:
        d = DT(value.year, value.month, value.day)
    if parts_of(value) != (d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond // 1000):
        ctx.fail('host', f'TZ={name}: the parts of {value!r} are {parts_of(value)}')
    lib = impl.lib()
    for n in NS:
        g = dict(lib, d=value, n=float(n))
        got = impl.evaluate_expression(EXPRS['(d + n) - d'], {'globals': g})
        ctx.states += 1
        if got != n:
            ctx.fail('host', f'TZ={name}: ({value!r} + {n}) - it is {got!r}')
    for form, plain in ((lib['datetimeISOFormat']([value], None), lib['datetimeISOFormat']([d], None)), (lib['datetimeISOFormat']([value, True], None), d.date().isoformat())):
        if form != plain:
            ctx.fail('host', f'TZ={name}: {value!r} is formatted {form!r}, its local datetime {plain!r}')
    if offsets(name, d):
        back = lib['datetimeISOParse']([lib['datetimeISOFormat']([value], None)], None)
        if back != d.replace(microsecond=d.microsecond // 1000 * 1000):
            ctx.fail('host', f'TZ={name}: {value!r} does not survive ISO text: {back!r}')
    ctx.outcome((case, d))


# ---------------------------------------------------------------------------------------------------------------
# ISO texts and near misses
# ---------------------------------------------------------------------------------------------------------------

STRICT_DATE = re.compile(r'(\d{4})-(\d\d)-(\d\d)', re.ASCII)
STRICT = re.compile(r'(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(?:\.(\d{1,6}))?(?:(Z)|([+-])(\d\d):(\d\d))', re.ASCII)
# a generous superset of ISO 8601 spellings
GREY = re.compile(r'[+-]?\d{4,6}-?(\d\d(-?\d\d)?|\d{3}|W\d\d(-?\d)?)?([Tt ]\d\d(:?\d\d(:?\d\d)?)?([.,]\d+)?)?([Zz]|[+\-\u2212]\d\d(:?\d\d(:?\d\d(\.\d+)?)?)?)?', re.ASCII)


def iso_verdict(name, text):
    """('value', local datetime), ('grey', None) or ('null', None)."""
    m = STRICT_DATE.fullmatch(text)
    if m:
        y, mo, d = map(int, m.groups())
        if 1 <= y and 1 <= mo <= 12 and 1 <= d <= month_days(y, mo):
            return 'value', DT(y, mo, d)
        return 'null', None
    m = STRICT.fullmatch(text)
    if m:
        y, mo, d, h, mi, s = (int(m.group(i)) for i in range(1, 7))
        oh, om = int(m.group(10) or 0), int(m.group(11) or 0)
        if not (1 <= y and 1 <= mo <= 12 and 1 <= d <= month_days(y, mo)) or mi > 59 or h > 24 or s > 60 or om > 59:
            return 'null', None
        if h == 24 or s == 60 or oh > 23:
            return 'grey', None
        frac = (m.group(7) or '').ljust(6, '0')
        off = (1 if m.group(9) != '-' else -1) * (oh * 60 + om)
        try:
            utc = DT(y, mo, d, h, mi, s, int(frac[:3]) * 1000) - datetime.timedelta(minutes=off)
            return 'value', local_of(name, utc)
        except OverflowError:
            return 'grey', None
    return ('grey' if GREY.fullmatch(text) else 'null'), None


def check_text(ctx, name, text):
    kind, want = iso_verdict(name, text)
    g = dict(impl.lib(), t=text)
    got = impl.evaluate_expression({'function': {'name': 'datetimeISOParse', 'args': [{'variable': 't'}]}}, {'globals': g})
    direct = impl.lib()['datetimeISOParse']([text], None)  # must not raise
    ctx.states += 1
    if got is not None and not isinstance(got, DT) or got != direct:
        ctx.fail('iso-text', f'TZ={name}: datetimeISOParse({text!r}) is {got!r}')
    if kind == 'null' and got is not None:
        ctx.fail('iso-text', f'TZ={name}: datetimeISOParse({text!r}) is {got!r}, expected null')
    if kind == 'value':
        # digits below the millisecond may be rounded
        if got is None or got != want and not (len(text) > 24 and 0 < (got - want) / MS <= 1):
            ctx.fail('iso-text', f'TZ={name}: datetimeISOParse({text!r}) is {got!r}, expected {want}')
    ctx.outcome((kind, got is None))


SEEDS = ['2024-02-29', '1999-12-31', '2024-02-29T10:20:30Z', '2024-02-29T10:20:30.4Z', '2024-12-31T23:59:59.999+05:45', '2000-01-01T00:00:00-12:00', '2024-03-10T07:30:00.123456-00:00', '0001-01-01', '9999-12-31', '0001-01-01T00:00:00+14:00', '9999-12-31T23:59:59.999-12:00',
         '0100-06-15T01:02:03.004005Z']
EDIT = '0123456789-:.TZ+, tzW/\n\u0661\uff11a'
ODD = ['', ' ', 'T', 'Z', '-', '2024', '2024-02', '2024-2-29', '24-02-29', '2024/02/29', '20240229', '2024-W09-4', '2024-060', '2024-02-29T', '2024-02-29T10', '2024-02-29T10:20', '2024-02-29T10:20Z', '2024-02-29 10:20:30Z', '2024-02-29T10:20:30',
       '2024-02-29T24:00:00Z', '2024-02-29T23:59:60Z', '2024-02-29T10:20:30+05', '2024-02-29T10:20:30+0530', '2024-02-29T10:20:30+24:00', '2024-02-29T10:20:30+23:59', '2024-02-29T10:20:30+00:60', '2024-02-29T10:20:30.1234567Z', '2024-02-29T10:20:30.Z',
       '2024-02-29T10:20:30,5Z', '2024-02-29Z', '2024-02-29\n', '\n2024-02-29', ' 2024-02-29', '2024-02-29 ', '2024-02-29T10:20:30Z\n', 'x2024-02-29', '2024-02-29x', '2024-02-29T10:20:30Zx', '2024-02-29T10:20:30ZZ', '0000-01-01', '0000-00-00', '0000-01-01T00:00:00Z',
       '10000-01-01', '+12024-01-01', '-2024-01-01', 'null', 'today', 'Thu, 29 Feb 2024', '2024-02-29T10:20:30+05:30:15', '\uff12\uff10\uff12\uff14-01-01', '2024-01-01T00:00:00\u221205:00', '2024-01-01T00:00:00.\u0661Z', '9' * 400, '2024-01-01' * 2, '1e3-01-01',
       '2024-01-0a', '2024-0a-01', 'a024-01-01', '2024-01-01T1a:00:00Z', '2024-01-01T00:00:00.12aZ']


def gen_texts(name):
    def gen():
        for i in range(len(SEEDS)):
            yield ['edit', name, i]
        yield ['odd', name]
        for y in ('2023', '2024', '1900', '2000', '0000', '0001', '9999'):
            for mo in range(0, 21):
                yield ['calendar', name, y, mo]
        for h in range(0, 100):
            yield ['clock', name, h]
    return gen


def run_texts(case, ctx):
    kind, name = case[0], case[1]
    if kind == 'edit':
        text = SEEDS[case[2]]
        check_text(ctx, name, text)
        for i in range(len(text) + 1):
            check_text(ctx, name, text[:i])
            check_text(ctx, name, text[i:])
            check_text(ctx, name, text[:i] + text[i + 1:])
            check_text(ctx, name, text[:i] + text[i + 2:])
            for c in EDIT:
                check_text(ctx, name, text[:i] + c + text[i:])
                check_text(ctx, name, text[:i] + c + text[i + 1:])
                for j in range(i + 1, min(i + 4, len(text))):
                    check_text(ctx, name, text[:i] + c + text[i + 1:j] + c + text[j + 1:])
    elif kind == 'odd':
        for text in ODD:
            check_text(ctx, name, text)
    elif kind == 'calendar':
        y, mo = case[2], case[3]
        for d in range(0, 41):
            check_text(ctx, name, f'{y}-{mo:02d}-{d:02d}')
            for rest in ('T00:00:00Z', 'T23:59:59.999Z', 'T12:00:00+05:45', 'T12:00:00-12:00'):
                check_text(ctx, name, f'{y}-{mo:02d}-{d:02d}{rest}')
    else:
        h = case[2]
        for v in range(0, 100):
            check_text(ctx, name, f'2024-02-29T{h:02d}:{v:02d}:00Z')
            check_text(ctx, name, f'2024-02-29T12:{h:02d}:{v:02d}.5Z')
            check_text(ctx, name, f'2024-02-29T12:00:00+{h:02d}:{v:02d}')
            check_text(ctx, name, f'2024-02-29T12:00:00.000-{h:02d}:{v:02d}')


# ---------------------------------------------------------------------------------------------------------------
# scripts
# ---------------------------------------------------------------------------------------------------------------

SCRIPT = '''d = datetimeNew(y, mo, da, h, mi, s, ms)
t = datetimeISOFormat(d)
ok1 = datetimeISOParse(t) == d
ok2 = (d + n) - d == n
ok3 = (n + d) == (d + n) && (d + n) > d == (n > 0)
ok4 = datetimeNew(datetimeYear(d), datetimeMonth(d), datetimeDay(d), datetimeHour(d), datetimeMinute(d), datetimeSecond(d), datetimeMillisecond(d)) == d
ok5 = datetimeISOParse(datetimeISOFormat(d, true)) == datetimeNew(datetimeYear(d), datetimeMonth(d), datetimeDay(d))
ok6 = datetimeISOFormat(datetimeISOParse(t)) == t
ok7 = datetimeNew(y, mo, da, h, mi, s, ms + n) == d + n
ok8 = datetimeISOParse(jsonParse(jsonStringify(arrayNew(t)))) == null
'''


def gen_script(name):
    def gen():
        for y in (100, 1900, 1999, 2024, 2038, 9000):
            for mo in (-30, 0, 2, 3, 11, 12, 40):
                yield [name, y, mo]
    return gen


_SCRIPT = []


def run_script(case, ctx):
    name, y, mo = case
    if not _SCRIPT:
        _SCRIPT.append(impl.parse_script(SCRIPT))
    for da in (-40, 1, 10, 29, 31, 366):
        for h, mi, s, ms in ((0, 0, 0, 0), (1, 30, 0, 1), (2, 30, 15, 500), (25, 61, 61, 1001), (-1, -1, -1, -1), (5000, -5000, 5000, -5000)):
            parts = normalise(y, mo, da, h, mi, s, ms)
            if parts is None or parts[0] < 100:  # datetimeNew takes years from 100
                continue
            d = DT(*parts[:6], parts[6] * 1000)
            offs = offsets(name, d)
            if not offs or any(o % 60 for o in offs):
                continue
            for n in (1, 86400000, -3600000, 999999999999):
                out = impl.run_script(_SCRIPT[0], {'y': float(y), 'mo': float(mo), 'da': float(da), 'h': float(h), 'mi': float(mi), 's': float(s), 'ms': float(ms), 'n': float(n)})
                ctx.states += 1
                bad = [k for k in ('ok1', 'ok2', 'ok3', 'ok4', 'ok5', 'ok6', 'ok7', 'ok8') if out.globals.get(k) is not True]
                # ok5 reads back midnight, which may not exist; a date text has no time zone, so it does
                if bad or out.globals['d'] != d:
                    ctx.fail('script', f'TZ={name}: datetimeNew({y}, {mo}, {da}, {h}, {mi}, {s}, {ms}), n = {n}: d is {out.globals.get("d")!r}, text {out.globals.get("t")!r}, failing {bad}')
    ctx.outcome(case)


def spaces(tier):
    deep = tier == 'thorough'
    out = [
        Space('new-days', gen_new_days(deep), run_new_days, f'datetimeNew: {len(YEARS)} years x months -30..40 x {len(DAYS)} days, all days -10000..10000 of 8 (90) months, every year 100..9000'),
        Space('new-time', gen_new_time(deep), run_new_time, 'datetimeNew: every time component -5000..5000 alone, products and pairs of boundary components, huge components'),
        Space('arith', gen_arith(deep), run_arith, f'{len(DATES)} datetimes x all offsets -5000..5000 ms, boundary offsets and a grid over +-1e12 ms'),
    ]
    for name in ZONES + (MORE_ZONES if deep else []):
        tag = name.replace('/', '_').replace('+', 'p')
        setup = set_tz(name)
        out.append(Space('zone-' + tag, gen_zone(name, deep), run_zone, f'TZ={name}: days x times of selected years, all transitions +-200 minutes, all milliseconds, all centuries', setup=setup))
        out.append(Space('texts-' + tag, gen_texts(name), run_texts, f'TZ={name}: ISO texts, one- and two-character edits, all calendar and clock fields', setup=setup))
        out.append(Space('hosts-' + tag, gen_hosts(name), run_hosts, f'TZ={name}: microsecond, date and aware host values', setup=setup))
        out.append(Space('script-' + tag, gen_script(name), run_script, f'TZ={name}: script identities', setup=setup))
    return out
