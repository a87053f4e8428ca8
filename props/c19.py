"""C19: dates and times keep their point in time."""
from datetime import date, datetime, time, timedelta, timezone
from symx.sx import Registry
from jsonclasses import types
from props.util import PARAM_FORMS, graph, klass, param, persisted, vexc

H = Registry()
BOUNDS = {
    'dates': 'symbolic years 1..9998, months, '
             'days, hours, minutes, seconds, microseconds',
    'zones': 'none, UTC, symbolic whole minutes -23:59..+23:59',
    'strings': 'ISO strings with symbolic digits: date, date and time, with '
               'seconds, milliseconds, microseconds, Z, offset; strings with '
               'one symbolic character changed',
    'modifiers': 'date, datetime, before, after, tobo*, tonext*, fmtd, '
                 'tscreated, tsupdated, umininterval'}
ASSUMPTIONS = ['The datetime module is executed from its Python source '
               '(_pydatetime), instrumented like the library.',
               '(It also takes signs and spaces for digits, which the C '
               'module refuses: such strings are not generated.)',
               'A datetime without time zone is in UTC.']
DIG = '0123456789'


def days(sx, y, m):
    """The number of days in a month, by its own definition."""
    leap = sx.And(y % 4 == 0, sx.Or(y % 100 != 0, y % 400 == 0))
    return sx.Ite(m == 2, sx.Ite(leap, 29, 28),
                  sx.Ite(sx.Or(*[m == k for k in (4, 6, 9, 11)]), 30, 31))


YEARS = [1, 1900, 2000, 2023, 2024, 9998]
MORE = [2, 4, 100, 399, 400, 401, 1582, 1899, 1904, 1969, 1970, 1999, 2001,
        2025, 2037, 2038, 2100, 2400, 9996, 9997]


def ymd(sx, n, year=None, ends=False):
    """A symbolic date. Calendar arithmetic for unknown years is beyond the
    solver: harnesses that need it fix the year, or take days at the ends of
    months (ends)."""
    y = year or sx.int(n + '.y', 1, 9998)
    if ends:
        m, d = sx.pick(n + '.md', ENDS)
    else:
        m, d = sx.int(n + '.m', 1, 12), sx.int(n + '.d', 1, 31)
    sx.assume(d <= days(sx, y, m))
    return y, m, d


def hms(sx, n):
    return (sx.int(n + '.h', 0, 23), sx.int(n + '.mi', 0, 59),
            sx.int(n + '.s', 0, 59), sx.int(n + '.us', 0, 999999))


def flat(v):
    t = (v.year, v.month, v.day)
    if isinstance(v, datetime):
        t += (v.hour, v.minute, v.second, v.microsecond)
    return t


def fields_are(sx, v, t):
    return sx.And(*[a == b for a, b in zip(flat(v), t)])


TOBO = ['toboyear', 'tobomon', 'toboday', 'tobohour', 'tobomin', 'tobosec']


@H(configs=[(m, k) for m in TOBO for k in ('datetime', 'date')])
def tobo(sx, c):
    """The beginning of the year, month, day, hour, minute or second."""
    m, kind = c
    t = ymd(sx, 't')
    if kind == 'datetime':
        t += hms(sx, 't')
        zone = sx.pick('zone', [None, timezone.utc])
        v = datetime(*t, tzinfo=zone)
    else:
        v = date(*t)
    K = klass({'f': getattr(getattr(types, kind), m)})
    r = K(f=v).f
    n = TOBO.index(m) + 1
    want = t[:n] + (1, 1, 1, 0, 0, 0, 0)[n:]
    want = want[:len(t)]
    sx.check(type(r) is type(v), 'the type stays')
    sx.check(fields_are(sx, r, want), 'the beginning of the unit')
    if kind == 'datetime':
        sx.check(r.tzinfo is v.tzinfo, 'the time zone stays')


NEXT = ['tonextyear', 'tonextmon', 'tonextday', 'tonexthour', 'tonextmin',
        'tonextsec']


def carry(sx, t, n):
    """The fields of the next year (n=1), month (2) ... second (6)."""
    full = list(t) + [0] * (7 - len(t))
    low = (1, 1, 1, 0, 0, 0, 0)
    full = full[:n] + list(low[n:])
    full[n - 1] = full[n - 1] + 1
    tops = {6: 59, 5: 59, 4: 23, 3: days(sx, t[0], t[1]), 2: 12}
    for k in range(n, 1, -1):
        over = full[k - 1] > tops[k]
        full[k - 2] = full[k - 2] + sx.Ite(over, 1, 0)
        full[k - 1] = sx.Ite(over, low[k - 1], full[k - 1])
    return tuple(full[:len(t)])


ENDS = [(1, 1), (2, 28), (2, 29), (6, 30), (12, 31)]


@H(configs=[(m, k, y) for m in NEXT for k in ('datetime', 'date')
            for y in ([None] if m in NEXT[:2] else YEARS)],
   thorough=[(m, k, y) for m in NEXT for k in ('datetime', 'date')
             for y in ([None] if m in NEXT[:2] else YEARS + MORE)])
def tonext(sx, c):
    """The next year, month, day, hour, minute or second begins."""
    m, kind, year = c
    n = NEXT.index(m) + 1
    t = ymd(sx, 't', year, n > 3 or n > 2 and kind == 'datetime' and
            sx.tier == 'quick')
    if kind == 'datetime':
        t += hms(sx, 't')
        v = datetime(*t, tzinfo=sx.pick('zone', [None, timezone.utc]))
        want = carry(sx, t, n)
    else:
        v = date(*t)
        want = carry(sx, t, n) if n <= 3 else t
    K = klass({'f': getattr(getattr(types, kind), m)})
    r = K(f=v).f
    sx.check(type(r) is type(v), 'the type stays')
    sx.check(fields_are(sx, r, want), 'the beginning of the next unit')
    if kind == 'datetime':
        sx.check(r.tzinfo is v.tzinfo, 'the time zone stays')


def dig(sx, n, k):
    return sx.str(n, k, DIG, minlen=k)


def good_date(sx, y, m, d):
    return sx.And(y >= 1, m >= 1, m <= 12, d >= 1, d <= days(sx, y, m))


TAILS = ['', 'T00:00:00', 'T00:00:00.000Z', 'T23:59:59.999Z', ' 12:00',
         'T11:30:00+05:00']


@H(configs=['init', 'set', 'list', 'dict'])
def date_string(sx, where):
    """A date string is its year, month and day, or is refused."""
    ys, ms, ds = dig(sx, 'y', 4), dig(sx, 'm', 2), dig(sx, 'd', 2)
    s = ys + '-' + ms + '-' + ds + sx.pick('tail', TAILS)
    K = klass({'f': types.date, 'l': types.listof(types.date),
               'd': types.dictof(types.date)})
    box = []

    def make():
        if where == 'init':
            box.append(K(f=s).f)
        elif where == 'set':
            o = persisted(K())
            o.set(f=s)
            box.append(o.f)
        elif where == 'list':
            box.append(K(l=[s]).l[0])
        else:
            box.append(K(d={'k': s}).d['k'])
    e = vexc(make)
    y, m, d = int(ys), int(ms), int(ds)
    sx.check(sx.Iff(e is None, good_date(sx, y, m, d)), 'a date of the '
             'calendar is accepted, another is a validation error')
    if box:
        sx.check(type(box[0]) is date and fields_are(sx, box[0], (y, m, d)),
                 'the date is the one of the string')
        j = K(f=box[0]).tojson()['f']
        sx.check(j == s[:10] + 'T00:00:00.000Z', 'output is the date at '
                 'midnight')


TIMES = ['h', 'hm', 'hms', 'hms3', 'hms6']


@H(configs=[(t, z) for t in TIMES for z in ('', 'Z', 'off')
            if (t, z) != ('h', 'off')])
def datetime_string(sx, c):
    """A datetime string is its point in time, or is refused."""
    form, zone = c
    K = klass({'f': types.datetime, 'l': types.listof(types.datetime)})
    off = 0
    thorough = sx.tier == 'thorough'
    if zone == 'off' or form in ('h', 'hm') and not thorough:
        dt = sx.pick('ymd', [(2000, 2, 28), (2020, 12, 31), (2021, 1, 1)])
        ymds = '%04d-%02d-%02d' % dt
    else:
        ys, ms, ds = dig(sx, 'y', 4), dig(sx, 'm', 2), dig(sx, 'd', 2)
        ymds = ys + '-' + ms + '-' + ds
        dt = int(ys), int(ms), int(ds)
    hs, mis, ss, us = '00', '00', '00', '000000'
    hs = dig(sx, 'h', 2)
    t = hs
    if form != 'h':
        mis = dig(sx, 'mi', 2)
        t = t + ':' + mis
    if form[:3] == 'hms':
        ss = dig(sx, 's', 2)
        t = t + ':' + ss
    if form == 'hms3':
        us = dig(sx, 'us', 3)
        t = t + '.' + us
        us = us + '000'
    if form == 'hms6':
        us = dig(sx, 'us', 6)
        t = t + '.' + us
    if zone == 'off':
        sign = sx.pick('sign', ['+', '-'])
        oh, om = sx.pick('off', [('00', '00'), ('05', '30'), ('23', '59')])
        off = (int(oh) * 60 + int(om)) * (1 if sign == '+' else -1)
        t = t + sign + oh + ':' + om
    elif zone:
        t = t + 'Z'
    s = ymds + ('T' if zone == 'Z' else sx.pick('sep', ['T', ' '])) + t
    box = []
    if form == 'hms' and sx.bool('inlist'):
        e = vexc(lambda: box.append(K(l=[s]).l[0]))
    else:
        e = vexc(lambda: box.append(K(f=s).f))
    h, mi, sec, u = int(hs), int(mis), int(ss), int(us)
    ok = sx.And(good_date(sx, *dt), h <= 23, mi <= 59, sec <= 59)
    sx.check(sx.Iff(e is None, ok), 'a time of the calendar is accepted, '
             'another is a validation error')
    if not box:
        return
    r = box[0]
    sx.check(type(r) is datetime and r.utcoffset() == timedelta(0), 'the '
             'datetime is in UTC')
    if zone != 'off':
        sx.check(fields_are(sx, r, (*dt, h, mi, sec, u)), 'the time is the '
                 'one of the string')
    else:
        mins = h * 60 + mi - off
        day, mins = mins // 1440, mins % 1440
        want = datetime(*dt, tzinfo=timezone.utc).toordinal() + day
        sx.check(sx.And(r.toordinal() == want, r.hour == mins // 60,
                        r.minute == mins % 60, r.second == sec,
                        r.microsecond == u), 'the time is the one of the '
                 'string, in UTC')
        return
    j = K(f=r).tojson()['f']
    pad = ymds + 'T' + hs + ':' + mis + ':' + ss + '.' + us[:3] + 'Z'
    sx.check(j == pad, 'output is the time in UTC with milliseconds')
    r2 = K(f=j).f
    sx.check(sx.And(r2.year == r.year, r2.month == r.month, r2.day == r.day,
                    r2.hour == r.hour, r2.minute == r.minute,
                    r2.second == r.second, r2.microsecond ==
                    r.microsecond // 1000 * 1000), 'output read back is the '
             'same time to the millisecond')


def zone_of(sx, n, wide=False):
    """None, UTC, or a fixed offset; with its minutes east of UTC."""
    mins = sx.pick(n + '.zone', [None, 0, 330, -480] + (
        [-1439, 1439] if wide else []))
    return (None if mins is None else timezone.utc if mins == 0 else
            timezone(timedelta(minutes=mins))), mins or 0


@H(configs=['root', 'list', 'dict', 'obj'])
def datetime_output(sx, where):
    """A datetime of any zone is output as its time in UTC."""
    g = graph()
    K = klass({'f': types.datetime, 'l': types.listof(types.datetime),
               'd': types.dictof(types.datetime)}, 'C19K', g=g)
    P = klass({'o': types.objof('C19K')}, 'C19P', g=g)
    z, off = zone_of(sx, 't', True)
    dt = sx.pick('ymd', [(2000, 2, 28), (2020, 12, 31), (2021, 1, 1)])
    h, mi, s, us = hms(sx, 't')
    v = datetime(*dt, h, mi, s, us, tzinfo=z)
    j = {'root': lambda: K(f=v).tojson()['f'],
         'list': lambda: K(l=[v]).tojson()['l'][0],
         'dict': lambda: K(d={'k': v}).tojson()['d']['k'],
         'obj': lambda: P(o=K(f=v)).tojson()['o']['f']}[where]()
    mins = h * 60 + mi - off
    day = date.fromordinal(date(*dt).toordinal() + mins // 1440)
    mins = mins % 1440
    want = '%04d-%02d-%02dT%02d:%02d:%02d.%03dZ' % (
        day.year, day.month, day.day, mins // 60, mins % 60, s, us // 1000)
    sx.check(j == want, 'the output is the time in UTC')


@H(configs=['date', 'datetime'])
def malformed(sx, kind):
    """One character of a date string replaced: a date or refused."""
    s = '2021-05-09' if kind == 'date' else '2021-05-09T08:07:06.543Z'
    i = sx.choice('at', len(s))
    c = sx.str('c', 1, '09aWTZ-:.é', minlen=1)
    s = s[:i] + c + s[i + 1:]
    K = klass({'f': getattr(types, kind)})
    box = []
    e = vexc(lambda: box.append(K(f=s).f))
    digit = sx.Or(c == '0', c == '9')
    if e is None:
        sx.check(isinstance(box[0], date), 'what is accepted is a date')
        if i in (0, 1, 2, 3, 5, 6, 8, 9):
            sx.check(sx.Or(digit, c == 'W'), 'letters in place of digits are '
                     'refused')
    elif kind == 'datetime' and i in (11, 12, 14, 15, 17, 18, 20, 21, 22):
        h = sx.Not(digit)
        if i in (11, 14, 17):
            h = sx.Or(h, c == '9')
        sx.check(h, 'other times are accepted')


POINTS = ['date', 'naive', 'aware']


@H(configs=[(m, v, p) for m in ('before', 'after') for v in POINTS
            for p in POINTS])
def bound(sx, c):
    """before and after compare points in time."""
    m, vk, pk = c

    def moment(n, kind):
        t = sx.pick(n + '.day', [(2020, 2, 29), (2020, 3, 1), (2021, 1, 1)])
        if kind == 'date':
            return date(*t), (date(*t).toordinal() * 1440, 0)
        h, mi, s = (sx.int(n + '.h', 0, 23), sx.int(n + '.mi', 0, 59),
                    sx.int(n + '.s', 0, 59))
        z, off = zone_of(sx, n) if kind == 'aware' else (None, 0)
        if kind == 'aware' and z is None:
            z = timezone.utc
        return datetime(*t, h, mi, s, tzinfo=z), (
            date(*t).toordinal() * 1440 + h * 60 + mi - off, s)
    v, (vm, vs) = moment('v', vk)
    p, (pm, ps) = moment('p', pk)
    form = sx.pick('form', PARAM_FORMS if vk == pk == 'date' else ['const'])
    base = types.date if vk == 'date' else types.datetime
    K = klass({'f': getattr(base, m)(param(form, p))})
    e = vexc(lambda: K(f=v).validate())
    less = sx.Or(vm < pm, sx.And(vm == pm, vs < ps))
    same = sx.And(vm == pm, vs == ps)
    want = less if m == 'before' else sx.And(sx.Not(less), sx.Not(same))
    sx.check(sx.Iff(e is None, want), f'accepted exactly if {m} the point')


@H(configs=['date', 'datetime', 'string', 'datestring'])
def formatted(sx, kind):
    """fmtd writes the value in the format, in output only."""
    K = klass({'f': (types.datetime if kind in ('datetime', 'string') else
                     types.date).fmtd('%Y/%m/%d')})
    t = sx.pick('t', [(1999, 12, 31), (2020, 2, 29), (2021, 1, 1)])
    v = {'date': lambda: date(*t), 'datetime': lambda: datetime(*t, 23, 59),
         'string': lambda: '%04d-%02d-%02dT23:59:00.000Z' % t,
         'datestring': lambda: '%04d-%02d-%02d' % t}[kind]()
    o = K(f=v)
    sx.check(o.tojson()['f'] == '%04d/%02d/%02d' % t, 'output in the format')
    sx.check(isinstance(o.f, date) and fields_are(sx, o.f, t), 'the value '
             'itself is not changed')


@H(configs=[None])
def stamps(sx):
    """tscreated is set once, tsupdated whenever a changed object is saved."""
    K = klass({'a': types.int, 'c': types.datetime.tscreated,
               'u': types.datetime.tsupdated})
    t0 = datetime.now(timezone.utc)
    o = K(a=1)
    t1 = datetime.now(timezone.utc)
    sx.check(t0 <= o.c <= t1 and t0 <= o.u <= t1, 'new objects get the '
             'current time')
    o.save()
    persisted(o)
    c, u = o.c, o.u
    x = sx.int('x', 0, 2)
    o.set(a=x)
    o.save()
    sx.check(o.c is c or o.c == c, 'tscreated stays')
    sx.check(sx.Iff(x == 1, o.u is u), 'tsupdated changes when a change is '
             'saved')
    sx.check(o.u.tzinfo is not None and u <= o.u <= datetime.now(
        timezone.utc), 'to the current time')
    j = o.tojson()
    sx.check(K(c=j['c']).c.utcoffset() == timedelta(0), 'output can be read')


@H(configs=['naive', 'aware'])
def interval(sx, kind):
    """umininterval refuses a new value less than the interval later."""
    z = timezone.utc if kind == 'aware' else None
    K = klass({'f': types.datetime.umininterval(timedelta(minutes=10))})

    def at(n):
        m = sx.int(n, 0, 59)
        return datetime(2021, 1, 1, 5, m, tzinfo=z), m
    (a, ma), (b, mb) = at('a'), at('b')
    o = persisted(K(f=a))
    o.set(f=b)
    ok = vexc(lambda: o.validate()) is None
    sx.check(sx.Iff(ok, sx.Or(mb >= ma + 10, ma == mb)), 'accepted exactly if '
             'late enough or not changed')
    o = persisted(K())
    o.set(f=b)
    sx.check(vexc(lambda: o.validate()) is None, 'a first value is accepted')
    o = persisted(K(f=a))
    o.set(f=None)
    sx.check(vexc(lambda: o.validate()) is None, 'null is accepted')
