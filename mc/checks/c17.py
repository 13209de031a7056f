"""C17 dates, times and offsets keep the exact instant and use RFC3339."""
import datetime as dtm
import itertools
import json
import os
import re
import time
import warnings
import zoneinfo
from dataclasses import dataclass
from typing import Dict, List, Optional, Tuple, Union

import jsons
from core import Case
from lib import forked, merge

PROPERTY = 'C17'
ASSUMPTIONS = ['offsets are whole minutes (RFC3339 cannot express seconds), timedeltas stay below 2**33 seconds (272 years; a float cannot hold more), times have no tzinfo',
               'the local time at the first and the last day of the calendar is taken with the present offset, so those are only checked in zones without DST',
               'more than six fraction digits denote the instant cut to the microsecond; letters T and Z are upper case, the second 60 is excluded',
               'the oracle for zones from the tz database is Python\'s zoneinfo; for POSIX TZ strings an own evaluation of their rules']
UTC = dtm.timezone.utc
D, TD = dtm.datetime, dtm.timedelta
FORM = re.compile(r'(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(?:\.(\d+))?(Z|[+-]\d\d:\d\d)')
# Moments at which something rolls over.
MOMENTS = [(1, 1, 1, 0, 0, 0), (1, 12, 31, 23, 59, 59), (99, 6, 15, 12, 30, 31), (999, 12, 31, 23, 59, 59), (1000, 1, 1, 0, 0, 0), (1582, 10, 15, 1, 2, 3),
           (1900, 2, 28, 23, 59, 59), (1969, 12, 31, 23, 59, 59), (1970, 1, 1, 0, 0, 0), (2000, 2, 29, 10, 20, 30), (2004, 2, 29, 0, 0, 1),
           (2038, 1, 19, 3, 14, 8), (2100, 3, 1, 0, 0, 0), (9999, 1, 1, 0, 0, 0), (9999, 12, 31, 23, 59, 59)]
MICROS = [0, 1, 10, 999999, 123456, 500000]
ZONES = ['Europe/Amsterdam', 'Europe/London', 'Europe/Dublin', 'America/New_York', 'America/St_Johns', 'America/Sao_Paulo', 'Asia/Kolkata', 'Asia/Kathmandu', 'Asia/Tehran',
         'Australia/Lord_Howe', 'Australia/Adelaide', 'Pacific/Chatham', 'Pacific/Apia', 'Pacific/Kiritimati', 'Africa/Casablanca', 'Africa/Monrovia', 'Asia/Pyongyang',
         'America/Caracas', 'Antarctica/Troll', 'UTC', 'GMT', 'Etc/GMT+12', 'Etc/GMT-14', 'Europe/Moscow', 'America/Anchorage', 'Africa/Windhoek']


def BOUNDS(tier):
    th = tier == 'thorough'
    return {'offsets': 'all 2879 whole minutes x %d moments x %d microseconds' % (len(MOMENTS), len(MICROS)),
            'days': 'every day of %s' % ('0001-9999' if th else '%d years' % len(years(tier))), 'seconds': 'every second of a day',
            'fractions': 'all digit strings of up to %d digits, all over {0,4,5,9} of up to %d, patterns up to 30' % ((5, 8) if th else (4, 6)),
            'zones': '%s of the tz database, every transition 1970-2037 x moments around it x fold' % ('all' if th else len(ZONES)),
            'process time zones': [z[0] for z in POSIX] + ['every %s of the years %s' % ('15 minutes' if th else 'half hour', posix_years(tier))],
            'microseconds': 'all 10**6' if th else 'all below 2000, all multiples of 1000 and their neighbours',
            'timedeltas': 'all sums of up to %d of +-(boundary units)' % (4 if th else 3)}


def years(tier):
    return [1, 4, 100, 400, 999, 1000, 1582, 1600, 1700, 1899, 1900, 1969, 1970, 1999, 2000, 2001, 2004, 2023, 2024, 2038, 2100, 9999]


def posix_years(tier):
    return [1971, 1999, 2000, 2021, 2024, 2037] if tier == 'thorough' else [2021]


# ------------------------------------------------------------------ arithmetic without datetime

def days_from_civil(y, m, d):
    y -= m <= 2
    era = (y if y >= 0 else y - 399) // 400
    yoe = y - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    doe = yoe * 365 + yoe // 4 - yoe // 100 + doy
    return era * 146097 + doe - 719468


def instant(y, m, d, h, mi, s, us, off):
    """Microseconds since the epoch; off in minutes."""
    return (days_from_civil(y, m, d) * 86400 + h * 3600 + mi * 60 + s - off * 60) * 10**6 + us


def parse(s):
    m = FORM.fullmatch(s) if isinstance(s, str) else None
    if not m:
        return None
    *f, frac, z = m.groups()
    f = [int(x) for x in f]
    off = 0 if z == 'Z' else int(z[1:3]) * 60 + int(z[4:6])
    if z[0] == '-':
        off = -off
    return f, int((frac or '0').ljust(6, '0')[:6]), off


def fields(d):
    return [d.year, d.month, d.day, d.hour, d.minute, d.second]


def fmt(f, us, off):
    s = '%04d-%02d-%02dT%02d:%02d:%02d' % tuple(f)
    if us:
        s += '.%06d' % us
    return s + fmt_off(off)


def fmt_off(off):
    return 'Z' if off == 0 else '%s%02d:%02d' % ('-' if off < 0 else '+', abs(off) // 60, abs(off) % 60)


def roundtrip(ctx, d, off, key, deep=False):
    """off: the offset in minutes that the datetime has by construction."""
    ctx.step(2)
    ctx.trace()
    try:
        s = jsons.dump(d)
    except Exception as err:
        ctx.fail('dump fails|' + key, 'dump(%r) raised %s: %s' % (d, type(err).__name__, err))
        return None
    p = parse(s)
    if p is None:
        ctx.fail('no RFC3339|' + key, 'dump(%r) is %r, which is no RFC3339 date-time' % (d, s))
        return None
    f, us, o = p
    if instant(*f, us, o) != instant(*fields(d), d.microsecond, off):
        ctx.fail('instant|' + key, 'dump(%r) is %r, which is %d us off' % (d, s, instant(*f, us, o) - instant(*fields(d), d.microsecond, off)))
        return None
    if o != off or f != fields(d) or us != d.microsecond:
        ctx.fail('offset|' + key, 'dump(%r) is %r: not its local time or offset' % (d, s))
        return None
    if d.tzinfo is UTC and not s.endswith('Z'):
        ctx.fail('Z|' + key, 'dump(%r) is %r, without Z' % (d, s))
    loaded(ctx, s, f, us, o, key)
    if deep:
        back = jsons.loads(jsons.dumps([d, {'k': d}]))
        if back != [d.replace(tzinfo=dtm.timezone(TD(minutes=off)))] + [{'k': d.replace(tzinfo=dtm.timezone(TD(minutes=off)))}]:
            ctx.fail('text|' + key, 'loads(dumps([%r, ..])) is %r' % (d, back))
    return s


def loaded(ctx, s, f, us, off, key, cls=D):
    ctx.step()
    try:
        b = jsons.load(s, cls) if cls else jsons.load(s)
    except Exception as err:
        ctx.fail('load fails|' + key, 'load(%r, datetime) raised %s: %s' % (s, type(err).__name__, err))
        return
    if type(b) is not D or b.tzinfo is None:
        ctx.fail('load type|' + key, 'load(%r) is %r' % (s, b))
    elif fields(b) != f or b.microsecond != us or b.utcoffset() != TD(minutes=off):
        ctx.fail('load value|' + key, 'load(%r) is %r' % (s, b))
    else:
        ctx.outcome('exact')


# ------------------------------------------------------------------ groups

def offsets(ctx, h):
    for m in range(h * 60, h * 60 + 60):
        for off in {m, -m}:
            tz = dtm.timezone(TD(minutes=off))
            for f in MOMENTS:
                for us in MICROS:
                    roundtrip(ctx, D(*f, us, tzinfo=tz), off, 'offset %+d' % off)
            ctx.state('offset', off)
            # A named zone of that offset, also with names that look like UTC.
            for name in ('X', 'UTC', 'UTC+00:00', 'Z', ''):
                roundtrip(ctx, D(2000, 2, 29, 10, 20, 30, 5, tzinfo=dtm.timezone(TD(minutes=off), name)), off, 'named %s' % name)
            f = [2021, 3, 4, 5, 6, 7]
            for z in (['Z', '+00:00', '-00:00'] if off == 0 else [fmt_off(off)]):
                for frac in ('', '.0', '.5', '.000001', '.1234567', '.999999999'):
                    s = '2021-03-04T05:06:07' + frac + z
                    us = int((frac[1:] or '0').ljust(6, '0')[:6])
                    for cls in (D, None):
                        loaded(ctx, s, f, us, off, 'load %s' % z, cls)
            roundtrip(ctx, D(2000, 2, 29, 10, 20, 30, 7, tzinfo=tz), off, 'deep', deep=True)


def fractions(ctx, prefix, n, alphabet):
    f = [2020, 2, 29, 23, 59, 59]
    for k in range(n + 1):
        for ds in itertools.product(alphabet, repeat=k):
            digits = prefix + ''.join(ds)
            us = int(digits.ljust(6, '0')[:6])
            for z in ('Z', '+05:30', '-00:30'):
                loaded(ctx, '2020-02-29T23:59:59.%s%s' % (digits, z), f, us, parse('2020-02-29T23:59:59' + z)[2], 'fraction of %d digits' % len(digits))
            ctx.state('fraction', digits)
            ctx.trace()


def long_fractions(ctx, lo, hi):
    for n in range(lo, hi):
        for d in ['9' * n, '0' * n, '0' * (n - 1) + '1', '1' + '0' * (n - 1), '4' * n, '5' * n] + ['0' * i + '5' + '0' * (n - i - 1) for i in range(n)] \
                + ['9' * i + '4' + '9' * (n - i - 1) for i in range(n)] + [''.join(p) * (n // 2) + '1' * (n % 2) for p in itertools.product('0123456789', repeat=2)]:
            us = int(d.ljust(6, '0')[:6])
            for z in ('Z', '+05:30', '-00:30'):
                for cls in (D, None):
                    loaded(ctx, '2020-02-29T23:59:59.%s%s' % (d, z), [2020, 2, 29, 23, 59, 59], us, parse('2020-02-29T23:59:59' + z)[2], 'fraction of %d digits' % n, cls)
            ctx.state('fraction', d)


def days(ctx, lo, hi):
    """Every day of the years lo..hi-1: dates, and datetimes at the edges of the day."""
    zs = ('Z', '+14:00', '-23:59', '+00:01')
    for y in range(lo, hi):
        d0 = dtm.date(y, 1, 1)
        n = 366 if y % 4 == 0 and (y % 100 or y % 400 == 0) else 365
        for k in range(n):
            d = dtm.date.fromordinal(d0.toordinal() + k)
            text = '%04d-%02d-%02d' % (d.year, d.month, d.day)
            ctx.step(2)
            s = jsons.dump(d)
            if s != text:
                ctx.fail('date', 'dump(%r) is %r' % (d, s))
            b = jsons.load(text, dtm.date)
            if type(b) is not dtm.date or b != d:
                ctx.fail('date load', 'load(%r, date) is %r' % (text, b))
            for hms, us in (((0, 0, 0), 0), ((23, 59, 59), 999999)):
                z = zs[k % 4]
                f = [d.year, d.month, d.day, *hms]
                loaded(ctx, '%sT%02d:%02d:%02d%s%s' % (text, *hms, '.%06d' % us if us else '', z), f, us, parse('2020-01-01T00:00:00' + z)[2], 'day')
                roundtrip(ctx, D(*f, us, tzinfo=UTC), 0, 'day')
            ctx.state('day', text)
            ctx.trace()


def seconds(ctx, h):
    for m, s in itertools.product(range(60), range(60)):
        f = [2021, 6, 30, h, m, s]
        loaded(ctx, '2021-06-30T%02d:%02d:%02d+01:00' % (h, m, s), f, 0, 60, 'second')
        roundtrip(ctx, D(*f, (h * 3600 + m * 60 + s) % 7 * 1001, tzinfo=UTC), 0, 'second')
        for us in (0, 1, 999999):
            a_time(ctx, h, m, s, us)
        ctx.state('second', h, m, s)


def a_time(ctx, h, m, s, us):
    ctx.step(2)
    ctx.trace()
    t = dtm.time(h, m, s, us)
    text = '%02d:%02d:%02d%s' % (h, m, s, '.%06d' % us if us else '')
    d = jsons.dump(t)
    if d != text:
        ctx.fail('time', 'dump(%r) is %r' % (t, d))
    b = jsons.load(text, dtm.time)
    if type(b) is not dtm.time or b != t or b.tzinfo is not None:
        ctx.fail('time load', 'load(%r, time) is %r' % (text, b))


def microseconds(ctx, lo, hi, dense):
    for us in range(lo, hi):
        if dense or us < 2000 or us % 1000 in (0, 1, 999) or us % 4099 == 0:
            a_time(ctx, 0, 0, 59, us)
            roundtrip(ctx, D(2021, 12, 31, 23, 59, 59, us, tzinfo=UTC), 0, 'microsecond')
            d = D(2021, 12, 31, 23, 59, 59, us, tzinfo=dtm.timezone(TD(minutes=-90)))
            s = jsons.dump(d, strip_microseconds=True)
            if s != '2021-12-31T23:59:59-01:30':
                ctx.fail('strip', 'dump(%r, strip_microseconds=True) is %r' % (d, s))
            if jsons.dump([{'a': d}], strip_microseconds=True) != [{'a': '2021-12-31T23:59:59-01:30'}]:
                ctx.fail('strip deep', 'dump([{a: %r}], strip_microseconds=True) keeps them' % d)
            ctx.state('us', us)


UNITS = [0, 1, 9, 10, 999, 10**3, 10**6 - 1, 10**6, 10**6 + 1, 59999999, 6 * 10**7, 36 * 10**8, 864 * 10**8 - 1, 864 * 10**8, 123456789, 999999999999,
         10**12, 2**31, 2**32, 2**40, 2**50, 2**52, 2**33 * 10**6 - 1, 10**15, 333333333333333, 123456789012345]


def timedeltas(ctx, first, n):
    seen = set()
    for k in range(n):
        for us in itertools.combinations_with_replacement(UNITS, k):
            for signs in itertools.product((1, -1), repeat=k):
                v = first + sum(u * s for u, s in zip(us, signs))
                if abs(v) < 2**33 * 10**6:
                    seen |= {v, -v}
    for v in sorted(seen):
        td = TD(microseconds=v)
        ctx.step(2)
        ctx.state('td', v)
        s = jsons.dump(td)
        if not isinstance(s, (int, float)) or isinstance(s, bool):
            ctx.fail('timedelta', 'dump(%r) is %r, no number' % (td, s))
            continue
        for b in (jsons.load(s, TD), jsons.loads(jsons.dumps(td), TD)):
            if type(b) is not TD or b != td:
                ctx.fail('timedelta load', '%r is dumped as %r and loaded as %r' % (td, s, b))
        ctx.trace()
    for v in (0, 1, -1, 7, 86400, 10**9, 0.5, -0.25, 1e-6):
        if jsons.load(v, TD) != TD(microseconds=round(v * 10**6)):
            ctx.fail('timedelta number', 'load(%r, timedelta) is %r' % (v, jsons.load(v, TD)))


# ------------------------------------------------------------------ zones

class Minimal(dtm.tzinfo):
    """Without a name, and it does not know about DST."""
    def __init__(self, off):
        self.off = off

    def utcoffset(self, dt):
        return TD(minutes=self.off)

    def dst(self, dt):
        return None


class Named(Minimal):
    name = None

    def __init__(self, off, name):
        self.off, self.name = off, name

    def tzname(self, dt):
        return self.name

    def dst(self, dt):
        return TD(0)


def nth_sunday(year, month, n):
    d = D(year, month, 1 + 7 * (n - 1))
    return d + TD(days=6 - d.weekday())


class Us(dtm.tzinfo):
    """As in the documentation of Python: an offset that depends on the moment, and a standard offset if there is none."""
    def __init__(self, std, name):
        self.std, self.name = TD(minutes=std), name

    def tzname(self, dt):
        return self.name + ('D' if self.dst(dt) else '')

    def utcoffset(self, dt):
        return self.std + self.dst(dt)

    def dst(self, dt):
        if dt is None or dt.tzinfo is None:
            return TD(0)
        start, end = nth_sunday(dt.year, 3, 2) + TD(hours=2), nth_sunday(dt.year, 11, 1) + TD(hours=2)
        dt = dt.replace(tzinfo=None)
        if start + TD(hours=1) <= dt < end - TD(hours=1):
            return TD(hours=1)
        if end - TD(hours=1) <= dt < end:
            return TD(0) if dt.fold else TD(hours=1)
        if start <= dt < start + TD(hours=1):
            return TD(hours=1) if dt.fold else TD(0)
        return TD(0)


def custom(ctx, kind, std=None):
    if kind == 'us':
        for std in [std]:
            for name in ('E', 'UTC'):
                tz = Us(std, name)
                for year in (1999, 2021, 2024):
                    d = D(year, 1, 1, tzinfo=tz)
                    while d.year == year:
                        for x in (d, d.replace(fold=1)):
                            roundtrip(ctx, x, int(x.utcoffset().total_seconds()) // 60, 'docs zone %d %s' % (std, name))
                        d = (d.replace(tzinfo=None) + TD(minutes=30 if d.month in (3, 11) else 720)).replace(tzinfo=tz)
                    ctx.state(kind, std, name, year)
        return
    for off in sorted({0, 1, -1, 30, -30, 59, -59, 60, -60, 61, -61, 330, -210, 345, 765, 840, -720, 1439, -1439} | set(range(-1439, 1440, 7))):
        tzs = [Minimal(off)] if kind == 'minimal' else [Named(off, n) for n in ('UTC', 'UTC+00:00', 'Z', 'GMT', '', None, 'Europe/X')]
        for tz in tzs:
            for f in MOMENTS:
                for us in (0, 1):
                    roundtrip(ctx, D(*f, us, tzinfo=tz), off, kind)
        ctx.state(kind, off)


def zone(ctx, name, moments):
    z = zoneinfo.ZoneInfo(name)

    def off(d):
        return d.replace(tzinfo=z).utcoffset()
    t, end, step = D(1970, 1, 1), D(2038, 1, 1), TD(hours=84)
    interesting = [t, D(2021, 1, 1), D(2021, 7, 1)]
    while t < end:
        nxt = t + step
        if off(t) != off(nxt):
            lo, hi = 0, int(step.total_seconds())
            while hi - lo > 1:
                mid = (lo + hi) // 2
                if off(t + TD(seconds=mid)) == off(t):
                    lo = mid
                else:
                    hi = mid
            interesting.append(t + TD(seconds=hi))
        t = nxt
    for base in interesting:
        for delta in moments:
            for fold in (0, 1):
                d = (base + delta).replace(tzinfo=z, fold=fold)
                o = d.utcoffset()
                if o % TD(minutes=1):
                    continue
                roundtrip(ctx, d, int(o.total_seconds()) // 60, name)
        ctx.state(name, base)


# (POSIX TZ, standard offset in minutes, DST offset, start and end as (month, week, day of the week, minutes after midnight))
POSIX = [('UTC0', 0, None), ('<-03>3', -180, None), ('<+0530>-5:30', 330, None), ('<-1130>11:30', -690, None), ('UTC-3', 180, None), ('EST5', -300, None),
         ('CET-1CEST,M3.5.0,M10.5.0/3', 60, 120, (3, 5, 0, 120), (10, 5, 0, 180)),
         ('GMT0BST,M3.5.0/1,M10.5.0', 0, 60, (3, 5, 0, 60), (10, 5, 0, 120)),
         ('EST5EDT,M3.2.0,M11.1.0', -300, -240, (3, 2, 0, 120), (11, 1, 0, 120)),
         ('NST3:30NDT,M3.2.0/0:01,M11.1.0/0:01', -210, -150, (3, 2, 0, 1), (11, 1, 0, 1)),
         ('<+1245>-12:45<+1345>,M9.5.0/2:45,M4.1.0/3:45', 765, 825, (9, 5, 0, 165), (4, 1, 0, 225)),
         ('<+1030>-10:30<+11>-11,M10.1.0,M4.1.0', 630, 660, (10, 1, 0, 120), (4, 1, 0, 120)),
         ('IST-1GMT0,M10.5.0,M3.5.0/1', 60, 0, (10, 5, 0, 120), (3, 5, 0, 60)),
         ('<-01>1<+00>,M3.5.0/0,M10.5.0/1', -60, 0, (3, 5, 0, 0), (10, 5, 0, 60))]


def rule(year, month, week, dow, minutes):
    first = (days_from_civil(year, month, 1) + 4) % 7            # 1970-01-01 was a Thursday
    day = 1 + (dow - first) % 7 + 7 * (week - 1)
    last = days_from_civil(year + (month == 12), month % 12 + 1, 1) - days_from_civil(year, month, 1)
    while day > last:
        day -= 7
    return (days_from_civil(year, month, day) * 1440 + minutes) * 60


def posix_offset(z, wall, year, fold):
    """The offset in minutes at a wall time (in seconds since the epoch), after PEP 495."""
    std, dst = z[1], z[2]
    if dst is None:
        return std

    def at(u):
        start, end = rule(year, *z[3]) - std * 60, rule(year, *z[4]) - dst * 60
        isdst = start <= u < end if start < end else not end <= u < start
        return dst if isdst else std
    valid = [o for o in (std, dst) if at(wall - o * 60) == o]
    if len(valid) == 1:
        return valid[0]
    if valid:                                   # ambiguous: first the earlier instant
        return min(valid) if fold else max(valid)
    return max(std, dst) if fold else min(std, dst)   # in the gap of a jump forward: as before, or as after it


def in_zone(tz, fn):
    def run():
        os.environ['TZ'] = tz
        time.tzset()
        return fn()
    return forked(run, 300)


def naive(ctx, z, year, minutes):
    from core import Ctx
    c = Ctx(ctx.tier, ctx.case_id)

    def go():
        base = days_from_civil(year, 1, 1) * 1440
        for k in range(0, 365 * 1440, minutes):
            d0 = D(year, 1, 1) + TD(minutes=k)
            for d in (d0, d0.replace(second=59, microsecond=999999)):
                for fold in (0, 1):
                    off = posix_offset(z, (base + k) * 60, year, fold)
                    d = d.replace(fold=fold)
                    c.step()
                    s = jsons.dump(d)
                    p = parse(s)
                    if p is None or instant(*p[0], p[1], p[2]) != instant(*fields(d), d.microsecond, off):
                        c.fail('naive instant|' + z[0], 'with TZ=%s dump(%r) is %r, expected %r' % (z[0], d, s, fmt(fields(d), d.microsecond, off)))
                    elif p[0] != fields(d) or p[2] != off:
                        c.fail('naive offset|' + z[0], 'with TZ=%s dump(%r) is %r, expected %r' % (z[0], d, s, fmt(fields(d), d.microsecond, off)))
            if k % 360 == 0:
                loaded(c, s, p[0], p[1], p[2], 'naive')
                # What is aware does not depend on the zone of the process.
                for o in (0, 330, -210, z[1], z[2] or 5):
                    x = d0.replace(tzinfo=dtm.timezone(TD(minutes=o)))
                    roundtrip(c, x, o, 'aware with TZ=%s' % z[0])
                for zz in ('Europe/Amsterdam', 'America/St_Johns'):
                    x = d0.replace(tzinfo=zoneinfo.ZoneInfo(zz))
                    roundtrip(c, x, int(x.utcoffset().total_seconds()) // 60, 'aware with TZ=%s' % z[0])
                if jsons.dump(d0.date()) != '%04d-%02d-%02d' % tuple(fields(d0)[:3]) or jsons.dump(d0.time()) != '%02d:%02d:%02d' % tuple(fields(d0)[3:]):
                    c.fail('date|' + z[0], 'date or time of %r depends on the zone' % d0)
            c.state(z[0], year, k)
        c.trace()
        if z[2] is None:
            for f in MOMENTS:
                d = D(*f)
                s = jsons.dump(d)
                p = parse(s)
                if p is None or instant(*p[0], p[1], p[2]) != instant(*f, 0, z[1]):
                    c.fail('naive edge|' + z[0], 'with TZ=%s dump(%r) is %r' % (z[0], d, s))
        class Undefined(dtm.tzinfo):
            def utcoffset(self, dt):
                return None

            def tzname(self, dt):
                return 'UTC'

            def dst(self, dt):
                return None
        d = D(year, 2, 3, 4, 5, 6, tzinfo=Undefined())
        s = jsons.dump(d)
        off = posix_offset(z, instant(*fields(d), 0, 0) // 10**6, year, 0)
        p = parse(s)
        if p is None or p[2] != off:
            c.fail('undefined|' + z[0], 'with TZ=%s dump of a datetime of which the offset is None is %r' % (z[0], s))
        return c.pack()
    merge(ctx, in_zone(z[0], go))


# ------------------------------------------------------------------ positions

@dataclass
class Appointment:
    at: dtm.datetime
    on: dtm.date
    t: dtm.time
    took: dtm.timedelta
    more: List[dtm.datetime]
    opt: Optional[dtm.datetime] = None


def positions(ctx, i):
    offs = [0, 1, -1, 330, -210, 840, -720, 1439, -1439]
    for off, f, us in itertools.product(offs, MOMENTS, MICROS):
        d = D(*f, us, tzinfo=dtm.timezone(TD(minutes=off)))
        s = fmt(f, us, off)
        date, t = dtm.date(*f[:3]), dtm.time(*f[3:], us)
        ds, ts = '%04d-%02d-%02d' % tuple(f[:3]), '%02d:%02d:%02d%s' % (*f[3:], '.%06d' % us if us else '')
        td = TD(days=1, microseconds=us)
        a = Appointment(d, date, t, td, [d, d], d)
        e = {'at': s, 'on': ds, 't': ts, 'took': td.total_seconds(), 'more': [s, s], 'opt': s}
        for v, dumped, T in ((a, e, Appointment), ([d], [s], List[D]), ((d, date), [s, ds], Tuple[D, dtm.date]), ({'k': d}, {'k': s}, Dict[str, D]),
                             ({d: 1}, {s: 1}, Dict[D, int]) if i else ([t], [ts], List[dtm.time]), (d, s, Optional[D]), (date, ds, Union[dtm.date, int]),
                             ([a, a], [e, e], List[Appointment])):
            for kw in ({}, {'strict': True}):
                ctx.step(3)
                j = jsons.dump(v, T, **kw) if kw else jsons.dump(v)
                if j != dumped:
                    ctx.fail('position|%s' % T, 'dump(%r) is %r, expected %r' % (v, j, dumped))
                for b in (jsons.load(dumped, T, **kw), jsons.loads(json.dumps(dumped), T, **kw)):
                    if b != v:
                        ctx.fail('position load|%s' % T, 'load(%r) is %r, expected %r' % (dumped, b, v))
            ctx.trace()
        ctx.state(off, f, us)


# ------------------------------------------------------------------ cases

def cases(tier):
    th = tier == 'thorough'
    for h in range(24):
        yield Case('offsets/%02d' % h, (offsets, h))
        yield Case('seconds/%02d' % h, (seconds, h))
    for p in '0123456789':
        yield Case('fractions/' + p, (fractions, p, 4 if th else 3, '0123456789'))
    for p in '0459':
        yield Case('fractions-long/' + p, (fractions, p, 7 if th else 5, '0459'))
    for n in range(7, 31, 4):
        yield Case('fractions-longer/%d' % n, (long_fractions, n, n + 4))
    if th:
        for y in range(1, 10000, 25):
            yield Case('days/%d' % y, (days, y, min(y + 25, 10000)))
    else:
        for y in years(tier):
            yield Case('days/%d' % y, (days, y, y + 1))
    for lo in range(0, 10**6, 50000):
        yield Case('microseconds/%d' % lo, (microseconds, lo, lo + 50000, th))
    for i, u in enumerate(UNITS):
        yield Case('timedeltas/%d' % u, (timedeltas, u, 4 if th else 3))
    for k in ('minimal', 'named'):
        yield Case('custom/' + k, (custom, k))
    for std in (-300, 0, -60, 60, 570, -210):
        yield Case('custom/us%+d' % std, (custom, 'us', std))
    moments = [TD(0), TD(microseconds=-1), TD(seconds=1), TD(minutes=-30), TD(minutes=-90), TD(hours=3)]
    if th:
        moments += [TD(minutes=30), TD(minutes=60), TD(minutes=-60), TD(hours=-3), TD(days=1), TD(days=-1)]
    for z in (sorted(zoneinfo.available_timezones()) if th else ZONES):
        yield Case('zone/' + z, (zone, z, moments))
    for z in POSIX:
        for y in posix_years(tier):
            yield Case('naive/%s/%d' % (z[0], y), (naive, z, y, 15 if th else 30))
    for i in (0, 1):
        yield Case('positions/%d' % i, (positions, i))


def run(ctx, args):
    warnings.simplefilter('ignore')
    args[0](ctx, *args[1:])
