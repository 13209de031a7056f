"""C26 untyped loading preserves structure and only converts RFC3339 date-times."""
import copy
import datetime as dtm
import itertools
import json
import re

import jsons
import jsonvals
from core import Case
from universe import same, snap, plain
from ref import ref_datetime

PROPERTY = 'C26'
ASSUMPTIONS = ['a date-time is complete if it has the fields of RFC3339 with upper case T and Z, seconds below 60 and a Gregorian date from year 1',
               'strings that only differ from a date-time in omitted leading zeros of a field (a blank for the day, digits of other scripts) or by a lower case t or z may be converted to that date-time or stay',
               'dicts with the reserved keys -keys and -meta are not plain data']
ALPHABET = ['0', '1', '2', '3', '5', '6', '9', '-', '+', ':', '.', ',', 'T', 'Z', 't', 'z', ' ', '/', '_', 'e', '\n', '\x00', '\u0663', '\u2212']
BASES = ['2020-01-02T03:04:05Z', '2020-01-02T03:04:05.123456Z', '1999-12-31T23:59:59+05:30', '2024-02-29T00:00:00.5-03:30',
         '0001-01-01T00:00:00Z', '9999-12-31T23:59:59.9999999+00:00', '2020-01-02T03:04:05', '2020-01-02', '03:04:05Z', '2020-01-02T03:04Z']


def BOUNDS(tier):
    th = tier == 'thorough'
    return {'strings': 'edit distance <= 1 from %d bases over %d characters%s' % (len(BASES), len(ALPHABET), ', distance 2 of 3 bases over 10 characters' if th else ''),
            'date-times': 'all combinations of boundary fields x fractions x offsets', 'structures': 'lists and dicts of up to %d nodes over %d leaves' % (5 if th else 4, len(LEAVES)),
            'chains': 'up to 120 levels'}


# ------------------------------------------------------------------ the reference

STRICT = re.compile(r'(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(\.\d+)?(Z|[+-]\d\d:\d\d)', re.ASCII)
LENIENT = re.compile(r'(\d{4})-(\d{1,2})-(\d{1,2}| \d)[Tt](\d{1,2}):(\d{1,2}):(\d{1,2})(\.\d+)?([Zz]|[+-]\d{1,2}:\d{1,2})')


def ref(s):
    """(must, datetime or None): the date-time that s is; must is False if it may stay a str."""
    for pat, must in ((STRICT, True), (LENIENT, False)):
        m = pat.fullmatch(s)
        if not m:
            continue
        y, mo, d, h, mi, sec = (int(x) for x in m.groups()[:6])
        frac, offs = m.group(7), m.group(8)
        leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
        days = [31, 29 if leap else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
        if not (1 <= y and 1 <= mo <= 12 and 1 <= d <= days[mo - 1] and h < 24 and mi < 60 and sec < 60):
            return True, None
        micro = int((frac[1:] + '000000')[:6]) if frac else 0
        if offs in 'Zz':
            tz = dtm.timezone.utc
        else:
            oh, om = (int(x) for x in offs[1:].split(':'))
            if oh > 23 or om > 59:
                return True, None
            tz = dtm.timezone((1 if offs[0] == '+' else -1) * dtm.timedelta(hours=oh, minutes=om))
        return must, dtm.datetime(y, mo, d, h, mi, sec, micro, tz)
    return True, None


def expected(j):
    if type(j) is str:
        must, d = ref(j)
        assert must, j
        return j if d is None else d
    if type(j) is list:
        return [expected(x) for x in j]
    if type(j) is dict:
        return {k: expected(v) for k, v in j.items()}
    return j


def normal(v):
    if type(v) is dtm.datetime:
        return ref_datetime(v)
    if type(v) is list:
        return [normal(x) for x in v]
    if type(v) is dict:
        return {k: normal(x) for k, x in v.items()}
    return v


def check_str(ctx, s):
    ctx.step()
    must, d = ref(s)
    try:
        got = jsons.load(s)
    except Exception as err:
        return ctx.fail('str|%s' % type(err).__name__, 'load(%r) raises %s: %s' % (s, type(err).__name__, err))
    good = same(got, s if d is None else d) or (not must and got == s)
    if not good:
        return ctx.fail('str', 'load(%r) gives %r, expected %r' % (s, got, s if d is None else d))
    back = jsons.dump(got)
    if back != (ref_datetime(d) if got is not s and isinstance(got, dtm.datetime) else s):
        return ctx.fail('str back', 'dump(load(%r)) gives %r' % (s, back))
    ctx.outcome((type(got).__name__, must))


def check_value(ctx, j, text=True, **opts):
    ctx.step()
    want = expected(j)
    before = snap(j)
    src = copy.deepcopy(j)
    got = jsons.load(src, **opts)
    if not same(got, want) or order(got) != order(want):
        return ctx.fail('value', 'load(%.300r, %r) gives %.300r, expected %.300r' % (j, opts, got, want))
    if snap(src) != before:
        ctx.fail('source', 'load(%.300r) changed its source to %.300r' % (j, src))
    if type(j) in (list, dict) and got is src:
        ctx.fail('alias', 'load(%.300r) returns its source' % j)
    if type(j) in (list, dict):
        poke(got)
        if snap(src) != before:
            ctx.fail('alias', 'the result of load(%.300r) shares a part with the source' % j)
        got = jsons.load(src, **opts)
    if text:
        for name, fn in (('loads', lambda: jsons.loads(json.dumps(j), **opts)), ('loadb', lambda: jsons.loadb(json.dumps(j).encode(), **opts))):
            g = fn()
            if not same(g, want) or order(g) != order(want):
                ctx.fail('text', '%s of %.300r gives %.300r' % (name, j, g))
    back = jsons.dump(got)
    if not same(back, normal(want)) or order(back) != order(want):
        ctx.fail('back', 'dump(load(%.300r)) gives %.300r' % (j, back))
    again = jsons.load(back)
    if not same(again, want):
        ctx.fail('again', 'load(dump(load(%.300r))) gives %.300r' % (j, again))
    ctx.outcome((type(j).__name__, type(got).__name__))
    ctx.trace()


def poke(v):
    if type(v) is dict:
        for x in list(v.values()):
            poke(x)
        v['poked'] = 1
    elif type(v) is list:
        for x in v:
            poke(x)
        v.append('poked')


def order(v):
    if type(v) is dict:
        return [(k, order(x)) for k, x in v.items()]
    return [order(x) for x in v] if type(v) is list else None


# ------------------------------------------------------------------ strings

def edits(s, alphabet):
    for i in range(len(s) + 1):
        for c in alphabet:
            yield s[:i] + c + s[i:]
        if i < len(s):
            yield s[:i] + s[i + 1:]
            for c in alphabet:
                yield s[:i] + c + s[i + 1:]
        if i + 1 < len(s):
            yield s[:i] + s[i + 1] + s[i] + s[i + 2:]


def strings(ctx, base, dist):
    seen = {base}
    for s in edits(base, ALPHABET):
        seen.add(s)
    if dist == 2:
        for t in list(edits(base, SMALL)):
            seen.update(edits(t, SMALL))
    for s in sorted(seen):
        check_str(ctx, s)
        ctx.state(s)
        ctx.trace()


SMALL = ['0', '1', '9', '-', '+', ':', '.', 'T', 'Z', ' ']


def prefixes(ctx, base):
    """All substrings, doublings and joins of the bases: nothing but a complete date-time is converted."""
    for i, k in itertools.combinations(range(len(base) + 1), 2):
        check_str(ctx, base[i:k])
        ctx.state(base[i:k])
    for other in BASES:
        for sep in ('', ' ', '\n', 'T', 'Z', ',', '/', '\u2028'):
            check_str(ctx, base + sep + other)
            check_str(ctx, sep + base)
            check_str(ctx, base + sep)
            ctx.state(base, sep, other)
            ctx.trace()


FRACS = ['', '.0', '.5', '.000001', '.999999', '.1234567', '.9999999', '.123456789012']
OFFS = ['Z', '+00:00', '-00:00', '+05:30', '-09:45', '+23:59', '-23:59', '+24:00', '+00:60', '+14:00']


def grid(ctx, year, frac):
    for mo, d in itertools.product((0, 1, 2, 4, 12, 13), (0, 1, 28, 29, 30, 31, 32)):
        for h, mi, sec in itertools.product((0, 12, 23, 24), (0, 59, 60), (0, 59, 60, 61)):
            for off in OFFS if (h, mi, sec) in ((0, 0, 0), (23, 59, 59)) else OFFS[:1] + OFFS[3:4]:
                s = '%04d-%02d-%02dT%02d:%02d:%02d%s%s' % (year, mo, d, h, mi, sec, frac, off)
                check_str(ctx, s)
                ctx.state(s)
        ctx.trace()


WORDS = ['', ' ', 'null', 'None', 'true', 'false', 'True', '1', '-1', '1.5', '1e5', 'nan', 'NaN', 'Infinity', '[]', '{}', '[1]', '{"a": 1}', '"x"', 'RED', 'UTC', 'P1D', 'T', 'Z', '.', '-', '+',
         ':', 'TZ', 'T+', 'T-:', '2020', '2020-01', '2020-W01-1T00:00:00Z', '2020-001T00:00:00Z', '20200102T030405Z', '2020-01-02 03:04:05Z', '2020-01-02T03:04:05+0530', '2020-01-02T03:04:05+05',
         '2020-01-02T03:04:05 Z', '2020-01-02T03:04:05Z ', ' 2020-01-02T03:04:05Z', '2020-01-02T03:04:05[UTC]', '2020-01-02T03:04:05UTC', '2020-01-02T03:04:05 UTC', '+2020-01-02T03:04:05Z',
         '-2020-01-02T03:04:05Z', '12020-01-02T03:04:05Z', '2020-01-02T03:04:05.Z', '2020-01-02T03:04:05,5Z', '2020-01-02T03:04:05+05:30:10', '2020-01-02T03:04:05+05:-30', '2020-01-02T03:04:05-05:-30',
         '2020-01-02T03:04:05+-5:30', '2020-01-02T03:04:05+ 5:30', '2020-01-02T03:04:05+5_0:30', '2020-01-02T03:04:05+05:3_0', '2020-01-02T03:04:05+05:30Z', '2020-01-02T03:04:05Z+05:30',
         '2020-01-02T03:04:05.5.5Z', '2020-01-02T03:04:05ZZ', 'Z2020-01-02T03:04:05Z', '2020-Jan-02T03:04:05Z', '2020-01-02T03:04:05+05:99', '2020-01-02T03:04:05+005:030', '2020-01-02T03:04:05+1:2',
         '12345678-1234-5678-1234-567812345678', '1.10', 'ucls.DC', 'C:\\a', '/a/b', '\u00e9\u4e2d\U0001f600', 'x' * 5000, '5' * 5000, '\ud800', '%Y-%m-%dT%H:%M:%SZ', '{0}', '%s', '\\', '\x00']


def words(ctx, _):
    for w in WORDS:
        check_str(ctx, w)
        check_str(ctx, w.upper())
        check_str(ctx, w.lower())
        check_str(ctx, w + w)
        ctx.state(w)
        ctx.trace()


# ------------------------------------------------------------------ structures

DT, DT2, NO = '2020-01-02T03:04:05Z', '1999-12-31T23:59:59.25+05:30', '2020-13-02T03:04:05Z'
LEAVES = [None, True, False, 0, 1, -1, 2 ** 70, 1.5, 1.0, -0.0, '', 'abc', '5', 'null', DT, DT2, NO]
L6 = [None, 1, 1.0, 'abc', DT, NO]
KEYS = ['a', '', DT, '1', 'null', 'first_name', 'firstName', 'cls', 'name', 'offset', 'key', 'real']


def keysets(n):
    yield KEYS[:n]
    if n:
        yield [DT, 'null', '1', ''][:n]


def compositions(total, k):
    """All ways to give k children at least 1 and together at most total nodes, exactly."""
    if k == 0:
        if total == 0:
            yield ()
        return
    for first in range(1, total - k + 2):
        for rest in compositions(total - first, k - 1):
            yield (first,) + rest


_memo = {}


def trees_exact(n, leaves):
    k = (n, len(leaves))
    if k not in _memo:
        res = []
        if n == 1:
            res = list(leaves) + [[], {}]
        else:
            for kids in range(1, n):
                for parts in compositions(n - 1, kids):
                    for elems in itertools.product(*[trees_exact(p, leaves) for p in parts]):
                        res.append(list(elems))
                        for keys in keysets(kids):
                            res.append(dict(zip(keys, elems)))
        _memo[k] = res
    return _memo[k]


def structures(ctx, n, leaves, shard, shards):
    for i, j in enumerate(trees_exact(n, leaves)):
        if i % shards == shard:
            check_value(ctx, j, text=n < 4)
            ctx.state(json.dumps(j))


def pair_leaves(ctx, a):
    x = LEAVES[a]
    for y in LEAVES:
        for j in ([x, y], {'p': x, 'q': y}, [x, [y]], {'p': {'q': x}, 'r': y}, [{'p': x}, {'p': y}], {'p': [x], 'q': [y, x]}, [[x], {'p': y}, x, y, [[y]]]):
            check_value(ctx, j)
            ctx.state(json.dumps(j))


def keys(ctx, k):
    key = KEYS_ALL[k]
    for x in L6:
        for j in ({key: x}, {'z': 1, key: x, 'y': 2}, {key: {key: x}}, [{key: [x]}], {key: {'z': {key: x}}, 'y': x}):
            check_value(ctx, j)
            ctx.state(json.dumps(j))
        for other in KEYS_ALL:
            check_value(ctx, {key: x, other: 1}, text=False)
            check_value(ctx, {other: {key: x}}, text=False)


KEYS_ALL = KEYS + [DT2, NO, '2020-01-02', 'true', '-', '-key', 'meta', 'keys', '\u00e9', 'x' * 300, 'self', '__class__', '__dict__', 'classes', '/', 'a.b', 'UPPER', 'with space', '0', '-1', '1.5', 'strict', 'fork_inst',
                   'imag', 'obj', 'int', 'dict', 'ucls.DC']


def chains(ctx, kind):
    for n in (1, 2, 3, 5, 10, 30, 60, 100, 120):
        for leaf in (DT, NO, 1, None, [], {}, [DT, {'a': DT2}]):
            check_value(ctx, jsonvals.deep(n, leaf, kind), text=n < 100)
            ctx.state(kind, n, repr(leaf))
    for n in (10, 1000):
        check_value(ctx, [DT, NO, 1] * n)
        check_value(ctx, {'k%d' % i: (DT, NO, 1)[i % 3] for i in range(n)})
        check_value(ctx, [{'a': DT, 'b': [NO]}] * n, text=False)


def alphabet(ctx, part):
    vals = [j for j in jsonvals.values(0)]
    for j in vals[part::8]:
        if reserved(j) or any(not ref(s)[0] for s in strs(j)):
            continue
        check_value(ctx, j, text=True)
        check_value(ctx, [j, j])
        check_value(ctx, {'a': j, 'b': [j]})
        ctx.state(json.dumps(j))


def reserved(j):
    if type(j) is dict:
        return any(k in ('-keys', '-meta', '-cls') or reserved(v) for k, v in j.items())
    return type(j) is list and any(reserved(x) for x in j)


def strs(j):
    if type(j) is str:
        yield j
    elif type(j) in (list, dict):
        for x in (j.values() if type(j) is dict else j):
            yield from strs(x)


def settings(ctx, _):
    """The result does not depend on harmless options, the fork, what was loaded before, or on how cls says 'no type'."""
    fork = jsons.fork()
    other = jsons.fork()
    jsons.set_deserializer(lambda o, cls=None, **kw: 'hooked', str, fork_inst=other)
    vals = [DT, NO, 1, None, [DT], {'a': DT}, {'a': [DT, NO, {'b': DT2}], 'c': 1.0}]
    for opts in ({}, {'fork_inst': fork}, {'warn_on_fail': True}, {'attr_getters': {'a': lambda: 'got'}}, {'attr_getters': {}}, {'strict': False}, {'unknown': 1}, {'tasks': 1}, {'use_enum_name': False}):
        for j in vals:
            for i in range(2):
                check_value(ctx, j, **opts)
                jsons.load('5', str, fork_inst=other)
                try:
                    jsons.load('zz', int)
                except jsons.DeserializationError:
                    pass
            ctx.state(sorted(opts), json.dumps(j))
    for j in vals:
        for cls in (list, dict, type(j)):
            if type(j) is cls and cls in (list, dict):
                ctx.step()
                # an explicitly requested plain list or dict is returned as is, but its type is kept either way
                got = jsons.load(copy.deepcopy(j), cls)
                if type(got) is not cls or len(got) != len(j):
                    ctx.fail('cls', 'load(%r, %s) gives %r' % (j, cls, got))
    for v in jsonvals.NONFINITE:
        for j, get in ((v, lambda x: x), ([v], lambda x: x[0]), ({'a': v}, lambda x: x['a'])):
            ctx.step()
            got = get(jsons.load(j))
            if repr(got) != repr(v):
                ctx.fail('nonfinite', 'load(%r) gives %r' % (j, got))


def cases(tier):
    th = tier == 'thorough'
    for i, b in enumerate(BASES):
        yield Case('edit:%d' % i, ('strings', b, 1))
        yield Case('parts:%d' % i, ('prefixes', b))
        if th and i in (0, 2, 3, 6):
            yield Case('edit2:%d' % i, ('strings', b, 2))
    for y in (0, 1, 1900, 2000, 2023, 2024, 9999) if th else (0, 1, 1900, 2000, 9999):
        for f in FRACS:
            yield Case('grid:%d:%s' % (y, f), ('grid', y, f))
    yield Case('words', ('words', None))
    for n in range(1, 6 if th else 5):
        leaves = LEAVES if n < 3 else L6 if n < 4 or th and n < 5 else L6[1:5] if n == 4 else [1, DT]
        shards = 1 if n < 4 else 8
        for s in range(shards):
            yield Case('tree:%d:%d' % (n, s), ('structures', n, leaves, s, shards))
    for a in range(len(LEAVES)):
        yield Case('pair:%d' % a, ('pair_leaves', a))
    for k in range(len(KEYS_ALL)):
        yield Case('key:%d' % k, ('keys', k))
    for kind in ('list', 'a', 'next'):
        yield Case('chain:' + kind, ('chains', kind))
    for p in range(8):
        yield Case('alphabet:%d' % p, ('alphabet', p))
    yield Case('settings', ('settings', None))


def run(ctx, args):
    globals()[args[0]](ctx, *args[1:])
