"""The finite type universe: type terms with values, their documented JSON form and conformance.

A term T carries
  tp     the Python type given to load/dump
  vals   [(python value, JSON value)]      the documented representation, simplest first
  alt    [(JSON value, python value)]      further JSON encodings that must load
  bad    [JSON value]                      values that must be rejected by load
  conf   value -> bool                     does a result conform to T
"""
import collections
import dataclasses
import datetime as dtm
import decimal
import enum
import itertools
import pathlib
import typing
import uuid
import zoneinfo
from collections import ChainMap, Counter, OrderedDict, defaultdict, deque
from dataclasses import make_dataclass
from typing import (Any, DefaultDict, Deque, Dict, FrozenSet, Iterable, List, Mapping, MutableMapping,
                    MutableSequence, NamedTuple, Optional, Sequence, Set, Tuple, Union)

import attr

import ucls
from ucls import *  # noqa

UTC = dtm.timezone.utc
NoneType = type(None)


class T:
    def __init__(self, name, tp, vals, conf, alt=(), bad=(), depth=0, hashable=True, obj=False, objvals=None,
                 exact=True):
        self.name = name
        self.tp = tp
        self.vals = list(vals)
        self.alt = list(alt)
        self.bad = list(bad)
        self.conf = conf
        self.depth = depth
        self.hashable = hashable
        self.obj = obj          # contains a class with constructor
        self.exact = exact      # round trip is exact without giving cls at dump

    def __repr__(self):
        return 'T(%s)' % self.name


# ------------------------------------------------------------------ strict structural equality

def same(a, b):
    """Equal values with exactly equal types at every level (order matters where it is observable)."""
    if a is b:
        return True
    ta = type(a)
    if ta is not type(b):
        return False
    if ta is float:
        return repr(a) == repr(b)
    if ta in (int, str, bool, bytes, NoneType):
        return a == b
    if ta is complex:
        return repr(a) == repr(b)
    if ta is decimal.Decimal:
        return a.as_tuple() == b.as_tuple()
    if ta is dtm.datetime:
        return (a.replace(tzinfo=None) == b.replace(tzinfo=None)
                and (a.tzinfo is None) == (b.tzinfo is None) and a.utcoffset() == b.utcoffset())
    if isinstance(a, dtm.timezone):
        return a.utcoffset(None) == b.utcoffset(None) and a.tzname(None) == b.tzname(None)
    if isinstance(a, zoneinfo.ZoneInfo):
        return a.key == b.key
    if isinstance(a, enum.Enum):
        return a is b
    if isinstance(a, defaultdict):
        return a.default_factory == b.default_factory and _samedict(a, b)
    if isinstance(a, (dict, collections.abc.Mapping)):
        return _samedict(a, b)
    if isinstance(a, (set, frozenset)):
        if len(a) != len(b):
            return False
        rest = list(b)
        for x in a:
            for i, y in enumerate(rest):
                if same(x, y):
                    del rest[i]
                    break
            else:
                return False
        return True
    if isinstance(a, (list, tuple, deque)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (dtm.date, dtm.time, dtm.timedelta, uuid.UUID, pathlib.PurePath)):
        return a == b
    return _samedict(attrs_of(a), attrs_of(b))


def attrs_of(o):
    d = {}
    if type(o) is WithClassVar:     # lenient loading sets the dumped class variable on the instance
        return {'a': o.a, 'kind': o.kind}
    for c in type(o).__mro__:
        for s in c.__dict__.get('__slots__', ()) if not isinstance(c.__dict__.get('__slots__', ()), str) \
                else (c.__dict__['__slots__'],):
            if s not in ('__dict__', '__weakref__') and hasattr(o, s):
                d[s] = getattr(o, s)
    d.update(getattr(o, '__dict__', {}))
    return d


def _samedict(a, b):
    if len(a) != len(b):
        return False
    if all(type(k) is str for k in a):
        return all(k in b and same(v, b[k]) for k, v in a.items()) and all(type(k) is str for k in b)
    rest = list(b.items())
    for k, v in a.items():
        for i, (k2, v2) in enumerate(rest):
            if same(k, k2) and same(v, v2):
                del rest[i]
                break
        else:
            return False
    return True


def plain(j):
    """Only JSON types, exactly (subclasses are not plain JSON data)."""
    t = type(j)
    if t in (str, int, float, bool, NoneType):
        return True
    if t is list:
        return all(plain(x) for x in j)
    if t is dict:
        return all(type(k) in (str, int, float, bool, NoneType) and plain(v) for k, v in j.items())
    return False


def snap(v, depth=0):
    """A hashable, type-exact snapshot of any value (to compare before and after, or across runs)."""
    if depth > 60:
        return '...'
    t = type(v)
    n = t.__module__ + '.' + t.__qualname__
    if t in (int, str, bool, NoneType, float, complex, bytes):
        return (n, repr(v))
    if isinstance(v, defaultdict):
        return (n, repr(v.default_factory), tuple((snap(k, depth + 1), snap(x, depth + 1)) for k, x in v.items()))
    if isinstance(v, collections.abc.Mapping):
        return (n, tuple((snap(k, depth + 1), snap(x, depth + 1)) for k, x in v.items()))
    if isinstance(v, (list, tuple, deque)):
        return (n, tuple(snap(x, depth + 1) for x in v))
    if isinstance(v, (set, frozenset)):
        return (n, tuple(sorted((snap(x, depth + 1) for x in v), key=repr)))
    if isinstance(v, enum.Enum):
        return (n, v.name)
    if isinstance(v, dtm.datetime):
        return (n, v.replace(tzinfo=None).isoformat(), str(v.utcoffset()))
    if isinstance(v, (dtm.date, dtm.time, dtm.timedelta, dtm.tzinfo, decimal.Decimal, uuid.UUID,
                      pathlib.PurePath)):
        return (n, repr(v))
    if isinstance(v, BaseException):
        return (n, str(v))
    if isinstance(v, type) or callable(v):
        return (n, getattr(v, '__qualname__', repr(type(v))))
    return (n, tuple((k, snap(x, depth + 1)) for k, x in sorted(attrs_of(v).items())))


# ------------------------------------------------------------------ leaves

def D(*a, tz=None):
    return dtm.datetime(*a, tzinfo=tz)


def off(h, m=0):
    return dtm.timezone(dtm.timedelta(hours=h, minutes=m))


def isa(tp):
    return lambda x: isinstance(x, tp)


def mk_leaves():
    L = []

    def leaf(name, tp, vals, alt=(), bad=(), conf=None, **kw):
        L.append(T(name, tp, vals, conf or isa(tp), alt, bad, **kw))

    leaf('int', int, [(1, 1), (0, 0), (-7, -7), (2 ** 63, 2 ** 63), (10 ** 25, 10 ** 25)],
         alt=[('5', 5), ('-12', -12)], bad=['abc', '', '1.5', [], {}, [1], {'a': 1}, None])
    leaf('float', float, [(1.5, 1.5), (0.0, 0.0), (-2.25, -2.25), (1e300, 1e300), (5e-324, 5e-324), (0.1, 0.1),
                          (-0.0, -0.0), (3.0, 3.0), (1e16, 1e16)],
         alt=[('1.5', 1.5), (2, 2.0)], bad=['abc', '', [], {}, [1.5], None])
    leaf('bool', bool, [(True, True), (False, False)], alt=[(1, True), (0, False)], bad=[None])
    leaf('str', str, [('x', 'x'), ('', ''), ('2020-01-02T03:04:05Z', '2020-01-02T03:04:05Z'),
                      ('2020-01-02', '2020-01-02'), ('5', '5'), ('null', 'null'), ('true', 'true'),
                      ('\u00e9\u4e2d\U0001f600', '\u00e9\u4e2d\U0001f600'), ('a"b\\c\n\t\x00', 'a"b\\c\n\t\x00'),
                      ('-keys', '-keys'), ('-meta', '-meta'), ('  sp ', '  sp '), ('builtins.int', 'builtins.int'),
                      ('x' * 300, 'x' * 300), ('1.5', '1.5'), ('RED', 'RED')],
         bad=[None])
    leaf('None', NoneType, [(None, None)], bad=[0, '', 'x', [], {}, False, 1.5])
    leaf('datetime', dtm.datetime,
         [(D(2020, 1, 2, 3, 4, 5, tz=UTC), '2020-01-02T03:04:05Z'),
          (D(1999, 12, 31, 23, 59, 59, 999999, tz=off(5, 30)), '1999-12-31T23:59:59.999999+05:30'),
          (D(2020, 2, 29, 0, 0, tz=off(-3, -30)), '2020-02-29T00:00:00-03:30'),
          (D(1, 1, 1, tz=UTC), '0001-01-01T00:00:00Z'),
          (D(9999, 12, 31, 23, 59, 59, tz=UTC), '9999-12-31T23:59:59Z'),
          (D(2021, 6, 1, 12, 0, 0, 1, tz=off(-9, -15)), '2021-06-01T12:00:00.000001-09:15')],
         alt=[('2020-01-02T03:04:05.5Z', D(2020, 1, 2, 3, 4, 5, 500000, tz=UTC)),
              ('2020-01-02T03:04:05.123456789Z', D(2020, 1, 2, 3, 4, 5, 123456, tz=UTC)),
              ('2020-01-02T03:04:05+00:00', D(2020, 1, 2, 3, 4, 5, tz=UTC))],
         bad=['abc', '', '2020-01-02', '2020-01-02T03:04:05', '2020-13-02T03:04:05Z', 5, [], {}, True, None,
              '2020-02-30T00:00:00Z', '03:04:05'])
    leaf('date', dtm.date, [(dtm.date(2020, 1, 2), '2020-01-02'), (dtm.date(1, 1, 1), '0001-01-01'),
                            (dtm.date(9999, 12, 31), '9999-12-31'), (dtm.date(987, 11, 30), '0987-11-30')],
         bad=['abc', '', '2020-01-32', '2020-01-02T03:04:05Z', 5, [], {}, None])
    leaf('time', dtm.time, [(dtm.time(3, 4, 5), '03:04:05'), (dtm.time(0, 0), '00:00:00'),
                            (dtm.time(23, 59, 59, 999999), '23:59:59.999999'),
                            (dtm.time(1, 2, 3, 40), '01:02:03.000040')],
         bad=['abc', '', '25:00:00', '2020-01-02', 5, [], {}, None])
    leaf('timedelta', dtm.timedelta, [(dtm.timedelta(seconds=1), 1.0), (dtm.timedelta(0), 0.0),
                                      (dtm.timedelta(days=-3, microseconds=1), -259199.999999),
                                      (dtm.timedelta(days=400, hours=5, microseconds=250000), 34578000.25)],
         alt=[(90, dtm.timedelta(seconds=90))], bad=['abc', '', [], {}, None])
    leaf('timezone', dtm.timezone, [(UTC, {'name': 'UTC', 'offset': 0.0}),
                                    (off(5, 30), {'name': 'UTC+05:30', 'offset': 19800.0}),
                                    (dtm.timezone(dtm.timedelta(hours=-3, minutes=-20), 'NST'),
                                     {'name': 'NST', 'offset': -12000.0})],
         bad=['abc', 5, [], {}, {'name': 'x'}, {'offset': 1.0}, None])
    leaf('ZoneInfo', zoneinfo.ZoneInfo, [(zoneinfo.ZoneInfo('UTC'), {'key': 'UTC'})],
         bad=['abc', 5, [], {}, {'key': 'No/Such'}, None])
    leaf('Decimal', decimal.Decimal, [(decimal.Decimal('1.10'), '1.10'), (decimal.Decimal('-0'), '-0'),
                                      (decimal.Decimal('1E+30'), '1E+30'),
                                      (decimal.Decimal('123456789012345678901234567890.123456789'),
                                       '123456789012345678901234567890.123456789')],
         alt=[(5, decimal.Decimal(5)), ('7', decimal.Decimal(7))], bad=['abc', '', [], {}, None])
    u = uuid.UUID('12345678-1234-5678-1234-567812345678')
    leaf('UUID', uuid.UUID, [(u, str(u)), (uuid.UUID(int=0), str(uuid.UUID(int=0)))],
         bad=['abc', '', 5, [], {}, None])
    leaf('PurePosixPath', pathlib.PurePosixPath, [(pathlib.PurePosixPath('/a/b c.txt'), '/a/b c.txt'),
                                                 (pathlib.PurePosixPath('.'), '.'),
                                                 (pathlib.PurePosixPath('a/../b'), 'a/../b')],
         bad=[5, [], {}, None, True, 1.5])
    leaf('Path', pathlib.Path, [(pathlib.Path('rel/x'), 'rel/x')], bad=[5, [], {}, None])
    leaf('PureWindowsPath', pathlib.PureWindowsPath, [(pathlib.PureWindowsPath('C:\\a\\b'), 'C:/a/b')],
         bad=[5, [], {}, None])
    leaf('complex', complex, [(1 + 2j, {'real': 1.0, 'imag': 2.0}), (-0.5j, {'real': -0.0, 'imag': -0.5})],
         alt=[({'real': 1, 'imag': '2.5'}, 1 + 2.5j)],
         bad=['abc', 5, [], {}, {'real': 1.0}, {'imag': 2.0}, {'real': 'x', 'imag': 0}, None])
    leaf('Color', Color, [(Color.RED, 'RED'), (Color.GREEN, 'GREEN'), (Color.BLUE, 'BLUE')],
         alt=[(1, Color.RED), ('g', Color.GREEN), (3.5, Color.BLUE)], bad=['nope', '', 99, [], {}, None, 'red'])
    leaf('Clash', Clash, [(Clash.A, 'A'), (Clash.B, 'B'), (Clash.C, 'C')], alt=[('x', Clash.C)],
         bad=['nope', [], {}, None, 1])
    leaf('Num', Num, [(Num.ONE, 'ONE'), (Num.TWO, 'TWO')], alt=[(1, Num.ONE), (2, Num.TWO)],
         bad=['nope', 3, [], {}, None])
    leaf('StrE', StrE, [(StrE.X, 'X'), (StrE.Y, 'Y')], alt=[('ex', StrE.X)], bad=['nope', 3, [], {}, None])
    leaf('UserId', UserId, [(5, 5), (0, 0)], bad=['abc', [], {}], conf=isa(int))
    leaf('Label', Label, [('lbl', 'lbl'), ('', ''), ('2020-01-02T03:04:05Z', '2020-01-02T03:04:05Z')], conf=isa(str))
    return L


LEAVES = mk_leaves()
LEAF = {t.name: t for t in LEAVES}


def mk_objects():
    L = []
    okj = {'a': 1, 'b': 'x'}

    def cls(name, tp, vals, bad=(), alt=(), conf=None, **kw):
        bad = [None, 5, 'abc', 1.5, True, 0] + list(bad)
        kw.setdefault('obj', True)
        kw.setdefault('hashable', False)
        L.append(T(name, tp, vals, conf or _objconf(tp), alt, bad, depth=1, **kw))

    missing = [{}, {'a': 1}, {'b': 'x'}, {'a': 'zz', 'b': 'x'}, {'a': None, 'b': 'x'}, {'a': 1, 'b': None}, [], '', [1]]

    def ab(c):
        return [(c(1, 'x'), {'a': 1, 'b': 'x'}), (c(-2, '2020-01-02T03:04:05Z'), {'a': -2, 'b': '2020-01-02T03:04:05Z'})]

    cls('DC', DC, ab(DC), missing, alt=[({'b': 'x', 'a': '4'}, DC(4, 'x'))])
    cls('DCDef', DCDef, [(DCDef(), {'a': 7, 'b': None, 'c': 1.5}), (DCDef(1, 'q', 2.0), {'a': 1, 'b': 'q', 'c': 2.0})],
        [{'a': 'zz'}, {'c': None}], alt=[({}, DCDef()), ({'b': 's'}, DCDef(b='s')), ({'a': 0}, DCDef(a=0))])
    cls('Frozen', Frozen, ab(Frozen), missing, hashable=True)
    cls('Empty', Empty, [(Empty(), {})], [])
    cls('KwOnly', KwOnly, [(KwOnly(1, b='x'), okj)], missing)
    cls('Child', Child, [(Child(1, 'x', 2.5), {'a': 1, 'b': 'x', 'c': 2.5})], missing + [okj])
    cls('Plain', Plain, ab(Plain), missing)
    cls('PlainDef', PlainDef, [(PlainDef(1), {'a': 1, 'b': 'dflt'})], [{}, {'b': 'x'}], alt=[({'a': 3}, PlainDef(3))])
    cls('Slots', Slots, ab(Slots), missing)
    cls('Attrs', Attrs, ab(Attrs), missing)
    cls('AttrsFrozen', AttrsFrozen, ab(AttrsFrozen), missing, hashable=True)
    cls('JS', JS, ab(JS), missing)
    cls('WithProp', WithProp, [(WithProp(3), {'a': 3, 'double': 6})], [{}, {'a': 'zz'}])
    cls('WithClassVar', WithClassVar, [(WithClassVar(3), {'a': 3, 'kind': 'k'})], [{}, {'a': 'zz'}])
    cls('NT', NT, [(NT(1, 'x'), {'a': 1, 'b': 'x'})], [{}, {'a': 1}, {'b': 'x'}, [], [1], {'a': 'zz', 'b': 'x'}, ['zz', 'x']],
        alt=[([1, 'x'], NT(1, 'x')), ({'b': 'x', 'a': 1}, NT(1, 'x'))], hashable=True, conf=lambda x: type(x) is NT
        and isinstance(x.a, int) and isinstance(x.b, str))
    cls('NTDef', NTDef, [(NTDef(1, 'x'), {'a': 1, 'b': 'x'}), (NTDef(1), {'a': 1, 'b': None})],
        [[], ['zz', 'x']], alt=[([1], NTDef(1))], hashable=True,
        conf=lambda x: type(x) is NTDef and isinstance(x.a, int) and isinstance(x.b, (str, NoneType)))
    cls('Reunion', Reunion, [(Reunion(1), {'a': 1})], [{}, {'a': None}, {'b': 1}])
    cls('OptionalList', OptionalList, [(OptionalList(Reunion(2)), {'union': {'a': 2}, 'a': 3})], [{}, {'union': None}, {'a': 1}, {'union': {}}])
    cls('Dyn', Dyn, [(Dyn(x=1, y='q'), {'x': 1, 'y': 'q'}), (Dyn(x=3), {'x': 3}), (Dyn(), {}), (Dyn(y=None, z=2.5), {'y': None, 'z': 2.5})],
        conf=isa(Dyn))
    n3 = Node(1, Node(2, None, [Node(5)]), [Node(3), Node(4, Node(6))])

    def nj(n):
        return {'v': n.v, 'next': nj(n.next) if n.next else None, 'kids': [nj(k) for k in n.kids]}
    cls('Node', Node, [(Node(0), nj(Node(0))), (n3, nj(n3))],
        [{}, {'v': 'zz'}, {'v': 1, 'next': {}}, {'v': 1, 'kids': [{}]}, {'v': 1, 'kids': None}],
        alt=[({'v': 9}, Node(9))])
    w = Wide(1, 's', 0.5, True, None, D(2020, 1, 2, 3, 4, 5, tz=UTC), dtm.date(2020, 1, 2), dtm.timedelta(seconds=2.5),
             decimal.Decimal('1.5'), uuid.UUID(int=5), Color.RED, [1, 2, 3], {'k': DC(1, 'x'), 'l': DC(2, 'y')}, (1, 'z'),
             ['u', 'v'], DC(9, 'q'))
    wj = {'f00': 1, 'f01': 's', 'f02': 0.5, 'f03': True, 'f04': None, 'f05': '2020-01-02T03:04:05Z',
          'f06': '2020-01-02', 'f07': 2.5, 'f08': '1.5', 'f09': str(uuid.UUID(int=5)), 'f10': 'RED', 'f11': [1, 2, 3],
          'f12': {'k': {'a': 1, 'b': 'x'}, 'l': {'a': 2, 'b': 'y'}}, 'f13': [1, 'z'], 'f14': ['u', 'v'],
          'f15': {'a': 9, 'b': 'q'}}
    cls('Wide', Wide, [(w, wj)], [{k: v for k, v in wj.items() if k != 'f13'}], conf=lambda x: type(x) is Wide)
    return L


def _objconf(tp):
    import inspect
    hints = typing.get_type_hints(tp.__init__)

    def conf(x):
        if type(x) is not tp:
            return False
        for k, h in hints.items():
            if k in ('return', 'self'):
                continue
            if not conforms(getattr(x, k, None), h):
                return False
        return True
    return conf


def conforms(x, h):
    """Independent conformance check of a value to a type hint."""
    if h is Any or h is object:
        return True
    if h is None or h is NoneType:
        return x is None
    o = typing.get_origin(h)
    a = typing.get_args(h)
    if o is Union:
        return any(conforms(x, y) for y in a)
    if o is None:
        if hasattr(h, '__supertype__'):
            return conforms(x, h.__supertype__)
        return isinstance(x, h)
    if o is tuple:
        if not isinstance(x, tuple):
            return False
        if len(a) == 2 and a[1] is ...:
            return all(conforms(y, a[0]) for y in x)
        return len(x) == len(a) and all(conforms(y, z) for y, z in zip(x, a))
    if not isinstance(x, o):
        return False
    if issubclass(o, collections.abc.Mapping) and len(a) == 2:
        return all(conforms(k, a[0]) and conforms(v, a[1]) for k, v in x.items())
    if len(a) == 1:
        return all(conforms(y, a[0]) for y in x)
    return True


OBJECTS = mk_objects()
OBJ = {t.name: t for t in OBJECTS}


# ------------------------------------------------------------------ combinators

LENS = (0, 1, 2, 3)


def take(vals, n, start=0):
    return [vals[(start + i) % len(vals)] for i in range(n)]


def distinct(vals):
    res = []
    for v, j in vals:
        if not any(v == w for w, _ in res):
            res.append((v, j))
    return res


def seq_of(t, name, tp, make, nonempty_bad=True):
    vals = []
    for n in LENS:
        el = take(t.vals, n)
        vals.append((make([v for v, _ in el]), [j for _, j in el]))
    if len(t.vals) > 3:     # every representative occurs
        vals.append((make([v for v, _ in t.vals]), [j for _, j in t.vals]))
    alt = [([j], make([v])) for j, v in t.alt[:2]]
    bad = [None, 5, True, 1.5]
    for b in t.bad:
        bad.append([b])
        bad.append([j for _, j in take(t.vals, 2)] + [b])
    origin = typing.get_origin(tp) or tp
    conf = lambda x: isinstance(x, origin) and all(t.conf(y) for y in x)  # noqa
    return T(name, tp, vals, conf, alt, bad, t.depth + 1, make is tuple or make is frozenset and False, t.obj)


def set_of(t, name, tp, make):
    d = distinct(t.vals)
    vals = []
    for n in (0, 1, 2, len(d)):
        if n > len(d):
            continue
        el = d[:n]
        vals.append((make(v for v, _ in el), [j for _, j in el]))
    bad = [None, 5] + [[b] for b in t.bad]
    origin = typing.get_origin(tp) or tp
    conf = lambda x: isinstance(x, origin) and all(t.conf(y) for y in x)  # noqa
    return T(name, tp, vals, conf, [], bad, t.depth + 1, make is frozenset, t.obj)


def dict_of(t, name, tp, make, keys=('a', 'b_c', 'D', '', '2020-01-02T03:04:05Z')):
    vals = []
    for n in (0, 1, 2, len(keys)):
        el = take(t.vals, n)
        vals.append((make([(k, v) for k, (v, _) in zip(keys, el)]), {k: j for k, (_, j) in zip(keys, el)}))
    if len(t.vals) > len(keys):
        vals.append((make([('k%d' % i, v) for i, (v, _) in enumerate(t.vals)]),
                     {'k%d' % i: j for i, (_, j) in enumerate(t.vals)}))
    bad = [None, 5, 'abc', [1], True]
    for b in t.bad:
        bad.append({'k': b})
        bad.append({'k': t.vals[0][1], 'l': b})
    origin = typing.get_origin(tp) or tp
    conf = lambda x: isinstance(x, origin) and all(isinstance(k, str) and t.conf(y) for k, y in x.items())  # noqa
    return T(name, tp, vals, conf, [], bad, t.depth + 1, False, t.obj)


def List_(t):
    return seq_of(t, 'List[%s]' % t.name, List[t.tp], list)


def list_(t):
    return seq_of(t, 'list[%s]' % t.name, list[t.tp], list)


def Sequence_(t):
    return seq_of(t, 'Sequence[%s]' % t.name, Sequence[t.tp], list)


def Iterable_(t):
    return seq_of(t, 'Iterable[%s]' % t.name, Iterable[t.tp], list)


def VTuple_(t):
    r = seq_of(t, 'Tuple[%s,...]' % t.name, Tuple[t.tp, ...], tuple)
    r.hashable = t.hashable
    return r


def Deque_(t):
    return seq_of(t, 'Deque[%s]' % t.name, Deque[t.tp], deque)


def Set_(t):
    return set_of(t, 'Set[%s]' % t.name, Set[t.tp], set)


def FrozenSet_(t):
    return set_of(t, 'FrozenSet[%s]' % t.name, FrozenSet[t.tp], frozenset)


def Dict_(t):
    return dict_of(t, 'Dict[str,%s]' % t.name, Dict[str, t.tp], dict)


def dict__(t):
    return dict_of(t, 'dict[str,%s]' % t.name, dict[str, t.tp], dict)


def Mapping_(t):
    return dict_of(t, 'Mapping[str,%s]' % t.name, Mapping[str, t.tp], dict)


def DefaultDict_(t):
    def make(items):
        return defaultdict(t.tp, items)
    return dict_of(t, 'DefaultDict[str,%s]' % t.name, DefaultDict[str, t.tp], make)


def Optional_(t):
    bad = [b for b in t.bad if b is not None]
    return T('Optional[%s]' % t.name, Optional[t.tp], t.vals + [(None, None)], lambda x: x is None or t.conf(x),
             t.alt, bad, t.depth + 1, t.hashable, t.obj)


def NewType_(t):
    return T('NewType[%s]' % t.name, typing.NewType('New', t.tp), t.vals, t.conf, t.alt, t.bad, t.depth + 1, t.hashable, t.obj)


def Tuple_(*ts):
    vals = []
    for k in range(max(len(t.vals) for t in ts)):
        el = [t.vals[k % len(t.vals)] for t in ts]
        vals.append((tuple(v for v, _ in el), [j for _, j in el]))
    bad = [None, 5, True]
    good = [t.vals[0][1] for t in ts]
    for i, t in enumerate(ts):
        for b in t.bad:
            bad.append(good[:i] + [b] + good[i + 1:])
    bad.append(good + [good[0]])
    bad.append(good[:-1])

    def conf(x):
        return isinstance(x, tuple) and len(x) == len(ts) and all(t.conf(y) for t, y in zip(ts, x))
    return T('Tuple[%s]' % ','.join(t.name for t in ts), Tuple[tuple(t.tp for t in ts)], vals, conf, [], bad,
             max(t.depth for t in ts) + 1, all(t.hashable for t in ts), any(t.obj for t in ts))


_made = {}


def _register(cls, name):
    cls.__module__ = 'ucls'
    cls.__qualname__ = cls.__name__ = name
    setattr(ucls, name, cls)
    return cls


def _mkname(kind, ts):
    key = (kind, tuple(t.name for t in ts))
    if key not in _made:
        _made[key] = '%s%d' % (kind, len(_made))
    return _made[key]


def obj_of(kind, *ts):
    """A class with one annotated constructor field f0, f1, ... per type term."""
    names = ['f%d' % i for i in range(len(ts))]
    key = (kind, tuple(t.name for t in ts))
    if (key, 'cls') in _made:
        cls = _made[(key, 'cls')]
    else:
        n = _mkname(kind, ts)
        if kind == 'Dc':
            cls = make_dataclass(n, [(f, t.tp) for f, t in zip(names, ts)])
        elif kind == 'At':
            cls = attr.make_class(n, {f: attr.ib(type=t.tp) for f, t in zip(names, ts)})
            cls.__init__.__annotations__ = {**{f: t.tp for f, t in zip(names, ts)}, 'return': None}
        elif kind == 'Nt':
            cls = NamedTuple(n, [(f, t.tp) for f, t in zip(names, ts)])
        else:
            src = 'def __init__(self, %s):\n' % ', '.join(names)
            src += ''.join('    self.%s = %s\n' % (f, f) for f in names)
            ns = {}
            exec(src, ns)
            init = ns['__init__']
            init.__annotations__ = {f: t.tp for f, t in zip(names, ts)}
            body = {'__init__': init}
            if kind == 'Sl':
                body['__slots__'] = tuple(names)
            elif kind == 'Pl':
                body['__eq__'] = lambda s, o: type(s) is type(o) and vars(s) == vars(o)
            cls = type(n, (jsons_base(),) if kind == 'Js' else (object,), body)
        _register(cls, n)
        _made[(key, 'cls')] = cls
    vals = []
    for k in range(max(len(t.vals) for t in ts)):
        el = [t.vals[k % len(t.vals)] for t in ts]
        vals.append((cls(*[v for v, _ in el]), {f: j for f, (_, j) in zip(names, el)}))
    good = {f: t.vals[0][1] for f, t in zip(names, ts)}
    bad = [None, 5, True] + (['abc'] if kind != 'Nt' else [])     # a str is a sequence of str
    for f, t in zip(names, ts):
        for b in t.bad:
            bad.append({**good, f: b})
        if not any(v is None for v, _ in t.vals):
            bad.append({k: v for k, v in good.items() if k != f})

    def conf(x):
        return type(x) is cls and all(t.conf(getattr(x, f)) for f, t in zip(names, ts))
    return T('%s(%s)' % (kind, ','.join(t.name for t in ts)), cls, vals, conf, [], bad,
             max(t.depth for t in ts) + 1, kind == 'Nt' and all(t.hashable for t in ts), True)


def jsons_base():
    import jsons
    return jsons.JsonSerializable


def union_of(*ts):
    """Only for members whose JSON forms are told apart by left-to-right trial (the caller makes sure)."""
    vals = [v for t in ts for v in t.vals]
    return T('Union[%s]' % ','.join(t.name for t in ts), Union[tuple(t.tp for t in ts)], vals,
             lambda x: any(t.conf(x) for t in ts), [], [], max(t.depth for t in ts) + 1,
             all(t.hashable for t in ts), any(t.obj for t in ts))


UNARY = [List_, Dict_, VTuple_, Optional_, Set_, FrozenSet_, Deque_, Sequence_, Iterable_, Mapping_, DefaultDict_,
         list_, dict__, NewType_]
OBJ_KINDS = ('Dc', 'Pl', 'Sl', 'At', 'Nt', 'Js')


def combine1(t):
    """Every unary combinator and object kind applied to one term."""
    res = []
    for c in UNARY:
        if c in (Set_, FrozenSet_) and not t.hashable:
            continue
        if c is Optional_ and (t.name == 'None' or t.name.startswith('Optional')):
            continue
        res.append(c(t))
    for k in OBJ_KINDS:
        res.append(obj_of(k, t))
    return res


def terms(depth, leaves=None):
    """All terms of exactly the given combinator depth over the leaves (depth 0: leaves and classes)."""
    base = list(leaves if leaves is not None else LEAVES + OBJECTS)
    for _ in range(depth):
        base = [u for t in base for u in combine1(t)]
    return base


REP_LEAVES = ('int', 'str', 'datetime')
