"""C25 one failing attribute costs only that attribute, or the whole strict dump."""
import collections
import datetime as dtm
import enum
import itertools
import uuid
from collections import Counter
from dataclasses import dataclass, make_dataclass
from typing import Dict, List, NamedTuple, Optional, Tuple, Union

import attr
import jsons
from core import Case
from lib import caught
from universe import same, snap, plain

PROPERTY = 'C25'
ASSUMPTIONS = ['an attribute whose getter fails cannot be read at all: that makes the whole dump fail with a SerializationError (the tests of jsons require it)',
               'lists, tuples, named tuples and dicts do not leave out elements: their failure is the failure of the attribute that holds them']
CAMEL = jsons.KEY_TRANSFORMER_CAMELCASE
J = jsons.JsonSerializable


def BOUNDS(tier):
    return {'trees': 'all values of at most %d nodes out of %s and objects with up to 3 attributes, with every choice of failing leaves' % (nodes(tier), CONTAINERS),
            'kinds of objects': sorted(KINDS), 'reasons': '%d exceptions and %d natural failures' % (len(ERRORS), len(NATURAL)),
            'attributes': 'every subset of failing attributes of objects with up to %d attributes x %d option sets' % (width(tier), len(OPTS))}


def nodes(tier):
    return 6 if tier == 'thorough' else 5


def width(tier):
    return 7 if tier == 'thorough' else 5


# ------------------------------------------------------------------ values that fail

class Bad:
    def __init__(self, n=0):
        self.n = n


class Custom(Exception):
    pass


ERRORS = [ValueError('no such luck'), KeyError('k'), TypeError('t', 2), AttributeError(), ZeroDivisionError('division by zero'), OSError(2, 'gone'), RuntimeError(''), StopIteration(), AssertionError(),
          Custom({'a': 1}), Custom(None), Custom('"quoted" {0} %s'), RecursionError('too deep'), UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'bad'), jsons.SerializationError('inner'),
          jsons.DeserializationError('other', 1, int), jsons.ValidationError('invalid'), NotImplementedError('\u00e9'), LookupError(5)]


def serialize_bad(obj, **kwargs):
    raise ERRORS[obj.n]


jsons.set_serializer(serialize_bad, Bad)


def reason(n):
    e = ERRORS[n]
    return str(e.args[0]) if e.args else repr(e)


class Color(enum.Enum):
    RED = 1


class Selfish:
    def __init__(self):
        self.me = self


class NoOffset(dtm.tzinfo):
    def utcoffset(self, d):
        raise ValueError('no offset')

    def dst(self, d):
        raise ValueError('no dst')

    def tzname(self, d):
        raise ValueError('no name')


class HashFails:
    """Cannot be taken apart: reading its attributes fails."""
    @property
    def x(self):
        raise ValueError('no x')


NATURAL = {
    'enum': (Color, 5), 'datetime': (dtm.datetime, 'x'), 'union': (Union[Color, dtm.datetime], 5), 'timedelta': (dtm.timedelta, 'x'), 'list': (List[dtm.datetime], ['x']), 'complex': (complex, 'x'),
    'dict': (Dict[str, int], 5), 'iterable': (list, 5), 'tuple': (Tuple[int, int], 5), 'tz': (dtm.datetime, dtm.datetime(2020, 1, 1, tzinfo=NoOffset())),
    'getter': (HashFails, HashFails()), 'in list': (List[Bad], [Bad(1)]), 'in dict': (Dict[str, Bad], {'k': Bad(2)}), 'in tuple': (Tuple[int, Bad], (1, Bad(5))),
    'optional': (Optional[Bad], Bad(4)), 'list in list': (List[List[Bad]], [[], [Bad(0)]]),
}


# ------------------------------------------------------------------ objects with given attributes

def kind_dc(items):
    return make_dataclass('O', [(k, tp) for k, tp, _ in items])(*[v for _, _, v in items])


def kind_pl(items):
    ns = {}
    names = [k for k, _, _ in items]
    exec('class O:\n def __init__(self%s):\n  pass\n%s' % (''.join(', ' + n for n in names), ''.join('  self.%s = %s\n' % (n, n) for n in names)), {}, ns)
    return ns['O'](*[v for _, _, v in items])


def kind_typed(items):
    o = kind_pl(items)
    type(o).__init__.__annotations__.update({k: tp for k, tp, _ in items})
    return o


def kind_sl(items):
    ns = {}
    names = [k for k, _, _ in items]
    exec('class O:\n __slots__ = %r\n' % (names,), {}, ns)
    o = ns['O']()
    for k, _, v in items:
        setattr(o, k, v)
    return o


def kind_at(items):
    return attr.make_class('O', {k: attr.ib(type=tp) for k, tp, _ in items})(*[v for _, _, v in items])


def kind_js(items):
    ns = {}
    names = [k for k, _, _ in items]
    exec('class O(J):\n def __init__(self%s):\n  pass\n%s' % (''.join(', ' + n for n in names), ''.join('  self.%s = %s\n' % (n, n) for n in names)), {'J': J}, ns)
    return ns['O'](*[v for _, _, v in items])


def kind_prop(items):
    """The first attribute is a property, the last one a class variable."""
    ns = {}
    exec('class O:\n pass', {}, ns)
    O = ns['O']
    o = O()
    for i, (k, _, v) in enumerate(items):
        if i == 0:
            setattr(O, k, property(lambda self, v=v: v))
        elif i == len(items) - 1:
            setattr(O, k, v)
        else:
            setattr(o, k, v)
    return o


def kind_inh(items):
    """Half of the attributes are declared by a parent."""
    h = len(items) // 2
    p = make_dataclass('P', [(k, tp) for k, tp, _ in items[:h]])
    return make_dataclass('O', [(k, tp) for k, tp, _ in items[h:]], bases=(p,))(*[v for _, _, v in items])


KINDS = {'dc': kind_dc, 'pl': kind_pl, 'typed': kind_typed, 'sl': kind_sl, 'at': kind_at, 'js': kind_js, 'prop': kind_prop, 'inh': kind_inh}
STRICT_KINDS = {'dc', 'sl', 'at', 'typed', 'inh'}       # a strict dump has declared attributes


# ------------------------------------------------------------------ trees: value, expected dump and warnings

FAIL = object()
CONTAINERS = ['list', 'dict', 'tuple', 'nt', 'object']


def shapes(n, top=True):
    """Trees of exactly n nodes: a leaf is 'g' (good) or 'b' (failing), an inner node (kind, children)."""
    if n not in _shapes:
        res = []
        if n == 1:
            res = ['g', 'b']
        else:
            for k in (1, 2, 3):
                for parts in compositions(n - 1, k):
                    for kids in itertools.product(*[shapes(p) for p in parts]):
                        for c in CONTAINERS:
                            if c in ('tuple', 'nt', 'dict') and k == 3:
                                continue
                            res.append((c, kids))
        _shapes[n] = res
    return _shapes[n]


_shapes = {}


def compositions(total, k):
    if k == 0:
        if total == 0:
            yield ()
        return
    for first in range(1, total - k + 2):
        for rest in compositions(total - first, k - 1):
            yield (first,) + rest


class Build:
    """A value of a shape together with its dump and the warnings in the order they are given."""

    def __init__(self, kind, typed=True):
        self.kind = kind
        self.warnings = []
        self.bad = 0
        self.good = 0
        self.reasons = []

    def make(self, s):
        if s == 'g':
            self.good += 1
            v = [1, 'x', None, 2.5, True][self.good % 5]
            return v, v
        if s == 'b':
            n = self.bad % len(ERRORS)
            self.bad += 1
            self.reasons.append(n)
            return Bad(n), FAIL
        c, kids = s
        made, failed = [], False
        for k in kids:
            seen = len(self.warnings)
            v, j = self.make(k)
            if failed and c != 'object':
                del self.warnings[seen:]        # the first failing element ends the dump of the container
            failed = failed or j is FAIL
            made.append((v, j))
        vals, js = [v for v, _ in made], [j for _, j in made]
        if c == 'list':
            return vals, FAIL if failed else js
        if c == 'tuple':
            return tuple(vals), FAIL if failed else js
        if c == 'dict':
            return {'k%d' % i: v for i, v in enumerate(vals)}, FAIL if failed else {'k%d' % i: j for i, j in enumerate(js)}
        if c == 'nt':
            NT = collections.namedtuple('NTx', ['f%d' % i for i in range(len(vals))])
            return NT(*vals), FAIL if failed else {'f%d' % i: j for i, j in enumerate(js)}
        items = [('a%d' % i, type(v), v) for i, v in enumerate(vals)]
        o = KINDS[self.kind](items)
        for i, j in enumerate(js):
            if j is FAIL:
                self.warnings.append('a%d' % i)
        return o, {'a%d' % i: j for i, j in enumerate(js) if j is not FAIL}


def dump(fn):
    with caught() as w:
        try:
            r = ('ok', fn())
        except Exception as err:
            r = ('err', err)
    return r, [str(x.message) for x in w]


def named(ws):
    """(attribute, class) of each warning."""
    res = []
    for x in ws:
        if not x.startswith('Failed to dump attribute "') or 'suppress_warning(attribute-not-serialized)' not in x:
            res.append(('?', x))
        else:
            res.append((x.split('"')[1], x.split('"')[3]))
    return res


def one(ctx, shape, kind):
    b = Build(kind)
    v, j = b.make(shape)
    what = '%s %r' % (kind, shape)
    before = snap(v)
    ctx.step()
    r, w = dump(lambda: jsons.dump(v))
    if j is FAIL:
        if r[0] == 'ok' or not isinstance(r[1], jsons.SerializationError):
            ctx.fail('lenient|' + kind, 'dump(%s) gives %r, expected a SerializationError' % (what, r[1]))
        elif not any(str(r[1]) == x for x in texts(b.reasons)):
            ctx.fail('reason|' + kind, 'dump(%s) raises %r, expected one of %r' % (what, str(r[1]), texts(b.reasons)))
    elif r[0] != 'ok' or not same(r[1], j):
        ctx.fail('lenient|' + kind, 'dump(%s) gives %r, expected %r' % (what, r[1], j))
    elif Counter(a for a, _ in named(w)) != Counter(b.warnings) or any(c != 'O' for _, c in named(w)):
        ctx.fail('warnings|' + kind, 'dump(%s) warns %r, expected %r' % (what, w, b.warnings))
    else:
        for (a, _), x in zip(named(w), w):
            if not any('Reason: %s. Ignoring' % t in x for t in texts(b.reasons)):
                ctx.fail('why|' + kind, 'dump(%s) warns %r without a reason' % (what, x))
    if kind in STRICT_KINDS and kind != 'sl':
        ctx.step()
        r, w = dump(lambda: jsons.dump(v, strict=True))
        if b.bad:
            if r[0] == 'ok' or not isinstance(r[1], jsons.SerializationError):
                ctx.fail('strict|' + kind, 'dump(%s, strict=True) gives %r' % (what, r[1]))
            elif not any(str(r[1]) == t for t in texts(b.reasons)):
                ctx.fail('strict|reason|' + kind, 'dump(%s, strict=True) raises %r, expected one of %r' % (what, str(r[1]), texts(b.reasons)))
            if w:
                ctx.fail('strict|warned|' + kind, 'dump(%s, strict=True) warns %r' % (what, w))
        elif r[0] != 'ok' or not same(r[1], j):
            ctx.fail('strict|' + kind, 'dump(%s, strict=True) gives %r, expected %r' % (what, r[1], j))
    if snap(v) != before:
        ctx.fail('changed|' + kind, 'dump(%s) changed the value' % what)
    ctx.state(shape, kind)
    ctx.trace()
    ctx.outcome('fails' if j is FAIL else '%d left out' % len(b.warnings))


def texts(reasons):
    res = []
    for n in reasons:
        res += [reason(n), str(ERRORS[n]), repr(ERRORS[n])]
    return res


def trees(ctx, n, kind, shard, shards):
    for i, s in enumerate(shapes(n)):
        if i % shards == shard:
            one(ctx, s, kind)


# ------------------------------------------------------------------ subsets of attributes, options

OPTS = [{}, {'strip_nulls': True}, {'key_transformer': CAMEL}, {'strip_privates': True}, {'strip_attr': 'b_c'}, {'strip_attr': ('b_c', 'd')}, {'verbose': jsons.Verbosity.WITH_CLASS_INFO},
        {'unknown': 1}, {'use_enum_name': False}, {'strip_nulls': True, 'key_transformer': CAMEL, 'strip_privates': True}]
NAMES = ['a', 'b_c', '_p', 'd', 'e_', 'f0', '_g']


def attributes(ctx, kind, n, err):
    names = NAMES[:n]
    good = [1, None, 'x', [1], {'k': 2}, 3, 4]
    for mask in itertools.product((0, 1), repeat=n):
        items = [(k, Bad if m else type(good[i]), Bad((err + i) % len(ERRORS)) if m else good[i]) for i, (k, m) in enumerate(zip(names, mask))]
        o = KINDS[kind](items)
        kept = KINDS[kind]([it for it, m in zip(items, mask) if not m]) if kind not in ('prop', 'inh') else None
        for opts in OPTS:
            ctx.step()
            stripped = {k for k in names if k in ((opts.get('strip_attr'),) if isinstance(opts.get('strip_attr'), str) else opts.get('strip_attr', ())) or opts.get('strip_privates') and k[0] == '_'}
            want = {}
            kt = opts.get('key_transformer') or (lambda x: x)
            for (k, _, v), m in zip(items, mask):
                name = k.lstrip('_') if kind == 'at' and not opts.get('strip_privates') else k
                if k not in stripped and not m and not (v is None and opts.get('strip_nulls')):
                    want[kt(name)] = v
            fails = [k for k, m in zip(names, mask) if m and k not in stripped]
            r, w = dump(lambda: jsons.dump(o, **opts))
            got = {k: v for k, v in r[1].items() if k != '-meta'} if r[0] == 'ok' else r[1]
            if r[0] != 'ok' or not same(got, want):
                ctx.fail('attributes|' + kind, 'dump of %r with %r failing and %r gives %r, expected %r' % (names, fails, opts, r[1], want))
            elif Counter(a for a, _ in named(w)) != Counter(fails):
                ctx.fail('attributes|warnings|' + kind, 'dump of %r with %r failing and %r warns %r' % (names, fails, opts, w))
            if kind in STRICT_KINDS:
                ctx.step()
                r, w = dump(lambda: jsons.dump(o, strict=True, **opts))
                if fails:
                    if r[0] == 'ok' or not isinstance(r[1], jsons.SerializationError) or str(r[1]) not in texts([(err + names.index(fails_k)) % len(ERRORS) for fails_k in fails]):
                        ctx.fail('attributes|strict|' + kind, 'strict dump of %r with %r failing and %r gives %r' % (names, fails, opts, r[1]))
                elif r[0] != 'ok' or not same({k: v for k, v in r[1].items() if k != '-meta'}, want):
                    ctx.fail('attributes|strict|' + kind, 'strict dump of %r with nothing failing (%r) and %r gives %r, expected %r' % (names, mask, opts, r[1], want))
                if w:
                    ctx.fail('attributes|strict|warned|' + kind, 'strict dump of %r with %r warns %r' % (names, opts, w))
            ctx.state(kind, err, mask, sorted(opts))
        ctx.trace()


# ------------------------------------------------------------------ natural failures

def natural(ctx, name):
    tp, v = NATURAL[name]
    for pos in range(3):
        items = [('a', int, 1), ('b', str, 'x')]
        items.insert(pos, ('z', tp, v))
        for kind in sorted(KINDS):
            if kind not in ('dc', 'at', 'inh') and name not in ('getter', 'in list', 'in dict', 'in tuple', 'tz', 'list in list', 'optional'):
                continue        # the failure comes from the annotation
            for wrap in ('plain', 'in object', 'in list', 'in dict', 'twice'):
                o = KINDS[kind](items)
                want = {'a': 1, 'b': 'x'}
                n = 1
                if wrap == 'in object':
                    o = KINDS[kind]([('p', int, 1), ('o', type(o), o), ('q', int, 2)])
                    want = {'p': 1, 'o': want, 'q': 2}
                elif wrap == 'in list':
                    o, want = [o, 5], [want, 5]
                elif wrap == 'in dict':
                    o, want = {'k': o, 'l': [1]}, {'k': want, 'l': [1]}
                elif wrap == 'twice':
                    o, want, n = [o, [o]], [want, [want]], 2
                ctx.step()
                r, w = dump(lambda: jsons.dump(o))
                if r[0] != 'ok' or not same(r[1], want):
                    ctx.fail('natural|%s|%s' % (name, kind), 'dump of a %s with a failing z (%s) gives %r, expected %r' % (wrap, name, r[1], want))
                elif [a for a, _ in named(w)] != ['z'] * n:
                    ctx.fail('natural|%s|%s|warnings' % (name, kind), 'dump of a %s with a failing z (%s) warns %r' % (wrap, name, w))
                if kind in STRICT_KINDS:
                    ctx.step()
                    r, w = dump(lambda: jsons.dump(o, strict=True))
                    if r[0] == 'ok' or not isinstance(r[1], jsons.SerializationError) or not str(r[1]):
                        ctx.fail('natural|%s|%s|strict' % (name, kind), 'strict dump of a %s with a failing z (%s) gives %r' % (wrap, name, r[1]))
                ctx.state(name, pos, kind, wrap)
                ctx.trace()


def only_jsons_errors(ctx, _):
    """Whatever is dumped with whatever type, the only exceptions are JsonsErrors."""
    import ucls
    values = [1, 'x', None, [1], {'a': 1}, (1, 2), {1, 2}, 1.5, b'x', object(), int, len, lambda: 1, ..., NotImplemented, range(3), iter([1]), (x for x in [1]), Bad(0), Selfish(), HashFails(), Color.RED,
              dtm.datetime(2020, 1, 1, tzinfo=NoOffset()), ucls.DC(1, 'x'), memoryview(b'x'), 2 ** 5000, float('nan'), 1j, Exception('x'), type, Ellipsis, slice(1), property(), uuid.UUID(int=1)]
    cyc = []
    cyc.append(cyc)
    cyd = {}
    cyd['k'] = cyd
    values += [cyc, cyd]
    types = [None, int, str, list, dict, tuple, set, List[int], Dict[str, int], Tuple[int, int], Optional[int], Union[int, str], Color, dtm.datetime, dtm.timedelta, uuid.UUID, complex, ucls.DC, ucls.NT, Bad,
             object, J, type, Exception, ucls.Slots, ucls.Attrs]
    for v, tp in itertools.product(values, types):
        for strict in (False, True):
            ctx.step()
            r, w = dump(lambda: jsons.dump(v, tp, strict=strict))
            if r[0] == 'err' and not isinstance(r[1], jsons.JsonsError):
                ctx.fail('error', 'dump(%.80r, %s, strict=%s) raises %r' % (type(v), tp, strict, r[1]))
            elif r[0] == 'err' and type(r[1]) is not jsons.SerializationError:
                ctx.fail('error', 'dump(%.80r, %s, strict=%s) raises %r' % (type(v), tp, strict, r[1]))
            ctx.outcome(r[0])
        ctx.state(type(v).__name__, str(tp), len(str(type(v))))
        ctx.trace()
    for v in (Selfish(), [Selfish()], {'k': Selfish()}):
        # an endless recursion is cut off somewhere; what surrounds it is dumped
        ctx.step()
        r, w = dump(lambda: jsons.dump(kind_pl([('a', int, 1), ('z', object, v), ('b', int, 2)])))
        if r[0] != 'ok' or r[1].get('a') != 1 or r[1].get('b') != 2:
            ctx.fail('recursion', 'dump of an object with an endless attribute gives %.200r' % (r[1],))


def cases(tier):
    for n in range(1, nodes(tier) + 1):
        for kind in sorted(KINDS):
            if n == 6 and kind not in ('dc', 'pl'):
                continue
            shards = 1 if n < 5 else 4 if n == 5 else 32
            for s in range(shards):
                if n == 5 and tier != 'thorough' and kind not in ('dc', 'pl'):
                    continue
                yield Case('tree:%d:%s:%d' % (n, kind, s), ('trees', n, kind, s, shards))
    for kind in sorted(KINDS):
        for n in range(1, width(tier) + 1):
            for e in range(len(ERRORS)) if n < 4 else (0,):
                yield Case('attrs:%s:%d:%d' % (kind, n, e), ('attributes', kind, n, e))
    for name in NATURAL:
        yield Case('natural:' + name, ('natural', name))
    yield Case('errors', ('only_jsons_errors', None))


def run(ctx, args):
    globals()[args[0]](ctx, *args[1:])
