"""C01 typed round trip."""
import dataclasses
import itertools
import types
from typing import Any, Deque, Dict, List, Optional, Set, Tuple, Union

from core import Case
from universe import *  # noqa
import jsons

PROPERTY = 'C01'
LENS = (1, 2, 4, 5, 7, 8, 9, 10, 11, 12, 16, 17, 31, 33, 64, 65, 100, 129)


def roundtrip(ctx, t, v, label, withcls=(False, True), vias=('mem', 'text', 'bytes')):
    for strict, withcls, via in itertools.product((False, True), withcls, vias):
        if strict and ('WithProp' in t.name or 'WithClassVar' in t.name or 'Dyn' in t.name):
            continue    # a strict load does not accept dumped properties and class variables, nor undeclared attributes
        kw = {'strict': True} if strict else {}
        dk = dict(kw)
        if withcls:
            dk['cls'] = t.tp
        key = '%s|%s|%s|%s|%s' % (t.name, label, 'strict' if strict else 'lenient', 'cls' if withcls else 'nocls', via)
        try:
            if via == 'mem':
                j = jsons.dump(v, **dk)
                r = jsons.load(j, t.tp, **kw)
            elif via == 'text':
                j = jsons.dumps(v, **dk)
                r = jsons.loads(j, t.tp, **kw)
            else:
                j = jsons.dumpb(v, **dk)
                r = jsons.loadb(j, t.tp, **kw)
        except Exception as err:
            ctx.fail('rt|' + key, 'round trip raised %s: %s' % (type(err).__name__, err), type=t.name, value=v)
            continue
        ctx.step(2)
        ctx.trace()
        ctx.state(t.name, label, strict, withcls, via, repr(j)[:80])
        if not same(r, v):
            ctx.fail('rt|' + key, 'load(dump(x)) differs: %r -> %r -> %r' % (v, j, r), type=t.name)
        else:
            ctx.outcome('%s/%s' % (type(j).__name__, type(r).__name__))


PAIR_REPS = ('int', 'str', 'datetime', 'Color', 'DC', 'Optional[int]', 'List[str]')
PAIR_KINDS = ('Tuple',) + OBJ_KINDS


def pair_terms(a, kind, thorough):
    """Two different types next to each other, in both orders."""
    t = {**LEAF, **OBJ}[a]
    for b in (LEAVES + OBJECTS + [EXTRA[n] for n in EXTRA] if thorough else [REPS[n] for n in PAIR_REPS]):
        for ts in ((t, b), (b, t)):
            yield Tuple_(*ts) if kind == 'Tuple' else obj_of(kind, *ts)


EXTRA = {'Optional[int]': Optional_(LEAF['int']), 'List[str]': List_(LEAF['str'])}
REPS = {**LEAF, **OBJ, **EXTRA}


def unions(ctx, a):
    """Every value of a member that the members before it reject comes back as it was."""
    s = REPS[a]
    for t in LEAVES + OBJECTS + list(EXTRA.values()):
        # (List[Union[b, a]] is List[Union[a, b]] within one process, so the other order is another case)
        for first, second in ((s, t),):
            if first is second or first.tp is NoneType or second.tp is NoneType or 'Optional' in first.name + second.name:
                continue
            good = [(v, j) for v, j in second.vals if rejects(first, j)]
            u = T('Union[%s,%s]' % (first.name, second.name), Union[first.tp, second.tp], first.vals[:2] + good[:2], lambda x: True)
            roundtrips(ctx, u, withcls=(True,) if first.tp is not str else (False,))
            for c in (List_, Dict_, Optional_):
                roundtrips(ctx, c(u), withcls=(False,), vias=('mem',))
            roundtrips(ctx, obj_of('Dc', u), withcls=(False,))


def rejects(t, j):
    for strict in (False, True):
        try:
            jsons.load(j, t.tp, strict=strict)
            return False
        except jsons.JsonsError:
            pass
    return True


def roundtrips(ctx, t, **kw):
    for i, (v, j) in enumerate(t.vals):
        roundtrip(ctx, t, v, i, **kw)


# ------------------------------------------------------------------ sizes, values

def lengths(ctx, n):
    ints = [(-1) ** i * i for i in range(n)]
    dts = [D(2020, 1, 1, i % 24, i % 60, tz=UTC) + dtm.timedelta(days=i) for i in range(n)]
    dcs = [DC(i, 's%d' % i) for i in range(n)]
    opt = [None if i % 3 == 0 else i for i in range(n)]
    nest = [[j for j in range(i % 4)] for i in range(n)]
    for name, tp, vs in (('int', int, ints), ('datetime', dtm.datetime, dts), ('DC', DC, dcs), ('Optional', Optional[int], opt), ('List', List[int], nest)):
        conts = [(List[tp], vs), (Tuple[tp, ...], tuple(vs)), (Deque[tp], deque(vs)), (Dict[str, tp], {'k%d' % i: v for i, v in enumerate(vs)}), (Tuple[(tp,) * n], tuple(vs)),
                 (List[List[tp]], [vs, [], vs[:1]])]
        if name in ('int', 'datetime'):
            conts += [(Set[tp], set(vs)), (Dict[tp, int], {v: i for i, v in enumerate(vs)})]
        for ctp, v in conts:
            if str(ctp).startswith('typing.Tuple[()'):
                continue
            roundtrip(ctx, T('%s of %d' % (name, n), ctp, [(v, None)], lambda x: True), v, str(ctp)[:60])
    # wide classes
    for kind in OBJ_KINDS:
        ts = [[LEAF['int'], LEAF['str'], LEAF['datetime'], OBJ['DC']][i % 4] for i in range(n)]
        roundtrips(ctx, obj_of(kind, *ts))


def towers(ctx, name):
    """Chains of the same container, deep."""
    f = {'list': List_, 'dict': Dict_, 'tuple': VTuple_, 'optional list': lambda t: Optional_(List_(t)), 'dc': lambda t: obj_of('Dc', t), 'nt': lambda t: obj_of('Nt', t),
         'pl': lambda t: obj_of('Pl', t), 'newtype': NewType_}[name]
    for leaf in ('int', 'datetime', 'DC'):
        t = REPS[leaf]
        for d in range(1, 13):
            t = f(t)
            t.vals = t.vals[1:3] if len(t.vals) > 2 else t.vals[:2]
            for v, j in t.vals[:1]:
                roundtrip(ctx, t, v, d)


CHARS = ['', ' ', 'a', 'Z', '0', '1', '-', ':', 'T', '+', '.', '_', '/', '\\', '"', "'", '{', '[', '\n', '\t', '\x00', '\x7f', '\xe9', '\u0131', '\u2028', '\ud800', '\U0001f600', 'null', 'true', '-meta', '-keys',
         '2020-01-02T03:04:05Z', '2020-01-02', '1.5', '1e5', 'NaN', '__class__', 'None']


def values(ctx, name):
    vs = []
    tp = None
    if name == 'str':
        tp, vs = str, [a + b for a in CHARS for b in CHARS]
    elif name == 'int':
        tp, vs = int, sorted({s * (2 ** k + d) for k in range(0, 130) for d in (-1, 0, 1) for s in (1, -1)}) + [10 ** 300]
    elif name == 'float':
        tp, vs = float, [s * m * 2.0 ** k for k in range(-1074, 1024, 7) for m in (1.0, 1.9999999999999998, 1.1) for s in (1, -1) if abs(m * 2.0 ** k) < float('inf')] + [0.0, -0.0, 0.1, 1e-5, 1e16, 5e-324, float('inf'), float('-inf')]
    elif name == 'Decimal':
        tp, vs = decimal.Decimal, [decimal.Decimal((s, tuple(map(int, d)), e)) for s in (0, 1) for d in ('0', '1', '10', '100', '123456789012345678901234567890', '05') for e in range(-30, 31, 3)] + \
            [decimal.Decimal(x) for x in ('Infinity', '-Infinity', '1E+400', '1E-400', '0E+3', '-0.00')]
    elif name == 'UUID':
        tp, vs = uuid.UUID, [uuid.UUID(int=2 ** k - d) for k in range(1, 129) for d in (0, 1) if 2 ** k - d < 2 ** 128]
    elif name == 'complex':
        fs = [0.0, -0.0, 1.0, -1.5, 1e300, 5e-324, 3]
        tp, vs = complex, [complex(a, b) for a in fs for b in fs]
    elif name == 'bool':
        tp, vs = bool, [True, False]
    elif name == 'path':
        parts_ = ['', 'a', '..', '.', 'b c', '\xe9', '/', ' a ', 'c:', 'a.b.', '~', 'x\\y', '\n', '%20', '//']
        tp, vs = pathlib.PurePosixPath, [pathlib.PurePosixPath(a, b, c) for a in parts_ for b in parts_ for c in parts_]
    elif name == 'winpath':
        parts_ = ['', 'a', '..', 'b c', ' a', 'c:', 'C:\\', '\\\\host\\share\\', 'x/y', 'a.b']
        tp, vs = pathlib.PureWindowsPath, [pathlib.PureWindowsPath(a, b, c) for a in parts_ for b in parts_ for c in parts_]
    elif name == 'keys':
        tp, vs = Dict[str, int], [{a + b: 1, a: 2} for a in CHARS for b in CHARS if '-meta' not in (a, a + b) and '-keys' not in (a, a + b)]
    elif name == 'date':
        tp, vs = dtm.date, [dtm.date(y, m, d) for y in (1, 99, 1000, 1899, 1900, 1970, 2000, 2020, 2100, 9999) for m in range(1, 13) for d in (1, 2, 28)] + [dtm.date(y, 2, 29) for y in (4, 1600, 2000, 2020)]
    elif name == 'time':
        tp, vs = dtm.time, [dtm.time(h, m, s) for h in (0, 1, 11, 12, 23) for m in (0, 1, 59) for s in (0, 1, 59)]
    elif name == 'timedelta':
        tp, vs = dtm.timedelta, [s * dtm.timedelta(days=d, seconds=x, microseconds=u) for s in (1, -1) for d in (0, 1, 365, 99000) for x in (0, 1, 86399) for u in (0, 1, 999999, 500000)]
    for i, v in enumerate(vs):
        surrogate = '\ud800' in str(v)
        t = T(name, tp, [(v, None)], lambda x: True)
        roundtrip(ctx, t, v, i, vias=('mem', 'text') if surrogate else ('mem', 'text', 'bytes'))
        if name != 'keys' and i % 3 == 0:
            roundtrip(ctx, T('field ' + name, obj_of('Dc', t).tp, [], None), obj_of('Dc', t).tp(v), i, vias=('mem', 'text'), withcls=(False,))


VALUES = ('str', 'int', 'float', 'Decimal', 'UUID', 'complex', 'bool', 'path', 'winpath', 'keys', 'date', 'time', 'timedelta')
ANYS = [1, 'x', None, True, 1.5, [], [1, [2]], {'a': {'b': None}}, [{'k': [1]}], '2020']
TOWERS = ('list', 'dict', 'tuple', 'optional list', 'dc', 'nt', 'pl', 'newtype')


def anys(ctx, _):
    """Positions of type Any (or without parameters) hold JSON values."""
    A = T('Any', Any, [(v, v) for v in ANYS], lambda x: True)
    for c in (List_, Dict_, VTuple_, Optional_, Sequence_, Mapping_):
        roundtrips(ctx, c(A))
    for k in OBJ_KINDS:
        roundtrips(ctx, obj_of(k, A))
        roundtrips(ctx, obj_of(k, LEAF['datetime'], A, OBJ['DC']))
    for v in ANYS:
        for tp in (list, List):
            if isinstance(v, list):
                roundtrip(ctx, T('bare list', tp, [], None), v, repr(v))
        for tp in (dict, Dict):
            if isinstance(v, dict):
                roundtrip(ctx, T('bare dict', tp, [], None), v, repr(v))


EQUALS = [0, False, 0.0, -0.0, 1, True, 1.0, '', '1', None, [], [1], [True], {}, {'a': 1}, {'a': 1.0}]


def equals(ctx, i):
    """JSON values that are equal (or as good as) but of different types, next to each other."""
    third = EQUALS if ctx.thorough else EQUALS[:7]
    seqs = [[EQUALS[i], b] for b in EQUALS] + [[EQUALS[i], b, c] for b in EQUALS for c in third]
    for n, vs in enumerate(seqs):
        kv = {'k%d' % k: v for k, v in enumerate(vs)}
        for name, tp, v in (('list', list, vs), ('List', List, vs), ('List[Any]', List[Any], vs), ('Dict[str, Any]', Dict[str, Any], kv), ('dict', dict, kv), ('Tuple[Any, ...]', Tuple[Any, ...], tuple(vs)),
                            ('Tuple', Tuple[(Any,) * len(vs)], tuple(vs)), ('Deque[Any]', Deque[Any], deque(vs))):
            roundtrip(ctx, T('equal ' + name, tp, [], None), v, '%d %r' % (n, vs), vias=('mem',), withcls=(False,))
        for v in (vs, kv):
            j = jsons.load(v)
            ctx.step()
            ctx.expect(same(j, v), 'rt|equal untyped|%d %r' % (n, vs), 'load(%r) without a type gives %r' % (v, j))


DEFAULTS = {
    'int': (int, [5, 0, -1]), 'str': (str, ['d', '', 'None']), 'bool': (bool, [True, False]), 'float': (float, [1.5, 0.0]), 'Optional[str]': (Optional[str], ['none', '', None, 'x']),
    'Optional[int]': (Optional[int], [3, 0, None]), 'Optional[List[int]]': (Optional[List[int]], [None, (), (1, 2)]), 'Tuple[int, ...]': (Tuple[int, ...], [(), (1, 2)]), 'timedelta': (dtm.timedelta, [dtm.timedelta(0), dtm.timedelta(1)]),
    'Color': (Color, list(Color)[:2]), 'Any': (Any, [None, 1, '', False]), 'Decimal': (decimal.Decimal, [decimal.Decimal(0), decimal.Decimal('1.50')]), 'Optional[datetime]': (Optional[dtm.datetime], [None, D(2020, 1, 1, tz=UTC)]),
    'Optional[bool]': (Optional[bool], [True, False, None]), 'Optional[float]': (Optional[float], [2.5, 0.0, None]),
}
DEF_KINDS = ('plain', 'keyword-only', 'slots', 'dataclass', 'attrs', 'named tuple', 'JsonSerializable')


def defaulted(kind, a, b):
    """A class with two fields that have a default: ((name, type, default), ...)"""
    fs = (('p',) + a, ('q',) + b)
    if kind == 'dataclass':
        return dataclasses.make_dataclass('Dd', [('req', int)] + [(n, t, dataclasses.field(default=d)) for n, t, d in fs])
    if kind == 'attrs':
        import attr
        return attr.make_class('Dd', {'req': attr.ib(type=int), **{n: attr.ib(type=t, default=d) for n, t, d in fs}}, eq=True)
    if kind == 'named tuple':
        ns = {'__module__': __name__, '__qualname__': 'Dd', '__annotations__': {'req': int, **{n: t for n, t, _ in fs}}, **{n: d for n, _, d in fs}}
        import typing
        return types.new_class('Dd', (typing.NamedTuple,), exec_body=lambda d: d.update(ns))
    kwonly = kind == 'keyword-only'
    ns = {'T0': fs[0][1], 'T1': fs[1][1], 'D0': fs[0][2], 'D1': fs[1][2]}
    exec('def __init__(self, req: int, %sp: T0 = D0, q: T1 = D1):\n    self.req, self.p, self.q = req, p, q' % ('*, ' if kwonly else ''), ns)
    body = {'__init__': ns['__init__'], '__eq__': lambda s, o: type(s) is type(o) and all(same(getattr(s, n), getattr(o, n)) for n in ('req', 'p', 'q')), '__hash__': None}
    if kind == 'slots':
        body['__slots__'] = ('req', 'p', 'q')
    return type('Dd', (jsons.JsonSerializable,) if kind == 'JsonSerializable' else (object,), body)


def defaults(ctx, kind, name):
    """Every value of a field that has a default, whatever the default is."""
    tp, pool = DEFAULTS[name]
    real = [[1, 2] if v == (1, 2) and name.startswith('Opt') else [] if v == () and name.startswith('Opt') else v for v in pool]
    for d in pool:
        for other, (otp, opool) in DEFAULTS.items():
            if not ctx.thorough and other not in ('int', 'Optional[str]'):
                continue
            cls = defaulted(kind, (tp, d), (otp, opool[0]))
            t = T('%s with %s=%r, %s' % (kind, name, d, other), cls, [], None)
            for v in real:
                for w in opool:
                    w = list(w) if isinstance(w, tuple) and other.startswith('Opt') else w
                    x = cls(3, p=v, q=w)
                    roundtrip(ctx, t, x, '%r, %r' % (v, w), vias=('mem',), withcls=(False,) if w is not opool[0] else (False, True))
                    if w is opool[0]:
                        roundtrip(ctx, T('list of ' + t.name, List[cls], [], None), [x, cls(4, p=real[-1]) if isinstance(d, tuple) else cls(4), x], '%r' % (v,), vias=('mem',), withcls=(False,))


def cases(tier):
    for d in (0, 1):
        for t in terms(d):
            yield Case('d%d:%s' % (t.depth, t.name), ('term', t))
    reps = [LEAF[n] for n in ('int', 'str', 'datetime', 'Color', 'float')] + [OBJ['DC'], OBJ['NT'], OBJ['Plain']]
    if tier == 'thorough':
        reps = LEAVES + OBJECTS
    for t in terms(2, reps):
        yield Case('dd:%s' % t.name, ('term', t))
    if tier == 'thorough':
        for t in terms(3, [LEAF['int'], LEAF['datetime'], OBJ['DC']]):
            yield Case('d3:%s' % t.name, ('term', t))
    for n in LENS:
        yield Case('len:%d' % n, ('len', n))
    for n in TOWERS:
        yield Case('tower:' + n, ('tower', n))
    for t in LEAVES + OBJECTS:
        for k in PAIR_KINDS:
            yield Case('pair:%s:%s' % (t.name, k), ('pair', t.name, k))
        yield Case('union:' + t.name, ('union', t.name))
    for n in VALUES:
        yield Case('values:' + n, ('values', n))
    yield Case('any', ('any',))
    for i in range(len(EQUALS)):
        yield Case('equals:%r' % (EQUALS[i],) + '-%d' % i, ('equals', i))
    for k in DEF_KINDS:
        for n in DEFAULTS:
            yield Case('defaults:%s:%s' % (k, n), ('defaults', k, n))


def run(ctx, args):
    if args[0] == 'term':
        roundtrips(ctx, args[1])
    elif args[0] == 'pair':
        for t in pair_terms(args[1], args[2], ctx.thorough):
            if not ctx.thorough:
                t.vals = t.vals[:2]
            roundtrips(ctx, t, vias=('mem', 'text'))
    elif args[0] == 'union':
        unions(ctx, args[1])
    elif args[0] == 'values':
        values(ctx, args[1])
    elif args[0] == 'len':
        lengths(ctx, args[1])
    elif args[0] == 'equals':
        equals(ctx, args[1])
    elif args[0] == 'defaults':
        defaults(ctx, args[1], args[2])
    elif args[0] == 'tower':
        towers(ctx, args[1])
    else:
        anys(ctx, None)


ASSUMPTIONS = ['values of the declared type universe (supported types, date-times with whole-minute offsets, timedeltas below 2**33 s)',
               'positions of type Any, and containers without parameters, hold JSON values', 'a Union gives back the values of a member that the members before it reject',
               'no strict mode for dumped properties and class variables and undeclared attributes (a strict load rejects these by design)']


def BOUNDS(tier):
    return {'type terms': 'all leaves and classes, every container and object kind over them, twice over %s' % ('all, three times over int/datetime/DC' if tier == 'thorough' else '8 representatives'),
            'neighbours': 'every leaf and class next to %s, in both orders, in %d kinds of containers' % ('every other one' if tier == 'thorough' else PAIR_REPS, len(PAIR_KINDS)),
            'unions': 'all ordered pairs of members, at the root and in containers and fields', 'lengths': 'containers and classes of %r elements' % (LENS,), 'depth': 'towers of up to 12 equal containers',
            'values': 'boundary values: %s' % ', '.join(VALUES), 'equal values': 'sequences of up to 3 of %d JSON values that are equal but of different types' % len(EQUALS),
            'defaults': 'fields with defaults: %d kinds of classes x %d types x every default x every value' % (len(DEF_KINDS), len(DEFAULTS)), 'modes': 'lenient/strict x with/without cls x memory/text/bytes'}
