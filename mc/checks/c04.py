"""C04 the result of a call does not depend on the calls before it."""
import copy
import itertools
import threading
import typing
from dataclasses import dataclass, make_dataclass

from core import Case, Ctx
from lib import caught, forked, merge
from universe import *  # noqa
import ucls
import jsons
from jsons.decorators import loaded, dumped

PROPERTY = 'C04'
ASSUMPTIONS = ['no registration happens between the compared calls; class names that cannot be imported are found only '
               'after the class was announced or dumped (documented), so they are not part of the alphabet']


def BOUNDS(tier):
    return {'alphabet': '%d calls' % len(OPS), 'separate calls': 'all pairs; all triples over %d calls%s' %
            (len(walk_ops(tier)), ' and a fork tree over the core'), 'calls that leave a warm cache': 'all pairs (the first one is interrupted by a '
            'KeyboardInterrupt inside a nested serializer / deserializer), all warm-warm-call triples over the core',
            'inside one call': 'all pairs and all triples over the elements (dump of a list/dict/tuple, load of a Tuple)',
            'one type': 'all ordered pairs over up to %d sources (near-equal ones) and all values of each of %d types'
                        % (80 if tier == 'thorough' else 44, len(pair_terms(tier))),
            'one source': 'all ordered pairs of types over %d sources' % len(PAIR_SRC),
            'values': 'all ordered pairs of dumps of up to three values of every type',
            'equal values': 'all triples of dumps of the values of %d groups of equal values with different representations in %d positions' % (len(ALIKE), len(BOXES)),
            'identity': 'series of temporary objects of %d kinds, objects that change, classes that change in %d ways' % (len(RECYCLED), len(EVOLVING)),
            'cache overflow': 'calls that go through 150 and 300 types first'}


class Kill:
    """Dumping or loading one is interrupted."""


class Poison:
    """Dumping or loading one fails."""


@dataclass
class U1:
    x: Union[int, str]


@dataclass
class U2:
    x: Union[str, int]


@dataclass
class Base:
    a: int


@dataclass
class Sub(Base):
    b: Optional[str] = 'dflt'


class Dyn(Eq):
    """Instances with different attributes."""

    def __init__(self, **kw):
        self.__dict__.update(kw)


class Prop(Eq):
    cv = 5

    def __init__(self, a: int = 3):
        self.a = a
        self._p = 1

    @property
    def twice(self):
        return self.a * 2


class Re(Eq):
    """A class whose serializer and deserializer call jsons again."""

    def __init__(self, x):
        self.x = x


class Holder(Eq):
    def __init__(self, p: Re, q: Base, r: Union[int, str]):
        self.p, self.q, self.r = p, q, r


class Levels(Eq):
    """Attributes that have a type and a value in the class, but no constructor."""
    u: uuid.UUID = None
    n: Optional[decimal.Decimal] = decimal.Decimal(3)
    k: 'Tuple[int, ...]' = ()
    late: pathlib.PurePath

    def __init__(self, n: float = 1.5):
        self.n = n

    @classmethod
    def make(cls, **kw):
        r = cls()
        r.__dict__.update(kw)
        return r


class SubLevels(Levels):
    k: Set[int] = frozenset()

    @property
    def late(self):
        return 1


for _c in (Kill, Poison, U1, U2, Base, Sub, Dyn, Prop, Re, Holder, Levels, SubLevels):
    _c.__module__ = 'ucls'
    setattr(ucls, _c.__name__, _c)


class M1:
    @dataclass
    class Same:
        a: int


class M2:
    @dataclass
    class Same:
        b: str
        c: int = 4


def twin(n):
    if n == 1:
        @dataclass
        class Twin:
            a: int
    else:
        @dataclass
        class Twin:
            b: str
            c: Optional[int] = 4
    Twin.__qualname__ = 'Twin'
    Twin.__module__ = 'twinmod'
    return Twin


T1, T2 = twin(1), twin(2)       # different classes of equal names
M1.Same.__module__, M2.Same.__module__ = 'ucls', 'othermod'
F1 = F2 = JF = None


def boom(*a, **kw):
    raise KeyboardInterrupt


def fail(*a, **kw):
    raise ValueError('poison')


def setup():
    """The configuration: made before the history starts, never changed."""
    global F1, F2, JF
    jsons.set_serializer(boom, Kill)
    jsons.set_deserializer(boom, Kill)
    jsons.set_serializer(fail, Poison)
    jsons.set_deserializer(fail, Poison)
    jsons.set_serializer(lambda o, **kw: {'x': jsons.dump(o.x, strict=True), 'y': jsons.load('2020-01-02T03:04:05Z').year}, Re)
    jsons.set_deserializer(lambda o, cls, **kw: Re(jsons.load(jsons.dump(o['x']), int)), Re)
    F1 = jsons.fork()
    jsons.set_serializer(lambda o, **kw: 'F1!', dtm.datetime, fork_inst=F1)
    jsons.set_serializer(lambda o, **kw: 'int%d' % o, int, fork_inst=F1)
    jsons.set_deserializer(lambda o, cls, **kw: 'F1 %s' % o, int, fork_inst=F1)
    F2 = jsons.fork(F1)
    jsons.set_validator(lambda v: v != 13, int, fork_inst=F2)
    jsons.set_deserializer(lambda o, cls, **kw: int(o), int, fork_inst=F2)
    jsons.set_serializer(lambda o, **kw: 'base', Base, fork_inst=F2)
    JF = jsons.JsonSerializable.fork('JF')
    JF.set_serializer(lambda o, **kw: 'JF', dtm.datetime)


DT = D(2020, 1, 2, 3, 4, 5, tz=UTC)
DTS = '2020-01-02T03:04:05Z'

# (name, value, dump options) and (name, source, type, load options): also used as elements of one big call
DUMPS = [
    ('int', 1, {}), ('true', True, {}), ('one.0', 1.0, {}), ('str', 'x', {}), ('none', None, {}), ('dt', DT, {}),
    ('naive', D(2020, 1, 2), {}), ('DC', DC(1, 'x'), {}), ('Sub', Sub(1, 'q'), {}), ('Base', Base(2), {}),
    ('subNone', Sub(3, None), {}), ('dynA', Dyn(a=1), {}), ('dynB', Dyn(b='x', c=[1]), {}), ('dynE', Dyn(), {}),
    ('prop', Prop(), {}), ('NT', NT(1, 'x'), {}), ('slots', Slots(1, 'x'), {}), ('attrs', Attrs(1, 'x'), {}),
    ('levels', Levels.make(u=uuid.UUID(int=1), k=(1, 2), late=pathlib.PurePath('a')), {}), ('levels0', Levels(), {}), ('sublevels', SubLevels.make(k={1}), {}),
    ('U1', U1(5), {}), ('U2', U2(5), {}), ('re', Re(4), {}), ('holder', Holder(Re(1), Sub(2, 'z'), 'r'), {}),
    ('list', [1, 'x', DT], {}), ('dict', {'a': 1, 'b': DT}, {}), ('hash', {(1, 2): 'x'}, {}), ('set', {1}, {}),
    ('tuple', (1, True), {}), ('enum', Color.RED, {}), ('color', Num.ONE, {}), ('same1', M1.Same(1), {}), ('twin1', T1(1), {}), ('twin2', T2('x'), {}),
    ('same2', M2.Same('x'), {}), ('js', JS(1, 'x'), {}), ('node', Node(1, Node(2), [Node(3)]), {}),
    ('deque', deque([DT]), {}), ('poison', Poison(), {}), ('decimal', decimal.Decimal('1.50'), {}),
    ('kids', [Base(1), Sub(2), Base(3)], {}), ('holdpoison', Dyn(a=1, p=Poison(), z=2), {}),
]
LOADS = [
    ('int', 1, int), ('int-s', '5', int), ('bool', 1, bool), ('float', 1, float), ('str', 'x', str), ('str-i', 5, str), ('str-1', 1, str), ('str-t', True, str), ('str-1.0', 1.0, str), ('float1', True, float), ('dec-1', 1, decimal.Decimal), ('dec-1.0', 1.0, decimal.Decimal),
    ('dt', DTS, dtm.datetime), ('str-dt', DTS, str), ('u-is', '5', Union[int, str]), ('u-si', '5', Union[str, int]),
    ('u-fi', '5', Union[float, int]), ('u-if', '5', Union[int, float]), ('opt', None, Optional[int]),
    ('opt1', '3', Optional[int]), ('none-bad', None, int), ('bad', 'abc', int),
    ('U1', {'x': '5'}, U1), ('U2', {'x': '5'}, U2), ('DC', {'a': 1, 'b': DTS}, DC), ('DCbad', {'a': 1}, DC),
    ('Sub', {'a': 1}, Sub), ('Sub2', {'a': 1, 'b': None}, Sub), ('Base', {'a': '7'}, Base),
    ('extra', {'a': 1, 'zz': DTS}, Base), ('NT', [1, 'x'], NT), ('NTdef', {'a': 1}, NTDef), ('prop', {'a': 1}, Prop),
    ('levels', {'u': '00000000-0000-0000-0000-000000000001', 'n': '2', 'k': ['1', 2], 'late': 'a/b'}, Levels), ('levelsbad', {'u': 'x'}, Levels),
    ('sublevels', {'u': '00000000-0000-0000-0000-000000000001', 'k': [1, '2'], 'late': 5}, SubLevels),
    ('slots', {'a': 1, 'b': 'x'}, Slots), ('attrs', {'a': 1, 'b': 'x'}, Attrs), ('re', {'x': 5}, Re),
    ('holder', {'p': {'x': 1}, 'q': {'a': 1}, 'r': '5'}, Holder), ('list', ['1', 2], List[int]), ('list2', ['1', 2], list[int]),
    ('tuple', ['1', '2'], Tuple[int, str]), ('tuple2', ['1', '2'], Tuple[str, int]), ('tupleN', ['1'], Tuple[int, ...]),
    ('tupleS', ['1'], Tuple[str, ...]), ('dict', {'a': '1'}, Dict[str, int]), ('dict2', {'1': '1'}, Dict[int, str]),
    ('set', [1, 2], Set[str]), ('enum', 'RED', Color), ('enum1', 1, Color), ('num', 1, Num), ('clash', 'A', Clash),
    ('same1', {'a': '1'}, M1.Same), ('same2', {'b': '1'}, M2.Same), ('twin1', {'a': '1'}, T1), ('twin2', {'b': '1'}, T2), ('js', {'a': 1, 'b': 'x'}, JS),
    ('node', {'v': 1, 'next': {'v': '2'}, 'kids': []}, Node), ('poison', 1, Poison),
    ('dec', '1.50', decimal.Decimal), ('user', '5', UserId), ('label', DTS, Label),
    ('fdict', {'a': 1}, DefaultDict[str, int]), ('kids', [{'a': 1}, {'a': 2, 'b': 'x'}], List[Base]),
]


def view(r):
    return snap(r)


def call(fn):
    with caught() as w:
        try:
            r = ('ok', view(fn()))
        except KeyboardInterrupt:
            r = ('interrupted',)
        except Exception as err:
            r = ('err', type(err).__name__, str(err))
    return r + (tuple(sorted(str(x.message)[:60] for x in w)),)


def build_ops():
    ops = {}
    for n, v, kw in DUMPS:
        ops['dump:' + n] = lambda v=v, kw=kw: jsons.dump(v, **kw)
    for n, s, tp in LOADS:
        ops['load:' + n] = lambda s=s, tp=tp: jsons.load(s, tp)
    o = ops
    for n, v, tp in (('Sub as Base', Sub(1, 'q'), Base), ('DC', DC(1, 'x'), DC), ('U1', U1(5), U1), ('list', [Sub(1)], List[Base]),
                     ('uis', 5, Union[int, str]), ('usi', 5, Union[str, int]), ('slots', Slots(1, 'x'), Slots),
                     ('prop', Prop(), Prop)):
        o['strict:' + n] = lambda v=v, tp=tp: jsons.dump(v, tp, strict=True)
        o['cls:' + n] = lambda v=v, tp=tp: jsons.dump(v, tp)
    for n, kw in (('strip', {'strip_nulls': True, 'strip_privates': True}), ('props', {'strip_properties': True}),
                  ('cvs', {'strip_class_variables': True}), ('attr', {'strip_attr': ('a',)}),
                  ('camel', {'key_transformer': jsons.KEY_TRANSFORMER_PASCALCASE}),
                  ('F1', {'fork_inst': 'F1'}), ('F2', {'fork_inst': 'F2'}), ('enum', {'use_enum_name': False}),
                  ('types', {'types': {'a': str}}), ('tasks', {'tasks': 2, 'task_type': threading.Thread})):
        for m, v in (('mix', [Prop(), Sub(3, None), DT, {'a': 1, 'b': None}, 13, Color.GREEN]),):
            def f(v=v, kw=kw):
                k = dict(kw)
                if 'fork_inst' in k:
                    k['fork_inst'] = globals()[k['fork_inst']]
                return jsons.dump(v, **k)
            o['opt:%s:%s' % (n, m)] = f
    o['verbose'] = lambda: jsons.dump(Sub(1, 'q'), verbose=jsons.Verbosity.WITH_CLASS_INFO)
    o['lverbose'] = lambda: jsons.load({'a': 1, 'b': 'x', '-meta': {'classes': {'/': 'ucls.Sub'}}})
    o['lverbose2'] = lambda: jsons.load({'a': 1, 'b': 'x', '-meta': {'classes': {'/': 'ucls.DC'}}})
    o['lstrict'] = lambda: jsons.load({'a': 1, 'zz': 2}, Base, strict=True)
    o['lsnake'] = lambda: jsons.load({'A': 1}, Base, key_transformer=str.lower)
    o['lget'] = lambda: jsons.load({}, Base, attr_getters={'a': lambda: 77})
    o['lgetDC'] = lambda: jsons.load({'b': 'x'}, DC, attr_getters={'a': lambda: 78})
    o['lmissDC'] = lambda: jsons.load({'b': 'x'}, DC)
    o['lmissBase'] = lambda: jsons.load({}, Base)
    o['lF1'] = lambda: jsons.load({'a': 1, 'b': DTS}, Sub, fork_inst=F1)
    o['lF2'] = lambda: jsons.load({'a': 13}, Sub, fork_inst=F2)
    o['lF2ok'] = lambda: jsons.load({'a': 12}, Sub, fork_inst=F2)
    o['l13'] = lambda: jsons.load({'a': 13}, Sub)
    o['ltasks'] = lambda: jsons.load(['1', '2', '3'], List[int], tasks=2, task_type=threading.Thread)
    o['lwarn'] = lambda: jsons.load(['1', 'x', '3'], List[int], warn_on_fail=True)
    o['untyped'] = lambda: jsons.load({'a': DTS, 'b': [1, DTS, 'x']})
    o['loads'] = lambda: jsons.loads('{"a": 1}', Sub)
    o['loadsbad'] = lambda: jsons.loads('{"a": 1', Sub)
    o['loadb'] = lambda: jsons.loadb(b'{"a": "1"}', Base)
    o['dumps'] = lambda: jsons.dumps(Sub(1), {'sort_keys': True})
    o['jsjson'] = lambda: JS(1, 'x').json
    o['jsfrom'] = lambda: JS.from_json({'a': '1', 'b': DTS})
    o['jfdump'] = lambda: jsons.dump([DT], fork_inst=JF)
    o['transform'] = lambda: jsons.transform(Sub(1), Base)
    o['lkeys'] = lambda: jsons.load({'-keys': {5: [1, 2]}, 5: 'x'}, Dict[Tuple[int, int], str])
    o['dec'] = lambda: loaded()(decorated)('5', '2020-01-02T03:04:05Z')
    o['dec2'] = lambda: dumped()(decorated)(5, DT)
    o['kill'] = lambda: jsons.dump([1, DC(1, 'x'), Kill()])
    o['lkill'] = lambda: jsons.load([1, 1], Tuple[Base, Kill])
    o['many150'] = lambda: many(150)
    o['many300'] = lambda: many(300)
    o['manyfail'] = lambda: many_fail()
    return ops


def decorated(x: int, y: dtm.datetime):
    return [x, y]


def many(n):
    tot = 0
    for i in range(n):
        tot += jsons.load({'f': '1'}, MANY[i]).f
        tot += jsons.dump(MANY[i](i))['f']
    big = jsons.dump([MANY[i](i) for i in range(n)])
    big2 = jsons.load([{'f': i} for i in range(n)], Tuple[tuple(MANY[:n])])
    return tot, len(big), [x.f for x in big2] == list(range(n))


def many_fail():
    n = 0
    for i in range(140):
        try:
            jsons.load({'f': 'x%d' % i}, MANY[i])
        except jsons.JsonsError:
            n += 1
    return n


MANY = [make_dataclass('Many%d' % i, [('f', int)]) for i in range(300)]
OPS = build_ops()
CORE = ['dump:levels', 'load:levels', 'load:sublevels', 'dump:sublevels', 'dump:Sub', 'dump:Base', 'dump:dynA', 'dump:dynB', 'dump:holder', 'dump:poison', 'dump:naive', 'dump:prop',
        'load:u-is', 'load:u-si', 'load:U1', 'load:U2', 'load:Sub', 'load:DCbad', 'load:tuple', 'load:tuple2', 'load:bool',
        'load:int', 'load:same1', 'load:same2', 'load:twin1', 'load:twin2', 'dump:twin2', 'strict:Sub as Base', 'strict:prop', 'opt:F2:mix', 'opt:strip:mix',
        'opt:cvs:mix', 'lF1', 'lF2', 'l13', 'lstrict', 'lsnake', 'kill', 'lkill', 'jsjson', 'verbose', 'lverbose', 'lget', 'lmissBase', 'load:str-1', 'load:str-1.0', 'load:str-t']
CORE_MORE = ['dump:js', 'dump:hash', 'dump:node', 'load:node', 'load:list', 'load:opt', 'load:poison', 'opt:F1:mix',
             'opt:camel:mix', 'opt:attr:mix', 'lget', 'lwarn', 'untyped', 'jfdump', 'cls:Sub as Base', 'dec', 'loadsbad']


def core_ops(tier):
    return CORE + (CORE_MORE if tier == 'thorough' else CORE_MORE[:4])


def warm_dump(v, kw):
    try:
        jsons.dump([v, Kill()], **kw)
    except KeyboardInterrupt:
        return 'warm'
    except Exception:
        return 'failed'


def warm_load(s, tp):
    try:
        jsons.load([s, 1], Tuple[tp, Kill])
    except KeyboardInterrupt:
        return 'warm'
    except Exception:
        return 'failed'


def build_warm():
    ops = {}
    for n, v, kw in DUMPS:
        ops['wdump:' + n] = lambda v=v, kw=kw: warm_dump(v, kw)
    for n, v, kw in DUMPS[:25]:
        ops['wstrict:' + n] = lambda v=v: warm_dump(v, {'strict': True})
    for n, v, kw in (('Sub', Sub(1), 0), ('prop', Prop(), 0), ('dt', [DT, 1], 0)):
        ops['wF2:' + n] = lambda v=v: warm_dump(v, {'fork_inst': F2})
        ops['wF1:' + n] = lambda v=v: warm_dump(v, {'fork_inst': F1})
        ops['wstrip:' + n] = lambda v=v: warm_dump(v, {'strip_properties': True, 'strip_attr': 'a', 'strip_nulls': True})
    for n, s, tp in LOADS:
        ops['wload:' + n] = lambda s=s, tp=tp: warm_load(s, tp)
    return ops


WARM = build_warm()
_cold = None


def cold(names):
    """Outcome of every call in a fresh state (computed once, each in its own process)."""
    return _cold


def fresh(n):
    setup()
    return call(OPS[n])


def prepare(tier):
    global _cold
    _cold = {n: forked(lambda n=n: fresh(n)) for n in OPS}


def de_bruijn(k, n):
    """Indices of a cyclic sequence in which every n-tuple over k symbols occurs exactly once."""
    a = [0] * k * n
    seq = []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return seq


def finals(ctx, also=None):
    return [n for n in OPS if ctx.thorough or n == also or not n.startswith('many')]


SEGMENTS = 64


def walk_ops(tier):
    return [n for n in OPS if not n.startswith('many')][:] if tier == 'thorough' else \
        CORE + CORE_MORE + ['load:none-bad', 'load:kids', 'dump:kids', 'cls:prop', 'strict:slots', 'loads']


def cases(tier):
    for n in OPS:
        yield Case('seq2:' + n, ('seq2', n))
    for n in WARM:
        yield Case('warm:' + n, ('warm', n))
    for i in range(SEGMENTS):
        yield Case('walk3:%d' % i, ('walk3', i))
    if tier == 'thorough':
        for n in core_ops(tier):
            yield Case('seq3:' + n, ('seq3', n))
    ws = [n for n in WARM if n.split(':')[1] in WCORE]
    for n in ws if tier == 'thorough' else ws[::3]:
        yield Case('warm3:' + n, ('warm3', n))
    for t in pair_terms(tier):
        yield Case('pairs:' + t.name, ('pairs', t))
    for i, j in enumerate(PAIR_SRC):
        yield Case('types:%d' % i, ('types', j))
    for i in range(PARTS):
        yield Case('values:%d' % i, ('values', i))
    for g in ALIKE:
        for b in BOXES:
            yield Case('alike:%s:%s' % (g, b), ('alike', g, b))
    for n in RECYCLED:
        yield Case('recycled:' + n, ('recycled', n))
    for n in EVOLVING:
        for h in ('dumped', 'failed', 'twice'):
            yield Case('evolving:%s:%s' % (n, h), ('evolving', n, h))
    for i, d in enumerate(DUMPS):
        yield Case('inner-dump:' + d[0], ('idump', i))
    for i, d in enumerate(LOADS):
        yield Case('inner-load:' + d[0], ('iload', i))


def pair_terms(tier):
    reps = [LEAF[n] for n in ('int', 'str', 'bool', 'float', 'timezone', 'Color', 'complex')] + [OBJ['DC'], OBJ['NTDef']]
    res = [t for t in LEAVES + OBJECTS if t.name not in ('Wide', 'JS')]
    for t in reps if tier == 'thorough' else reps[:1] + reps[4:5]:
        res += combine1(t)
    return res


NEAR = [1, True, 1.0, '1', 0, False, 0.0, -0.0, '', None, 'x', [1], [True], {'a': 1, 'b': 'x'}, {'a': True, 'b': 'x'}, '2020-01-02T03:04:05Z']


def near(j):
    """The representation and the ones that differ from it in one entry (also by an equal value of another type)."""
    res = [j]
    if isinstance(j, dict):
        for k in list(j)[:4]:
            for s in (1, True, 1.0, '1', 'q', None, '2020-01-02T03:04:05Z'):
                res.append({**j, k: s})
            res.append({a: b for a, b in j.items() if a != k})
    elif isinstance(j, list) and j:
        res += [j[:-1], j + j[:1], j[::-1], [True] + j[1:], [1.0] + j[1:]]
    elif isinstance(j, (int, float)) and not isinstance(j, bool) and abs(j) < 10 ** 9:
        res += [float(j), str(j), j + 1, -j] + ([int(j)] if j == int(j) else [])
    elif isinstance(j, str) and j:
        res += [j + ' ', j[:-1], j.lower(), j.upper()]
    return res


def uniq(js):
    seen, res = set(), []
    for j in js:
        if snap(j) not in seen:
            seen.add(snap(j))
            res.append(j)
    return res


def quiet(fn):
    with caught():
        try:
            return ('ok', snap(fn()))
        except Exception as err:
            return ('err', type(err).__name__, str(err))


def pairs_of_type(ctx, t):
    """Every ordered pair of loads (dumps) of one type, consecutively, against each of them in a fresh process."""
    js = uniq([k for _, j in t.vals[:4] for k in near(j)] + [j for j, _ in t.alt] + NEAR + t.bad[:4])
    js = js[:80 if ctx.thorough else 44]
    vs = [v for v, _ in t.vals]
    acts = [('load', i, (lambda j=j: jsons.load(j, t.tp))) for i, j in enumerate(js)]
    acts += [('dump', i, (lambda v=v: jsons.dump(v))) for i, v in enumerate(vs)]
    acts += [('dumpcls', i, (lambda v=v: jsons.dump(v, t.tp))) for i, v in enumerate(vs)]
    want = [forked(lambda a=a: quiet(a[2])) for a in acts]
    order = de_bruijn(len(acts), 2)
    last = None
    for i in order + order[:1]:
        got = quiet(acts[i][2])
        ctx.step()
        ctx.trace()
        ctx.state(t.name, last, i)
        if got != want[i]:
            src = js[acts[i][1]] if acts[i][0] == 'load' else vs[acts[i][1]]
            ctx.fail('pair|%s|%s|%s' % (t.name, last and acts[last][:2], acts[i][:2]), '%s of %r as %s after others gives %r; in a fresh '
                     'process %r' % (acts[i][0], src, t.name, got, want[i]))
            if len(ctx.fails) > 5:
                break
        last = i
    ctx.outcome('pairs of one type')


def pairs_of_types(ctx, s):
    """Every ordered pair of types loaded consecutively from the same source."""
    ts = [t for t in LEAVES + OBJECTS if t.name not in ('Wide', 'JS')]
    want = [forked(lambda t=t: quiet(lambda: jsons.load(s, t.tp))) for t in ts]
    order = de_bruijn(len(ts), 2)
    last = 0
    for i in order + order[:1]:
        got = quiet(lambda: jsons.load(s, ts[i].tp))
        ctx.step()
        ctx.trace()
        ctx.state(repr(s), last, i)
        if got != want[i]:
            ctx.fail('types|%r|%s|%s' % (s, ts[last].name, ts[i].name), 'load of %r as %s after others (last %s) gives %r; in a fresh process '
                     '%r' % (s, ts[i].name, ts[last].name, got, want[i]))
            if len(ctx.fails) > 5:
                break
        last = i
    ctx.outcome('pairs of types')


def pairs_of_values(ctx, part, parts):
    """Every ordered pair of values of any types dumped consecutively."""
    vs = [(t.name, v) for t in LEAVES + OBJECTS for v, _ in t.vals[:3] if t.name != 'JS']
    want = {}
    order = de_bruijn(len(vs), 2)
    size = -(-len(order) // parts)
    last = None
    for i in (order + order[:1])[part * size:(part + 1) * size + 1]:
        if i not in want:
            want[i] = forked(lambda: quiet(lambda: jsons.dump(vs[i][1])))
        got = quiet(lambda: jsons.dump(vs[i][1]))
        ctx.step()
        ctx.trace()
        ctx.state(last, i)
        if got != want[i]:
            ctx.fail('values|%s|%s' % (last is not None and vs[last][0], vs[i][0]), 'dump of %r after %r gives %r; in a fresh process %r' %
                     (vs[i][1], last is not None and vs[last][1], got, want[i]))
            if len(ctx.fails) > 5:
                break
        last = i
    ctx.outcome('pairs of values')


PAIR_SRC = [None, 1, True, 1.5, 'x', '5', '2020-01-02T03:04:05Z', [], [1], {}, {'a': 1}, {'a': 1, 'b': 'x'}, {'a': 1, 'b': 'x', 'c': 2.5}, [1, 'x'],
            {'v': 1}, {'a': True, 'b': 1}, {'real': 1, 'imag': 2}, {'name': 'x', 'offset': 60}, '2020-01-02', '03:04:05']
PARTS = 16
WCORE = ('Sub', 'Base', 'dynA', 'dynB', 'prop', 'U1', 'U2', 'u-is', 'u-si', 'tuple', 'tuple2', 'same1', 'same2', 'twin1', 'twin2', 'int',
         'bool')


class Twice(decimal.Decimal):
    pass


class Same(Eq):
    """All instances are equal and have the same hash."""

    def __init__(self, a=None):
        self.a = a

    def __eq__(self, other):
        return True

    def __hash__(self):
        return 1


@dataclass(frozen=True)
class Fz:
    a: object


PairT = collections.namedtuple('PairT', 'a b')
Dec = decimal.Decimal
H, W_ = dtm.timedelta(hours=1), dtm.timezone
# values that are equal to each other and do not have the same representation
ALIKE = {
    'one': lambda: [1, True, 1.0, Dec(1), Dec('1.0'), Dec('1.00'), Twice('1.000'), Num.ONE, complex(1, 0)],
    'zero': lambda: [0, False, 0.0, -0.0, Dec(0), Dec('-0'), Dec('0E+3'), complex(0, -0.0)],
    'timezones': lambda: [W_(H), W_(H, 'A'), W_(H, 'B'), W_(H, '')],
    'utc': lambda: [W_.utc, W_(0 * H), W_(0 * H, 'GMT'), W_(0 * H, 'Z')],
    'instants': lambda: [D(2020, 1, 2, 3, tz=UTC), D(2020, 1, 2, 4, tz=W_(H)), D(2020, 1, 2, 4, tz=W_(H, 'A')), D(2020, 1, 2, 2, tz=W_(-H))],
    'times': lambda: [dtm.time(3, tzinfo=UTC), dtm.time(4, tzinfo=W_(H)), dtm.time(2, tzinfo=W_(-H))],
    'folds': lambda: [D(2020, 1, 2, tz=UTC), D(2020, 1, 2, tz=UTC).replace(fold=1)],
    'paths': lambda: [pathlib.PureWindowsPath('a/B'), pathlib.PureWindowsPath('A/b'), pathlib.PureWindowsPath('A\\B')],
    'tuples': lambda: [(1, 2), (True, 2), (1.0, 2), PairT(1, 2), PairT(True, 2.0)],
    'texts': lambda: ['ex', StrE.X, type('Text', (str,), {})('ex')],
    'lists': lambda: [[1], [True], [1.0], [Dec('1.0')], [Num.ONE]],
    'sets': lambda: [{1}, {True}, {1.0}, frozenset([1]), frozenset([True])],
    'dicts': lambda: [{1: 1}, {True: True}, {1.0: 1.0}, OrderedDict([(1, True)]), defaultdict(int, {1: 1.0})],
    'order': lambda: [{'a': 1, 'b': 2}, {'b': 2, 'a': 1}, OrderedDict([('a', True), ('b', 2)]), {'a': 1.0, 'b': 2}],
    'tuple keys': lambda: [{(1, 2): 1}, {(True, 2): 1}, {(1.0, 2): 1}],
    'objects': lambda: [DC(1, 'x'), DC(True, 'x'), DC(1.0, 'x'), DC(Dec('1.0'), StrE.X)],
    'frozen': lambda: [Frozen(1, 'x'), Frozen(True, 'x'), Frozen(1.0, 'x'), Frozen(Dec('1.0'), 'x')],
    'nested': lambda: [Fz((1, Fz(1))), Fz((True, Fz(1))), Fz((1, Fz(1.0))), Fz((1, Fz(Dec('1.00'))))],
    'same': lambda: [Same(1), Same('x'), Same([1]), Same(), Same(Same(2))],
    'deques': lambda: [deque([1]), deque([True]), deque([1], 3)],
}
BOXES = {'bare': lambda v: v, 'list': lambda v: [v], 'tuple': lambda v: (v, v), 'dict': lambda v: {'k': v}, 'attribute': lambda v: Dyn(a=v), 'key': lambda v: {v: 1}, 'tuple key': lambda v: {(v, 2): 1},
         'frozen': Fz}


def alike(ctx, group, box):
    """Dumps of equal values with different representations, in every order."""
    vs = ALIKE[group]()
    if box.endswith('key'):
        try:
            [hash(v) for v in vs]
        except TypeError:
            return ctx.outcome('not hashable')
    for mode, fn in (('dump', lambda v: jsons.dump(BOXES[box](v))), ('dump as', lambda v: jsons.dump(v, type(v))), ('strict', lambda v: jsons.dump(BOXES[box](v), strict=True)),
                     ('dumps', lambda v: jsons.dumps(BOXES[box](v)))):
        if mode == 'dump as' and box != 'bare':
            continue
        want = [forked(lambda i=i: quiet(lambda: fn(ALIKE[group]()[i]))) for i in range(len(vs))]
        order = de_bruijn(len(vs), 3 if ctx.thorough or len(vs) < 8 else 2)
        for fresh_ones in (False, True):
            hist = []
            for i in order + order[:2]:
                got = quiet(lambda: fn(ALIKE[group]()[i] if fresh_ones else vs[i]))
                ctx.step()
                ctx.trace()
                hist = (hist + [i])[-3:]
                ctx.state(group, box, mode, fresh_ones, *hist)
                if got != want[i]:
                    ctx.fail('alike|%s|%s|%s' % (group, box, mode), '%s of %r (%s) after equal values (%r) gives %r; in a fresh process %r' % (
                        mode, vs[i], box, [vs[k] for k in hist[:-1]], got, want[i]))
                    break
        if box == 'list':
            # and inside one call
            for p in itertools.permutations(range(len(vs)), 3 if len(vs) > 5 else len(vs)):
                got = quiet(lambda: jsons.dump([vs[i] for i in p]))
                ctx.step()
                ctx.trace()
                one = forked(lambda: [quiet(lambda: jsons.dump([vs[i]])) for i in range(len(vs))]) if p == tuple(range(len(p))) else one
                exp = ('ok', ('builtins.list', tuple(one[i][1][1][0] for i in p)))
                if got != exp:
                    ctx.fail('alike|%s|one call' % group, 'dump of %r gives %r instead of %r' % ([vs[i] for i in p], got, exp))
                    break
    ctx.outcome('alike')


def recycled(ctx, what):
    """Temporary objects (whose addresses are used again) and objects that change between two calls."""
    mk = {
        'DC': lambda i: (DC(i, 'v%d' % i), DC), 'slots': lambda i: (Slots(i, 'v%d' % i), Slots), 'list': lambda i: ([i, 'v%d' % i], List[Any]), 'dict': lambda i: ({'k': i}, Dict[str, int]),
        'keyed': lambda i: ({(i, 1): 'v%d' % i}, Dict[Tuple[int, int], str]), 'dyn': lambda i: (Dyn(**{'a%d' % (i % 7): i}), Dyn), 'NT': lambda i: (NT(i, 'v%d' % i), NT),
        'node': lambda i: (Node(i, Node(i + 1), [Node(i + 2)]), Node), 'set': lambda i: ({i}, Set[int]), 'dec': lambda i: (Dec(i) / 100, Dec), 'td': lambda i: (dtm.timedelta(seconds=i), dtm.timedelta),
        'dt': lambda i: (DT + dtm.timedelta(days=i), dtm.datetime), 'tz': lambda i: (W_(dtm.timedelta(minutes=i)), W_), 'complex': lambda i: (complex(i, 1), complex), 'js': lambda i: (JS(i, 'v%d' % i), JS),
        'deque': lambda i: (deque([i]), Deque[int]), 'uuid': lambda i: (uuid.UUID(int=i), uuid.UUID), 'path': lambda i: (pathlib.PurePath('p%d' % i), pathlib.PurePath),
        'class': lambda i: (make_dataclass('Tmp', [('f%d' % i, int)])(i), None), 'class2': lambda i: (type('Tmp', (), {'__init__': lambda self, **kw: None, 'cv%d' % i: i})(), None),
        'enum': lambda i: (enum.Enum('Tmp', 'M%d N' % i)(1), None),
    }[what]
    n = 60 if ctx.thorough else 25
    want = forked(lambda: [(quiet(lambda: jsons.dump(mk(i)[0])), snap(mk(i)[0])) for i in range(1)])
    exp = []
    for i in range(n):
        exp.append(forked(lambda: quiet(lambda: jsons.dump(mk(i)[0]))))
    for i in range(n):
        got = quiet(lambda: jsons.dump(mk(i)[0]))
        ctx.step()
        ctx.trace()
        ctx.state(what, i)
        ctx.expect(got == exp[i], 'recycled|dump|' + what, 'the dump of temporary object %d (%s) is %r, in a fresh process %r' % (i, what, got, exp[i]))
    if mk(1)[1] is None:
        # classes of one name that come and go
        for i in range(n):
            tp = type(mk(i)[0])
            src = {'class': {'f%d' % i: i}, 'class2': {}, 'enum': 'M%d' % i}[what]
            got = quiet(lambda: jsons.load(src, tp))
            ctx.step()
            ctx.expect(got[0] == 'ok', 'recycled|load|' + what, 'the load of %r as temporary class %d (%s) gives %r' % (src, i, what, got))
            del tp
        return
    del want
    for i in range(n):
        tp = mk(i)[1]
        v, j = snap(mk(i)[0]), jsons.dump(mk(i)[0])
        got = quiet(lambda: jsons.load(j, tp))
        ctx.step()
        if what == 'tz':
            v = forked(lambda: quiet(lambda: jsons.load(j, tp)))[1]
        ctx.expect(got == ('ok', v), 'recycled|load|' + what, 'the load of temporary source %d (%r as %s) is %r' % (i, j, tp, got))
        del j
    # one object that changes
    v = mk(0)[0]
    change = {'DC': lambda i: setattr(v, 'a', i), 'slots': lambda i: setattr(v, 'a', i), 'list': lambda i: v.append(i), 'dict': lambda i: v.update({'k%d' % i: i}), 'keyed': lambda i: v.update({(i, 1): i}),
              'dyn': lambda i: setattr(v, 'b%d' % i, i), 'node': lambda i: v.kids.append(Node(i)), 'set': lambda i: v.add(i), 'js': lambda i: setattr(v, 'a', i), 'deque': lambda i: v.append(i)}.get(what)
    if change:
        for i in range(1, n):
            change(i)
            want = forked(lambda: quiet(lambda: jsons.dump(v)))
            # in another process that never dumped it before
            got = quiet(lambda: jsons.dump(v))
            fresh_copy = mk_copy(v)
            ctx.step()
            ctx.expect(got == want == quiet(lambda: jsons.dump(fresh_copy)), 'changed|' + what, 'after change %d the dump of %r is %r' % (i, v, got))
    ctx.outcome('recycled')


def mk_copy(v):
    return copy.deepcopy(v)


def evolving(ctx, what, how):
    """A class that is changed between two calls is treated like a class that was defined like that."""
    def base(**extra):
        class Ev(Eq):
            cv = 1

            def __init__(self, a: int, b: str = 'd'):
                self.a, self.b = a, b

            @property
            def p(self):
                return self.a + 1
        for k, x in extra.items():
            setattr(Ev, k, x)
        Ev.__module__, Ev.__qualname__ = 'ucls', 'Ev'
        return Ev

    def init(self, a: str, c: int = 4):
        self.a, self.c = a, c
    step = {
        'init': {'__init__': init}, 'property': {'q': property(lambda self: 'q')}, 'class variable': {'cv2': [1]}, 'changed variable': {'cv': 'changed'}, 'method': {'cv': lambda self: 1},
        'annotations': {'__annotations__': {'a': str, 'z': int}}, 'no property': {'p': 5}, 'inner': {'In': type('In', (), {'__module__': 'ucls'})}, 'variable to property': {'cv': property(lambda self: 'now')},
    }[what]

    def filled(c):
        r = c.__new__(c)
        r.a, r.b = 5, 'x'
        return r
    calls = {
        'dump': lambda c: jsons.dump(filled(c)), 'strict': lambda c: jsons.dump(filled(c), c, strict=True), 'strip': lambda c: jsons.dump(filled(c), strip_properties=True, strip_class_variables=True),
        'dumps': lambda c: jsons.dumps(filled(c)), 'verbose': lambda c: jsons.dump(filled(c), verbose=jsons.Verbosity.WITH_CLASS_INFO), 'list': lambda c: jsons.dump([filled(c), filled(c)]), 'strict list': lambda c: jsons.dump([filled(c)], List[c], strict=True),
        'load': lambda c: attrs_of(jsons.load({'a': '1', 'b': '2', 'c': '3', 'z': '4'}, c)), 'load strict': lambda c: attrs_of(jsons.load({'a': '1'}, c, strict=True)), 'missing': lambda c: jsons.load({}, c),
        'nested': lambda c: [attrs_of(x) for x in jsons.load([{'a': 1}], List[c])],
    }
    want = {n: forked(lambda f=f: quiet(lambda: f(base(**step)))) for n, f in calls.items()}
    differs = set()
    for x in calls:         # the call before the change
        for y in calls:     # the call after it
            c = base()
            first = quiet(lambda: calls[x](c))
            if how == 'failed':
                quiet(lambda: jsons.load({'a': 'q'}, c, strict=True))
                quiet(lambda: jsons.dump([c(1), Poison()]))
            elif how == 'twice':
                quiet(lambda: calls[x](c))
                quiet(lambda: calls[y](c))
            for k, v in step.items():
                setattr(c, k, v)
            got = quiet(lambda: calls[y](c))
            ctx.step(3)
            ctx.trace()
            ctx.state(what, how, x, y)
            if x == y and first != got:
                differs.add(y)
            ctx.expect(got == want[y], 'evolving|%s|%s|%s' % (what, x, y), '%s after %s and a change of the class (%s): %r, a class that was defined like that: %r' % (y, x, what, got, want[y]))
    ctx.sample({'class changed': what, 'differs': sorted(differs)})
    ctx.outcome('evolving')


RECYCLED = ['DC', 'slots', 'list', 'dict', 'keyed', 'dyn', 'NT', 'node', 'set', 'dec', 'td', 'dt', 'tz', 'complex', 'js', 'deque', 'uuid', 'path', 'class', 'class2', 'enum']
EVOLVING = ['init', 'property', 'class variable', 'changed variable', 'method', 'annotations', 'no property', 'inner', 'variable to property']


def check(ctx, hist, n, want):
    got = call(OPS[n])
    ctx.step()
    ctx.trace()
    ctx.outcome(n + ':' + got[0])
    if got != want:
        ctx.fail('hist|' + ' ; '.join(hist + (n,)), 'after %s the call %s gives %r, in a fresh process %r'
                 % (', '.join(hist), n, got, want))


def run(ctx, args):
    setup()
    kind = args[0]
    if kind == 'seq2':
        want = cold(list(OPS))
        OPS_first = args[1]
        call(OPS[OPS_first])
        for n in finals(ctx):
            def sub(n=n):
                c = Ctx(ctx.case_id, ctx.tier)
                c.state(OPS_first, n)
                check(c, (OPS_first,), n, want[n])
                return c.pack()
            merge(ctx, forked(sub))
        # the calls also follow each other without a fresh start: one long history through the whole alphabet
        def chain():
            c = Ctx(ctx.case_id, ctx.tier)
            names = finals(ctx, OPS_first)
            k = names.index(OPS_first)
            for n in names[k:] + names[:k]:
                check(c, ('long history from ' + OPS_first,), n, want[n])
            return c.pack()
        merge(ctx, forked(chain))
    elif kind == 'warm':
        want = cold(list(OPS))
        st = WARM[args[1]]()
        ctx.outcome(st)
        for n in finals(ctx):
            def sub(n=n):
                c = Ctx(ctx.case_id, ctx.tier)
                c.state(args[1], n)
                check(c, (args[1],), n, want[n])
                return c.pack()
            merge(ctx, forked(sub))
    elif kind in ('seq3', 'warm3'):
        names = core_ops(ctx.tier)
        want = cold(names)
        if kind == 'seq3':
            call(OPS[args[1]])
            second = names
        else:
            WARM[args[1]]()
            second = [n for n in WARM if n.split(':')[1] in WCORE]
            if not ctx.thorough:
                second, names = second[::2], names[::2]
        for m in second:
            def sub(m=m):
                c = Ctx(ctx.case_id, ctx.tier)
                if kind == 'seq3':
                    call(OPS[m])
                else:
                    WARM[m]()
                for n in names:
                    def sub2(n=n):
                        c2 = Ctx(ctx.case_id, ctx.tier)
                        c2.state(args[1], m, n)
                        check(c2, (args[1], m), n, want[n])
                        return c2.pack()
                    merge(c, forked(sub2))
                return c.pack()
            merge(ctx, forked(sub))
    elif kind == 'walk3':
        # every triple of calls occurs consecutively somewhere in the walk
        names = walk_ops(ctx.tier)
        seq = [names[i] for i in de_bruijn(len(names), 3)]
        seq = seq + seq[:2]
        size = -(-len(seq) // SEGMENTS)
        part = seq[args[1] * size:(args[1] + 1) * size + 2]
        for i, n in enumerate(part):
            ctx.state(*part[max(0, i - 2):i + 1])
            got = call(OPS[n])
            ctx.step()
            ctx.trace()
            if got != _cold[n]:
                ctx.fail('walk|' + ' ; '.join(part[max(0, i - 2):i + 1]), 'call %d of a long history (%s): %r, in a fresh '
                         'process %r' % (i, ' ; '.join(part[max(0, i - 5):i + 1]), got, _cold[n]))
                if len(ctx.fails) > 5:
                    break
        ctx.outcome('walk')
    elif kind == 'pairs':
        pairs_of_type(ctx, args[1])
    elif kind == 'types':
        pairs_of_types(ctx, args[1])
    elif kind == 'values':
        pairs_of_values(ctx, args[1], PARTS)
    elif kind in ('alike', 'recycled', 'evolving'):
        globals()[kind](ctx, *args[1:])
    elif kind == 'idump':
        inner_dump(ctx, args[1])
    elif kind == 'iload':
        inner_load(ctx, args[1])


def inner_dump(ctx, i):
    els = [d for d in DUMPS if d[0] not in ('poison',)]
    if DUMPS[i][0] == 'poison':
        return ctx.expect(True, '', '')
    first = DUMPS[i]

    def quiet(v, **kw):
        with caught():
            try:
                return ('ok', snap(jsons.dump(v, **kw)))
            except Exception as err:
                return ('err', type(err).__name__)
    modes = [{}, {'key_transformer': jsons.KEY_TRANSFORMER_PASCALCASE}, {'strip_nulls': True, 'strip_properties': True}]
    if ctx.thorough:
        modes += [{'strict': True}, {'strip_class_variables': True, 'strip_privates': True}]
    for mi, kw in enumerate(modes):
        want = {d[0]: forked(lambda d=d: quiet(d[1], **kw)) for d in els}
        if any(w[0] != 'ok' for w in want.values()):
            els_ = [d for d in els if want[d[0]][0] == 'ok']
        else:
            els_ = els
        if first[0] not in [d[0] for d in els_]:
            continue
        thirds = els_ if mi == 0 or ctx.thorough else els_[:12]
        for a in els_:
            for b in thirds:
                sel = (first, a, b)
                key = 'inner|%d|%s' % (mi, ','.join(d[0] for d in sel))
                ctx.trace()
                ctx.step(3)
                ctx.state(mi, *[d[0] for d in sel])
                with caught():
                    try:
                        r = jsons.dump([d[1] for d in sel], **({k: v for k, v in kw.items() if k != 'strict'}
                                                               if kw.get('strict') else kw))
                    except Exception as err:
                        ctx.fail(key, 'dump of a list raised %s: %s' % (type(err).__name__, err))
                        continue
                if kw.get('strict'):
                    continue
                for d, x in zip(sel, r):
                    if snap(x) != want[d[0]][1]:
                        ctx.fail(key, 'in a list with %s, %s is dumped as %r; alone as %r' %
                                 ([e[0] for e in sel], d[0], x, want[d[0]][1]))
    ctx.outcome('inner dump')


def inner_load(ctx, i):
    def quiet(s, tp, **kw):
        with caught():
            try:
                return ('ok', snap(jsons.load(s, tp, **kw)))
            except Exception as err:
                return ('err', type(err).__name__)
    modes = [{}] + ([{'strict': True}] if ctx.thorough else [])
    for kw in modes:
        want = {d[0]: forked(lambda d=d: quiet(d[1], d[2], **kw)) for d in LOADS}
        good = [d for d in LOADS if want[d[0]][0] == 'ok']
        if want[LOADS[i][0]][0] != 'ok':
            continue
        for a in good:
            for b in good:
                sel = (LOADS[i], a, b)
                key = 'innerl|%s|%s' % (','.join(d[0] for d in sel), sorted(kw))
                ctx.trace()
                ctx.step(3)
                ctx.state('l', *[d[0] for d in sel])
                try:
                    tp = Tuple.__class_getitem__((sel[0][2], sel[1][2], sel[2][2])) if False else tup(*[d[2] for d in sel])
                    with caught():
                        r = jsons.load([d[1] for d in sel], tp, **kw)
                except Exception as err:
                    ctx.fail(key, 'load of a tuple raised %s: %s' % (type(err).__name__, err))
                    continue
                for d, x in zip(sel, r):
                    if snap(x) != want[d[0]][1]:
                        ctx.fail(key, 'in a tuple with %s, %s is loaded as %r; alone as %r' %
                                 ([e[0] for e in sel], d[0], snap(x), want[d[0]][1]))
        ctx.outcome('inner load')


def tup(*tps):
    # typing caches by equality, which would swap Unions that differ in order: build the alias without that cache
    return typing.Tuple.copy_with(tuple(tps))
