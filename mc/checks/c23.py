"""C23 dicts with keys of any hashable type survive a round trip."""
import itertools
import json
import typing
from collections import OrderedDict, defaultdict
from dataclasses import dataclass, make_dataclass
from typing import DefaultDict, Dict, FrozenSet, List, Mapping, MutableMapping, NamedTuple, Optional, Tuple, Union

import attr
import jsons
import ucls
from core import Case
from universe import *  # noqa
from universe import same, snap, plain

PROPERTY = 'C23'
ASSUMPTIONS = ['keys keep their type in a text if they are no bool, None or timedelta (a JSON text turns them into "true", "null", "1.5", which jsons does not load as these)',
               'keys that have the same JSON text (1 and "1") can only be told apart in memory', 'the order of the keys is not part of the property',
               'the subclass of dict is only kept by DefaultDict']
CAMEL, SNAKE = jsons.KEY_TRANSFORMER_CAMELCASE, jsons.KEY_TRANSFORMER_SNAKECASE


def BOUNDS(tier):
    th = tier == 'thorough'
    return {'key types': 'all hashable leaves and classes, tuples, named tuples, frozen sets, Optional and NewType of them (%d)' % len(KEYTERMS),
            'dicts': 'every subset of up to %d keys of every key type, x 3 kinds of values' % (4 if th else 3),
            'equal hashes': 'up to %d keys with every assignment of hashes out of %r, every choice of primitive keys out of %d next to them, every insertion order'
                            % (4 if th else 3, HASHES, len(PRIMS)),
            'primitive keys': 'every set of 2%s keys out of %r x 9 sets of options x 5 positions' % (' or 3' if th else '', PKEYS), 'nesting': 'every pair of key types out of %d x every holder out of %d' % (len(NESTKEYS), len(HOLDERS))}


# ------------------------------------------------------------------ key types

@dataclass(frozen=True)
class Pt:
    x: int
    y: int = 0


@dataclass(frozen=True)
class Named:
    first_name: str
    last_seen: Optional[dtm.date] = None


@dataclass(frozen=True)
class Deep:
    pt: Pt
    tags: Tuple[str, ...] = ()


class PlainKey:
    def __init__(self, a: int, b: str = 'b'):
        self.a = a
        self.b = b

    def __eq__(self, o):
        return type(o) is PlainKey and (self.a, self.b) == (o.a, o.b)

    def __hash__(self):
        return hash((self.a, self.b))

    def __repr__(self):
        return 'PlainKey(%r, %r)' % (self.a, self.b)


class SlotsKey:
    __slots__ = ['a']

    def __init__(self, a: int):
        self.a = a

    def __eq__(self, o):
        return type(o) is SlotsKey and self.a == o.a

    def __hash__(self):
        return hash(self.a)


@attr.s(frozen=True, auto_attribs=True)
class AttrKey:
    a: int
    b: str = 'q'


@dataclass
class Bag:
    a: dict


class NTKey(NamedTuple):
    a: int
    b: Optional[str] = None


class NTDeep(NamedTuple):
    pt: Pt
    when: dtm.datetime
    rest: Tuple[int, ...] = ()


@dataclass(frozen=True)
class H:
    """A key with a chosen hash."""
    n: int
    h: int

    def __hash__(self):
        return self.h


ucls_like = (Pt, Named, Deep, PlainKey, SlotsKey, AttrKey, NTKey, NTDeep, H)
UTCD = dtm.datetime(2020, 1, 2, 3, 4, 5, tzinfo=dtm.timezone.utc)


def mk_keyterms():
    res = {}

    def add(name, tp, vals, text=True):
        assert name not in res
        uniq = []
        for v in vals:
            if not any(v == w for w in uniq):
                uniq.append(v)
        res[name] = (tp, uniq, text)
    for t in LEAVES + OBJECTS:
        if not t.hashable:
            continue
        vals = [v for v, _ in t.vals]
        if t.name == 'str':
            vals = [v for v in vals if not v.startswith('-')]
        add(t.name, t.tp, vals, t.name not in ('bool', 'None', 'timedelta'))
    for t in [LEAF[n] for n in ('int', 'str', 'datetime', 'Decimal', 'Color', 'UUID')] + [OBJ['Frozen'], OBJ['NT']]:
        vs = [v for v, _ in t.vals][:4]
        add('Tuple[%s,...]' % t.name, Tuple[t.tp, ...], [(), (vs[0],), (vs[0], vs[-1]), (vs[-1], vs[0]), tuple(vs)])
        add('Tuple[%s,int]' % t.name, Tuple[t.tp, int], [(v, i) for i, v in enumerate(vs)] + [(vs[0], 7)])
        add('FrozenSet[%s]' % t.name, FrozenSet[t.tp], [frozenset(), frozenset(vs[:1]), frozenset(vs[:2]), frozenset(vs)])
        add('Tuple[Tuple[%s,str],int]' % t.name, Tuple[Tuple[t.tp, str], int], [((v, 'q'), 1) for v in vs])
        add('Optional[%s]' % t.name, Optional[t.tp], vs + [None], False)
        add('Union[%s,Tuple]' % t.name, Union[Tuple[int, int], t.tp], vs + [(1, 2), (2, 1), (0, 0)])
    add('Pt', Pt, [Pt(1), Pt(1, 2), Pt(2, 1), Pt(-1, -2), Pt(-2, -1)])
    add('Named', Named, [Named('x'), Named('x', dtm.date(2020, 1, 2)), Named('')])
    add('Deep', Deep, [Deep(Pt(1)), Deep(Pt(1), ('a',)), Deep(Pt(2, 3), ('a', 'b'))])
    add('PlainKey', PlainKey, [PlainKey(1), PlainKey(2), PlainKey(1, 'c')])
    add('SlotsKey', SlotsKey, [SlotsKey(0), SlotsKey(1), SlotsKey(-1), SlotsKey(-2)])
    add('AttrKey', AttrKey, [AttrKey(1), AttrKey(2, 'x')])
    add('NTKey', NTKey, [NTKey(1), NTKey(1, 'x'), NTKey(2)])
    add('NTDeep', NTDeep, [NTDeep(Pt(1), UTCD), NTDeep(Pt(1), UTCD, (1, 2))])
    add('NewType', typing.NewType('KeyT', Tuple[int, int]), [(1, 2), (2, 1)])
    add('Tuple[Pt,NTKey]', Tuple[Pt, NTKey], [(Pt(1), NTKey(1)), (Pt(1), NTKey(2, 'q'))])
    add('FrozenSet[Tuple]', FrozenSet[Tuple[int, str]], [frozenset(), frozenset({(1, 'x')}), frozenset({(1, 'x'), (2, 'y')})])
    add('Tuple[FrozenSet]', Tuple[FrozenSet[int], ...], [(), (frozenset(),), (frozenset({1}), frozenset({2, 3}))])
    add('tuple', tuple, [(1, 'x'), (), (2,)])
    return res


KEYTERMS = mk_keyterms()
VALUES = {'int': (int, [1, 2, 3, 4, 5]), 'DC': (ucls.DC, [ucls.DC(i, 'x') for i in range(5)]), 'opt': (Optional[List[int]], [None, [], [1], [1, 2], None])}


def attempt(fn):
    try:
        return ('ok', fn())
    except Exception as err:
        return ('err', '%s: %s' % (type(err).__name__, err))


def roundtrip(ctx, key, d, tp, text=True, dopts=None, lopts=None, want=None, casts=()):
    """d survives dump + load as tp, in memory and through text."""
    dopts, lopts = dopts or {}, lopts or {}
    want = d if want is None else want
    before = snap(d)
    for how in ({}, {'cls': tp}) + tuple(casts):
        ctx.step()
        r = attempt(lambda: jsons.dump(d, **how, **dopts))
        if r[0] != 'ok':
            return ctx.fail(key + '|dump', 'dump(%r, %r) raises %s' % (d, how, r[1]))
        j = r[1]
        if snap(d) != before:
            ctx.fail(key + '|changed', 'dump(%r) changed it' % (d,))
        if not plain(j):
            ctx.fail(key + '|plain', 'dump(%r) gives %r' % (d, j))
            continue
        jbefore = snap(j)
        for way in ('memory', 'text')[:2 if text else 1]:
            ctx.step()
            src = j if way == 'memory' else attempt(lambda: json.loads(json.dumps(j)))[1]
            r = attempt(lambda: jsons.load(src, tp, **lopts))
            if r[0] != 'ok' or not same(r[1], want):
                ctx.fail('%s|%s' % (key, way), 'load(%r, %s) gives %r, expected %r (dumped with %r)' % (src, tp, r[1], want, how))
            elif way == 'memory':
                again = attempt(lambda: jsons.load(src, tp, **lopts))
                if again[0] != 'ok' or not same(again[1], want):
                    ctx.fail(key + '|again', 'the second load(%r, %s) gives %r' % (src, tp, again[1]))
        if snap(j) != jbefore:
            ctx.fail(key + '|source', 'load(%r, %s) changed its source' % (j, tp))
        if text and (lambda r: r[0] != 'ok' or not same(r[1], want))(attempt(lambda: jsons.loads(jsons.dumps(d, **how, **dopts), tp, **lopts))):
            ctx.fail(key + '|loads', 'loads(dumps(%r), %s) differs' % (d, tp))
        ctx.outcome('hashed' if '"-keys"' in json.dumps(j) else 'plain keys')
    ctx.trace()


# ------------------------------------------------------------------ every key type, every subset

def subsets(ctx, kname, n):
    ktp, keys, text = KEYTERMS[kname]
    vi = 0
    for k in range(0, n + 1 if len(keys) < 8 or n > 3 else n):
        for sub in itertools.combinations(keys, k):
            for vname, (vtp, vals) in VALUES.items():
                vi += 1
                d = {key: vals[(i + vi) % 5] for i, key in enumerate(sub)}
                roundtrip(ctx, '%s|%s' % (kname, vname), d, Dict[ktp, vtp], text)
                if vname == 'int':
                    roundtrip(ctx, kname + '|dict', d, dict[ktp, vtp], text)
                    roundtrip(ctx, kname + '|Mapping', d, Mapping[ktp, vtp], text)
                    roundtrip(ctx, kname + '|MutableMapping', OrderedDict(d), MutableMapping[ktp, vtp], text, want=d)
                    roundtrip(ctx, kname + '|DefaultDict', defaultdict(vtp, d), DefaultDict[ktp, vtp], text)
                    roundtrip(ctx, kname + '|strict', d, Dict[ktp, vtp], text, dopts={'strict': True}, lopts={'strict': True})
                    roundtrip(ctx, kname + '|Optional', d, Optional[Dict[ktp, vtp]], text)
                    roundtrip(ctx, kname + '|NewType', d, typing.NewType('DT', Dict[ktp, vtp]), text)
                ctx.state(kname, vname, k, [repr(x) for x in sub])
    for perm in itertools.permutations(keys[:3]):
        d = {key: i for i, key in enumerate(perm)}
        roundtrip(ctx, kname + '|order', d, Dict[ktp, int], text)
        ctx.state(kname, [repr(x) for x in perm])


# ------------------------------------------------------------------ equal hashes

HASHES = [0, 1, 2, -1]
PRIMS = [0, 1, 2, -2, 1.5, True, '0', '1', 'a']


def hashes(ctx, hs, n):
    """Keys with the given hashes, next to every set of at most two primitive keys, in every insertion order."""
    hkeys = [H(i, h) for i, h in enumerate(hs)]
    prims = [c for k in range(n + 1) for c in itertools.combinations(PRIMS, k)]
    for ps in prims:
        if len(set(ps)) < len(ps):
            continue
        keys = hkeys + list(ps)
        types = {type(p) for p in ps}
        if bool in types and len(types) > 1 or (int in types and float in types):
            continue                    # the first type that matches is taken for both
        tp = Dict[Union[tuple([H] + sorted(types, key=lambda t: t is str))], str] if types else Dict[H, str]
        texts = [str(p) for p in ps]
        # in a text, a number is the same as its digits and True is 'true'
        ambiguous = bool in types or (str in types and len(types) > 1) or len(set(texts)) < len(texts)
        if str in types and len(types) > 1 and any(isinstance(p, str) and p.isdigit() for p in ps):
            continue                    # neither order of the Union can tell 1 and '1' apart
        clash = str in types and any(isinstance(p, str) and p.isdigit() for p in ps)
        for perm in itertools.permutations(keys) if len(keys) <= 4 else [keys, keys[::-1], keys[2:] + keys[:2]]:
            d = {k: 'v%s' % (k,) for k in perm}
            roundtrip(ctx, 'hashes|prims' + ('|clash' if clash else ''), d, tp, not ambiguous)
            ctx.state(hs, [repr(k) for k in perm])


def converted(ctx, part):
    """Keys that are dumped as numbers or texts next to keys that are stored by a hash."""
    TD = dtm.timedelta
    for hs in [part]:
        for secs in itertools.combinations((0, 1, 5, 6, 0.5), 2):
            if secs[0] == secs[1]:
                continue
            keys = [H(0, hs[0]), H(1, hs[1]), TD(seconds=secs[0]), TD(seconds=secs[1])]
            for perm in itertools.permutations(keys):
                d = {k: i for i, k in enumerate(perm)}
                roundtrip(ctx, 'converted', d, Dict[Union[H, TD], int], False)
                ctx.state([repr(k) for k in perm])
        for e in itertools.permutations([decimal.Decimal(1), decimal.Decimal(5), H(0, hs[0]), H(1, hs[1])]):
            d = {k: i for i, k in enumerate(e)}
            roundtrip(ctx, 'converted Decimal', d, Dict[Union[H, decimal.Decimal], int])
            ctx.state([repr(k) for k in e])
        for e in itertools.permutations([Num.ONE, Num.TWO, H(0, hs[0]), H(1, hs[1])]):
            d = {k: i for i, k in enumerate(e)}
            roundtrip(ctx, 'converted Num', d, Dict[Union[H, Num], int])
            roundtrip(ctx, 'converted Num', d, Dict[Union[H, Num], int], False, dopts={'use_enum_name': False}, lopts={'use_enum_name': False})
            ctx.state([repr(k) for k in e])


# ------------------------------------------------------------------ nesting

NESTKEYS = {'int': (int, [1, 2]), 'str': (str, ['a', 'first_name']), 'Decimal': (decimal.Decimal, [decimal.Decimal('1.10'), decimal.Decimal(2)]), 'Color': (Color, [Color.RED, Color.GREEN]),
            'Tuple': (Tuple[int, str], [(1, 'x'), (2, 'y')]), 'Pt': (Pt, [Pt(1), Pt(1, 2)]), 'NTKey': (NTKey, [NTKey(1), NTKey(1, 'x')]), 'FrozenSet': (FrozenSet[int], [frozenset({1}), frozenset()]),
            'H': (H, [H(0, 1), H(1, 1)]), 'complex': (complex, [1 + 2j, 0j]), 'timezone': (dtm.timezone, [dtm.timezone.utc, dtm.timezone(dtm.timedelta(hours=1))])}


def holder_cls(kind, tp):
    name = 'C23' + kind
    if kind == 'dc':
        return make_dataclass(name, [('f0', tp), ('g0', tp)], module='ucls')
    if kind == 'nt':
        c = NamedTuple(name, [('f0', tp), ('g0', tp)])
        c.__module__ = 'ucls'
        return c
    ns = {}
    if kind == 'pl':
        exec('class %s:\n def __init__(self, f0, g0):\n  self.f0 = f0\n  self.g0 = g0' % name, {}, ns)
        ns[name].__init__.__annotations__.update(f0=tp, g0=tp)
    elif kind == 'late':        # no constructor arguments: the attributes are set afterwards
        exec('class %s:\n def __init__(self):\n  self.f0 = None\n  self.g0 = None' % name, {}, ns)
        ns[name].__annotations__ = {'f0': tp, 'g0': tp}
    elif kind == 'at':
        return attr.make_class(name, {'f0': attr.ib(type=tp), 'g0': attr.ib(type=tp)})
    elif kind == 'js':
        exec('class %s(J):\n def __init__(self, f0, g0):\n  self.f0 = f0\n  self.g0 = g0' % name, {'J': jsons.JsonSerializable}, ns)
        ns[name].__init__.__annotations__.update(f0=tp, g0=tp)
    ns[name].__module__ = 'ucls'
    return ns[name]


def in_obj(kind):
    def wrap(tp, d, e):
        c = holder_cls(kind, tp)
        if kind == 'late':
            o = c()
            o.f0, o.g0 = d, e
            return c, o
        return c, c(d, e)
    return wrap


HOLDERS = {
    'list': lambda tp, d, e: (List[tp], [d, e, {}, d]),
    'tuple': lambda tp, d, e: (Tuple[tp, ...], (d, {}, e)),
    'dict': lambda tp, d, e: (Dict[str, tp], {'x': d, 'y': e, 'z': {}}),
    'hashed': lambda tp, d, e: (Dict[Pt, tp], {Pt(5): d, Pt(6): e, Pt(7): {}}),
    'equal': lambda tp, d, e: (Dict[H, tp], {H(1, 1): d, H(2, 1): e}),
    'opt': lambda tp, d, e: (Optional[tp], d),
    'opts': lambda tp, d, e: (List[Optional[tp]], [None, d, e, None]),
    'union': lambda tp, d, e: (Union[tp, int], d),
    'dc': in_obj('dc'), 'nt': in_obj('nt'), 'pl': in_obj('pl'), 'late': in_obj('late'), 'at': in_obj('at'), 'js': in_obj('js'),
    'list of dc': lambda tp, d, e: (lambda c: (List[c], [c(d, e), c({}, d)]))(holder_cls('dc', tp)),
    'dict of pl': lambda tp, d, e: (lambda c: (Dict[NTKey, c], {NTKey(1): c(d, e), NTKey(2): c(e, {})}))(holder_cls('pl', tp)),
}


def nesting(ctx, k1, k2):
    t1, v1 = NESTKEYS[k1]
    t2, v2 = NESTKEYS[k2]
    inner = [{}, {v2[0]: 1}, {v2[0]: 1, v2[1]: 2}]
    tp = Dict[t1, Dict[t2, int]]
    dicts = [{}, {v1[0]: {}}] + [{v1[0]: a, v1[1]: b} for a in inner for b in inner[1:]]
    for d in dicts:
        roundtrip(ctx, 'nest|%s|%s' % (k1, k2), d, tp)
    for hname, wrap in HOLDERS.items():
        for d, e in ((dicts[-1], dicts[1]), (dicts[2], dicts[-2])):
            htp, v = wrap(tp, d, e)
            roundtrip(ctx, 'holder|' + hname, v, htp)
            if hname not in ('late',):
                roundtrip(ctx, 'holder|%s|strict' % hname, v, htp, dopts={'strict': True}, lopts={'strict': True})
            ctx.state(k1, k2, hname, repr(d), repr(e))
    # keys that hold keys
    for a, b in itertools.product(v1, v2):
        d = {(a, b): 1, (a, v2[0]): 2}
        roundtrip(ctx, 'in tuple', d, Dict[Tuple[t1, t2], int])
        roundtrip(ctx, 'in tuples', {((a, b), (b,)): 1}, Dict[Tuple[Tuple[t1, t2], Tuple[t2, ...]], int])
        ctx.state(k1, k2, repr(d))


def deep(ctx, k):
    """Hashed dicts in hashed dicts, up to 5 levels."""
    tp, v = int, 1
    ktp, vals = NESTKEYS[k]
    for level in range(1, 6):
        tp = Dict[ktp, tp]
        v = {vals[0]: v, vals[1]: v}
        roundtrip(ctx, 'deep|' + k, v, tp)
        roundtrip(ctx, 'deep|%s|list' % k, [v, v], List[tp])
        ctx.state(k, level)


# ------------------------------------------------------------------ options

def options(ctx, k):
    ktp, vals = NESTKEYS[k]
    d = {vals[0]: ucls.DC(1, 'x'), vals[1]: ucls.DC(2, 'y')}
    n = {vals[0]: None, vals[1]: 5}
    tp = Dict[ktp, ucls.DC]
    fork = jsons.fork()
    for name, dopts, lopts in (('fork', {'fork_inst': fork}, {'fork_inst': fork}), ('camel', {'key_transformer': CAMEL}, {'key_transformer': SNAKE}), ('strip_privates', {'strip_privates': True}, {}),
                               ('strip_nulls', {'strip_nulls': True}, {}), ('verbose', {'verbose': jsons.Verbosity.WITH_CLASS_INFO}, {}), ('everything', {'verbose': jsons.Verbosity.WITH_EVERYTHING}, {}),
                               ('unknown', {'unknown': 1}, {'unknown': 1}), ('micro', {'strip_microseconds': True}, {})):
        if name == 'camel' and k == 'Color':
            continue                    # texts that stand for something else are transformed as well
        roundtrip(ctx, 'options|%s|%s' % (name, k), d, tp, dopts=dopts, lopts=lopts)
        roundtrip(ctx, 'options|%s|%s' % (name, k), {'x': d, 'y': {}}, Dict[str, tp], dopts=dopts, lopts=lopts)
        roundtrip(ctx, 'options|%s|nulls|%s' % (name, k), n, Dict[ktp, Optional[int]], dopts=dopts, lopts=lopts, want={vals[1]: 5} if name == 'strip_nulls' else n)
        ctx.state(k, name)
    if k in ('Pt', 'NTKey'):
        q = {Named('a_b'): 1, Named('c', dtm.date(2020, 1, 2)): 2}
        roundtrip(ctx, 'options|camel keys', q, Dict[Named, int], dopts={'key_transformer': CAMEL}, lopts={'key_transformer': SNAKE})
        roundtrip(ctx, 'options|nulls in keys', q, Dict[Named, int], dopts={'strip_nulls': True})
        mixed = {Named('a_b'): 1, 'some_key': 2, 3: 4}
        roundtrip(ctx, 'options|mixed camel', mixed, Dict[Union[Named, int, str], int], dopts={'key_transformer': CAMEL}, lopts={'key_transformer': SNAKE})


# ------------------------------------------------------------------ primitive keys stay as they are

PKEYS = [0, 1, 2, -1, 1.5, True, None, '0', '1', '-1', '1.5', 'a', 'a_b', 'True', 'true', 'None', 'null', '']


def primitives(ctx, i):
    """Numbers and the texts of numbers are different keys: a dump keeps them apart, whatever the options are."""
    fork = jsons.fork()
    opts = [{}, {'key_transformer': CAMEL}, {'key_transformer': str.upper}, {'key_transformer': lambda k: k + '_'}, {'strip_privates': True}, {'strip_nulls': True}, {'strict': True}, {'fork_inst': fork}, {'use_enum_name': False}]
    for n in range(0, 3 if ctx.thorough else 2):
        for rest in itertools.combinations(PKEYS[i + 1:], n + 1):
            for keys in ((PKEYS[i],) + rest, rest[::-1] + (PKEYS[i],)):
                d = {k: (j, 'v', None)[j % 2] for j, k in enumerate(keys)}
                if len(d) < len(keys):
                    continue
                for o in opts:
                    kt = o.get('key_transformer', lambda k: k)
                    want = {kt(k) if isinstance(k, str) else k: v for k, v in d.items()}
                    if len(want) < len(d):
                        continue
                    for what, v, get in (('root', d, lambda r: r), ('list', [d, {}], lambda r: r[0]), ('dict', {5: d}, lambda r: r[5]), ('object', Bag(d), lambda r: r[kt('a')]),
                                         ('hashed', {Pt(1): d}, lambda r: r[next(k for k in r if k not in ('-keys', kt('-keys')))])):
                        for how in ({}, {'cls': dict} if what == 'root' else {}):
                            r = attempt(lambda: get(jsons.dump(v, **how, **o)))
                            ctx.step()
                            ctx.expect(r[0] == 'ok' and same(r[1], want), 'primitives|%s|%s' % (what, sorted(o)), 'dump(%r, %r) gives %r, expected %r' % (v, o, r[1], want))
                    if not kt('aB_c') != 'aB_c':
                        r = attempt(lambda: jsons.load(jsons.dump(d, **o), **{k: x for k, x in o.items() if k in ('strict', 'fork_inst')}))
                        ctx.expect(r[0] == 'ok' and same(r[1], d), 'primitives|untyped', 'load(dump(%r)) gives %r' % (d, r[1]))
                ctx.state([repr(k) for k in keys])
                ctx.trace()


def cases(tier):
    th = tier == 'thorough'
    for k in KEYTERMS:
        yield Case('keys:' + k, ('subsets', k, 4 if th else 3))
    for n in range(1, 5 if th else 4):
        for hs in itertools.combinations_with_replacement(HASHES, n):    # the insertion orders are enumerated
            yield Case('hash:%s' % (hs,), ('hashes', hs, 2 if n < 3 else 1))
    for hs in itertools.product((0, 1, 5), repeat=2):
        yield Case('converted:%s' % (hs,), ('converted', hs))
    for a, b in itertools.product(NESTKEYS, repeat=2):
        yield Case('nest:%s:%s' % (a, b), ('nesting', a, b))
    for k in NESTKEYS:
        yield Case('deep:' + k, ('deep', k))
        yield Case('options:' + k, ('options', k))
    for i in range(len(PKEYS)):
        yield Case('primitives:%r' % (PKEYS[i],), ('primitives', i))


def run(ctx, args):
    globals()[args[0]](ctx, *args[1:])
