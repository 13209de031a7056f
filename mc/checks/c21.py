"""C21 all entry points agree with dump and load."""
import datetime as dtm
import decimal
import itertools
import json
import warnings
from dataclasses import dataclass, field
from typing import Dict, List, Optional, Union

import jsons
import jsonvals
from core import Case
from universe import *  # noqa
from universe import same

PROPERTY = 'C21'
ASSUMPTIONS = ['the built-in json module is the reference for texts', 'with_dump gives its options to dump and json, with_load to load and from_json, as documented']
J = jsons.JsonSerializable
CAMEL, SNAKE, LISP = jsons.KEY_TRANSFORMER_CAMELCASE, jsons.KEY_TRANSFORMER_SNAKECASE, jsons.KEY_TRANSFORMER_LISPCASE
DOPTS = [('strict', True), ('key_transformer', CAMEL), ('strip_nulls', True), ('strip_privates', True), ('strip_properties', True), ('strip_class_variables', True),
         ('strip_attr', ['f0']), ('use_enum_name', False), ('strip_microseconds', True), ('verbose', jsons.Verbosity.WITH_CLASS_INFO)]
LOPTS = [('strict', True), ('key_transformer', SNAKE), ('attr_getters', {'b': lambda: 'got'}), ('warn_on_fail', True), ('use_enum_name', False)]
ENCODINGS = ['utf-8', 'utf-16', 'utf-32', 'utf-8-sig', 'latin-1', 'ascii', 'cp1252']


class Enc(json.JSONEncoder):
    def encode(self, o):
        return 'encoded:' + super().encode(o)


class Dec(json.JSONDecoder):
    def decode(self, s):
        return {'decoded': super().decode(s)}


JD = [{}, {'indent': 2}, {'sort_keys': True}, {'ensure_ascii': False}, {'separators': (',', ':')}, {'cls': Enc}, {'allow_nan': False}, {'skipkeys': True},
      {'indent': 1, 'sort_keys': True, 'ensure_ascii': False, 'separators': (' , ', ' : ')}, {'nope': 1}]
JL = [{}, {'parse_int': str}, {'parse_float': decimal.Decimal}, {'parse_constant': str}, {'object_hook': lambda d: {'hooked': 1, **d}},
      {'object_pairs_hook': lambda ps: dict(reversed(ps))}, {'cls': Dec}, {'strict': False}, {'nope': 1}]


def BOUNDS(tier):
    th = tier == 'thorough'
    return {'values': 'all leaves and classes%s, with all their values' % (' and every combinator once' if th else ' and every combinator over int, str, datetime'),
            'options': 'no, each, %s of %d dump and %d load options' % ('all pairs and triples' if th else 'all pairs', len(DOPTS), len(LOPTS)),
            'jdkwargs': '%d for writing, %d for reading' % (len(JD), len(JL)), 'encodings': ENCODINGS, 'sources': 'all JSON values of the alphabet and malformed texts',
            'JsonSerializable': 'classes of %d kinds in %d forks x all methods x options' % (len(KINDS), 3)}


def norm(fn):
    try:
        return ('ok', fn())
    except RecursionError:
        return ('err', 'RecursionError')
    except Exception as err:
        return ('err', type(err).__name__, str(err), getattr(err, 'target', None), src(err))


def src(err):
    s = getattr(err, 'source', None)
    return s if type(s) in (str, int, float, bool, list, dict) else None


def agree(ctx, key, got, want, what, source=True):
    ctx.step()
    if got[0] == 'err' and not source:
        got, want = got[:4], want[:4]
    if got[0] != want[0] or (got[0] == 'err' and not same(got, want)) or (got[0] == 'ok' and not same(got[1], want[1])):
        ctx.fail(key, '%s gives %r, expected %r' % (what, got, want))
    else:
        ctx.outcome(want[0] if want[0] == 'ok' else want[1])


def subsets(opts, n):
    for k in range(n + 1):
        for c in itertools.combinations(opts, k):
            yield dict(c)


def term_list(tier):
    res = list(LEAVES + OBJECTS)
    res += [u for t in (LEAVES + OBJECTS if tier == 'thorough' else [LEAF[n] for n in REP_LEAVES]) for u in combine1(t)]
    return res


# ------------------------------------------------------------------ functions

def dumping(ctx, name, n):
    t = TERMS[name]
    for v, _ in t.vals:
        for opts in subsets(DOPTS, n):
            for with_cls in (False, True):
                kw = dict(opts)
                if with_cls:
                    kw['cls'] = t.tp
                base = norm(lambda: jsons.dump(v, **kw))
                key = '%s|%s' % (name, '+'.join(sorted(kw)))
                for jd in JD if len(opts) < 1 else JD[:2]:
                    want = norm(lambda: json.dumps(base[1], **jd)) if base[0] == 'ok' else base
                    agree(ctx, 'dumps|' + key, norm(lambda: jsons.dumps(v, jd, **kw)), want, 'dumps(%r, %r, %r)' % (v, jd, kw), False)
                    agree(ctx, 'dumps|' + key, norm(lambda: jsons.dumps(v, jdkwargs=jd, **kw)), want, 'dumps(%r, jdkwargs=%r, %r)' % (v, jd, kw), False)
                    if with_cls and len(opts) == 0:
                        agree(ctx, 'dumps cls|' + key, norm(lambda: jsons.dumps(v, jd, t.tp)), want, 'dumps(%r, %r, cls)' % (v, jd), False)
                        agree(ctx, 'dumpb cls|' + key, norm(lambda: jsons.dumpb(v, 'utf-8', jd, t.tp)),
                              norm(lambda: want[1].encode()) if want[0] == 'ok' else want, 'dumpb(%r, utf-8, %r, cls)' % (v, jd), False)
                    for enc in ENCODINGS if len(opts) == 0 else ENCODINGS[:2]:
                        w = norm(lambda: want[1].encode(enc)) if want[0] == 'ok' else want
                        agree(ctx, 'dumpb|' + key, norm(lambda: jsons.dumpb(v, encoding=enc, jdkwargs=jd, **kw)), w, 'dumpb(%r, %s, %r, %r)' % (v, enc, jd, kw), False)
                if base[0] == 'ok':
                    agree(ctx, 'dumpb|' + key, norm(lambda: jsons.dumpb(v, **kw)), norm(lambda: json.dumps(base[1]).encode()), 'dumpb(%r, %r)' % (v, kw))
                ctx.trace()
                ctx.state(name, v, sorted(kw))


def loading(ctx, name, n):
    t = TERMS[name]
    sources = [j for _, j in t.vals] + list(t.bad)
    for j in sources:
        text = json.dumps(j)
        utext = json.dumps(j, ensure_ascii=False)
        for opts in subsets(LOPTS, n):
            for cls in (t.tp, None):
                key = '%s|%s' % (name, '+'.join(sorted(opts)))
                for jl in JL if not opts else JL[:1]:
                    parsed = norm(lambda: json.loads(text, **jl))
                    if parsed[0] == 'err':
                        agree(ctx, 'loads jd|' + key, norm(lambda: jsons.loads(text, cls, jl, **opts))[:2], parsed[:2], 'loads(%r, %r)' % (text, jl), False)
                        continue
                    want = norm(lambda: jsons.load(json.loads(text, **jl), cls, **opts))
                    agree(ctx, 'loads|' + key, norm(lambda: jsons.loads(text, cls, jl, **opts)), want, 'loads(%r, %s, %r, %r)' % (text, cls, jl, opts))
                    agree(ctx, 'loads|' + key, norm(lambda: jsons.loads(utext, cls=cls, jdkwargs=jl, **opts)), want, 'loads(%r, cls=%s, jdkwargs=%r, %r)' % (utext, cls, jl, opts))
                    for enc in ENCODINGS if not opts else ENCODINGS[:2]:
                        for tx in (text, utext):
                            b = norm(lambda: tx.encode(enc))
                            if b[0] == 'ok':
                                agree(ctx, 'loadb|' + key, norm(lambda: jsons.loadb(b[1], cls, enc, jl, **opts)), want, 'loadb(%r, %s, %s, %r, %r)' % (b[1], cls, enc, jl, opts))
                    agree(ctx, 'loadb|' + key, norm(lambda: jsons.loadb(text.encode(), cls=cls, jdkwargs=jl, **opts)), want, 'loadb(%r, cls=%s, %r, %r)' % (text, cls, jl, opts))
                if not opts and cls is None:
                    agree(ctx, 'loads|' + key, norm(lambda: jsons.loads(text)), norm(lambda: jsons.load(j)), 'loads(%r)' % text)
                    agree(ctx, 'loadb|' + key, norm(lambda: jsons.loadb(text.encode())), norm(lambda: jsons.load(j)), 'loadb(%r)' % text)
                ctx.trace()
                ctx.state(name, text, sorted(opts), cls is None)


BAD_TEXTS = ['', ' ', '{', '}', '[', ']', '[1,', '[1 2]', '{"a"}', '{"a":}', '{a: 1}', "{'a': 1}", 'nul', 'tru', '"abc', 'abc', '1 2', '01', '+1', '.5', '1.', '0x1', '[1,]',
             '{"a": 1,}', '\x00', '"\x01"', '"\\x"', '"\\u12"', '\ufeff1', '--1', '1e', '/* */ 1', 'undefined', '{"a": 1}}']


def malformed(ctx, _):
    for tx in BAD_TEXTS:
        for cls in (None, int, List[int], Dict[str, int]):
            w = norm(lambda: json.loads(tx))
            assert w[0] == 'err', tx
            g = norm(lambda: jsons.loads(tx, cls))
            ctx.step()
            if g[:2] != ('err', 'DecodeError') or g[3] is not cls or g[4] != tx:
                ctx.fail('malformed|loads', 'loads(%r, %s) gives %r' % (tx, cls, g))
            for enc in ENCODINGS:
                b = norm(lambda: tx.encode(enc))
                if b[0] != 'ok' or enc == 'utf-8-sig' and tx.startswith('\ufeff'):
                    continue
                ctx.step()
                g = norm(lambda: jsons.loadb(b[1], cls, enc))
                if g[:2] != ('err', 'DecodeError'):
                    ctx.fail('malformed|loadb', 'loadb(%r, %s, %s) gives %r' % (b[1], cls, enc, g))
        ctx.state(tx)
        ctx.trace()
    for v in (None, 1, 'x', [], {}, bytearray(b'1'), memoryview(b'1')):
        ctx.step()
        g = norm(lambda: jsons.loadb(v))
        if g[:2] != ('err', 'DeserializationError'):
            ctx.fail('malformed|no bytes', 'loadb(%r) gives %r' % (v, g))
    for b, enc in ((b'\xff', 'utf-8'), (b'\x80"', 'ascii'), (b'"\xe9"', 'utf-8'), (b'\x00', 'utf-16')):
        ctx.step()
        g = norm(lambda: jsons.loadb(b, None, enc))
        if g[:2] != ('err', 'DeserializationError'):
            ctx.fail('malformed|undecodable', 'loadb(%r, None, %s) gives %r' % (b, enc, g))
    for tx in map(json.dumps, jsonvals_all()):
        for cls in (None, int, List[str], J):
            ctx.step()
            w = norm(lambda: jsons.load(json.loads(tx), cls))
            agree(ctx, 'value', norm(lambda: jsons.loads(tx, cls)), w, 'loads(%r, %s)' % (tx, cls))
            agree(ctx, 'value', norm(lambda: jsons.loadb(tx.encode('utf-16'), cls, 'utf-16')), w, 'loadb(%r, %s)' % (tx, cls))


def jsonvals_all():
    yield from jsonvals.S
    yield from jsonvals.lists()
    yield from jsonvals.dicts()


# ------------------------------------------------------------------ JsonSerializable

def plain_kind(base):
    class P(base):
        cv = 5

        def __init__(self, first_name: str, when: dtm.datetime, n: Optional[int] = None):
            self.first_name, self.when, self.n = first_name, when, n
            self._private = 1

        @property
        def prop(self):
            return 'p'

        def __eq__(self, o):
            return type(o) is type(self) and vars(o) == vars(self)
    return P, [P('a', WHEN), P('\u00e9', WHEN, 3)], {'first_name': 'a', 'when': WHENJ, 'n': 1}


def dc_kind(base):
    @dataclass
    class C(base):
        first_name: str
        b: int
        items: List[int] = field(default_factory=list)
    return C, [C('a', 1), C('\u00e9', 2, [1, 2])], {'first_name': 'a', 'b': 1}


def nested_kind(base):
    Dc, dv, dj = dc_kind(base)

    @dataclass
    class N(base):
        inner_obj: Dc
        many: Dict[str, Dc]
        c: Union[Dc, int] = 5
    N.__annotations__.update(inner_obj=Dc, many=Dict[str, Dc])
    return N, [N(dv[0], {'k': dv[1]}), N(dv[1], {}, dv[0])], {'inner_obj': dj, 'many': {'k': dj}}


def slots_kind(base):
    class S(base):
        __slots__ = ('a', 'b_c')

        def __init__(self, a: int, b_c: Color):
            self.a, self.b_c = a, b_c

        def __eq__(self, o):
            return type(o) is type(self) and (o.a, o.b_c) == (self.a, self.b_c)
    return S, [S(1, Color.RED)], {'a': 1, 'b_c': 'RED'}


import ucls  # noqa
Color = ucls.Color
WHEN = dtm.datetime(2020, 1, 2, 3, 4, 5, 678, tzinfo=dtm.timezone.utc)
WHENJ = '2020-01-02T03:04:05.5Z'
KINDS = {'plain': plain_kind, 'dataclass': dc_kind, 'nested': nested_kind, 'slots': slots_kind}
OWN = [('strict', True), ('key_transformer', CAMEL), ('strip_nulls', True), ('strip_privates', True), ('strip_properties', True), ('strip_class_variables', True),
       ('use_enum_name', False), ('strip_microseconds', True), ('verbose', jsons.Verbosity.WITH_CLASS_INFO), ('strip_attr', 'b')]


def a_fork(which):
    if which == 'main':
        return J
    f = J.fork('F1')
    jsons.set_serializer(lambda obj, **kw: 'int:%d' % obj, int, fork_inst=f)
    jsons.set_deserializer(lambda obj, cls, **kw: int(str(obj).split(':')[-1]) + 100, int, fork_inst=f)
    jsons.set_serializer(lambda obj, **kw: 'str:' + obj, str, fork_inst=f)
    if which == 'fork of fork':
        f = f.fork('F2')
        jsons.set_serializer(lambda obj, **kw: 'datetime', dtm.datetime, fork_inst=f)
    return f


def methods(ctx, kind, which, n):
    base = a_fork(which)
    cls, vals, source = KINDS[kind](base)
    key = '%s|%s' % (kind, which)
    for v in vals:
        # (str is part of the class, json is a property)
        agree(ctx, 'json|' + key, norm(lambda: v.json), norm(lambda: jsons.dump(v, fork_inst=cls)), '%r.json' % kind)
        agree(ctx, 'json|' + key, norm(lambda: v.json), norm(lambda: jsons.dump(v, fork_inst=base)), '%r.json' % kind)
        agree(ctx, 'str|' + key, norm(lambda: str(v)), norm(lambda: jsons.dumps(v, fork_inst=base)), 'str(%r)' % kind)
        for opts in subsets(OWN, n):
            d = norm(lambda: jsons.dump(v, fork_inst=base, **opts))
            agree(ctx, 'dump|' + key, norm(lambda: v.dump(**opts)), d, 'dump(%r)' % opts)
            for jd in JD if not opts else JD[:2]:
                w = norm(lambda: jsons.dumps(v, jdkwargs=jd, fork_inst=base, **opts))
                agree(ctx, 'dumps|' + key, norm(lambda: v.dumps(jdkwargs=jd, **opts)), w, 'dumps(%r, %r)' % (jd, opts), False)
                for enc in ENCODINGS:
                    w = norm(lambda: jsons.dumpb(v, encoding=enc, jdkwargs=jd, fork_inst=base, **opts))
                    agree(ctx, 'dumpb|' + key, norm(lambda: v.dumpb(encoding=enc, jdkwargs=jd, **opts)), w, 'dumpb(%s, %r, %r)' % (enc, jd, opts), False)
            ctx.state(kind, which, v.dumps() if True else 0, sorted(opts))
            ctx.trace()
    # sources: complete, with each key left out, replaced or added, and what is no object
    sources = [source] + [{k: x for k, x in source.items() if k != gone} for gone in source] + [{**source, k: None} for k in source] \
        + [{**source, 'zz': 1}, {CAMEL(k): x for k, x in source.items()}, {}, [], 'x', 5, None]
    for s in sources:
        for opts in subsets(LOPTS, n):
            w = norm(lambda: jsons.load(s, cls, fork_inst=base, **opts))
            agree(ctx, 'load|' + key, norm(lambda: cls.load(s, **opts)), w, '%s.load(%r, %r)' % (kind, s, opts))
            agree(ctx, 'from_json|' + key, norm(lambda: cls.from_json(s, **opts)), w, '%s.from_json(%r, %r)' % (kind, s, opts))
            tx = json.dumps(s)
            agree(ctx, 'loads|' + key, norm(lambda: cls.loads(tx, **opts)), w, '%s.loads(%r, %r)' % (kind, tx, opts))
            for enc in ENCODINGS[:3]:
                agree(ctx, 'loadb|' + key, norm(lambda: cls.loadb(tx.encode(enc), encoding=enc, **opts)), w, '%s.loadb(%r, %s, %r)' % (kind, tx, enc, opts))
            agree(ctx, 'loads jd|' + key, norm(lambda: cls.loads(tx, jdkwargs={'parse_int': str}, **opts)),
                  norm(lambda: jsons.load(json.loads(tx, parse_int=str), cls, fork_inst=base, **opts)), '%s.loads(%r, %r)' % (kind, tx, opts))
            ctx.trace()
    for tx in BAD_TEXTS[:8]:
        agree(ctx, 'malformed|' + key, norm(lambda: cls.loads(tx)), norm(lambda: jsons.loads(tx, cls)), 'loads(%r)' % tx)
        agree(ctx, 'malformed|' + key, norm(lambda: cls.loadb(tx.encode())), norm(lambda: jsons.loadb(tx.encode(), cls)), 'loadb(%r)' % tx)
    # The class of one fork inside an object of another: the fork of the whole is used.
    other = a_fork('fork')
    Dc, dv, dj = dc_kind(base)

    class Holder(other):
        def __init__(self, o: Dc, n: int):
            self.o, self.n = o, n
    h = Holder(dv[1], 5)
    agree(ctx, 'holder|' + key, norm(lambda: h.json), norm(lambda: jsons.dump(h, fork_inst=other)), 'json of a holder of another fork')
    agree(ctx, 'holder|' + key, norm(lambda: vars(Holder.from_json({'o': dj, 'n': 1}))), norm(lambda: vars(jsons.load({'o': dj, 'n': 1}, Holder, fork_inst=other))), 'from_json of a holder')
    agree(ctx, 'list|' + key, norm(lambda: jsons.dump(vals, fork_inst=base)), norm(lambda: [v.dump() for v in vals]), 'a list of objects')


def with_options(ctx, kind, which, n):
    """with_dump and with_load add their options."""
    key = '%s|%s' % (kind, which)
    for opts in subsets(OWN, n):
        for fork in (True, False):
            base = a_fork(which)
            if not fork:
                base = base.fork('private')      # with_dump without fork changes the class itself
            d = base.with_dump(fork=fork, **opts)
            if fork and (d is base or not issubclass(d, base)):
                ctx.fail('with_dump|' + key, 'with_dump(fork=True) does not give a fork')
            if not fork and d is not base:
                ctx.fail('with_dump|' + key, 'with_dump() does not give the class itself')
            cls, vals, source = KINDS[kind](d)
            for v in vals:
                w = norm(lambda: jsons.dump(v, fork_inst=base, **opts))
                agree(ctx, 'with_dump json|' + key, norm(lambda: v.json), w, 'json with %r' % opts)
                agree(ctx, 'with_dump dump|' + key, norm(lambda: v.dump()), w, 'dump() with %r' % opts)
                for name in opts:
                    for other in (True, False, None):
                        if opts[name] in (True, False, None):
                            agree(ctx, 'with_dump conflict|' + key, norm(lambda: v.dump(**{name: other})), w, 'dump(%s=%r) with %r' % (name, other, opts))
                for extra in OWN:
                    if extra[0] not in opts:
                        agree(ctx, 'with_dump dump+|' + key, norm(lambda: v.dump(**dict([extra]))),
                              norm(lambda: jsons.dump(v, fork_inst=base, **{**opts, extra[0]: extra[1]})), 'dump(%s) with %r' % (extra[0], opts))
            agree(ctx, 'with_dump load|' + key, norm(lambda: cls.load(source)), norm(lambda: jsons.load(source, cls, fork_inst=base)), 'load of a class with with_dump')
            ctx.state(kind, which, sorted(opts), fork)
            ctx.trace()
            if fork:
                # The class that was forked is as it was.
                cls, vals, source = KINDS[kind](base)
                agree(ctx, 'with_dump base|' + key, norm(lambda: vals[0].dump()), norm(lambda: jsons.dump(vals[0], fork_inst=base)), 'dump of the base of a fork by with_dump(%r)' % opts)
    for opts in subsets(LOPTS, n):
        for fork in (True, False):
            base = a_fork(which)
            if not fork:
                base = base.fork('private')
            d = base.with_load(fork=fork, **opts)
            cls, vals, source = KINDS[kind](d)
            for s in (source, {CAMEL(k): x for k, x in source.items()}, {**source, 'zz': 1}, {k: source[k] for k in list(source)[1:]}, {}, [], 5):
                w = norm(lambda: jsons.load(s, cls, fork_inst=base, **opts))
                agree(ctx, 'with_load load|' + key, norm(lambda: cls.load(s)), w, 'load(%r) with %r' % (s, opts))
                agree(ctx, 'with_load from_json|' + key, norm(lambda: cls.from_json(s)), w, 'from_json(%r) with %r' % (s, opts))
                for extra in LOPTS:
                    if extra[0] not in opts:
                        agree(ctx, 'with_load load+|' + key, norm(lambda: cls.from_json(s, **dict([extra]))),
                              norm(lambda: jsons.load(s, cls, fork_inst=base, **{**opts, extra[0]: extra[1]})), 'from_json(%r, %s) with %r' % (s, extra[0], opts))
                # the options of the class have precedence over those of the call
                for name in opts:
                    for other in (True, False, None):
                        if opts[name] in (True, False, None):
                            agree(ctx, 'with_load conflict|' + key, norm(lambda: cls.load(s, **{name: other})), w, 'load(%r, %s=%r) with %r' % (s, name, other, opts))
                            agree(ctx, 'with_load conflict|' + key, norm(lambda: cls.from_json(s, **{name: other})), w, 'from_json(%r, %s=%r) with %r' % (s, name, other, opts))
            both = base.with_load(fork=True, **opts).with_dump(fork=True, strip_nulls=True)
            cls, vals, source = KINDS[kind](both)
            agree(ctx, 'both|' + key, norm(lambda: cls.from_json(source).json), norm(lambda: jsons.dump(jsons.load(source, cls, fork_inst=base, **opts), fork_inst=base, strip_nulls=True)),
                  'with_load and with_dump')
            ctx.state(kind, which, sorted(opts), fork, 'load')
            ctx.trace()


def setters(ctx, _):
    """The setters of JsonSerializable are those of jsons for that fork."""
    for tp, v, j in ((int, 5, 7), (str, 'a', 'b'), (dtm.datetime, WHEN, WHENJ), (ucls.DC, ucls.DC(1, 'x') if True else 0, {'a': 1, 'b': 'x'})):
        for fork in (False, True):
            for prio in (True, False):
                ser, des = (lambda obj, **kw: ['ser', str(tp)]), (lambda obj, cls, **kw: ('des', str(obj)))
                a, b = J.fork('A'), J.fork('B')
                ra = a.set_serializer(ser, tp, prio, fork).set_deserializer(des, tp, high_prio=prio, fork=fork)
                jsons.set_serializer(ser, tp, prio, b)
                jsons.set_deserializer(des, tp, prio, b)
                if fork == (ra is a):
                    ctx.fail('setters', 'fork=%s gives %s' % (fork, ra))
                agree(ctx, 'setters', norm(lambda: jsons.dump([v], fork_inst=ra)), norm(lambda: jsons.dump([v], fork_inst=b)), 'set_serializer(%s)' % tp)
                agree(ctx, 'setters', norm(lambda: jsons.load([j], List[tp], fork_inst=ra)), norm(lambda: jsons.load([j], List[tp], fork_inst=b)), 'set_deserializer(%s)' % tp)
                if fork:
                    agree(ctx, 'setters', norm(lambda: jsons.dump([v], fork_inst=a)), norm(lambda: jsons.dump([v])), 'the forked class after set_serializer(%s, fork=True)' % tp)
                ctx.state(str(tp), fork, prio)
                ctx.trace()


# ------------------------------------------------------------------ transform

def transforms(ctx, name, n):
    t = TERMS[name]
    def none(d):
        return None

    def add(d):
        return {**d, 'zz': 1} if isinstance(d, dict) else [d]

    def boom(d):
        raise KeyError('mapper')
    vals = t.vals[:4]
    sig = [t.tp, int, str, List[int], ucls.DC, Optional[int], None]
    for (v, _), cls in itertools.product(vals, sig):
        for mapper in (None, lambda d: d, add, none, boom):
            for dopts in [{}] + [dict([o]) for o in DOPTS]:
                for lopts in [{}] + [dict([o]) for o in LOPTS] if not dopts or n > 1 else [{}]:
                    for dump_cls in (None, t.tp):
                        def hand():
                            d = jsons.dump(v, dump_cls, **dopts)
                            return jsons.load(mapper(d) if mapper else d, cls, **lopts)
                        got = norm(lambda: jsons.transform(v, cls, mapper=mapper, dump_cls=dump_cls, dump_kwargs=dopts, **lopts))
                        agree(ctx, 'transform|%s' % name, got, norm(hand), 'transform(%r, %s, %s, %s, %r, %r)' % (v, cls, mapper, dump_cls, dopts, lopts), False)
        ctx.trace()
        ctx.state(name, v, cls)
    w = norm(lambda: jsons.load(jsons.dump(v), t.tp))
    agree(ctx, 'transform|%s' % name, norm(lambda: jsons.transform(v, t.tp)), w, 'transform(%r, %s)' % (v, t.tp), False)


TERMS = {}


def prepare(tier):
    for t in term_list(tier):
        TERMS.setdefault(t.name, t)


def cases(tier):
    th = tier == 'thorough'
    prepare(tier)
    for name, t in TERMS.items():
        yield Case('dump/' + name, (dumping, name, 3 if th and t.depth == 0 else 2 if t.depth == 0 or th else 1))
        yield Case('load/' + name, (loading, name, 3 if th and t.depth == 0 else 2 if t.depth == 0 or th else 1))
        if t.depth == 0:
            yield Case('transform/' + name, (transforms, name, 2 if th else 1))
    yield Case('malformed', (malformed, None))
    yield Case('setters', (setters, None))
    for k in KINDS:
        for which in ('main', 'fork', 'fork of fork'):
            yield Case('methods/%s/%s' % (k, which), (methods, k, which, 3 if th else 2))
            yield Case('with/%s/%s' % (k, which), (with_options, k, which, 3 if th else 2))


def run(ctx, args):
    warnings.simplefilter('ignore')
    prepare(ctx.tier)
    args[0](ctx, *args[1:])
