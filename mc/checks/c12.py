"""C12 a Union is tried from left to right and the first match wins."""
import itertools
import typing
from typing import Optional, Union

import jsons
from core import Case
from jsons.exceptions import DeserializationError, JsonsError
from lib import caught
from universe import *  # noqa

PROPERTY = 'C12'
ASSUMPTIONS = ['the oracle is the library itself: load(source, member) alone, with the same options',
               'typing.Union objects (int | str of PEP 604 is not supported by jsons); None dumped with a Union that does not contain '
               'None is unspecified']
MEMBERS = {n: LEAF[n].tp for n in ('int', 'str', 'float', 'bool', 'None', 'datetime', 'date', 'timedelta', 'Decimal', 'UUID', 'Color', 'Clash',
                                   'complex', 'Path', 'UserId')}
MEMBERS.update({n: OBJ[n].tp for n in ('DC', 'Plain', 'DCDef', 'Child', 'NT', 'NTDef', 'Slots', 'Node')})
MEMBERS.update({'List[int]': List[int], 'List[str]': List[str], 'Dict[str,int]': Dict[str, int], 'Tuple[int,str]': Tuple[int, str],
                'Set[int]': Set[int], 'List[DC]': List[DC], 'list': list, 'dict': dict, 'Dict[int,DC]': Dict[int, DC],
                'Tuple[U]': Tuple[Union[str, int], ...]})
SRC = [None, True, False, 0, 1, 5, -1, 1.5, 2.0, '', 'x', '5', '1.5', 'RED', 'A', 'B', 'g', '2020-01-02T03:04:05Z', '2020-01-02', 'True',
       '12345678-1234-5678-1234-567812345678', [], [1], ['1'], ['x'], [1, 'x'], [None], [[1]], [1, 1], {}, {'a': 1}, {'a': '1'}, {'a': 'x'},
       {'a': 1, 'b': 'x'}, {'a': 1, 'b': 'x', 'c': 2.5}, {'a': 1, 'b': None}, {'a': 'zz', 'b': 'x'}, {'real': 1.0, 'imag': 2.0}, {'v': 1},
       {'a': None}, {'zz': 1}, [{'a': 1, 'b': 'x'}], [{'a': 1}], {'1': {'a': 1, 'b': 'x'}}, {'v': 1, 'next': {'v': 2}}]
SHORT = [None, True, 1, 1.5, 'x', '5', 'RED', '2020-01-02T03:04:05Z', [], ['x'], [1, 'x'], {}, {'a': 1}, {'a': 1, 'b': 'x'},
         {'a': 1, 'b': 'x', 'c': 2.5}, {'v': 1}]
OBJECTS_ = [None, True, 1, 1.5, 'x', '5', D(2020, 1, 2, 3, 4, 5, tz=UTC), dtm.date(2020, 1, 2), decimal.Decimal('1.5'), uuid.UUID(int=3), Color.RED, Clash.A,
            1 + 2j, DC(1, 'x'), Plain(1, 'x'), Child(1, 'x', 2.5), NT(1, 'x'), Slots(1, 'x'), [1], ['x'], [DC(1, 'x')], {'a': 1}, {1: DC(1, 'x')},
            (1, 'x'), {1}, dtm.timedelta(seconds=3), pathlib.Path('a')]
class VF(jsons.JsonSerializable.fork('VF')):
    """A fork that turns down values in various ways."""


def _rejecting(bad, err):
    def v(o):
        if bad(o):
            raise err
        return True
    return v


def _deser(obj, cls, **kwargs):
    if obj == 'x' or obj == 1:
        raise jsons.exceptions.SerializationError('no') if obj == 1 else jsons.ValidationError('no')
    return jsons.default_primitive_deserializer(obj, cls, **kwargs)


jsons.set_validator(lambda o: type(o) is bool or o not in (1, 5), int, fork_inst=VF)
jsons.set_validator(_rejecting(lambda o: o in ('5', 'RED', ''), ValueError('bad')), str, fork_inst=VF)
jsons.set_validator([lambda o: True, lambda o: o.a != 1], DC, fork_inst=VF)
jsons.set_validator(_rejecting(lambda o: o.value == 1, jsons.UnfulfilledArgumentError('bad', 'a', {}, int)), Color, fork_inst=VF)
jsons.set_validator(_rejecting(lambda o: o.year == 2020, KeyError()), dtm.datetime, fork_inst=VF)
jsons.set_validator(lambda o: o.b is None, NTDef, fork_inst=VF)
jsons.set_validator(lambda o: '', Node, fork_inst=VF)
jsons.set_deserializer(_deser, float, fork_inst=VF)

OPTS = [{}, {'strict': True}, {'key_transformer': jsons.KEY_TRANSFORMER_SNAKECASE}, {'attr_getters': {'b': str}}, {'warn_on_fail': True}, {'fork_inst': VF}]
OPTN = ['lenient', 'strict', 'kt', 'getters', 'warn', 'fork that rejects']
MICRO = ('int', 'str', 'datetime', 'DC', 'Child', 'List[int]')
CORE = ('int', 'str', 'bool', 'None', 'datetime', 'Color', 'DC', 'Child', 'NTDef', 'List[int]', 'dict')


def BOUNDS(tier):
    return {'members': len(MEMBERS), 'unions': 'all ordered selections of two members and of three%s' % (' (and of four of the core)' if tier == 'thorough' else
                                                                                       ' of which two are of the core') + ', core: ' + ', '.join(CORE),
            'sources': '%d JSON values at the root, %d at the other positions' % (len(SRC), len(SHORT)),
            'options': OPTN, 'positions': 'root, list, dict, tuple, set, deque, iterable, all kinds of objects, Optional list, NewType, Union in '
                                          'Union (through a list), all orders within one tuple and one class',
            'dump': '%d values with all those unions as cls' % len(OBJECTS_)}


def single(j, tp, kw):
    with caught():
        try:
            r = jsons.load(j, tp, **kw)
        except JsonsError as err:
            return ('err', type(err).__name__)
    try:
        hash(r)
        return ('ok', snap(r), False)
    except TypeError:
        return ('ok', snap(r), True)    # cannot be in a set


_table = {}


def alone(i, m, o, srcs=SRC):
    key = (i, m, o)
    if key not in _table:
        _table[key] = single(SRC[i], MEMBERS[m], OPTS[o])
    return _table[key]


def want(i, ms, o):
    for m in ms:
        r = alone(i, m, o)
        if r[0] == 'ok':
            return r
    return ('err',)


def mk(ms):
    return Union[tuple(MEMBERS[m] for m in ms)]


def root(ctx, ms, opts):
    U = mk(ms)
    if len(ms) > 1 and tuple(MEMBERS[m] for m in ms) != tuple(NoneType if a is None else a for a in U.__args__):
        return    # collapsed by typing
    for o in opts:
        for i, j in enumerate(SRC):
            w = want(i, ms, o)
            ctx.step()
            ctx.trace()
            key = 'root|%s|%s|%r' % (','.join(ms), OPTN[o], j)
            with caught():
                try:
                    r = ('ok', snap(jsons.load(j, U, **OPTS[o])))
                except DeserializationError as err:
                    r = ('err',)
                    if err.source is not j and err.source != j:
                        ctx.fail(key, 'the error names another source: %r' % (err.source,))
                except Exception as err:
                    ctx.fail(key, 'raises %s: %s' % (type(err).__name__, err))
                    continue
            if r != w[:2]:
                ctx.fail(key, 'load(%r, Union[%s], %s) gives %r; the first member that accepts it gives %r' % (j, ','.join(ms), OPTN[o], r, w))
            if j is None and (r[0] == 'ok') != ('None' in ms or 'list' == 'never'):
                ctx.fail(key, 'None gives %r' % (r,))
    ctx.state(ms)


def alias(generic, *args):
    return generic.copy_with(tuple(args))


def gen(kind, U):
    """A type with U inside (never through typing's cache, which confuses Unions that differ in order)."""
    if kind in OBJ_KINDS:
        n = 'U%d' % len(_classes)
        return holder(kind, n, {'f': U})
    return {'list[]': lambda: list[U], 'List': lambda: alias(List[int], U), 'dict[]': lambda: dict[str, U], 'Dict': lambda: alias(Dict[str, int], str, U),
            'Tuple': lambda: alias(Tuple[int, str], U, U), 'VTuple': lambda: alias(Tuple[int, ...], U, ...), 'Deque': lambda: alias(Deque[int], U),
            'Iterable': lambda: alias(Iterable[int], U), 'Sequence': lambda: alias(Sequence[int], U), 'Mapping': lambda: alias(Mapping[str, int], str, U),
            'Set': lambda: alias(Set[int], U), 'FrozenSet': lambda: alias(FrozenSet[int], U), 'NewType': lambda: typing.NewType('NU', U),
            'OptList': lambda: Optional[list[U]], 'ListOpt': lambda: list[list[U]], 'tuple[]': lambda: tuple[U, U]}[kind]()


_classes = []


def holder(kind, n, fields):
    """A class of the given kind with the fields (name: hint)."""
    if kind == 'Dc':
        c = dataclasses.make_dataclass(n, list(fields.items()))
    elif kind == 'Nt':
        c = NamedTuple(n, list(fields.items()))
    elif kind == 'At':
        c = attr.make_class(n, {f: attr.ib(type=h) for f, h in fields.items()})
        c.__init__.__annotations__ = {**fields, 'return': None}
    else:
        ns = {}
        exec('def __init__(self, %s):\n%s' % (', '.join(fields), ''.join('    self.%s = %s\n' % (f, f) for f in fields)), ns)
        ns['__init__'].__annotations__ = dict(fields)
        body = {'__init__': ns['__init__']}
        if kind == 'Sl':
            body['__slots__'] = tuple(fields)
        c = type(n, (jsons.JsonSerializable,) if kind == 'Js' else (object,), body)
    c.__module__ = 'ucls'
    _classes.append(c)
    return c


SEQS = ('list[]', 'List', 'Deque', 'Iterable', 'Sequence', 'VTuple')


def positions(ctx, ms, opts):
    U = mk(ms)
    ok = [i for i, j in enumerate(SRC) if any(j is s or (type(j) is type(s) and j == s) for s in SHORT)]
    for kind in SEQS + ('dict[]', 'Dict', 'Mapping', 'Tuple', 'tuple[]', 'NewType', 'OptList', 'ListOpt', 'Set', 'FrozenSet') + OBJ_KINDS:
        tp = gen(kind, U)
        for o in opts:
            for i in ok:
                j = SRC[i]
                w = want(i, ms, o)
                key = 'pos|%s|%s|%s|%r' % (kind, ','.join(ms), OPTN[o], j)
                for x in (0, 1):        # alone, and next to a value that is accepted
                    n = next((k for k in ok if want(k, ms, o)[0] == 'ok'), -1)
                    if x and (n < 0 or kind in ('NewType',) + OBJ_KINDS or kind in ('Set', 'FrozenSet')):
                        continue
                    wn = x and want(n, ms, o)
                    if kind in SEQS:
                        src, get = [j] + [SRC[n]] * x, lambda r: list(r)
                    elif kind in ('dict[]', 'Dict', 'Mapping'):
                        src, get = {'p': j, **({'q': SRC[n]} if x else {})}, lambda r: list(r.values())
                    elif kind in ('Tuple', 'tuple[]'):
                        src, get = [j, SRC[n] if x else j], list
                    elif kind == 'OptList':
                        src, get = [j] + [SRC[n]] * x, list
                    elif kind == 'ListOpt':
                        src, get = [[], [j] + [SRC[n]] * x], lambda r: r[1]
                    elif kind == 'NewType':
                        src, get = j, lambda r: [r]
                    elif kind in ('Set', 'FrozenSet'):
                        src, get = [j], lambda r: list(r)
                    else:
                        src, get = {'f': j}, lambda r: [r.f]
                    ctx.step()
                    ctx.trace()
                    if OPTN[o] == 'warn' and any('[' in m or m in ('list', 'dict') for m in ms):
                        continue        # what fails inside of a list within a list fails that list
                    if OPTN[o] == 'warn' and kind in ('ListOpt', 'Set', 'FrozenSet') or OPTN[o] == 'getters' and kind in OBJ_KINDS + ('ListOpt',):
                        continue
                    with caught():
                        try:
                            r = ('ok', [snap(y) for y in get(jsons.load(src, tp, **OPTS[o]))])
                        except JsonsError as err:
                            r = ('err',)
                        except Exception as err:
                            ctx.fail(key, 'raises %s: %s' % (type(err).__name__, err))
                            continue
                    if kind in ('Set', 'FrozenSet') and w[0] == 'ok' and r[0] == 'err':
                        try:
                            hash(jsons.load(j, U, **OPTS[o]))
                        except TypeError:
                            continue
                    if OPTN[o] == 'warn' and any('[' in m or m in ('list', 'dict') for m in ms):
                        continue        # what fails inside of a list within a list fails that list
                    if OPTN[o] == 'warn' and kind in ('list[]', 'List', 'Deque', 'Iterable', 'Sequence', 'OptList'):
                        e = ('ok', [y[1] for y in ([w] + ([wn] if x else [])) if y[0] == 'ok'])
                    elif w[0] == 'err':
                        e = ('err',)
                    elif kind in ('Tuple', 'tuple[]'):
                        e = ('ok', [w[1], (wn or w)[1]])
                    else:
                        e = ('ok', [w[1]] + ([wn[1]] if x else []))
                    if r != e:
                        ctx.fail(key, 'load(%r, %s of Union[%s], %s) gives %r, expected %r' % (src, kind, ','.join(ms), OPTN[o], r, e))
        ctx.state(kind, ms)


def orders(ctx, ms, opts):
    """All orders of the same members within one call."""
    ps = list(itertools.permutations(ms))
    Us = [mk(p) for p in ps]
    tp = alias(Tuple[int, str], *Us)
    names = ['f%d' % i for i in range(len(ps))]
    kinds = [holder(k, 'O%d' % len(_classes), dict(zip(names, Us))) for k in OBJ_KINDS]
    nested = alias(Tuple[int, str], *[list[u] for u in Us])
    more = [(k, alias(Tuple[int, str], *[gen(k, u) for u in Us])) for k in ('Set', 'Deque', 'VTuple', 'Iterable', 'FrozenSet')]
    defd = alias(Tuple[int, str], *[alias(DefaultDict[str, int], str, u) for u in Us])
    nested2 = alias(Tuple[int, str], *[dict[str, u] for u in Us])
    for o in opts:
        for i, j in enumerate(SRC):
            ws = [want(i, p, o) for p in ps]
            shapes = [('tuple', [j] * len(ps), tp, list), ('lists', [[j]] * len(ps), nested, lambda r: [x[0] for x in r]),
                      ('dicts', [{'k': j}] * len(ps), nested2, lambda r: [x['k'] for x in r])]
            shapes += [(k, [[j]] * len(ps), t, lambda r: [list(x)[0] for x in r]) for k, t in more]
            shapes += [('defaultdicts', [{'k': j}] * len(ps), defd, lambda r: [x['k'] for x in r])]
            shapes += [(k, dict(zip(names, [j] * len(ps))), c, lambda r: [getattr(r, n) for n in names]) for k, c in zip(OBJ_KINDS, kinds)]
            for nm, src, t, get in shapes:
                if OPTN[o] == 'warn' and nm in ('lists', 'Set', 'Deque', 'VTuple', 'Iterable', 'FrozenSet') or OPTN[o] == 'getters' and nm in OBJ_KINDS:
                    continue
                key = 'orders|%s|%s|%s|%r' % (nm, ','.join(ms), OPTN[o], j)
                ctx.step()
                ctx.trace()
                with caught():
                    try:
                        r = ('ok', [snap(x) for x in get(jsons.load(src, t, **OPTS[o]))])
                    except JsonsError as err:
                        r = ('err',)
                    except Exception as err:
                        ctx.fail(key, 'raises %s: %s' % (type(err).__name__, err))
                        continue
                e = ('err',) if any(w[0] == 'err' for w in ws) else ('ok', [w[1] for w in ws])
                if r[0] == 'err' and nm in ('Set', 'FrozenSet') and any(w[0] == 'ok' and w[2] for w in ws):
                    continue
                if r != e:
                    ctx.fail(key, 'load(%r) with all orders of [%s] in one call (%s): %r, expected %r' % (src, ','.join(ms), nm, r, e))
    # and one after the other, without anything in between that clears the state of the library
    ctx.state('orders', ms)


_dtable = {}
DOPTS = [{}, {'strict': True}, {'key_transformer': jsons.KEY_TRANSFORMER_PASCALCASE, 'strip_nulls': True}]


def dump1(v, tp, kw):
    with caught():
        try:
            return ('ok', snap(jsons.dump(v, tp, **kw)))
        except JsonsError as err:
            return ('err',)


def dalone(i, m, o):
    if (i, m, o) not in _dtable:
        _dtable[(i, m, o)] = dump1(OBJECTS_[i], MEMBERS[m], DOPTS[o])
    return _dtable[(i, m, o)]


def dwant(i, ms, o):
    if OBJECTS_[i] is None and 'None' in ms:
        return ('ok', snap(None))
    for m in best_first(OBJECTS_[i], ms):
        if m in OBJ and type(OBJECTS_[i]) not in OBJECT_TYPES and not DOPTS[o].get('strict'):
            return None        # dumping e.g. a number as if it were some other class is not meant by anyone (and very slow)
        r = dalone(i, m, o)
        if r[0] == 'ok':
            return r
    return ('err',)


def best_first(v, ms):
    """Members of exactly the type of the value, those it is an instance of, the others; each from left to right."""
    exact, inst, rest = [], [], []
    for m in ms:
        tp = MEMBERS[m]
        tp = getattr(tp, '__supertype__', tp)
        tp = getattr(tp, '__origin__', tp)
        if tp is type(v):
            exact.append(m)
        elif isinstance(tp, type) and tp is not Any and isinstance(v, tp):
            inst.append(m)
        else:
            rest.append(m)
    return exact + inst + rest


OBJECT_TYPES = (DC, Plain, Child, NT, Slots)


def dumps(ctx, ms):
    U = mk(ms)
    if tuple(MEMBERS[m] for m in ms) != tuple(U.__args__):     # collapsed by typing
        return
    for o in range(len(DOPTS)):
        for i, v in enumerate(OBJECTS_):
            if v is None and 'None' not in ms:
                continue
            w = dwant(i, ms, o)
            if w is None:
                continue
            ctx.step()
            ctx.trace()
            key = 'dump|%s|%d|%r' % (','.join(ms), o, v)
            try:
                r = dump1(v, U, DOPTS[o])
            except Exception as err:
                ctx.fail(key, 'raises %s: %s' % (type(err).__name__, err))
                continue
            if r != w:
                ctx.fail(key, 'dump(%r, Union[%s], %d) gives %r; the first member that accepts it gives %r' % (v, ','.join(ms), o, r, w))


def dump_positions(ctx, ms):
    U = mk(ms)
    for o in range(len(DOPTS)):
        for i, v in enumerate(OBJECTS_):
            if v is None and 'None' not in ms:
                continue
            w = dwant(i, ms, o)
            if w is None:
                continue
            for kind in ('list[]', 'OptList', 'NewType') if not DOPTS[o].get('strict') else ('list[]', 'Tuple', 'VTuple', 'Deque', 'OptList', 'Iterable', 'NewType'):
                tp = gen(kind, U)
                val = {'list[]': [v], 'dict[]': {'p': v}, 'Tuple': (v, v), 'VTuple': (v,), 'Deque': deque([v]), 'OptList': [v],
                       'Iterable': [v], 'Mapping': {'p': v}, 'NewType': v}[kind]
                key = 'dumppos|%s|%s|%d|%r' % (kind, ','.join(ms), o, v)
                ctx.step()
                ctx.trace()
                try:
                    with caught():
                        r = ('ok', jsons.dump(val, tp, **DOPTS[o]))
                except JsonsError:
                    r = ('err',)
                except Exception as err:
                    ctx.fail(key, 'raises %s: %s' % (type(err).__name__, err))
                    continue
                if w[0] == 'err':
                    e = ('err',)
                    g = r[:1]
                else:
                    e = ('ok', [w[1]] * (2 if kind == 'Tuple' else 1))
                    g = r if r[0] == 'err' else ('ok', [snap(r[1])] if kind == 'NewType' else
                                                 [snap(x) for x in (r[1].values() if isinstance(r[1], dict) else r[1])])
                    if v is None and kind in ('dict[]', 'Mapping') and DOPTS[o].get('strip_nulls'):
                        e = ('ok', [])
                if g != e:
                    ctx.fail(key, 'dump(%r, %s of Union[%s], %d) gives %r, expected %r' % (val, kind, ','.join(ms), o, g, e))


def cases(tier):
    names = list(MEMBERS)
    for a in names:
        yield Case('one:' + a, ('sel', (a,)))
        for b in names:
            if a != b:
                yield Case('%s,%s' % (a, b), ('sel', (a, b)))
    for a, b in itertools.combinations(names, 2):
        if tier == 'thorough' or a in CORE and b in CORE:
            yield Case('orders:%s,%s' % (a, b), ('orders', (a, b)))
    for ms in itertools.combinations(CORE, 3):
        if tier == 'thorough' or all(m in MICRO + ('bool', 'NTDef') for m in ms):
            yield Case('orders:' + ','.join(ms), ('orders', ms))


def run(ctx, args):
    kind, ms = args
    if kind == 'orders':
        orders(ctx, ms, (0, 1, 5) if len(ms) > 2 else range(6))
        return
    if len(ms) == 1:
        if ms == ('None',):
            return ctx.expect(True, '', '')
        # Optional[X]
        ms = ms + ('None',)
        ctx.expect(mk(ms) == Optional[MEMBERS[ms[0]]], 'opt', '')
    root(ctx, ms, range(6))
    if ctx.thorough or all(m in CORE for m in ms) or 'None' in ms:
        positions(ctx, ms, range(6))
        dump_positions(ctx, ms)
    dumps(ctx, ms)
    rest = [m for m in MEMBERS if m not in ms]
    for m in rest:
        core = sum(x in CORE for x in ms + (m,))
        if ctx.thorough or core >= 2:
            root(ctx, ms + (m,), range(6) if ctx.thorough else (0, 1, 5) if core > 2 else (0, 5))
            if ctx.thorough or core > 2:
                dumps(ctx, ms + (m,))
    if all(m in CORE for m in ms):
        for m in rest:
            if m in CORE and (ctx.thorough or all(x in MICRO for x in ms + (m,))):
                positions(ctx, ms + (m,), (0, 1) if ctx.thorough else (0,))
                if ctx.thorough:
                    dump_positions(ctx, ms + (m,))
                    for n in rest:
                        if n in CORE and n != m:
                            root(ctx, ms + (m, n), (0, 1))
    ctx.outcome('union')
