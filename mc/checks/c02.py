"""C02 a dump is plain JSON data with the documented representation."""
import itertools
import json

from core import Case
from lib import outcome
from ref import jsame, refdump
from universe import *  # noqa
import jsons

PROPERTY = 'C02'
LENS = (4, 5, 7, 8, 9, 10, 11, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 257)
ASSUMPTIONS = ['values of the declared type universe', 'the process time zone is UTC']


def BOUNDS(tier):
    return {'type terms': 'all leaves and classes, all unary combinators / object kinds applied once%s' %
            (' and twice, three times over int/str/datetime' if tier == 'thorough' else ', twice over representatives'),
            'container lengths': '0-3 and all representatives; 4..257 over %d lengths' % len(LENS),
            'modes': 'no cls / cls / strict / use_enum_name=False / strip_microseconds'}


def one(ctx, name, v, tp, label, clss=(False, True), enum=True):
    for strict in (False, True) if 'Dyn' not in name else (False,):     # a strict dump has declared attributes only
        for withcls in clss:
            for opts in ({}, {'use_enum_name': False}, {'strip_microseconds': True}) if enum else ({},):
                want = refdump(v, **opts)
                kw = dict(opts)
                if strict:
                    kw['strict'] = True
                if withcls:
                    kw['cls'] = tp
                key = '%s|%s|%s%s%s' % (name, label, 'strict' if strict else 'lenient', '+cls' if withcls else '',
                                        ''.join('+' + o for o in opts))
                try:
                    got = jsons.dump(v, **kw)
                except Exception as err:
                    ctx.fail(key, 'dump raised %s: %s' % (type(err).__name__, err), value=v)
                    continue
                ctx.trace()
                ctx.step()
                ctx.state(name, label, strict, withcls, sorted(opts))
                if not plain(got):
                    ctx.fail(key, 'the dump is not plain JSON data: %r' % (got,), value=v)
                    continue
                try:
                    json.dumps(got)
                except Exception as err:
                    ctx.fail(key, 'json.dumps refuses the dump: %r' % err, value=v)
                if not jsame(got, want):
                    ctx.fail(key, 'dump gives %r, documented is %r' % (got, want), value=v)
                elif not order_ok(v, got):
                    ctx.fail(key, 'the order of the dump is not the iteration order', value=v, got=got)
                else:
                    ctx.outcome(type(got).__name__ + ':' + name[:12])


def order_ok(v, got):
    if isinstance(v, dict):
        ks = [k for k in v if type(k) is str]
        return [k for k in got if k in ks] == ks
    return True


def kname(k):
    d = k if type(k) in (int, float, bool, NoneType) else refdump(k)
    return d


HET = [1, 'x', True, None, 1.5, D(2020, 1, 2, 3, 4, 5, tz=UTC), dtm.date(2020, 1, 2), dtm.timedelta(seconds=2),
       decimal.Decimal('1.5'), uuid.UUID(int=7), Color.RED, Num.ONE, 2 + 1j, DC(1, 'x'), Plain(2, 'y'), NT(3, 'z'),
       Slots(4, 'q'), Child(1, 'b', 2.5), [1, 'a'], (1, 'b'), {'k': 1}, deque([1]), pathlib.PurePosixPath('/a'),
       UTC, Attrs(5, 'w'), PlainDef(1), zoneinfo.ZoneInfo('UTC')]

# values of different types with the same representation or that are equal: each is still dumped, each as itself
TWINS = [[dtm.date(2020, 1, 2), '2020-01-02'], [D(2020, 1, 2, tz=UTC), '2020-01-02T00:00:00Z', D(2020, 1, 2, 1, tz=off(1))],
         [decimal.Decimal('1.5'), '1.5', 1.5], [uuid.UUID(int=7), str(uuid.UUID(int=7))], [Color.RED, 'RED', Clash.A, 'A', 'B'],
         [1, 1.0, True, Num.ONE, '1', decimal.Decimal(1), 1 + 0j], [0, False, 0.0, -0.0, ''], [None, 'null', 'None'],
         [pathlib.PurePosixPath('a'), 'a', pathlib.PureWindowsPath('a')], [dtm.timedelta(seconds=2), 2, 2.0], [StrE.X, 'ex', 'X'],
         [(1, 2), NT(1, 2), (1.0, True)], [Frozen(1, 'x'), AttrsFrozen(1, 'x'), Frozen(True, 'x')], [dtm.time(3, 4), '03:04:00'],
         [decimal.Decimal('1.0'), decimal.Decimal('1.00'), decimal.Decimal('1E0')], [frozenset([1]), (1,), frozenset([True])]]


def cases(tier):
    ts = terms(0) + terms(1)
    for t in ts:
        yield Case('d%d:%s' % (t.depth, t.name), ('term', t))
    reps = [LEAF[n] for n in ('int', 'str', 'datetime', 'Color', 'float')] + [OBJ['DC'], OBJ['NT'], OBJ['Plain'],
                                                                              OBJ['Slots']]
    if tier == 'thorough':
        reps = LEAVES + OBJECTS
    for t in terms(2, reps):
        yield Case('dd:%s' % t.name, ('term', t))
    if tier == 'thorough':
        for t in terms(3, [LEAF['int'], LEAF['datetime'], OBJ['DC']]):
            yield Case('d3:%s' % t.name, ('term', t))
    for n in LENS:
        yield Case('len:%d' % n, ('len', n))
    for i in range(len(HET)):
        yield Case('het:%d' % i, ('het', i))
    for i in range(len(TWINS)):
        yield Case('twins:%d' % i, ('twins', i))
    for a in ('list', 'tuple', 'deque', 'dict', 'set', 'frozenset'):
        yield Case('nest:%s' % a, ('nest', a))


def run(ctx, args):
    if args[0] == 'term':
        t = args[1]
        for i, (v, j) in enumerate(t.vals):
            if 'Set' not in t.name and not jsame(refdump(v), j):
                raise RuntimeError('universe and reference disagree on %s: %r %r' % (t.name, refdump(v), j))
            one(ctx, t.name, v, t.tp, i)
    elif args[0] == 'len':
        n = args[1]
        ints = list(range(n))
        dts = [D(2020, 1, 1, i % 24, i % 60, tz=UTC) + dtm.timedelta(days=i) for i in range(n)]
        objs = [DC(i, 's%d' % i) for i in range(n)]
        mixed = [(i if i % 3 else 's%d' % i) for i in range(n)]
        for nm, vs, et in (('int', ints, int), ('dt', dts, dtm.datetime), ('DC', objs, DC), ('mixed', mixed, None)):
            hashable = nm != 'DC'
            for cn, make, tp in (('list', list, List), ('tuple', tuple, None), ('deque', deque, Deque),
                                 ('set', set, Set), ('frozenset', frozenset, FrozenSet)):
                if cn in ('set', 'frozenset') and not hashable:
                    continue
                v = make(vs)
                hint = None
                if et is not None:
                    hint = Tuple[et, ...] if cn == 'tuple' else tp[et]
                one(ctx, '%s of %s' % (cn, nm), v, hint, 'len%d' % n, (False, True) if hint else (False,), False)
            d = {'k%d' % i: x for i, x in enumerate(vs)}
            one(ctx, 'dict of ' + nm, d, Dict[str, et] if et else None, 'len%d' % n,
                (False, True) if et else (False,), False)
            d = {i: x for i, x in enumerate(vs)}
            one(ctx, 'int dict of ' + nm, d, None, 'len%d' % n, (False,), False)
    elif args[0] == 'het':
        i = args[1]
        # every ordered pair (and triple with the same first) of values of different types next to each other
        for j, b in enumerate(HET):
            for third in (None, 0, 5, 13):
                el = [HET[i], b] + ([HET[third]] if third is not None else [])
                lab = '%d,%d,%s' % (i, j, third)
                one(ctx, 'list', el, None, lab, (False,), False)
                one(ctx, 'tuple', tuple(el), None, lab, (False,), False)
                one(ctx, 'deque', deque(el), None, lab, (False,), False)
                one(ctx, 'dict', {'k%d' % k: x for k, x in enumerate(el)}, None, lab, (False,), False)
                try:
                    s = frozenset(el)
                except TypeError:
                    continue
                one(ctx, 'frozenset', s, None, lab, (False,), False)
    elif args[0] == 'twins':
        tw = TWINS[args[1]]
        for n in (2, 3, 4):
            for el in itertools.product(tw, repeat=n):
                lab = ','.join(str(tw.index(x)) if 0 else repr(x) for x in el)
                hashed = any(isinstance(x, (tuple, Frozen, AttrsFrozen, complex, frozenset)) for x in el)
                for cn, v in (('list', list(el)), ('tuple', tuple(el)), ('deque', deque(el)), ('frozenset', frozenset(el)), ('set', set(el)),
                              ('dict', {'k%d' % i: x for i, x in enumerate(el)}), ('obj', Dyn(**{'k%d' % i: x for i, x in enumerate(el)})),
                              ('keys', None if hashed or n == 4 else {x: i for i, x in enumerate(el) if not isinstance(x, float)})):
                    if v is None or (cn == 'keys' and len({kname(k) for k in v}) < len(v)):
                        continue
                    one(ctx, 'Dyn' if cn == 'obj' else cn, v, None, lab, (False,), False)
    elif args[0] == 'nest':
        makers = {'list': lambda x: [x, 1], 'tuple': lambda x: (x, 1), 'deque': lambda x: deque([x, 1]),
                  'dict': lambda x: {'k': x, 'l': 1}, 'set': lambda x: {x, 1}, 'frozenset': lambda x: frozenset([x, 1])}
        names = list(makers)
        depth = 4 if ctx.thorough else 3
        for rest in itertools.product(names, repeat=depth - 1):
            for i, leaf in enumerate((1, D(2020, 1, 2, tz=UTC), Color.GREEN, Frozen(1, 'x'), None)):
                v = leaf
                try:
                    for m in reversed((args[1],) + rest):
                        v = makers[m](v)
                except TypeError:
                    continue
                one(ctx, '/'.join((args[1],) + rest), v, None, i, (False,), False)
