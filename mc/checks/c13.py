"""C13 a verbose dump describes itself."""
import itertools
import json
import re

import jsons
from core import Case
from jsons import Verbosity
from lib import caught, forked
from ref import jsame
from universe import *  # noqa
import uexp
import uverb
from uverb import *  # noqa

PROPERTY = 'C13'
ASSUMPTIONS = ['values in positions without a type are JSON values, date-times with a time zone, lists, dicts (str keys) and objects of classes that can be '
               'imported or were announced; other values need a declared type',
               'an explicit cls at the root takes precedence over the -meta section; field and element types do not']
LEVELS = [('true', True), ('class', Verbosity.WITH_CLASS_INFO), ('time', Verbosity.WITH_DUMP_TIME), ('class|time', Verbosity.WITH_CLASS_INFO | Verbosity.WITH_DUMP_TIME),
          ('everything', Verbosity.WITH_EVERYTHING)]
PLAIN = [('false', False), ('nothing', Verbosity.WITH_NOTHING)]
PRIMS = [None, 1, 'x', 1.5, True]


def BOUNDS(tier):
    return {'graphs': 'trees of depth %d over %d classes (no types, base class types, containers of a base class, slots, attrs, named tuples, announced)'
                      % (4 if tier == 'thorough' else 3, len(TWO) + len(ONE) + 2),
            'containers': 'list, dict, list of lists, dict of lists at the root and in attributes', 'levels': [n for n, _ in LEVELS + PLAIN],
            'transport': 'memory, text, and a process that never dumped', 'load': 'no cls; own class; less specific element types'}


def objects0():
    st = Stamped(D(2020, 1, 2, 3, 4, 5, tz=UTC), dtm.date(2020, 1, 2), decimal.Decimal('1.5'), Color.RED)
    return [Leaf(1), Leaf(-5), LeafSub(1, 'y'), LeafSub(2, None), Alone(), st, Exact(Leaf(1), st), Exact(Leaf(1), st, LeafSub(1))]


def kids(level, tier):
    """Values for an attribute, by depth."""
    if level == 0:
        return PRIMS[:3] + [D(2020, 1, 2, tz=UTC)] + objects0()
    few = few_objects(level - 1)
    res = list(few) + [Nt2(few[0], few[-1]), NtB(few[0], few[-1]), Nt2(1, [few[1]])]
    res += [[few[0], few[-1]], [few[0], 1, None, 'x'], {'k': few[0], 'k2': few[0]}, {'k': few[0], 'a': few[-1]}, {'k': {'a': few[-1]}, 'l': 1},
            {'k': [few[1], 1], 'b': None}, [[few[0]], []], [{'k': few[1]}]]
    return res


_few = {}


def few_objects(level):
    """A representative of every class at this depth."""
    if level not in _few:
        if level == 0:
            _few[0] = objects0()[:3]
        else:
            f = few_objects(level - 1)
            _few[level] = [c(f[i % len(f)], f[(i + 1) % len(f)]) for i, c in enumerate(TWO)] + [c(f[i % len(f)]) for i, c in enumerate(ONE)] \
                + [Items([f[0], f[-1]], {'a': f[0], 'b': f[-1]})]
    return _few[level]


def asis(v):
    """What is annotated with Any is taken as it is, except for objects."""
    return is_base(v) or v is None or isinstance(v, (int, str, float))


def is_base(v):
    return isinstance(v, Base)


def values(c, depth, tier):
    """Objects of class c with all pairs of attribute values."""
    ks = kids(0, tier)
    for d in range(1, depth):
        ks = ks + kids(d, tier)
    typed = c in TYPED
    if c in ONE:
        return [c(k) for k in ks]
    res = []
    for a, b in itertools.product(ks, repeat=2):
        if typed and not (is_base(a) and (b is None or is_base(b))):
            continue
        if c in ASIS and not (asis(a) and asis(b)):
            continue
        res.append(c(a, b))
    return res


def strip(j):
    if isinstance(j, dict):
        return {k: strip(v) for k, v in j.items() if k != '-meta'}
    if isinstance(j, list):
        return [strip(x) for x in j]
    return j


def has(j, key):
    if isinstance(j, dict):
        return key in j or any(has(v, key) for v in j.values())
    return isinstance(j, list) and any(has(x, key) for x in j)


def check(ctx, key, v, tps=()):
    with caught() as w:
        base = jsons.dump(v)
        for nm, level in PLAIN:
            ctx.expect(jsame(jsons.dump(v, verbose=level), base), key + '|' + nm, 'dump(verbose=%s) differs from dump' % nm)
        for nm, level in LEVELS:
            k = '%s|%s' % (key, nm)
            ctx.step()
            ctx.trace()
            j = jsons.dump(v, verbose=level)
            if not jsame(strip(j), base):
                ctx.fail(k, 'dump(%r, verbose=%s) without its -meta sections is %r, the plain dump is %r' % (v, nm, strip(j), base))
            if has(j, '-cls'):
                ctx.fail(k, 'a -cls key is left in %r' % (j,))
            if isinstance(v, (Base, Alone)) and type(v) is not Nt2:
                meta = j.get('-meta', {})
                ctx.expect(('dump_time' in meta) == ('time' in nm or nm in ('true', 'everything')), k, 'dump_time in %r' % (meta,))
                ctx.expect(('classes' in meta) == (nm != 'time'), k, 'classes in %r' % (meta,))
                if 'dump_time' in meta and not re.fullmatch(r'\d{4}-\d\d-\d\dT\d\d:\d\d:\d\dZ', meta['dump_time']):
                    ctx.fail(k, 'dump_time is %r' % (meta['dump_time'],))
            if nm == 'time':
                continue
            for tr in ('memory', 'text'):
                src = j if tr == 'memory' else json.loads(json.dumps(j))
                for tn, tp in [('none', None)] + list(tps):
                    if tn == 'own' and nm != 'class':
                        continue
                    try:
                        r = jsons.load(src, tp)
                    except Exception as err:
                        ctx.fail('%s|%s|%s' % (k, tr, tn), 'load(%r, %s) raises %s: %s' % (src, tn, type(err).__name__, str(err)[:200]))
                        continue
                    if not same(r, v):
                        ctx.fail('%s|%s|%s' % (k, tr, tn), 'load(%r, %s) gives %r, not %r' % (src, tn, snap(r), snap(v)))
        for nm, back in (('camel', jsons.KEY_TRANSFORMER_SNAKECASE), ('x.', lambda k: k[2:])):
            f = jsons.KEY_TRANSFORMER_CAMELCASE if nm == 'camel' else 'x.{}'.format
            j = jsons.dump(v, verbose=True, key_transformer=f)
            if any_keys(v, back, f):
                try:
                    r = jsons.load(json.loads(json.dumps(j)), key_transformer=back)
                except Exception as err:
                    ctx.fail('%s|%s' % (key, nm), 'load(%r, key_transformer) raises %s: %s' % (j, type(err).__name__, str(err)[:200]))
                else:
                    ctx.expect(same(r, v), '%s|%s' % (key, nm), 'load(%r, key_transformer) gives %r, not %r' % (j, snap(r), snap(v)))
        # every level loads with an explicit cls
        if all_typed(v):
            for nm, level in LEVELS + PLAIN:
                for opts in ({}, {'strict': True}):
                    k = '%s|explicit|%s|%s' % (key, nm, sorted(opts))
                    try:
                        r = jsons.load(jsons.dump(v, verbose=level), type(v), **opts)
                    except Exception as err:
                        if opts and jfails(base, type(v), opts):
                            continue
                        ctx.fail(k, 'load(dump(%r, %s), own class) raises %s: %s' % (v, nm, type(err).__name__, str(err)[:200]))
                        continue
                    if not same(r, v):
                        ctx.fail(k, 'load(dump(%r, %s), own class) gives %r' % (v, nm, r))
        # in total: no warnings
        if w:
            ctx.fail(key, 'warning: %s' % (w[0].message,))


def any_keys(v, back, f):
    """Whether the transformation can be undone on all names and keys of v."""
    if isinstance(v, dict):
        return all(back(f(k)) == k and any_keys(x, back, f) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return all(any_keys(x, back, f) for x in v)
    if isinstance(v, Base):
        return any_keys(attrs_of(v), back, f)
    return True


def jfails(j, tp, opts):
    try:
        jsons.load(j, tp, **opts)
    except jsons.JsonsError:
        return True
    return False


def all_typed(v):
    return type(v) in (Leaf, LeafSub, Alone, Stamped, Exact)


def names_of(v):
    return type(v).__name__


def fresh(ctx, key, vs):
    """Dump in one process, load the text in another one that never dumped anything."""
    texts = forked(lambda: [jsons.dumps(v, verbose=True) for v in vs])

    def child():
        bad = []
        for i, t in enumerate(texts):
            try:
                r = jsons.loads(t)
            except Exception as err:
                bad.append((i, '%s: %s' % (type(err).__name__, str(err)[:200])))
                continue
            if not same(r, vs[i]):
                bad.append((i, repr(snap(r))))
        return bad
    for i, what in forked(child):
        ctx.fail('%s|fresh|%d' % (key, i), 'text %s gives %s in a new process, not %r' % (texts[i], what, snap(vs[i])))
    ctx.step(len(vs))
    ctx.trace(len(vs))


def containers(vs):
    """Roots that hold the objects."""
    a, b = vs
    yield 'list', [a, b], [('List', List[Base]), ('Sequence', Sequence[Base]), ('Opt', Optional[List[Base]])]
    yield 'dict', {'k': a, 'l_m': b}, [('Dict', Dict[str, Base]), ('Mapping', Mapping[str, Base])]
    yield 'listlist', [[a], [], [b, b]], [('ListList', List[List[Base]])]
    yield 'dictlist', {'k': [a, b]}, [('DictList', Dict[str, List[Base]])]
    yield 'listdict', [{'k': a}, {'k': b}], [('ListDict', List[Dict[str, Base]])]
    yield 'mixed', [a, 1, None, 'x', {'k': b}, [b]], []
    yield 'tuple', (a, b), [('Tuple', Tuple[Base, Base]), ('VTuple', Tuple[Base, ...]), ('OptTuple', Tuple[Optional[Base], Base])]
    yield 'tuple', NtB(a, b), [('NtB', NtB), ('OptNtB', Optional[NtB])]
    yield 'tuple', [(a,), (b, a)], [('ListVTuple', List[Tuple[Base, ...]])]
    yield 'tuple', {'k': (a, 1), 'l': (b, 2)}, [('DictTuple', Dict[str, Tuple[Base, int]])]
    yield 'tuple', {'k': NtB(a, b)}, [('DictNtB', Dict[str, NtB])]


def cases(tier):
    depth = 3 if tier == 'thorough' else 2
    for c in TWO + ONE:
        yield Case('class:' + c.__name__, ('class', c, depth))
    yield Case('leaves', ('leaves',))
    for i in range(len(few_objects(2))):
        yield Case('roots:%d' % i, ('roots', i))
    yield Case('deep', ('deep', 8 if tier == 'thorough' else 5))
    yield Case('items', ('items',))
    yield Case('announced', ('announced',))
    for i in range(len(uexp.LEAVES)):
        yield Case('explicit:%d' % i, ('explicit', i))
    yield Case('explicit:nested', ('explicitnested',))
    for i in range(len(ALIASES)):
        yield Case('alias:%d' % i, ('alias', i))


def result(f, *a, **k):
    try:
        return uexp.snap(f(*a, **k))
    except jsons.JsonsError as err:
        return 'raises'


def explicit(ctx, v):
    plain = jsons.dump(v)
    for nm, level in LEVELS:
        j = json.loads(json.dumps(jsons.dump(v, verbose=level)))
        for tp in uexp.TARGETS:
            for opts in ({}, {'strict': True}):
                ctx.step()
                ctx.trace()
                key = 'explicit|%r|%s|%s|%s' % (v, nm, tp, bool(opts))
                want = result(jsons.load, plain, tp, **opts)
                got = result(jsons.load, j, tp, **opts)
                ctx.expect(got == want, key, 'load(%r, %s, %s) gives %r, without -meta %r' % (j, tp, opts, got, want))
                ctx.outcome('raises' if want == 'raises' else 'value')
                ctx.state(key)
        # the class of an element or a field is less specific than -meta
        if nm == 'time':
            continue
        for tp, src, want in ((List[uexp.A], [j, j], [v, v]), (Dict[str, uexp.A], {'k': j}, {'k': v}), (Tuple[uexp.A, uexp.Z], [j, j], [v, v]),
                              (Optional[List[uexp.Z]], [j], [v]), (List[List[uexp.A]], [[j]], [[v]]), (list, [j], [v]), (dict, {'k': j}, {'k': v})):
            got = result(lambda *a: (lambda r: list(r) if isinstance(r, tuple) else r)(jsons.load(*a)), src, tp)
            if tp in (list, dict):
                want = src
                ctx.expect(jsons.load(src, tp) == src, 'element|%r|%s|%s' % (v, nm, tp), 'load(%r, %s) gives %r' % (src, tp, got))
                continue
            ctx.expect(got == uexp.snap(want), 'element|%r|%s|%s' % (v, nm, tp), 'load(%r, %s) gives %r' % (src, tp, got))


def explicit_nested(ctx):
    L = uexp.LEAVES[:3]
    for a, b, c in itertools.product(L, repeat=3):
        for o in (None, b):
            for cls in (uexp.O, uexp.OSub, uexp.O2):
                v = cls(a, [b, c], {'k': c, 'l': a}, o)
                for nm, level in LEVELS:
                    if nm == 'time':
                        continue
                    j = json.loads(json.dumps(jsons.dump(v, verbose=level)))
                    for tp in (None, uexp.O, uexp.O2, uexp.OSub, uexp.OAny, Optional[uexp.O], NewType('NO', uexp.O2)):
                        c_ = cls if tp is None else uexp.O if tp == Optional[uexp.O] else getattr(tp, '__supertype__', tp)
                        want = uexp.snap(c_(a, [b, c], {'k': c, 'l': a}, o))
                        got = result(jsons.load, j, tp)
                        ctx.step()
                        ctx.trace()
                        key = 'nested|%r|%r|%r|%r|%s|%s|%s' % (a, b, c, o, cls.__name__, nm, tp)
                        ctx.state(key)
                        ctx.expect(got == want, key, 'load(%r, %s) gives %r, not %r' % (j, tp, got, want))


ALIASES = ['alias', 'my-alias', 'a.b.C', 'gone.module.Cls', 'json.Nope', 'uexp.Nope', 'x y', '.', 'a..b', 'Ünï.Cödé', '1', 'NoneTypeX', 'os.path.nope.X', 'uexp.A.nope']


def alias(ctx, name):
    """An announced name is found, whether or not it looks like one that can be imported."""
    for how in ('dump', 'announce', 'fork', 'class'):
        def child():
            bad = []
            c = uexp.A
            f = {}
            if how == 'fork':
                f = {'fork_inst': jsons.fork()}
            src = {'x': 1, '-meta': {'classes': {'/': name}}}
            outer = {'a': {'x': 1}, 'l': [src], '-meta': {'classes': {'/': 'uexp.OAny', '/a': name}}, 'd': {}}
            for s in (src, outer):
                try:
                    r = jsons.load(s, **f)
                    bad.append('%r loads as %r before it is announced' % (s, r))
                except jsons.exceptions.UnknownClassError as err:
                    if err.target_name != name:
                        bad.append('the error names %r' % (err.target_name,))
                except jsons.JsonsError as err:
                    if s is src:
                        bad.append('%s: %s' % (type(err).__name__, err))
            if how == 'class':
                mod, _, nm = name.rpartition('.')
                c = type(nm, (uexp.A,), {'__module__': mod, '__qualname__': nm})
                if not mod or not nm:
                    return []
                jsons.dump(c(1))
            else:
                jsons.announce_class(c, cls_name=name, **f)
            if how == 'dump':
                jsons.dump([c(1)], verbose=True)
            r = jsons.load(src, **f)
            if type(r) is not c or r.x != 1:
                bad.append('load gives %r' % (r,))
            r = jsons.load(outer, **f)
            if type(r) is not uexp.OAny or type(r.a) is not c or type(r.l[0]) is not c:
                bad.append('load gives %r' % (vars(r),))
            if how == 'fork':
                try:
                    bad.append('without the fork: %r' % (jsons.load(src),))
                except jsons.exceptions.UnknownClassError:
                    pass
            return bad
        for b in forked(child):
            ctx.fail('alias|%s|%s' % (name, how), b)
        ctx.step(4)
        ctx.trace()
        ctx.state('alias', name, how)


def run(ctx, args):
    kind = args[0]
    if kind == 'class':
        _, c, depth = args
        vs = values(c, depth, ctx.tier)
        for i, v in enumerate(vs):
            ctx.state(c.__name__, repr(snap(v)))
            check(ctx, '%s|%d' % (c.__name__, i), v)
        fresh(ctx, c.__name__, vs[::3 if ctx.thorough else 7])
    elif kind == 'leaves':
        for i, v in enumerate(objects0()):
            ctx.state('leaf', i)
            check(ctx, 'leaf|%d' % i, v, [('own', type(v))])
    elif kind == 'roots':
        objs = objects0()[:3] + few_objects(1) + few_objects(2)
        a = few_objects(2)[args[1]]
        for i, b in enumerate(objs):
            for nm, v, tps in containers((a, b)):
                ctx.state('roots', nm, args[1], i)
                if nm == 'tuple':
                    for tn, tp in tps:
                        j = jsons.dump(v, verbose=True)
                        r = jsons.load(json.loads(json.dumps(j)), tp)
                        ctx.expect(same(r, v), 'roots|tuple|%d|%d|%s' % (args[1], i, tn), 'load(%r, %s) gives %r' % (j, tn, snap(r)))
                else:
                    check(ctx, 'roots|%s|%d|%d' % (nm, args[1], i), v, tps)
    elif kind == 'deep':
        for c in TWO + ONE:
            v = Leaf(1)
            for d in range(args[1]):
                v = c(v, LeafSub(d, 'x')) if c in TWO else c(v)
                check(ctx, 'deep|%s|%d' % (c.__name__, d), v)
                ctx.state('deep', c.__name__, d)
        for cs in itertools.product(TWO + ONE, repeat=3):
            v = Leaf(1)
            for c in cs:
                v = c(v, Leaf(2)) if c in TWO else c(v)
            check(ctx, 'deep|%s' % ','.join(c.__name__ for c in cs), v)
            ctx.state('deep3', cs)
    elif kind == 'items':
        objs = objects0()[:3] + few_objects(1)
        for a, b in itertools.product(range(len(objs)), repeat=2):
            v = Items([objs[a], objs[b]], {'x': objs[b], 'y/z': objs[a]})
            ctx.state('items', a, b)
            check(ctx, 'items|%d|%d' % (a, b), v)
            check(ctx, 'items2|%d|%d' % (a, b), Own(Items([], {}), Items([v, objs[a]], {'': v, '/': objs[b]})))
    elif kind == 'explicit':
        explicit(ctx, uexp.LEAVES[args[1]])
    elif kind == 'explicitnested':
        explicit_nested(ctx)
    elif kind == 'alias':
        alias(ctx, ALIASES[args[1]])
    else:
        classes = local_classes()
        for c in classes:
            v = c(Leaf(1), [Leaf(2)])
            for nm, call in (('default', lambda: jsons.announce_class(c)), ('fork', lambda: None)):
                def child():
                    t = jsons.dumps(v, verbose=True)
                    return same(jsons.loads(t), v)
                ctx.expect(forked(child), 'announced|%s' % c.__name__, 'dump announces the class')
                t = forked(lambda: jsons.dumps(v, verbose=True))

                def child2():
                    try:
                        jsons.loads(t)
                    except jsons.exceptions.UnknownClassError:
                        pass
                    else:
                        return 'loads without announcement'
                    jsons.announce_class(c, cls_name=json.loads(t)['-meta']['classes']['/'])
                    return same(jsons.loads(t), v) or 'not restored'
                r = forked(child2)
                ctx.expect(r is True, 'announced2|%s' % c.__name__, '%s' % (r,))
                ctx.step()
                ctx.trace()
                ctx.state('announced', c.__name__, nm)
    ctx.outcome(kind)
