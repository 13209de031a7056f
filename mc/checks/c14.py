"""C14 constructor arguments come from the source, the getter, the default, None - in that order."""
import itertools
import typing
from typing import Any, Optional, Union

import jsons
from core import Case
from jsons.exceptions import DeserializationError, JsonsError, UnfulfilledArgumentError
from lib import caught
from universe import *  # noqa

PROPERTY = 'C14'
ASSUMPTIONS = ['no positional-only parameters, no source keys that are called like a *args/**kwargs parameter, no fields without any type hint or with the hint object '
               'in named tuples; attr_getters concern the object that is loaded (or the elements of the list that is loaded), not the objects '
               'nested in its attributes']
NO = object()
DFL = [1, 2]
NTOpt = typing.NewType('NTOpt', Optional[int])
# kind -> (annotation or NO, default or NO)
KINDS = {'r': (NO, NO), 'ri': (int, NO), 'ro': (Optional[int], NO), 'ra': (Any, NO), 'rl': (List[int], NO), 'rdc': (DC, NO), 'ru': (Union[str, int], NO),
         'rn': (Union[None, DC], NO), 'rt': (NTOpt, NO), 'rdt': (dtm.datetime, NO), 'rob': (object, NO), 'rnone': (None, NO), 'rs': (str, NO),
         'di': (int, 7), 'd0': (int, 0), 'dn': (int, None), 'do': (Optional[int], 5), 'du': (NO, 'dflt'), 'dl': (List[int], DFL), 'ds': (str, ''),
         'dd': (Optional[DC], None), 'dc': (DC, DC(9, 'd')), 'dbad': (int, 'no int'), 'df': (bool, False)}
CORE3 = ('r', 'ri', 'ro', 'rdc', 'di', 'dn', 'do')
SRC = {int: [1, '5', 0, None, 'zz', True], Optional[int]: [1, '5', 0, None, 'zz'], NO: [1, 'x', '', None, 0, False, {'q': 1}, [], '2020-01-02T03:04:05Z'],
       Any: [1, None, 'x'], List[int]: [[1], [], ['3'], None, ['zz'], 5], DC: [{'a': 1, 'b': 'x'}, {}, None, {'a': 'zz', 'b': 'x'}],
       Union[str, int]: ['x', 1, '', None], Union[None, DC]: [None, {'a': 1, 'b': 'x'}, {}], NTOpt: [1, None, 'zz'],
       dtm.datetime: ['2020-01-02T03:04:05Z', 'x', None], object: [1, None], None: [None, 1], str: ['x', '', None, 5],
       Optional[DC]: [{'a': 1, 'b': 'x'}, None, {}], bool: [True, False, None, 0]}
NAMES = ['a', '_a', 'a_b', 'cls', 'obj', 'key', 'strict', 'json_obj', 'fork_inst', 'meta_hints', 'attr_getters', 'sig', 'sig_key', 'orig_cls', 'kwargs',
         'args', 'key_transformer', 'name', 'type', 'id', 'A', 'aB', 'classes', 'initial', '_initial', '_inferred_cls', 'tasks', 'instance', 'result',
         'value', 'x' * 60, 'é', 'source', 'hints', 'get', 'keys', 'items', 'self_', 'this', '__a', 'a__', 'union', 'optional', 'class_', 'warn_on_fail']
STYLES = ('plain', 'dataclass', 'attrs', 'slots', 'js', 'kwonly', 'inherit', 'namedtuple', 'varargs')


def BOUNDS(tier):
    return {'parameter kinds': len(KINDS), 'signatures': 'all of one and two parameters, of three over %d kinds' % (len(KINDS) if tier == 'thorough' else len(CORE3)),
            'classes': STYLES, 'sources': 'every parameter absent or with each of its values (also null, falsy, failing), all key orders, extra keys',
            'getters': 'all subsets of the parameters, returning an object, None or a falsy value; a getter for no parameter',
            'names': len(NAMES), 'positions': 'root, list, dict, tuple, attribute, Optional, Union'}


_n = [0]


def build(style, params):
    """params: [(name, annotation, default)] -> class, or None if Python does not allow it."""
    _n[0] += 1
    n = 'K%d' % _n[0]
    ann = {p: a for p, a, _ in params if a is not NO}
    if style in ('dataclass', 'attrs', 'namedtuple'):
        if len(ann) != len(params):
            return None
        seen = False
        for _, _, d in params:
            if d is NO and seen:
                return None
            seen = seen or d is not NO
        if style == 'dataclass':
            if any(p.startswith('__') for p in ann):
                return None
            c = dataclasses.make_dataclass(n, [(p, a) if d is NO else (p, a, dataclasses.field(default_factory=lambda d=d: list(d)) if isinstance(d, list)
                                               else dataclasses.field(default_factory=lambda d=d: d) if isinstance(d, DC) else d) for p, a, d in params])
        elif style == 'attrs':
            if any(p.startswith('_') for p in ann):
                return None
            c = attr.make_class(n, {p: attr.ib(type=a, **({} if d is NO else {'default': attr.Factory(lambda d=d: list(d))} if isinstance(d, list)
                                                          else {'default': d})) for p, a, d in params})
            c.__init__.__annotations__ = {**ann, 'return': None}
        else:
            if any(p.startswith('_') or p in ('count', 'index') for p in ann) or object in ann.values():
                return None
            c = NamedTuple(n, [(p, a) for p, a, _ in params])
            ds = [d for _, _, d in params if d is not NO]
            c.__new__.__defaults__ = tuple(ds)
            c._field_defaults = {p: d for p, _, d in params if d is not NO}
    else:
        ps, seen, star = [], False, False
        for i, (p, a, d) in enumerate(params):
            if style == 'kwonly' and not star and i == len(params) // 2:
                ps.append('*')
                star = True
            if d is NO:
                if seen and not star:
                    ps.append('*')
                    star = True
                ps.append(p)
            else:
                ps.append('%s=_d%d' % (p, i))
                seen = True
        if style == 'varargs':
            if not star:
                ps.append('*args_')
            ps.append('**kw_')
        ns = {'_d%d' % i: d for i, (_, _, d) in enumerate(params)}
        src = 'def __init__(self, %s):\n%s' % (', '.join(ps), ''.join('    object.__setattr__(self, %r, %s)\n' % (p, p) for p, _, _ in params) + '    pass\n')
        exec(src, ns)
        init = ns['__init__']
        init.__annotations__ = dict(ann)
        body = {'__init__': init}
        base = ()
        if style == 'slots':
            if any(p.startswith('__') for p, _, _ in params):
                return None     # (mangled)
            body['__slots__'] = tuple(p for p, _, _ in params)
        if style == 'js':
            base = (jsons.JsonSerializable,)
        c = type(n, base, body)
        if style == 'inherit':
            c = type(n + 'Sub', (c,), {})
    c.__module__ = 'ucls'
    return c


def allows_none(a):
    return a in (NO, Any, object, None, NTOpt) or NoneType in typing.get_args(a)


def load1(v, a):
    with caught():
        try:
            return ('ok', jsons.load(v) if a is NO else jsons.load(v, NoneType if a is None else a))
        except JsonsError as err:
            return ('err', type(err).__name__)


class G:
    """A getter that counts."""

    def __init__(self, value):
        self.value = value
        self.n = 0

    def __call__(self):
        self.n += 1
        return self.value


def resolve(params, src, getters):
    """('ok', {name: value}, used getters) or ('err', 'missing', name) or ('err', 'bad', name)."""
    res, used = {}, []
    for p, a, d in params:
        if p in src:
            r = load1(src[p], a)
            if r[0] == 'err':
                return ('err', 'bad', p)
            res[p] = r[1]
        elif p in getters:
            used.append(p)
            res[p] = getters[p].value
        elif d is not NO:
            res[p] = d
        elif allows_none(a):
            res[p] = None
        else:
            return ('err', 'missing', p)
    return ('ok', res, used)


def one(ctx, key, c, style, params, src, getters, extra=(), wrap=None, strict=False):
    """Load src (with its key order) and compare with the reference resolution."""
    for g in getters.values():
        g.n = 0
    full = dict(src)
    full.update(extra)
    want = resolve(params, src, getters)
    kw = {'attr_getters': dict(getters)} if getters else {}
    if strict:
        kw['strict'] = True
    tp, js, get = (c, full, lambda r: r) if wrap is None else wrap(c, full)
    ctx.step()
    ctx.trace()
    with caught():
        try:
            r = ('ok', get(jsons.load(js, tp, **kw)))
        except DeserializationError as err:
            r = ('err', err)
        except Exception as err:
            return ctx.fail(key, 'raises %s: %s' % (type(err).__name__, err))
    sig = ', '.join('%s: %s = %s' % (p, a if a is not NO else '-', d if d is not NO else '-') for p, a, d in params)
    if want[0] == 'err':
        if r[0] == 'ok':
            return ctx.fail(key, '%s(%s) is loaded from %r with getters for %s; expected a failure for %r' % (style, sig, full, list(getters), want))
        if want[1] == 'missing' and wrap is None:
            e = r[1]
            if not isinstance(e, UnfulfilledArgumentError) or e.argument != want[2]:
                return ctx.fail(key, '%s(%s) from %r: expected an UnfulfilledArgumentError for %s, not %r' % (style, sig, full, want[2], e))
            if e.target is not c or e.source != full or want[2] not in str(e):
                return ctx.fail(key, '%s(%s) from %r: the error names %r, %r' % (style, sig, full, e.target, e.source))
        elif want[1] == 'missing' and wrap is not None and wrap.__name__ not in ('union', 'opt'):
            chain, e = [], r[1]
            while e is not None:
                chain.append(e)
                e = e.__cause__ or e.__context__
            if not any(isinstance(e, UnfulfilledArgumentError) and e.argument == want[2] for e in chain):
                return ctx.fail(key, '%s(%s) from %r: no UnfulfilledArgumentError for %s in %r' % (style, sig, js, want[2], chain))
        return
    if r[0] == 'err':
        return ctx.fail(key, '%s(%s) from %r with getters for %s fails: %r; expected %r' % (style, sig, full, list(getters), r[1], want[1]))
    o = r[1]
    if type(o) is not c:
        return ctx.fail(key, 'the result is %r' % (o,))
    for p, a, d in params:
        x = getattr(o, p)
        w = want[1][p]
        if not same(x, w):
            return ctx.fail(key, '%s(%s) from %r with getters for %s: %s is %r, expected %r' % (style, sig, full, list(getters), p, x, w))
        if p not in src and p not in getters and d is not NO and style not in ('dataclass', 'attrs') and x is not d:
            return ctx.fail(key, 'the default of %s is copied' % p)
        if p not in src and p not in getters and isinstance(d, list) and style in ('dataclass', 'attrs') and x is d:
            return ctx.fail(key, 'the default factory of %s is not called' % p)
    for p, g in getters.items():
        n = 1 if p in want[2] or p not in [q for q, _, _ in params] and p not in full else 0
        if g.n != n:
            return ctx.fail(key, 'the getter of %s is called %d times, expected %d' % (p, g.n, n))
        if p not in [q for q, _, _ in params] and p not in full and getattr(o, p, NO) is not g.value:
            return ctx.fail(key, 'the attribute %s does not have the value of its getter' % p)
    for k, v in dict(extra).items():
        if k in ('__class__', '__dict__', '__module__') or style in ('slots', 'namedtuple'):
            continue
        if not same(getattr(o, k, NO), v):
            return ctx.fail(key, 'the remaining key %s becomes %r, expected %r' % (k, getattr(o, k, NO), v))
    if style not in ('slots', 'namedtuple'):
        names = {p for p, _, _ in params} | {k for k, _ in extra} | set(getters)
        names = {n for n in names if not (n.startswith('__') and n.endswith('__'))}
        if set(vars(o)) != names:
            ctx.fail(key, 'the object has the attributes %s, expected %s' % (sorted(vars(o)), sorted(names)))


def sources(params, full, cap=None):
    opts = []
    for p, a, d in params:
        vals = SRC[a]
        if not full:
            vals = [v for i, v in enumerate(vals) if i in (0, 2) or v is None][:3]
        opts.append([NO] + vals)
    for combo in itertools.product(*opts):
        yield {p: v for (p, _, _), v in zip(params, combo) if v is not NO}


GETS = ['got', None, 0]


def explore(ctx, style, params, full, slim=False):
    c = build(style, params)
    if c is None:
        return
    sig = '%s(%s)' % (style, ','.join('%s:%s=%s' % (p, 'NO' if a is NO else a, 'NO' if d is NO else d) for p, a, d in params))
    ctx.state(sig)
    names = [p for p, _, _ in params]
    subsets = [()] if style == 'namedtuple' else [s for n in range(len(names) + 1) for s in itertools.combinations(names, n)]
    if slim and subsets != [()]:
        subsets = [(), tuple(names)]
    for src in sources(params, full):
        ks = list(src)
        perms = [tuple(ks), tuple(reversed(ks))] if len(ks) > 1 else [tuple(ks)]
        if full and len(ks) > 2:
            perms = list(itertools.permutations(ks))
        for s in subsets:
            gets = {p: G(GETS[(i + len(ks)) % 3]) for i, p in enumerate(s)}
            for perm in perms[:1] if slim and s else perms:
                key = 'res|%s|%r|%s' % (sig, {k: src[k] for k in perm}, s)
                one(ctx, key, c, style, params, {k: src[k] for k in perm}, gets)
                one(ctx, key + '|strict', c, style, params, {k: src[k] for k in perm}, gets, strict=True) if s or len(ks) == 1 else None
        if style not in ('namedtuple', 'slots'):
            for ex in ([('extra', 1)], )[:not slim] + ([('zz', {'a': 1, 'b': [None]}), ('_y', None)], [('when', '2020-01-02T03:04:05Z'), ('__class__', 'x'), ('Zz', [])])[slim:]:
                for front in (False, True):
                    js = {**dict(ex), **src} if front else {**src, **dict(ex)}
                    one2(ctx, 'extra|%s|%r' % (sig, js), c, style, params, src, {}, ex, front)
            one(ctx, 'get+|%s|%r' % (sig, src), c, style, params, src, {'other': G('o')})
            one(ctx, 'get++|%s|%r' % (sig, src), c, style, params, src, {names[0]: G('o'), 'other': G(None)}, [('extra', 's')])
            if len(names) == 1 and full:
                for w in GETS + [[], {'x': 1}, c]:
                    one(ctx, 'getv|%s|%r|%r' % (sig, src, w), c, style, params, src, {names[0]: G(w)})
    return c


def one2(ctx, key, c, style, params, src, getters, extra, front):
    if front:
        class Front(dict):
            pass
        full = {**dict(extra), **src}
        # the order of the keys: extra keys first
        one(ctx, key, c, style, params, src, getters, extra, wrap=lambda c, f: (c, full, lambda r: r))
    else:
        one(ctx, key, c, style, params, src, getters, extra)


def positions(c, other):
    def lst(c, f):
        return list[c], [f], lambda r: r[0]

    def lst2(c, f):
        return List[List[c]], [[], [f, f]], lambda r: r[1][1]

    def dct(c, f):
        return Dict[str, c], {'k': f}, lambda r: r['k']

    def tup(c, f):
        return Tuple[int, c], [1, f], lambda r: r[1]

    def opt(c, f):
        return Optional[c], f, lambda r: r

    def union(c, f):
        return Union[int, c], f, lambda r: r

    def attr_(c, f):
        H = dataclasses.make_dataclass('H', [('p', int), ('q', c), ('r', Optional[c], None)])
        return H, {'p': 1, 'q': f}, lambda r: r.q

    def attr2(c, f):
        H = dataclasses.make_dataclass('H', [('p', List[c])])
        H2 = dataclasses.make_dataclass('H2', [('h', H)])
        return H2, {'h': {'p': [f]}}, lambda r: r.h.p[0]

    def ntp(c, f):
        N = NamedTuple('N', [('p', int), ('q', c)])
        return N, {'p': 1, 'q': f}, lambda r: r.q
    return [lst, lst2, dct, tup, opt, union, attr_, attr2, ntp]


def cases(tier):
    ks = list(KINDS)
    for st in STYLES:
        for k in ks:
            yield Case('one:%s:%s' % (st, k), ('one', st, k))
        for k in ks:
            yield Case('two:%s:%s' % (st, k), ('two', st, k))
    for st in STYLES if tier == 'thorough' else ('plain', 'dataclass', 'kwonly', 'namedtuple'):
        for a, b in itertools.product(CORE3, repeat=2):
            yield Case('three:%s:%s,%s' % (st, a, b), ('three', st, a, b))
    for n in NAMES:
        yield Case('name:' + n, ('name', n))
    for k in ('factory', 'initfalse', 'initvar', 'noinit', 'emptyinit', 'property', 'classattr', 'callinit', 'new', 'many', 'decorated', 'annotated', 'odddefault'):
        yield Case('special:' + k, ('special', k))


def run(ctx, args):
    kind = args[0]
    if kind == 'one':
        p = [('a',) + KINDS[args[2]]]
        c = explore(ctx, args[1], p, True)
        if c is not None:
            for w in positions(c, None):
                for src in sources(p, True):
                    one(ctx, 'pos|%s|%s|%s|%r' % (args[1], args[2], w.__name__, src), c, args[1], p, src, {}, wrap=w)
    elif kind == 'two':
        for k2 in KINDS:
            p = [('a',) + KINDS[args[2]], ('b',) + KINDS[k2]]
            core = ctx.thorough or args[2] in CORE3 and k2 in CORE3
            c = explore(ctx, args[1], p, core, not core)
            if c is not None and (ctx.thorough or args[2] in CORE3 and k2 in CORE3):
                for w in positions(c, None):
                    for src in sources(p, False):
                        one(ctx, 'pos|%s|%s,%s|%s|%r' % (args[1], args[2], k2, w.__name__, src), c, args[1], p, src, {}, wrap=w)
    elif kind == 'three':
        for k3 in KINDS if ctx.thorough else CORE3:
            explore(ctx, args[1], [('a',) + KINDS[args[2]], ('b',) + KINDS[args[3]], ('c',) + KINDS[k3]], False, not ctx.thorough)
    elif kind == 'name':
        for st in STYLES:
            for k in ('ri', 'r', 'ro', 'di', 'rdc'):
                explore(ctx, st, [(args[1],) + KINDS[k]], False)
                explore(ctx, st, [('first',) + KINDS['ri'], (args[1],) + KINDS[k]], False)
    else:
        special(ctx, args[1])
    ctx.outcome(kind)


def special(ctx, k):
    e = ctx.expect
    if k == 'factory':
        @dataclasses.dataclass
        class F:
            a: int
            l: List[int] = dataclasses.field(default_factory=list)
            d: Dict[str, int] = dataclasses.field(default_factory=lambda: {'x': 1})
        x, y = jsons.load({'a': 1}, F), jsons.load({'a': 1}, F)
        e(x == F(1) and x.l is not y.l and x.d is not y.d and x.l == [] and x.d == {'x': 1}, 'factory', 'default factories: %r' % x)
        e(jsons.load({'a': 1, 'l': ['2']}, F) == F(1, [2]), 'factory2', 'default factories')
        e(jsons.load([{'a': 1}, {'a': 2}], List[F]) == [F(1), F(2)], 'factory3', 'default factories')
    elif k == 'initfalse':
        @dataclasses.dataclass
        class F:
            a: int
            b: int = dataclasses.field(init=False, default=4)
            c: List[int] = dataclasses.field(init=False)

            def __post_init__(self):
                self.c = [self.a]
        x = jsons.load({'a': 1}, F)
        e(x.b == 4 and x.c == [1], 'initfalse', 'fields that are not in the constructor: %r' % x)
        x = jsons.load({'c': ['7'], 'b': '9', 'a': 1}, F)
        e(x.b == 9 and x.c == [7], 'initfalse2', 'fields that are not in the constructor: %r' % x)
    elif k == 'initvar':
        @dataclasses.dataclass
        class F:
            a: int
            b: int = 3

            def __post_init__(self):
                self.total = self.a + self.b
        for src in ({'a': '1', 'b': '2'}, {'b': 2, 'a': 1}):
            e(jsons.load(src, F).total == 3, 'post', 'the constructor runs with loaded values')
    elif k == 'noinit':
        class N:
            a: int
            b: Optional[str]
        for src in ({}, {'a': '5'}, {'a': 5, 'b': 'x'}, {'b': None, 'a': '5'}):
            x = jsons.load(src, N)
            e(type(x) is N and vars(x) == {a: int(b) if a == 'a' else b for a, b in src.items()}, 'noinit|%r' % src, 'class without constructor from %r: %r'
              % (src, vars(x)))
    elif k == 'emptyinit':
        class N:
            x: List[int]

            def __init__(self):
                self.x = None
                self.y = 'own'
        for src, want in (({}, {'x': None, 'y': 'own'}), ({'x': ['1']}, {'x': [1], 'y': 'own'}), ({'y': 'other', 'z': 1}, {'x': None, 'y': 'other', 'z': 1})):
            x = jsons.load(src, N)
            e(vars(x) == want, 'emptyinit|%r' % src, 'constructor without parameters from %r: %r' % (src, vars(x)))
    elif k == 'property':
        class N:
            def __init__(self, a: int):
                self._a = a

            @property
            def a(self) -> int:
                return self._a

            @property
            def b(self) -> int:
                return self._b

            @b.setter
            def b(self, v: int):
                self._b = ('set', v)
        x = jsons.load({'a': '1', 'b': 5}, N)
        e(x.a == 1 and x.b == ('set', 5), 'property', 'properties: %r' % vars(x))
        x = jsons.load({'b': 5, 'a': '1'}, N, attr_getters={'b': lambda: 1 / 0, 'a': lambda: 1 / 0})
        e(x.a == 1 and x.b == ('set', 5), 'property', 'properties: %r' % vars(x))
    elif k == 'classattr':
        class N:
            kind: str = 'k'
            num: int = 3

            def __init__(self, a: int):
                self.a = a
        for src in ({'a': 1}, {'a': 1, 'num': '5'}, {'num': '5', 'kind': 'q', 'a': 1}):
            x = jsons.load(src, N)
            e(vars(x) == {n: int(v) if n != 'kind' else v for n, v in src.items()} and N.num == 3 and N.kind == 'k', 'classattr|%r' % src,
              'annotated class attributes from %r: %r' % (src, vars(x)))
    elif k == 'odddefault':
        class Odd:
            def __init__(self, verdict):
                self.verdict = verdict

            def __eq__(self, other):
                return self.verdict()

            def __ne__(self, other):
                return self.verdict()

            def __bool__(self):
                return bool(self.verdict())

            __hash__ = None

        def boom():
            raise TypeError('not comparable')
        for name, verdict in (('true', lambda: True), ('false', lambda: False), ('boom', boom)):
            for kwonly in (False, True):
                odd = Odd(verdict)
                if kwonly:
                    class N:
                        def __init__(self, a: int, *, b: Odd = odd):
                            self.a, self.b = a, b
                else:
                    class N:
                        def __init__(self, a: int, b: Odd = odd):
                            self.a, self.b = a, b
                x = jsons.load({'a': '1'}, N)
                e(x.a == 1 and x.b is odd, 'odddefault|%s|%s' % (name, kwonly), 'a default with an unusual comparison (%s) is used' % name)
    elif k == 'callinit':
        log = []

        class N:
            def __init__(self, a: int, b: int = 2, *, c: int = 3):
                log.append((a, b, c))
                self.sum = a + b + c
        for src in [dict(zip(p, (10, 20, 30)[:len(p)])) for n in range(4) for p in itertools.permutations('abc', n)]:
            del log[:]
            try:
                x = jsons.load(src, N)
            except UnfulfilledArgumentError as err:
                e('a' not in src and err.argument == 'a' and not log, 'call|%r' % src, 'the constructor of %r' % src)
                continue
            e(log == [(src['a'], src.get('b', 2), src.get('c', 3))], 'call|%r' % src, 'the constructor is called with %r from %r' % (log, src))
            e(set(vars(x)) == {'sum'}, 'call2|%r' % src, 'attributes %r' % vars(x))
    elif k == 'new':
        class N:
            made = 0

            def __new__(cls, *a, **kw):
                cls.made += 1
                return object.__new__(cls)

            def __init__(self, a: int):
                self.a = a
        x = jsons.load({'a': '4'}, N)
        e(type(x) is N and x.a == 4 and N.made == 1, 'new', 'constructor with __new__: %r, %d' % (vars(x), N.made))
    elif k == 'many':
        for n in (1, 4, 8, 16, 40):
            names = ['p%02d' % i for i in range(n)]
            F = dataclasses.make_dataclass('F', [(m, int) if i < n // 2 else (m, Optional[int], i) for i, m in enumerate(names)])
            F.__module__ = 'ucls'
            for gone in [()] + [(i,) for i in range(n)] + [(i, n - 1) for i in range(n - 1)]:
                src = {m: str(100 + i) for i, m in enumerate(names) if i not in gone}
                for s in (src, dict(reversed(list(src.items())))):
                    ctx.state(n, gone)
                    try:
                        x = jsons.load(s, F)
                    except UnfulfilledArgumentError as err:
                        e(min(gone) < n // 2 and err.argument == names[min(gone)], 'many|%d|%s' % (n, gone), 'wrong parameter %r' % err)
                        continue
                    w = F(**{m: (100 + i if i not in gone else i) for i, m in enumerate(names) if i not in gone or i >= n // 2})
                    e(x == w, 'many|%d|%s' % (n, gone), '%r instead of %r' % (x, w))
    elif k == 'decorated':
        import functools

        def deco(f):
            @functools.wraps(f)
            def g(*a, **kw):
                return f(*a, **kw)
            return g

        class N:
            @deco
            def __init__(self, a: int, b: 'Optional[DC]' = None):
                self.a = a
                self.b = b
        N.__init__.__annotations__['b'] = Optional[DC]
        x = jsons.load({'b': {'a': 1, 'b': 'x'}, 'a': '2'}, N)
        e(x.a == 2 and x.b == DC(1, 'x'), 'decorated', 'decorated constructor: %r' % vars(x))
    elif k == 'annotated':
        x = jsons.load({'v': '3', 'next': {'v': 4}}, Node)
        e(x == Node(3, Node(4)), 'fwd', 'forward references: %r' % x)
        x = jsons.load({'next': {'kids': [{'v': 1}], 'v': '4'}, 'v': '3'}, Node)
        e(x == Node(3, Node(4, None, [Node(1)])), 'fwd', 'forward references: %r' % x)
