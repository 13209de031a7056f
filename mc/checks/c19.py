"""C19 a strict dump as a class contains exactly what that class declares."""
import abc
import collections
import dataclasses
import itertools
import json
import warnings
from typing import (Any, ClassVar, Collection, Deque, Dict, FrozenSet, Iterable, List, Mapping, NewType, Optional, Sequence, Set, Tuple, Union)

import attr
import jsons
from core import Case
from ref import jsame

PROPERTY = 'C19'
ASSUMPTIONS = ['a class with its own __slots__ declares those, and the inherited slots, instead of annotations and constructor hints; slots are dumped by what they hold',
               'a declared attribute that also has a value in the class (a default) is dumped by what it holds',
               'every declared attribute has a value in the instance', 'constructor parameters name attributes']
STYLES = ('slots', 'ann', 'dc', 'attrs', 'hint', 'abchint', 'nohint', 'mixed', 'empty')
EXTRAS = ('prop', 'cv', 'acv', 'own', 'priv', 'meth', 'inner', 'privprop', 'over', 'undeclared', 'classvar')


def BOUNDS(tier):
    return {'hierarchies': 'all chains of up to 3 classes over %d declaration styles (dumping every class of the chain as each of its bases)' % len(STYLES),
            'extras': '%s extra members per hierarchy out of %d, on every level' % ('up to two' if tier == 'thorough' else 'one, and all at once,', len(EXTRAS)),
            'options': 'all 16 combinations of strip flags and strip_attr%s' % ('' if tier == 'thorough' else ' (chains of 3: none, each alone, all flags)'),
            'positions': 'all chains of up to %d containers, as cls and as field type, of a base class' % (3 if tier == 'thorough' else 2)}


@dataclasses.dataclass(eq=True, unsafe_hash=True)
class B:
    x: int


@dataclasses.dataclass(eq=True, unsafe_hash=True)
class Sub(B):
    y: int = 0

    @property
    def p(self):
        return 1


SUB = Sub(1, 2)
AS_B, AS_SUB = {'x': 1}, {'x': 1, 'y': 2, 'p': 1}
# The types and values of the declared attributes: (type, value, dump as that type, dump by what it is)
ATTRS = [(int, 1, 1, 1), (B, SUB, AS_B, AS_SUB), (List[B], [SUB, B(3)], [AS_B, {'x': 3}], None), (Optional[B], SUB, AS_B, AS_SUB),
         (Union[int, B], SUB, AS_B, AS_SUB), (Tuple[B, int], (SUB, 1), [AS_B, 1], [AS_SUB, 1]), (Dict[str, B], {'k': SUB}, {'k': AS_B}, {'k': AS_SUB}),
         (Any, SUB, AS_SUB, AS_SUB), (Optional[int], None, None, None)]
# In a list without type, elements of different classes are dumped by what they are.
ATTRS[2] = ATTRS[2][:3] + ([AS_SUB, {'x': 3}],)


def build(chain, extras):
    """chain: styles; extras: per level a tuple of names. -> list of (class, declared) and the instance values.

    declared: {name: (kind, type index or None)}, kind in attr, prop, cv
    """
    classes, values, base = [], {}, object
    ann, ctor, level_entries = {}, {}, {}
    slots_seen = {}
    for i, (style, extra) in enumerate(zip(chain, extras)):
        ns, a_ns = {'__module__': __name__, '__qualname__': 'K%d' % i}, {}
        own = ['%s%d%s' % (n, i, s) for n, s in (('a', ''), ('b', 'z'))]
        if 'priv' in extra:
            own.append('_q%d' % i)
        types = {n: (i * 3 + k + len(style)) % len(ATTRS) for k, n in enumerate(own)}
        for n in own:
            values[n] = types[n]
        hints = None
        if style == 'slots':
            ns['__slots__'] = tuple(own)
        elif style in ('ann', 'dc', 'attrs'):
            a_ns.update({n: ATTRS[t][0] for n, t in types.items()})
        elif style in ('hint', 'abchint'):
            hints = types
        elif style == 'nohint':
            hints = {}
        elif style == 'mixed':          # one annotated, one from the constructor
            a_ns[own[0]] = ATTRS[types[own[0]]][0]
            hints = {n: types[n] for n in own[1:]}
        else:
            for n in own:
                values.pop(n)
        if hints is not None:
            def __init__(self, **kw):
                pass
            args = ', '.join(own)
            scope = {}
            exec('def __init__(self, %s): pass' % args, scope)
            __init__ = scope['__init__']
            __init__.__annotations__.update({n: ATTRS[t][0] for n, t in hints.items()})
            ns['__init__'] = __init__
        entries = {}
        if 'prop' in extra:
            ns['pr%d' % i] = property(lambda self: SUB)
            entries['pr%d' % i] = 'prop'
        if 'privprop' in extra:
            ns['_pp%d' % i] = property(lambda self: None)
            entries['_pp%d' % i] = 'prop'
        if 'cv' in extra:
            ns['cv%d' % i] = 7 + i
            entries['cv%d' % i] = 'cv'
            ns['_cvn%d' % i] = None
            entries['_cvn%d' % i] = 'cv'
        if 'classvar' in extra and style not in ('slots',):
            a_ns['cw%d' % i] = ClassVar[int]
            ns['cw%d' % i] = 70 + i
            entries['cw%d' % i] = 'cv'
        if 'acv' in extra and style in ('ann', 'mixed', 'hint', 'nohint', 'empty', 'abchint'):
            a_ns['acv%d' % i] = int
            ns['acv%d' % i] = 40 + i
            entries['acv%d' % i] = 'cv'
        if 'own' in extra and not any(c == 'slots' for c in chain):
            ns['ov%d' % i] = None
            entries['ov%d' % i] = 'owncv'
            values['ov%d' % i] = 1       # the instance has its own value
        if 'meth' in extra:
            ns['m%d' % i] = lambda self: 1
            ns['sm%d' % i] = staticmethod(lambda: 1)
            ns['cm%d' % i] = classmethod(lambda cls: 1)
        if 'inner' in extra:
            exec('class Inner%d:\n    z = 1' % i, {'__name__': __name__}, ns)
            ns['Inner%d' % i].__qualname__ = 'K%d.Inner%d' % (i, i)
        if 'over' in extra:
            kind = ('prop', 'cv', 'prop')[i]
            ns['over'] = property(lambda self, i=i: i) if kind == 'prop' else 60 + i
            entries['over'] = kind
        if a_ns:
            ns['__annotations__'] = a_ns
        meta = abc.ABCMeta if style == 'abchint' or type(base) is abc.ABCMeta else type
        cls = meta('K%d' % i, (base,), ns)
        if style == 'dc':
            cls = dataclasses.dataclass(cls)
        elif style == 'attrs':
            cls = attr.s(auto_attribs=True, collect_by_mro=True, slots=False)(cls)
        # ---- what the class declares
        ann = {**ann, **{n: t for n, t in types.items() if n in a_ns}}
        if hints is not None:
            ctor = hints
        elif style in ('dc', 'attrs'):
            # The generated constructor has the fields of this class and of its bases of the same kind.
            ctor = {}
        level_entries = {**level_entries, **entries}
        if style == 'slots':
            slots_seen = {**slots_seen, **{n: None for n in own}}
            declared = {n: ('attr', None) for n in slots_seen}
        else:
            declared = {n: ('attr', t) for n, t in {**ann, **ctor}.items()}
            declared.update({n: ('attr', None) for n in slots_seen})
        for n, kind in level_entries.items():
            declared[n] = (kind, None)
        classes.append((cls, dict(declared), style))
        base = cls
    if all('undeclared' not in e for e in extras):
        und = False
    else:
        und = True
    return classes, values, und


def instance(cls, values, und):
    o = object.__new__(cls)
    for n, t in values.items():
        v = 1 if n.startswith('ov') else ATTRS[t][1]
        object.__setattr__(o, n, v)
    if und and hasattr(o, '__dict__'):
        o.zz = 1
        o._zz = SUB
    return o


def expected(cls, declared, o, values, style, nulls, priv, props, cvs, strip):
    res = {}
    for n, (kind, t) in declared.items():
        if priv and n.startswith('_') or n in strip or props and kind == 'prop' or cvs and kind == 'cv':
            continue
        if kind == 'attr':
            spec = ATTRS[values[n]]
            d = spec[3] if t is None else spec[2]
        else:
            v = getattr(o, n)
            d = AS_SUB if v is SUB else v
            if d is AS_SUB and props:
                d = {k: w for k, w in d.items() if k != 'p'}
        if props or cvs or strip:
            d = nested(d, props, strip)
        if nulls and d is None:
            continue
        res[n] = d
    if getattr(cls, '__attrs_attrs__', None) is not None and not priv:
        res = {n.lstrip('_'): d for n, d in res.items()}
    return res


def nested(d, props, strip):
    if isinstance(d, dict):
        return {k: nested(w, props, strip) for k, w in d.items() if not (props and k == 'p')}
    if isinstance(d, list):
        return [nested(w, props, strip) for w in d]
    return d


def instantiable(chain):
    return True


def hierarchy(ctx, chain, extras):
    try:
        classes, values, und = build(chain, extras)
    except TypeError as err:
        # E.g. __slots__ that clash; no hierarchy of Python.
        ctx.cap('no such class: %s' % err)
        return
    chk = {}
    for j, (cls_j, _, _) in enumerate(classes):
        vals = {n: t for n, t in values.items() if int(''.join(c for c in n if c.isdigit())) <= j}
        try:
            o = instance(cls_j, vals, und)
        except AttributeError:
            # An overridden name is read-only.
            continue
        for i in range(j + 1):
            cls, declared, style = classes[i]
            names = sorted(declared)
            full = ctx.thorough or len(chain) < 3
            for flags in itertools.product((False, True), repeat=4):
                if not full and sum(flags) in (2, 3):
                    continue
                nulls, priv, props, cvs = flags
                for strip in ((), tuple(names[:1]), tuple(names[::2]) + ('zz',)):
                    if not full and strip and any(flags):
                        continue
                    kw = {}
                    if nulls:
                        kw['strip_nulls'] = True
                    if priv:
                        kw['strip_privates'] = True
                    if props:
                        kw['strip_properties'] = True
                    if cvs:
                        kw['strip_class_variables'] = True
                    if strip:
                        kw['strip_attr'] = list(strip)
                    ctx.step()
                    want = expected(cls, declared, o, values, style, nulls, priv, props, cvs, strip)
                    try:
                        got = jsons.dump(o, cls=cls, strict=True, **kw)
                    except Exception as err:
                        ctx.fail('%s|%s' % ('>'.join(chain), extras), 'dump of the class at %d as that at %d raised %s: %s' % (j, i, type(err).__name__, err))
                        return
                    if not jsame(got, want):
                        ctx.fail('%s|%s' % ('>'.join(chain), extras), 'the class at %d as that at %d %s gives %r, declared is %r' % (j, i, kw, got, want))
                        return
            want = expected(cls, declared, o, values, style, False, False, False, False, ())
            for v, T, w in (([o], List[cls], [want]), ({'k': o}, Dict[str, cls], {'k': want}), ((o, o), Tuple[cls, ...], [want, want]), (o, Optional[cls], want)):
                ctx.step()
                got = jsons.dump(v, cls=T, strict=True)
                if not jsame(got, w):
                    ctx.fail('%s|%s|%s' % ('>'.join(chain), extras, T), 'dump as %s gives %r, expected %r' % (T, got, w))
                    return
            ctx.trace()
            ctx.outcome('%s as %s: %d' % (chain[j], chain[i], len(want)))
    ctx.state(chain, extras)


def hierarchies(ctx, prefix, tier):
    for n in range(0, 4 - len(prefix)):
        for rest in itertools.product(STYLES, repeat=n):
            chain = prefix + rest
            k = len(chain)
            es = [((),) * k, (EXTRAS,) * k]
            if k < 3 or tier == 'thorough':
                es += [tuple((e,) if i == lv else () for i in range(k)) for lv in range(k) for e in EXTRAS]
            es += [((e,),) * k for e in EXTRAS]
            if tier == 'thorough' and k < 3:
                es += [tuple(p) for p in itertools.product([(a, b) for a, b in itertools.combinations(EXTRAS, 2)], repeat=k)]
            for ex in es:
                hierarchy(ctx, chain, ex)


# ------------------------------------------------------------------ positions

NewB = NewType('NewB', B)
Named = collections.namedtuple('Named', 'a b')


def wrappers():
    """name -> (type of the type of the element, value of the elements, dump)"""
    def seq(f, t):
        return lambda v: f(v), lambda T: t[T], lambda d, plain: d
    w = {}
    for name, t, mk in (('List', List, list), ('list', list, list), ('Sequence', Sequence, list), ('Iterable', Iterable, tuple), ('Collection', Collection, list),
                        ('Deque', Deque, collections.deque)):
        w[name] = (lambda T, t=t: t[T], lambda vs, mk=mk: mk(vs), lambda ds: list(ds))
    w['Tuple...'] = (lambda T: Tuple[T, ...], tuple, list)
    w['Tuple2'] = (lambda T: Tuple[T, T], tuple, list)
    w['tuple'] = (lambda T: tuple[T, T], tuple, list)
    for name, t in (('Dict', Dict), ('dict', dict), ('Mapping', Mapping)):
        w[name] = (lambda T, t=t: t[str, T], lambda vs: dict(zip('kl', vs)), lambda ds: dict(zip('kl', ds)))
    return w


def unaries():
    return {'Optional': lambda T: Optional[T], 'UnionL': lambda T: Union[T, int], 'UnionR': lambda T: Union[int, T], 'NewType': lambda T: NewType('N', T)}


def chains(n):
    W, U = wrappers(), unaries()
    names = sorted(W) + sorted(U)
    for k in range(n + 1):
        yield from itertools.product(names, repeat=k)


def apply(ch):
    """The type, the value and the dump of a chain of containers around B."""
    W, U = wrappers(), unaries()
    T, vs, ds = B, (SUB, B(5)), (AS_B, {'x': 5})
    for n in reversed(ch):
        if n in U:
            T = U[n](T)
        else:
            ty, mk, dm = W[n]
            T, vs, ds = ty(T), (mk(vs), mk(vs)), (dm(ds), dm(ds))
    return T, vs[0], ds[0]


def hashable(ch):
    return True


def position(ctx, first, n):
    for ch in chains(n):
        ch = (first,) + ch if first else ch
        T, v, d = apply(ch)
        kinds = {'root': (v, T, d)}
        D = dataclasses.make_dataclass('H', [('f', T), ('g', int)])
        kinds['dc'] = (D(v, 1), D, {'f': d, 'g': 1})

        class P:
            def __init__(self, f, g: int):
                self.f, self.g, self.zz = f, g, 3
        P.__init__.__annotations__['f'] = T
        kinds['hint'] = (P(v, 1), P, {'f': d, 'g': 1})

        class A(P):
            f: T

            def __init__(self, f, g):
                self.f, self.g = f, g
        kinds['ann'] = (A(v, 1), A, {'f': d})
        E = dataclasses.make_dataclass('E', [('h', int)], bases=(D,))
        kinds['sub'] = (E(v, 1, 2), D, {'f': d, 'g': 1})
        kinds['list of holders'] = ([E(v, 1, 2), D(v, 1)], List[D], [{'f': d, 'g': 1}] * 2)
        for kind, (val, cls, want) in kinds.items():
            for text in (False, True):
                ctx.step()
                try:
                    got = json.loads(jsons.dumps(val, cls=cls, strict=True)) if text else jsons.dump(val, cls=cls, strict=True)
                except Exception as err:
                    ctx.fail('%s|%s' % (ch, kind), 'dump as %s raised %s: %s' % (cls, type(err).__name__, err))
                    continue
                if not jsame(got, want):
                    ctx.fail('%s|%s' % (ch, kind), 'dump(%r, %s, strict=True) is %r, expected %r' % (val, cls, got, want))
        ctx.state(ch)
        ctx.trace()


def cases(tier):
    for s in STYLES:
        yield Case('hierarchy/%s' % s, (hierarchies1, (s,), tier))
        for t in STYLES:
            if tier == 'thorough':
                yield Case('hierarchy/%s>%s' % (s, t), (exact, (s, t), tier))
                for u in STYLES:
                    yield Case('hierarchy/%s>%s>%s' % (s, t, u), (exact, (s, t, u), tier))
            else:
                yield Case('hierarchy/%s>%s' % (s, t), (hierarchies, (s, t), tier))
    yield Case('position/-', (position, None, 0))
    for n in sorted(wrappers()) + sorted(unaries()):
        yield Case('position/%s' % n, (position, n, 2 if tier == 'thorough' else 1))


def hierarchies1(ctx, chain, tier):
    exact(ctx, chain, tier)


def exact(ctx, chain, tier):
    k = len(chain)
    es = [((),) * k, (EXTRAS,) * k] + [((e,),) * k for e in EXTRAS]
    es += [tuple((e,) if i == lv else () for i in range(k)) for lv in range(k) for e in EXTRAS]
    if tier == 'thorough':
        pairs = list(itertools.combinations(EXTRAS, 2))
        es += [(p,) * k for p in pairs]
        if k == 2:
            es += [tuple(p) for p in itertools.product(pairs, repeat=k)]
    for ex in es:
        hierarchy(ctx, chain, ex)


def run(ctx, args):
    warnings.simplefilter('ignore')
    args[0](ctx, *args[1:])
