"""C18 a validator guards its type at every position a value can be loaded."""
import itertools
import typing

import jsons
from core import Case
from jsons import ValidationError
from jsons.exceptions import DeserializationError
from lib import caught, forked
from universe import *  # noqa
from checks.c12 import alias, holder

PROPERTY = 'C18'
ASSUMPTIONS = ['a rejection within a Union makes that member not match (the next one is tried); the attributes of an object that '
               'is passed through are not loaded and hence not validated; values of getters and defaults are not loaded either',
               'a validator of a class also applies to subclasses that have none of their own']
STYLES = ('false', 'raise', 'none', 'zero', 'raise-jsons', 'raise-noargs', 'raise-many', 'raise-num', 'empty')
VAL = {n: LEAF[n] for n in ('int', 'float', 'bool', 'str', 'datetime', 'date', 'time', 'timedelta', 'Decimal', 'UUID', 'PurePosixPath', 'Color',
                            'complex', 'UserId', 'Label', 'timezone', 'Num', 'StrE')}
VAL.update({n: OBJ[n] for n in ('DC', 'Plain', 'Child', 'NT', 'Slots', 'Attrs', 'JS', 'DCDef')})
QUICK_STYLES = ('false', 'raise')
KEYS = ('int', 'str', 'float', 'bool', 'UUID', 'Color', 'Decimal', 'date', 'PurePosixPath', 'UserId', 'Label')


def BOUNDS(tier):
    return {'validated types': len(VAL), 'positions': 'root, pass-through, every container, dict key, every kind of object, extra attribute, Optional, Union '
            '(first, last), untyped, two deep', 'verdicts': 'every subset of three values rejected, by %s' % ', '.join(STYLES if tier == 'thorough' else QUICK_STYLES),
            'strict': [False, True], 'forks': 'global state, a fork, a fork of that fork, the other way round',
            'histories': 'all sequences of %d registrations over (type, ancestor, unrelated) x verdict' % (4 if tier == 'thorough' else 3)}


def values(t):
    """Three different values with distinguishable equality."""
    res = []
    for v, j in t.vals:
        if not any(same(v, w) or v == w for w, _ in res):
            res.append((v, j))
    return res[:3]


class Judge:
    """A validator that rejects the values of a set and remembers what it was asked."""

    def __init__(self, vals, bad, style, tp):
        self.vals, self.bad, self.style, self.tp = vals, bad, style, getattr(tp, '__supertype__', tp)
        self.seen = []
        self.strange = []

    def index(self, v):
        for i, (w, _) in enumerate(self.vals):
            if same(v, w):
                return i
        return None

    def __call__(self, v):
        i = self.index(v)
        if i is None:
            if not isinstance(v, self.tp):      # not e.g. a str key of the dict next to the str values
                self.strange.append(v)
            return True
        self.seen.append(i)
        if i not in self.bad:
            return (True, 1, 'yes')[i % 3]
        if self.style == 'false':
            return False
        if self.style == 'none':
            return None
        if self.style == 'zero':
            return 0
        if self.style == 'raise-jsons':
            raise DeserializationError('no %d' % i, v, None)
        if self.style == 'empty':
            return ('', [], 0.0)[i % 3]
        if self.style == 'raise-many':
            raise [ValueError, OSError, AssertionError][i % 3]('no %d' % i, v, 'more')
        if self.style == 'raise-num':
            raise ArithmeticError(i + 10)
        if self.style == 'raise-noargs':
            raise ValueError()
        raise KeyError('no %d' % i) if i == 1 else ValueError('no %d' % i)

    def message(self, i):
        if self.style == 'raise-num':
            return i + 10
        return 'no %d' % i if self.style in ('raise', 'raise-jsons', 'raise-many') else 'Validation failed.'


def positions(t):
    """[(name, type, build(js), order kept, values needed, getter)]; the JSON values of t in js."""
    V = t.tp
    H, hj = (dtm.timedelta, 1.5) if t.name != 'timedelta' else (pathlib.PurePath, '/x')     # of something else
    one = lambda js: js[0]  # noqa
    res = [('root', V, one, 1), ('list[]', list[V], list, 3), ('List', alias(List[int], V), list, 3),
           ('VTuple', alias(Tuple[int, ...], V, ...), list, 3), ('Tuple', alias(Tuple[int, str], V, V), list, 2),
           ('Deque', alias(Deque[int], V), list, 3), ('Iterable', alias(Iterable[int], V), list, 3), ('Sequence', alias(Sequence[int], V), list, 3),
           ('dict[]', dict[str, V], lambda js: {'k%d' % i: j for i, j in enumerate(js)}, 3),
           ('Dict', alias(Dict[str, int], str, V), lambda js: {'k%d' % i: j for i, j in enumerate(js)}, 3),
           ('Mapping', alias(Mapping[str, int], str, V), lambda js: {'k%d' % i: j for i, j in enumerate(js)}, 3),
           ('DefaultDict', alias(DefaultDict[str, int], str, V), lambda js: {'k%d' % i: j for i, j in enumerate(js)}, 3),
           ('OptList', Optional[list[V]], list, 3), ('ListOpt', list[Optional[V]], lambda js: [js[0], None] + js[1:], 3),
           ('NewType', typing.NewType('NV', V), one, 1), ('ListNewType', list[typing.NewType('NV', V)], list, 3),
           ('Optional', Optional[V], one, 1), ('UnionLast', Union[Never, V], one, 1), ('UnionFirst', Union[V, Never], one, 1),
           ('ListList', list[list[V]], lambda js: [[], js[:1], js[1:]], 3), ('DictList', dict[str, list[V]], lambda js: {'a': js[:2], 'b': js[2:]}, 3),
           ('ListDict', list[dict[str, V]], lambda js: [{'a': j} for j in js], 3),
           ('ListTuple', list[tuple[V, H]], lambda js: [[j, hj] for j in js], 3)]
    if t.hashable:
        res += [('Set', alias(Set[int], V), list, 3), ('FrozenSet', alias(FrozenSet[int], V), list, 3)]
    for k in OBJ_KINDS:
        n = '%s_%s' % (k, t.name)
        two = holder(k, n, {'f': V, 'g': V, 'h': H})
        res.append((k, two, lambda js: {'f': js[0], 'g': js[-1], 'h': hj}, 2))
        res.append((k + 'List', list[two], lambda js: [{'h': hj, 'f': js[0], 'g': js[-1]}], 2))
        opt = holder(k, n + 'o', {'f': Optional[V], 'g': list[V]})
        res.append((k + 'Opt', opt, lambda js: {'f': js[0], 'g': js[1:]}, 3))
        deep = holder(k, n + 'd', {'f': holder(k, n + 'e', {'f': V})})
        res.append((k + 'Deep', deep, lambda js: {'f': {'f': js[0]}}, 1))
    extra = type('Extra_' + t.name, (), {'__annotations__': {'x': V}})
    res.append(('Extra', extra, lambda js: {'x': js[0]}, 1))
    if t.name in KEYS:
        key = lambda js: {j: hj for j in js}  # noqa
        res += [('KeyDict', alias(Dict[str, int], V, H), key, 3), ('Key[]', dict[V, H], key, 3), ('KeyMapping', alias(Mapping[str, int], V, H), key, 3),
                ('KeyDefault', alias(DefaultDict[str, int], V, H), key, 3)]
    return res


class Never:
    """Nothing loads as this."""

    def __init__(self, never_there: int):
        raise ValueError('never')


UNIONS = ('OptList', 'Optional', 'UnionLast', 'UnionFirst', 'ListOpt')


def run_load(src, tp, kw):
    with caught():
        try:
            return ('ok', jsons.load(src, tp, **kw))
        except ValidationError as err:
            return ('val', err.message)
        except Exception as err:
            return ('err', type(err).__name__, str(err))


def check(ctx, key, name, t, tp, build, n, vals, bad, style, kw, base):
    judge = Judge(vals, bad, style, t.tp)
    jsons.set_validator(judge, t.tp, **{k: v for k, v in kw.items() if k == 'fork_inst'})
    sel = list(range(min(n, len(vals))))
    if n == 1:
        sels = [[i] for i in range(len(vals))]
    else:
        sels = [list(p) for p in itertools.product(range(len(vals)), repeat=min(n, 2))][:9] + [sel, sel[::-1]]
        if 'Key' in name or 'Set' in name:
            sels = [s for s in sels if len(set(s)) == len(s)]
    for s in sels:
        if n > 1 and len(s) < 2:
            continue
        if name.endswith('Tuple') and name == 'Tuple' and len(s) != 2:
            continue
        js = [vals[i][1] for i in s]
        src = build(js)
        bkey = (name, tuple(s), kw.get('strict', False))
        if bkey not in base:
            base[bkey] = None        # filled below by the caller, before any validator was registered
        exp = base[bkey]
        if exp is None or exp[0] != 'ok':
            continue
        ctx.step()
        ctx.trace()
        judge.seen, judge.strange = [], []
        r = run_load(src, tp, kw)
        used = list(s)
        if name in OBJ_KINDS or name.endswith('List') and name[:2] in OBJ_KINDS:
            used = [s[0], s[-1]]
        rej = [i for i in used if i in bad]
        k = '%s|%s|%s|%s|%s' % (key, name, s, sorted(bad), style)
        if judge.strange:
            ctx.fail(k, 'the validator of %s was asked about %r' % (t.name, judge.strange[0]))
        if not rej:
            if r[0] != 'ok' or not same(r[1], exp[1]):
                ctx.fail(k, 'load(%r, %s) with a validator that accepts gives %r, without %r' % (src, tp, r, exp))
            elif not set(used) <= set(judge.seen):
                ctx.fail(k, 'load(%r, %s): the validator of %s was only asked about values %s of %s' % (src, tp, t.name, judge.seen, used))
        elif name in UNIONS or name.endswith('Opt') and s[0] in bad:
            if r[0] == 'ok':
                ctx.fail(k, 'load(%r, %s) accepts a value that the validator rejects: %r' % (src, tp, r))
        else:
            msgs = [judge.message(i) for i in rej]
            if r[0] != 'val' or r[1] not in msgs:
                ctx.fail(k, 'load(%r, %s) gives %r, expected a ValidationError with %s' % (src, tp, r, msgs))
            elif name in ('list[]', 'List', 'VTuple', 'Tuple', 'Deque', 'Iterable', 'Sequence', 'ListNewType') and r[1] != msgs[0]:
                ctx.fail(k, 'load(%r, %s) reports %r, the first rejected value gives %r' % (src, tp, r, msgs[0]))


def fill(base, name, tp, build, n, vals, kw):
    for s in itertools.product(range(len(vals)), repeat=min(n, 2)):
        put(base, name, tp, build, list(s), vals, kw)
    sel = list(range(min(n, len(vals))))
    put(base, name, tp, build, sel, vals, kw)
    put(base, name, tp, build, sel[::-1], vals, kw)


def put(base, name, tp, build, s, vals, kw):
    k = (name, tuple(s), kw.get('strict', False))
    if k not in base:
        try:
            src = build([vals[i][1] for i in s])
        except TypeError:
            return
        base[k] = run_load(src, tp, {x: y for x, y in kw.items() if x != 'fork_inst'})


def pos_case(ctx, tname):
    t = VAL[tname]
    vals = values(t)
    ps = positions(t)
    base = {}
    for strict in (False, True):
        for name, tp, build, n in ps:
            fill(base, name, tp, build, n, vals, {'strict': strict})
    ctx.expect(sum(1 for b in base.values() if b and b[0] == 'ok') > len(base) // 3, 'base|' + tname, 'hardly anything loads: %r' % (base,))
    f = jsons.fork()
    g = jsons.fork(fork_inst=f)
    for style in STYLES if ctx.thorough or tname in ('int', 'DC') else QUICK_STYLES:
        for m in range(2 ** len(vals)):
            bad = {i for i in range(len(vals)) if m >> i & 1}
            for kn, kw in (('lenient', {}), ('strict', {'strict': True}), ('fork', {'fork_inst': g, 'strict': False})):
                if kn == 'fork':
                    jsons.set_validator(lambda v: True, t.tp)
                    jsons.set_validator(lambda v: True, t.tp, fork_inst=f)
                else:
                    jsons.set_validator(lambda v: False, t.tp, fork_inst=g)
                for name, tp, build, n in ps:
                    ctx.state(tname, style, m, kn, name)
                    check(ctx, 'pos|%s|%s' % (tname, kn), name, t, tp, build, n, vals, bad, style, kw, base)


def pass_case(ctx, tname):
    """Values that are deserialized already, next to ones that are not."""
    t = VAL[tname]
    vals = values(t)
    for style in STYLES:
        for m in range(2 ** len(vals)):
            bad = {i for i in range(len(vals)) if m >> i & 1}
            judge = Judge(vals, bad, style, t.tp)
            jsons.set_validator(judge, t.tp)
            for i in range(len(vals)):
                for nm, tp, wrap, get in (('root', t.tp, lambda x: x, lambda r: r), ('list', list[t.tp], lambda x: [x], lambda r: r[0]),
                                          ('dict', dict[str, t.tp], lambda x: {'k': x}, lambda r: r['k']),
                                          ('tuple', tuple[t.tp, int], lambda x: [x, 5], lambda r: r[0]),
                                          ('newtype', typing.NewType('NV', t.tp), lambda x: x, lambda r: r)):
                    for form in (0, 1):
                        if form == 0 and type(vals[i][0]) is not t.tp:
                            continue        # e.g. Path gives PosixPath
                        judge.seen, judge.strange = [], []
                        ctx.step()
                        ctx.trace()
                        ctx.state(tname, style, m, i, nm, form)
                        r = run_load(wrap(vals[i][form]), tp, {})
                        key = 'pass|%s|%s|%s|%d|%d|%s' % (tname, style, nm, i, form, sorted(bad))
                        if judge.strange:
                            ctx.fail(key, 'asked about %r' % (judge.strange[0],))
                        if i in bad:
                            ctx.expect(r == ('val', judge.message(i)), key, 'rejected value %r: %r' % (vals[i][form], r))
                        else:
                            ctx.expect(r[0] == 'ok' and same(get(r[1]), vals[i][0]) and i in judge.seen, key, 'accepted value %r: %r (asked about %s)' % (vals[i][form], r, judge.seen))


CONTAINERS = {'list': (list, lambda: [list, list[int], List[int], Optional[List[int]], list[list[int]]]),
              'dict': (dict, lambda: [dict, dict[str, int], Dict[str, int], list[dict[str, int]]]),
              'tuple': (tuple, lambda: [Tuple[int, int], Tuple[int, ...], tuple[int, ...]]),
              'set': (set, lambda: [set, Set[int], set[int], list[Set[int]]]),
              'deque': (deque, lambda: [deque, Deque[int]]), 'frozenset': (frozenset, lambda: [frozenset, FrozenSet[int]])}


def container_case(ctx, cname):
    """Validators of containers see the whole container."""
    V, types = CONTAINERS[cname]
    for tp in types():
        nested = typing.get_origin(tp) is list and cname in ('dict', 'set') or tp == list[list[int]]
        opt = typing.get_origin(tp) is Union
        for n in range(4):
            src = {'k%d' % i: i for i in range(n)} if cname == 'dict' else list(range(n))
            if tp == Tuple[int, int] and n != 2:
                continue
            if nested:
                src = [src]
            for limit in range(4):
                for style in STYLES:
                    seen = []

                    def judge(v):
                        seen.append(v)
                        if not isinstance(v, V):
                            raise ValueError('asked about %r' % (v,))
                        if len(v) <= limit:
                            return True
                        return Judge([(5, 5)], {0}, style, int)(5)
                    jsons.set_validator(judge, V)
                    r = run_load(src, tp, {})
                    ctx.step()
                    ctx.trace()
                    ctx.state(cname, tp, n, limit, style)
                    key = 'container|%s|%s|%d|%d|%s' % (cname, tp, n, limit, style)
                    rejected = n > limit or nested and cname == 'list' and 1 > limit
                    if rejected:
                        ctx.expect(r[0] == ('err' if opt else 'val'), key, 'load(%r, %s): %r' % (src, tp, r))
                    else:
                        ctx.expect(r[0] == 'ok' and seen, key, 'load(%r, %s): %r' % (src, tp, r))


# ------------------------------------------------------------------ which validator is consulted

class A0:
    def __init__(self, n: int):
        self.n = n


class A1(A0):
    pass


class A2(A1):
    pass


class Other:
    def __init__(self, n: int):
        self.n = n


CLS = (A0, A1, A2, Other)
PROBES = [('A0', A0, {'n': 1}), ('A1', A1, {'n': 1}), ('A2', A2, {'n': 1}), ('Other', Other, {'n': 1}), ('list', list[A2], [{'n': 1}]),
          ('dict', dict[str, A1], {'k': {'n': 2}}), ('opt', Optional[A2], {'n': 1}), ('pass', A2, A2(3))]


def history_case(ctx, first, depth):
    """All histories of registrations on the global state and a fork made at any time."""
    # an operation is ('set', node, class, accept) or ('fork',)
    def ops(prefix):
        forks = sum(1 for o in prefix if o[0] == 'fork')
        res = [('set', n, c, ok) for n in range(forks + 1) for c in CLS for ok in (True, False)]
        if forks < 2:
            res.append(('fork',))
        return res

    def play(hist):
        def child():
            from core import Ctx
            c = Ctx(ctx.case_id, ctx.tier)
            nodes = [({}, {})]        # (kwargs, {class: (serial, ok)})
            log = []
            for i, op in enumerate(hist):
                if op[0] == 'fork':
                    kw, reg = nodes[-1]
                    nodes.append(({'fork_inst': jsons.fork(**kw)}, dict(reg)))
                else:
                    _, n, cls, ok = op

                    def judge(v, i=i, ok=ok):
                        log.append(i)
                        if not ok:
                            raise ValueError('by %d' % i)
                        return True
                    jsons.set_validator(judge, cls, **nodes[n][0])
                    nodes[n][1][cls] = (i, ok)
            for n, (kw, reg) in enumerate(nodes):
                for nm, tp, src in PROBES:
                    T_ = {'list': A2, 'dict': A1, 'opt': A2, 'pass': A2}.get(nm, tp)
                    anc = [x for x in T_.__mro__ if x in reg]
                    if T_ in reg:
                        want = [reg[T_]]
                    else:
                        want = [reg[x] for x in anc]       # one of the ancestors' (which one is the order of registration)
                    del log[:]
                    r = run_load(src, tp, kw)
                    c.step()
                    c.trace()
                    key = 'history|%s|%d|%s' % (hist_name(hist), n, nm)
                    c.state(hist_name(hist), n, nm)
                    if not want:
                        c.expect(r[0] == 'ok' and not log, key, 'no validator applies, but %r (consulted: %s)' % (r, log))
                        continue
                    good = [w for w in want if log == [w[0]] or set(log) == {w[0]}]
                    if not good:
                        c.fail(key, 'consulted the validators %s, expected one of %s' % (log, want))
                        continue
                    if good[0][1]:
                        c.expect(r[0] == 'ok', key, 'accepted, but %r' % (r,))
                    elif nm == 'opt':
                        c.expect(r[0] == 'err', key, 'rejected, but %r' % (r,))
                    else:
                        c.expect(r == ('val', 'by %d' % good[0][0]), key, 'rejected, but %r' % (r,))
            return c.pack()
        from lib import merge
        merge(ctx, forked(child))

    def go(hist, d):
        play(hist)
        if d:
            for op in ops(hist):
                go(hist + (op,), d - 1)
    go(first, depth)


def hist_name(hist):
    return ';'.join('fork' if o[0] == 'fork' else 'set%d:%s=%s' % (o[1], o[2].__name__, o[3]) for o in hist)


def several_case(ctx, n):
    """One validator for several types; the types of a sequence are guarded like types that were registered alone."""
    names = [x for x in VAL if x not in ('Child', 'Num', 'StrE', 'UserId', 'Label', 'bool')]
    for ns in itertools.permutations([names[(n * 3 + k) % len(names)] for k in range(4)], 2 if not ctx.thorough else 3):
        for seq in (list, tuple):
            for style in STYLES:
                def child():
                    from core import Ctx
                    c = Ctx(ctx.case_id, ctx.tier)
                    allvals = [values(VAL[x])[:2] for x in ns]

                    def judge(v):
                        for x, vals in zip(ns, allvals):
                            j = Judge(vals, {1}, style, VAL[x].tp)
                            if j.index(v) is not None:
                                return j(v)
                        return True
                    jsons.set_validator(judge, seq(VAL[x].tp for x in ns))
                    for x, vals in zip(ns, allvals):
                        for i, (v, j) in enumerate(vals):
                            r = run_load(j, VAL[x].tp, {})
                            c.step()
                            c.trace()
                            c.state(ns, seq.__name__, style, x, i)
                            key = 'several|%s|%s|%s|%s|%d' % (','.join(ns), seq.__name__, style, x, i)
                            if i == 1:
                                want = Judge(vals, {1}, style, None).message(1)
                                c.expect(r == ('val', want), key, 'a rejected %s gives %r, expected a ValidationError with %r' % (x, r, want))
                            else:
                                c.expect(r[0] == 'ok' and same(r[1], v), key, 'an accepted %s gives %r' % (x, r))
                    return c.pack()
                from lib import merge
                merge(ctx, forked(child))


def unrelated_case(ctx, tname):
    """A validator of one type is not consulted when another type is loaded."""
    t = VAL[tname]
    log = []
    hit = {}
    for u in list(VAL.values()):
        if u is t:
            continue
        def judge(v, n=u.name):
            hit.setdefault(n, v)
            return False
        jsons.set_validator(judge, u.tp)
    naked = getattr(t.tp, '__supertype__', t.tp)
    for nm, tp, build, n in positions(t)[:24]:
        vals = values(t)
        for strict in (False, True):
            src = build([j for _, j in vals][:n] if n > 1 else [vals[0][1]])
            if nm == 'Tuple':
                src = build([vals[0][1], vals[-1][1]])
            hit.clear()
            r = run_load(src, tp, {'strict': strict})
            ctx.step()
            ctx.trace()
            ctx.state(tname, nm, strict)
            for n2, v in hit.items():
                u = getattr(VAL[n2].tp, '__supertype__', VAL[n2].tp)
                if isinstance(v, u) or issubclass(naked, u):
                    continue
                ctx.fail('unrelated|%s|%s|%s' % (tname, nm, n2), 'loading %r as %s asks the validator of %s about %r' % (src, tp, n2, v))
    del log


UNTYPED = [1, 'x', '2020-01-02T03:04:05Z', 1.5, True, None, [1, 'x'], {'a': 1}, {'a': ['x', {'b': '2020-01-02T03:04:05Z'}]}, [[1.5]]]


def untyped_case(ctx):
    """Loading without a type: validators of the types of the values are consulted with values of those types only."""
    for V in (int, str, float, bool, dtm.datetime, list, dict):
        for ok in (True, False):
            for src in UNTYPED:
                def child():
                    seen = []

                    def judge(v):
                        seen.append(v)
                        return ok
                    jsons.set_validator(judge, V)
                    with caught():
                        r = run_load(src, None, {})
                    return r[0], [type(v).__name__ for v in seen], all(isinstance(v, V) for v in seen), snap(r[1])
                kind, seen, fine, got = forked(child)
                with caught():
                    base = jsons.load(src)
                found = occurrences(base, V)
                key = 'untyped|%s|%s|%r' % (V.__name__, ok, src)
                ctx.step()
                ctx.trace()
                ctx.state(key)
                ctx.expect(fine, key, 'the validator of %s was asked about values of types %s' % (V.__name__, seen))
                if ok or not found:
                    ctx.expect(kind == 'ok' and got == snap(base), key, 'load(%r) gives %r, without the validator %r' % (src, got, base))
                    ctx.expect(len(seen) >= len(found), key, 'load(%r) asked %s times for %s' % (src, len(seen), found))
                else:
                    ctx.expect(kind == 'val', key, 'load(%r) gives %r although the validator rejects %r' % (src, got, found))


def occurrences(v, V):
    res = [v] if isinstance(v, V) else []
    if isinstance(v, list):
        for x in v:
            res += occurrences(x, V)
    elif isinstance(v, dict):
        for x in v.values():
            res += occurrences(x, V)
    return res


def cases(tier):
    for n in VAL:
        yield Case('pos:' + n, ('pos', n))
        yield Case('pass:' + n, ('pass', n))
        yield Case('unrelated:' + n, ('unrelated', n))
    for n in CONTAINERS:
        yield Case('container:' + n, ('container', n))
    for n in range(6):
        yield Case('several:%d' % n, ('several', n))
    yield Case('untyped', ('untyped',))
    depth = 3 if tier == 'thorough' else 2
    firsts = [('set', 0, c, ok) for c in CLS for ok in (True, False)] + [('fork',)]
    for f in firsts:
        yield Case('history:' + hist_name((f,)), ('history', (f,), depth))


def run(ctx, args):
    if args[0] == 'history':
        history_case(ctx, args[1], args[2])
    else:
        {'pos': pos_case, 'pass': pass_case, 'unrelated': unrelated_case, 'container': container_case, 'untyped': untyped_case, 'several': several_case}[args[0]](ctx, *args[1:])
    ctx.outcome(args[0])
