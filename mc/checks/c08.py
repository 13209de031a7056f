"""C08 concurrent calls from several threads behave as some sequential order."""
import itertools
from datetime import datetime, timezone
from typing import Any, Dict, List, NamedTuple, Optional, Tuple, Union

import jsons
import sched
import universe
from core import Case
from lib import caught, forked
from universe import snap
from ucls import DC, NT, JS, Color, Slots, Wide
import regmodel
from regmodel import A, B, C, X, M, Un, H, h0, hj

PROPERTY = 'C08'
ASSUMPTIONS = ['Python statements are atomic with respect to each other only as far as lines of jsons go; calls into '
               'C code and the standard library are not interrupted',
               'a registration that runs at the same time as a dump or load may take effect between two of its values',
               'classes are registered once per history: changing function and priority of a class at once is not atomic']
nj = {'n': '1'}


def BOUNDS(tier):
    return {'threads': '2 (3 in the three-thread scenarios), every line of jsons is a scheduling point',
            'preemptions': 'all schedules with at most %d' % (2 if tier == 'thorough' else 1),
            'points': 'all visits of a thread to a line (2 with 2 preemptions)' if tier == 'thorough' else 'the first two visits of a thread to a line (the first one in the pairs and with three threads)',
            'calls': '%d kinds; %s, plus registration/visibility histories'
                     % (len(ops()), 'for every leaf type, class and container kind two loads and two dumps with different data; all unordered pairs' if tier == 'thorough' else 'all pairs with one of ' + str(CORE)),
            'options': 'calls with and without each option, for 13 kinds of values', 'first use': 'the calls above as the first ones of a process (each schedule in a process of its own)',
            'state': 'a fresh fork per schedule; the global state (in a fresh process per schedule) for the '
                     'registration scenarios'}


class Op:
    """One call; atoms: the values it consists of, each of which must fit into the sequential order."""

    def __init__(self, name, call, atoms=None, quiet=True, weight=1):
        self.name = name
        self.call = call                                # kw -> result, or list of atom results
        self.atoms = atoms or [lambda kw: [call(kw)]]
        self.multi = atoms is not None
        self.weight = weight


def F(name):
    return regmodel.Fn(name)


def ops():
    L = []

    def op(name, call, atoms=None, weight=1):
        L.append(Op(name, call, atoms, weight=weight))
    utc = timezone.utc
    op('dB', lambda kw: jsons.dump(B(1), **kw))
    op('dBB', lambda kw: jsons.dump([B(1), M(2)], **kw),
       [lambda kw: [jsons.dump(B(1), **kw)], lambda kw: [jsons.dump(M(2), **kw)]])
    op('dDC', lambda kw: jsons.dump(DC(1, 'x'), DC, strict=True, **kw))
    op('dKT', lambda kw: jsons.dump({'a_b': NT(1, 'x'), 'c': Color.RED}, key_transformer=jsons.KEY_TRANSFORMER_CAMELCASE,
                                    **kw))
    op('dV', lambda kw: jsons.dump(Slots(1, 'x'), verbose=jsons.Verbosity.WITH_CLASS_INFO, **kw))
    op('dopt', lambda kw: jsons.dump(DC(1, 'x'), strip_attr='a', strip_nulls=True, **kw))
    op('ddict', lambda kw: jsons.dump({(1, 2): 'v', datetime(2020, 1, 2, tzinfo=utc): [1]}, **kw))
    op('lB', lambda kw: jsons.load(nj, B, **kw))
    op('lBM', lambda kw: list(jsons.load([nj, nj], Tuple[B, M], **kw)),
       [lambda kw: [jsons.load(nj, B, **kw)], lambda kw: [jsons.load(nj, M, **kw)]])
    op('lU', lambda kw: jsons.load('5', Union[str, int], **kw))
    op('lU2', lambda kw: jsons.load('5', Union[int, str], **kw))
    op('lfail', lambda kw: jsons.load(['x'], List[int], **kw))
    op('lstrict', lambda kw: jsons.load({'a': 1, 'b': 'x', 'z': 1}, DC, strict=True, **kw))
    op('lD', lambda kw: jsons.load({'k': [{'a': 1, 'b': 'x'}]}, Dict[str, List[DC]], **kw))
    op('lmeta', lambda kw: jsons.load({'a': 1, 'b': 'x', '-meta': {'classes': {'/': 'ucls.Slots'}}}, **kw))
    op('ltext', lambda kw: jsons.loads('{"a": ["2020-01-02T03:04:05Z", 1, null]}', **kw))
    op('js', lambda kw: JS.from_json({'a': '1', 'b': 'x'}).json)
    op('fork', lambda kw: jsons.dump(B(1), fork_inst=jsons.fork(**kw)))
    op('rsB', lambda kw: jsons.set_serializer(F('sB'), B, **kw))
    op('rsA', lambda kw: jsons.set_serializer(F('sA'), A, **kw))
    op('rdB', lambda kw: jsons.set_deserializer(F('dB'), B, **kw))
    op('rdX', lambda kw: jsons.set_deserializer(F('dX'), X, False, **kw))
    op('rv', lambda kw: jsons.set_validator(no, B, **kw))
    op('ann', lambda kw: jsons.announce_class(DC, 'some.name', **kw))
    op('lann', lambda kw: jsons.load({'a': 1, 'b': 'x', '-meta': {'classes': {'/': 'some.name'}}}, **kw))
    op('sup', lambda kw: jsons.suppress_warning('datetime-without-tz', **kw))
    op('dnaive', lambda kw: jsons.dump(datetime(2020, 1, 2), **kw))
    op('lnone', lambda kw: jsons.load(None, None, **kw))
    op('lnull', lambda kw: jsons.load([None, 1, None], List[Optional[int]], **kw))
    op('get', lambda kw: getattr(jsons.get_serializer(B, **kw), '__name__', 0))
    return L


def no(o):
    raise ValueError('no')


OPS = {}


def prepare(tier):
    OPS.update({o.name: o for o in ops()})


REGS = ('rsB', 'rsA', 'rdB', 'rdX', 'rv', 'ann', 'sup')
# which calls may depend on which registrations: only to pick scenarios, never to judge
CORE = ('dB', 'lB', 'rsB', 'rdB')

HISTORIES = [
    [('rsB', 'dB'), ('dB',)], [('rsB', 'dB'), ('dBB',)], [('rsB', 'dB'), ('rsA', 'dB')], [('rsA', 'dB'), ('rsB', 'dB')],
    [('rdB', 'lB'), ('lB',)], [('rdB', 'lB'), ('lBM',)], [('rdB', 'lBM'), ('lfail',)], [('rsB', 'get'), ('get', 'dB')],
    [('rsA', 'rsB', 'dB'), ('dB',)], [('rv', 'lB'), ('lB',)], [('rsB', 'fork'), ('dB',)], [('rsB',), ('fork', 'dB')],
    [('ann', 'lann'), ('lann',)], [('rsB', 'dBB'), ('lfail',)], [('rdB', 'lB'), ('dB', 'dB')],
    [('rsB', 'dB'), ('rdB', 'lB')], [('dB', 'dB'), ('rsB',)], [('lB', 'lB'), ('rdB',)], [('lB', 'lB'), ('rv',)],
]
THREE = [[('rsB', 'dB'), ('dB',), ('lfail',)], [('rsB',), ('rsA',), ('dB',)], [('dB',), ('lB',), ('js',)],
         [('rdB', 'lB'), ('lB',), ('dB',)]]
GLOBAL = [[('rsB', 'dB'), ('dB',)], [('rdB', 'lB'), ('lB',)], [('rsB',), ('rsA', 'dB')], [('rv', 'lB'), ('lB',)]]


def typeops():
    """For every type: two calls of the same kind with different data, which must not get mixed up."""
    ts = [t for t in universe.LEAVES + universe.OBJECTS if t.name not in ('None', 'Empty', 'Wide')]
    i, s, d = universe.LEAF['int'], universe.LEAF['str'], universe.OBJ['DC']
    for c in universe.UNARY:
        ts.append(c(i if c in (universe.Set_, universe.FrozenSet_) else d))
    ts += [universe.Tuple_(i, s), universe.union_of(i, universe.List_(d)), universe.obj_of('Dc', universe.List_(d), s)]
    for t in ts:
        (v1, j1), (v2, j2) = (t.vals[-1], t.vals[-2]) if len(t.vals) > 1 else (t.vals[0], t.vals[0])
        for n, v, j in (('1', v1, j1), ('2', v2, j2)):
            OPS['D%s:%s' % (n, t.name)] = Op('D' + t.name, lambda kw, v=v, t=t: jsons.dump(v, t.tp, **kw))
            OPS['L%s:%s' % (n, t.name)] = Op('L' + t.name, lambda kw, j=j, t=t: jsons.load(j, t.tp, **kw))
        yield t.name


def optops():
    """For every kind of value: calls with different options, none of which may see those of the other."""
    import universe as u
    node = u.OBJ['Node'].vals[-1][0] if 'Node' in u.OBJ else None
    values = {
        'NT': (NT(1, 'x'), {'a': '1', 'b': 'x'}, NT), 'DC': (DC(1, None), {'a': '1', 'b': 'x'}, DC), 'Slots': (Slots(1, 'x'), {'a': 1, 'b': 'x'}, Slots), 'Node': (node, None, None), 'list': ([DC(1, 'x'), NT(2, None)], [{'a': '1', 'b': 'x'}] * 2, List[DC]),
        'tuple': ((DC(1, 'x'), NT(2, None)), [{'a': '1', 'b': 'x'}] * 2, Tuple[DC, NT]), 'dict': ({'k_l': DC(1, 'x'), 'm_n': None, 'o': Color.RED}, {'k_l': {'a': '1', 'b': 'x'}, 'm_n': {'a': '2', 'b': 'y'}}, Dict[str, DC]),
        'keys': ({(1, 2): DC(1, 'x'), Color.RED: 1, 'z_z': 2}, None, None), 'enum': ([Color.RED, Color.GREEN], ['RED', 'GREEN'], List[Color]), 'union': (None, ['1', {'a': '1', 'b': 'x'}], List[Union[int, DC]]),
        'optional': (None, [None, {'a': '1', 'b': 'x'}], List[Optional[DC]]), 'set': ({1, 2}, None, None), 'failing': ([DC(1, 'x')], ['1', 'x', '2'], List[int]),
    }
    dopts = {'kt': {'key_transformer': str.upper}, 'nulls': {'strip_nulls': True}, 'strict': {'strict': True}, 'attr': {'strip_attr': 'a'}, 'verbose': {'verbose': jsons.Verbosity.WITH_CLASS_INFO},
             'priv': {'strip_privates': True, 'strip_properties': True, 'strip_class_variables': True}, 'enum': {'use_enum_name': False}, 'plain': {}}
    lopts = {'kt': {'key_transformer': str.lower}, 'strict': {'strict': True}, 'getters': {'attr_getters': {'b': lambda: 'got'}}, 'warn': {'warn_on_fail': True}, 'plain': {}}
    for n, (v, j, tp) in values.items():
        if v is not None:
            for o, kw0 in dopts.items():
                OPS['O:%s:%s' % (o, n)] = Op('O', lambda kw, v=v, k=kw0: jsons.dump(v, **{**k, **kw}))
            yield [('O:%s:%s' % (o, n), 'O:plain:%s' % n) for o in dopts if o != 'plain']
            yield [('O:%s:%s' % (o, n), 'O:%s:%s' % (q, n)) for o, q in zip(list(dopts), list(dopts)[2:]) if q != 'plain']
        if j is not None:
            for o, kw0 in lopts.items():
                OPS['P:%s:%s' % (o, n)] = Op('P', lambda kw, j=j, tp=tp, k=kw0: jsons.load(j, tp, **{**k, **kw}))
            yield [('P:%s:%s' % (o, n), 'P:plain:%s' % n) for o in lopts if o != 'plain']


def cases(tier):
    prepare(tier)
    for ps in optops():
        for a, b in ps:
            if tier != 'thorough' and b[2:].split(':')[0] != 'plain' and a.split(':')[2] in ('set', 'tuple', 'enum'):
                continue
            yield Case('options:%s|%s' % (a, b), ('fork', [(a,), (b,)], 1, (0, 1)))
    for n in typeops():
        yield Case('type:load:' + n, ('fork', [('L1:' + n,), ('L2:' + n,)], 1, (0, 1)))
        yield Case('type:dump:' + n, ('fork', [('D1:' + n,), ('D2:' + n,)], 1, (0, 1)))
        if tier == 'thorough':
            yield Case('type:both:' + n, ('fork', [('D1:' + n, 'L1:' + n), ('L2:' + n, 'D2:' + n)], 1, (0, 1)))
    # the first calls of a process: every schedule from the state right after the import
    colds = [o for o in OPS if ':' not in o] + [k + ':' + n for n in ('datetime', 'Color', 'DC', 'NT', 'List[DC]', 'Dict[str,DC]', 'Set[int]', 'timezone', 'complex', 'Path', 'Decimal', 'Optional[DC]', 'Tuple[int,str]', 'FrozenSet[int]') for k in ('L1', 'D1')]
    if tier != 'thorough':
        colds = ['dDC', 'dKT', 'dV', 'ddict', 'lBM', 'lfail', 'lstrict', 'lmeta', 'ltext', 'lnone', 'lnull', 'dnaive', 'sup', 'ann', 'rv', 'dB', 'lB', 'lU', 'lD', 'js', 'fork', 'get', 'L1:datetime', 'D1:datetime', 'L1:Color', 'L1:NT', 'L1:timezone', 'L1:Set[int]', 'L1:Optional[DC]', 'L1:complex']
    else:
        colds = [o for o in OPS if o[:3] not in ('L2:', 'D2:')]
    for o in colds:
        if o in OPS:
            yield Case('cold:' + o, ('cold', [(o,), (o.replace('1:', '2:', 1),)], 1, (0, 1)))
    for a, b in (('dB', 'lB'), ('ltext', 'lD'), ('dKT', 'dV'), ('js', 'lmeta'), ('lnone', 'lU')):
        if a in OPS and (tier == 'thorough' or a == 'js'):
            yield Case('cold:%s|%s' % (a, b), ('cold', [(a,), (b,)], 1, (0, 1)))
    deep = tier == 'thorough'
    names = [n for n in OPS if ':' not in n]
    for i, a in enumerate(names):
        for b in names[i:]:
            if not deep and not {a, b} & set(CORE):
                continue
            n = 2
            for k in range(n):
                yield Case('pair:%s|%s:%d' % (a, b, k), ('fork', [(a,), (b,)], 1, (k, n)))
    for k, h in enumerate(HISTORIES):
        for s in range(2):
            yield Case('hist:%d:%d' % (k, s), ('fork', h, 1, (s, 2)))
    for k, h in enumerate(THREE):
        for s in range(4):
            yield Case('three:%d:%d' % (k, s), ('fork', h, 1, (s, 4)))
    for k, h in enumerate(GLOBAL):
        for s in range(8):
            yield Case('global:%d:%d' % (k, s), ('global', h, 1, (s, 8)))
    if deep:
        for k, h in enumerate(HISTORIES):
            for s in range(64):
                yield Case('two:%d:%d' % (k, s), ('fork', h, 2, (s, 64)))


def result(fn):
    try:
        return ('ok', fn())
    except jsons.exceptions.JsonsError as e:
        return ('err', type(e).__name__, str(e))
    except sched.Deadlock:
        raise
    except Exception as e:
        return ('other', type(e).__name__, str(e))


def show(o, r):
    """The atoms of a result, comparable."""
    if r[0] == 'ok' and o.multi:
        if type(r[1]) is list and len(r[1]) == len(o.atoms):
            return tuple(('ok', snap(x)) for x in r[1])
        return (('ok', snap(r[1])),)
    if r[0] == 'ok':
        return (('ok', snap(r[1])),)
    return (r,)


def orders(threads):
    """All interleavings of the atoms; an atom is (thread, call, atom)."""
    seqs = [[(t, c, a) for c, name in enumerate(th) for a in range(len(OPS[name].atoms))] for t, th in enumerate(threads)]

    def rec(pos):
        if all(p == len(s) for p, s in zip(pos, seqs)):
            yield ()
            return
        for t, s in enumerate(seqs):
            if pos[t] < len(s):
                nxt = list(pos)
                nxt[t] += 1
                for rest in rec(nxt):
                    yield (s[pos[t]],) + rest
    return list(rec([0] * len(threads)))


def sequential(threads, order, kw):
    """Run the atoms one after the other; result per atom."""
    res = {}
    stop = set()
    for t, c, a in order:
        if (t, c) in stop:
            continue
        o = OPS[threads[t][c]]
        r = result(lambda: o.atoms[a](kw))
        if r[0] == 'ok':
            res[(t, c, a)] = ('ok', snap(r[1][0]))
        else:
            res[(t, c, a)] = r
            stop.add((t, c))        # the call ends with its first failing value
    return res


def allowed(threads, mode):
    res = []
    for order in orders(threads):
        def go(order=order):
            with caught():
                return sequential(threads, order, {'fork_inst': jsons.fork()} if mode == 'fork' else {})
        res.append((order, forked(go)))
    return res


class Clock:
    def __init__(self):
        self.t = 0

    def tick(self):
        self.t += 1
        return self.t


def scenario(threads, mode):
    def run():
        kw = {'fork_inst': jsons.fork()} if mode == 'fork' else {}
        clock = Clock()
        log = {}

        def body(t):
            for c, name in enumerate(threads[t]):
                start = clock.tick()
                r = result(lambda: OPS[name].call(kw))
                log[(t, c)] = (start, clock.tick(), r)
        ths = [sched.CtlThread(target=body, args=(t,)) for t in range(len(threads))]
        with caught():
            for th in ths:
                th.start()
            sched.join_all(ths)
        return {k: (s, e, show(OPS[threads[k[0]][k[1]]], r)) for k, (s, e, r) in log.items()}
    return run


def linearizable(threads, log, allow):
    if len(log) != sum(len(t) for t in threads):
        return False
    prec = [(x, y) for x in log for y in log if log[x][1] < log[y][0]]
    for order, res in allow:
        pos = {}
        for i, (t, c, a) in enumerate(order):
            pos.setdefault((t, c), []).append(i)
        if any(max(pos[x]) > min(pos[y]) for x, y in prec):
            continue
        ok = True
        for (t, c), (_, _, got) in log.items():
            want = []
            for a in range(len(OPS[threads[t][c]].atoms)):
                if (t, c, a) in res:
                    want.append(res[(t, c, a)])
            if want and want[-1][0] != 'ok':
                want = want[-1:]
            if tuple(want) != tuple(got):
                ok = False
                break
        if ok:
            return True
    return False


def run(ctx, args):
    mode, threads, bound, shard = args
    visits = (2 if bound > 1 else None) if ctx.thorough else 2 if ctx.case_id.startswith(('hist', 'cold', 'type', 'options')) else 1
    allow = allowed(threads, mode)
    name = ' || '.join(';'.join(t) for t in threads)
    sc = scenario(threads, mode)
    n = 0
    if mode == 'fork':
        seq = sched.explore(sc, bound, shard, visits=visits)
    else:
        seq = explore_forked(sc, bound, shard, visits, all(t == threads[0] for t in threads))
    for dev, log, points in seq:
        n += 1
        ctx.trace()
        ctx.step(points if isinstance(points, int) else points.points)
        res = tuple(sorted((k, v[2]) for k, v in log.items()))
        ctx.state(name, res)
        ctx.outcome(sum(x[0] == 'ok' for v in log.values() for x in v[2]))
        if not linearizable(threads, log, allow):
            ctx.fail('%s %s|%s' % (mode, name, res),
                     'schedule %s of %s: results %s fit no sequential order of the calls' % (dev, name, log),
                     allowed=allow[:6])
            break
    ctx.sample('%s: %d schedules' % (name, n))


def explore_forked(sc, bound, shard, visits, same=False):
    """Like sched.explore, every schedule in a forked child (it changes the global state).
    same: the threads do the same, so that it does not matter which of them is the first one."""
    stack = [()]
    k, n = shard
    while stack:
        dev = stack.pop()

        def go():
            s = sched.Sched(dev, bound, visits=visits)
            res = s.run(sc)
            return res, s.alts, s.used, s.points
        log, alts, used, points = forked(go)
        children = []
        for i, opts, cost in alts:
            if used + cost > bound or (cost and not used and i % n != k):
                continue
            if same and not cost and not used:
                continue
            children.extend(dev + ((i, c),) for c in range(1, opts))
        stack.extend(reversed(children))
        if used or k == 0:
            yield dev, log, points
