"""C07 parallel (tasks) loading and dumping equals sequential, in every schedule."""
import collections
import enum
import itertools
import re
import warnings
from dataclasses import dataclass
from datetime import datetime, timezone
from multiprocessing import Process
from threading import Thread
from typing import Deque, Dict, FrozenSet, Iterable, List, NamedTuple, Optional, Sequence, Set, Tuple, Union

import jsons
from jsons import Verbosity
import sched
from core import Case
from lib import caught
from universe import snap
import ucls
from ucls import *  # noqa

PROPERTY = 'C07'
ASSUMPTIONS = ['tasks do not die (KeyboardInterrupt, SystemExit); errors and results of Process tasks can be pickled',
               'the sequential outcome (tasks=1) is the reference; its correctness is decided by C01, C10, C22',
               'real processes share nothing but the result list: their runs are enumerated over inputs, not schedules']


def BOUNDS(tier):
    return {'controlled threads': 'every line of jsons is a scheduling point; all schedules with at most %d preemption(s)'
                                  % (2 if tier == 'thorough' else 1),
            'block-level schedules': 'orders in which tasks can run as a whole (all for 2 and 3 tasks; in the quick tier the first 30 for more), '
                                     'for every length up to %d, number of '
                                     'tasks up to length+2, every set of failing elements, warn_on_fail on/off' % maxlen(tier),
            'sizes': 'lengths up to 40, tasks up to 45, serial and reverse order of the tasks',
            'options': 'every pair of dump options (%d) and of load options (%d) x containers x tasks x order' % (len(DOPTS), len(LOPTS)),
            'processes': 'in-process Process tasks in every order; real processes for a grid of lengths and tasks'}


def maxlen(tier):
    return 5 if tier == 'thorough' else 4


@dataclass
class E:
    a: int
    b: Optional[datetime] = None


@dataclass
class Box:
    items: List[int]
    name: str = 'n'


class Odd:
    def __init__(self, v: int):
        self.v = v

    def __eq__(self, other):
        return type(other) is Odd and self.v == other.v

    def __hash__(self):
        return hash(self.v)


class Bad:
    """Cannot be dumped."""

    def __init__(self, v):
        self.v = v

    def __hash__(self):
        return hash(self.v)

    def __eq__(self, o):
        return type(o) is Bad and o.v == self.v


class Halt(Exception):
    pass


for _c in (E, Box, Odd, Bad):
    _c.__module__ = 'ucls'
    setattr(ucls, _c.__name__, _c)


def odd_des(j, cls, **kw):
    if j == 'json':
        raise jsons.exceptions.JsonsError('plain jsons error')
    if not isinstance(j, int):
        raise ValueError('no int: %s' % (j,))
    return Odd(j)


def bad_ser(o, **kw):
    raise ValueError('cannot dump %s' % o.v)


def validate_e(e):
    if e.a == 13:
        raise ValueError('thirteen')
    return True


def setup():
    jsons.set_deserializer(odd_des, Odd)
    jsons.set_serializer(bad_ser, Bad)
    jsons.set_validator(validate_e, E)


def outcome(fn, strict_err=True):
    """Result or error with everything a caller sees, and the warnings in order."""
    with caught() as w:
        try:
            r = ('ok', snap(fn()))
        except jsons.exceptions.JsonsError as e:
            r = ('err', type(e).__name__, str(e), type(e.__cause__).__name__ if strict_err else '')
            if strict_err:
                r += (snap(getattr(e, 'source', None)), repr(getattr(e, 'target', None)))
        except sched.Deadlock:
            r = ('deadlock',)
        except Exception as e:
            r = ('other', type(e).__name__, str(e))
    return r, [str(x.message) for x in w]


# the elements that fail and those that do not, per element type
OKBAD = {
    'int': (int, [1, '2', 3, 4.0, 5, 6], ['x', 'y', [], 'z', {}, '']),
    'E': (E, [{'a': i} for i in range(6)], [{}, {'a': 'x'}, None, {'a': 13}, 5, []]),
    'Odd': (Odd, [0, 1, 2, 3, 4, 5], ['x', 'json', [], None, 'json', 'y']),
    'List[int]': (List[int], [[1], [2, 3], [], ['4'], [5], [6]], [['x'], [1, 'x'], None, 5, [[]], [1, 2, 'q']]),
}


def elements(name, n, fails):
    tp, ok, bad = OKBAD[name]
    return tp, [bad[i % 6] if i in fails else ok[i % 6] for i in range(n)]


def subsets(n):
    for r in range(n + 1):
        yield from (set(c) for c in itertools.combinations(range(n), r))


def check(ctx, key, seq, fn, bound=0, shard=(0, 1), unordered=False, limit=None):
    """fn(task_type) under every schedule; compare with the outcome of the sequential run."""
    if unordered:
        seq = (seq[0], sorted(seq[1]))
    runs = 0
    for dev, got, s in sched.explore(lambda: outcome(lambda: fn(sched.CtlThread)), bound, shard, limit):
        runs += 1
        ctx.trace()
        ctx.step(s.points)
        if unordered:
            got = (got[0], sorted(got[1]))
        if got != seq:
            ctx.fail(key + '|' + str(dev), 'schedule %s: parallel gives %r, sequential gives %r' % (dev, got, seq))
            break
    ctx.state(key, shard)
    ctx.outcome(seq[0][0] + ('+warn' if seq[1] else ''))
    return runs


# --------------------------------------------------------------------- scenarios explored with preemptions

def scenarios():
    nt = [{'a': 1, 'b': None}, {'a': 'x'}]
    dt = datetime(2020, 1, 2, tzinfo=timezone.utc)
    S = {}

    def load(name, src, tp, tasks=2, deep=False, **kw):
        S[name] = (lambda t: jsons.load(src, tp, tasks=tasks, task_type=t, **kw),
                   lambda: jsons.load(src, tp, **kw), deep)

    def dump(name, v, tasks=2, deep=False, cls=None, **kw):
        S[name] = (lambda t: jsons.dump(v, cls, tasks=tasks, task_type=t, **kw),
                   lambda: jsons.dump(v, cls, **kw), deep)
    load('ints', ['1', '2'], List[int])
    dump('dints', (1, 2), deep=True)
    load('ints3', [1, '2', '3'], List[int], tasks=3)
    load('one fails', ['1', 'x', 'y'], List[int], deep=False)
    load('skips', ['1', 'x', 'y', '4'], List[int], warn_on_fail=True)
    load('objects', [{'a': 1}, {'a': 2, 'b': '2020-01-02T03:04:05Z'}], List[E])
    load('object fails', [{'a': 1}, {'b': None}], List[E])
    load('nested', [['1', 'x']], List[List[int]], tasks=3)
    load('nested2', [['1'], ['2']], List[Set[int]], tasks=3)
    load('set', ['1', '2'], Set[int])
    load('from set', {1, 2, 3}, List[float])
    load('from str', 'abc', List[str])
    load('sequence', ['1', '2', '1'], Sequence[Union[int, str]])
    load('deque', ['1', '2'], Deque[float])
    load('untyped', ['2020-01-02T03:04:05Z', {'a': [1]}], list)
    load('dicts', [{'k': '1'}, {'k': '2'}], List[Dict[str, int]])
    load('strict', [{'a': 1}, {'a': 1, 'zz': 2}], List[E], strict=True)
    load('field', {'items': ['1', '2'], 'name': 'q'}, Box)
    load('custom', [1, 'json', 'x'], List[Odd], warn_on_fail=True)
    dump('tuple', (E(1, dt), E(2, None)))
    dump('tuple cls', (E(1, dt), 5), cls=Tuple[E, int])
    dump('deque', collections.deque([E(1), E(2), 3]))
    dump('naive', (E(1, datetime(2020, 1, 2)), datetime(2020, 1, 2)), unordered=True)
    dump('bad', (1, Bad(2), Bad(3)))
    dump('nested t', ((E(3), 4),), tasks=3)
    dump('strict t', (E(1), E(2)), strict=True)
    dump('mixed', ([Odd(1)], {'k': (Odd(2), 3)}, 'x'), key_transformer=jsons.KEY_TRANSFORMER_CAMELCASE)
    return S


def cases(tier):
    deep = tier == 'thorough'
    for name in scenarios():
        for k in range(4):
            yield Case('preempt1:%s:%d' % (name, k), ('pre', name, 1, (k, 4)))
    for name, (_, _, d) in scenarios().items():
        if deep:
            n = 64 if d else 32
            for k in range(n):
                yield Case('preempt2:%s:%d' % (name, k), ('pre', name, 2, (k, n)))
    for el in OKBAD:
        for n in range(0, maxlen(tier) + 1):
            for tasks in range(2, n + 3):
                yield Case('block:%s:%d:%d' % (el, n, tasks), ('block', el, n, tasks))
    for n in range(0, maxlen(tier) + 1):
        for tasks in range(2, n + 3):
            yield Case('dblock:%d:%d' % (n, tasks), ('dblock', n, tasks))
    for n in (5, 6, 7, 8, 9, 11, 13, 16, 25, 40):
        yield Case('size:%d' % n, ('size', n))
    for kind, table in (('dump', DOPTS), ('load', LOPTS)):
        for first in table:
            yield Case('options:%s:%s' % (kind, first), ('options', kind, first))
    for n in range(0, 6):
        yield Case('inproc:%d' % n, ('inproc', n))
    for tasks in (2, 3, 4, 9):
        for n in (0, 1, 2, 3, 5, 7):
            yield Case('process:%d:%d' % (tasks, n), ('process', tasks, n))
            yield Case('thread:%d:%d' % (tasks, n), ('thread', tasks, n))


# --------------------------------------------------------------------- options reach the elements

class Col(enum.Enum):
    RED_ISH = 'red'


class Opt:
    cls_var = 5

    def __init__(self, some_name: Optional[int] = None, when: Optional[datetime] = None, col: Optional[Col] = None):
        self.some_name = some_name
        self._priv = 1
        self.when = when
        self.col = col

    @property
    def a_prop(self):
        return 'p'


class Tagged:
    def __init__(self, v):
        self.v = v

    def __hash__(self):
        return hash(self.v)


for _c in (Opt, Tagged, Col):
    _c.__module__ = 'ucls'
    setattr(ucls, _c.__name__, _c)


def tag_ser(o, **kw):
    return {'v': o.v, 'own_option': repr(kw.get('own_option')), 'fork': repr(kw.get('fork_inst'))}


def tag_des(j, cls, **kw):
    r = Tagged(j)
    r.own_option = repr(kw.get('own_option'))
    r.fork = repr(kw.get('fork_inst'))
    return r


def fork_of():
    f = jsons.fork(name='OptFork')
    jsons.set_serializer(lambda o, **kw: 'forked %s' % o.v, Tagged, fork_inst=f)
    jsons.set_deserializer(lambda j, cls, **kw: Opt(some_name=77), Opt, fork_inst=f)
    jsons.suppress_warnings(fork_inst=f)
    return f


DOPTS = {'none': {}, 'nulls': {'strip_nulls': True}, 'privates': {'strip_privates': True},
         'props': {'strip_properties': True}, 'clsvars': {'strip_class_variables': True},
         'attr': {'strip_attr': ('some_name', 'cls_var')}, 'camel': {'key_transformer': jsons.KEY_TRANSFORMER_CAMELCASE},
         'verbose': {'verbose': Verbosity.WITH_CLASS_INFO}, 'everything': {'verbose': Verbosity.WITH_EVERYTHING},
         'strict': {'strict': True}, 'micros': {'strip_microseconds': True}, 'enum': {'use_enum_name': False},
         'own': {'own_option': 'zz'}, 'fork': {'fork_inst': None}}
LOPTS = {'none': {}, 'camel': {'key_transformer': jsons.KEY_TRANSFORMER_SNAKECASE}, 'strict': {'strict': True},
         'warn': {'warn_on_fail': True}, 'getters': {'attr_getters': {'some_name': lambda: 99}},
         'enum': {'use_enum_name': False}, 'enumname': {'use_enum_name': True},
         'own': {'own_option': 'zz'}, 'fork': {'fork_inst': None}}


def blur(x):
    """The outcome without the time of the dump."""
    return re.sub(r"'dump_time'.{0,40}?\d{4}-[^']*'", "'dump_time'", repr(x))


def do_options(ctx, kind, first):
    table = DOPTS if kind == 'dump' else LOPTS
    f = fork_of()
    jsons.set_serializer(tag_ser, Tagged)
    jsons.set_deserializer(tag_des, Tagged)
    dt = datetime(2020, 1, 2, 3, 4, 5, 678901, tzinfo=timezone.utc)
    for second in table:
        kw = {**table[first], **table[second]}
        if 'fork_inst' in kw:
            kw['fork_inst'] = f
        if kind == 'dump':
            elems = [Opt(), Tagged(1), Opt(3, dt, Col.RED_ISH), {'a_key': None, 'b_key': dt}, (Opt(4), Tagged(2)), dt, Col.RED_ISH]
            work = [(make.__name__, (lambda m, n: lambda **k: jsons.dump(m(elems[:n]), **kw, **k))(make, n), n)
                    for make in (tuple, collections.deque, list, lambda e: {'in_here': tuple(e)}) for n in (1, 2, 7)]
            same = [Opt(), Opt(3, dt), Opt(5)]
            work += [(str(c), (lambda c: lambda **k: jsons.dump(tuple(same), c, **kw, **k))(c), 3)
                     for c in (Tuple[Opt, Opt, Opt], None)]
        else:
            elems = [{'someName': 1}, {'some_name': '2', 'col': 'RED_ISH'}, {}, {'col': 'red'},
                     {'some_name': 3, 'bogus': 1, 'when': '2020-01-02T03:04:05Z'}, 'x']
            work = [('%s[%s]' % (t, e), (lambda t, src: lambda **k: jsons.load(src, t, **kw, **k))(t[e], src), len(src))
                    for t in (List, Deque, Iterable) for e, src in
                    ((Opt, elems), (Opt, elems[:3]), (Opt, elems[3:]), (Tagged, ['q', 1, None]), (List[Opt], [elems[:2], elems[2:]]))]
        for name, fn, n in work:
            want = blur(outcome(fn))
            ctx.outcome(want[:8])
            for tasks in sorted({2, 3, n, n + 2} - {0, 1}):
                for tt in (Serial, Late):
                    key = 'options %s %s tasks=%d %s: %s+%s' % (kind, name, tasks, tt.__name__, first, second)
                    got = blur(outcome(lambda: fn(tasks=tasks, task_type=tt)))
                    ctx.state(key)
                    ctx.expect(got == want, key, '%s: parallel gives %s, sequential gives %s' % (key, got, want))


class Serial(Thread):
    """Runs everything at start(): a legal schedule."""

    def start(self):
        self._target(*self._args, **self._kwargs)

    def join(self, timeout=None):
        pass


class Late(Thread):
    """Runs everything when the first one is joined, the last task first."""
    pending = []

    def start(self):
        Late.pending.append(self)

    def join(self, timeout=None):
        while Late.pending:
            t = Late.pending.pop()
            t._target(*t._args, **t._kwargs)


class InProc(Process):
    """A Process task that runs in this process (through the same managed list), in a given order."""
    pending = []
    order = (0,)

    def start(self):
        InProc.pending.append(self)

    def join(self, timeout=None):
        todo, InProc.pending = InProc.pending, []
        for i in sorted(range(len(todo)), key=lambda i: InProc.order[i % len(InProc.order)]):
            todo[i]._target(*todo[i]._args, **todo[i]._kwargs)


def run(ctx, args):
    setup()
    globals()['do_' + args[0]](ctx, *args[1:])


def do_pre(ctx, name, bound, shard):
    par, seq, _ = scenarios()[name]
    want = outcome(seq)
    n = check(ctx, name, want, par, bound, shard, unordered=name == 'naive')
    ctx.sample('%s: %d schedules with <= %d preemptions, all give %s' % (name, n, bound, str(want)[:200]))


def do_block(ctx, el, n, tasks):
    for fails in subsets(n):
        tp, src = elements(el, n, fails)
        for kw in ({}, {'warn_on_fail': True}):
            for lt in ((List[tp],) if n == 0 or len(fails) > 1 else (List[tp], Iterable[tp])):
                seq = outcome(lambda: jsons.load(src, lt, **kw))
                check(ctx, 'block %s %s tasks=%d %s' % (src, lt, tasks, kw), seq,
                      lambda t: jsons.load(src, lt, tasks=tasks, task_type=t, **kw),
                      limit=None if tasks < 4 or ctx.thorough else 30)


def dvalues(n, fails):
    vals = [1, E(2), 'x', Odd(3), (4, E(5)), [6]]
    return [Bad(i) if i in fails else vals[i % 6] for i in range(n)]


def do_dblock(ctx, n, tasks):
    for fails in subsets(n):
        if len(fails) > 2:
            continue
        vals = dvalues(n, fails)
        for make in (tuple, collections.deque, list):
            v = make(vals)
            for kw in ({}, {'strict': True}):
                seq = outcome(lambda: jsons.dump(v, **kw))
                check(ctx, 'dblock %s %s %s tasks=%d %s' % (make.__name__, n, sorted(fails), tasks, kw), seq,
                      lambda t: jsons.dump(v, tasks=tasks, task_type=t, **kw),
                      limit=None if tasks < 4 or ctx.thorough else 30)
        if not fails:
            s = {1, 'x', 2.5, None, E.__name__, frozenset((1,))} if n > 4 else set(range(n))
            seq = outcome(lambda: jsons.dump(s))
            check(ctx, 'dblock set %d tasks=%d' % (n, tasks), seq,
                  lambda t: jsons.dump(frozenset(s), tasks=tasks, task_type=t), limit=30)


def compare(ctx, key, par, seq, strict_err=True):
    want = outcome(seq, strict_err)
    got = outcome(par, strict_err)
    ctx.state(key)
    ctx.outcome(want[0][0] + ('+warn' if want[1] else ''))
    ctx.expect(got == want, key, '%s: parallel gives %r, sequential gives %r' % (key, got, want))


def do_size(ctx, n):
    tasks_ = sorted({2, 3, 4, 5, 7, n // 2, n - 1, n, n + 1, n + 5} - {0, 1})
    for tasks in tasks_:
        for fails in [set()] + [{i} for i in range(n)] + [{n - 1, 0}, {n // 2, n - 1}]:
            for el in ('int', 'List[int]'):
                tp, src = elements(el, n, fails)
                src = [i if x in (1, '2', 3, 4.0, 5, 6) else x for i, x in enumerate(src)]
                for tt in (Serial, Late):
                    for kw in ({}, {'warn_on_fail': True}):
                        compare(ctx, 'size %d tasks=%d fails=%s %s %s %s' % (n, tasks, sorted(fails), el, tt.__name__, kw),
                                lambda: jsons.load(src, List[tp], tasks=tasks, task_type=tt, **kw),
                                lambda: jsons.load(src, List[tp], **kw))
            vals = tuple(Bad(i) if i in fails else i for i in range(n))
            for tt in (Serial, Late):
                compare(ctx, 'size dump %d tasks=%d fails=%s %s' % (n, tasks, sorted(fails), tt.__name__),
                        lambda: jsons.dump(vals, tasks=tasks, task_type=tt), lambda: jsons.dump(vals))


def do_inproc(ctx, n):
    for tasks in sorted({2, n, n + 1, n + 2} - {0, 1}):
        for order in itertools.permutations(range(min(n, tasks) or 1)):
            if len(order) > 3 and not ctx.thorough and list(order[1:]) not in (sorted(order[1:]), sorted(order[1:])[::-1]):
                continue
            for fails in ([set()] + [{i} for i in range(min(n, 2))]):
                InProc.order = order
                tp, src = elements('E', n, fails)
                for kw in ({}, {'warn_on_fail': True}):
                    compare(ctx, 'inproc %s tasks=%d order=%s %s' % (src, tasks, order, kw),
                            lambda: jsons.load(src, List[tp], tasks=tasks, task_type=InProc, **kw),
                            lambda: jsons.load(src, List[tp], **kw), False)
                vals = tuple(dvalues(n, fails))
                compare(ctx, 'inproc dump %d %s tasks=%d order=%s' % (n, sorted(fails), tasks, order),
                        lambda: jsons.dump(vals, tasks=tasks, task_type=InProc), lambda: jsons.dump(vals), False)


def real(ctx, tt, tasks, n):
    for el, fails in (('int', set()), ('int', {n - 1}), ('E', {0, n - 1}), ('Odd', {1}), ('List[int]', {n - 1})):
        tp, src = elements(el, n, fails)
        for kw in ({}, {'warn_on_fail': True}):
            compare(ctx, '%s %s tasks=%d %s' % (tt.__name__, src, tasks, kw),
                    lambda: jsons.load(src, List[tp], tasks=tasks, task_type=tt, **kw),
                    lambda: jsons.load(src, List[tp], **kw), tt is Thread)
    tp, src = elements('E', n, set())
    compare(ctx, 'default task type', lambda: jsons.load(src, Iterable[tp], tasks=tasks),
            lambda: jsons.load(src, Iterable[tp]), False)
    for fails in (set(), {n - 1}):
        vals = collections.deque(dvalues(n, fails))
        compare(ctx, '%s dump %s tasks=%d' % (tt.__name__, sorted(fails), tasks),
                lambda: jsons.dump(vals, tasks=tasks, task_type=tt), lambda: jsons.dump(vals), tt is Thread)


def do_process(ctx, tasks, n):
    real(ctx, Process, tasks, n)


def do_thread(ctx, tasks, n):
    real(ctx, Thread, tasks, n)
