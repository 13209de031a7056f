"""C05 registrations apply at once and to exactly the right types."""
import jsons
from core import Case, Ctx
from lib import caught, forked, merge, tree
import regmodel
from regmodel import *  # noqa

PROPERTY = 'C05'
ASSUMPTIONS = ['functions of the alphabet return a constant; classes with equal lower-cased full names are out of scope',
               'sources never hold a value that already has the requested type (it would be passed through, see C28)']


def BOUNDS(tier):
    return {'class hierarchy': 'A<-B<-C, X, M(B,X), Un, int<-MyInt, list<-MyList, NewType, None, object',
            'operations': '%d registrations per kind (class x priority, sequences, None), interrupted call, registration '
                          'from inside a running call' % len(regs()),
            'depth': 'all histories of length %d (probed after each step), length %d (probed only at the end: cold caches)'
                     % ((3, 4) if tier == 'thorough' else (2, 3)),
            'probes': '%d dumps, %d loads, %d get_*' % (len(VALUES), len(SOURCES), 2 * len(GETS)),
            'states': 'global state, fork, JsonSerializable, fork of JsonSerializable'}


def regs():
    res = []
    for c in (A, B, X, M, object, int, list, UserId):
        for hi in (True, False):
            res.append((c, hi))
    res += [((A, X), True), ((X, A), True), ((B, A), False), ([B, X], True), ((C,), True), (None, True)]
    return res


REGS = regs()


def name_of(cls):
    if isinstance(cls, (tuple, list)):
        return type(cls).__name__ + '+'.join(c.__name__ for c in cls)
    return getattr(cls, '__name__', str(cls))


class Killer:
    pass


class Trigger:
    pass


class World:
    """The real fork next to its model; lives in one process, copied by fork()."""

    def __init__(self, target):
        self.target = target
        if target == 'global':
            self.fork = jsons._common_impl.StateHolder if False else None
        elif target == 'fork':
            self.fork = jsons.fork()
        elif target == 'JS':
            self.fork = jsons.JsonSerializable
        else:
            self.fork = jsons.JsonSerializable.fork()
        self.model = Model()
        self.fns = {}
        self.kw = {} if self.fork is None else {'fork_inst': self.fork}
        self.dflt = {(k, c): g(c, **self.kw) for k, g in (('ser', jsons.get_serializer), ('des', jsons.get_deserializer))
                     for c in GETS}

    def register(self, kind, cls, hi):
        fid = '%s%d' % (kind, len(self.fns))
        fn = self.fns[fid] = Fn(fid)
        if self.target in ('JS', 'JSfork'):
            r = (self.fork.set_serializer if kind == 'ser' else self.fork.set_deserializer)(fn, cls, hi)
        else:
            (jsons.set_serializer if kind == 'ser' else jsons.set_deserializer)(fn, cls, hi, **self.kw)
        for c in cls if isinstance(cls, (tuple, list)) else (cls,):
            self.model.set(kind, fid, c, hi)

    def probe(self):
        fi = self.fork
        return probe(self.model, {} if fi is None else {'fork_inst': fi}, self.dflt, self.fns)


W = None


def apply(op):
    kind = op[0]
    if kind in ('ser', 'des'):
        W.register(kind, REGS[op[1]][0], REGS[op[1]][1])
    elif kind == 'warm':
        # leave a warm cache behind: the call is interrupted after everything was looked up
        try:
            jsons.dump([v for _, v in VALUES] + [Killer()], **W.kw)
        except KeyboardInterrupt:
            pass
        try:
            jsons.load([j for _, j, _ in SOURCES] + [1], Tuple[tuple(t for _, _, t in SOURCES) + (Killer,)], **W.kw)
        except KeyboardInterrupt:
            pass
    elif kind == 'failing':
        for fn in (lambda: jsons.load('x', int, **W.kw), lambda: jsons.load({}, B, **W.kw)):
            try:
                fn()
            except jsons.JsonsError:
                pass
    elif kind == 'inside':
        # a registration made by a serializer that is running as part of a dump holds for the rest of that dump
        W.todo = op[1]
        before = W.model.copy()
        r = jsons.dump([B(1), M(2), Trigger(), B(1), M(2), X(3), [C(1)], 5], **W.kw)
        want = [before.dump(B(1)), before.dump(M(2)), 'T'] + [W.model.dump(v) for v in
                                                               (B(1), M(2), X(3), [C(1)], 5)]
        return [('dump with a registration inside', r, want)] if r != want else []
    elif kind == 'linside':
        W.todo = op[1]
        before = W.model.copy()
        r = jsons.load([nj, nj, 1, nj, nj, '5'], Tuple[B, M, Trigger, B, M, int], **W.kw)
        want = ('tuple', [before.load(nj, B), before.load(nj, M), 'T', W.model.load(nj, B), W.model.load(nj, M),
                          W.model.load('5', int)])
        return [('load with a registration inside', norm(r), want)] if norm(r) != want else []
    return []


def trigger_ser(o, **kw):
    W.register('ser', *REGS[W.todo])
    return 'T'


def trigger_des(o, cls, **kw):
    W.register('des', *REGS[W.todo])
    return 'T'


def boom(*a, **kw):
    raise KeyboardInterrupt


def start(target):
    global W
    W = World(target)
    jsons.set_serializer(boom, Killer, **W.kw)
    jsons.set_deserializer(boom, Killer, **W.kw)
    jsons.set_serializer(trigger_ser, Trigger, **W.kw)
    jsons.set_deserializer(trigger_des, Trigger, **W.kw)


def opname(op):
    if op[0] in ('warm', 'failing'):
        return op[0]
    return '%s(%s,%s)' % (op[0], name_of(REGS[op[1]][0]), 'high' if REGS[op[1]][1] else 'low')


def step(ctx, prefix, op, probing=True):
    bad = apply(op)
    hist = ' ; '.join(opname(o) for o in prefix + (op,))
    if probing:
        more, n = W.probe()
        bad = bad + more
        ctx.trace(n)
    ctx.step()
    ctx.state(W.target, hist)
    ctx.outcome(str(sorted(W.model.lookup('ser', c) or 'default' for c in (A, B, M, int)))[:60])
    if bad:
        ctx.fail('reg|%s|%s' % (W.target, hist), 'after %s: %s' % (hist, '; '.join('%s gives %r, expected %r' % b
                                                                             for b in bad[:4])))


def ops_for(kind, n):
    if kind == 'mixed':
        idx = [0, 1, 2, 8, 10, 16]
        return [(k, i) for k in ('ser', 'des') for i in idx] + [('warm',), ('failing',)]
    if n:
        return [(kind, i) for i in (0, 1, 2, 4, 7, 8, 11, 16)] + [('warm',)]
    return [(kind, i) for i in range(len(REGS))] + [('warm',)]


def cases(tier):
    deep = tier == 'thorough'
    for target in ('global', 'fork', 'JS', 'JSfork'):
        for kind in ('ser', 'des'):
            for i, first in enumerate(ops_for(kind, 0)):
                yield Case('%s:%s:%s' % (target, kind, i), (target, kind, first, 2 if deep else 1, True))
                if target == 'global' or deep:
                    yield Case('cold:%s:%s:%s' % (target, kind, i), (target, kind, first, 3 if deep else 2, False))
            for ik in ('inside', 'linside'):
                for i in range(len(REGS)):
                    yield Case('%s:%s:%s:%d' % (target, ik, kind, i), (target, kind, (ik, i), 1, True))
        for i, first in enumerate(ops_for('mixed', 0)):
            yield Case('%s:mixed:%d' % (target, i), (target, 'mixed', first, 2 if deep or target == 'global' else 1, True))


def run(ctx, args):
    target, kind, first, depth, probing = args
    start(target)
    if probing:
        bad, n = W.probe()
        ctx.trace(n)
        if bad:
            return ctx.fail('init', 'before any registration: %r' % (bad[:3],))
        step(ctx, (), first)
        tree(ctx, depth, lambda p: ops_for(kind, 0), step, (first,))
    else:
        # probe only complete histories: no call happens between the registrations unless 'warm' is one of them
        apply(first)

        def leaf(c, prefix, op):
            step(c, prefix, op, probing=len(prefix) == depth)
        tree(ctx, depth, lambda p: ops_for(kind, 0 if ctx.thorough else 1), leaf, (first,))
