"""C06 forks are isolated from their parent and from each other."""
import datetime as dtm

import jsons
from core import Case
from lib import caught, tree
import regmodel
from regmodel import *  # noqa

PROPERTY = 'C06'
ASSUMPTIONS = ['a class that merely inherits from a fork uses the configuration of that fork (it is the same fork)',
               'announcements made by dump itself are not a registration; only explicit announcements are modelled']
KINDS = ('ser', 'des', 'val', 'ann', 'all', 'code', 'iser', 'mser')


def BOUNDS(tier):
    return {'tree of forks': 'up to %d forks, made by fork(), fork(name), X.fork(), set_serializer(fork=True), '
                             'with_dump(fork=True), below the global state, JsonSerializable, forks and classes that '
                             'inherit from forks' % maxnodes(tier),
            'operations': 'per node: %s' % ', '.join(KINDS),
            'depth': 'histories of length %d over (fork kinds + one kind of registration), %d over all kinds mixed'
                     % ((5, 4) if tier == 'thorough' else (4, 3)),
            'probe': 'after every operation every node: get_*, dump and load of all probe values, validators, announced '
                     'names, warnings; with warm caches left by an interrupted call on every other node'}


def maxnodes(tier):
    return 4 if tier == 'thorough' else 3


class Killer:
    pass


def boom(*a, **kw):
    raise KeyboardInterrupt


class Cfg:
    def __init__(self):
        self.m = Model()
        self.val = {}          # class -> accepted (False: rejects); ancestors in order
        self.vorder = []
        self.ann = {}
        self.all = False
        self.codes = set()

    def copy(self):
        c = Cfg()
        c.m = self.m.copy()
        c.val = dict(self.val)
        c.vorder = list(self.vorder)
        c.ann = dict(self.ann)
        c.all = self.all
        c.codes = set(self.codes)
        return c

    def rejects(self, cls):
        if cls in self.val:
            return True
        return any(issubclass(cls, c) for c in self.vorder)


class Node:
    def __init__(self, name, fork, cfg, js):
        self.name, self.fork, self.cfg, self.js = name, fork, cfg, js
        self.kw = {} if fork is None else {'fork_inst': fork}


NODES = []
FNS = {}
DFLT = {}
N = [0]


def start():
    jsons.set_serializer(boom, Killer)
    jsons.set_deserializer(boom, Killer)
    DFLT.update({(k, c): g(c) for k, g in (('ser', jsons.get_serializer), ('des', jsons.get_deserializer))
                 for c in GETS})
    cfg = Cfg()
    NODES.append(Node('G', None, cfg, False))
    NODES.append(Node('JS', jsons.JsonSerializable, cfg, True))


REJECT = 'rejected'


def reject(v):
    raise ValueError(REJECT)


def fid(node, kind):
    f = '%s%d@%s' % (kind, N[0], node.name)
    N[0] += 1
    FNS[f] = Fn(f)
    return f


# class and priority by kind and count, so that exact, ancestor, high and low priority all occur
REG = {'ser': [(B, True), (A, False), (object, True), (int, True)],
       'des': [(A, True), (X, False), (B, True), (list, True)],
       'val': [B, X, A, Un], 'ann': ['nm1', 'nm2', 'nm1', 'nm2'], 'annc': [X, M, C, B]}


def form(cls, n):
    """A class may be given by itself or in a sequence."""
    return (cls, [cls], (cls,))[n % 3]


def do_op(op):
    what, i = op
    node = NODES[i]
    cfg = node.cfg
    k = sum(N)
    if what == 'fork':
        NODES.append(Node(node.name + '.f', jsons.fork(*([] if node.fork is None else [node.fork])), cfg.copy(), node.js))
    elif what == 'nfork':
        NODES.append(Node(node.name + '.n', jsons.fork(name='Named', **node.kw), cfg.copy(), node.js))
    elif what == 'mfork':
        NODES.append(Node(node.name + '.m', node.fork.fork(), cfg.copy(), True))
    elif what == 'wfork':
        NODES.append(Node(node.name + '.w', node.fork.with_dump(fork=True), cfg.copy(), True))
    elif what == 'sub':
        # a class that inherits from a fork uses that fork's configuration
        cls = type('Sub%d' % len(NODES), (node.fork,), {})
        NODES.append(Node(node.name + '.s', cls, cfg, node.js))
    elif what in ('sfork', 'dfork'):
        kind = 'ser' if what == 'sfork' else 'des'
        f = fid(node, kind)
        cls, hi = REG[kind][0]
        forked_ = (node.fork.set_serializer if kind == 'ser' else node.fork.set_deserializer)(FNS[f], form(cls, k + i), hi, fork=True)
        new = Node(node.name + '.' + what[0], forked_, cfg.copy(), True)
        new.cfg.m.set(kind, f, cls, hi)
        NODES.append(new)
    elif what in ('ser', 'des'):
        f = fid(node, what)
        cls, hi = REG[what][k % 4]
        if node.js:
            (node.fork.set_serializer if what == 'ser' else node.fork.set_deserializer)(FNS[f], form(cls, k + i), hi)
        else:
            (jsons.set_serializer if what == 'ser' else jsons.set_deserializer)(FNS[f], form(cls, k + i), hi, **node.kw)
        cfg.m.set(what, f, cls, hi)
    elif what == 'val':
        N[0] += 1
        cls = REG['val'][k % 4]
        jsons.set_validator(reject, form(cls, k + i), **node.kw)
        cfg.val[cls] = True
        cfg.vorder.append(cls)
    elif what == 'ann':
        N[0] += 1
        jsons.announce_class(REG['annc'][k % 4], REG['ann'][k % 4], **node.kw)
        cfg.ann[REG['ann'][k % 4]] = REG['annc'][k % 4]
    elif what == 'all':
        jsons.suppress_warnings(True, **node.kw)
        cfg.all = True
    elif what == 'unall':
        jsons.suppress_warnings(False, **node.kw)
        cfg.all = False
    elif what == 'code':
        jsons.suppress_warning('datetime-without-tz', **node.kw)
        cfg.codes.add('datetime-without-tz')
    elif what == 'code2':
        jsons.suppress_warning('element-not-deserialized', **node.kw)
        cfg.codes.add('element-not-deserialized')


ALLV = [v for _, v in VALUES]
ALLJ = [j for _, j, _ in SOURCES]
ALLT = Tuple[tuple(t for _, _, t in SOURCES)]
WARMT = Tuple[tuple(t for _, _, t in SOURCES) + (Killer,)]


def err(e):
    return '%s: %s' % (type(e).__name__, str(e)[:200])


def probe_regs(node, bad, gets, kinds):
    cfg = node.cfg
    if gets:
        for kind, g in (('ser', jsons.get_serializer), ('des', jsons.get_deserializer)):
            if kind not in kinds:
                continue
            for c in GETS:
                f = cfg.m.lookup(kind, c)
                got = g(c, **node.kw)
                if got is not (FNS[f] if f else DFLT[(kind, c)]):
                    bad.append((node.name, 'get_%s(%s)' % (kind, c.__name__), getattr(got, '__name__', got), f or 'default'))
    if 'ser' in kinds:
        want = [cfg.m.dump(v) for v in ALLV]
        want = cfg.m.lookup('ser', list) or want
        try:
            got = jsons.dump(ALLV, **node.kw)
        except Exception as e:
            got = err(e)
        compare(node, 'dump', got, want, bad)
    if 'des' in kinds and not cfg.val:
        want = [cfg.m.load(j, t) for _, j, t in SOURCES]
        try:
            got = [norm(x) for x in jsons.load(ALLJ, ALLT, **node.kw)]
        except Exception as e:
            got = err(e)
        compare(node, 'load', got, want, bad)


def compare(node, what, got, want, bad):
    if got != want:
        diff = [(a, b) for a, b in zip(got, want) if a != b][:2] if isinstance(got, list) else (got, want)
        bad.append((node.name, what, diff, 'second of each pair'))


def warm(node, kinds):
    if 'ser' in kinds:
        warm_dump(node)
    if 'des' in kinds or 'val' in kinds:
        warm_load(node)


def warm_dump(node):
    try:
        jsons.dump(ALLV + [Killer()], **node.kw)
    except KeyboardInterrupt:
        pass
    except Exception:
        pass


def warm_load(node):
    try:
        jsons.load(ALLJ + [1], WARMT, **node.kw)
    except KeyboardInterrupt:
        pass
    except Exception:
        pass


def probe_other(node, bad, kinds):
    cfg = node.cfg
    for cls in (A, B, C, X, M, Un) if 'val' in kinds else ():
        if cfg.m.lookup('des', cls) is None and cfg.m.lookup('des', int) is None:
            for wrap, tp in ((lambda x: x, cls), (lambda x: [x], List[cls])):
                try:
                    jsons.load(wrap(nj), tp, **node.kw)
                    got = 'accepted'
                except jsons.ValidationError as e:
                    got = str(e)
                except Exception as e:
                    got = err(e)
                want = REJECT if cfg.rejects(cls) else 'accepted'
                if got != want:
                    bad.append((node.name, 'validate %s' % tp, got, want))
    if 'ann' in kinds and cfg.m.lookup('des', object) is None and not cfg.val:
        for nm in ('nm1', 'nm2'):
            try:
                got = jsons.load({'n': 1, '-meta': {'classes': {'/': nm}}}, **node.kw)
                got = got if isinstance(got, str) else type(got).__name__
            except jsons.exceptions.UnknownClassError:
                got = 'unknown'
            except Exception as e:
                got = err(e)
            want = cfg.ann.get(nm)
            if want is None:
                want = 'unknown'
            else:
                want = cfg.m.lookup('des', want) or want.__name__
            if got != want:
                bad.append((node.name, 'announced %s' % nm, got, want))
    if not {'all', 'code'} & set(kinds):
        return
    with caught() as w:
        try:
            jsons.dump(dtm.datetime(2020, 1, 2), **node.kw)
        except Exception as e:
            bad.append((node.name, 'dump datetime', err(e), ''))
    want = not cfg.all and 'datetime-without-tz' not in cfg.codes
    if bool(w) != want:
        bad.append((node.name, 'warning datetime-without-tz', bool(w), want))
    if cfg.m.lookup('des', int) is None and cfg.m.lookup('des', list) is None:
        with caught() as w:
            try:
                jsons.load(['x'], List[float], warn_on_fail=True, **node.kw)
            except Exception as e:
                bad.append((node.name, 'load warn_on_fail', err(e), ''))
        want = not cfg.all and 'element-not-deserialized' not in cfg.codes
        if bool(w) != want:
            bad.append((node.name, 'warning element-not-deserialized', bool(w), want))


def probe(touched, kinds):
    bad = []
    n = 0
    for node in NODES:
        probe_regs(node, bad, True, kinds)
        probe_other(node, bad, kinds)
        n += 1
    if len(kinds) == 1 and kinds[0] in ('ser', 'des', 'val'):
        t = NODES[touched]
        for b in NODES:             # caches left warm by a call that used another fork
            if b.cfg is not t.cfg:
                for x, y in ((t, b), (b, t)):
                    warm(x, kinds)
                    probe_regs(y, bad, False, kinds)
                    probe_other(y, bad, kinds)
                    n += 1
    return bad, n


def enabled(kinds, most):
    def ops(prefix):
        res = []
        made = 0
        names = ['G', 'JS']
        js = [False, True]
        subs = [False, False]
        for what, i in prefix:
            if what in FORKOPS:
                made += 1
                js.append(js[i] or what in ('mfork', 'wfork', 'sfork', 'dfork'))
                subs.append(what == 'sub')
        for i in range(len(js)):
            if made < most:
                if i != 1:
                    res.append(('fork', i))
                if js[i]:
                    res.append(('mfork', i))
                    if 'ser' in kinds:
                        res.append(('sfork', i))
                    if 'des' in kinds:
                        res.append(('dfork', i))
                if len(kinds) == 1:
                    if i > 1 and not subs[i]:
                        res.append(('sub', i))
                    if kinds[0] == 'all':
                        res.append(('nfork', i))
                        if js[i]:
                            res.append(('wfork', i))
            for k in kinds:
                if i == 1 and len(kinds) > 1:
                    continue        # the global state under its other name
                if k in ('all', 'code', 'unall', 'code2') and (i == 1 or subs[i]):
                    continue        # whether a subclass shares these with its fork is not specified
                res.append((k, i))
        return res
    return ops


FORKOPS = ('fork', 'nfork', 'mfork', 'wfork', 'sub', 'sfork', 'dfork')


def names(prefix):
    return ' ; '.join('%s(%d)' % op for op in prefix)


def do(ctx, prefix, op, kinds):
    do_op(op)
    bad, n = probe(op[1], kinds)
    ctx.step()
    ctx.trace(n)
    hist = names(prefix + (op,))
    ctx.state(hist)
    ctx.outcome(op[0])
    if bad:
        ctx.fail('fork|' + hist, 'after %s (nodes %s): %s' % (
            hist, ', '.join('%d=%s' % (i, x.name) for i, x in enumerate(NODES)),
            '; '.join('[%s] %s gives %r, expected %r' % b for b in bad[:4])))


GROUPS = [('ser',), ('des',), ('val',), ('ann',), ('all',), ('code',)]


def cases(tier):
    deep = tier == 'thorough'
    most = maxnodes(tier)
    for kinds in GROUPS + [('all', 'unall', 'code', 'code2')]:
        ops = enabled(kinds, most)
        d = (4 if deep else 3) - (len(kinds) > 1)
        for i, op in enumerate(ops(())):
            if d < 3:
                yield Case('%s:%d' % ('+'.join(kinds), i), (kinds, (op,), d, most))
                continue
            for j, op2 in enumerate(ops((op,))):
                yield Case('%s:%d:%d' % ('+'.join(kinds), i, j), (kinds, (op, op2), d - 1, most))
    kinds = ('ser', 'des', 'val', 'ann', 'code')
    ops = enabled(kinds, 2)
    for i, op in enumerate(ops(())):
        for j, op2 in enumerate(ops((op,))):
            yield Case('mixed:%d:%d' % (i, j), (kinds, (op, op2), 2 if deep else 1, 2))


def run(ctx, args):
    kinds, first, depth, most = args
    start()
    for i, op in enumerate(first):
        do(ctx, first[:i], op, kinds)
    ops = enabled(kinds, most)
    if not ctx.fails:
        tree(ctx, depth, ops, lambda c, p, o: do(c, p, o, kinds), first)
