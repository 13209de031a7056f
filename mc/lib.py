"""Helpers shared by the checks: outcomes, isolated (forked) evaluation and fork-tree search."""
import contextlib
import os
import pickle
import select
import signal
import traceback
import warnings

from core import Ctx


def outcome(fn, snap, msg=True):
    """The observable outcome of a call: ('ok', snapshot) or ('err', class, message, cause classes)."""
    try:
        v = fn()
    except Exception as err:
        return ('err', type(err).__name__, str(err) if msg else '')
    return ('ok', snap(v))


class Crashed(Exception):
    pass


def forked(fn, limit=120):
    """Run fn() in a forked child (a copy of the present state) and return its picklable result."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            os.close(rfd)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(limit)
            data = pickle.dumps(fn())
            off = 0
            while off < len(data):
                off += os.write(wfd, data[off:off + 65536])
            code = 0
        except BaseException:  # noqa
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(wfd)
    chunks = []
    while True:
        b = os.read(rfd, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(rfd)
    _, st = os.waitpid(pid, 0)
    if st != 0:
        raise Crashed('child ended with status %r' % st)
    return pickle.loads(b''.join(chunks))


def merge(ctx, pack):
    ctx.states |= pack['states']
    ctx.transitions += pack['transitions']
    ctx.traces += pack['traces']
    ctx.outcomes.update(pack['outcomes'])
    for s in pack['samples']:
        ctx.sample(s)
    for f in pack['fails']:
        ctx.fail_count += 1
        if len(ctx.fails) < 20:
            ctx.fails.append(f)
    for c in pack['capped']:
        ctx.cap(c)


def tree(ctx, depth, enabled, do, prefix=(), limit=120):
    """Depth-first search over all operation histories; every edge runs in a forked copy of the state.

    enabled(prefix) -> operations that may follow;  do(ctx, prefix, op) executes op on the real code and
    checks it.  A child explores its whole subtree and sends back what it collected.
    """
    if depth == 0:
        return
    for op in enabled(prefix):
        def child(op=op):
            c = Ctx(ctx.case_id, ctx.tier)
            do(c, prefix, op)
            if not c.fails:        # below a violation nothing new can be learned
                tree(c, depth - 1, enabled, do, prefix + (op,), limit)
            return c.pack()
        merge(ctx, forked(child, limit))


@contextlib.contextmanager
def caught():
    """Record every warning (never deduplicated)."""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        yield w
