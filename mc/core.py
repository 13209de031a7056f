"""Explorer core: deterministic, exhaustive enumeration of a finite case space over the real code.

A check module defines
    PROPERTY, TITLE, BOUNDS (dict), ASSUMPTIONS (list)
    cases(tier) -> list of Case(id, args)         (finite, deterministic, stable ids)
    run(ctx, args)                                (explores everything in one case)

Every case runs in its own forked child, so it starts from the pristine state of the freshly imported
library and a violation found in it is reproduced by `bin/check <ID> --only <case id>` alone.
"""
import gc
import hashlib
import json
import os
import pickle
import select
import signal
import sys
import time
import traceback
from collections import Counter, namedtuple

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')

Case = namedtuple('Case', 'id args')

MAX_FAILS_PER_CASE = 20


class Violation(Exception):
    pass


class Ctx:
    """Collects what one case explored."""

    def __init__(self, case_id, tier, single=False):
        self.case_id = case_id
        self.tier = tier
        self.single = single
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = Counter()
        self.samples = []
        self.fails = []
        self.fail_count = 0
        self.capped = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def state(self, *key):
        h = hashlib.blake2b(repr(key).encode('utf-8', 'backslashreplace'), digest_size=8).digest()
        self.states.add(h)

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, label):
        self.outcomes[str(label)] += 1

    def sample(self, text):
        if len(self.samples) < 2:
            self.samples.append(str(text)[:400])

    def fail(self, key, message, **detail):
        """A violation. `key` identifies the specific input / history that fails."""
        self.fail_count += 1
        if len(self.fails) < MAX_FAILS_PER_CASE:
            self.fails.append({'key': key, 'message': str(message)[:3000],
                               'detail': {k: _short(v) for k, v in detail.items()}})

    def expect(self, cond, key, message, **detail):
        self.transitions += 1
        self.traces += 1
        if not cond:
            self.fail(key, message, **detail)
        return cond

    def cap(self, what):
        if what not in self.capped:
            self.capped.append(what)

    def pack(self):
        return dict(states=self.states, transitions=self.transitions, traces=self.traces,
                    outcomes=self.outcomes, samples=self.samples, fails=self.fails,
                    fail_count=self.fail_count, capped=self.capped)


def _short(v):
    try:
        s = v if isinstance(v, str) else repr(v)
    except Exception as err:  # a repr that fails must not hide the violation
        s = '<unprintable %s: %s>' % (type(v).__name__, type(err).__name__)
    return s if len(s) <= 1500 else s[:1500] + '...'


def import_target():
    """Import jsons from the working tree, never from anywhere else."""
    for p in (REPO,):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    import jsons
    where = os.path.realpath(os.path.dirname(jsons.__file__))
    want = os.path.realpath(os.path.join(REPO, 'jsons'))
    if where != want:
        raise SystemExit('jsons was imported from %s, not %s' % (where, want))
    return jsons


# ------------------------------------------------------------------------------- running cases

def _child(mod, case, tier, wfd, limit, single):
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    signal.alarm(limit)
    ctx = Ctx(case.id, tier, single)
    try:
        try:
            mod.run(ctx, case.args)
        except BaseException as err:  # noqa
            tb = traceback.format_exc()
            ctx.fail('uncaught:%s' % type(err).__name__,
                     'the harness received an exception no operation is allowed to raise: %s: %s'
                     % (type(err).__name__, err), traceback=tb[-2500:])
        data = pickle.dumps(ctx.pack())
        off = 0
        while off < len(data):
            off += os.write(wfd, data[off:off + 65536])
        os.close(wfd)
    except BaseException:  # noqa
        traceback.print_exc()
        os._exit(70)
    os._exit(0)


def run_case(mod, case, tier, limit, single=False):
    rfd, wfd = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        try:
            os.setpgid(0, 0)
        except OSError:
            pass
        _child(mod, case, tier, wfd, limit, single)
        os._exit(71)
    os.close(wfd)
    chunks = []
    eof = False
    status = None
    # the pipe may be held open by a stray grandchild: stop when the child itself has ended
    while True:
        ended = status is not None      # before this look at the pipe: what it wrote is there now
        r, _, _ = select.select([rfd], [], [], 0 if ended else 0.2)
        if r:
            b = os.read(rfd, 1 << 20)
            if b:
                chunks.append(b)
                continue
            eof = True
        if status is None:
            try:
                p, st = os.waitpid(pid, 0 if eof else os.WNOHANG)
            except InterruptedError:
                continue
            if p:
                status = st
        if status is not None and (eof or ended):
            break
    os.close(rfd)
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    data = b''.join(chunks)
    if status == 0:
        try:
            return pickle.loads(data)
        except Exception as err:
            status = 'unreadable result: %r' % err
    ctx = Ctx(case.id, tier)
    if isinstance(status, int) and os.WIFSIGNALED(status):
        sig = os.WTERMSIG(status)
        if sig == signal.SIGALRM:
            ctx.fail('hang', 'no answer within %d s: the code under test does not terminate here' % limit)
        elif sig == signal.SIGKILL:
            raise RuntimeError('case %s was killed (memory?)' % case.id)
        else:
            ctx.fail('crash:signal%d' % sig, 'the interpreter died with signal %d' % sig)
    else:
        raise RuntimeError('case %s: harness failed, status %r' % (case.id, status))
    return ctx.pack()


def _worker(mod, cases, tier, limit, deadline, wfd, tokens):
    out = []
    while True:
        t = os.read(tokens, 4)
        if len(t) < 4:
            break
        case = cases[int.from_bytes(t, 'little')]
        if time.monotonic() > deadline:
            out.append((case.id, None))
            continue
        t0 = time.monotonic()
        try:
            out.append((case.id, run_case(mod, case, tier, limit)))
            if os.environ.get('VERIF_TIMES'):
                print('TIME %6.2f %s' % (time.monotonic() - t0, case.id))
        except RuntimeError as err:
            out.append((case.id, {'error': str(err)}))
    data = pickle.dumps(out)
    with os.fdopen(wfd, 'wb') as f:
        f.write(data)
    sys.stdout.flush()
    os._exit(0)


def run_all(mod, cases, tier, workers, limit, budget):
    deadline = time.monotonic() + budget
    trd, twr = os.pipe()        # every worker takes the next case from this pipe
    procs = []
    for _ in range(min(workers, len(cases)) or 1):
        rfd, wfd = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(rfd)
            os.close(twr)
            for _, r, _ in procs:
                os.close(r)
            try:
                _worker(mod, cases, tier, limit, deadline, wfd, trd)
            finally:
                os._exit(72)
        os.close(wfd)
        procs.append((pid, rfd, []))
    os.close(trd)
    os.set_blocking(twr, False)
    todo = b''.join(i.to_bytes(4, 'little') for i in range(len(cases)))
    results = {}
    open_fds = {r: (pid, buf) for pid, r, buf in procs}
    while open_fds:
        r, w, _ = select.select(list(open_fds), [twr] if todo else [], [])
        if w:
            try:
                n = os.write(twr, todo[:4096])
                todo = todo[n:]
            except BrokenPipeError:
                todo = b''
            if not todo:
                os.close(twr)
        for fd in r:
            b = os.read(fd, 1 << 20)
            if b:
                open_fds[fd][1].append(b)
            else:
                pid, buf = open_fds.pop(fd)
                os.close(fd)
                os.waitpid(pid, 0)
                for cid, res in pickle.loads(b''.join(buf)):
                    results[cid] = res
    return results


# ------------------------------------------------------------------------------- known findings

def load_findings(prop):
    """KNOWN_FINDINGS.jsonl: {"kind": "finding"|"fixed", "property", "case", "key", "what", ...}."""
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.jsonl')
    res = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line or line.startswith('#') or line.startswith('fixed:'):
                continue
            d = json.loads(line)
            if d.get('kind') == 'finding' and d['property'] == prop:
                res[(d['case'], d['key'])] = d
    return res


def main(prop, mod, argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    only = None
    if '--only' in argv:
        only = argv[argv.index('--only') + 1]
    t0 = time.monotonic()
    import_target()
    if hasattr(mod, 'prepare'):
        mod.prepare(tier)
    cases = list(mod.cases(tier))
    gc.collect()
    gc.freeze()     # keeps forks cheap
    ids = [c.id for c in cases]
    if len(set(ids)) != len(ids):
        dup = [i for i, n in Counter(ids).items() if n > 1][:5]
        raise SystemExit('duplicate case ids: %r' % dup)
    limit = getattr(mod, 'CASE_LIMIT', {}).get(tier, 200 if tier == 'quick' else 1500)
    if only is not None:
        sel = [c for c in cases if c.id == only]
        if not sel:
            raise SystemExit('no case %r' % only)
        res = {only: run_case(mod, sel[0], tier, limit, single=True)}
        for f in res[only]['fails']:
            print(json.dumps(f, indent=1))
        print('outcomes', dict(res[only]['outcomes']))
    else:
        workers = int(os.environ.get('VERIF_JOBS', '0')) or (os.cpu_count() or 4)
        budget = 700 if tier == 'quick' else 3600 * 3
        budget = getattr(mod, 'BUDGET', {}).get(tier, budget)
        # the seed only rotates the order in which the (always complete) space is walked
        k = seed % len(cases) if cases else 0
        res = run_all(mod, cases[k:] + cases[:k], tier, workers, limit, budget)
    states = set()
    transitions = traces = 0
    outcomes = Counter()
    samples = []
    fails = []
    capped = []
    errors = []
    notrun = 0
    for c in cases:
        r = res.get(c.id)
        if r is None:
            notrun += (only is None)
            continue
        if 'error' in r:
            errors.append((c.id, r['error']))
            continue
        states |= {(c.id, s) for s in r['states']}
        transitions += r['transitions']
        traces += r['traces']
        outcomes.update(r['outcomes'])
        for s in r['samples']:
            if len(samples) < 12 and (len(samples) < 4 or hash(c.id) % 7 == 0):
                samples.append({'case': c.id, 'trace': s})
        for f in r['fails']:
            fails.append((c.id, f))
        for w in r['capped']:
            capped.append('%s: %s' % (c.id, w))
    findings = load_findings(prop)
    seen_findings = {}
    new = []
    for cid, f in fails:
        d = findings.get((cid, f['key'])) or findings.get(('*', f['key']))
        if d:
            seen_findings[d['key']] = d
        else:
            new.append((cid, f))
    wall = time.monotonic() - t0
    distinct = len(outcomes)
    if not samples and cases:
        samples = [{'case': c.id} for c in cases[:3]]
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'model_checking'),
        'coverage': {
            'states': len(states), 'transitions': transitions,
            'traces_validated_against_impl': traces,
            'samples': samples or ['(none)'],
            'cases': len(cases), 'cases_not_run': notrun,
            'exhaustive': notrun == 0 and not capped and not errors and only is None,
            'distinct_outcomes': distinct,
            'outcomes': dict(outcomes.most_common(40)),
            'bounds': mod.BOUNDS if not callable(getattr(mod, 'BOUNDS', None)) else mod.BOUNDS(tier),
            'caps_hit': capped[:20],
            'explored': 'every trace is one execution of the real code under /repo compared step by step '
                        'with the reference model; there is no separate model whose traces would need replay',
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 3),
        'violations': len(new),
        'known_findings_seen': sorted(seen_findings),
    }
    if only is None:
        if REPO != '/repo':     # a trial against another tree leaves no evidence
            VERIF_OUT = os.environ.get('VERIF_SCRATCH', '/tmp')
        else:
            VERIF_OUT = VERIF
        os.makedirs(os.path.join(VERIF_OUT, 'evidence'), exist_ok=True)
        tmp = os.path.join(VERIF_OUT, 'evidence', '.%s.%d' % (prop, os.getpid()))
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(VERIF_OUT, 'evidence', prop + '.json'))
    for k in sorted(seen_findings):
        print('KNOWN-FINDING: property=%s %s' % (prop, seen_findings[k]['what']))
    print('%s %s: cases=%d states=%d transitions=%d traces=%d outcomes=%d fails=%d wall=%.1fs%s'
          % (prop, tier, len(cases), len(states), transitions, traces, distinct, len(new), wall,
             '' if not capped else ' CAPPED'))
    if errors and not new:
        for cid, e in errors[:5]:
            print('HARNESS ERROR %s: %s' % (cid, e))
        return 3
    if new:
        rdir = os.path.join(VERIF, 'replays', prop)
        os.makedirs(rdir, exist_ok=True)
        # the simplest counterexample first: cases are generated simplest-first
        order = {c.id: i for i, c in enumerate(cases)}
        new.sort(key=lambda t: order[t[0]])
        cid, f = new[0]
        path = os.path.join(rdir, hashlib.sha1((cid + f['key']).encode()).hexdigest()[:12] + '.json')
        with open(path, 'w') as fh:
            json.dump({'property': prop, 'case': cid, 'violation': f,
                       'replay': 'bin/check %s --only %r' % (prop, cid),
                       'others': [{'case': c, 'key': g['key'], 'message': g['message'][:300]}
                                  for c, g in new[1:200]]}, fh, indent=1, default=str)
        if os.environ.get('VERIF_DUMPFAILS'):
            with open(os.environ['VERIF_DUMPFAILS'], 'w') as fh:
                json.dump(new, fh, default=str)
        for c, g in new[:15]:
            print('  [%s] %s :: %s' % (c, g['key'], g['message'][:500]))
            if os.environ.get('VERIF_DETAIL'):
                print('      ', g['detail'])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if not traces or (notrun and not getattr(mod, 'ALLOW_PARTIAL', tier == 'thorough')):
        print('HARNESS ERROR: nothing or not everything explored (not run: %d)' % notrun)
        return 3
    return 0
