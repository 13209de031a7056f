"""A controlled scheduler for real threads: exactly one runs at a time and every line of the code under test is a
point where another thread may be scheduled.  explore() enumerates all schedules with at most `bound` preemptions
(switches at blocking or ending threads are free)."""
import os
import sys
import threading
import time

import core

ROOT = os.path.realpath(os.path.join(core.REPO, 'jsons')) + os.sep
CURRENT = None          # the running Sched
STUCK = 0.5            # seconds without progress after which a thread is taken to wait for a real lock


class Deadlock(Exception):
    pass


class Stop(BaseException):
    pass


class Actor:
    def __init__(self, name, n):
        self.name = name
        self.n = n
        self.sem = threading.Semaphore(0)
        self.enabled = True
        self.done = False
        self.waits = None       # the actors it waits for


class Sched:
    def __init__(self, dev, bound, opcodes=False, visits=None):
        self.dev = dict(dev)            # decision index -> alternative
        self.last = dev[-1][0] if dev else -1
        self.bound = bound
        self.used = 0
        self.n = 0                      # decisions so far
        self.alts = []                  # (index, number of options, cost) of decisions after the last deviation
        self.actors = []
        self.cur = None
        self.progress = 0
        self.points = 0
        self.switches = 0
        self.deadlock = False
        self.local = threading.local()
        self.opcodes = opcodes
        self.visits = visits            # only the first n visits of a thread to a line are scheduling points
        self.seen = {}

    # -- tracing
    def tracer(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(ROOT):
            if self.opcodes:
                frame.f_trace_opcodes = True
            return self.line
        return None

    def line(self, frame, event, arg):
        if event == 'line' or event == 'opcode':
            if self.visits:
                k = (self.local.me, frame.f_code, frame.f_lineno)
                self.seen[k] = n = self.seen.get(k, 0) + 1
                if n > self.visits and self.local.me is self.cur:
                    self.progress += 1
                    return self.line
            self.point(self.local.me)
            if self.used >= self.bound:     # no further preemption: nothing left to decide at the lines
                sys.settrace(None)
                return None
        return self.line

    # -- decisions
    def others(self, a):
        return [x for x in self.actors if x.enabled and x is not a]

    def point(self, a):
        self.progress += 1
        self.points += 1
        if a is not self.cur:           # it was stuck in a real lock meanwhile
            a.enabled = True
            if self.cur is None:
                self.cur = a
            else:
                a.sem.acquire()
            return
        if self.used >= self.bound:
            return
        opts = self.others(a)
        if not opts:
            return
        c = self.decide(len(opts) + 1, 1)
        if c:
            self.used += 1
            self.switch(a, opts[c - 1])

    def decide(self, n, cost):
        i = self.n
        self.n += 1
        if i > self.last:
            self.alts.append((i, n, cost))
            return 0
        return self.dev.get(i, 0)

    def switch(self, a, b):
        self.switches += 1
        self.cur = b
        b.sem.release()
        a.sem.acquire()

    def pick(self, a):
        """The running actor cannot go on: hand over to any enabled one (free)."""
        opts = self.others(a)
        if not opts:
            if all(x.done for x in self.actors):
                self.cur = None
                return
            if any(not x.done and x.waits is None and x is not a for x in self.actors):
                self.cur = None         # the others are stuck in real locks; the first to come back continues
                return
            self.deadlock = True
            self.cur = None
            for x in self.actors:
                x.sem.release()
            return
        c = self.decide(len(opts), 0) if len(opts) > 1 else 0
        self.cur = opts[c]
        self.switches += 1
        opts[c].sem.release()

    def block(self, a, *ons):
        """a waits until all of the given actors are done."""
        ons = {x for x in ons if not x.done}
        if not ons:
            return
        a.waits = ons
        a.enabled = False
        if self.cur is a:
            self.pick(a)
        a.sem.acquire()
        a.waits = None
        if self.deadlock:
            raise Deadlock()

    def finish(self, a):
        a.done = True
        a.enabled = False
        for x in self.actors:
            if x.waits is not None and a in x.waits:
                x.waits.discard(a)
                x.enabled = x.enabled or not x.waits
        if self.cur is a:
            self.pick(a)
        elif self.cur is None:
            self.pick(a)

    # -- running
    def actor(self, name):
        a = Actor(name, len(self.actors))
        self.actors.append(a)
        return a

    def check_stuck(self, seen):
        cur = self.cur
        if self.ended or cur is None:
            return None
        state = (self, self.progress, self.switches, cur)
        if seen == state:
            opts = self.others(cur)
            if opts:                # waiting for a real lock: let another one run
                cur.enabled = False
                self.cur = opts[0]
                opts[0].sem.release()
        return state

    def run(self, main):
        """Run main() as the first actor; returns its outcome after every actor has ended."""
        global CURRENT
        me = self.actor('main')
        self.cur = me
        self.local.me = me
        self.ended = False
        CURRENT = self
        start_monitor()
        if bool(self.bound):
            sys.settrace(self.tracer)
        try:
            try:
                return main()
            finally:
                sys.settrace(None)
                for x in list(self.actors):
                    if x is not me and not x.done:
                        self.block(me, x)
        finally:
            self.ended = True
            CURRENT = None


MONITOR = None


def start_monitor():
    global MONITOR
    if MONITOR is None or MONITOR[0] != os.getpid():
        t = threading.Thread(target=monitor, daemon=True)
        MONITOR = (os.getpid(), t)
        t.start()


def monitor():
    seen = None
    while True:
        time.sleep(STUCK)
        s = CURRENT
        seen = s.check_stuck(seen) if s is not None else None


class CtlThread(threading.Thread):
    """A Thread whose interleaving is controlled."""

    def __init__(self, *args, **kw):
        super().__init__(*args, **kw)
        self.daemon = True
        self.sched = CURRENT

    def start(self):
        self.actor = self.sched.actor(self.name)
        super().start()

    def run(self):
        s, a = self.sched, self.actor
        a.sem.acquire()
        if s.deadlock:
            return
        s.local.me = a
        if s.used < s.bound:
            sys.settrace(s.tracer)
        try:
            super().run()
        finally:
            sys.settrace(None)
            s.finish(a)

    def join(self, timeout=None):
        s = self.sched
        s.block(s.local.me, self.actor)
        super().join()


def join_all(threads):
    s = threads[0].sched
    s.block(s.local.me, *[t.actor for t in threads])
    for t in threads:
        threading.Thread.join(t)


def explore(scenario, bound, shard=(0, 1), limit=None, opcodes=False, visits=None):
    """Run scenario() under every schedule with at most `bound` preemptions; yields (deviations, outcome, sched).

    A schedule is the tuple of its deviations from the default (stay, else lowest actor).  A shard takes the schedules
    whose first preemption is at a decision with index = k modulo n (shard 0 also those without preemption)."""
    k, n = shard
    stack = [()]
    count = 0
    while stack:
        dev = stack.pop()
        s = Sched(dev, bound, opcodes, visits)
        res = s.run(scenario)
        children = []
        for i, opts, cost in s.alts:
            if s.used + cost > bound or (cost and not s.used and i % n != k):
                continue
            children.extend(dev + ((i, c),) for c in range(1, opts))
        stack.extend(reversed(children))
        if s.used or k == 0:
            count += 1
            yield dev, res, s
            if limit and count >= limit:
                return
