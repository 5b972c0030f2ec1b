# coding: utf-8
"""Deterministic scheduler for threads running library code.

Every thread carries a trace function that gets control before each bytecode instruction (or line) executed in the
library.  Exactly one thread holds the token and runs; at each such point a seeded policy decides whether the token moves
to another thread.  A thread that blocks inside the library (a lock held by a thread without the token) makes the waiting
threads take the token after a short time, so that library code that uses locks is scheduled too."""
import hashlib
import sys
import threading
import time

from rv import lib

STEAL = 0.05
LIMIT = 120.0


class Stuck(Exception):
    pass


class Policy(object):
    """which thread runs next: None = stay"""

    def __init__(self, rng, n):
        self.rng, self.n = rng, n
        self.kind = rng.choice(('random', 'random', 'robin', 'priority', 'start'))
        self.granularity = rng.choice(('opcode', 'opcode', 'line'))
        self.p = rng.choice((0.01, 0.05, 0.2, 0.5))
        self.period = rng.choice((1, 2, 3, 5, 8, 13, 30))
        self.order = list(range(n))
        rng.shuffle(self.order)
        self.points = {rng.randrange(rng.choice((30, 200, 1500))) for _ in range(rng.randint(1, 4))}
        self.steps = 0

    def next(self, me, alive):
        self.steps += 1
        others = [t for t in alive if t != me]
        if not others:
            return None
        if self.kind == 'random':
            return self.rng.choice(others) if self.rng.random() < self.p else None
        if self.kind == 'robin':
            if self.steps % self.period:
                return None
            later = [t for t in others if t > me]
            return later[0] if later else others[0]
        if self.kind == 'priority':     # PCT: the first alive thread of the order runs; at a change point it drops to the end
            if self.steps in self.points:
                self.order.remove(me)
                self.order.append(me)
            first = [t for t in self.order if t in alive or t == me][0]
            return first if first != me else None
        # 'start': many switches in the beginning, few later
        return self.rng.choice(others) if self.rng.random() < (0.5 if self.steps < 60 else 0.02) else None


class Scheduler(object):
    def __init__(self, rng, n, cap=400):
        self.policy = Policy(rng, n)
        self.n = n
        self.cap = cap
        self.cond = threading.Condition()
        self.current = self.policy.order[0]
        self.alive = list(range(n))
        self.switches = 0
        self.steals = 0
        self.blocked = set()      # threads that lost the token because they made no progress
        self.events = 0
        self.beats = 0      # library calls that are no longer traced: the holder makes progress
        self.counts = {}
        self.digest = hashlib.blake2b(digest_size=8)
        self.abort = False

    # -- token

    def wait(self, me):
        with self.cond:
            while self.current != me and not self.abort:
                seen = (self.current, self.events, self.beats)
                if not self.cond.wait(STEAL) and self.current != me and (self.current, self.events, self.beats) == seen:
                    self.steals += 1      # the holder makes no progress: it is blocked outside of our control
                    self.blocked.add(self.current)
                    self.current = me
                    self.cond.notify_all()

    def give(self, me, to):
        with self.cond:
            if self.current == me:
                self.current = to
                self.switches += 1
                self.cond.notify_all()
        self.wait(me)

    def finish(self, me):
        with self.cond:
            self.alive.remove(me)
            self.blocked.discard(me)
            if self.current == me and self.alive:
                self.current = self.policy.rng.choice([t for t in self.alive if t not in self.blocked] or self.alive)
            self.cond.notify_all()

    def point(self, me, code, where):
        if self.current != me:
            self.blocked.discard(me)
            self.wait(me)
        self.events += 1
        to = self.policy.next(me, [t for t in self.alive if t not in self.blocked])
        if to is not None:
            self.digest.update(('%d>%d %s:%s;' % (me, to, code.co_name, where)).encode())
            self.give(me, to)

    # -- tracing

    def tracer(self, me):
        opcode = self.policy.granularity == 'opcode'
        kind = 'opcode' if opcode else 'line'
        counts, cap, root, point = self.counts, self.cap, lib.UTG_ROOT, self.point

        def local(frame, event, arg):
            if event == kind:
                code = frame.f_code
                seen = counts.get(code, 0)
                counts[code] = seen + 1
                if seen < cap or not seen % 37:
                    point(me, code, frame.f_lasti if opcode else frame.f_lineno)
            return local

        def trace(frame, event, arg):
            code = frame.f_code
            if not code.co_filename.startswith(root):
                return None
            if counts.get(code, 0) >= cap:
                self.beats += 1
                return None
            if opcode:
                frame.f_trace_opcodes = True
            return local
        return trace

    # -- running

    def run(self, jobs):
        """jobs: one callable per thread -> list of their results, [('ok', value) | ('raised', exception)]"""
        results = [None] * self.n

        def body(me):
            self.wait(me)
            sys.settrace(self.tracer(me))
            try:
                results[me] = ('ok', jobs[me]())
            except BaseException as e:  # noqa
                results[me] = ('raised', e)
            finally:
                sys.settrace(None)
                self.finish(me)

        threads = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(self.n)]
        for t in threads:
            t.start()
        end = time.monotonic() + LIMIT
        for t in threads:
            t.join(max(0.1, end - time.monotonic()))
        if any(t.is_alive() for t in threads):
            self.abort = True
            raise Stuck('threads did not finish within %d s' % LIMIT)
        return results


def free_run(jobs, interval=1e-6):
    """the same without a scheduler: real preemption, as often as the interpreter allows"""
    results = [None] * len(jobs)
    barrier = threading.Barrier(len(jobs))

    def body(me):
        barrier.wait()
        try:
            results[me] = ('ok', jobs[me]())
        except BaseException as e:  # noqa
            results[me] = ('raised', e)

    old = sys.getswitchinterval()
    sys.setswitchinterval(interval)
    try:
        threads = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(jobs))]
        for t in threads:
            t.start()
        end = time.monotonic() + LIMIT
        for t in threads:
            t.join(max(0.1, end - time.monotonic()))
        if any(t.is_alive() for t in threads):
            raise Stuck('threads did not finish within %d s' % LIMIT)
    finally:
        sys.setswitchinterval(old)
    return results
