"""Controlled interleavings: threads take turns, and the turn changes only at
lines of the library's code, as a seeded strategy says."""
import os
import sys
import threading
import time

from . import sut

mon = sys.monitoring
TOOL = 2


class Baton:
    """strategy(step, me, alive) -> the thread that runs next"""

    def __init__(self, jobs, strategy, stall=3.0, fine=False):
        self.jobs = jobs
        self.events = mon.events.LINE | mon.events.PY_START | mon.events.PY_RETURN | (mon.events.INSTRUCTION if fine else 0)
        self.strategy = strategy
        self.stall = stall
        self.n = len(jobs)
        self.turn = [threading.Semaphore(0) for _ in jobs]
        self.alive = set(range(self.n))
        self.free = False            # a thread blocked on a lock of its own: let all run
        self.steps = 0
        self.switches = []
        self.results = [None] * self.n
        self.ids = {}
        self.lock = threading.Lock()
        self.root = os.path.realpath(sut.PKG_DIR) + os.sep
        self.mine = {}

    def _is_mine(self, code):
        f = code.co_filename
        m = self.mine.get(f)
        if m is None:
            m = self.mine[f] = os.path.realpath(f).startswith(self.root)
        return m

    def _event(self, code, *_):
        if not self._is_mine(code):
            return mon.DISABLE
        me = self.ids.get(threading.get_ident())
        if me is None or self.free:
            return
        self.steps += 1
        nxt = self.strategy(self.steps, me, self.alive)
        if nxt is not None and nxt != me and nxt in self.alive:
            self.switches.append((self.steps, nxt))
            self._hand(me, nxt)

    def _hand(self, me, nxt):
        self.turn[nxt].release()
        if me is not None and not self.turn[me].acquire(timeout=self.stall):
            # the one that holds the turn is stuck, e.g. on a lock we hold: free run
            self.free = True
            for t in self.turn:
                t.release()

    def _run(self, i):
        self.turn[i].acquire()
        self.ids[threading.get_ident()] = i
        try:
            self.results[i] = [sut.Outcome(sut.outcome(call)) for call in self.jobs[i]]
        finally:
            self.ids.pop(threading.get_ident(), None)
            self.alive.discard(i)
            if not self.free and self.alive:
                self.turn[min(self.alive)].release()

    def go(self, patience=120):
        """Returns True when all threads finished."""
        ts = [threading.Thread(target=self._run, args=(i,), daemon=True) for i in range(self.n)]
        mon.use_tool_id(TOOL, "rv-baton")
        mon.restart_events()
        for ev in (mon.events.LINE, mon.events.PY_START, mon.events.PY_RETURN, mon.events.INSTRUCTION):
            mon.register_callback(TOOL, ev, self._event)
        mon.set_events(TOOL, self.events)
        try:
            for t in ts:
                t.start()
            self.turn[0].release()
            end = time.time() + patience
            for t in ts:
                t.join(max(0.1, end - time.time()))
        finally:
            mon.set_events(TOOL, 0)
            mon.free_tool_id(TOOL)
        return not any(t.is_alive() for t in ts)


def random_walk(rng, p):
    def pick(step, me, alive):
        if rng.random() < p:
            return rng.choice(sorted(alive))
    return pick


def preempt_at(points, to):
    """switches at the given steps, to the given threads"""
    plan = dict(zip(points, to))
    return lambda step, me, alive: plan.get(step)


def round_robin(k, n):
    def pick(step, me, alive):
        if step % k == 0:
            for d in range(1, n + 1):
                if (me + d) % n in alive:
                    return (me + d) % n
    return pick
