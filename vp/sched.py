"""Deterministic scheduler for real threads running the code under test.

One thread holds the baton at any time.  While a thread executes code of the package under test, every
bytecode instruction is a possible switching point; where switches happen is part of the generated case.
"""
import _thread
import sys

from . import boot
from .core import Violation, HarnessError

STEP_LIMIT = 400000


class _Abort(BaseException):
    pass


class _T(object):
    __slots__ = ('idx', 'fn', 'gate', 'state', 'exc', 'result', 'blocked_on', 'ident')

    def __init__(self, idx, fn):
        self.idx = idx
        self.fn = fn
        self.gate = _thread.allocate_lock()
        self.gate.acquire()
        self.state = 'ready'      # ready, blocked, done
        self.exc = None
        self.result = None
        self.blocked_on = None
        self.ident = None


class Sched(object):
    """plan: list of (steps, pick) - after `steps` more switching points go to the pick-th other runnable thread."""

    def __init__(self, plan, only=None):
        self.plan = [tuple(p) for p in plan]
        self.pos = 0
        self.budget = None
        self.threads = []
        self.cur = None
        self.main_gate = _thread.allocate_lock()
        self.main_gate.acquire()
        self.aborting = False
        self.deadlock = None
        self.steps = 0
        self.switches = 0
        self.preempted_mid = 0
        self.only = only
        self._load()

    def _load(self):
        if self.pos < len(self.plan):
            self.budget = self.plan[self.pos][0]
        else:
            self.budget = None

    def mine(self):
        c = self.cur
        return c is not None and c.ident == _thread.get_ident()

    # -- switching --------------------------------------------------------------------------
    def _others(self, me):
        n = len(self.threads)
        out = []
        for k in range(1, n + 1):
            t = self.threads[(me.idx + k) % n]
            if t is not me and t.state == 'ready':
                out.append(t)
        return out

    def _transfer(self, me, to):
        self.cur = to
        self.switches += 1
        to.gate.release()
        me.gate.acquire()
        if self.aborting:
            raise _Abort()

    def point(self):
        me = self.cur
        self.steps += 1
        if self.steps > STEP_LIMIT:
            self.deadlock = 'no progress within %d steps' % STEP_LIMIT
            self.aborting = True
            raise _Abort()
        if self.budget is None:
            return
        if self.budget > 0:
            self.budget -= 1
            return
        pick = self.plan[self.pos][1]
        self.pos += 1
        self._load()
        others = self._others(me)
        if others:
            self.preempted_mid += 1
            self._transfer(me, others[pick % len(others)])

    def _block(self, me):
        others = self._others(me)
        if not others:
            self.deadlock = 'deadlock: every thread waits for a lock'
            self.aborting = True
            raise _Abort()
        self._transfer(me, others[0])

    # -- locks ------------------------------------------------------------------------------
    def lock_acquire(self, lock, blocking):
        me = self.cur
        if self.budget is not None:
            self.point()
        while lock._count and not (lock.reentrant and lock._owner is me):
            if not blocking:
                return False
            if lock._owner is me:
                self.deadlock = 'deadlock: thread acquired a lock it already holds'
                self.aborting = True
                raise _Abort()
            me.state = 'blocked'
            me.blocked_on = lock
            self._block(me)
        lock._owner = me
        lock._count += 1
        return True

    def lock_release(self, lock):
        if self.aborting:
            lock._count = 0
            lock._owner = None
            return
        lock._count -= 1
        if lock._count == 0:
            lock._owner = None
            for t in self.threads:
                if t.state == 'blocked' and t.blocked_on is lock:
                    t.state = 'ready'
                    t.blocked_on = None

    # -- running ----------------------------------------------------------------------------
    def _trace(self, frame, event, arg):
        if boot._from_repo(frame):
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == 'opcode':
            self.point()
        return self._local

    def _body(self, t):
        t.ident = _thread.get_ident()
        t.gate.acquire()
        try:
            if not self.aborting:
                sys.settrace(self._trace)
                try:
                    t.result = t.fn()
                finally:
                    sys.settrace(None)
        except _Abort:
            pass
        except BaseException as e:  # noqa
            t.exc = e
        t.state = 'done'
        self._finish(t)

    def _finish(self, t):
        nxt = None
        if self.aborting:
            for o in self.threads:
                if o.state != 'done':
                    nxt = o
                    break
        else:
            o = self._others(t)
            if o:
                nxt = o[0]
            elif any(x.state == 'blocked' for x in self.threads):
                self.deadlock = 'deadlock: remaining threads wait for a lock nobody will release'
                self.aborting = True
                nxt = [x for x in self.threads if x.state == 'blocked'][0]
        if nxt is None:
            self.cur = None
            self.main_gate.release()
        else:
            self.cur = nxt
            nxt.gate.release()

    def run(self, fns, timeout=120):
        self.threads = [_T(i, f) for i, f in enumerate(fns)]
        boot.env.sched = self
        try:
            for t in self.threads:
                _thread.start_new_thread(self._body, (t,))
            self.cur = self.threads[0]
            self.threads[0].gate.release()
            if not self.main_gate.acquire(True, timeout):
                raise HarnessError('scheduled threads did not finish')
        finally:
            boot.env.sched = None
        for t in self.threads:
            if t.exc is not None:
                raise t.exc
        if self.deadlock:
            raise Violation(self.deadlock)
        return [t.result for t in self.threads]


def plans(st, max_steps=400, max_switches=6):
    """Strategy for switching plans; one, two and many switches are all common."""
    # a switch back to the first thread typically happens when the other is done, so few switches go far
    step = st.one_of(st.integers(0, 60), st.integers(0, max_steps))
    return st.lists(st.tuples(step, st.integers(0, 2)), min_size=0, max_size=max_switches)
