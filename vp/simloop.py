"""Discrete-event simulation of a tornado IOLoop: the clock jumps to the next timer, nothing ever sleeps."""
import asyncio
import heapq
import selectors

from . import boot
from .core import Violation
import tornado.ioloop
from tornado.platform.asyncio import BaseAsyncIOLoop

env = boot.env
MAX_STEPS = 60000


class _Selector(object):
    def __init__(self):
        self.limit = None
        self._map = {}

    def register(self, fileobj, events, data=None):
        key = selectors.SelectorKey(fileobj, fileobj if isinstance(fileobj, int) else fileobj.fileno(), events, data)
        self._map[key.fd] = key
        return key

    def unregister(self, fileobj):
        return self._map.pop(fileobj if isinstance(fileobj, int) else fileobj.fileno(), None)

    def modify(self, fileobj, events, data=None):
        return self.register(fileobj, events, data)

    def get_key(self, fileobj):
        return self._map[fileobj if isinstance(fileobj, int) else fileobj.fileno()]

    def get_map(self):
        return self._map

    def select(self, timeout=None):
        if timeout and timeout > 0:
            t = env.mono + timeout
            if self.limit is not None and t > self.limit:
                t = self.limit
            if t > env.mono:
                env.mono = t
        return []

    def close(self):
        self._map.clear()


class _Loop(asyncio.SelectorEventLoop):
    def __init__(self):
        self.vsel = _Selector()
        super().__init__(self.vsel)
        self.errors = []
        self.set_exception_handler(self._on_error)

    def _on_error(self, loop, context):
        e = context.get('exception')
        self.errors.append(e if e is not None else RuntimeError(context.get('message')))

    def time(self):
        return env.mono

    def _make_self_pipe(self):
        self._ssock = self._csock = None
        self._internal_fds = 0

    def _close_self_pipe(self):
        pass

    def _write_to_self(self):
        pass


class SimIOLoop(BaseAsyncIOLoop):
    def initialize(self, **kwargs):
        self.vloop = _Loop()
        super().initialize(self.vloop, make_current=False)


class Sim(object):
    """Owns virtual time and one IOLoop.  Use as a context manager."""

    def __init__(self):
        self.steps = 0

    def __enter__(self):
        env.virtual = True
        boot.app_errors.records.clear()
        self.io_loop = SimIOLoop()
        self.loop = self.io_loop.vloop
        asyncio.set_event_loop(self.loop)
        return self

    def __exit__(self, *exc):
        try:
            asyncio.set_event_loop(None)
            self.loop._ready.clear()
            self.loop._scheduled.clear()
            self.io_loop.close(all_fds=False)
        finally:
            env.virtual = False

    @property
    def now(self):
        return env.mono

    def _next_timer(self):
        sched = self.loop._scheduled
        while sched and sched[0]._cancelled:
            h = heapq.heappop(sched)
            h._scheduled = False
            self.loop._timer_cancelled_count -= 1
        return sched[0]._when if sched else None

    def run_until(self, t, hook=None):
        """Runs everything due up to virtual time t and leaves the clock at t."""
        self.loop.vsel.limit = t
        if asyncio._get_running_loop() is not None:
            raise RuntimeError('nested run')
        asyncio._set_running_loop(self.loop)
        self.loop._thread_id = boot._thread.get_ident()
        try:
            while True:
                if not self.loop._ready:
                    w = self._next_timer()
                    if w is None or w > t:
                        break
                self.steps += 1
                if self.steps > MAX_STEPS:
                    raise Violation('event loop livelock: more than %d iterations' % MAX_STEPS)
                self.loop._run_once()
                if hook is not None:
                    hook()
        finally:
            self.loop._thread_id = None
            asyncio._set_running_loop(None)
        if env.mono < t:
            env.mono = t

    def advance(self, dt, hook=None):
        self.run_until(env.mono + dt, hook)

    def settle(self, hook=None):
        """Runs what is ready now without letting time pass."""
        self.run_until(env.mono, hook)

    def errors(self):
        """Exceptions that escaped into the event loop."""
        out = list(self.loop.errors)
        for r in boot.app_errors.records:
            out.append(r.exc_info[1] if r.exc_info else RuntimeError(r.getMessage()))
        return out

    def idle(self):
        return not self.loop._ready and self._next_timer() is None
