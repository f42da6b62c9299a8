"""Process set-up: virtual clock, controllable randomness and locks, then import of the code under test.

Everything the code under test reads from its environment (clock, random numbers, locks) is replaced by
versions a test case can own.  Outside a test case they behave like the real ones.
The code is always imported from /repo's current sources, never from cached bytecode.
"""
import os
import sys

REPO = os.environ.get('VP_REPO', '/repo')
PYVENV = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

sys.dont_write_bytecode = True
for _k in list(os.environ):
    if _k.startswith('JAEGER_') or _k.lower().endswith('_proxy') or _k == 'AGENT_HOST_PORT':
        del os.environ[_k]
if PYVENV not in sys.path:
    sys.path.append(PYVENV)

import _thread  # noqa: E402
import random as _random_mod  # noqa: E402
import threading  # noqa: E402
import time as _time_mod  # noqa: E402
import logging  # noqa: E402

import hypothesis  # noqa: E402,F401
import asyncio  # noqa: E402,F401
import tornado.ioloop  # noqa: E402,F401
import tornado.queues  # noqa: E402,F401
import tornado.httpclient  # noqa: E402,F401
import tornado.platform.asyncio  # noqa: E402,F401
import opentracing  # noqa: E402,F401
import opentracing.scope_managers  # noqa: E402,F401
import prometheus_client  # noqa: E402,F401
import thrift.protocol.TCompactProtocol  # noqa: E402,F401
import thrift.transport.TTransport  # noqa: E402,F401
import threadloop  # noqa: E402,F401


class Env(object):
    """Per-case environment owned by the harness."""
    WALL0 = float(1 << 20)

    def __init__(self):
        self.reset()
        self.sched = None

    def reset(self):
        self.virtual = False
        self.mono = 0.0
        self.wall_off = self.WALL0
        self.seedctr = 0
        self.rand_queue = None   # list of floats handed out by random()
        self.bits_queue = None   # list of integers handed out by getrandbits()
        self.det_random = True

    def wall(self):
        return self.wall_off + self.mono


env = Env()

_real_time = _time_mod.time
_real_monotonic = _time_mod.monotonic
_real_time_ns = _time_mod.time_ns
_real_monotonic_ns = _time_mod.monotonic_ns
_real_perf = _time_mod.perf_counter
_real_sleep = _time_mod.sleep


def _vtime():
    return env.wall() if env.virtual else _real_time()


def _vmono():
    return env.mono if env.virtual else _real_monotonic()


def _vtime_ns():
    return int(env.wall() * 1e9) if env.virtual else _real_time_ns()


def _vmono_ns():
    return int(env.mono * 1e9) if env.virtual else _real_monotonic_ns()


def _vperf():
    return env.mono if env.virtual else _real_perf()


_time_mod.time = _vtime
_time_mod.monotonic = _vmono
_time_mod.time_ns = _vtime_ns
_time_mod.monotonic_ns = _vmono_ns

# --- randomness -------------------------------------------------------------------------------
_RealRandom = _random_mod.Random


class DetRandom(_RealRandom):
    """random.Random whose unseeded instances are a function of the test case only."""

    def __new__(cls, *a, **k):
        return super().__new__(cls)

    def __init__(self, x=None):
        if env.det_random and _from_repo(sys._getframe(1)):
            # clock and pid are not part of the test case: the harness decides the seed
            env.seedctr += 1
            x = 7919 * env.seedctr
        super().__init__(x)

    def random(self):
        q = env.rand_queue
        if q:
            return q.pop(0)
        return super().random()

    def getrandbits(self, k):
        q = env.bits_queue
        if q:
            return q.pop(0) & ((1 << k) - 1)
        return super().getrandbits(k)


_module_random = _random_mod.random


def _patched_random():
    q = env.rand_queue
    if q:
        return q.pop(0)
    return _module_random()


_random_mod.Random = DetRandom
_random_mod.random = _patched_random


# --- locks ------------------------------------------------------------------------------------
_REPO_PREFIXES = (os.path.join(REPO, 'jaeger_client') + os.sep, os.path.join(REPO, 'crossdock') + os.sep)


def _from_repo(frame):
    return frame is not None and frame.f_code.co_filename.startswith(_REPO_PREFIXES)


_RealLock = threading.Lock
_RealRLock = threading.RLock


class SchedLock(object):
    """Lock used by the code under test; the deterministic scheduler sees it when one is running."""
    reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0
        self._real = _RealRLock() if self.reentrant else _RealLock()

    def acquire(self, blocking=True, timeout=-1):
        s = env.sched
        if s is None or not s.mine():
            if not self.reentrant and blocking and timeout == -1 and s is None and self._owner == _thread.get_ident() \
                    and self._real.locked():
                raise SelfDeadlock('non-reentrant lock acquired twice by one thread')
            r = self._real.acquire(blocking, timeout)
            if r:
                self._owner = _thread.get_ident()
            return r
        return s.lock_acquire(self, blocking)

    def release(self):
        s = env.sched
        if s is None or not s.mine():
            self._owner = None
            return self._real.release()
        return s.lock_release(self)

    def locked(self):
        if self._count:
            return True
        return False if self.reentrant else self._real.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class SchedRLock(SchedLock):
    reentrant = True


class SelfDeadlock(Exception):
    pass


def _lock_factory(*a, **k):
    return SchedLock() if _from_repo(sys._getframe(1)) else _RealLock(*a, **k)


def _rlock_factory(*a, **k):
    return SchedRLock() if _from_repo(sys._getframe(1)) else _RealRLock(*a, **k)


threading.Lock = _lock_factory
threading.RLock = _rlock_factory

# --- name resolution: a tracer asks for the host's name and address when it is built -----------
import socket as _socket_mod  # noqa: E402
_real_gethostbyname = _socket_mod.gethostbyname
_real_gethostname = _socket_mod.gethostname
_socket_mod.gethostbyname = lambda h: '10.1.2.3' if _from_repo(sys._getframe(1)) else _real_gethostbyname(h)
_socket_mod.gethostname = lambda: 'vp-host' if _from_repo(sys._getframe(1)) else _real_gethostname()

# --- logging ----------------------------------------------------------------------------------
_jl = logging.getLogger('jaeger_tracing')
_jl.addHandler(logging.NullHandler())
_jl.propagate = False
_jl.setLevel(logging.CRITICAL + 1)


class _AppErrors(logging.Handler):
    def __init__(self):
        super().__init__()
        self.records = []

    def emit(self, record):
        self.records.append(record)


app_errors = _AppErrors()
for _n in ('tornado.application', 'tornado.general', 'asyncio', 'concurrent.futures'):
    _l = logging.getLogger(_n)
    _l.addHandler(app_errors)
    _l.propagate = False
logging.getLogger('asyncio').setLevel(logging.ERROR)
logging.getLogger('tornado.general').setLevel(logging.ERROR)
logging.getLogger('tornado.application').setLevel(logging.ERROR)

# --- the code under test ----------------------------------------------------------------------
sys.pycache_prefix = '/nonexistent-vp-cache'   # never read bytecode of an earlier state of /repo
if REPO not in sys.path:
    sys.path.insert(0, REPO)
import jaeger_client  # noqa: E402
import jaeger_client.config  # noqa: E402,F401
import jaeger_client.codecs  # noqa: E402,F401
import jaeger_client.sampler  # noqa: E402,F401
import jaeger_client.throttler  # noqa: E402,F401
import jaeger_client.reporter  # noqa: E402,F401
import jaeger_client.thrift  # noqa: E402,F401
import jaeger_client.rate_limiter  # noqa: E402,F401
import jaeger_client.utils  # noqa: E402,F401
import jaeger_client.metrics  # noqa: E402,F401
import jaeger_client.metrics.prometheus  # noqa: E402,F401
import jaeger_client.local_agent_net  # noqa: E402,F401
import jaeger_client.ioloop_util  # noqa: E402,F401
assert os.path.realpath(jaeger_client.__file__).startswith(os.path.realpath(REPO) + os.sep), jaeger_client.__file__
