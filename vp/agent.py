"""A fake agent channel under virtual time, and helpers to push spans through the real reporter."""
from . import boot, wire
from .core import Injected, Violation, check
from .simloop import Sim
from tornado.concurrent import Future
from jaeger_client.reporter import Reporter
from jaeger_client.metrics import LegacyMetricsFactory, Metrics

env = boot.env


class Response(object):
    def __init__(self, body):
        self.body = body


class FakeChannel(object):
    """Behaves like the local agent sender: buffers writes, emits one datagram per flush, answers HTTP queries.

    send_faults: callable(n) -> None or exception to raise for the n-th flush.
    """

    def __init__(self, io_loop, send_fault=None):
        self.io_loop = io_loop
        self._buf = []
        self.datagrams = []       # (virtual time, bytes) successfully sent
        self.attempts = []        # (virtual time, bytes, ok)
        self.flushes = 0
        self.send_fault = send_fault
        self.sampling = []        # (time, service, future)
        self.credits = []         # (time, service, client id, operations, future)
        self.on_sampling = None
        self.on_credits = None

    def readFrame(self):
        return Future()

    def isOpen(self):
        return True

    def open(self):
        pass

    def close(self):
        pass

    def write(self, b):
        self._buf.append(bytes(b))

    def flush(self):
        data = b''.join(self._buf)
        self._buf = []
        n = self.flushes
        self.flushes += 1
        fault = self.send_fault(n) if self.send_fault else None
        self.attempts.append((env.mono, data, fault is None))
        if fault is not None:
            raise fault
        self.datagrams.append((env.mono, data))

    def request_sampling_strategy(self, service_name, timeout=None):
        fut = Future()
        self.sampling.append((env.mono, service_name, fut))
        if self.on_sampling:
            self.on_sampling(len(self.sampling) - 1, fut)
        return fut

    def request_throttling_credits(self, service_name, client_id, operations, timeout=None):
        fut = Future()
        self.credits.append((env.mono, service_name, client_id, list(operations), fut))
        if self.on_credits:
            self.on_credits(len(self.credits) - 1, fut)
        return fut


class Counters(object):
    """Metrics sink: counter totals, latest gauges and every gauge value."""

    def __init__(self):
        self.c = {}
        self.g = {}
        self.gauges = []
        self.factory = LegacyMetricsFactory(Metrics(count=self._count, gauge=self._gauge))

    def _count(self, k, v):
        self.c[k] = self.c.get(k, 0) + v

    def _gauge(self, k, v):
        self.g[k] = v
        self.gauges.append((k, v))

    def get(self, k):
        return self.c.get(k, 0)


OK, ERR, DROPPED = ('jaeger:reporter_spans.result_ok', 'jaeger:reporter_spans.result_err',
                    'jaeger:reporter_spans.result_dropped')


def decode(data):
    try:
        return wire.decode_emit_batch(data)
    except wire.DecodeError as e:
        raise Violation('datagram is not a valid batch: %s (%r...)' % (e, bytes(data[:60])))


def send_spans(tracer_fn, use, batch_size=10, capacity=100, flush=0.5):
    """Builds tracer_fn(reporter), runs use(tracer) and returns the decoded batches that reached the agent."""
    with Sim() as sim:
        ch = FakeChannel(sim.io_loop)
        m = Counters()
        rep = Reporter(ch, queue_capacity=capacity, batch_size=batch_size, flush_interval=flush,
                       metrics_factory=m.factory)
        tr = tracer_fn(rep)
        out = use(tr)
        sim.advance(3 * flush)
        tr.close()
        sim.advance(3 * flush)
        errs = sim.errors()
        check(not errs, 'exception escaped into the event loop: %r', errs[:1])
        return out, [decode(d) for _, d in ch.datagrams], m
