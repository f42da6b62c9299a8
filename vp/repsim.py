"""Drives the real remote reporter under virtual time with scripted send faults, and keeps the books."""
import socket

from . import boot
from .agent import Counters, FakeChannel, decode, ERR, OK, DROPPED
from .core import Injected, check
from .util import end_of, start_of, tracer
from jaeger_client.reporter import BaseReporter, Reporter
from tornado.concurrent import Future
import tornado.gen

env = boot.env
GAUGE = 'jaeger:reporter_queue_length'


def send_into(rep, batch, fut):
    """Lets the reporter send the batch; fut completes as its own future (or coroutine) does."""
    try:
        r = tornado.gen.convert_yielded(Reporter._send(rep, batch))
    except Exception as e:
        fut.set_exception(e)
        return
    r.add_done_callback(lambda r: fut.set_exception(r.exception()) if r.exception() is not None else fut.set_result(None))


class Books(Counters):
    def __init__(self, on_count):
        self.on_count = on_count
        super().__init__()

    def _count(self, k, v):
        super()._count(k, v)
        self.on_count(k, v)


class Nameless(BaseReporter):
    """Passes spans on to a reporter, which never learns the process."""

    def __init__(self, rep):
        self.rep = rep

    def report_span(self, span):
        self.rep.report_span(span)

    def close(self):
        return self.rep.close()


class RepSim(object):
    """faults: list of (kind, delay) for the n-th batch; kinds ok, sock, exc, write, raise, delay, delayfail."""

    def __init__(self, sim, capacity, batch, flush, faults, prefix='s', hand_out_of_order=False, process=True, error_reporter=None):
        self.sim = sim
        self.capacity, self.batch, self.flush, self.faults = capacity, batch, flush, list(faults)
        self.prefix = prefix
        self.unordered = hand_out_of_order
        self.channel = FakeChannel(sim.io_loop, send_fault=self._flush_fault)
        self.books = Books(self._on_count)
        self.fail_next = None
        self.fail_write = None
        inner_write = self.channel.write

        def write(b):
            if self.fail_write is not None:
                e, self.fail_write = self.fail_write, None
                raise e
            inner_write(b)
        self.channel.write = write
        kw = {'error_reporter': error_reporter} if error_reporter is not None else {}
        self.rep = Reporter(self.channel, queue_capacity=capacity, batch_size=batch, flush_interval=flush,
                            metrics_factory=self.books.factory, **kw)
        self.rep._send = self._send
        self.inflight = []          # names of batches being sent
        self.passed = 0             # spans handed to the sender so far
        self.enc_failed = 0
        self.failed = []            # names in batches that failed while being sent
        self.batches = 0
        self.drops = []             # (passed or failed while encoding, handed) at each drop
        self.handed = []            # names in hand-over order
        self.poison = set()
        self.closed_at_n = None     # number of spans handed over before close was called
        self.closes = []            # [time, future, done seen]
        self.last_activity = env.mono
        self.process = 'svc'
        self.sent_process = []      # service name in force for each attempted batch
        self.no_process = 0 if process else None     # spans handed over before the process was known (None: still unknown)
        self.tracer = tracer(reporter=self.rep if process else Nameless(self.rep))

    # -- faults -------------------------------------------------------------------------------
    def _flush_fault(self, n):
        e, self.fail_next = self.fail_next, None
        return e

    def _send(self, batch):
        n = self.batches
        self.batches += 1
        names = [s.operationName for s in batch.spans]
        self.passed += len(names)
        self.inflight.append(names)
        self.sent_process.append((names, self.process))
        kind, delay = self.faults[n] if n < len(self.faults) else ('ok', 0)
        if kind == 'raise':
            raise Injected('send %d' % n)
        if kind in ('delay', 'delayfail'):
            fut = Future()

            def later():
                if kind == 'delayfail':
                    fut.set_exception(Injected('send %d, late' % n))
                else:
                    send_into(self.rep, batch, fut)
            self.sim.io_loop.call_later(delay, later)
            return fut
        if kind == 'sock':
            self.fail_next = socket.error(111, 'refused')
        elif kind == 'exc':
            self.fail_next = Injected('flush %d' % n)
        elif kind == 'write':
            self.fail_write = Injected('write %d' % n)
        return Reporter._send(self.rep, batch)

    def _on_count(self, k, v):
        if k in (OK, ERR):
            check(v > 0, 'counter %s incremented by %r', k, v)
            for i, names in enumerate(self.inflight):
                if len(names) == v:
                    del self.inflight[i]
                    if k == ERR:
                        self.failed.extend(names)
                    break
            else:
                check(k == ERR, 'counted %d spans as sent, but no such batch was being sent', v)
                self.enc_failed += v
            self.last_activity = env.mono
        elif k == DROPPED:
            check(v == 1, 'dropped counter incremented by %r', v)
            self.drops.append(self.passed + self.enc_failed)

    # -- operations ---------------------------------------------------------------------------
    def report(self, n=1, poison=()):
        for i in range(n):
            name = '%s%d' % (self.prefix, len(self.handed))
            kw = {}
            if i in poison:
                kw['start_time'] = float('nan')      # cannot be encoded
                self.poison.add(name)
            else:
                kw = start_of(len(self.handed))
            self.handed.append(name)
            self.tracer.start_span(name, **kw).finish(**end_of(len(self.handed)))
        if n:
            self.last_activity = env.mono

    def set_process(self, name):
        self.process = name
        if self.no_process is None:
            self.no_process = len(self.handed)
        self.rep.set_process(name, {}, 100)

    def close(self, via='reporter'):
        if self.closed_at_n is None:
            self.closed_at_n = len(self.handed)
            self.sim.io_loop.add_callback(self._mark)       # runs after every earlier report was processed
        f = self.tracer.close() if via == 'tracer' else self.rep.close()
        self.closes.append([env.mono, f, None])
        return f

    def _mark(self):
        self.drops_at_close = self.books.get(DROPPED)

    def left_before_close(self):
        """spans accepted before close that were neither sent nor counted as failed"""
        return self.closed_at_n - self.drops_at_close - self.resolved()

    # -- books --------------------------------------------------------------------------------
    def sent(self):
        out = []
        for t, data in self.channel.datagrams:
            out.append((t, decode(data)))
        return out

    def resolved(self):
        return self.books.get(OK) + self.books.get(ERR)

    def accepted(self):
        return len(self.handed) - self.books.get(DROPPED)

    def waiting(self):
        """spans accepted and not yet handed to the sender"""
        return self.accepted() - self.passed - self.enc_failed

    def settled(self, what):
        """Invariants that hold whenever the event loop has nothing ready to run."""
        w = self.waiting()
        check(w >= 0, '%s: more spans sent or lost than accepted: %d handed over, %d dropped, %d passed on', what,
              len(self.handed), self.books.get(DROPPED), self.passed + self.enc_failed)
        limit = self.capacity if self.inflight else self.capacity + self.batch
        check(w <= limit, '%s: %d spans wait with a queue capacity of %d (batch size %d, %s)', what, w, self.capacity, self.batch,
              'batch being sent' if self.inflight else 'no batch being sent')
        check(self.passed + self.enc_failed - sum(map(len, self.inflight)) == self.resolved(),
              '%s: %d spans were passed on (%d of them still being sent) but %d counted as sent or failed', what,
              self.passed + self.enc_failed, sum(map(len, self.inflight)), self.resolved())
        for k, v in self.books.gauges:
            if k == GAUGE:
                check(0 <= v <= self.capacity + 1, '%s: queue length reported as %r with a capacity of %d', what, v, self.capacity)
        del self.books.gauges[:]
        errs = self.sim.errors()
        check(not errs, '%s: exception escaped into the event loop: %r', what, errs[:1])

    def final(self, what):
        """After everything settled: every span in exactly one place, in order."""
        sent_names = []
        procs = {tuple(n): p for n, p in self.sent_process}
        for t, b in self.sent():
            process, names = b['service'], [s['operation'] for s in b['spans']]
            check(0 < len(names) <= self.batch, '%s: batch of %d spans, batch size %d', what, len(names), self.batch)
            check(process == procs.get(tuple(names)), '%s: batch sent for process %r, expected %r', what,
                  process, procs.get(tuple(names)))
            sent_names.extend(names)
        for names, _ in self.sent_process:
            check(0 < len(names) <= self.batch, '%s: batch of %d spans, batch size %d', what, len(names), self.batch)
        index = {n: i for i, n in enumerate(self.handed)}
        check(all(n in index for n in sent_names), '%s: something was sent that was never reported', what)
        check(len(set(sent_names)) == len(sent_names), '%s: a span was sent twice: %r', what, sent_names[:60])
        if not self.unordered:
            order = [index[n] for n in sent_names]
            check(order == sorted(order), '%s: spans left in the order %r', what, sent_names[:60])
        check(not self.inflight, '%s: a batch is still being sent', what)
        lost = set(self.failed)
        check(not lost & set(sent_names), '%s: spans sent although their batch was counted as failed', what)
        check(self.books.get(OK) == len(sent_names), '%s: %d spans sent, %d counted as sent', what, len(sent_names), self.books.get(OK))
        check(self.books.get(ERR) == len(self.failed) + self.enc_failed, '%s: %d spans failed, %d counted', what,
              len(self.failed) + self.enc_failed, self.books.get(ERR))
        total = self.books.get(OK) + self.books.get(ERR) + self.books.get(DROPPED)
        check(total == len(self.handed), '%s: %d spans handed over, %d sent + %d failed + %d dropped', what, len(self.handed),
              self.books.get(OK), self.books.get(ERR), self.books.get(DROPPED))
        without = len(self.handed) if self.no_process is None else self.no_process
        check(self.enc_failed <= len(self.poison) * self.batch + without,
              '%s: %d spans failed before they were sent, %d spans cannot be encoded, %d were reported before the process was known', what,
              self.enc_failed, len(self.poison), without)
        if self.no_process is None:
            check(not sent_names and not self.sent_process, '%s: sent %r although the process is not known', what, sent_names[:5])
        if self.closes and self.accepted():
            check(self.books.g.get(GAUGE) == 0, '%s: queue length last reported as %r', what, self.books.g.get(GAUGE))
        check(not self.poison & set(sent_names), '%s: a span that cannot be encoded was sent', what)
        if not self.enc_failed and not self.unordered:
            gone = set(sent_names) | lost
            dropped = [i for i, n in enumerate(self.handed) if n not in gone]
            # a span may only be dropped while the queue is full or after close
            acc = 0
            d = 0
            for i, n in enumerate(self.handed):
                if d < len(dropped) and dropped[d] == i:
                    if self.closed_at_n is None or i < self.closed_at_n:
                        check(acc - self.drops[d] >= self.capacity, '%s: span %d dropped with only %d spans waiting, queue capacity %d',
                              what, i, acc - self.drops[d], self.capacity)
                    d += 1
                else:
                    check(self.closed_at_n is None or i < self.closed_at_n, '%s: span %d was reported after close but not dropped', what, i)
                    acc += 1
        elif self.closed_at_n is not None and not self.unordered:
            check(self.books.get(DROPPED) >= len(self.handed) - self.closed_at_n, '%s: spans reported after close were not dropped', what)
            check(not set(self.handed[self.closed_at_n:]) & set(sent_names), '%s: spans reported after close were sent', what)
