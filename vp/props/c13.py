"""C13: buffered spans are flushed on time; close drains everything and completes."""
import asyncio

from hypothesis import strategies as st
from tornado.concurrent import Future
from .. import boot, gen, volume
from ..core import Injected, Test, check
from ..repsim import RepSim
from ..simloop import Sim, _Loop
from ..util import tracer, ConstSampler
from jaeger_client import ioloop_util
from jaeger_client.reporter import CompositeReporter, InMemoryReporter, LoggingReporter, NullReporter

PROP = 'C13'
RULE = ('reports, waits and closes (of the reporter, of the tracer, repeated, from inside the loop) under scripted send faults, with '
        'virtual send times; non-trivial: a flush deadline, a full batch or the completion of a close with spans still buffered was '
        'checked; composites: trees of reporters of every kind')
ASSUMPTIONS = ['close is called on the event loop the reporter runs on, or while that loop runs', 'a send that never completes is not drained']
env = boot.env

FAULT = st.one_of(st.just(('ok', 0)), st.just(('ok', 0)), st.just(('ok', 0)),
                  st.tuples(st.sampled_from(['sock', 'exc', 'write', 'raise']), st.just(0)),
                  st.tuples(st.sampled_from(['delay', 'delay', 'delayfail']), st.sampled_from([0, 0.25, 0.5, 1.0, 3.0, 20.0])))
FLUSH = st.one_of(st.sampled_from([None, 0, 0.5, 1.0, 1, 0.125, 3, 10.0, 0.01]), st.floats(0.001, 100), gen.floats(0.001, 700.0))


@st.composite
def histories(draw):
    batch = draw(st.one_of(st.integers(1, 4), st.integers(1, 12), gen.sizes(120).map(lambda n: max(1, n))))
    cap = batch + draw(st.one_of(st.integers(0, 6), gen.sizes(120)))
    flush = draw(FLUSH)
    unit = flush or 1.0
    ops = []
    closing = draw(st.integers(0, 3))
    for _ in range(draw(st.integers(1, 10))):
        k = draw(st.integers(0, 9))
        if k < 4:
            n = draw(st.one_of(st.integers(1, 3), st.sampled_from([max(1, batch - 1), batch, batch + 1, cap, cap + 1, 2 * batch])))
            ops.append(('burst', n, draw(st.sampled_from([(), (), (), (0,)]))))
        elif k < 5:
            ops.append(('settle',))
        elif k < 7 or not closing:
            ops.append(('wait', unit * draw(st.sampled_from([0.25, 0.5, 0.9, 1.0, 1.0, 1.001, 1.5, 3.0]))))
        elif k < 9:
            ops.append(('close', draw(st.sampled_from(['reporter', 'tracer', 'inside', 'foreign']))))
        else:
            ops.append(('quiet',))
    return batch, cap, flush, draw(st.lists(FAULT, max_size=5)), ops


def run(case, c):
    batch, cap, flush, faults, ops = case
    with Sim() as sim:
        r = RepSim(sim, cap, batch, flush, faults)
        done_at = [None]

        def watch():
            for cl in r.closes:
                if cl[2] is None and cl[1].done():
                    cl[2] = env.mono
                    check(cl[1].exception() is None, 'close() failed: %r', cl[1].exception())
                    check(r.left_before_close() == 0, 'close() completed with %d spans accepted before it still waiting: %r',
                          r.left_before_close(), case)
                    if done_at[0] is None:
                        done_at[0] = (len(r.channel.attempts), r.batches)

        def settle_checks(what):
            r.settled(what)
            if not r.inflight:
                check(r.waiting() < batch, '%s: %d spans wait although a batch is %d and nothing is being sent', what, r.waiting(), batch)
                if flush and r.waiting():
                    check(env.mono <= r.last_activity + flush + 1e-6, '%s: %d spans wait %.6g s after the last activity, flush interval %r',
                          what, r.waiting(), env.mono - r.last_activity, flush)
                if r.closes:
                    check(r.waiting() == 0, '%s: %d accepted spans wait although closed and nothing is being sent', what, r.waiting())
                    for t, f, d in r.closes:
                        check(f.done(), '%s: close() called at %r has not completed at %r', what, t, env.mono)
        for i, op in enumerate(ops):
            what = 'step %d %r of %r' % (i, op, case)
            if op[0] == 'burst':
                r.report(op[1], tuple(x for x in op[2] if x < op[1]))
                continue
            if op[0] == 'settle':
                sim.settle(watch)
            elif op[0] == 'wait':
                if r.waiting() and flush and op[1] >= flush:
                    c.hit('flush deadline')
                if r.waiting() >= batch:
                    c.label('full batch waiting')
                sim.advance(op[1], watch)
            elif op[0] == 'quiet':
                sim.settle(watch)
                w = r.waiting()
                sim.advance((flush or 1.0), watch)
                if w and flush:
                    c.hit('flush deadline')
            else:
                if r.waiting() or r.inflight:
                    c.hit('close with spans buffered')
                if r.closes:
                    c.hit('closed again')
                if op[1] == 'inside':
                    sim.settle(watch)
                    sim.io_loop.add_callback(r.close)
                    sim.settle(watch)
                elif op[1] == 'foreign':
                    # called by a thread with an event loop of its own
                    other = _Loop()
                    asyncio.set_event_loop(other)
                    try:
                        r.close('tracer')
                    finally:
                        asyncio.set_event_loop(sim.loop)
                        other._ready.clear()
                        other.close()
                    continue
                else:
                    r.close(op[1])
                    continue
            settle_checks(what)
        if not r.closes:
            r.close('tracer')
        sim.settle(watch)
        settle_checks('after %r' % (case,))
        sim.advance(25.0 * (len(faults) + 1), watch)
        settle_checks('at the end of %r' % (case,))
        check(done_at[0] is not None, 'close() has not completed: %r', case)
        r.report(2)
        f = r.close()
        sim.advance(20.0 * (flush or 1.0), watch)
        check(f.done(), 'a close after the end has not completed: %r', case)
        f.result()
        check((len(r.channel.attempts), r.batches) == done_at[0], 'something was sent after close() had completed: %r', case)
        r.settled('after the end of %r' % (case,))
        r.final('history %r' % (case,))
        if len(r.closes) > 2:
            c.label('many closes')


# --- composites ------------------------------------------------------------------------------------
class ManualReporter(NullReporter):
    """close() completes when the test says so"""

    def __init__(self):
        self.futs = []
        self.spans = []

    def report_span(self, span):
        self.spans.append(span)

    def close(self):
        f = Future()
        self.futs.append(f)
        return f


@st.composite
def trees(draw, depth=2):
    n = draw(st.integers(0, 4))
    out = []
    for _ in range(n):
        k = draw(st.sampled_from(['mem', 'null', 'manual', 'manual', 'remote', 'log'] + (['comp', 'comp'] if depth else [])))
        out.append(('comp', draw(trees(depth=depth - 1))) if k == 'comp' else (k,))
    return out


@st.composite
def composites(draw):
    return draw(trees()), draw(st.integers(0, 3)), draw(st.integers(1, 2)), draw(st.lists(st.tuples(
        st.integers(0, 7), st.sampled_from(['ok', 'ok', 'wait', 'exc'])), max_size=8)), draw(st.booleans())


def run_composite(case, c):
    tree, spans, closes, script, via_tracer = case
    with Sim() as sim:
        manual, remote, mem = [], [], []

        def build(nodes):
            parts = []
            for nd in nodes:
                if nd[0] == 'mem':
                    parts.append(InMemoryReporter())
                    mem.append(parts[-1])
                elif nd[0] == 'null':
                    parts.append(NullReporter())
                elif nd[0] == 'log':
                    parts.append(LoggingReporter())
                elif nd[0] == 'manual':
                    parts.append(ManualReporter())
                    manual.append(parts[-1])
                elif nd[0] == 'remote':
                    r = RepSim(sim, 10, 3, 0.5, [('delay', 2.0)])
                    remote.append(r)
                    parts.append(r.rep)
                else:
                    parts.append(build(nd[1]))
            return CompositeReporter(*parts)
        comp = build(tree)
        tr = tracer(reporter=comp, sampler=ConstSampler(True))
        for i in range(spans):
            tr.start_span('s%d' % i).finish()
        for m in mem:
            check(len(m.get_spans()) == spans, 'a part got %d of %d spans: %r', len(m.get_spans()), spans, case)
        for m in manual:
            check(len(m.spans) == spans, 'a part got %d of %d spans: %r', len(m.spans), spans, case)
        futs = [tr.close() if via_tracer else comp.close() for _ in range(closes)]
        sim.settle()
        pending = [(m, i) for i in range(closes) for m in manual]
        for m in manual:
            check(len(m.futs) == closes, 'a part was closed %d times, %d expected: %r', len(m.futs), closes, case)
        failed = False
        remote_done = False

        def verify():
            for i, f in enumerate(futs):
                parts_done = all(m.futs[i].done() for m in manual) and (remote_done or not remote or not spans)
                if f.done():
                    check(parts_done, 'a composite completed its close before its parts: %r', case)
                    if not failed:
                        f.result()
                elif parts_done:
                    check(False, 'the parts of a composite completed but not the composite: %r', case)
        verify()
        for idx, how in script:
            if how == 'wait':
                sim.advance(3.0)
                remote_done = True
            elif pending:
                m, i = pending.pop(idx % len(pending))
                if how == 'exc':
                    m.futs[i].set_exception(RuntimeError('close failed'))
                    failed = True
                    c.label('a part failed to close')
                else:
                    m.futs[i].set_result(True)
                sim.settle()
                c.label('partial completion')
            verify()
        sim.advance(5.0)
        remote_done = True
        for m, i in pending:
            m.futs[i].set_result(True)
        sim.settle()
        verify()
        for f in futs:
            check(f.done(), 'closing a composite did not complete: %r', case)
            f.exception()
        for m in manual:
            for f in m.futs:
                f.exception()
        for r in remote:
            n = sum(len(b['spans']) for _, b in r.sent())
            check(n == spans, 'a remote part sent %d of %d spans: %r', n, spans, case)
        if len(manual) + len(remote) > 1:
            c.hit('several slow parts')
        elif tree:
            c.hit('composite of %d' % min(len(tree), 3))
        check(not sim.errors(), 'exception in the event loop: %r', sim.errors()[:1])


# --- running functions on the event loop -------------------------------------------------------------
@st.composite
def submits(draw):
    return draw(st.lists(st.tuples(st.sampled_from(['value', 'raise', 'future', 'failed', 'later', 'laterfail']), st.integers(0, 5)),
                         min_size=1, max_size=4))


def run_submit(case, c):
    with Sim() as sim:
        outs = []
        for kind, v in case:
            inner = Future()

            def fn(*a, kind=kind, v=v, inner=inner, **k):
                check(a == (1,) and k == {'x': 2}, 'submitted function called with %r %r', a, k)
                if kind == 'value':
                    return v
                if kind == 'raise':
                    raise Injected(str(v))
                if kind == 'future':
                    inner.set_result(v)
                elif kind == 'failed':
                    inner.set_exception(Injected(str(v)))
                elif kind == 'later':
                    sim.io_loop.call_later(1.0, inner.set_result, v)
                else:
                    sim.io_loop.call_later(1.0, inner.set_exception, Injected(str(v)))
                return inner
            outs.append(ioloop_util.submit(fn, sim.io_loop, 1, x=2))
        sim.settle()
        for rnd in range(2):
            for (kind, v), f in zip(case, outs):
                if rnd == 0 and kind.startswith('later'):
                    check(not f.done(), 'submit completed before its function: %r', case)
                    continue
                check(f.done(), 'submit did not complete: %r', case)
                if 'fail' in kind or kind == 'raise':
                    check(isinstance(f.exception(), Injected) and str(f.exception()) == str(v), 'submit lost the error: %r', case)
                    c.hit('error')
                else:
                    check(f.result() == v, 'submit returned %r: %r', f.result(), case)
                    c.hit('value')
            sim.advance(2.0)


TESTS = [
    Test('histories', histories, run, quick=12000, rule=RULE),
    Test('composites', composites, run_composite, quick=4000, rule=RULE),
    Test('submit', submits, run_submit, quick=800, rule=RULE),
    volume.REPORTS,
]
