"""C22: closing a tracer stops all background activity, at any moment, and everything still works afterwards."""
import json
import socket
import opentracing
from hypothesis import strategies as st
from tornado.concurrent import Future
from .. import boot, gen, sched
from ..agent import Counters, FakeChannel, Response, decode, OK, ERR, DROPPED
from ..core import Injected, Test, check
from ..repsim import send_into
from ..simloop import Sim
from ..util import tracer, ConstSampler, SpanContext, Format, FORMATS, InMemoryReporter
from jaeger_client.reporter import CompositeReporter, LoggingReporter, Reporter
from jaeger_client.sampler import RemoteControlledSampler
from jaeger_client.throttler import RemoteThrottler

PROP = 'C22'
RULE = ('tracers with remote sampler, throttler and reporter over a scripted agent (answers and sends at once, late, failing or never), closed '
        'at generated moments: before the loop ran, at the very instant of a poll, from inside a query or an answer, with sends in flight; '
        'then used and run on; threads: close racing with polls at bytecode level; non-trivial: something was due or in flight at close')
ASSUMPTIONS = ['a query whose making overlaps the close call on another thread may still go out', 'sends complete or fail eventually']
env = boot.env
DOCS = [b'{"strategyType": "PROBABILISTIC", "probabilisticSampling": {"samplingRate": 1.0}}',
        b'{"strategyType": "RATE_LIMITING", "rateLimitingSampling": {"maxTracesPerSecond": 2}}',
        json.dumps({'strategyType': 'PROBABILISTIC', 'operationSampling': {
            'defaultSamplingProbability': 0.5, 'defaultLowerBoundTracesPerSecond': 1.0,
            'perOperationStrategies': [{'operation': 'op', 'probabilisticSampling': {'samplingRate': 1.0}}]}}).encode(),
        b'{"balances": [{"operation": "op", "balance": 3}]}', b'{}', b'nonsense', b'']


@st.composite
def answers(draw):
    return draw(st.sampled_from([0, 0, 0.5, 3.0, 4.0, 9.0, None])), draw(st.sampled_from(['ok', 'ok', 'ok', 'exc', 'sync', 'closes', 'closes2'])), \
        draw(st.integers(0, len(DOCS) - 1))


@st.composite
def cases(draw):
    comp = draw(st.sampled_from(['plain', 'plain', 'plain', 'logging', 'two']))
    parts = draw(st.sampled_from(['both', 'both', 'sampler', 'throttler', 'none']))
    si, ti = draw(st.sampled_from([(4.0, 4.0), (4.0, 2.0), (2.0, 5.0), (60.0, 4.0)]))
    fr = draw(st.tuples(st.sampled_from([0.0, 0.25, 0.5, 0.5, 0.75, 0.99]), st.sampled_from([0.0, 0.25, 0.5, 0.5, 0.75, 0.99])))
    qs = draw(st.lists(answers(), max_size=5))
    cs = draw(st.lists(answers(), max_size=5))
    sends = draw(st.lists(st.tuples(st.sampled_from(['ok', 'ok', 'delay', 'delay', 'fail', 'sock', 'delayfail']),
                                    st.sampled_from([0.25, 1.0, 4.0, 30.0])), max_size=6))
    flush = draw(st.sampled_from([0.5, 1.0, 1.0, None]))
    batch = draw(st.sampled_from([1, 2, 3, 10]))
    ops = []
    for _ in range(draw(st.integers(0, 7))):
        k = draw(st.integers(0, 5))
        if k < 2:
            ops.append(('span', draw(st.integers(1, 4)), draw(st.booleans())))
        elif k < 3:
            ops.append(('settle',))
        else:
            ops.append(('wait', draw(st.sampled_from([0.25, 0.5, 1.0, 2.0, 4.0, 0.96, 1.98, 3.96, 13.0, 0.3]))))
    how = draw(st.sampled_from(['outside', 'outside', 'later', 'later', 'callback', 'query', 'credit']))
    after = []
    for _ in range(draw(st.integers(1, 7))):
        k = draw(st.integers(0, 7))
        after.append(('close', draw(st.sampled_from(['tracer', 'tracer', 'sampler', 'throttler', 'reporter']))) if k < 2 else
                     ('use', draw(st.sampled_from(['span', 'root', 'debug', 'prio', 'active', 'inject', 'ask', 'late', 'process']))) if k < 6 else
                     ('wait', draw(st.sampled_from([0.0, 0.5, 4.0, 61.0]))))
    return comp, parts, si, ti, fr, qs, cs, sends, flush, batch, ops, how, draw(st.sampled_from([0.5, 1.0, 2.0, 4.0, 3.0])), after


def run(case, c):
    comp, parts, si, ti, fr, qs, cs, sends, flush, batch, ops, how, delay, after = case
    with Sim() as sim:
        ch, m = FakeChannel(sim.io_loop), Counters()
        state = {'closed': None, 'futures': [], 'n': None, 'sends': 0, 'inflight': 0, 'done_at': None, 'done_sent': None}
        late = []

        def close():
            f = tr.close()
            state['futures'].append(f)
            if state['closed'] is None:
                state['closed'] = env.mono
                state['n'] = (len(ch.sampling), len(ch.credits))
                state['busy'] = state['inflight'] or any(not x[-1].done() for x in ch.sampling + ch.credits if x[-1] is not None)
                f.add_done_callback(lambda _: state.update(done_sent=len(ch.attempts), done_at=env.mono))

        def answer(script, log, what):
            inner = getattr(ch, what)

            def request(*a, **k):
                i = len(log)
                delay_, kind, doc = script[i] if i < len(script) else (0, 'ok', i % 3)
                if kind == 'sync':
                    log.append((env.mono, None))
                    raise Injected('request %d' % i)
                fut = inner(*a, **k)

                def give():
                    if kind == 'closes2' and i > 0:
                        close()
                    if kind == 'exc':
                        fut.set_exception(Injected('answer %d' % i))
                    else:
                        fut.set_result(Response(DOCS[doc]))
                if kind == 'closes' and i > 0:
                    close()
                if (how, what) in (('query', 'request_sampling_strategy'), ('credit', 'request_throttling_credits')):
                    close()
                if delay_ == 0:
                    give()
                elif delay_ is None:
                    late.append(give)
                else:
                    sim.io_loop.call_later(delay_, give)
                return fut
            setattr(ch, what, request)
        answer(qs, ch.sampling, 'request_sampling_strategy')
        answer(cs, ch.credits, 'request_throttling_credits')
        env.rand_queue = list(fr)
        sampler = RemoteControlledSampler(ch, 'svc', sampling_refresh_interval=si, metrics_factory=m.factory, init_sampler=ConstSampler(True)) \
            if parts in ('both', 'sampler') else ConstSampler(True)
        th = RemoteThrottler(ch, 'svc', refresh_interval=ti, metrics_factory=m.factory) if parts in ('both', 'throttler') else None
        rep = Reporter(ch, queue_capacity=30, batch_size=batch, flush_interval=flush, metrics_factory=m.factory)

        def send(b):
            kind, d = sends[state['sends']] if state['sends'] < len(sends) else ('ok', 0)
            state['sends'] += 1
            if kind == 'ok':
                return Reporter._send(rep, b)
            if kind == 'fail':
                raise Injected('send')
            if kind == 'sock':
                raise socket.error(111, 'refused')
            state['inflight'] += 1
            fut = Future()

            def finish():
                state['inflight'] -= 1
                if kind == 'delayfail':
                    fut.set_exception(Injected('send'))
                else:
                    send_into(rep, b, fut)
            sim.io_loop.call_later(d, finish)
            return fut
        rep._send = send
        top = rep
        if comp == 'logging':
            top = CompositeReporter(rep, LoggingReporter())
        elif comp == 'two':
            top = CompositeReporter(rep, InMemoryReporter())
        tr = tracer(reporter=top, sampler=sampler, throttler=th)
        env.rand_queue = []

        def look(what):
            check(not sim.errors(), '%s: exception in the event loop: %r', what, sim.errors()[:1])
            if state['closed'] is not None:
                n = (len(ch.sampling), len(ch.credits))
                check(n == state['n'], '%s: %d sampling queries and %d credit requests made after close: %r', what, n[0] - state['n'][0],
                      n[1] - state['n'][1], case)
            if state['done_sent'] is not None:
                check(len(ch.attempts) == state['done_sent'], '%s: something was sent after the close completed: %r', what, case)

        def spans(n, unsampled=False):
            for i in range(n):
                tr.start_span('op', child_of=SpanContext(5, 6, None, 1)).finish()
            if unsampled:
                s = tr.start_span('op', child_of=SpanContext(5, 6, None, 0))
                s.set_tag('sampling.priority', 1)
                s.finish()
        for i, op in enumerate(ops):
            if op[0] == 'span':
                spans(op[1], op[2])
            elif op[0] == 'settle':
                sim.settle()
            else:
                sim.advance(op[1])
            look('step %d %r' % (i, op))
        if how == 'later':
            sim.io_loop.add_callback(lambda: sim.io_loop.call_later(delay, close))
        elif how == 'callback':
            sim.io_loop.add_callback(close)
        elif how == 'outside' or state['closed'] is None and parts == 'none':
            close()
        if state['closed'] is None:
            sim.advance(max(si, ti) * 2 + 1)
        if state['closed'] is None:
            close()
        look('after close')
        if state.get('busy'):
            c.hit('busy at close')
        if state['n'] == (0, 0) and parts != 'none':
            c.hit('before the first poll')
        elif any(state['n']):
            c.hit('between polls')
        for i, op in enumerate(after):
            what = 'after close, step %d %r of %r' % (i, op, case)
            if op[0] == 'wait':
                sim.advance(op[1])
            elif op[0] == 'close':
                if op[1] == 'tracer':
                    close()
                elif op[1] == 'reporter':
                    state['futures'].append(top.close())
                elif op[1] == 'sampler':
                    sampler.close()
                elif th is not None:
                    th.close()
            elif op[1] == 'span':
                spans(2, True)
            elif op[1] == 'root':
                with tr.start_span('op', ignore_active_span=True, tags={'a': 1}) as s:
                    s.log_kv({'event': 'x'})
                    s.set_baggage_item('a', 'b')
            elif op[1] == 'debug':
                tr.start_span('op', child_of=tr.extract(Format.TEXT_MAP, {'jaeger-debug-id': 'x'})).finish()
            elif op[1] == 'prio':
                s = tr.start_span('new%d' % i)
                s.set_tag('sampling.priority', 1)
                s.finish()
            elif op[1] == 'active':
                with tr.start_active_span('op') as sc:
                    tr.start_span('kid').finish()
                    check(tr.active_span is sc.span, '%s: not active', what)
            elif op[1] == 'inject':
                for f, k in FORMATS.items():
                    tr.inject(tr.start_span('op').context, k, bytearray() if f == 'binary' else {})
            elif op[1] == 'ask':
                for o in ('op', 'other%d' % i):
                    d, t = sampler.is_sampled(2 ** 63, o)
                    check(d is True or d is False, '%s: decision %r', what, d)
                    if th is not None:
                        d = th.is_allowed(o)
                        check(d is True or d is False, '%s: allowed %r', what, d)
            elif op[1] == 'process':
                top.set_process('other', {'a': 'b'}, 5)
            else:
                while late:
                    c.label('late answer')
                    late.pop()()
            look(what)
        while late:
            late.pop()()
        total = sum(d for k, d in sends) + 10
        sim.advance(total + 3 * si)
        look('long after close')
        check(all(f.done() for f in state['futures']), 'a close did not complete: %r', case)
        check(all(f.exception() is None for f in state['futures']), 'a close failed: %r', case)
        n0 = m.get(OK) + m.get(ERR)
        spans(3, True)
        close()
        sim.advance(200.0)
        look('long after close')
        check(state['futures'][-1].done(), 'the last close did not complete: %r', case)
        check(m.get(OK) + m.get(ERR) == n0, 'spans reported after close were sent: %r', case)
        check(m.get(DROPPED) >= 3, 'spans reported after close were not counted as dropped: %r', case)
        for _, d in ch.datagrams:
            decode(d)


# --- close on another thread, racing with polls -----------------------------------------------------------------
@st.composite
def races(draw):
    return draw(st.sampled_from([0.0, 0.5, 0.99])), draw(st.sampled_from([0.0, 0.5, 0.99])), draw(st.sampled_from([0.1, 2.0, 4.1, 9.0])), \
        draw(st.sampled_from([0.0, 2.0, 6.0])), draw(st.booleans()), \
        draw(st.lists(st.sampled_from(['sampler', 'throttler', 'tracer', 'spans', 'ask']), min_size=1, max_size=3)), draw(sched.plans(st, 700, 8))


def run_race(case, c):
    f1, f2, run_for, before, settle, what, plan = case
    with Sim() as sim:
        ch = FakeChannel(sim.io_loop)
        ch.on_sampling = lambda i, fut: fut.set_result(Response(DOCS[i % 3]))
        ch.on_credits = lambda i, fut: fut.set_result(Response(DOCS[3]))
        env.rand_queue = [f1, f2]
        sampler = RemoteControlledSampler(ch, 'svc', sampling_refresh_interval=4.0, init_sampler=ConstSampler(True))
        th = RemoteThrottler(ch, 'svc', refresh_interval=4.0)
        tr = tracer(sampler=sampler, throttler=th)
        th.is_allowed('op')
        if settle:
            sim.settle()
        if before:
            sim.advance(before)
        env.rand_queue = []

        def loop():
            sim.advance(run_for)

        def closer():
            if 'sampler' in what:
                sampler.close()
            if 'throttler' in what:
                th.close()
            if 'tracer' in what:
                sampler.close()
                th.close()

        def user():
            for _ in range(2):
                tr.start_span('op').finish()
                s = tr.start_span('op2')
                s.set_tag('sampling.priority', 1)
                s.finish()
        fns = [closer, loop] + ([user] if 'spans' in what or 'ask' in what else [])
        s = sched.Sched(plan)
        s.run(fns)
        stopped = ('sampler' in what or 'tracer' in what, 'throttler' in what or 'tracer' in what)
        if not stopped[0]:
            sampler.close()
        if not stopped[1]:
            th.close()
        n = (len(ch.sampling), len(ch.credits))
        sim.advance(20.0)
        n2 = (len(ch.sampling), len(ch.credits))
        check(n2 == n, 'requests went on after close: %r then %r: %r', n, n2, case)
        check(not sim.errors(), 'exception in the event loop: %r', sim.errors()[:1])
        if s.preempted_mid and any(stopped):
            c.hit('interleaved')


TESTS = [
    Test('histories', cases, run, quick=10000, rule=RULE),
    Test('races', races, run_race, quick=6000, rule=RULE),
]
