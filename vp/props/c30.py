"""C30: code of the application that the client calls may itself use the client."""
import json
import logging
import opentracing
from hypothesis import strategies as st
from .. import boot, sched
from ..agent import Counters, FakeChannel, Response, decode
from ..core import Injected, Test, check
from ..simloop import Sim
from .c20 import clear_env, fresh_config
from ..util import FORMATS, NETTAGS, ConstSampler
from jaeger_client import Tracer
from jaeger_client.metrics import LegacyMetricsFactory, Metrics
from jaeger_client.reporter import BaseReporter, CompositeReporter, LoggingReporter, Reporter
from jaeger_client.sampler import RemoteControlledSampler
from jaeger_client.throttler import RemoteThrottler
from jaeger_client.utils import ErrorReporter

PROP = 'C30'
RULE = ('histories of spans, polls and sends under a tracer with remote sampler, throttler and reporter, where log handlers, string '
        'conversions of values, carriers, reporters and metrics call back into the tracer; non-trivial: a call back happened while the client '
        'was working on a span or an answer; locks: two threads, one calling the client with a lock that the callbacks of the other take, '
        'with bytecode switches; non-trivial: threads were interleaved')
ASSUMPTIONS = ['call backs do not call themselves for ever', 'metrics backends use other spans than the one being worked on',
               'a priority of a span is a number']
env = boot.env
M64 = (1 << 64) - 1
ADAPTIVE = {'strategyType': 'PROBABILISTIC', 'operationSampling': {
    'defaultSamplingProbability': 1.0, 'defaultLowerBoundTracesPerSecond': 1.0,
    'perOperationStrategies': [{'operation': 'op', 'probabilisticSampling': {'samplingRate': 1.0}}]}}
STRATEGIES = [json.dumps(x).encode() for x in (
    {'strategyType': 'PROBABILISTIC', 'probabilisticSampling': {'samplingRate': 1.0}},
    {'strategyType': 'PROBABILISTIC', 'probabilisticSampling': {'samplingRate': 0.5}},
    {'strategyType': 'RATE_LIMITING', 'rateLimitingSampling': {'maxTracesPerSecond': 100}},
    {'strategyType': 'RATE_LIMITING', 'rateLimitingSampling': {'maxTracesPerSecond': 3}},
    ADAPTIVE, dict(ADAPTIVE, operationSampling=dict(ADAPTIVE['operationSampling'], defaultSamplingProbability=0.5)),
    {'strategyType': 'RATE_LIMITING', 'rateLimitingSampling': {'maxTracesPerSecond': 1000}}, {'strategyType': 'WHAT'}, {}, [])] + [b'nonsense']
CREDITS = [json.dumps(x).encode() for x in (
    {'balances': [{'operation': 'op', 'balance': 2}, {'operation': 'q', 'balance': 1.5}]}, {'balances': []},
    {'balances': [{'operation': 'op', 'balance': -1}]}, {'balances': [{'operation': 'op', 'balance': 'x'}]}, {})] + [b'nonsense']
ON_SELF = ['tag', 'tag', 'log', 'rename', 'baggage', 'again', 'inject', 'read', 'start', 'start', 'child', 'active', 'debug', 'repr', 'join']
ON_OTHERS = ['start', 'start', 'active', 'other', 'debug', 'join']


@st.composite
def cases(draw):
    ops = []
    for _ in range(draw(st.integers(2, 10))):
        k = draw(st.integers(0, 11))
        i = draw(st.integers(0, 3))
        if k < 2:
            ops.append(('start', draw(st.sampled_from(['op', 'q'])), draw(st.sampled_from(['root', 'root', 'child', 'active'])),
                        draw(st.integers(0, 2))))
        elif k < 4:
            ops.append(('tag', i, draw(st.sampled_from(['value', 'value', 'plain', 'list', 'error']))))
        elif k < 5:
            ops.append(('log', i, draw(st.sampled_from(['value', 'two', 'legacy']))))
        elif k < 6:
            ops.append(('carry', i, draw(st.sampled_from(sorted(FORMATS)))))
        elif k < 8:
            ops.append(('finish', i))
        elif k < 9:
            ops.append(('prio', i, draw(st.sampled_from([1, 1, 1, 0, 5]))))
        elif k < 10:
            ops.append(('process',))
        else:
            ops.append(('wait', draw(st.sampled_from([0.0, 0.5, 2.0, 4.0, 4.0]))))
    return (ops, draw(st.lists(st.sampled_from(ON_SELF), min_size=1, max_size=4)), draw(st.lists(st.sampled_from(ON_OTHERS), min_size=1, max_size=2)),
            draw(st.lists(st.integers(0, len(STRATEGIES) - 1), max_size=4)), draw(st.lists(st.integers(0, len(CREDITS) - 1), max_size=4)),
            draw(st.lists(st.sampled_from(['ok', 'ok', 'fail', 'sock']), max_size=4)), draw(st.sampled_from(['remote', 'both', 'own', 'own', 'inside'])),
            draw(st.integers(1, 3)))


class Hook(logging.Handler):
    """A log handler which uses the tracer."""

    def __init__(self, act, lock=None):
        super().__init__()
        self.act = act
        self.lock = lock
        self.records = []

    def emit(self, record):
        self.records.append(record.getMessage())
        self.act('handler')


class Value(object):
    """A value whose string conversion uses the tracer."""

    def __init__(self, act):
        self.act = act

    def __str__(self):
        self.act('value')
        return 'text'


class Failure(Exception):
    """An error whose message uses the tracer."""

    def __init__(self, act):
        super().__init__()
        self.act = act

    def __str__(self):
        self.act('value')
        return 'failed'


class Carrier(dict):
    def __init__(self, act):
        super().__init__()
        self.act = act

    def __setitem__(self, k, v):
        self.act('carrier')
        super().__setitem__(k, v)

    def items(self):
        self.act('carrier')
        return super().items()


class Buffer(bytearray):
    act = None

    def extend(self, x):
        self.act('carrier')
        super().extend(x)


class Own(BaseReporter):
    def __init__(self, inner, act):
        self.inner = inner
        self.act = act
        self.n = 0

    def report_span(self, span):
        self.n += 1
        self.act('reporter')
        self.inner.report_span(span)

    def set_process(self, *a, **k):
        self.inner.set_process(*a, **k)

    def close(self):
        return self.inner.close()


class Book(object):
    """What has been recorded, span by span."""

    def __init__(self):
        self.spans = []       # [span, required tags and logs, those recorded once it was finished, times finished while sampled]

    def add(self, sp):
        self.spans.append([sp, [], [], 0])
        return len(self.spans) - 1

    def note(self, i, what):
        b = self.spans[i]
        if b[0].is_sampled():
            (b[2] if b[3] else b[1]).append(what)


def run(case, c):
    ops, mine, others, polls, credits, sends, how, depth = case
    jl = logging.getLogger('jaeger_tracing')
    level = jl.level
    with Sim() as sim:
        book, cur, state = Book(), [None], {'depth': 0, 'n': 0, 'errors': [], 'busy': 0, 'on': True}
        tr = None

        def act(source):
            """The application's code, called by the client."""
            if state['depth'] >= depth or not state['on'] or tr is None or state['n'] >= 60:
                return
            state['depth'] += 1
            state['n'] += 1
            n = state['n']
            script = others if source == 'metrics' else mine
            what = script[n % len(script)]
            was = cur[0]
            if source == 'metrics':
                cur[0] = None
            if state['busy']:
                c.hit('from %s' % source)
            try:
                use(what, n)
            except Exception as e:
                state['errors'].append((source, what, e))
            finally:
                state['depth'] -= 1
                cur[0] = was

        def use(what, n):
            i = cur[0]
            if i is None and what not in ('start', 'active', 'debug', 'join', 'other'):
                what = 'start'
            if what in ('start', 'child', 'active', 'debug', 'other'):
                if what == 'active':
                    with tr.start_active_span('op', ignore_active_span=True) as scope:
                        j = book.add(scope.span)
                        scope.span.set_tag('in%d' % n, n)
                        book.note(j, 'in%d' % n)
                        book.spans[j][3] += scope.span.is_sampled()
                    return
                if what == 'debug':
                    ctx = tr.extract('text_map', {'jaeger-debug-id': 'x'})
                else:
                    ctx = book.spans[i][0] if what == 'child' else None
                sp = tr.start_span('op', child_of=ctx, ignore_active_span=True)
                j = book.add(sp)
                sp.set_tag('in%d' % n, n)
                book.note(j, 'in%d' % n)
                if what == 'other':
                    sp.log_kv({'ev%d' % n: 1})
                    book.note(j, 'ev%d' % n)
                finish(j)
                return
            if what == 'join':
                tr.extract('http_headers', {'uber-trace-id': '1:2:3:1', 'uberctx-k': 'v'})
                return
            sp = book.spans[i][0]
            if what == 'tag':
                sp.set_tag('in%d' % n, 'v')
                book.note(i, 'in%d' % n)
            elif what == 'log':
                sp.log_kv({'ev%d' % n: 1})
                book.note(i, 'ev%d' % n)
            elif what == 'rename':
                sp.set_operation_name('op')
            elif what == 'baggage':
                sp.set_baggage_item('k%d' % n, 'v')
                check(sp.get_baggage_item('k%d' % n) == 'v', 'baggage %d is missing', n)
            elif what == 'again':
                if book.spans[i][3]:
                    finish(i)
            elif what == 'inject':
                d = {}
                tr.inject(sp.context, 'text_map', d)
                check('uber-trace-id' in d, 'nothing was injected')
            elif what == 'read':
                sp.is_rpc(), sp.is_debug(), sp.get_baggage_item('k'), sp.trace_id
            elif what == 'repr':
                check('op' in repr(sp) or 'q' in repr(sp), 'no text')

        def finish(i):
            b = book.spans[i]
            if b[0].is_sampled():
                b[3] += 1
            b[0].finish()

        def work(f):
            state['busy'] += 1
            try:
                return f()
            finally:
                state['busy'] -= 1
        hook = Hook(act)
        lg = logging.Logger('app', logging.DEBUG)
        lg.addHandler(hook)
        jl.addHandler(hook)
        jl.setLevel(logging.DEBUG)
        try:
            ch = FakeChannel(sim.io_loop, send_fault=lambda n: (Injected('send') if sends[n] == 'fail' else OSError('send'))
                             if n < len(sends) and sends[n] != 'ok' else None)
            ch.on_sampling = lambda k, fut: fut.set_result(Response(STRATEGIES[polls[k % len(polls)] if polls else 0]))
            ch.on_credits = lambda k, fut: fut.set_result(Response(CREDITS[credits[k % len(credits)] if credits else 0]))
            counts = Counters()

            def count(k, v):
                counts._count(k, v)
                act('metrics')

            def gauge(k, v):
                counts._gauge(k, v)
                if len(counts.gauges) % 4 == 1:
                    act('metrics')
            mf = LegacyMetricsFactory(Metrics(count=count, gauge=gauge))
            er = ErrorReporter(Metrics(), lg, log_interval_minutes=-1)
            env.rand_queue = [0.5, 0.5]
            sampler = RemoteControlledSampler(ch, 'svc', sampling_refresh_interval=4.0, metrics_factory=mf, error_reporter=er, logger=lg,
                                              init_sampler=ConstSampler(True))
            th = RemoteThrottler(ch, 'svc', refresh_interval=4.0, metrics_factory=mf, error_reporter=er, logger=lg)
            remote = rep = Reporter(ch, queue_capacity=1000, batch_size=5, flush_interval=0.5, metrics_factory=mf, error_reporter=er)
            if how == 'both':
                rep = CompositeReporter(rep, LoggingReporter(logger=lg))
            elif how == 'own':
                rep = Own(rep, act)
            elif how == 'inside':
                rep = CompositeReporter(LoggingReporter(logger=lg), Own(rep, act))
            tr = Tracer('svc', rep, sampler, metrics_factory=mf, throttler=th, tags=dict(NETTAGS), debug_id_header='jaeger-debug-id')
            for k, op in enumerate(ops):
                n = len(book.spans)
                i = op[1] % n if n and len(op) > 1 and type(op[1]) is int else None
                if op[0] == 'wait':
                    cur[0] = n - 1 if n else None
                    work(lambda: sim.advance(op[1]))
                elif op[0] == 'process':
                    cur[0] = n - 1 if n else None
                    work(lambda: rep.set_process('svc', {'a': Value(act)}, 100))
                elif op[0] == 'start' or i is None:
                    name, kind, tags = op[1:] if op[0] == 'start' else ('op', 'root', 0)
                    kw = {'tags': {'v%d' % t: Value(act) for t in range(tags)}} if tags else {}
                    if kind == 'child' and n:
                        kw['child_of'] = book.spans[n - 1][0]
                    cur[0] = n - 1 if n else None
                    if kind == 'active':
                        def scoped():
                            scope = tr.start_active_span(name, ignore_active_span=True, finish_on_close=False, **kw)
                            scope.close()
                            return scope.span
                        sp = work(scoped)
                    else:
                        sp = work(lambda: tr.start_span(name, ignore_active_span=True, **kw))
                    j = book.add(sp)
                    for t in range(tags):
                        book.note(j, 'v%d' % t)
                else:
                    cur[0] = i
                    sp = book.spans[i][0]
                    if op[0] == 'tag':
                        v = {'value': Value(act), 'plain': k, 'list': [1, Value(act)], 'error': Failure(act)}[op[2]]
                        book.note(i, 't%d' % k)
                        work(lambda: sp.set_tag('t%d' % k, v))
                    elif op[0] == 'log':
                        names = ['l%d' % k, 'm%d' % k] if op[2] == 'two' else ['l%d' % k]
                        if op[2] == 'legacy':
                            book.note(i, 'payload')
                            work(lambda: sp.log_event('e', payload=Value(act)))
                        else:
                            for x in names:
                                book.note(i, x)
                            work(lambda: sp.log_kv({x: Value(act) for x in names}))
                    elif op[0] == 'carry':
                        if op[2] == 'binary':
                            carrier = Buffer()
                            carrier.act = act
                        else:
                            carrier = Carrier(act)
                        work(lambda: (tr.inject(sp.context, FORMATS[op[2]], carrier), tr.extract(FORMATS[op[2]], carrier)))
                    elif op[0] == 'finish':
                        if book.spans[i][3]:
                            c.label('finished again')
                        work(lambda: finish(i))
                    elif op[0] == 'prio':
                        was = sp.is_sampled()
                        work(lambda: sp.set_tag('sampling.priority', op[2]))
                        if was and not sp.is_sampled():
                            c.label('unsampled')
            cur[0] = None
            sim.advance(6.0)
            state['on'] = False
            tr.close()
            sim.advance(3.0)
            check(not state['errors'], 'the tracer cannot be used from a %s: %s failed with %r', *(state['errors'] or [('', '', '')])[0])
            check(not sim.errors(), 'exception escaped into the event loop: %r', sim.errors()[:1])
            got = {}
            for _, d, ok in ch.attempts:
                for s in decode(d)['spans']:
                    got.setdefault(s['span_id'] & M64, []).append(s)
            want = {}
            for b in book.spans:
                if b[3]:
                    want[b[0].span_id] = b
            for sid, b in want.items():
                check(len(got.get(sid, [])) == 1, 'span %x was finished %d times and sent %d times', sid, b[3], len(got.get(sid, [])))
                s = got[sid][0]
                keys = sorted([t[0] for t in s['tags']] + [f[0] for g in s['logs'] for f in g[1]])
                for x in set(b[1]):
                    check(keys.count(x) == b[1].count(x) or x in b[2], 'span %x: %r was recorded %d times and sent %d times', sid, x,
                          b[1].count(x), keys.count(x))
            check(set(got) <= set(want), 'spans %r were sent, finished were %r', set(got) - set(want), set(want))
            if how == 'own':
                check(rep.n == len(want), '%d spans were reported, %d were finished', rep.n, len(want))
            assert remote is not None
        finally:
            jl.removeHandler(hook)
            jl.setLevel(level)


# ---- threads and the application's own lock -----------------------------------------------------------
SETTINGS = {'service_name': 'x', 'sampler': {'type': 'const', 'param': 1}, 'logging': True, 'local_agent': {'reporting_host': '127.0.0.1'}}
INSIDE = ['tag', 'log', 'start', 'finish', 'again', 'rename', 'baggage', 'warn', 'warn', 'carry', 'value', 'logvalue']


@st.composite
def threads(draw):
    role = draw(st.sampled_from(['span', 'span', 'loop', 'both', 'config']))
    return (role, draw(st.lists(st.sampled_from(['again', 'again', 'value', 'logvalue', 'carry', 'report', 'tagged']), min_size=1, max_size=3)),
            draw(st.lists(st.sampled_from(INSIDE), min_size=1, max_size=3)), draw(st.integers(0, len(STRATEGIES) - 1)),
            draw(st.integers(0, len(CREDITS) - 1)), draw(st.sampled_from(['tag', 'log', 'start', 'child', 'rename', 'baggage'])),
            draw(st.booleans()), draw(sched.plans(st, 500, 6)))


def run_threads(case, c):
    role, first, second, poll, credit, react, again, plan = case
    clear_env()
    jl = logging.getLogger('jaeger_tracing')
    level = jl.level
    with Sim() as sim:
        lock = boot.SchedRLock()
        reported, depth, made = [], {}, []
        tr = span = C = None
        was = {k: getattr(opentracing, k) for k in ('tracer', 'is_tracer_registered')}

        def act(source):
            """Takes the application's lock and uses the tracer, as a log handler does."""
            with lock:
                me = boot._thread.get_ident()
                if tr is None or depth.get(me):
                    return
                depth[me] = 1
                try:
                    if role == 'config':
                        C.initialized()
                    use(span, react)
                finally:
                    depth[me] = 0

        def use(sp, what):
            if what == 'tag':
                sp.set_tag('x', 1)
            elif what == 'log':
                sp.log_kv({'x': 1})
            elif what == 'start':
                tr.start_span('op').finish()
            elif what == 'child':
                tr.start_span('op', child_of=sp).finish()
            elif what in ('finish', 'again'):
                sp.finish()
            elif what == 'rename':
                sp.set_operation_name('y')
            elif what == 'baggage':
                sp.set_baggage_item('x', 'y')
            elif what == 'warn':
                jl.warning('from the application')
            elif what == 'carry':
                tr.inject(sp.context, 'text_map', Carrier(act))
            elif what == 'value':
                sp.set_tag('v', Value(act))
            elif what == 'logvalue':
                sp.log_kv({'v': Value(act)})
            elif what == 'tagged':
                tr.start_span('op', tags={'a': Value(act)}).finish()
            elif what == 'report':
                tr.start_span('op').finish()
            elif what == 'prio':
                sp.set_tag('sampling.priority', 1)

        class Rep(BaseReporter):
            def report_span(self, sp):
                reported.append(sp)
                act('reporter')
        hook = Hook(act, lock)
        jl.addHandler(hook)
        jl.setLevel(logging.DEBUG)
        try:
            ch = FakeChannel(sim.io_loop)
            ch.on_sampling = lambda k, fut: fut.set_result(Response(STRATEGIES[poll]))
            ch.on_credits = lambda k, fut: fut.set_result(Response(CREDITS[credit]))

            def metric(k, v):
                with lock:
                    pass
            mf = LegacyMetricsFactory(Metrics(count=metric, gauge=metric))
            er = ErrorReporter(Metrics(), jl, log_interval_minutes=-1)
            env.rand_queue = [0.5, 0.5]
            kw = dict(metrics_factory=mf, error_reporter=er, logger=jl)
            if role == 'config':
                C = fresh_config()
                if again:
                    made.append(C(SETTINGS, validate=False).initialize_tracer(io_loop=sim.io_loop))
            sampler = RemoteControlledSampler(ch, 'svc', sampling_refresh_interval=4.0, init_sampler=ConstSampler(True), **kw)
            th = RemoteThrottler(ch, 'svc', refresh_interval=4.0, **kw)
            th.is_allowed('op')
            tr = Tracer('svc', Rep(), sampler, throttler=th, tags=dict(NETTAGS), metrics_factory=mf)
            span = tr.start_span('op')
            own = tr.start_span('mine')

            def spans():
                for x in first:
                    if x == 'again':
                        span.finish()
                        span.finish()
                    else:
                        use(span, x)

            def loop():
                sim.advance(5.0)

            def config():
                for k in range(1 if again else 2):
                    cf = C(SETTINGS, validate=False)
                    made.append(cf.initialize_tracer(io_loop=sim.io_loop))

            def app():
                for x in second:
                    if role == 'config' and x == 'warn':
                        with lock:
                            C.initialized()
                    elif x == 'warn':
                        use(span, x)
                    else:
                        with lock:
                            use(span if role != 'loop' else own, x)
            fns = {'span': [spans], 'loop': [loop], 'both': [spans, loop], 'config': [config]}[role] + [app]
            s = sched.Sched(plan)
            s.run(fns)
            for t in made:
                if t is not None:
                    t.close()
            sim.advance(2.0)
            check(not sim.errors(), 'exception in the event loop: %r', sim.errors()[:1])
            check(len(set(map(id, reported))) == len(reported), 'a span was reported twice: %r', reported)
            if s.preempted_mid:
                c.hit('interleaved')
                c.label(role)
        finally:
            jl.removeHandler(hook)
            for k, v in was.items():
                setattr(opentracing, k, v)
            jl.setLevel(level)


TESTS = [Test('nested', cases, run, quick=8000, rule=RULE), Test('locks', threads, run_threads, quick=6000, rule=RULE)]
