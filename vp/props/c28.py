"""C28: local and composite reporters lose nothing, in order, under concurrency."""
import logging
from hypothesis import strategies as st
from tornado.concurrent import Future
from .. import boot, gen, sched
from ..agent import Counters, FakeChannel, decode
from ..core import Test, check
from ..simloop import Sim
from ..util import NETTAGS, end_of, start_of
from jaeger_client import ConstSampler, SpanContext, Tracer
from jaeger_client.reporter import BaseReporter, CompositeReporter, InMemoryReporter, LoggingReporter, NullReporter, Reporter

PROP = 'C28'
RULE = ('trees of composites over in-memory, logging, null, remote and application reporters under one tracer, with spans of generated ids, '
        'names and flags, further process settings, snapshots and close; non-trivial: at least two parts got at least one span; races: '
        'threads finishing spans and taking snapshots with bytecode switches')
ASSUMPTIONS = ['no part raises', 'the remote parts have room for all spans']
env = boot.env
LEAVES = ['memory', 'memory', 'log', 'deflog', 'null', 'remote', 'own', 'own', 'slow', 'base']


def trees():
    some = st.recursive(st.sampled_from(LEAVES), lambda t: st.lists(t, max_size=3).map(tuple), max_leaves=6)
    return st.one_of(some, st.lists(some, min_size=2, max_size=3).map(tuple), st.lists(st.sampled_from(LEAVES), min_size=2, max_size=4).map(tuple))


@st.composite
def cases(draw):
    tree = draw(trees())
    ops = []
    for _ in range(draw(st.integers(1, 10))):
        k = draw(st.integers(0, 9))
        if k < 7:
            ops.append(('span', draw(gen.contexts(bg=st.just({}))), draw(gen.op_names()), draw(st.booleans())))
        elif k < 8:
            ops.append(('process', draw(st.sampled_from(['svc2', 'x']))))
        elif k < 9:
            ops.append(('snapshot', draw(st.booleans())))
        else:
            ops.append(('wait', 0.5))
    return tree, draw(st.one_of(st.just('svc'), gen.text(6))), ops, draw(st.sampled_from([1, 1, 2]))


class Own(BaseReporter):
    """An application's reporter."""

    def __init__(self):
        self.calls = []

    def report_span(self, span):
        self.calls.append(('span', span))

    def set_process(self, service_name, tags, max_length):
        self.calls.append(('process', service_name, dict(tags), max_length))

    def close(self):
        self.calls.append(('close',))
        return super().close()


class Alike(Own):
    """All of its instances are equal."""

    def __eq__(self, other):
        return isinstance(other, Alike)

    def __hash__(self):
        return 1


class Slow(Alike):
    """Takes its time to close, the first of them less than the second, and so on."""

    def __init__(self, io_loop, delay):
        super().__init__()
        self.io_loop, self.delay = io_loop, delay

    def close(self):
        self.calls.append(('close',))
        f = Future()
        self.io_loop.call_later(self.delay, lambda: f.set_result(True))
        return f


class Bare(BaseReporter):
    """Only implements what has to be implemented."""

    def __init__(self):
        self.got = []

    def report_span(self, span):
        self.got.append(span)


class Lines(logging.Handler):
    def __init__(self):
        super().__init__()
        self.lines = []

    def emit(self, record):
        self.lines.append((record.levelno, record.getMessage()))


def text_of(span, svc, op):
    f = span.context
    return '%x:%x:%x:%x %s.%s' % (f.trace_id, f.span_id, f.parent_id or 0, f.flags, svc, op)


def run(case, c):
    tree, svc, ops, closes = case
    jl = logging.getLogger('jaeger_tracing')
    level, common = jl.level, Lines()
    with Sim() as sim:
        leaves = []

        def build(t):
            if isinstance(t, tuple):
                return CompositeReporter(*[build(x) for x in t])
            if t == 'memory':
                x = r = InMemoryReporter()
            elif t == 'null':
                x = r = NullReporter()
            elif t == 'log':
                lg = logging.Logger('spans')
                x = Lines()
                lg.addHandler(x)
                r = LoggingReporter(logger=lg)
            elif t == 'deflog':
                x, r = common, LoggingReporter()
            elif t == 'remote':
                x = FakeChannel(sim.io_loop)
                r = Reporter(x, queue_capacity=50, batch_size=3, flush_interval=0.5, metrics_factory=Counters().factory)
            else:
                x = r = (Own, Alike)[len(leaves) % 2]() if t == 'own' else Slow(sim.io_loop, 0.25 + 0.5 * len(leaves)) if t == 'slow' else Bare()
            leaves.append((t if t != 'slow' else 'own', x))
            return r
        jl.addHandler(common)
        jl.setLevel(logging.INFO)
        try:
            rep = build(tree)
            tr = Tracer(svc, rep, ConstSampler(True), tags=dict(NETTAGS))
            sent, processes, procs = [], [(svc, None)], []
            proc = svc
            for op in ops:
                if op[0] == 'span':
                    t = op[1]
                    sp = tr.start_span(op[2], child_of=SpanContext(*t[:3], flags=t[3], baggage={}), **start_of(len(sent)))
                    if op[3]:
                        sp.set_tag('k', len(sent))
                    sp.finish(**end_of(len(sent)))
                    if t[3] & 1:
                        sent.append((sp, op[2]))
                        procs.append(proc)
                elif op[0] == 'process':
                    sim.advance(2.0)
                    rep.set_process(op[1], {'a': 1}, 100)
                    proc = op[1]
                    processes.append((op[1], {'a': 1}))
                elif op[0] == 'snapshot':
                    for t, x in leaves:
                        if t == 'memory':
                            got = x.get_spans()
                            check(got == [s for s, _ in sent], 'in-memory reporter holds %r of %d spans', got, len(sent))
                            if op[1]:
                                del got[:1]
                                got.append(None)
                else:
                    sim.advance(op[1])
            futures = [tr.close() for _ in range(closes)]
            delay = max([x.delay for _, x in leaves if isinstance(x, Slow)] or [0])
            if delay:
                sim.advance(delay - 0.125)
                check(not any(f.done() for f in futures), 'close() completed before a part of it did: %r', case)
                c.label('slow close')
            sim.advance(6.0)
            check(all(f.done() for f in futures), 'close() has not completed: %r', case)
            check(not sim.errors(), 'exception escaped into the event loop: %r', sim.errors()[:1])
            spans = [s for s, _ in sent]
            lines = [text_of(s, svc, n) for s, n in sent]
            n_def = sum(1 for t, _ in leaves if t == 'deflog')
            for t, x in leaves:
                if t == 'memory':
                    check(x.get_spans() == spans, 'in-memory reporter holds %r, finished %r', x.get_spans(), spans)
                elif t == 'base':
                    check(x.got == spans, 'a part got %r, finished %r', x.got, spans)
                elif t == 'own':
                    check([y[1] for y in x.calls if y[0] == 'span'] == spans, 'a part got %r, finished %r', x.calls, spans)
                    got = [y[1:] for y in x.calls if y[0] == 'process']
                    check([y[0] for y in got] == [p for p, _ in processes] and all(y[1] == w for y, (_, w) in zip(got, processes) if w)
                          and got and set(NETTAGS.items()) <= set(got[0][1].items()),
                          'a part was told the processes %r, expected %r', got, processes)
                    check(x.calls[-closes:] == [('close',)] * closes and sum(1 for y in x.calls if y[0] == 'close') == closes,
                          'a part was closed %d times, expected %d', sum(1 for y in x.calls if y[0] == 'close'), closes)
                elif t == 'log':
                    check(len(x.lines) == len(lines) and all(a[0] == logging.INFO and b in a[1] for a, b in zip(x.lines, lines)),
                          'logged %r, expected a line about each of %r', x.lines, lines)
                elif t == 'remote':
                    got = [(y['span_id'] & (2 ** 64 - 1), y['operation'], b['service']) for _, d in x.datagrams for b in [decode(d)]
                           for y in b['spans']]
                    want = [(s.span_id, n, p) for (s, n), p in zip(sent, procs)]
                    check(got == want, 'a remote part sent %r, expected %r', got, want)
            got = [y for _, y in common.lines if any(b in y for b in lines)]
            want = [y for y in lines for _ in range(n_def)]
            check(len(got) == len(want) and all(b in a for a, b in zip(got, want)), 'logged %r, expected a line about each of %r', got, want)
            if len(leaves) > 1 and sent:
                c.hit('%d parts' % min(len(leaves), 4))
            c.label(*[t for t, _ in leaves])
        finally:
            jl.removeHandler(common)
            jl.setLevel(level)


# ---- many spans ----------------------------------------------------------------------------------
@st.composite
def volumes(draw):
    shape = draw(st.sampled_from(['memory', ('memory', 'own'), ('base', ('memory',))]))
    return shape, draw(st.sampled_from([150, 300, 600, 1100, 2200, 5300, 10600])), draw(st.integers(0, 2)), draw(st.booleans())


def run_volume(case, c):
    shape, n, snaps, tagged = case
    leaves = []

    def build(t):
        if isinstance(t, tuple):
            return CompositeReporter(*[build(x) for x in t])
        r = {'memory': InMemoryReporter, 'own': Own, 'base': Bare}[t]()
        leaves.append((t, r))
        return r
    tr = Tracer('svc', build(shape), ConstSampler(True), tags=dict(NETTAGS))
    sent = []
    at = {(i + 1) * n // (snaps + 1) for i in range(snaps)}
    for i in range(n):
        sp = tr.start_span('s', **start_of(i))
        if tagged:
            sp.set_tag('i', i)
        sp.finish(**end_of(i))
        sent.append(sp)
        if i in at:
            for t, x in leaves:
                if t == 'memory':
                    check(x.get_spans() == sent, 'in-memory reporter holds %d of %d spans', len(x.get_spans()), len(sent))
    for t, x in leaves:
        got = x.get_spans() if t == 'memory' else x.got if t == 'base' else [y[1] for y in x.calls if y[0] == 'span']
        check(len(got) == n and all(a is b for a, b in zip(got, sent)), 'the %s reporter holds %d of %d spans', t, len(got), n)
    c.hit('%d spans' % n)


# ------------------------------------------------------------------------------------------------
@st.composite
def races(draw):
    shape = draw(st.sampled_from(['memory', ('memory', 'memory'), ('memory', 'own'), (('memory', 'base'), 'memory')]))
    threads = [draw(st.lists(st.sampled_from(['span', 'span', 'span', 'snap']), min_size=1, max_size=4))
               for _ in range(draw(st.sampled_from([2, 2, 3])))]
    return shape, threads, draw(sched.plans(st, 600, 8))


def run_races(case, c):
    shape, threads, plan = case
    env.virtual = True
    leaves = []

    def build(t):
        if isinstance(t, tuple):
            return CompositeReporter(*[build(x) for x in t])
        r = {'memory': InMemoryReporter, 'own': Own, 'base': Bare}[t]()
        leaves.append((t, r))
        return r
    tr = Tracer('svc', build(shape), ConstSampler(True), tags=dict(NETTAGS))
    mine = [[] for _ in threads]

    def body(k, ops):
        def f():
            for i, op in enumerate(ops):
                if op == 'span':
                    sp = tr.start_span('%d-%d' % (k, i))
                    sp.finish()
                    mine[k].append(sp)
                else:
                    for t, x in leaves:
                        if t == 'memory':
                            got = x.get_spans()
                            check(set(mine[k]) <= set(got), 'a span finished before is missing from the snapshot %r', got)
                            got.append(None)
        return f
    s = sched.Sched(plan)
    s.run([body(k, ops) for k, ops in enumerate(threads)])
    for t, x in leaves:
        got = x.get_spans() if t == 'memory' else x.got if t == 'base' else [y[1] for y in x.calls if y[0] == 'span']
        check(sorted(y.operation_name for y in got) == sorted(y.operation_name for m in mine for y in m),
              'the %s reporter got %r, finished %r', t, got, mine)
        for m in mine:
            order = [y for y in got if y in m]
            check(order == m, 'spans of one thread were reported as %r, finished as %r', order, m)
    if s.preempted_mid and sum(len(m) for m in mine) > 1:
        c.hit('interleaved')


TESTS = [Test('trees', cases, run, quick=8000, rule=RULE), Test('volume', volumes, run_volume, quick=40, rule=RULE), Test('races', races, run_races, quick=3000, rule=RULE)]
