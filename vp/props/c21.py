"""C21: error logging is rate limited exactly, and never without a logger."""
import json
import logging
from hypothesis import strategies as st
from .. import boot, gen, volume
from ..agent import Counters, FakeChannel, Response
from ..core import Injected, Test, check
from ..repsim import ERR, RepSim
from ..simloop import Sim
from . import c11, c12, c18
from jaeger_client.metrics import Metrics
from jaeger_client.sampler import RemoteControlledSampler
from jaeger_client.throttler import RemoteThrottler
from jaeger_client.utils import ErrorReporter

PROP = 'C21'
RULE = ('sequences of errors from one or two reporters under a virtual clock with steps just below, at and above the interval, standing still '
        'and stepping back; non-trivial: both a written and a suppressed report after the first written one; components: reporter, remote sampler and throttler with failing '
        'sends and answers share one error reporter; non-trivial: one of them failed')
ASSUMPTIONS = ['elapsed time is that of time.time()', 'times and intervals are such that sums are exact in floating point']
env = boot.env


@st.composite
def cases(draw):
    minutes = draw(st.sampled_from([15, 15, 1, 0, 2, 60, 0.5, 0.25, 1440, 'default', 'default']))
    kind = draw(st.sampled_from(['logger', 'logger', 'logger', 'none', 'two']))
    ops = []
    for _ in range(draw(st.integers(1, 20))):
        k = draw(st.integers(0, 9))
        if k < 5:
            ops.append(('error', draw(st.integers(0, 1)), draw(st.sampled_from(['plain', 'one', 'two', 'exc', 'percent', 'uni', 'text'])),
                        draw(gen.text(8))))
        else:
            ops.append(('step', draw(st.sampled_from([0.0, 0.25, 0.5, 0.75, 1.0, 1.0, 1.0, 1.25, 2.0, 10.0, 1000.0])),
                        draw(st.sampled_from([0, 0, 0, 2.0 ** -10, -2.0 ** -10, 1.0, -1.0]))))
            if draw(st.integers(0, 11)) == 0:
                ops.append(('back', draw(st.sampled_from([0.5, 1.0, 3.0]))))
            if draw(st.booleans()):
                ops.append(('error', draw(st.integers(0, 1)), 'one', 'v'))
    return minutes, kind, ops


class Keep(logging.Handler):
    def __init__(self):
        super().__init__()
        self.got = []

    def emit(self, record):
        self.got.append((record.levelno, record.getMessage()))


def logger():
    lg = logging.Logger('errors')
    h = Keep()
    lg.addHandler(h)
    return lg, h


def run(case, c):
    minutes, kind, ops = case
    env.virtual = True
    kw = {} if minutes == 'default' else {'log_interval_minutes': minutes}
    interval = (15 if minutes == 'default' else minutes) * 60
    reps = []
    root, jl = Keep(), logging.getLogger('jaeger_tracing')
    logging.getLogger().addHandler(root)
    jl.addHandler(root)
    level = jl.level
    jl.setLevel(logging.DEBUG)
    try:
        for _ in range(2 if kind == 'two' else 1):
            if kind == 'none':
                reps.append([ErrorReporter(Metrics(), **kw), None, env.wall(), []])
            else:
                lg, h = logger()
                reps.append([ErrorReporter(Metrics(), logger=lg, **kw), h, env.wall(), []])
            env.mono += 8.0
        written = suppressed = 0
        for op in ops:
            if op[0] == 'step':
                env.mono += max(0.0, interval * op[1] + op[2])
            elif op[0] == 'back':
                env.wall_off -= interval * op[1]
            else:
                r = reps[op[1] % len(reps)]
                args = {'plain': ('error happened',), 'one': ('cannot reach the agent: %s', op[3]), 'two': ('%s and %d', op[3], 5),
                        'exc': ('failed: %s', ValueError(op[3])), 'percent': ('100%% of %s', op[3]), 'uni': ('\u00e9 %r', op[3]),
                        'text': (op[3].replace('%', ''),)}[op[2]]
                due = env.wall() - r[2] > interval
                out = r[0].error(*args)
                check(out is None, 'error returned %r', out)
                if r[1] is not None and due:
                    r[3].append((logging.ERROR, args[0] % args[1:] if len(args) > 1 else args[0]))
                    r[2] = env.wall()
                    written += 1
                elif written:
                    suppressed += 1
                for x in reps:
                    if x[1] is not None:
                        check(x[1].got == x[3], 'written: %r, expected %r after %r of %r', x[1].got, x[3], op, case)
        check(not root.got, 'something else was logged: %r', root.got)
        if written and suppressed:
            c.hit(kind)
        elif kind == 'none':
            c.label('no logger')
    finally:
        logging.getLogger().removeHandler(root)
        jl.removeHandler(root)
        jl.setLevel(level)


# --- what the reporter, the remote sampler and the throttler report ------------------------------
@st.composite
def failures(draw):
    minutes = draw(st.sampled_from([0, 0, 1.0 / 64, 1.0 / 64, 0.125, 15]))
    ops = []
    for _ in range(draw(st.integers(1, 12))):
        k = draw(st.integers(0, 9))
        if k < 5:
            n = draw(st.integers(1, 7))
            ops.append(('burst', n, (0,) if draw(st.integers(0, 4)) == 0 else ()))
        elif k < 9:
            ops.append(('wait', draw(st.sampled_from([0.25, 0.5, 1.0, 2.0, 4.0, 8.0]))))
        else:
            ops.append(('process',))
    return minutes, draw(st.lists(c12.FAULT, max_size=6)), draw(st.lists(c11.answers(), max_size=5)), \
        draw(st.lists(c18.answers(st.sampled_from(['s0', 's1', 'x'])), max_size=5)), draw(st.sampled_from([True, True, True, False])), ops


class Recorder(ErrorReporter):
    """The client's own error reporter, noting when it is called."""

    def __init__(self, **kw):
        ErrorReporter.__init__(self, Metrics(), **kw)
        self.calls = []

    def error(self, *args):
        try:
            text = args[0] % args[1:] if len(args) > 1 else args[0]
        except Exception as e:
            check(False, 'error message %r cannot be formatted: %r', args, e)
        self.calls.append((env.wall(), text))
        return ErrorReporter.error(self, *args)


FAILURES = {'reporter': (ERR,), 'sampler': (c11.QERR, c11.UERR), 'throttler': (c18.UERR,)}


def run_failures(case, c):
    minutes, faults, strategies, credits, process, ops = case
    with Sim() as sim:
        lg, h = logger()
        er = Recorder(logger=lg, log_interval_minutes=minutes)
        last, want = env.wall(), []
        r = RepSim(sim, 8, 3, 0.5, faults, process=process, error_reporter=er)
        qs, cs = FakeChannel(sim.io_loop), FakeChannel(sim.io_loop)
        m = Counters()

        def answer(script, i, fut, what):
            delay, as_bytes, kind = script[i][:3] if i < len(script) else (0, True, 'none')
            if kind == 'none':
                return
            if kind == 'sync':
                raise Injected('%s query %d' % (what, i))

            def give():
                if kind == 'exc':
                    fut.set_exception(Injected('%s answer %d' % (what, i)))
                else:
                    body = script[i][3]
                    if kind == 'doc':
                        body = json.dumps(body)
                        body = body.encode() if as_bytes else body
                    fut.set_result(Response(body))
            if delay is None:
                return
            if delay:
                sim.io_loop.call_later(delay, give)
            else:
                give()
        qs.on_sampling = lambda i, fut: answer(strategies, i, fut, 'strategy')
        cs.on_credits = lambda i, fut: answer(credits, i, fut, 'credit')
        sampler = RemoteControlledSampler(qs, 'svc', sampling_refresh_interval=2.0, error_reporter=er, metrics_factory=m.factory)
        th = RemoteThrottler(cs, 'svc', refresh_interval=2.0, error_reporter=er, metrics_factory=m.factory)
        th.set_client_id(7)
        n_reporter = [0]
        old = r.books.on_count

        def counted(k, v):
            if k == ERR:
                n_reporter[0] += 1
            old(k, v)
        r.books.on_count = counted

        def look(what):
            failures = n_reporter[0] + sum(m.get(k) for k in FAILURES['sampler'] + FAILURES['throttler'])
            check(len(er.calls) == failures, '%s: %d failures counted (%d of the reporter, %r), %d reported: %r', what, failures,
                  n_reporter[0], m.c, len(er.calls), er.calls[-5:])
        for i, op in enumerate(ops):
            what = 'step %d %r of %r' % (i, op, case)
            if op[0] == 'burst':
                r.report(op[1], op[2])
                for _ in range(op[1]):
                    th.is_allowed('s%d' % (op[1] % 3))
                sim.settle()
            elif op[0] == 'wait':
                sim.advance(op[1])
            else:
                r.set_process('svc2')
            check(not sim.errors(), '%s: exception escaped into the event loop: %r', what, sim.errors()[:1])
            look(what)
        sampler.close()
        th.close()
        r.close()
        sim.advance(60.0 * (len(faults) + 2))
        check(not sim.errors(), 'exception escaped into the event loop: %r', sim.errors()[:1])
        look('at the end of %r' % (case,))
        for t, text in er.calls:
            if t - last > minutes * 60:
                want.append((logging.ERROR, text))
                last = t
        check(h.got == want, 'written: %r, expected %r of %r', h.got, want, er.calls)
        texts = '\n'.join(t for _, t in er.calls)
        for i in range(min(len(qs.sampling), len(strategies))):
            if strategies[i][2] == 'sync':
                check('strategy query %d' % i in texts, 'the failure of query %d is not named in %r', i, texts)
        for i in range(min(len(cs.credits), len(credits))):
            if credits[i][2] == 'sync':
                check('credit query %d' % i in texts, 'the failure of credit query %d is not named in %r', i, texts)
        for i, (kind, _) in enumerate(faults[:r.batches]):
            name = {'raise': 'send %d', 'delayfail': 'send %d, late', 'exc': 'flush %d', 'sock': 'refused', 'write': 'write %d'}.get(kind)
            if name:
                name = name % i if '%' in name else name
                check(name in texts, 'the failure of batch %d (%s) is not named in %r', i, kind, texts)
        if n_reporter[0]:
            c.hit('reporter')
        if sum(m.get(k) for k in FAILURES['sampler']):
            c.hit('sampler')
        if m.get(c18.UERR):
            c.hit('throttler')
        if len(want) < len(er.calls):
            c.label('suppressed')


TESTS = [
    Test('histories', cases, run, quick=30000, rule=RULE),
    Test('components', failures, run_failures, quick=4000, rule=RULE),
    volume.ERRORS,
]
