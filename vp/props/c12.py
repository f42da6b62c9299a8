"""C12: every reported span is sent exactly once, in order, or counted as lost."""
from hypothesis import strategies as st
from .. import boot, gen, sched, util, volume
from ..agent import Counters, DROPPED, ERR, FakeChannel, OK, decode
from ..core import Test, check
from ..repsim import RepSim
from ..simloop import Sim
from jaeger_client.metrics import Metrics
from jaeger_client.reporter import Reporter

PROP = 'C12'
RULE = ('bursts, pauses, unencodable spans, process changes, close, under scripted send faults (socket errors, exceptions, delays, '
        'hangs) for generated capacities, batch sizes and flush intervals; non-trivial: a span was dropped, a batch failed or was '
        'delayed, or several batches were sent; threads: spans reported by several threads with a switch inside the client')
ASSUMPTIONS = ['metrics and error callbacks do not raise']
env = boot.env

CONF = st.tuples(st.one_of(st.integers(1, 4), st.integers(1, 12), gen.sizes(130).map(lambda n: max(1, n))),
                 st.one_of(st.integers(0, 6), gen.sizes(130)),
                 st.sampled_from([None, 0, 0.5, 1.0, 1, 0.125, 0.1]))
FAULT = st.one_of(st.just(('ok', 0)), st.just(('ok', 0)),
                  st.tuples(st.sampled_from(['sock', 'exc', 'write', 'raise']), st.just(0)),
                  st.tuples(st.sampled_from(['delay', 'delay', 'delayfail']), st.sampled_from([0, 0.25, 0.5, 1.0, 3.0, 60.0])))


def bursts(batch, cap):
    near = sorted({max(0, v) for v in (1, 2, batch - 1, batch, batch + 1, 2 * batch, cap - 1, cap, cap + 1, cap + 2, cap + batch,
                                       cap + batch + 1, cap + batch + 2, cap + 2 * batch)})
    return st.one_of(st.integers(0, 3), st.sampled_from(near), st.sampled_from(near))


@st.composite
def histories(draw):
    batch, extra, flush = draw(CONF)
    cap = batch + extra
    faults = draw(st.lists(FAULT, max_size=6))
    ops = []
    for _ in range(draw(st.integers(1, 12))):
        k = draw(st.integers(0, 19))
        if k < 10:
            n = draw(bursts(batch, cap))
            p = draw(st.sampled_from([(), (), (), (), (0,), (n // 2,), (n - 1,)]))
            ops.append(('burst', n, tuple(x for x in p if 0 <= x < n)))
        elif k < 12:
            ops.append(('settle',))
        elif k < 17:
            ops.append(('wait', draw(st.sampled_from([0.01, 0.125, 0.25, 0.5, 0.6, 1.0, 2.0, 5.0]))))
        elif k < 18:
            ops.append(('process', draw(st.sampled_from(['svc', 'svc2', 'x']))))
        elif k < 19:
            ops.append(('close',))
        else:
            ops.append(('inside', draw(bursts(batch, cap))))
    return batch, cap, flush, faults, ops, draw(st.sampled_from([True, True, True, True, True, True, True, False]))


def run(case, c):
    batch, cap, flush, faults, ops, process = case
    with Sim() as sim:
        r = RepSim(sim, cap, batch, flush, faults, process=process)
        for i, op in enumerate(ops):
            what = 'step %d %r of %r' % (i, op, case)
            if op[0] == 'burst':
                r.report(op[1], op[2])
            elif op[0] == 'inside':
                # reported from code running on the event loop
                sim.io_loop.add_callback(r.report, op[1])
                sim.settle()
                r.settled(what)
            elif op[0] == 'settle':
                sim.settle()
                r.settled(what)
            elif op[0] == 'wait':
                sim.advance(op[1])
                r.settled(what)
            elif op[0] == 'process':
                sim.settle()
                r.set_process(op[1])
            else:
                r.close()
        sim.advance(0.0)
        r.settled('after %r' % (case,))
        if r.closed_at_n is None:
            r.close()
        sim.advance(60.0 * (len(faults) + 2))
        r.settled('after closing, %r' % (case,))
        for t, f, _ in r.closes:
            check(f.done(), 'close() has not completed: %r', case)
            f.result()
        r.final('history %r' % (case,))
        b = r.books
        if not process and b.get(ERR):
            c.hit('process set later' if r.no_process is not None else 'no process')
        if b.get(DROPPED):
            c.hit('dropped')
        if b.get(ERR):
            c.hit('failed batch')
            if b.get(OK):
                c.label('sent after or before a failure')
        if r.batches > 1:
            c.hit('several batches')
        if any(k[0].startswith('delay') for k in faults[:r.batches]):
            c.hit('delayed send')


# ------------------------------------------------------------------------------------------------
@st.composite
def threads(draw):
    batch = draw(st.integers(1, 4))
    cap = batch + draw(st.integers(0, 3))
    per = draw(st.lists(st.integers(1, 4), min_size=2, max_size=3))
    return batch, cap, draw(st.sampled_from([None, 0.5])), per, draw(st.sampled_from(['none', 'loop', 'loop', 'close', 'process'])), \
        draw(st.lists(FAULT, max_size=2)), draw(sched.plans(st, 900, 8))


def run_threads(case, c):
    batch, cap, flush, per, other, faults, plan = case
    with Sim() as sim:
        r = RepSim(sim, cap, batch, flush, faults, hand_out_of_order=True)
        sim.settle()
        lists = []

        def body(k, n):
            def f():
                for i in range(n):
                    name = 't%d-%d' % (k, i)
                    r.handed.append(name)
                    r.tracer.start_span(name).finish()
            return f
        fns = [body(k, n) for k, n in enumerate(per)]
        if other == 'loop':
            def loop():
                for _ in range(3):
                    sim.settle()
            fns.append(loop)
        elif other == 'process':
            def proc():
                r.rep.set_process('svc', {'a': 1}, 100)
                sim.settle()
            fns.append(proc)
        elif other == 'close':
            # closing happens on the event loop the reporter runs on
            fns.append(lambda: (sim.io_loop.add_callback(r.close), sim.settle()))
        s = sched.Sched(plan)
        s.run(fns)
        sim.settle()
        sim.advance(1.0)
        r.settled('threads %r' % (case,))
        if not r.closes:
            r.close()
        sim.advance(60.0 * (len(faults) + 2))
        check(all(f.done() for _, f, _ in r.closes), 'close() has not completed: %r', case)
        r.closed_at_n = None
        r.final('threads %r' % (case,))
        if other in ('none',) and r.books.get(DROPPED):
            n = sum(per)
            check(n > cap, 'spans dropped although only %d were reported: %r', n, case)
        # spans of one thread keep their order
        for _, b in r.sent():
            lists.extend(x['operation'] for x in b['spans'])
        for k in range(len(per)):
            mine = [n for n in lists if n.startswith('t%d-' % k)]
            check(mine == sorted(mine, key=lambda n: int(n.split('-')[1])), 'spans of one thread left in the order %r: %r', mine, case)
        if s.preempted_mid:
            c.hit('interleaved, %s' % other)


# ------------------------------------------------------------------------------------------------
@st.composite
def settings(draw):
    kw = {}
    if draw(st.booleans()):
        kw['batch_size'] = draw(st.one_of(st.integers(1, 12), st.sampled_from([99, 100, 101, 102, 150])))
    if draw(st.booleans()):
        b = kw.get('batch_size', 10)
        kw['queue_capacity'] = draw(st.one_of(st.integers(1, 12), st.sampled_from([9, 10, 11, 99, 100, 101, b - 1, b, b + 1])))
    if draw(st.integers(0, 3)) == 0:
        kw['flush_interval'] = draw(st.sampled_from([None, 0, 0.5, 1, 2.5]))
    bursts = draw(st.lists(st.one_of(st.integers(0, 25), st.integers(95, 120)), min_size=1, max_size=3))
    return kw, draw(st.sampled_from(['none', 'factory', 'legacy', 'count', 'both', 'loop'])), bursts


class Idle(object):
    """The event loop of a channel whose reporter was given another one."""

    def spawn_callback(self, *a, **kw):
        pass


def run_settings(case, c):
    """Reporter built with few or no settings."""
    kw, how, bursts = case
    batch, cap, flush = kw.get('batch_size', 10), kw.get('queue_capacity', 100), kw.get('flush_interval', 1)
    with Sim() as sim:
        ch = FakeChannel(sim.io_loop)
        m, other = Counters(), Counters()
        extra = {'none': {}, 'factory': {'metrics_factory': m.factory}, 'legacy': {'metrics': Metrics(count=m._count, gauge=m._gauge)},
                 'count': {'metrics': Metrics(count=m._count)}, 'loop': {'io_loop': sim.io_loop},
                 'both': {'metrics_factory': m.factory, 'metrics': Metrics(count=other._count)}}[how]
        if how == 'loop':
            ch.io_loop = Idle()
        try:
            rep = Reporter(ch, **dict(kw, **extra))
        except ValueError:
            check(cap < batch, 'Reporter(%r) was rejected', kw)
            c.hit('rejected')
            return
        check(cap >= batch, 'Reporter(%r) accepts batches larger than the queue', kw)
        tr = util.tracer(reporter=rep)
        handed = 0
        for n in bursts:
            names = ['s%d' % (handed + i) for i in range(n)]
            handed += n
            for x in names:
                tr.start_span(x).finish()
            # everything is on the event loop's list before anything is consumed: a batch being collected comes on top of the queue
            sim.settle()
            check(not sim.errors(), 'exception escaped into the event loop: %r', sim.errors()[:1])
            sim.advance(0.001)
            if flush:
                sim.advance(flush)
        got = [s['operation'] for _, d in ch.datagrams for s in decode(d)['spans']]
        sizes = [len(decode(d)['spans']) for _, d in ch.datagrams]
        if flush:
            # after the flush interval everything that was not dropped has left
            check(all(0 < s <= batch for s in sizes), 'batches of %r spans, batch size %d', sizes, batch)
            total = sum(min(n, cap + batch) for n in bursts)
            least = sum(min(n, cap) for n in bursts)
            check(least <= len(got) <= total, '%d spans sent within the flush interval after bursts of %r, Reporter(%r)', len(got), bursts, kw)
        f = tr.close()
        sim.advance(60)
        check(f.done(), 'close() has not completed: %r', case)
        got = [s['operation'] for _, d in ch.datagrams for s in decode(d)['spans']]
        sizes = [len(decode(d)['spans']) for _, d in ch.datagrams]
        check(all(0 < s <= batch for s in sizes), 'batches of %r spans, batch size %d', sizes, batch)
        check(sum(sizes) == len(got) and len(set(got)) == len(got) and got == sorted(got, key=lambda x: int(x[1:])),
              'sent %r', got[:50])
        for k, n in enumerate(bursts):
            first = sum(bursts[:k])
            must = ['s%d' % i for i in range(first, first + min(n, cap if flush or not k else 0))]
            check(set(must) <= set(got), 'burst %d of %r: only %d of %d spans arrived, Reporter(%r)', k, bursts,
                  len(set(must) & set(got)), len(must), kw)
        if how in ('factory', 'legacy', 'count', 'both'):
            check((m.get(OK), m.get(ERR), m.get(DROPPED)) == (len(got), 0, handed - len(got)), 'counters %r, but %d spans of %d were sent',
                  m.c, len(got), handed)
            check(not other.c, 'metrics also counted: %r', other.c)
        if handed:
            c.hit(how)
        if len(got) < handed:
            c.label('dropped')


# ---- long runs -----------------------------------------------------------------------------------
@st.composite
def volumes(draw):
    batch = draw(st.sampled_from([1, 7, 10, 100]))
    cap = draw(st.sampled_from([100, 129, 1000, 3000]))
    sizes = draw(st.lists(st.one_of(st.sampled_from([1, batch, cap - 1, cap, cap + 1]), st.integers(0, cap)), min_size=1, max_size=4))
    rounds = draw(st.sampled_from([3, 30, 70, 140]))
    faults = draw(st.lists(FAULT, min_size=1, max_size=5))
    return batch, cap, draw(st.sampled_from([None, 0.5])), sizes, rounds, faults, draw(st.sampled_from([0.0, 1.0]))


def run_volume(case, c):
    """A reporter that lives through thousands of spans and many failures."""
    batch, cap, flush, sizes, rounds, faults, pause = case
    faults = [(k, min(d, 1.0)) for k, d in faults]
    rounds = min(rounds, 1 + 6000 // max(1, max(sizes)))
    n = sum(sizes[i % len(sizes)] for i in range(rounds))
    with Sim() as sim:
        r = RepSim(sim, cap, batch, flush, [faults[i % len(faults)] for i in range(n // batch + rounds)])
        for i in range(rounds):
            r.report(sizes[i % len(sizes)])
            sim.settle()
            r.settled('round %d of %r' % (i, case))
            if pause:
                sim.advance(pause)
        r.close()
        sim.advance(2.0 * (len(r.faults) + 2))
        r.settled('after closing, %r' % (case,))
        check(all(f.done() for _, f, _ in r.closes), 'close() has not completed: %r', case)
        r.final('long run %r' % (case,))
        if n > 300:
            c.hit('hundreds of spans')
        if r.batches > 100:
            c.hit('hundreds of batches')


TESTS = [
    Test('settings', settings, run_settings, quick=1500, rule=RULE),
    Test('histories', histories, run, quick=12000, rule=RULE),
    Test('volume', volumes, run_volume, quick=60, rule=RULE),
    Test('threads', threads, run_threads, quick=3000, rule=RULE),
    volume.REPORTS,
]
