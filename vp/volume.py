"""Long and large histories: the same guarantees when there is very much of everything."""
import json
import logging
import os
import threading

import opentracing
from hypothesis import strategies as st
from opentracing import Format

from . import boot, gen
from .agent import DROPPED, OK, Counters, FakeChannel, Response, decode
from .bucket import Bucket
from .core import Injected, Test, check
from .repsim import RepSim
from .simloop import Sim
from .util import FORMATS, NETTAGS, ctx, fields, tracer
from jaeger_client import Config, ConstSampler, SpanContext, Tracer
from jaeger_client.metrics import LegacyMetricsFactory, Metrics
from jaeger_client.rate_limiter import RateLimiter
from jaeger_client.reporter import InMemoryReporter, Reporter
from jaeger_client.sampler import AdaptiveSampler, RateLimitingSampler, RemoteControlledSampler
from jaeger_client.throttler import RemoteThrottler
from jaeger_client.utils import ErrorReporter

env = boot.env
RULE = 'dozens to hundreds of the same thing in one history; non-trivial: more than 16'


def count(hi=600):
    return st.one_of(gen.sizes(hi), st.sampled_from([17, 33, 65, 101, 129, 257, 301, 513]).filter(lambda n: n <= hi))


def big(c, n):
    c.label('up to 16' if n <= 16 else 'up to 100' if n <= 100 else 'hundreds')
    if n > 16:
        c.hit('many')


# ---- C06: references, nesting, children -----------------------------------------------------------
def lineage_cases():
    return st.tuples(st.sampled_from(['refs', 'depth', 'fan', 'roots']), count(400), st.booleans(), st.integers(1, 7))


def lineage(case, c):
    kind, n, first, step = case
    rep = InMemoryReporter()
    tr = tracer(reporter=rep)
    if kind == 'refs':
        refs, want = [], []
        if first:
            refs.append(opentracing.Reference(opentracing.ReferenceType.FOLLOWS_FROM, None))
        for i in range(n):
            make = opentracing.follows_from if i % step else opentracing.child_of
            refs.append(make(SpanContext(i + 1, i + 2, None, 1)))
            want.append((refs[-1].type, i + 1, i + 2))
            if i % 5 == step:
                refs.append(opentracing.Reference(opentracing.ReferenceType.FOLLOWS_FROM, None))
        s = tr.start_span('x', references=refs)
        got = [(r.type, r.referenced_context.trace_id, r.referenced_context.span_id) for r in s.references or []]
        check(got == want, '%d references recorded of %d', len(got), n)
        check(not n or (s.trace_id, s.parent_id) == (1, 2), 'lineage %x %r of a span with %d references', s.trace_id, s.parent_id, n)
    elif kind == 'depth':
        scopes = []
        for i in range(n):
            sc = tr.start_active_span('s%d' % i, finish_on_close=bool(i % (step + 1)))
            up = scopes[-1].span if scopes else None
            check(sc.span.parent_id == (up.span_id if up else None) and (up is None or sc.span.trace_id == up.trace_id), 'lineage at depth %d', i)
            scopes.append(sc)
        for i in range(n - 1, -1, -1):
            check(tr.active_span is scopes[i].span, 'the active span at depth %d of %d is %r', i, n, tr.active_span)
            scopes[i].close()
            check(scopes[i].span.finished == bool(i % (step + 1)), 'span %d finished: %r', i, scopes[i].span.finished)
        check(tr.active_span is None, 'a span is active after all scopes are closed')
    else:
        root = tr.start_span('root')
        spans = [tr.start_span('s', child_of=root if first else root.context) if kind == 'fan' else tr.start_span('s', ignore_active_span=first)
                 for i in range(n)]
        ids = {s.span_id for s in spans} | {root.span_id}
        check(len(ids) == n + 1 and 0 not in ids, '%d different span ids for %d spans', len(ids), n + 1)
        for s in spans:
            if kind == 'fan':
                check((s.trace_id, s.parent_id, s.flags) == (root.trace_id, root.span_id, root.flags), 'lineage of a child')
            else:
                check(s.parent_id is None and s.trace_id, 'lineage of a root')
        check(kind == 'fan' or len({s.trace_id for s in spans} | {root.trace_id}) == n + 1, 'trace ids repeat')
    big(c, n)
    c.label(kind)


# ---- C05: long chains of services -----------------------------------------------------------------
def chain_cases():
    return st.tuples(count(120), st.lists(st.sampled_from(['text', 'http', 'binary', 'zipkin']), min_size=1, max_size=4), gen.sizes(40),
                     gen.trace_ids(), gen.flags(), st.booleans())


def chain(case, c):
    n, formats, items, tid, fl, wide = case
    trs = [tracer(generate_128bit_trace_id=wide) for _ in range(3)]
    cx = SpanContext(tid, 7, None, fl, {})
    bag = {}
    for i in range(n):
        tr, f = trs[i % 3], formats[i % len(formats)]
        car = bytearray() if f == 'binary' else {}
        tr.inject(cx, FORMATS[f], car)
        got = trs[(i + 1) % 3].extract(FORMATS[f], car)
        if f == 'zipkin':
            bag = {}
        s = trs[(i + 1) % 3].start_span('hop', child_of=got)
        check((s.trace_id, s.parent_id, s.flags) == (tid, cx.span_id, fl), 'hop %d of %d: %x:%r flags %d', i, n, s.trace_id, s.parent_id, s.flags)
        check(dict(s.context.baggage) == bag, 'hop %d of %d: %d baggage items, expected %d', i, n, len(s.context.baggage), len(bag))
        if i < items:
            s.set_baggage_item('k%d' % i, str(i))
            bag['k%d' % i] = str(i)
        elif items:
            s.set_baggage_item('k%d' % (i % items), 'n%d' % i)
            bag['k%d' % (i % items)] = 'n%d' % i
        cx = s.context
    big(c, n)


# ---- C14, C16: one large span ---------------------------------------------------------------------
def span_cases():
    return st.tuples(st.sampled_from(['start', 'tags', 'logs', 'fields', 'refs', 'process', 'same', 'all']), count(400), st.sampled_from([0, 0, 1, 3]),
                     st.booleans())


def span(case, c):
    """Everything recorded on one span, also by several threads, arrives."""
    kind, n, workers, wide = case
    with Sim() as sim:
        ch = FakeChannel(sim.io_loop)
        rep = Reporter(ch, batch_size=2, flush_interval=0.5)
        ptags = dict(NETTAGS)
        if kind in ('process', 'all'):
            ptags.update(('p%d' % i, i if i % 3 else 'v%d' % i) for i in range(n))
        tr = Tracer('svc', rep, ConstSampler(True), tags=dict(ptags), generate_128bit_trace_id=wide)
        tags = {'t%d' % i: (i, 'v%d' % i, i / 2.0, bool(i & 1))[i % 4] for i in range(n)} if kind in ('start', 'all') else {}
        refs = [opentracing.follows_from(SpanContext(i + 1, i + 2, None, 1)) for i in range(n)] if kind in ('refs', 'all') else None
        s = tr.start_span('x', child_of=SpanContext(5, 6, None, 1), tags=dict(tags), references=refs)
        want_tags, want_logs = list(tags), []

        def use(w, part):
            for i in part:
                if kind in ('tags', 'all'):
                    s.set_tag('k%d' % i, i)
                if kind == 'same':
                    s.set_tag('same', i)
                if kind in ('logs', 'all'):
                    s.log_kv({'l%d' % i: i})
        if workers:
            ths = [threading.Thread(target=use, args=(w, range(w, n, workers))) for w in range(workers)]
            for t in ths:
                t.start()
            for t in ths:
                t.join()
        else:
            use(0, range(n))
        if kind in ('tags', 'all'):
            want_tags += ['k%d' % i for i in range(n)]
        if kind == 'same':
            want_tags += ['same'] * n
        if kind in ('logs', 'all'):
            want_logs += [['l%d' % i] for i in range(n)]
        if kind in ('fields', 'all'):
            s.log_kv({'f%d' % i: 'v%d' % i for i in range(n)})
            want_logs.append(['f%d' % i for i in range(n)])
        s.finish()
        other = tr.start_span('next')
        other.finish()
        sim.advance(2.0)
        tr.close()
        sim.advance(2.0)
        check(not sim.errors(), 'exception escaped into the event loop: %r', sim.errors()[:1])
        got = [decode(d) for _, d in ch.datagrams]
        spans = [x for b in got for x in b['spans']]
        check([x['operation'] for x in spans] == ['x', 'next'], 'spans sent: %r', [x['operation'] for x in spans])
        order = sorted if workers else list
        g = order([t[0] for t in spans[0]['tags']])
        check(g == order(want_tags), '%d tags sent, %d recorded (first difference: %r)', len(g), len(want_tags), diff(g, order(want_tags)))
        if kind == 'same':
            check(order([t[2] for t in spans[0]['tags']]) == list(range(n)), 'the values of the tag are %.80r', [t[2] for t in spans[0]['tags']])
        for k, v in tags.items():
            check(any(t[0] == k and t[2] == v for t in spans[0]['tags']), 'tag %r has not the value recorded', k)
        g = order([[f[0] for f in fs] for _, fs in spans[0]['logs']])
        check(g == order(want_logs), '%d logs sent, %d recorded (first difference: %.200r)', len(g), len(want_logs), diff(g, order(want_logs)))
        check([r[1:] for r in spans[0]['references']] == ([(i + 1, i + 2) for i in range(n)] if refs else []), '%d references sent',
              len(spans[0]['references']))
        for b in got:
            have = {t[0]: t[2] for t in b['tags']}
            miss = [k for k, v in ptags.items() if have.get(k) != v]
            check(not miss, 'process tags %r are missing (%d of %d)', miss[:3], len(miss), len(ptags))
    big(c, n)
    c.label(kind, '%d threads' % workers)


def diff(a, b):
    for x, y in zip(a, b):
        if x != y:
            return x, y
    return (a[len(b):] or b[len(a):] or [None])[0]


# ---- C17: much baggage ----------------------------------------------------------------------------
def baggage_cases():
    return st.tuples(count(400), st.sampled_from([0, 1, 3]), st.integers(0, 3), st.integers(1, 9))


def baggage(case, c):
    n, workers, again, step = case
    tr = tracer()
    parent = tr.start_span('p')
    parent.set_baggage_item('inherited', 'yes')
    s = tr.start_span('x', child_of=parent)
    kids = []

    def write(w, part, value):
        for i in part:
            s.set_baggage_item('k%d' % i, value % i)
    if workers:
        ths = [threading.Thread(target=write, args=(w, range(w, n, workers), 'v%d')) for w in range(workers)]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
    else:
        write(0, range(n), 'v%d')
    want = {'inherited': 'yes'}
    want.update(('k%d' % i, 'v%d' % i) for i in range(n))
    kids.append((tr.start_span('kid', child_of=s), dict(want)))
    for r in range(again):
        write(0, range(0, n, step), 'w%d-%%d' % r)
        want.update(('k%d' % i, 'w%d-%d' % (r, i)) for i in range(0, n, step))
        kids.append((tr.start_span('kid', child_of=s.context), dict(want)))
        check(len(s.logs) == n + len(range(0, n, step)) * (r + 1), '%d log entries for the writes', len(s.logs))
    kids.append((s, want))
    for x, w in kids:
        got = dict(x.context.baggage)
        check(got == w, '%d baggage items, expected %d; first difference %r', len(got), len(w), diff(sorted(got.items()), sorted(w.items())))
    check(dict(parent.context.baggage) == {'inherited': 'yes'}, 'the baggage of the parent changed')
    check(len(s.logs) == n + again * len(range(0, n, step)), '%d log entries for the writes', len(s.logs))
    big(c, n)


# ---- C11, C18, C21: a long line of failing answers ------------------------------------------------
def poll_cases(what):
    return st.tuples(st.just(what), count(260), st.lists(st.sampled_from(['error', 'junk', 'invalid', 'raise', 'ok', 'slow']),
                                                                                 min_size=1, max_size=3), st.sampled_from([1.0, 4.0, 60.0]))


def polls(case, c):
    """However many queries failed before, they go on at the same pace, and the next good answer counts."""
    what, n, kinds, every = case
    with Sim() as sim:
        cnt = Counters()
        asked, pending, want = [], [], {'ok': 0, 'err': 0}
        good = [False]
        spec = {'n': 0}

        def answer(i, fut):
            asked.append(env.mono)
            kind = 'last' if good[0] else kinds[i % len(kinds)]
            if kind == 'raise':
                want['err'] += 1
                raise Injected('no agent')
            if kind == 'slow':
                pending.append(fut)
                return
            if kind == 'error':
                want['err'] += 1
                fut.set_exception(Injected('refused'))
            elif kind == 'junk':
                want['err'] += 1
                fut.set_result(Response('{'))
            elif kind == 'invalid':
                want['ok' if what == 'sampler' else 'err'] += 1
                fut.set_result(Response('{"strategyType": "NO"}' if what == 'sampler' else '{"balances": 5}'))
            else:
                want['ok'] += 1
                spec['n'] += 1
                fut.set_result(Response(json.dumps({'strategyType': 'PROBABILISTIC', 'probabilisticSampling': {'samplingRate': 1.0 if good[0] else 0.0}}
                                                   if what == 'sampler' else {'balances': [{'operation': 'op', 'balance': 1.0}]})))
        ch = FakeChannel(sim.io_loop)
        ch.on_sampling = ch.on_credits = answer
        if what == 'sampler':
            x = RemoteControlledSampler(ch, 'svc', metrics_factory=cnt.factory, sampling_refresh_interval=every)
        else:
            x = RemoteThrottler(ch, 'svc', metrics_factory=cnt.factory, refresh_interval=every)
            x.is_allowed('op')
        sim.advance(every)
        sim.advance(n * every)
        check(n <= len(asked) <= n + 1 or n == 0, '%d queries in %d refresh intervals', len(asked), n + 1)
        for a, b in zip(asked, asked[1:]):
            check(abs(b - a - every) < 1e-3, 'queries %r s apart, the refresh interval is %r s', b - a, every)
        ok, err = [cnt.get(k) for k in (('jaeger:sampler_queries.result_ok', 'jaeger:sampler_queries.result_err') if what == 'sampler'
                                        else ('jaeger:throttler_update.result_ok', 'jaeger:throttler_update.result_err'))]
        check((ok, err) == (want['ok'], want['err']), 'counted %d queries that succeeded and %d that failed, expected %r', ok, err, want)
        for f in pending:
            f.set_exception(Injected('late'))
        good[0] = True
        sim.advance(every + 0.1)
        if what == 'sampler':
            check(x.is_sampled(2 ** 63)[0], 'the strategy of the last answer is not used after %d queries', len(asked))
        else:
            got = 0
            while got <= spec['n'] and x.is_allowed('op'):
                got += 1
            check(got == spec['n'], '%d debug spans allowed, %d credits received', got, spec['n'])
        check(not sim.errors(), 'exception in the event loop: %r', sim.errors()[:1])
        x.close()
        k = len(asked)
        sim.advance(3 * every)
        check(len(asked) == k, 'queries after close')
    big(c, n)
    c.label(what)


# ---- C12, C13: batches that fail for a long time --------------------------------------------------
def report_cases():
    return st.tuples(count(300), st.lists(st.sampled_from(['ok', 'sock', 'exc', 'write', 'raise']), min_size=1, max_size=4),
                     st.integers(1, 5), st.integers(1, 6), st.sampled_from([0.5, 0, 1.0]), st.booleans())


def reports(case, c):
    """However many batches failed before, every span is sent or counted once, and the next good batch gets through."""
    n, kinds, each, batch, flush, slow = case
    with Sim() as sim:
        fails = (kinds * n)[:n] if slow else [kinds[i % len(kinds)] for i in range(n)]
        r = RepSim(sim, 30, batch, flush, [(k, 0) for k in fails])
        for i in range(n):
            r.report(each)
            if slow:
                sim.advance(flush)
            else:
                sim.settle()
            r.settled('round %d of %r' % (i, case))
        sim.advance(2.0)
        while r.batches < n:
            r.report(1)
            sim.advance(flush)
        sim.advance(2.0)
        before = r.books.get(OK)
        r.report(batch)
        sim.advance(flush + 0.01)
        sim.settle()
        check(r.books.get(OK) == before + batch, '%d of %d spans were sent after %d batches', r.books.get(OK) - before, batch, r.batches)
        check(r.books.get(DROPPED) == 0 or each > 30, '%d spans dropped though the queue is never full', r.books.get(DROPPED))
        f = r.close()
        sim.advance(5.0)
        check(f.done(), 'close() does not complete after %d batches', r.batches)
        r.final('%r' % (case,))
    big(c, n)


# ---- C21: errors for a long time ------------------------------------------------------------------
def error_cases():
    return st.tuples(count(600), st.integers(1, 4), st.sampled_from([1, 15, 0.25]), st.booleans())


def errors(case, c):
    """One message per interval, however long it goes on and however many were suppressed."""
    n, each, minutes, back = case
    env.virtual = True
    lg = logging.Logger('errors')
    got = []
    h = logging.Handler()
    h.emit = lambda rec: got.append(rec.getMessage())
    lg.addHandler(h)
    er = ErrorReporter(Metrics(), logger=lg, log_interval_minutes=minutes)
    want = []
    for i in range(n):
        env.mono += minutes * 60 + 1.0
        for k in range(each):
            er.error('failed %s %d', i, k)
        want.append('failed %d 0' % i)
        check(got == want, 'after %d intervals %d messages, the last %r', i + 1, len(got), got[-1:])
    for k in range(n):
        er.error('again')
    check(got == want, '%d messages in one interval', len(got) - len(want) + 1)
    env.mono += minutes * 60 + 1.0
    er.error('last')
    check(got == want + ['last'] , 'nothing is written after %d suppressed errors', n * each)
    big(c, n)


# ---- C09: one limiter for a long time -------------------------------------------------------------
def limit_cases():
    return st.tuples(count(1500), st.sampled_from([1, 2, 0.5, 8, 100]), st.sampled_from([1, 4, 64]), st.sampled_from([0.125, 0.5, 1.0, 4.0]),
                     st.integers(1, 12), st.sampled_from(['limiter', 'sampler']))


def limits(case, c):
    n, rate, cap, wait, each, kind = case
    env.virtual = True
    if kind == 'limiter':
        lim = RateLimiter(rate, cap)
        def ask():
            return lim.check_credit(1.0)
    else:
        lim, cap = RateLimitingSampler(rate), max(rate, 1.0)
        def ask():
            return lim.is_sampled(1, 'op')[0]
    m = Bucket(rate, cap)
    ones = 0
    for i in range(n):
        for _ in range(each):
            got = ask()
            m.request(1.0, got, 'ask %d of %r' % (i, case))
            ones += bool(got)
        env.mono += wait
    check(ones <= cap + rate * wait * n, '%d admitted in %r s', ones, wait * n)
    env.mono += 2.0 / rate
    check(ask(), 'refused after a pause of two items, %d asked', n * each)
    big(c, n)


# ---- C01, C02, C03: many entries in a carrier -----------------------------------------------------
def carrier_cases(formats):
    return st.tuples(st.sampled_from(formats), count(400), count(300), gen.trace_ids(), gen.flags(), st.integers(1, 7))


def carriers(case, c):
    """All baggage arrives, whatever else is in the carrier."""
    f, n, noise, tid, fl, step = case
    tr = tracer()
    bag = {'k%d' % i: 'v%d' % i if i % step else 'x y%%%d' % i for i in range(n)}
    cx = SpanContext(tid, 3, 2, fl, dict(bag))
    if f == 'binary':
        car = bytearray()
        tr.inject(cx, Format.BINARY, car)
        got = tr.extract(Format.BINARY, car)
    else:
        car = {'Noise-%d' % i: 'n%d' % i for i in range(noise)}
        keep = dict(car)
        tr.inject(cx, FORMATS[f], car)
        check(all(car.get(k) == v for k, v in keep.items()), 'unrelated entries changed')
        check(len(car) == len(keep) + 1 + n, '%d entries written for %d baggage items', len(car) - len(keep), n)
        mixed = {}
        for i, (k, v) in enumerate(reversed(list(car.items()))):
            mixed[k.upper() if i % step else k] = v
        got = tr.extract(FORMATS[f], mixed)
    check(got is not None and (got.trace_id, got.span_id, got.parent_id, got.flags) == (tid, 3, 2, fl), 'context read: %r', got and fields(got)[:4])
    check(dict(got.baggage) == bag, '%d baggage items read, %d sent; first difference %r', len(got.baggage), n,
          diff(sorted(got.baggage.items()), sorted(bag.items())))
    big(c, max(n, noise))


# ---- C07: many roots ------------------------------------------------------------------------------
def decision_cases():
    return st.tuples(count(500), st.integers(1, 6), st.booleans(), st.integers(0, 2))


class Script(ConstSampler):
    def __init__(self, step):
        super().__init__(True)
        self.step, self.asked = step, []

    def is_sampled(self, trace_id, operation=''):
        self.asked.append((trace_id, operation))
        return len(self.asked) % self.step == 0, {'n': len(self.asked)}


def decisions(case, c):
    """Each root is decided by exactly one consultation, however many came before."""
    n, step, wide, kids = case
    smp, rep = Script(step), InMemoryReporter()
    tr = tracer(reporter=rep, sampler=smp, generate_128bit_trace_id=wide)
    roots = []
    for i in range(n):
        s = tr.start_span('op%d' % (i % 7), tags={'i': i})
        check(smp.asked[i:] == [(s.trace_id, 'op%d' % (i % 7))], 'root %d: the sampler was asked %r', i, smp.asked[i:])
        check(s.is_sampled() is ((i + 1) % step == 0), 'root %d sampled: %r', i, s.is_sampled())
        for _ in range(kids):
            k = tr.start_span('k', child_of=s)
            check((k.flags, k.trace_id) == (s.flags, s.trace_id) and len(smp.asked) == i + 1, 'child of root %d: flags %d, of its parent %d', i, k.flags, s.flags)
            k.finish()
        s.finish()
        roots.append(s)
    got = [s for s in rep.get_spans() if s.operation_name != 'k']
    check(got == [s for i, s in enumerate(roots) if (i + 1) % step == 0], '%d roots were reported of %d sampled', len(got), n // step)
    for s in got:
        have = {t.key: t.vLong for t in s.tags}
        check(have.get('n') == roots.index(s) + 1 and have.get('i') == roots.index(s), 'tags of root %d: %r', roots.index(s), have)
    big(c, n)


# ---- C10: many operations -------------------------------------------------------------------------
def operation_cases():
    return st.tuples(count(700), count(500), st.integers(1, 5), st.integers(0, 2))


def operations(case, c):
    """Operations beyond the limit share the default rate, those within keep their own, from the first to the last."""
    n, limit, step, again = case
    limit = max(limit, 1)
    env.virtual = True
    low, high = 1, 2 ** 64 - 1
    listed = {'r%d' % i: float(i % 2) for i in range(0, n, step)}
    smp = AdaptiveSampler({'defaultSamplingProbability': 0.5, 'defaultLowerBoundTracesPerSecond': 1e-9,
                           'perOperationStrategies': [{'operation': k, 'probabilisticSampling': {'samplingRate': v}} for k, v in sorted(listed.items())]}, limit)
    for k in range(again + 1):
        for name, rate in sorted(listed.items()):
            smp.is_sampled(low, name)                  # uses up what the lower bound grants
            got = smp.is_sampled(high, name)[0], smp.is_sampled(low, name)[0]
            check(got == ((False, False) if rate == 0 else (True, True)), 'operation %s with rate %r of %d: %r', name, rate, len(listed), got)
    for i in range(n):
        smp.is_sampled(high, 'new%d' % i)
        got = smp.is_sampled(low, 'new%d' % i), smp.is_sampled(high, 'new%d' % i)
        check(got[0] == (True, {'sampler.type': 'probabilistic', 'sampler.param': 0.5}) and not got[1][0], 'new operation %d of %d: %r', i, n, got)
    big(c, n)
    c.label('beyond the limit' if 2 * n > limit else 'within the limit')


# ---- C19: many series -----------------------------------------------------------------------------
def series_cases():
    return st.tuples(st.sampled_from(['legacy', 'prom']), count(300), st.integers(1, 3), st.integers(1, 5), st.booleans())


def series(case, c):
    """Every combination of name and label values counts on its own, however many there are."""
    from .props.c19 import Prom
    back, n, names, laps, keep = case
    sums, b = {}, None
    if back == 'legacy':
        got = {}
        f = LegacyMetricsFactory(Metrics(count=lambda k, v: got.__setitem__(k, got.get(k, 0) + v), gauge=lambda k, v: got.__setitem__(k, v)))
    else:
        b = Prom(None, False)
        f = b.factory
    try:
        made = {}
        for lap in range(laps):
            for i in range(n):
                name, val = 'm%d' % (i % names), 'v%d' % i
                if (name, val) not in made or not keep:
                    made[name, val] = f.create_counter(name, {'l': val})
                made[name, val](i + lap)
                key = '%s.l_%s' % (name, val) if b is None else (name + '_total', (('l', val),))
                sums[key] = sums.get(key, 0) + i + lap
        if b is not None:
            got = b.samples()
        check(got == sums, '%d series of %d; first difference %r', len(got), len(sums), diff(sorted(got.items()), sorted(sums.items())))
    finally:
        if b is not None:
            b.close()
    big(c, n)


# ---- C20: many tags in the environment ------------------------------------------------------------
def env_cases():
    return st.tuples(count(400), count(300), st.booleans())


def env_tags(case, c):
    """All process tags, from the configuration and from the environment, are used."""
    n, m, spaces = case
    cfg = {'service_name': 's'}
    want = {}
    if m:
        cfg['tags'] = {'c%d' % i: i for i in range(m)}
        want.update(cfg['tags'])
    before = os.environ.get('JAEGER_TAGS')
    try:
        if n:
            os.environ['JAEGER_TAGS'] = (', ' if spaces else ',').join('e%d=v%d' % (i, i) for i in range(n))
            want.update(('e%d' % i, 'v%d' % i) for i in range(n))
        co = Config(cfg)
        check(co.tags == want, '%d tags of %d', len(co.tags), len(want))
        tr = co.create_tracer(InMemoryReporter(), ConstSampler(True))
        miss = [k for k, v in want.items() if tr.tags.get(k) != v]
        check(not miss, 'tags %r are missing', miss[:4])
    finally:
        os.environ.pop('JAEGER_TAGS', None)
        if before is not None:
            os.environ['JAEGER_TAGS'] = before
    big(c, max(n, m))


def _test(strategy, run, quick=600):
    return Test('many', strategy, run, quick=quick, rule=RULE)


LINEAGE = _test(lineage_cases, lineage)
CHAIN = _test(chain_cases, chain)
SPAN = _test(span_cases, span)
BAGGAGE = _test(baggage_cases, baggage)
SAMPLER_POLLS = _test(lambda: poll_cases('sampler'), polls, 600)
CREDIT_POLLS = _test(lambda: poll_cases('credits'), polls, 600)
REPORTS = _test(report_cases, reports)
ERRORS = _test(error_cases, errors)
LIMITS = _test(limit_cases, limits)
TEXT = _test(lambda: carrier_cases(['text', 'http']), carriers)
BINARY = _test(lambda: carrier_cases(['binary']), carriers)
DECISIONS = _test(decision_cases, decisions)
OPERATIONS = _test(operation_cases, operations)
SERIES = _test(series_cases, series)
ENV = _test(env_cases, env_tags)
