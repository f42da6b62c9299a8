"""C19: client metrics equal the history of calls, through both metrics backends."""
import copy
import itertools
import opentracing
from hypothesis import strategies as st
from prometheus_client import REGISTRY
from .. import boot, gen, sched, volume
from .. import races as racing
from ..core import Test, check
from ..util import tracer, SpanContext, InMemoryReporter, Format
from jaeger_client.metrics import LegacyMetricsFactory, Metrics
from jaeger_client.metrics.prometheus import PrometheusMetricsFactory
from jaeger_client.sampler import Sampler
from jaeger_client.throttler import Throttler

PROP = 'C19'
RULE = ('tracer histories (roots, server spans, joins, children, debug ids, priority changes, repeated finishes) counted through the legacy or '
        'the Prometheus backend; creation and use of metrics with similar names and labels in any order, values compared with a sum per name '
        'and label combination; non-trivial: at least two distinct counters moved, or two metrics share a name or a label')
ASSUMPTIONS = ['Prometheus metrics of one name always have the same label names, as Prometheus itself requires',
               'a span without parent that was started as an RPC server span counts as a joined trace, any other as a started one']
env = boot.env
NS = itertools.count()


class Script(Sampler):
    def __init__(self, answers):
        super().__init__()
        self.answers, self.n = answers, 0

    def is_sampled(self, trace_id, operation=''):
        self.n += 1
        return self.answers[self.n % len(self.answers)], {'sampler.type': 'x', 'sampler.param': 1}

    def close(self):
        pass


class Throttle(Throttler):
    def __init__(self, answers):
        self.answers, self.n = answers, 0

    def is_allowed(self, operation):
        self.n += 1
        return self.answers[self.n % len(self.answers)]


class Legacy(object):
    def __init__(self):
        self.c = {}
        self.factory = LegacyMetricsFactory(Metrics(count=self._count))

    def _count(self, k, v):
        self.c[k] = self.c.get(k, 0) + v

    def read(self, name, tags):
        return self.c.get(name + ''.join('.%s_%s' % (k, tags[k]) for k in sorted(tags)), 0)

    def close(self):
        pass


class Prom(object):
    def __init__(self, service=None, plain=False):
        self.ns = '' if plain else 'n%d' % next(NS)
        self.service = service
        self.before = set(REGISTRY._collector_to_names)
        self.factory = PrometheusMetricsFactory(namespace=self.ns, service_name_label=service) if self.ns else \
            PrometheusMetricsFactory(service_name_label=service)
        self.prefix = self.ns + '_' if self.ns else ''

    def read(self, name, tags, suffix='_total'):
        t = {k: str(v) for k, v in tags.items()}
        if self.service:
            t['service'] = self.service
        v = REGISTRY.get_sample_value(self.prefix + name + suffix, t)
        return v or 0

    def samples(self):
        out = {}
        for col in list(REGISTRY._collector_to_names):
            if col not in self.before:
                for m in col.collect():
                    for s in m.samples:
                        if not s.name.endswith('_created'):
                            out[(s.name[len(self.prefix):], tuple(sorted(s.labels.items())))] = s.value
        return out

    def close(self):
        for col in list(REGISTRY._collector_to_names):
            if col not in self.before:
                REGISTRY.unregister(col)


@st.composite
def histories(draw):
    back = draw(st.sampled_from(['legacy', 'legacy', 'prom', 'promsvc', 'deprecated']))
    one = draw(st.booleans())
    answers = draw(st.lists(st.booleans(), min_size=1, max_size=4))
    ops = []
    for _ in range(draw(st.integers(1, 16))):
        k = draw(st.integers(0, 11))
        i = draw(st.integers(0, 9))
        if k < 7:
            par = draw(st.sampled_from(['none', 'none', 'span', 'span', 'ctx', 'rootctx', 'remote', 'ref', 'active', 'debug', 'bag', 'unsampled',
                                        'ignore']))
            kind = draw(st.sampled_from([None, None, 'server', 'server', 'client', 'producer', 'SERVER', 5]))
            ops.append(('start', par, kind, i, draw(st.sampled_from([None, None, 0, 1])), draw(st.booleans())))
        elif k < 9:
            ops.append(('finish', i, draw(st.sampled_from([None, None, None, None, 0.0, 0, 4.5, 5.0, -1.0, 1e12]))))
        elif k < 10:
            ops.append(('prio', i, draw(st.sampled_from([0, 1]))))
        else:
            ops.append(('kind', i, draw(st.sampled_from(['server', 'client']))))
    return back, one, answers, ops, draw(st.sampled_from([None, None, None, 'unsample', 'refinish'])), \
        draw(st.tuples(gen.settings('one_span_per_rpc', 'trace_id_header'), st.one_of(st.none(), st.lists(st.booleans(), min_size=1, max_size=3))))


def run(case, c):
    back, one, answers, ops, act, (kw, throttle) = case
    if throttle is not None:
        kw = dict(kw, throttler=Throttle(throttle))
    env.virtual = True
    b = Legacy() if back in ('legacy', 'deprecated') else Prom('svc' if back == 'promsvc' else None)
    try:
        reports = []

        class Rec(InMemoryReporter):
            def report_span(self, span):
                reports.append(span)
                if act == 'unsample':
                    span.set_tag('sampling.priority', 0)
                elif act == 'refinish':
                    span.finish()
        if back == 'deprecated':
            tr = tracer(reporter=Rec(), sampler=Script(answers), metrics=Metrics(count=b._count), one_span_per_rpc=one, **kw)
        else:
            tr = tracer(reporter=Rec(), sampler=Script(answers), metrics_factory=b.factory, one_span_per_rpc=one, **kw)
        model = {}

        def bump(name, **tags):
            k = (name, tuple(sorted(tags.items())))
            model[k] = model.get(k, 0) + 1
        spans, nrep = [], 0
        for op in ops:
            if op[0] == 'start':
                _, par, kind, i, prio, late = op
                kw, active = {}, None
                p = spans[i % len(spans)] if spans else None
                if par in ('span', 'ref', 'active', 'ctx', 'ignore') and p is None:
                    par = 'none'
                if par == 'span':
                    kw['child_of'] = p
                elif par == 'ctx':
                    kw['child_of'] = p.context
                elif par == 'ref':
                    kw['references'] = opentracing.follows_from(p.context)
                elif par in ('active', 'ignore'):
                    active = tr.scope_manager.activate(p, False)
                    if par == 'ignore':
                        kw['ignore_active_span'] = True
                elif par == 'rootctx':
                    kw['child_of'] = tr.extract(Format.TEXT_MAP, {'uber-trace-id': '9:9:0:1'})
                elif par == 'remote':
                    kw['child_of'] = SpanContext(5, 6, 7, 1)
                elif par == 'unsampled':
                    kw['child_of'] = SpanContext(5, 6, None, 0)
                elif par == 'debug':
                    kw['child_of'] = SpanContext.with_debug_id('d')
                elif par == 'bag':
                    kw['child_of'] = SpanContext(None, None, None, None, {'a': 'b'})
                tags = {}
                if kind is not None:
                    tags['span.kind'] = kind
                if prio is not None:
                    tags['sampling.priority'] = prio
                if tags or late:
                    kw['tags'] = tags
                if late:
                    kw['start_time'] = 5.0
                s = tr.start_span(('op', 'op', '', None, '\u00e9 /x')[(i + len(spans)) % 5], **kw)
                if active is not None:
                    active.close()
                spans.append(s)
                y = 'y' if s.is_sampled() else 'n'
                bump('jaeger:started_spans', sampled=y)
                if s.parent_id is None:
                    bump('jaeger:traces', sampled=y, state='joined' if kind == 'server' else 'started')
                    c.label('root %s %s' % (kind, y))
                if par in ('none', 'debug', 'bag', 'ignore'):
                    check(s.parent_id is None, 'a root has parent %r', s.parent_id)
                elif not (one and kind == 'server'):
                    check(s.parent_id is not None, 'a child has no parent: %r', op)
            elif spans:
                s = spans[op[1] % len(spans)]
                if op[0] == 'finish':
                    s.finish(*op[2:])
                    if len(reports) > nrep:
                        check(len(reports) == nrep + 1, 'one finish reported %d spans', len(reports) - nrep)
                        nrep += 1
                        bump('jaeger:finished_spans')
                elif op[0] == 'prio':
                    s.set_tag('sampling.priority', op[2])
                else:
                    s.set_tag('span.kind', op[2])
            names = [('jaeger:started_spans', {'sampled': x}) for x in 'yn'] + [('jaeger:finished_spans', {})] + \
                [('jaeger:traces', {'sampled': x, 'state': z}) for x in 'yn' for z in ('started', 'joined')]
            for name, tags in names:
                want = model.get((name, tuple(sorted(tags.items()))), 0)
                got = b.read(name, tags)
                check(got == want, '%s %r is %r, expected %r after %r of %r', name, tags, got, want, op, case)
        if len(model) > 2:
            c.hit(back)
    finally:
        b.close()


# --- backends -----------------------------------------------------------------------------------------
LABELS = ['a', 'b', 'ab', 'bc', 'c', 'a_b', 'b_c', 'state', 'result', 'z', 'A', 'x1', 'service', 'name', 'value']
NAMES = ['m', 'ma', 'm_a', 'mab', 'a', 'ab', 'jaeger:m', 'jaeger:m_a', 'jaeger_m', 'M', 'mb', 'm_b']
VALUES = st.one_of(st.sampled_from(['1', '2', 'y', 'n', '', 'a', 'b', 'a_b', 'x.y', '\u00e9', 'None', 'True']), gen.text(6), st.sampled_from([1, 2, True, None, 1.5]))


@st.composite
def backends(draw):
    back = draw(st.sampled_from(['legacy', 'prom', 'prom', 'promsvc', 'promplain']))
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=4, unique=True))
    sets = {n: draw(st.lists(st.sampled_from([x for x in LABELS if back != 'promsvc' or x != 'service']), max_size=3, unique=True)) for n in names}
    kinds = {n: draw(st.sampled_from(['counter', 'counter', 'gauge'])) for n in names}
    mets = []
    for _ in range(draw(st.integers(1, 8))):
        n = draw(st.sampled_from(names))
        keys = draw(st.permutations(sets[n]))
        mets.append((kinds[n] if draw(st.integers(0, 9)) or back != 'legacy' else 'timer', n,
                     [(k, draw(VALUES)) for k in keys] if keys or draw(st.booleans()) else None))
    nums = st.one_of(st.integers(0, 20), st.sampled_from([0, 1, 2, 0.5, 1.25, 1000000, 1500, 1]))
    uses = draw(st.lists(st.tuples(st.integers(0, 7), nums, st.booleans()), max_size=14))
    return back, mets, uses


def run_backend(case, c):
    back, mets, uses = case
    env.virtual = True
    if back == 'legacy':
        calls, want = [], []
        f = LegacyMetricsFactory(Metrics(count=lambda k, v: calls.append(('counter', k, v)), gauge=lambda k, v: calls.append(('gauge', k, v)),
                                         timing=lambda k, v: calls.append(('timer', k, v))))
        b = None
    else:
        b = Prom('svc' if back == 'promsvc' else None, back == 'promplain')
        f = b.factory
    try:
        if b is not None:
            f.create_timer('t', {'a': 'b'})(5)
        fns = []
        for kind, name, tags in mets:
            t = None if tags is None else dict(tags)
            keep = copy.deepcopy(t)
            order = None if t is None else list(t)
            fn = {'counter': f.create_counter, 'gauge': f.create_gauge, 'timer': f.create_timer}[kind](name, t) if len(name) % 2 else \
                {'counter': f.create_counter, 'gauge': f.create_gauge, 'timer': f.create_timer}[kind](name=name, tags=t)
            check(t == keep and (t is None or list(t) == order), 'the tags given were changed to %r from %r: %r', t, keep, case)
            if t:
                t.clear()
                t['other'] = 'x'
            fns.append(fn)
        sums = {}
        touched = set()
        if b is not None:
            for kind, name, tags in mets:
                t = {k: str(v) for k, v in tags or ()}
                if back == 'promsvc':
                    t['service'] = 'svc'
                sums[(name + ('_total' if kind == 'counter' else ''), tuple(sorted(t.items())))] = 0
        for i, v, neg in uses:
            kind, name, tags = mets[i % len(mets)]
            if kind == 'gauge' and neg:
                v = -v
            fns[i % len(mets)](v)
            t = {k: v2 for k, v2 in tags or ()}
            touched.add((name, repr(sorted(t.items(), key=str))))
            if b is None:
                key = name + ''.join('.%s_%s' % (k, t[k]) for k in sorted(t))
                want.append((kind, key, v / 1000.0 if kind == 'timer' else v))
                check(calls == want, 'backend got %r, expected %r: %r', calls, want, case)
            else:
                t = {k: str(v2) for k, v2 in t.items()}
                if back == 'promsvc':
                    t['service'] = 'svc'
                key = (name + ('_total' if kind == 'counter' else ''), tuple(sorted(t.items())))
                sums[key] = (sums[key] if kind == 'counter' else 0) + v
                check(abs(b.samples().get(key, -1) - sums[key]) < 1e-9, '%r is %r, expected %r: %r', key, b.samples().get(key), sums[key], case)
        if b is not None:
            got = b.samples()
            check(set(got) == set(sums), 'metrics %r, expected %r: %r', sorted(got), sorted(sums), case)
            for k in sums:
                check(abs(got[k] - sums[k]) < 1e-9, '%r is %r, expected %r: %r', k, got[k], sums[k], case)
        if len(touched) > 1:
            c.hit(back)
    finally:
        if b is not None:
            b.close()


# --- one factory shared by threads --------------------------------------------------------------------
@st.composite
def shared(draw):
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=2, unique=True))
    sets = {n: draw(st.lists(st.sampled_from(LABELS[:6]), max_size=2, unique=True)) for n in names}
    kinds = {n: draw(st.sampled_from(['counter', 'counter', 'gauge'])) for n in names}
    threads = []
    for _ in range(draw(st.sampled_from([2, 2, 3]))):
        th = []
        for _ in range(draw(st.integers(1, 3))):
            n = draw(st.sampled_from(names))
            th.append((kinds[n], n, [(k, draw(st.sampled_from(['1', '2']))) for k in draw(st.permutations(sets[n]))],
                       draw(st.sampled_from([0, 1, 3]))))
        threads.append(th)
    return draw(st.sampled_from(['legacy', 'prom', 'prom', 'promsvc'])), threads, draw(sched.plans(st, 120, 6))


def run_shared(case, c):
    back, threads, plan = case
    env.virtual = True
    b = Legacy() if back == 'legacy' else Prom('svc' if back == 'promsvc' else None)
    seen = {}
    if back == 'legacy':
        log = []
        b.factory = LegacyMetricsFactory(Metrics(count=lambda k, v: log.append((k, v)), gauge=lambda k, v: log.append((k, v))))

    def body(th):
        def f():
            for kind, name, tags, v in th:
                fn = (b.factory.create_counter if kind == 'counter' else b.factory.create_gauge)(name, dict(tags) or None)
                fn(v)
        return f
    try:
        s = sched.Sched(plan)
        s.run([body(th) for th in threads])
        for th in threads:
            for kind, name, tags, v in th:
                seen.setdefault((kind, name, tuple(sorted(tags))), []).append(v)
        if back == 'legacy':
            want = sorted((n + ''.join('.%s_%s' % t for t in tags), v) for (k, n, tags), vs in seen.items() for v in vs)
            check(sorted(log) == want, 'backend got %r, expected %r', sorted(log), want)
        else:
            got = b.samples()
            for (kind, name, tags), vs in seen.items():
                key = (name + ('_total' if kind == 'counter' else ''), tuple(sorted(tags + ((('service', 'svc'),) if back == 'promsvc' else ()))))
                v = got.pop(key, None)
                if kind == 'counter':
                    check(v == sum(vs), '%r is %r, expected %r', key, v, sum(vs))
                else:
                    check(v in vs, 'gauge %r is %r, it was set to %r', key, v, vs)
            check(not got, 'metrics nobody created: %r', got)
        if s.preempted_mid:
            c.hit(back)
    finally:
        b.close()


TESTS = [
    Test('histories', histories, run, quick=14000, rule=RULE),
    Test('races', racing.start_cases, racing.run_starts, quick=4000, rule=racing.START_RULE),
    Test('backends', backends, run_backend, quick=14000, rule=RULE),
    Test('shared', shared, run_shared, quick=3000, rule=RULE),
    volume.SERIES,
]
