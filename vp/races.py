"""Several threads sharing one tracer: propagation and starting spans, under generated schedules."""
import opentracing
from hypothesis import strategies as st
from . import gen, sched
from .agent import Counters
from .core import check
from .util import tracer, ctx, fields, SpanContext, InMemoryReporter, Format, FORMATS, Corrupted
from jaeger_client.codecs import B3Codec
from jaeger_client.sampler import Sampler

HOSTILE = [{}, {'uber-trace-id': 'x'}, {'uber-trace-id': '1:2:3'}, {'uber-trace-id': '0:0:0:0'}, {'jaeger-debug-id': 'dbg'},
           {'uberctx-a': 'b'}, {'jaeger-baggage': 'k=v,w=x'}, {'uber-trace-id': '1:2:0:1', 'jaeger-debug-id': 'both', 'uberctx-Q': 'r'}]


# ---- propagation ------------------------------------------------------------------------------------
def codec_cases(formats, b3=False):
    @st.composite
    def cases(draw):
        bg = st.just({}) if b3 else gen.baggage(max_items=2, big=0)
        threads = [draw(st.lists(st.tuples(st.sampled_from(['inject', 'round', 'round', 'hostile']), st.sampled_from(formats),
                                           gen.contexts(bg=bg), st.integers(0, len(HOSTILE) - 1)), min_size=1, max_size=3))
                   for _ in range(draw(st.sampled_from([2, 2, 3])))]
        return draw(st.booleans()), threads, draw(sched.plans(st, 900, 8))
    return cases


def _extract(tr, fmt, carrier):
    try:
        got = tr.extract(fmt, carrier)
    except Corrupted:
        return 'corrupted'
    return got and (fields(got), got.debug_id)


def run_codecs(case, c):
    wide, threads, plan = case

    def mk():
        return tracer(generate_128bit_trace_id=wide, extra_codecs={'b3': B3Codec(generate_128bit_trace_id=wide)})

    def fmt(f):
        return FORMATS.get(f, f)

    def one(tr, op):
        how, f, t, h = op
        if how == 'hostile' and f in ('text', 'http'):
            return _extract(tr, fmt(f), dict(HOSTILE[h]))
        car = bytearray() if f == 'binary' else {}
        tr.inject(ctx(t), fmt(f), car)
        kept = bytes(car) if f == 'binary' else dict(car)
        return kept if how == 'inject' else (kept, _extract(tr, fmt(f), car))
    want = [[one(mk(), op) for op in th] for th in threads]
    tr = mk()
    s = sched.Sched(plan)
    got = s.run([lambda th=th: [one(tr, op) for op in th] for th in threads])
    for k, th in enumerate(threads):
        for i, op in enumerate(th):
            check(got[k][i] == want[k][i], 'with other threads %s gives %r, alone %r', op[:2], got[k][i], want[k][i])
    if s.preempted_mid:
        c.hit('interleaved')
    for th in threads:
        c.label(*[op[1] for op in th])


# ---- starting spans ---------------------------------------------------------------------------------
class OpSampler(Sampler):
    """Samples operations whose name does not start with 'n'; the tag tells the operation."""

    def __init__(self):
        super().__init__()
        self.calls = []

    def is_sampled(self, trace_id, operation=''):
        self.calls.append((trace_id, operation))
        return not operation.startswith('n'), {'sampler.type': 'op', 'sampler.param': operation}

    def close(self):
        pass


@st.composite
def start_cases(draw):
    remotes = draw(st.lists(gen.contexts(bg=gen.baggage(max_items=2, big=0)), min_size=1, max_size=2))
    threads = []
    for _ in range(draw(st.sampled_from([2, 2, 3]))):
        threads.append(draw(st.lists(st.tuples(
            st.sampled_from(['root', 'root', 'active', 'child', 'child', 'join', 'bgroot', 'debug', 'close', 'finish', 'server', 'refs']),
            st.sampled_from(['s', 'n', 'sx', 'nx', '']), st.integers(0, 5), st.booleans()), min_size=1, max_size=4)))
    return draw(st.booleans()), draw(st.booleans()), remotes, threads, draw(sched.plans(st, 900, 8))


def run_starts(case, c):
    wide, one, remotes, threads, plan = case
    m = Counters()
    rep = InMemoryReporter()
    sampler = OpSampler()
    tr = tracer(reporter=rep, sampler=sampler, generate_128bit_trace_id=wide, one_span_per_rpc=one, metrics_factory=m.factory)
    rctx = [ctx(r) for r in remotes]
    shared = tr.start_span('shared')
    shared.set_baggage_item('sh', 'v')
    shbag = dict(shared.context.baggage)
    made = [[] for _ in threads]      # (span, kind, parent fields or None, op, expected flags, expected baggage)
    finished = [[] for _ in threads]

    def body(k, ops):
        mine, stack = made[k], []

        def record(span, kind, parent, op, flags, bag, server):
            mine.append(span)
            f = fields(span.context)
            if parent is None:
                check(f[2] is None and f[0] and f[1], 'a new trace has ids %r', f)
                check(f[0] < (2 ** 128 if wide else 2 ** 64), 'trace id %x', f[0])
            else:
                check(f[0] == parent[0], 'trace id %x, parent has %x', f[0], parent[0])
                if server and one:
                    check(f[1:3] == parent[1:3], 'shared span %r, caller %r', f, parent)
                else:
                    check(f[2] == parent[1], 'parent id %r, parent has %r', f[2], parent[1])
            check(f[3] == flags, 'flags of %r are %r, expected %r', kind, f[3], flags)
            check(f[4] == bag, 'baggage of %r is %r, expected %r', kind, f[4], bag)
            check(span.operation_name == op, 'operation is %r, started as %r', span.operation_name, op)
            tags = {t.key: t.vStr for t in span.tags}
            if flags & 1:
                want = {} if parent is not None else {'jaeger-debug-id': 'd%d' % k} if kind == 'debug' else \
                    {'sampler.type': 'op', 'sampler.param': op}
                if server:
                    want['span.kind'] = 'server'
                check(tags == want, 'tags of %s are %r, expected %r', kind, tags, want)
            span.set_baggage_item('own', '%d-%d' % (k, len(mine)))

        def f():
            for kind, op, i, flag in ops:
                server = kind == 'server'
                act = stack[-1][1] if stack else None
                check(tr.active_span is act, 'the active span of the thread is another one')
                kw = {}
                if kind == 'close':
                    if stack:
                        scope, span = stack.pop()
                        scope.close()
                        if span.is_sampled() and span not in finished[k]:
                            finished[k].append(span)
                    continue
                if kind == 'finish':
                    if mine:
                        s = mine[i % len(mine)]
                        s.finish()
                        if s.is_sampled() and s not in finished[k]:
                            finished[k].append(s)
                    continue
                parent = None
                if kind == 'child':
                    parent = mine[i % len(mine)] if mine and i < 4 else shared
                    kw['child_of'] = parent if flag else parent.context
                    parent = parent.context
                elif kind in ('join', 'server'):
                    parent = rctx[i % len(rctx)]
                    kw['child_of'] = parent
                elif kind == 'refs':
                    parent = rctx[i % len(rctx)]
                    kw['references'] = [opentracing.follows_from(parent), opentracing.child_of(shared.context)]
                    if act is not None:
                        parent = act.context
                elif kind == 'bgroot':
                    kw['child_of'] = SpanContext(None, None, None, None, baggage={'in': 'b%d' % k})
                    kw['ignore_active_span'] = True
                elif kind == 'debug':
                    kw['child_of'] = SpanContext(None, None, None, None, debug_id='d%d' % k)
                    kw['ignore_active_span'] = True
                elif kind == 'root':
                    if act is not None:
                        if flag:
                            kw['ignore_active_span'] = True
                        else:
                            parent = act.context
                elif act is not None:
                    parent = act.context
                if server:
                    kw['tags'] = {'span.kind': 'server'}
                pf = fields(parent) if parent is not None else None
                if pf is not None:
                    flags, bag = pf[3], dict(pf[4])
                else:
                    flags = 3 if kind == 'debug' else 0 if op.startswith('n') else 1
                    bag = {'in': 'b%d' % k} if kind == 'bgroot' else {}
                if kind == 'active':
                    scope = tr.start_active_span(op, **kw)
                    check(tr.active_span is scope.span, 'the started span is not active')
                    stack.append((scope, scope.span))
                    record(scope.span, kind, pf, op, flags, bag, server)
                else:
                    record(tr.start_span(op, **kw), kind, pf, op, flags, bag, server)
                joins[k].append((pf, flags, server, one and server and pf is not None and not pf[2]))
                if pf is None and kind != 'debug':
                    asked[k].append((mine[-1].trace_id, op))
                if kind == 'refs':
                    refs = [(r.type, fields(r.referenced_context)[:3]) for r in mine[-1].references]
                    check(refs == [('follows_from', fields(rctx[i % len(rctx)])[:3]), ('child_of', fields(shared.context)[:3])],
                          'references are %r', refs)
            while stack:
                scope, span = stack.pop()
                scope.close()
                if span.is_sampled() and span not in finished[k]:
                    finished[k].append(span)
            check(tr.active_span is None, 'a span stays active')
        return f
    joins = [[] for _ in threads]
    asked = [[] for _ in threads]
    s = sched.Sched(plan)
    before = len(sampler.calls)
    s.run([body(k, ops) for k, ops in enumerate(threads)])
    spans = [x for mm in made for x in mm]
    ids = [x.span_id for x in spans if not one] + [x.trace_id for x in spans if x.parent_id is None]
    if not one:
        check(len(set(ids)) == len(ids), 'ids are used twice: %r', ids)
    for mm in made:
        for i, x in enumerate(mm):
            check(x.context.baggage.get('own') == '%d-%d' % (made.index(mm), i + 1), 'baggage mixed up between threads')
    check(dict(shared.context.baggage) == shbag, 'baggage of the shared parent changed')
    calls = sampler.calls[before:]
    want = [a for k in asked for a in k]
    check(sorted(calls) == sorted(want), 'the sampler was asked about %r, new traces are %r', sorted(calls), sorted(want))
    fin = [x for ff in finished for x in ff]
    check(sorted(map(id, rep.get_spans())) == sorted(map(id, fin)), '%d spans reported, %d sampled ones finished', len(rep.get_spans()), len(fin))
    cnt = {'jaeger:started_spans.sampled_y': 1, 'jaeger:traces.sampled_y.state_started': 1}

    def add(key):
        cnt[key] = cnt.get(key, 0) + 1
    for jj in joins:
        for pf, flags, server, noparent in jj:
            y = 'y' if flags & 1 else 'n'
            add('jaeger:started_spans.sampled_' + y)
            if pf is None or noparent:
                add('jaeger:traces.sampled_%s.state_%s' % (y, 'joined' if server else 'started'))
    if fin:
        cnt['jaeger:finished_spans'] = len(fin)
    check(m.c == cnt, 'counters are %r, the history gives %r', m.c, cnt)
    if s.preempted_mid:
        c.hit('interleaved')


CODEC_RULE = 'threads injecting and extracting through one tracer under generated schedules, compared with each call made alone'
START_RULE = 'threads starting, activating and finishing spans on one tracer under generated schedules'
