"""C05: a trace stays one trace across any tree of services and propagation formats."""
import opentracing
from hypothesis import strategies as st
from .. import boot, gen, volume
from ..core import Test, check
from ..util import NETTAGS, end_of, spice, FORMATS, Tracer, ConstSampler, InMemoryReporter
from jaeger_client.codecs import B3Codec
from jaeger_client.span_context import SpanContext
from jaeger_client.throttler import Throttler

PROP = 'C05'
RULE = ('trees of remote calls over services with random id width, header names, span-per-RPC mode, samplers and throttlers; formats drawn per call; '
        'baggage written between calls; non-trivial: a call chain of length two or more, or a format change, or baggage that '
        'crossed a call')
ASSUMPTIONS = ['services of one trace share the configured header names', 'baggage names are lower-case (header names are case-insensitive)']

env = boot.env
HDRS = [{}, {}, {}, {'trace_id_header': 'X-Trace', 'baggage_header_prefix': 'bag-', 'debug_id_header': 'X-Corr'},
        {'trace_id_header': 'UBER_Trace', 'baggage_header_prefix': 'X_B_', 'debug_id_header': 'dbg_id'}]
FMT = ['text', 'http', 'binary', 'b3', 'zipkin']
KEYS = gen.baggage_keys()
VALS = st.one_of(st.none(), gen.text(max_len=20, big=3000), gen.text(max_len=20))


class Gate(Throttler):
    def __init__(self, answer):
        self.answer = answer

    def is_allowed(self, operation):
        return self.answer


@st.composite
def cases(draw):
    services = draw(st.lists(st.tuples(st.booleans(), st.booleans(), st.sampled_from(['plain', 'plain', 'never', 'always', 'refuse', 'allow'])),
                             min_size=1, max_size=4))
    hdr = draw(st.integers(0, len(HDRS) - 1))
    root = draw(st.sampled_from(['sampled', 'sampled', 'unsampled', 'debug', 'priority', 'unprio', 'foreign']))
    if root == 'foreign':
        root = draw(gen.contexts(bg=st.dictionaries(KEYS, gen.text(max_len=20), max_size=2)).map(lambda t: (t[0], t[1], t[2], t[3] & 3, t[4])))
    n = draw(st.integers(1, 10))
    deep = draw(st.booleans())
    if draw(st.booleans()):
        keys = draw(st.lists(KEYS, min_size=1, max_size=3))
        key = st.sampled_from(keys)
    else:
        key = KEYS
    ops = []
    fmts = draw(st.sampled_from([FMT, FMT, FMT[:3], ['http'], ['binary'], ['text'], ['b3'], ['http', 'binary']]))
    for i in range(n):
        k = draw(st.integers(0, 9))
        who = -1 if deep else draw(st.integers(0, 20))
        if k < 5:
            ops.append(('call', who, draw(st.sampled_from(fmts)), draw(st.integers(0, 3)), draw(st.booleans()),
                        draw(st.integers(0, 2)), draw(st.one_of(st.just(0), st.integers(0, 2 ** 40)))))
        elif k < 6:
            ops.append(('local', who, draw(st.integers(0, 2)), draw(st.booleans())))
        elif k < 9:
            ops.append(('bag', who, draw(key), draw(VALS)))
        else:
            ops.append(('finish', who))
    ids = None
    if draw(st.integers(0, 3)) == 0:
        # random numbers may be anything, also close to each other
        b = draw(gen.trace_ids())
        ids = draw(st.lists(st.one_of(st.integers(0, 24).map(lambda d: b + d), st.integers(0, 63).map(lambda k: b ^ (1 << k)), gen.trace_ids()),
                            min_size=1, max_size=14, unique_by=lambda v: v & gen.MAX64).map(
            lambda l: [v & gen.MAX128 for v in l if v & gen.MAX64 and not (isinstance(root, tuple) and v & gen.MAX64 == root[1])]))
        if draw(st.booleans()):
            ids = sorted(ids)
    return services, hdr, root, ops, ids


def run(case, c):
    services, hdr, root, ops, ids = case
    env.bits_queue = list(ids) if ids else None
    tracers = []
    for i, (wide, one, own) in enumerate(services):
        rep = InMemoryReporter()
        decide = root != 'unsampled'
        kw = {}
        if i:
            # what the services along the way would decide themselves makes no difference
            decide = {'never': False, 'always': True}.get(own, decide)
            if own in ('refuse', 'allow'):
                kw['throttler'] = Gate(own == 'allow')
        elif own == 'allow':
            kw['throttler'] = Gate(True)
        tr = Tracer('svc', rep, ConstSampler(decide), tags=dict(NETTAGS), generate_128bit_trace_id=wide,
                    one_span_per_rpc=one, **kw, extra_codecs={'b3': B3Codec(generate_128bit_trace_id=wide)}, **HDRS[hdr])
        tracers.append(tr)
    formats = dict(FORMATS, b3='b3')
    t0 = tracers[0]
    if root == 'debug':
        name = HDRS[hdr].get('debug_id_header', 'jaeger-debug-id').replace('_', '-')
        ctx0 = t0.extract(FORMATS['http'], {name: 'corr'})
        check(ctx0 is not None and ctx0.debug_id == 'corr', 'debug header not recognised')
        s0 = t0.start_span('root', child_of=ctx0)
    elif isinstance(root, tuple):  # the trace was started by some other client
        s0 = t0.start_span('root', child_of=SpanContext(*root[:4], baggage=dict(root[4])))
    else:
        s0 = t0.start_span('root')
    foreign = isinstance(root, tuple)
    flags = root[3] if foreign else {'sampled': 1, 'unsampled': 0, 'debug': 3, 'priority': 3, 'unprio': 0}[root]
    if root == 'priority':
        s0.set_tag('sampling.priority', 1)
    elif root == 'unprio':
        s0.set_tag('sampling.priority', 0)
    tid = s0.trace_id
    check(s0.parent_id == (root[1] if foreign else None), 'parent of the first span is %r', s0.parent_id)
    check(tid == root[0] or not foreign, 'trace id %x, the incoming one is %r', tid, root)
    check(s0.flags == flags, 'root flags %d, expected %d', s0.flags, flags)
    # record: span, service, parent id expected, baggage model, depth
    recs = [[s0, 0, s0.parent_id, dict(root[4]) if foreign else {}, 0, False]]
    seen = {s0.span_id}
    crossed = False

    def verify(r, when):
        s, svc, pid, bg = r[:4]
        check(s.trace_id == tid, '%s: trace id %x, the trace is %x', when, s.trace_id, tid)
        check(s.flags == flags, '%s: flags %d, root decided %d', when, s.flags, flags)
        check(s.parent_id == pid, '%s: parent id %r, expected %r', when, s.parent_id, pid)
        check(dict(s.context.baggage) == bg, '%s: baggage %r, expected %r', when, dict(s.context.baggage), bg)
        for k, v in bg.items():
            check(s.get_baggage_item(k) == v, '%s: item %r', when, k)

    for op in ops:
        r = recs[op[1] % len(recs)] if op[1] >= 0 else recs[-1]
        caller, svc, pid, bg, depth = r[:5]
        if op[0] == 'bag':
            caller.set_baggage_item(op[2], op[3])
            if op[3] is None:
                bg.pop(op[2], None)
            else:
                bg[op[2]] = op[3]
            for x in recs:
                verify(x, 'after a baggage write')
            continue
        if op[0] == 'finish':
            caller.finish(**end_of(ops.index(op)))
            r[5] = True
            continue
        tags = None
        if op[0] == 'local':
            ctx, tr, svc2, mode, server = caller.context, tracers[svc], svc, op[2], op[3]
            fmt = None
        else:
            _, _, fmt, si, server, mode, bits = op
            svc2 = si % len(tracers)
            tr = tracers[svc2]
            carrier = bytearray() if fmt == 'binary' else {}
            tracers[svc].inject(caller if bits & 1 else caller.context, formats[fmt], carrier)
            if fmt in ('text', 'http', 'b3'):
                carrier = {gen.mangle_case(k, bits >> 3): v for k, v in carrier.items()}
                if bits & 2:
                    carrier = dict(reversed(list(carrier.items())))
            ctx = tr.extract(formats[fmt], carrier)
            check(ctx is not None, '%s: nothing extracted from %r', fmt, carrier)
        tags = {'span.kind': 'server'} if server else ({'span.kind': 'client'} if mode == 1 else None)
        if mode == 0:
            s = tr.start_span(child_of=ctx, tags=tags, **spice(ops.index(op)))
        elif mode == 1:
            s = tr.start_span(references=[opentracing.child_of(ctx)], tags=tags, **spice(ops.index(op)))
        else:
            s = tr.start_span(references=opentracing.follows_from(ctx), tags=tags, **spice(ops.index(op)))
        nb = dict(bg) if fmt in (None, 'text', 'http', 'binary') else {}
        if server and services[svc2][1]:
            check(s.span_id == caller.span_id, 'one span per RPC: span id %x, caller %x', s.span_id, caller.span_id)
            npid = pid
            c.hit('shared_span')
        else:
            check(s.span_id not in seen and s.span_id, 'span id %x is not fresh', s.span_id)
            seen.add(s.span_id)
            npid = caller.span_id
        recs.append([s, svc2, npid, nb, depth + (fmt is not None), False])
        verify(recs[-1], 'after %s' % (fmt or 'local'))
        if fmt:
            c.label(fmt)
            if depth:
                c.hit('depth2')
            if nb:
                c.hit('baggage_crossed')
            if len({x[0].trace_id >> 64 != 0 for x in recs}) and tid >> 64 and not services[svc2][0]:
                c.hit('wide_through_narrow')
    for r in recs:
        if not r[5]:
            r[0].finish()
    for r in recs:
        verify(r, 'at the end')
    got = [[id(s) for s in t.reporter.get_spans()] for t in tracers]
    for i, t in enumerate(tracers):
        want = [id(r[0]) for r in recs if r[1] == i] if flags & 1 else []
        check(sorted(got[i]) == sorted(want), 'service %d reported %d spans, expected %d', i, len(got[i]), len(want))
    c.label('root_foreign' if foreign else 'root_' + root)


TESTS = [Test('tree', cases, run, quick=24000), volume.CHAIN]
