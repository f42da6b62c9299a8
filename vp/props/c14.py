"""C14: what is sent to the agent is exactly what the application recorded."""
import enum
import math
import traceback

import opentracing
from hypothesis import strategies as st
from .. import boot, gen, volume
from ..agent import Counters, FakeChannel, decode, OK
from ..core import Injected, Test, check
from ..simloop import Sim
from ..util import Tracer, ConstSampler, SpanContext
from jaeger_client.reporter import Reporter

PROP = 'C14'
RULE = ('spans with generated ids, flags, names, times, references, tags and logs of every value type and of sizes around the '
        'configured limits, in batches of generated size; datagrams are decoded by an independent decoder; non-trivial: a value at '
        'or beyond a limit, an id with the top bit set, a reference, a log, an explicit time, or several spans in one datagram')
ASSUMPTIONS = ['times are within a million years of 1970',
               'nothing is recorded on a span after finish', 'tag names are unique per call and strings are encodable (others: C15)']
env = boot.env


class Num(enum.IntEnum):
    A = 7
    B = -(2 ** 40)


class F(float):
    pass


class Obj(object):
    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s


class S(str):
    pass


def deep(n, msg):
    if n == 0:
        raise Injected(msg)
    (deep if n % 3 else déép)(n - 1, msg)


exec(compile('def déép(n, msg):\n    (raised if n == 0 else deep)(n - 1, msg)\n\n\ndef raised(n, msg):\n    raise Injected(msg)\n',
             'média/€-😀.py', 'exec'))


def tb(n):
    try:
        deep(n, 'x')
    except Injected as e:
        return e.__traceback__


def mk(v):
    if isinstance(v, tuple) and v and v[0] == '!':
        kind = v[1]
        return {'tb': tb, 'obj': Obj, 'enum': lambda i: list(Num)[i], 'f': F, 's': S, 'list': lambda x: x}[kind](v[2])
    return v


KEYS = st.one_of(st.text('abcd.', min_size=1, max_size=3), gen.text(max_len=12, words=('error', 'span.kind', 'http.status_code', 'message', 'stack')))
NOT = ('sampling.priority', 'sampler.type', 'sampler.param')
VALUES = st.one_of(
    gen.text(max_len=20), gen.text(max_len=20, big=2100), st.booleans(), gen.ints(-2 ** 63, 2 ** 63 - 1), gen.ints(-300, 300),
    st.floats(allow_nan=True, allow_infinity=True), st.sampled_from([0.0, -0.0, 1.5, math.inf, -math.inf, 5e-324, 1.7976931348623157e308]),
    st.none(), st.binary(max_size=5), st.lists(st.integers(0, 9), max_size=3).map(lambda x: ('!', 'list', x)),
    st.sampled_from([('!', 'enum', 0), ('!', 'enum', 1), ('!', 'f', 2.5), ('!', 's', 'sub'), {'a': 1}, (1, 2), 1j]),
    st.integers(0, 3).map(lambda n: ('!', 'tb', n)), st.sampled_from([40, 100]).map(lambda n: ('!', 'tb', n)),
    gen.text(max_len=12).map(lambda s: ('!', 'obj', s)))


def maps(max_size=4):
    return st.lists(st.tuples(KEYS, VALUES), max_size=max_size, unique_by=lambda t: t[0]).map(
        lambda l: [t for t in l if t[0] not in NOT])


TIMES = st.one_of(st.none(), st.floats(1.0, 4e9), st.sampled_from([1e-6, 0, 0.0, 1.0, 1500000000.0, 1500000000.123456, 1500000000.999999, 4102444800.0, -1.5, 1e12]),
                  st.integers(1, 4 * 10 ** 15).map(lambda n: n / 1e6), st.integers(1, 2 * 10 ** 9))
LIMIT = st.one_of(st.none(), st.none(), st.sampled_from([0, 1, 5, 10, 1024, 1023, 1025, 256]), gen.sizes(2000))


@st.composite
def spans(draw):
    parent = draw(st.one_of(st.none(), gen.contexts(bg=st.just({})), gen.contexts(bg=st.just({}))))
    refs = draw(st.lists(st.tuples(st.sampled_from(['child_of', 'follows_from']),
                                   st.one_of(gen.contexts(bg=st.just({})), st.just(None))), max_size=3))
    for _ in range(draw(st.sampled_from([0, 0, 0, 0, 1, 2]))):  # a span may refer to its parent, or twice to the same span
        refs.insert(draw(st.integers(0, len(refs))), (draw(st.sampled_from(['child_of', 'follows_from'])),
                                                      draw(st.sampled_from([parent] + [x for _, x in refs]))))
    ops = []
    for _ in range(draw(st.integers(0, 5))):
        k = draw(st.integers(0, 9))
        if k < 3:
            ops.append(('tag', draw(KEYS.filter(lambda s: s not in NOT)), draw(VALUES)))
        elif k < 6:
            ops.append(('log', draw(maps()), draw(TIMES)))
        elif k < 7:
            ops.append(('event', draw(gen.text(max_len=8)), draw(st.one_of(st.none(), VALUES))))
        elif k < 8:
            ops.append(('info', draw(st.booleans()), draw(gen.text(max_len=8, min_len=1)), draw(st.one_of(st.none(), gen.text(max_len=5, min_len=1)))))
        elif k < 9:
            ops.append(('name', draw(gen.op_names())))
        else:
            ops.append(('advance', draw(st.sampled_from([0.5, 1.0, 0.001, 1.0 / 1024, 60.0]))))
    if draw(st.integers(0, 5)) == 0:
        ops.append(('raise', draw(gen.text(max_len=8, min_len=1)), draw(st.integers(0, 3))))
    tags = draw(maps())
    if draw(st.integers(0, 5)) == 0:
        tags = [t for t in tags if t[0] != 'span.kind'] + [('span.kind', 'server')]
    return (parent, refs, draw(st.one_of(gen.op_names())), tags, draw(TIMES), draw(TIMES),
            draw(st.tuples(gen.trace_ids(), gen.ints(1, 2 ** 64 - 1))), ops, draw(st.sampled_from([0, 0, 1, 2])))


@st.composite
def cases(draw):
    return (draw(st.tuples(gen.text(max_len=10, words=('svc',)), maps(3), LIMIT, LIMIT, st.booleans(),
                              gen.settings('generate_128bit_trace_id', 'max_tag_value_length', 'max_traceback_length'))), draw(st.integers(1, 5)),
            draw(st.lists(spans(), min_size=1, max_size=5)))


def value(v, limit, tblimit):
    """(type, value) expected on the wire"""
    if isinstance(v, bool):
        return ('bool', v)
    if isinstance(v, int):
        return ('long', int(v))
    if isinstance(v, float):
        return ('double', float(v))
    if type(v).__name__ == 'traceback':
        return ('string', ''.join(traceback.format_tb(v))[:tblimit])
    return ('string', str(v)[:limit])


def same(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 'double':
        return (math.isnan(a[1]) and math.isnan(b[1])) or (a[1] == b[1] and math.copysign(1, a[1]) == math.copysign(1, b[1]))
    return a[1] == b[1] and type(a[1]) is type(b[1])


def tags_equal(got, want, what):
    check([k for k, _, _ in got] == [k for k, _ in want], '%s: names %r, recorded %r', what, [k for k, _, _ in got][:12], [k for k, _ in want][:12])
    for (k, t, v), (_, w) in zip(got, want):
        check(same((t, v), w), '%s: %r is %s %.200r (length %s), recorded %s %.200r (length %s)', what, k, t, v,
              len(v) if isinstance(v, str) else '-', w[0], w[1], len(w[1]) if isinstance(w[1], str) else '-')


def micros(t):
    return t * 1e6


def run(case, c):
    (svc, ptags, limit, tblimit, wide, more), batch, specs = case
    with Sim() as sim:
        ch = FakeChannel(sim.io_loop)
        m = Counters()
        rep = Reporter(ch, queue_capacity=100, batch_size=batch, flush_interval=0.5, metrics_factory=m.factory)
        kw = dict(more)
        if limit is not None:
            kw['max_tag_value_length'] = limit
        if tblimit is not None:
            kw['max_traceback_length'] = tblimit
        L = 1024 if limit is None else limit
        TL = 4096 if tblimit is None else tblimit
        tr = Tracer(svc, rep, ConstSampler(True), tags={k: mk(v) for k, v in ptags}, generate_128bit_trace_id=wide, **kw)
        want = []

        def val(v):
            w = value(v, L, TL)
            if w[0] == 'string':
                n = len(str(v)) if type(v).__name__ != 'traceback' else len(''.join(traceback.format_tb(v)))
                lim = L if type(v).__name__ != 'traceback' else TL
                if n > lim:
                    c.hit('cut')
                elif n == lim:
                    c.hit('exactly at the limit')
            return w

        for parent, refs, op, tags, t0, t1, bits, ops, active in specs:
            env.bits_queue = [bits[0], bits[1]] if parent is None and not any(x for _, x in refs) else [bits[1]]
            shared = {}          # equal contexts are one object for spans with an odd span id
            rl = []

            def context(x):
                if not x:
                    return None
                made = SpanContext(*x[:3], flags=x[3] | 1, baggage={})
                return shared.setdefault(x[:4], made) if bits[1] & 1 else made
            pctx = context(parent)
            for typ, x in refs:
                rl.append(getattr(opentracing, typ)(context(x)))
            stags = {k: mk(v) for k, v in tags}
            recorded = dict(stags)
            start = env.wall()
            kw = {'child_of': pctx, 'references': rl or None, 'tags': dict(stags) or None, 'start_time': t0}
            if active:
                scope = tr.start_active_span(op, finish_on_close=active == 2, **kw)
                sp = scope.span
                check(tr.active_span is sp, 'the started span is not the active one')
                if active == 1:
                    scope.close()
            else:
                sp = tr.start_span(op, **kw)
            env.bits_queue = None
            check(active or tr.active_span is None, 'a span is active: %r', tr.active_span)
            parents = [pctx] if pctx else [r.referenced_context for r in rl if r.referenced_context]
            if not parents:
                recorded['sampler.type'] = 'const'
                recorded['sampler.param'] = True
                w = {'trace_id': sp.trace_id, 'parent_id': 0, 'flags': 1}
                check(0 < sp.trace_id < 2 ** (128 if wide else 64), 'trace id %r of a new trace (128-bit ids: %r)', sp.trace_id, wide)
            else:
                w = {'trace_id': parents[0].trace_id, 'parent_id': parents[0].span_id, 'flags': parents[0].flags}
                if more.get('one_span_per_rpc') and recorded.get('span.kind') == 'server':
                    check(sp.span_id == parents[0].span_id, 'a shared span has id %x, its parent %x', sp.span_id, parents[0].span_id)
                    w['parent_id'] = parents[0].parent_id or 0
                    c.hit('shared span')
            w['span_id'] = sp.span_id
            check(0 <= sp.span_id < 2 ** 64, 'span id %r', sp.span_id)
            w['start'] = t0 if t0 is not None else start
            w['references'] = [(typ, x[0], x[1]) for typ, x in refs if x]
            w['tags'] = [(k, val(v)) for k, v in recorded.items()]
            w['logs'] = []
            w['operation'] = op
            raised = False
            for o in ops:
                if o[0] == 'tag':
                    v = mk(o[2])
                    check(sp.set_tag(o[1], v) is sp, 'set_tag did not return the span')
                    w['tags'].append((o[1], val(v)))
                elif o[0] == 'log':
                    f = {k: mk(v) for k, v in o[1]}
                    check(sp.log_kv(f, o[2]) is sp, 'log_kv did not return the span')
                    w['logs'].append((o[2] if o[2] is not None else env.wall(), [(k, val(v)) for k, v in f.items()]))
                    c.hit('log')
                elif o[0] == 'event':
                    p = mk(o[2])
                    sp.log_event(o[1], p)
                    w['logs'].append((env.wall(), [('event', val(o[1]))] + ([] if p is None else [('payload', val(p))])))
                elif o[0] == 'info':
                    if o[1]:
                        sp.info(o[2], o[3])
                    else:
                        sp.error(o[2], o[3])
                        w['tags'].append(('error', ('bool', True)))
                    w['logs'].append((env.wall(), [('event', val(o[2]))] + ([] if o[3] is None else [('payload', val(o[3]))])))
                elif o[0] == 'name':
                    check(sp.set_operation_name(o[1]) is sp, 'set_operation_name did not return the span')
                    w['operation'] = o[1]
                elif o[0] == 'advance':
                    env.mono += o[1]
                else:
                    raised = True
                    try:
                        with scope if active == 2 else sp:
                            deep(o[2], o[1])
                    except Injected as e:
                        t = e.__traceback__
                        stack = val(t)
                    w['tags'].append(('error', ('bool', True)))
                    w['logs'].append((env.wall(), {'event': ('string', 'error'[:L]), 'message': val(o[1]), 'error.object': val(o[1]),
                                                   'error.kind': val(str(Injected)), 'stack': stack}))
                    c.hit('exception logged')
                    t1 = None
            if not raised:
                if active == 2 and t1 is None:
                    scope.close()
                else:
                    sp.finish(finish_time=t1)
                    if active == 2:
                        scope.close()
            w['duration'] = (t1 if t1 is not None else env.wall()) - w['start']
            want.append(w)
            if w['span_id'] >> 63 or w['trace_id'] >> 63:
                c.hit('top bit')
            if w['references']:
                c.hit('reference')
            if t0 is not None or t1 is not None:
                c.hit('explicit time')
        sim.advance(2.0)
        check(not sim.errors(), 'exception escaped into the event loop: %r', sim.errors()[:1])
        sim.settle()
        data = [decode(d) for _, d in ch.datagrams]
        tr.close()
        sim.advance(1.0)
        got = [s for b in data for s in b['spans']]
        check(len(got) == len(want), '%d spans sent, %d recorded (counted as sent: %d): %r', len(got), len(want), m.get(OK), case)
        if any(len(b['spans']) > 1 for b in data):
            c.hit('several spans in one datagram')
        for b in data:
            check(b['service'] == svc, 'service name %r, configured %r', b['service'], svc)
            mine = {k for k, _ in ptags}
            pt = [t for t in b['tags'] if t[0] in mine]
            extra = {t[0] for t in b['tags']} - mine
            given = {k: mk(v) for k, v in ptags}
            for k in ('ip', 'hostname'):
                if given.get(k, 1) is None:
                    given.pop(k)
                    pt = [t for t in pt if t[0] != k]
            order = [(k, value(v, L, 4096)) for k, v in given.items() if k != 'jaeger.version']
            tags_equal([t for t in pt if t[0] != 'jaeger.version'], order, 'process tags of %r' % (case[0],))
            check(extra <= {'jaeger.version', 'ip', 'hostname'}, 'process tags %r were not configured', extra)
            check({'jaeger.version', 'ip', 'hostname'} <= {t[0] for t in b['tags']}, 'process tags are %r', b['tags'])
        for i, (g, w) in enumerate(zip(got, want)):
            what = 'span %d of %r' % (i, case)
            for k in ('span_id', 'parent_id', 'operation', 'flags', 'references'):
                check(g[k] == w[k], '%s: %s is %r, recorded %r', what, k, g[k], w[k])
            if w['trace_id'] is not None:
                check(g['trace_id'] == w['trace_id'], '%s: trace id %x, recorded %x', what, g['trace_id'], w['trace_id'])
            check(abs(g['start'] - micros(w['start'])) <= 1 + abs(micros(w['start'])) * 1e-15, '%s: start %d us, recorded %r s', what, g['start'], w['start'])
            check(abs(g['duration'] - micros(w['duration'])) <= 1 + abs(micros(w['duration'])) * 1e-15, '%s: duration %d us, recorded %r s',
                  what, g['duration'], w['duration'])
            tags_equal(g['tags'], w['tags'], what + ', tags')
            check(len(g['logs']) == len(w['logs']), '%s: %d logs, recorded %d', what, len(g['logs']), len(w['logs']))
            for (ts, fields), (wt, wf) in zip(g['logs'], w['logs']):
                check(abs(ts - micros(wt)) <= 1 + abs(micros(wt)) * 1e-15, '%s: log at %d us, recorded %r s', what, ts, wt)
                if isinstance(wf, dict):
                    fields, wf = sorted(fields), sorted(wf.items())
                tags_equal(fields, list(wf), what + ', log fields')


TESTS = [Test('spans', cases, run, quick=10000, rule=RULE), volume.SPAN]
