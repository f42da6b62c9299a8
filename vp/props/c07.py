"""C07: one sampling decision per trace, consistent everywhere; debug gate and priority override."""
import opentracing
from hypothesis import strategies as st
from .. import gen, volume
from .. import races as racing
from ..core import Test, check
from ..util import start_of, tracer, ctx, SpanContext, InMemoryReporter, Format
from jaeger_client.sampler import Sampler
from jaeger_client.throttler import Throttler

PROP = 'C07'
RULE = ('histories over a tracer with a scripted sampler and debug throttle: roots (plain, with inbound baggage, with a debug id), '
        'joins of remote contexts, children, priority tags of any value at start and later, finishes; non-trivial: a sampler or '
        'throttle answer is followed by a descendant, a priority change or a debug root')
ASSUMPTIONS = ['negative and fractional sampling priorities are not defined', 'sampler and throttle themselves do not raise']


class ScriptSampler(Sampler):
    def __init__(self, answers):
        super().__init__()
        self.answers = answers
        self.calls = []

    def is_sampled(self, trace_id, operation=''):
        d, tags = self.answers[len(self.calls) % len(self.answers)]
        self.calls.append((trace_id, operation))
        return d, tags

    def close(self):
        pass


class ScriptThrottler(Throttler):
    def __init__(self, answers):
        self.answers = answers
        self.calls = []

    def is_allowed(self, operation):
        a = self.answers[len(self.calls) % len(self.answers)]
        self.calls.append(operation)
        return a


class Hostile(object):
    def __init__(self, how):
        self.how = how

    def __bool__(self):
        if self.how == 'bool':
            raise RuntimeError('bool')
        return True

    def __int__(self):
        if self.how == 'int':
            raise KeyError('int')
        return 7

    def __str__(self):
        if self.how == 'str':
            raise RuntimeError('str')
        return 'hostile'


OPS = st.one_of(st.sampled_from(['op', 'op', 'other', '']), gen.op_names())
PRIO = st.one_of(
    st.sampled_from([0, 1, 1, 0, 2, 7, True, False, '1', '0', 1.0, 0.0, 100, 2 ** 31, 2 ** 70, 3.0]),
    st.sampled_from([None, 'abc', '', float('inf'), float('-inf'), float('nan'), [], [1], {}, {'a': 1}, (), 'high', '1 2', '0x1', b'\xff',
                     '\ud800', ('obj', 'int'), ('obj', 'plain')]),
    gen.ints(1, 2 ** 66))
TAGS = st.lists(st.tuples(st.sampled_from(['a', 'b', 'sampling.priority', 'sampling.priorit', 'Sampling.Priority', 'k', 'span.kind', 'x', 'sampler.type',
                                               'sampler.param']),
                          st.one_of(PRIO, gen.text(max_len=5), st.just('server'))), max_size=3)
BG = gen.baggage(max_items=2, big=20)


@st.composite
def cases(draw):
    answers = draw(st.lists(st.tuples(st.booleans(), st.dictionaries(st.sampled_from(['sampler.type', 'sampler.param', 'x']),
                                                                    st.one_of(st.integers(0, 9), st.just('v'), st.booleans()),
                                                                    max_size=2)), min_size=1, max_size=4))
    throttle = draw(st.one_of(st.none(), st.lists(st.booleans(), min_size=1, max_size=4), st.just([True]), st.just([False])))
    hdr = draw(st.sampled_from(['jaeger-debug-id', 'jaeger-debug-id', 'X-Correlation', 'x_corr_id']))
    ops = []
    for _ in range(draw(st.integers(1, 12))):
        k = draw(st.integers(0, 13))
        if k < 3:
            ops.append(('root', draw(OPS), draw(TAGS), draw(st.booleans())))
        elif k < 4:
            ops.append(('bgroot', draw(OPS), draw(TAGS), draw(BG), draw(st.integers(0, 2))))
        elif k < 6:
            ops.append(('debugroot', draw(OPS), draw(TAGS), draw(gen.text(max_len=10)), draw(BG), draw(st.integers(0, 3))))
        elif k < 7:
            ops.append(('join', draw(OPS), draw(TAGS), draw(gen.contexts(bg=BG)), draw(st.booleans()), draw(st.booleans())))
        elif k < 9:
            ops.append(('child', draw(OPS), draw(TAGS), draw(st.integers(0, 9)), draw(st.booleans())))
        elif k < 12:
            ops.append(('prio', draw(st.integers(0, 9)), draw(PRIO)))
        elif k < 13:
            ops.append(('name', draw(st.integers(0, 9)), draw(OPS)))
        else:
            ops.append(('finish', draw(st.integers(0, 9))))
    return answers, throttle, hdr, ops, draw(st.booleans()), draw(gen.settings('generate_128bit_trace_id', 'debug_id_header'))


def prio_kind(v):
    if isinstance(v, tuple) and len(v) == 2 and v[0] == 'obj':
        return 'junk' if v[1] == 'int' else 'pos'
    try:
        n = int(v)
    except Exception:
        return 'junk'
    return 'zero' if n == 0 else 'pos'


def run(case, c):
    answers, throttle, hdr, ops, wide, more = case
    answers = [(d, dict(t)) for d, t in answers]
    originals = [dict(t) for _, t in answers]
    sampler = ScriptSampler(answers)
    th = ScriptThrottler(throttle) if throttle is not None else None
    rep = InMemoryReporter()
    tr = tracer(reporter=rep, sampler=sampler, throttler=th, debug_id_header=hdr, generate_128bit_trace_id=wide, **more)
    recs = []      # [span, flags, tags expected [(k, v)], op, finished]
    reported = []
    calls, tcalls = [], []

    def allowed(op):
        if throttle is None:
            return True
        a = throttle[len(tcalls) % len(throttle)]
        tcalls.append(op)
        return a

    def model_tag(r, k, v):
        if k == 'sampling.priority':
            kind = prio_kind(v)
            if kind == 'junk':
                return
            if kind == 'zero':
                r[1] &= ~3
                return
            if r[1] & 2:
                return
            if not allowed(r[3]):
                return
            r[1] |= 3
        if r[1] & 1:
            r[2].append((k, v))

    def mk(v):
        if isinstance(v, tuple) and len(v) == 2 and v[0] == 'obj':
            return Hostile(v[1])
        return v

    def mktags(tags):
        return {k: mk(v) for k, v in dict(tags).items()}

    def verify(r, when):
        s = r[0]
        check(s.flags == r[1], '%s: flags of a span are %r, expected %r', when, s.flags, r[1])
        check(s.is_sampled() == bool(r[1] & 1) and s.is_debug() == bool(r[1] & 2), '%s: is_sampled/is_debug', when)
        if r[1] & 1:
            got = [t.key for t in s.tags]
            want = [k for k, _ in r[2]]
            if r[5]:
                got, want = sorted(set(got)), sorted(set(want))
            check(got == want, '%s: tags %r, expected %r', when, got, want)

    for op in ops:
        kind = op[0]
        if kind in ('root', 'bgroot', 'debugroot', 'join', 'child'):
            name, tags = op[1], dict(op[2])
            parent = None
            kw = {}
            extra = {}
            r = [None, 0, [], name, False, False]
            if kind == 'root':
                sampled = True
                if op[3]:
                    kw['ignore_active_span'] = True
            elif kind == 'bgroot':
                bg = dict(op[3])
                if op[4] == 0:
                    parent = SpanContext(None, None, None, None, baggage=bg)
                elif op[4] == 1:
                    parent = tr.extract(Format.TEXT_MAP, {more.get('baggage_header_prefix', 'uberctx-') + k: v for k, v in bg.items()})
                else:
                    parent = tr.extract(Format.HTTP_HEADERS, {'jaeger-baggage': 'a=b'})
                sampled = True
            elif kind == 'debugroot':
                did, bg, how = op[3], dict(op[4]), op[5]
                parent = SpanContext(None, None, None, None, baggage=bg, debug_id=did)
                if how == 1 and did:
                    parent = tr.extract(Format.TEXT_MAP, {hdr.lower().replace('_', '-'): did})
                elif how == 2:
                    parent = SpanContext.with_debug_id(did)
                elif how == 3:
                    kw['references'] = [opentracing.child_of(parent)]
                    parent = None
                sampled = not did
                if did:
                    if allowed(name):
                        r[1] = 3
                        extra = {hdr: did}
                        c.hit('debug_allowed')
                    else:
                        c.hit('debug_refused')
            elif kind == 'join':
                t = op[3]
                parent = ctx(t)
                if op[4]:
                    parent = SpanContext(t[0], t[1], t[2], t[3], baggage=dict(t[4]), debug_id='dbg')
                sampled = False
                r[1] = t[3]
                if op[5]:
                    kw['references'] = opentracing.follows_from(parent)
                    parent = None
            else:
                if not recs:
                    continue
                p = recs[op[3] % len(recs)]
                parent = p[0] if op[4] else p[0].context
                sampled = False
                r[1] = p[1]
                c.hit('descendant')
            if sampled:
                d, stags = answers[len(calls) % len(answers)]
                if d:
                    r[1] = 1
                    extra = dict(stags)
            n0 = len(sampler.calls)
            if any(k == 'sampling.priority' for k in tags):
                c.hit('start_priority')
            s = tr.start_span(name, child_of=parent, tags=mktags(op[2]) if op[2] else None, **start_of(len(calls)), **kw)
            r[0] = s
            if sampled:
                calls.append((s.trace_id, name))
                check(len(sampler.calls) == n0 + 1, 'sampler consulted %d times for a new trace (%s)', len(sampler.calls) - n0, kind)
                c.label('consulted')
            check(sampler.calls == calls, 'sampler calls %r, expected %r', sampler.calls[-2:], calls[-2:])
            final = dict(tags)
            final.update(extra)
            for k, v in final.items():
                model_tag(r, k, v)
            if any(k in extra for k in tags):
                # the application's own tags name the sampler
                r[5] = True
                c.hit('own sampler tags')
            if s.is_sampled() and r[1] & 1:
                last = {t.key: t for t in s.tags}
                for k, v in extra.items():
                    t = last.get(k)
                    check(t is not None and v in (t.vStr, t.vLong, t.vBool), '%s: tag %r is %r, expected %r', kind, k, t, v)
            if kind == 'debugroot' and op[3] and r[1] & 1 and extra:
                vals = [t.vStr for t in s.tags if t.key == hdr]
                check(vals == [op[3]], 'correlation id tag %r, expected %r', vals, op[3])
            recs.append(r)
            c.label(kind)
        elif not recs:
            continue
        else:
            r = recs[op[1] % len(recs)]
            if r[4]:
                continue
            if kind == 'prio':
                before = (r[1], list(r[2]))
                model_tag(r, 'sampling.priority', op[2])
                check(r[0].set_tag('sampling.priority', mk(op[2])) is r[0], 'set_tag(sampling.priority, %r) did not return the span', op[2])
                c.hit('prio_' + prio_kind(op[2]))
                if prio_kind(op[2]) == 'junk':
                    check((r[0].flags, len(r[0].tags)) == (before[0], len(before[1]) if before[0] & 1 else len(r[0].tags)),
                          'a meaningless priority changed the span')
            elif kind == 'name':
                r[0].set_operation_name(op[2])
                r[3] = op[2]
            else:
                r[0].finish()
                r[4] = True
                if r[1] & 1:
                    reported.append(r[0])
                r[4] = True
        if th is not None:
            check(th.calls == tcalls, 'debug throttle asked about %r, expected %r', th.calls[-3:], tcalls[-3:])
        check(sampler.calls == calls, 'sampler consulted for %r, expected %r', sampler.calls[-2:], calls[-2:])
        for x in recs:
            verify(x, 'after %s' % kind)
        check([id(x) for x in rep.get_spans()] == [id(x) for x in reported], 'reported %d spans, expected %d',
              len(rep.get_spans()), len(reported))
    check([t for _, t in answers] == originals, 'the tags of the sampler were modified: %r', answers)


TESTS = [Test('decisions', cases, run, quick=24000),
         Test('races', racing.start_cases, racing.run_starts, quick=4000, rule=racing.START_RULE), volume.DECISIONS]
