"""C27: tracers in one process are independent; each supports exactly the formats it was given."""
import copy
import re
import opentracing
from hypothesis import strategies as st
from .. import boot, gen
from ..agent import Counters
from ..core import Test, check
from ..races import OpSampler
from ..util import Corrupted, Format, NETTAGS, ctx, fields
from jaeger_client import ConstSampler, RateLimitingSampler, Tracer
from jaeger_client.codecs import B3Codec, BinaryCodec, TextCodec, ZipkinCodec, ZipkinSpanFormat
from jaeger_client.reporter import InMemoryReporter
from jaeger_client.sampler import AdaptiveSampler
from jaeger_client.throttler import Throttler

PROP = 'C27'
RULE = ('two or three tracers with generated settings (header names, id width, shared RPC spans, lengths, tags, throttle, sampler, extra '
        'codecs; settings objects shared between them or not) are used in turn - start, activate, tag, baggage, inject, extract, finish - '
        'and each must behave as it does alone; formats a tracer was not given must be rejected; non-trivial: two tracers with different '
        'settings were both used')
ASSUMPTIONS = ['each tracer has its own reporter, sampler and throttle', 'header names are ASCII and distinct']
env = boot.env

SETTINGS = {
    'trace_id_header': ['x-tr', 'Trace_Id', 'TR'],
    'baggage_header_prefix': ['bg-', 'X_Bag-', 'b3ctx-'],
    'debug_id_header': ['x-dbg', 'Debug_Id'],
    'generate_128bit_trace_id': [True, True, False],
    'one_span_per_rpc': [True, True, False],
    'max_tag_value_length': [0, 3, 10, 1024, 2000],
    'max_traceback_length': [5, 8192],
}
CODECS = {'b3': lambda: B3Codec(), 'b3wide': lambda: B3Codec(generate_128bit_trace_id=True), 'zk': lambda: ZipkinCodec(),
          'custom': lambda: TextCodec(url_encoding=True, trace_id_header='c-tr', baggage_header_prefix='c-bg-', debug_id_header='c-dbg',
                                      baggage_header='c-baggage'),
          'bin': lambda: BinaryCodec()}
BUILTIN = {'text': Format.TEXT_MAP, 'http': Format.HTTP_HEADERS, 'binary': Format.BINARY, 'zipkin': ZipkinSpanFormat}
TAGS = [{}, {'env': 'prod'}, {'env': 'test', 'ip': '10.9.9.9'}, {'hostname': 'other', 'jaeger.version': 'x'}]
FORMAT = st.one_of(st.sampled_from(['text', 'http', 'binary', 'zipkin']), st.sampled_from(['k1', 'k2', 'http']),
                   st.sampled_from(['nope', '', 'TEXT_MAP', 'k1', 'k2', 'b3', None, 5]))


@st.composite
def settings(draw):
    kw = {}
    for k, vals in SETTINGS.items():
        if draw(st.booleans()):
            kw[k] = draw(st.sampled_from(vals))
    codecs = {}
    for k in draw(st.lists(st.sampled_from(['k1', 'k2', 'http', 'text']), max_size=2, unique=True)):
        codecs[k] = draw(st.sampled_from(sorted(CODECS) if k[0] == 'k' else ['b3', 'b3wide', 'custom']))
    return kw, codecs, draw(st.integers(0, len(TAGS) - 1)), draw(st.sampled_from(['svc', 'other', 'third'])), \
        draw(st.sampled_from([None, None, True, False])), draw(st.sampled_from([1, 1, 0, 'op', 'rl', 'rl', 'adapt']))


NAMES = ['uber-trace-id', 'x-tr', 'Trace-Id', 'tr', 'c-tr']
HEADERS = {'uber-trace-id': '1:2:0:1', 'x-tr': '3:4:0:1', 'Trace-Id': '5:6:0:0', 'tr': '7:8:1:1', 'c-tr': '9:a:0:1', 'uberctx-a': 'u', 'bg-a': 'g',
           'X-Bag-a': 'x', 'b3ctx-a': 'b', 'c-bg-a': 'c', 'jaeger-debug-id': 'd1', 'x-dbg': 'd2', 'Debug-Id': 'd3', 'c-dbg': 'd4',
           'jaeger-baggage': 'j=1', 'c-baggage': 'c=2', 'X-B3-TraceId': '000000000000000b', 'X-B3-SpanId': '000000000000000c', 'X-B3-Sampled': '1'}


@st.composite
def ops(draw):
    k = draw(st.integers(0, 11))
    if k < 4:
        return ('start', draw(st.sampled_from(['op', 'nx', ''])), draw(st.sampled_from([None, None, ('r', 0), ('r', 1), ('s', 0), ('s', 1)])),
                draw(st.sampled_from([(), (('span.kind', 'server'),), (('long', 'v' * 1500),), (('a', 1), ('s', 'value')),
                                      (('sampling.priority', 1),)])), draw(st.sampled_from(['plain', 'plain', 'active', 'ignore', 'debug'])))
    if k < 7:
        return ('inject', draw(FORMAT), draw(st.sampled_from([('r', 0), ('r', 1), ('s', 0), ('s', 1), ('s', 2)])))
    if k < 9:
        return ('extract', draw(FORMAT), tuple(draw(st.lists(st.sampled_from(sorted(HEADERS)), min_size=1, max_size=6, unique=True))))
    if k < 10:
        return ('bag', draw(st.integers(0, 2)), draw(st.sampled_from(['a', 'B'])), draw(st.sampled_from(['1', '2'])))
    if k < 11:
        return ('finish', draw(st.integers(0, 2)))
    return ('close',)


@st.composite
def cases(draw):
    n = draw(st.sampled_from([2, 2, 3]))
    specs = [draw(settings()) for _ in range(n)]
    remotes = [draw(gen.contexts(bg=st.sampled_from([{}, {'a': 'r'}]))) for _ in range(2)]
    return specs, draw(st.booleans()), remotes, \
        [(draw(st.integers(0, n - 1)), draw(ops())) for _ in range(draw(st.integers(2, 16)))]


class Gate(Throttler):
    def __init__(self, answer):
        self.answer, self.asked, self.ids = answer, [], []

    def set_client_id(self, client_id):
        self.ids.append(client_id)

    def is_allowed(self, operation):
        self.asked.append(operation)
        return self.answer


class Rep(InMemoryReporter):
    def __init__(self):
        super().__init__()
        self.process = []

    def set_process(self, service_name, tags, max_length):
        self.process.append((service_name, dict(tags), max_length))


class Halves(list):
    def __bool__(self):
        return True

    def pop(self, i=0):
        return 0.5


SAMPLERS = {0: lambda: ConstSampler(False), 1: lambda: ConstSampler(True), 'op': OpSampler, 'rl': lambda: RateLimitingSampler(4),
            'adapt': lambda: AdaptiveSampler({'defaultSamplingProbability': 0.0, 'defaultLowerBoundTracesPerSecond': 4, 'perOperationStrategies': [
                {'operation': 'op', 'probabilisticSampling': {'samplingRate': 0.0}}]}, 2)}


class One(object):
    """One tracer and what is observed of it."""

    def __init__(self, spec, remotes, shared):
        kw, codecs, tags, svc, gate, rate = spec
        self.spec = spec
        self.rep, self.counts = Rep(), Counters()
        kw = dict(kw)
        self.tags = shared['tags'].setdefault(tags, dict(NETTAGS, **TAGS[tags])) if shared is not None else dict(NETTAGS, **TAGS[tags])
        if codecs:
            made = {BUILTIN.get(k, k): CODECS[v]() for k, v in codecs.items()}
            if shared is not None:
                made = shared['codecs'].setdefault(repr(sorted(codecs.items())), made)
            kw['extra_codecs'] = self.codecs = made
        else:
            self.codecs = {}
        self.gate = None
        if gate is not None:
            kw['throttler'] = self.gate = Gate(gate)
        self.kept = (copy.copy(self.tags), dict(self.codecs))
        sampler = SAMPLERS[rate]()
        self.tr = Tracer(svc, self.rep, sampler, metrics_factory=self.counts.factory, tags=self.tags, **kw)
        self.remotes = [ctx(r) for r in remotes]
        self.rfields = [fields(r) for r in self.remotes]
        self.known = set(BUILTIN.values()) | set(self.codecs)
        self.spans, self.scopes, self.ids = [], [], {}
        self.out = []

    def see(self, v, p):
        if v and v not in self.ids:
            self.ids[v] = '<%s%d>' % (p, len(self.ids))

    def name(self, v):
        if isinstance(v, int) and not isinstance(v, bool) and v > 1 << 32:
            for k in (v, v & (2 ** 64 - 1)):
                if k in self.ids:
                    return self.ids[k]
            return v
        if isinstance(v, str):
            return re.sub('[0-9a-f]{8,32}', lambda m: self.ids.get(int(m.group(), 16), m.group()), v)
        if isinstance(v, (bytes, bytearray)):
            return re.sub('[0-9a-f]{16}', lambda m: self.ids.get(int(m.group(), 16), m.group()), bytes(v[:16]).hex()) + \
                '|' + re.sub('[0-9a-f]{16}', lambda m: self.ids.get(int(m.group(), 16), m.group()), bytes(v[16:32]).hex()) + '|' + bytes(v[32:]).hex()
        if isinstance(v, dict):
            return {self.name(k): self.name(x) for k, x in v.items()}
        if isinstance(v, (list, tuple)):
            return [self.name(x) for x in v]
        return v

    def ctx_of(self, which):
        kind, i = which
        if kind == 'r':
            return self.remotes[i], self.remotes[i]
        if not self.spans:
            return None, None
        s = self.spans[i % len(self.spans)]
        return s, s.context

    def do(self, op):
        kind = op[0]
        if kind == 'start':
            parent = self.ctx_of(op[2])[0] if op[2] else None
            if op[4] == 'debug':
                # the debug header of this very tracer
                car = {self.spec[0].get('debug_id_header', 'jaeger-debug-id').replace('_', '-'): 'dbg'}
                c = self.tr.extract(Format.TEXT_MAP, car) if Format.TEXT_MAP not in self.codecs else None
                self.out.append(('debug', c and c.debug_id))
                parent = c or parent
            kw = {'child_of': parent, 'tags': dict(op[3]) or None}
            if op[4] == 'active':
                sc = self.tr.start_active_span(op[1], **kw)
                self.scopes.append(sc)
                s = sc.span
            else:
                s = self.tr.start_span(op[1], ignore_active_span=op[4] == 'ignore', **kw)
            self.spans.append(s)
            f = fields(s.context)
            rnd = self.rfields
            if f[0] not in [r[0] for r in rnd]:
                self.see(f[0], 'T')
                self.see(f[0] & (2 ** 64 - 1), 'L')
                self.see(f[0] >> 64, 'H')
            if f[1] not in [r[1] for r in rnd]:
                self.see(f[1], 'S')
            self.out.append(('start', self.name(f), f[0] >= 2 ** 64, [(t.key, t.vType, t.vStr, t.vLong, t.vBool, t.vDouble) for t in s.tags],
                             s.operation_name))
        elif kind == 'inject':
            obj, cx = self.ctx_of(op[2])
            if obj is None:
                return
            fmt = BUILTIN.get(op[1], op[1])
            cars = []
            for x in (obj, cx):
                car = bytearray() if op[1] == 'binary' or self.spec[1].get(op[1]) == 'bin' else {}
                try:
                    self.tr.inject(x, fmt, car)
                except opentracing.UnsupportedFormatException:
                    check(fmt not in self.known, 'format %r, which the tracer was given, cannot be injected', op[1])
                    check(not car, 'an unsupported format changed the carrier: %r', car)
                    car = 'unsupported'
                else:
                    check(fmt in self.known, 'format %r, which the tracer was not given, was injected as %r', op[1], car)
                cars.append(car)
            check(cars[0] == cars[1], 'a span is injected as %r, its context as %r', *cars)
            own = self.spec[0].get('trace_id_header', 'uber-trace-id').lower().replace('_', '-')
            if op[1] in ('text', 'http') and op[1] not in self.spec[1]:
                check(own in cars[0], 'trace header %r is missing in %r', own, cars[0])
            self.out.append(('inject', self.name(cars[0])))
        elif kind == 'extract':
            fmt = BUILTIN.get(op[1], op[1])
            if op[1] == 'binary' or self.spec[1].get(op[1]) == 'bin':
                car = bytearray(b'\0' * 8 + b'\0' * 7 + b'\1' + b'\0' * 7 + b'\2' + b'\0' * 8 + b'\1' + b'\0' * 4)
            elif op[1] == 'zipkin' or self.spec[1].get(op[1]) == 'zk':
                car = {'trace_id': 1, 'span_id': 2, 'parent_id': 0, 'traceflags': 1}
            else:
                car = {h: HEADERS[h] for h in op[2]}
            before = copy.copy(car)
            try:
                c = self.tr.extract(fmt, car)
                got = c and (fields(c), c.debug_id)
            except Corrupted:
                got = 'corrupted'
            except opentracing.UnsupportedFormatException:
                got = 'unsupported'
            check((got == 'unsupported') == (fmt not in self.known), 'extracting format %r gives %r', op[1], got)
            check(car == before, 'extraction changed the carrier')
            self.out.append(('extract', got))
        elif kind == 'bag':
            if self.spans:
                self.spans[op[1] % len(self.spans)].set_baggage_item(op[2], op[3])
        elif kind == 'finish':
            if self.spans:
                self.spans[op[1] % len(self.spans)].finish()
        elif self.scopes:
            self.scopes.pop().close()
        check(self.tr.active_span is (self.scopes[-1].span if self.scopes else None), 'the active span is %r', self.tr.active_span)

    def end(self):
        for sc in reversed(self.scopes):
            sc.close()
        self.out.append(('reported', [self.spans.index(s) for s in self.rep.get_spans()]))
        check(len(self.rep.process) == 1, 'set_process was called %d times', len(self.rep.process))
        svc, tags, n = self.rep.process[0]
        tags.pop('client-uuid', None)
        self.out.append(('process', svc, tags, n))
        self.out.append(('counted', self.counts.c))
        if self.gate:
            self.out.append(('asked', self.gate.asked, len(self.gate.ids)))
        check((self.tags, self.codecs) == self.kept, 'the settings given to the tracer were changed: %r, %r', self.tags, self.codecs)
        want = dict(NETTAGS, **{'jaeger.version': tags.get('jaeger.version')})
        want.update(TAGS[self.spec[2]])
        check(svc == self.spec[3] and tags == want, 'process is %r %r, tags given %r', svc, tags, want)
        for s in self.spans:
            check(s.trace_id < 2 ** 64 or self.spec[0].get('generate_128bit_trace_id') or s.trace_id in [r[0] for r in self.rfields],
                  '128-bit trace id %x on a tracer with 64-bit ids', s.trace_id)
        return self.out


def run(case, c):
    specs, share, remotes, plan = case
    env.virtual = True
    env.rand_queue = Halves()      # rate limiters start half full
    alone = []
    for k, spec in enumerate(specs):
        env.mono += 1000
        o = One(spec, remotes, None)
        for i, op in plan:
            if i == k:
                o.do(op)
        alone.append(o.end())
    shared = {'tags': {}, 'codecs': {}} if share else None
    env.mono += 1000
    together = [One(spec, remotes, shared) for spec in specs]
    for i, op in plan:
        together[i].do(op)
    for k, o in enumerate(together):
        got = o.end()
        for a, b in zip(alone[k], got):
            check(a == b, 'tracer %d %r next to others gives %r, alone %r; %r', k, specs[k], b, a, case)
        check(len(got) == len(alone[k]), 'tracer %d behaves differently next to others', k)
    if len({i for i, _ in plan}) > 1 and any(s[:2] != specs[0][:2] for s in specs):
        c.hit('shared settings objects' if share else 'own settings objects')
    for i, op in plan:
        if op[0] in ('inject', 'extract'):
            c.label('%s %s' % (op[0], 'known' if BUILTIN.get(op[1], op[1]) in together[i].known else 'unknown'))
        elif op[0] == 'start' and op[4] != 'plain':
            c.label(op[4])


TESTS = [Test('tracers', cases, run, quick=8000, rule=RULE)]
