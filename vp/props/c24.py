"""C24: crossdock messages survive JSON; endpoint parsing; the trace generator does exactly what it is asked."""
import copy
import json
import os
from hypothesis import strategies as st
from .. import boot, gen
from ..core import Test, check
from ..util import tracer, ConstSampler
from jaeger_client.reporter import InMemoryReporter
import logging
import crossdock.server.serializer as ser
import crossdock.server.thriftrw_serializer as trw
import crossdock.server.endtoend as e2e
from crossdock.thrift_gen.tracetest.ttypes import (Downstream, JoinTraceRequest, ObservedSpan, StartTraceRequest, TraceResponse,
                                                   Transport)
logging.getLogger().addHandler(logging.NullHandler())

PROP = 'C24'
RULE = ('messages: random message trees (optional fields present or not, any text, nesting), written by the client or by an independent JSON '
        'writer (order, escapes, nulls and unknown fields varied), parsed from text and bytes; endpoints: generated host:port settings; '
        'generator: generated requests to the trace generator; non-trivial: a message was parsed back')
ASSUMPTIONS = ['text has no lone surrogates', 'a port is a decimal number; settings with an empty host, an out-of-range or oddly spelled port '
               'may be taken literally or replaced by the default']
texts = gen.text(max_len=15, words=('', 's1', 'localhost', '8080', 'HTTP', 'null', '"', '\\', 'a\nb', '\u2028', '\x7f', 'caf\u00e9')).filter(
    lambda s: not any(0xd800 <= ord(ch) < 0xe000 for ch in s))
opt = st.one_of(st.none(), texts, texts, texts)
UNKNOWN = ['read', 'write', 'validate', '__class__', '__dict__', '__doc__', '__init__', 'thrift_spec', 'type_spec', 'extra', '', 'Downstream', 'spans',
           'service_name', 'servicename', 'DOWNSTREAM', '__module__', '__eq__', 'TRANSPORT']
ANY = [None, 0, 1.5, 'x', [], {}, True, {'downstream': {}}, [1, {'a': None}]]


def tree(node, depth, field):
    out = None
    for n in reversed(node[:depth]):
        n = dict(n)
        n[field] = out
        out = n
    return out


@st.composite
def downstreams(draw):
    depth = draw(st.one_of(st.integers(0, 4), gen.sizes(40)))
    nodes = []
    for i in range(depth):
        if i > 6:
            nodes.append(dict(nodes[i % 6], host='h%d' % i))
            continue
        nodes.append({'serviceName': draw(opt), 'serverRole': draw(opt), 'host': draw(opt), 'port': draw(opt),
                      'transport': draw(st.sampled_from([None, 0, 1, 1]))})
    return tree(nodes, depth, 'downstream')


@st.composite
def responses(draw):
    depth = draw(st.one_of(st.integers(1, 4), gen.sizes(40).map(lambda n: max(n, 1))))
    nodes = []
    for i in range(depth):
        if i > 6:
            nodes.append(dict(nodes[i % 6], notImplementedError='e%d' % i))
            continue
        span = draw(st.one_of(st.none(), *[st.fixed_dictionaries({'traceId': opt, 'sampled': st.sampled_from([None, True, False]),
                                                                  'baggage': opt})] * 3))
        nodes.append({'span': span, 'notImplementedError': draw(opt)})
    return tree(nodes, depth, 'downstream')


@st.composite
def messages(draw):
    kind = draw(st.sampled_from(['start', 'join', 'join', 'response', 'response']))
    if kind == 'start':
        d = {'serverRole': draw(opt), 'sampled': draw(st.sampled_from([None, True, False])), 'baggage': draw(opt), 'downstream': draw(downstreams())}
    elif kind == 'join':
        d = {'serverRole': draw(opt), 'downstream': draw(downstreams())}
    else:
        d = draw(responses())
    writer = draw(st.sampled_from(['client', 'client', 'own', 'own', 'own']))
    style = (draw(st.booleans()), draw(st.sampled_from([None, 1])), draw(st.booleans()), draw(st.booleans()),
             draw(st.lists(st.tuples(st.sampled_from(UNKNOWN), st.integers(0, len(ANY) - 1)), max_size=3)))
    return kind, d, writer, style, draw(st.sampled_from(['text', 'bytes', 'bytearray']))


def build(d, cls):
    if d is None:
        return None
    d = dict(d)
    o = cls()
    for k, v in d.items():
        if k == 'downstream':
            v = build(v, TraceResponse if cls is TraceResponse else Downstream)
        elif k == 'span':
            v = build(v, ObservedSpan)
        setattr(o, k, v)
    return o


def same(o, d, cls, path):
    if d is None:
        check(o is None, '%s: %r appeared from nothing', path, o)
        return
    check(type(o) is cls, '%s: parsed as %r, expected a %s', path, o, cls.__name__)
    extra = set(vars(o)) - set(d)
    check(not extra, '%s: unknown fields %r were taken over', path, sorted(extra))
    for k, v in d.items():
        g = getattr(o, k)
        if k == 'downstream':
            same(g, v, TraceResponse if cls is TraceResponse else Downstream, path + '.downstream')
        elif k == 'span':
            same(g, v, ObservedSpan, path + '.span')
        else:
            check(g == v and type(g) is type(v), '%s.%s is %r, expected %r', path, k, g, v)


def own_json(d, style, nested=False):
    """What another implementation of the protocol would send."""
    ascii_, indent, nulls, rev, unknown = style
    out = {}
    for k, v in d.items():
        if v is None:
            if nulls:
                out[k] = None
        elif k in ('downstream', 'span'):
            out[k] = own_json(v, style, True)
        elif k == 'transport':
            out[k] = ['HTTP', 'TCHANNEL'][v]
        else:
            out[k] = v
    known = set(d) | ({'transport'} if 'host' in d else set())
    for k, i in unknown:
        if k not in known:
            out[k] = ANY[i]
    if rev:
        out = dict(reversed(list(out.items())))
    return out if nested else json.dumps(out, ensure_ascii=ascii_, indent=indent)


def run_message(case, c):
    kind, d, writer, style, form = case
    cls = {'start': StartTraceRequest, 'join': JoinTraceRequest, 'response': TraceResponse}[kind]
    obj = build(d, cls)
    if writer == 'client':
        before = copy.deepcopy(obj)
        if kind == 'join':
            text = ser.join_trace_request_to_json(obj.downstream, obj.serverRole)
        else:
            v = ser.traced_service_object_to_json(obj)
            text = json.dumps(v)
            # what other implementations of the protocol read
            check(strip(json.loads(text)) == strip(plain(d)), 'the message is written as %s for %r', text[:500], d)
        check(isinstance(text, str), 'the message is written as %r', type(text))
        check(obj == before, 'writing a message changed it')
        if kind == 'join':
            check(strip(json.loads(text)) == strip(plain(d)), 'the message is written as %s for %r', text[:500], d)
    else:
        text = own_json(d, style)
        if style[4]:
            c.label('unknown fields')
    raw = text if form == 'text' else text.encode('utf-8') if form == 'bytes' else bytearray(text.encode('utf-8'))
    parse = {'start': ser.start_trace_request_from_json, 'join': ser.join_trace_request_from_json,
             'response': ser.traceresponse_from_json}[kind]
    got = parse(raw)
    same(got, d, cls, kind)
    check(got == obj, 'parsed message differs from the original')
    again = parse(raw)
    check(again == got and again is not got, 'parsing twice gave different messages')
    c.hit(kind, 'written by the client' if writer == 'client' else 'written by others', form)
    n, x = 0, d
    while x.get('downstream'):
        n, x = n + 1, x['downstream']
    if n > 1:
        c.label('nested')

    # TChannel variants of the same messages
    class S(object):
        class _R(object):
            def __init__(self, **k):
                self.__dict__.update(k)

        class TraceResponse(_R):
            def __init__(self, span=None, downstream=None, notImplementedError=None):
                self.span, self.downstream, self.notImplementedError = span, downstream, notImplementedError

        class ObservedSpan(_R):
            def __init__(self, traceId=None, sampled=None, baggage=None):
                self.traceId, self.sampled, self.baggage = traceId, sampled, baggage

        class Downstream(_R):
            def __init__(self, serviceName=None, serverRole=None, host=None, port=None, transport=None, downstream=None):
                self.serviceName, self.serverRole, self.host, self.port = serviceName, serverRole, host, port
                self.transport, self.downstream = transport, downstream

        class JoinTraceRequest(_R):
            def __init__(self, serverRole=None, downstream=None):
                self.serverRole, self.downstream = serverRole, downstream
    if kind == 'join':
        r = trw.join_trace_request_to_thriftrw(S, got)
        check(type(r) is S.JoinTraceRequest and r.serverRole == d['serverRole'], 'thrift join request has role %r', r.serverRole)
        alike(r.downstream, d['downstream'])
    elif kind == 'response':
        x, all_spans = d, True
        while x:
            all_spans = all_spans and x['span'] is not None
            x = x['downstream']
        if all_spans:
            r = trw.trace_response_to_thriftrw(S, got)
            x = d
            while x:
                check(type(r) is S.TraceResponse and type(r.span) is S.ObservedSpan, 'thrift response is %r', r)
                alike(r.span, x['span'])
                check(r.notImplementedError == (x['notImplementedError'] or ''), 'thrift response error is %r', r.notImplementedError)
                x, r = x['downstream'], r.downstream
            check(r is None, 'thrift response is too long')
            c.label('thrift response')


def alike(o, d):
    if d is None:
        check(o is None, '%r appeared from nothing', o)
        return
    for k, v in d.items():
        if k == 'downstream':
            alike(getattr(o, k), v)
        else:
            check(getattr(o, k) == v, 'thrift field %s is %r, expected %r', k, getattr(o, k), v)


def plain(d):
    if isinstance(d, dict):
        return {k: (['HTTP', 'TCHANNEL'][v] if k == 'transport' and v is not None else plain(v)) for k, v in d.items()}
    return d


def strip(d):
    """Absent and null mean the same."""
    if isinstance(d, dict):
        return {k: strip(v) for k, v in d.items() if v is not None}
    return d


# ---- endpoints -------------------------------------------------------------------------------------------

HOST = st.one_of(st.sampled_from(['localhost', 'jaeger-agent', '10.0.0.1', 'h', 'a.b-c.d', '0', 'H']),
                 st.text('abcXYZ09.-_', min_size=1, max_size=12))


@st.composite
def endpoints(draw):
    k = draw(st.integers(0, 5))
    if k < 3:
        return ('good', draw(HOST), draw(st.one_of(st.integers(1, 65535), st.sampled_from([1, 80, 6831, 65535]))), draw(st.booleans()))
    if k < 5:
        bad = draw(st.one_of(
            HOST, st.tuples(HOST, st.sampled_from(['', 'x', '1x', '1.5', '0x10', '1:2', ':', ' ', 'None', '1e3', '--1', '80/', '80/p', 'http']))
            .map(lambda t: t[0] + ':' + t[1]),
            st.tuples(HOST, HOST, st.integers(1, 65535)).map(lambda t: '%s:%s:%d' % t),
            st.sampled_from(['::1:80', ':', '::', 'a::1', '[::1]:80', 'http://h:80', 'abc', ' '])))
        return ('bad', bad, None, draw(st.booleans()))
    return ('odd', draw(st.one_of(st.sampled_from([':80', 'a:-1', 'a:0', 'a:70000', 'a: 1', 'a:1_0', 'a:+1', ' a:1', 'a:01', 'a:1 ']), texts)), None,
            draw(st.booleans()))


def run_endpoint(case, c):
    kind, text, port, through_env = case
    if kind == 'good':
        text = '%s:%d' % (text, port)
    if kind == 'bad' and text.count(':') == 1:
        try:
            int(text.split(':')[1])
            return
        except ValueError:
            pass
    default = ('jaeger-agent', 6831) if through_env else ('dflt', 4711)
    if through_env:
        try:
            if '\x00' in text:
                return
            os.environ['AGENT_HOST_PORT'] = text
            got = e2e._determine_host_port()
        finally:
            os.environ.pop('AGENT_HOST_PORT', None)
    else:
        got = e2e._parse_host_port(text, *default)
    check(len(got) == 2 and isinstance(got[0], str) and type(got[1]) is int, 'endpoint %r parsed as %r', text, got)
    got = tuple(got)
    if kind == 'good':
        check(got == tuple(case[1:3]), 'endpoint %r parsed as %r', text, got)
        c.hit('good')
    elif kind == 'bad':
        check(got == default, 'malformed endpoint %r parsed as %r, not the default', text, got)
        c.hit('malformed')
    else:
        if got != default:
            check(text.count(':') == 1 and got == (text.split(':')[0], int(text.split(':')[1])), 'endpoint %r parsed as %r', text, got)
        c.label('odd')


# ---- the trace generator ---------------------------------------------------------------------------------

class Handler(e2e.EndToEndHandler):
    def __init__(self, tracers):
        self.tracers = tracers


class Writer(object):
    def __init__(self):
        self.finished = 0

    def finish(self, *a):
        self.finished += 1

    def write(self, *a):
        pass


class Request(object):
    pass


@st.composite
def orders(draw):
    d = {'operation': draw(texts.filter(lambda s: s != ''))}
    if draw(st.booleans()):
        d['type'] = draw(st.sampled_from(['remote', 'const']))
    if draw(st.integers(0, 4)):
        d['count'] = draw(st.one_of(st.integers(0, 6), gen.sizes(40)))
    if draw(st.integers(0, 3)):
        d['tags'] = draw(st.dictionaries(texts.filter(lambda s: s not in ('', 'sampling.priority') and not s.startswith(('span.kind', 'peer.', 'sampler.'))), texts, max_size=3))
    return d, draw(st.sampled_from(['text', 'bytes', 'bytearray'])), draw(st.integers(1, 2))


def run_order(case, c):
    d, form, times = case
    reps = {k: InMemoryReporter() for k in ('remote', 'const')}
    h = Handler({k: tracer(r, ConstSampler(True)) for k, r in reps.items()})
    text = json.dumps(d, ensure_ascii=False)
    for _ in range(times):
        req, w = Request(), Writer()
        req.body = text if form == 'text' else text.encode() if form == 'bytes' else bytearray(text.encode())
        with_loop(lambda: h.generate_traces(req, w))
        check(w.finished == 1, 'the answer was finished %d times', w.finished)
    kind = d.get('type', 'remote')
    for k, r in reps.items():
        spans = r.get_spans()
        check(len(spans) == (d.get('count', 0) * times if k == kind else 0), 'the %s tracer reported %d spans', k, len(spans))
        check(len({s.trace_id for s in spans}) == len(spans), 'generated traces share a trace id')
        for s in spans:
            check(s.operation_name == d['operation'] and s.end_time is not None, 'operation %r, expected %r', s.operation_name, d['operation'])
            tags = [(t.key, t.vStr) for t in s.tags if t.key not in ('sampler.type', 'sampler.param')]
            check(sorted(tags) == sorted(d.get('tags', {}).items()), 'tags %r, expected %r', tags, d.get('tags'))
        if spans:
            c.hit('generated')


def with_loop(fn):
    import asyncio
    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    try:
        f = fn()
        check(f.done(), 'generating traces did not finish')
        f.result()
    finally:
        asyncio.set_event_loop(None)
        loop.close()


TESTS = [
    Test('messages', messages, run_message, quick=24000, rule=RULE),
    Test('endpoints', endpoints, run_endpoint, quick=10000, rule=RULE),
    Test('generator', orders, run_order, quick=5000, rule=RULE),
]
