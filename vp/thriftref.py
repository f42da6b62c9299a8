"""Reference encoder and decoder for Thrift's compact and binary protocols, and the published interfaces as tables.

Written from the protocol descriptions and the interface definitions of jaeger-idl; shares no code with the client.
"""
import struct

# field: id -> (name, type, required); type: 'string' 'i16' 'i32' 'i64' 'double' 'bool' ('struct', S) ('list', type)
S = {
    'jaeger.Tag': {1: ('key', 'string', 1), 2: ('vType', 'i32', 1), 3: ('vStr', 'string', 0), 4: ('vDouble', 'double', 0),
                   5: ('vBool', 'bool', 0), 6: ('vLong', 'i64', 0), 7: ('vBinary', 'string', 0)},
    'jaeger.Log': {1: ('timestamp', 'i64', 1), 2: ('fields', ('list', ('struct', 'jaeger.Tag')), 1)},
    'jaeger.SpanRef': {1: ('refType', 'i32', 1), 2: ('traceIdLow', 'i64', 1), 3: ('traceIdHigh', 'i64', 1), 4: ('spanId', 'i64', 1)},
    'jaeger.Span': {1: ('traceIdLow', 'i64', 1), 2: ('traceIdHigh', 'i64', 1), 3: ('spanId', 'i64', 1), 4: ('parentSpanId', 'i64', 1),
                    5: ('operationName', 'string', 1), 6: ('references', ('list', ('struct', 'jaeger.SpanRef')), 0),
                    7: ('flags', 'i32', 1), 8: ('startTime', 'i64', 1), 9: ('duration', 'i64', 1),
                    10: ('tags', ('list', ('struct', 'jaeger.Tag')), 0), 11: ('logs', ('list', ('struct', 'jaeger.Log')), 0)},
    'jaeger.Process': {1: ('serviceName', 'string', 1), 2: ('tags', ('list', ('struct', 'jaeger.Tag')), 0)},
    'jaeger.Batch': {1: ('process', ('struct', 'jaeger.Process'), 1), 2: ('spans', ('list', ('struct', 'jaeger.Span')), 1)},
    'jaeger.BatchSubmitResponse': {1: ('ok', 'bool', 1)},
    'zipkincore.Endpoint': {1: ('ipv4', 'i32', 0), 2: ('port', 'i16', 0), 3: ('service_name', 'string', 0), 4: ('ipv6', 'string', 0)},
    'zipkincore.Annotation': {1: ('timestamp', 'i64', 0), 2: ('value', 'string', 0), 3: ('host', ('struct', 'zipkincore.Endpoint'), 0)},
    'zipkincore.BinaryAnnotation': {1: ('key', 'string', 0), 2: ('value', 'string', 0), 3: ('annotation_type', 'i32', 0),
                                    4: ('host', ('struct', 'zipkincore.Endpoint'), 0)},
    'zipkincore.Span': {1: ('trace_id', 'i64', 0), 3: ('name', 'string', 0), 4: ('id', 'i64', 0), 5: ('parent_id', 'i64', 0),
                        6: ('annotations', ('list', ('struct', 'zipkincore.Annotation')), 0),
                        8: ('binary_annotations', ('list', ('struct', 'zipkincore.BinaryAnnotation')), 0), 9: ('debug', 'bool', 0),
                        10: ('timestamp', 'i64', 0), 11: ('duration', 'i64', 0), 12: ('trace_id_high', 'i64', 0)},
    'zipkincore.Response': {1: ('ok', 'bool', 1)},
    'sampling.ProbabilisticSamplingStrategy': {1: ('samplingRate', 'double', 1)},
    'sampling.RateLimitingSamplingStrategy': {1: ('maxTracesPerSecond', 'i16', 1)},
    'sampling.OperationSamplingStrategy': {1: ('operation', 'string', 1),
                                           2: ('probabilisticSampling', ('struct', 'sampling.ProbabilisticSamplingStrategy'), 1)},
    'sampling.PerOperationSamplingStrategies': {
        1: ('defaultSamplingProbability', 'double', 1), 2: ('defaultLowerBoundTracesPerSecond', 'double', 1),
        3: ('perOperationStrategies', ('list', ('struct', 'sampling.OperationSamplingStrategy')), 1),
        4: ('defaultUpperBoundTracesPerSecond', 'double', 0)},
    'sampling.SamplingStrategyResponse': {
        1: ('strategyType', 'i32', 1), 2: ('probabilisticSampling', ('struct', 'sampling.ProbabilisticSamplingStrategy'), 0),
        3: ('rateLimitingSampling', ('struct', 'sampling.RateLimitingSamplingStrategy'), 0),
        4: ('operationSampling', ('struct', 'sampling.PerOperationSamplingStrategies'), 0)},
    'tracetest.Downstream': {1: ('serviceName', 'string', 1), 2: ('serverRole', 'string', 1), 3: ('host', 'string', 1),
                             4: ('port', 'string', 1), 5: ('transport', 'i32', 1), 6: ('downstream', ('struct', 'tracetest.Downstream'), 0)},
    'tracetest.StartTraceRequest': {1: ('serverRole', 'string', 1), 2: ('sampled', 'bool', 1), 3: ('baggage', 'string', 1),
                                    4: ('downstream', ('struct', 'tracetest.Downstream'), 1)},
    'tracetest.JoinTraceRequest': {1: ('serverRole', 'string', 1), 2: ('downstream', ('struct', 'tracetest.Downstream'), 0)},
    'tracetest.ObservedSpan': {1: ('traceId', 'string', 1), 2: ('sampled', 'bool', 1), 3: ('baggage', 'string', 1)},
    'tracetest.TraceResponse': {1: ('span', ('struct', 'tracetest.ObservedSpan'), 0), 2: ('downstream', ('struct', 'tracetest.TraceResponse'), 0),
                                3: ('notImplementedError', 'string', 1)},
}
ENUMS = {
    'jaeger.TagType': ['STRING', 'DOUBLE', 'BOOL', 'LONG', 'BINARY'],
    'jaeger.SpanRefType': ['CHILD_OF', 'FOLLOWS_FROM'],
    'zipkincore.AnnotationType': ['BOOL', 'BYTES', 'I16', 'I32', 'I64', 'DOUBLE', 'STRING'],
    'sampling.SamplingStrategyType': ['PROBABILISTIC', 'RATE_LIMITING'],
    'tracetest.Transport': ['HTTP', 'TCHANNEL'],
}
# (module, method) -> (argument name, argument type, result type or None when one way)
SERVICES = {
    ('agent.Agent', 'emitZipkinBatch'): ('spans', ('list', ('struct', 'zipkincore.Span')), None),
    ('agent.Agent', 'emitBatch'): ('batch', ('struct', 'jaeger.Batch'), None),
    ('jaeger.Collector', 'submitBatches'): ('batches', ('list', ('struct', 'jaeger.Batch')),
                                            ('list', ('struct', 'jaeger.BatchSubmitResponse'))),
    ('zipkincore.ZipkinCollector', 'submitZipkinBatch'): ('spans', ('list', ('struct', 'zipkincore.Span')),
                                                          ('list', ('struct', 'zipkincore.Response'))),
    ('sampling.SamplingManager', 'getSamplingStrategy'): ('serviceName', 'string', ('struct', 'sampling.SamplingStrategyResponse')),
}
DEFAULTS = {('zipkincore.Span', 'debug'): False}
CT = {'i16': 4, 'i32': 5, 'i64': 6, 'double': 7, 'string': 8}      # compact type codes
BT = {'bool': 2, 'double': 4, 'i16': 6, 'i32': 8, 'i64': 10, 'string': 11, 'struct': 12, 'list': 15}
CNAME = {1: 'bool', 2: 'bool', 4: 'i16', 5: 'i32', 6: 'i64', 7: 'double', 8: 'string', 9: 'list', 12: 'struct'}
BNAME = {v: k for k, v in BT.items()}


def kind(t):
    return t if isinstance(t, str) else t[0]


class Bad(Exception):
    pass


# A dynamic value is (type, payload): struct payload {id: dynamic}, list payload (element type, [payloads])

def to_dyn(t, v):
    """plain value (dict by field name for structs) of an interface type -> payload"""
    k = kind(t)
    if k == 'struct':
        return {i: (ft, to_dyn(ft, v[n])) for i, (n, ft, _) in S[t[1]].items() if v.get(n) is not None}
    if k == 'list':
        return (t[1], [to_dyn(t[1], x) for x in v])
    return v


def varint(n):
    out = bytearray()
    while True:
        if n < 128:
            out.append(n)
            return bytes(out)
        out.append(n & 127 | 128)
        n >>= 7


def zz(n):
    return varint(n * 2 if n >= 0 else -n * 2 - 1)


def _cval(t, p):
    k = kind(t)
    if k in ('i16', 'i32', 'i64'):
        return zz(p)
    if k == 'double':
        return struct.pack('<d', p)
    if k == 'string':
        b = p.encode('utf-8')
        return varint(len(b)) + b
    if k == 'bool':
        return b'\x01' if p else b'\x02'
    if k == 'list':
        et, xs = p
        code = {'bool': 1, 'struct': 12, 'list': 9}.get(kind(et)) or CT[kind(et)]
        head = bytes([len(xs) << 4 | code]) if len(xs) < 15 else bytes([0xf0 | code]) + varint(len(xs))
        return head + b''.join(_cval(et, x) for x in xs)
    out, last = b'', 0
    for i in sorted(p):
        ft, fp = p[i]
        fk = kind(ft)
        code = (1 if fp else 2) if fk == 'bool' else {'struct': 12, 'list': 9}.get(fk) or CT[fk]
        out += bytes([(i - last) << 4 | code]) if 0 < i - last <= 15 else bytes([code]) + zz(i)
        last = i
        if fk != 'bool':
            out += _cval(ft, fp)
    return out + b'\0'


def _bval(t, p):
    k = kind(t)
    if k in ('i16', 'i32', 'i64', 'double', 'bool'):
        return struct.pack({'i16': '>h', 'i32': '>i', 'i64': '>q', 'double': '>d', 'bool': '>b'}[k], p)
    if k == 'string':
        b = p.encode('utf-8')
        return struct.pack('>i', len(b)) + b
    if k == 'list':
        et, xs = p
        return struct.pack('>bi', BT[kind(et)], len(xs)) + b''.join(_bval(et, x) for x in xs)
    return b''.join(struct.pack('>bh', BT[kind(ft)], i) + _bval(ft, fp) for i, (ft, fp) in sorted(p.items())) + b'\0'


def encode(proto, t, p):
    return (_cval if proto == 'compact' else _bval)(t, p)


class _R(object):
    def __init__(self, b):
        self.b, self.p = b, 0

    def take(self, n):
        if n < 0 or self.p + n > len(self.b):
            raise Bad('truncated at %d' % self.p)
        v = self.b[self.p:self.p + n]
        self.p += n
        return v

    def byte(self):
        return self.take(1)[0]

    def varint(self):
        r = s = 0
        while True:
            c = self.byte()
            r |= (c & 127) << s
            if c < 128:
                return r
            s += 7
            if s > 70:
                raise Bad('varint too long')

    def zz(self):
        n = self.varint()
        return n >> 1 ^ -(n & 1)

    def unpack(self, f):
        return struct.unpack(f, self.take(struct.calcsize(f)))[0]


def _cread(r, k):
    """-> payload"""
    if k in ('i16', 'i32', 'i64'):
        return r.zz()
    if k == 'double':
        return r.unpack('<d')
    if k == 'string':
        return r.take(r.varint()).decode('utf-8')
    if k == 'bool':
        return r.byte() == 1
    if k == 'list':
        h = r.byte()
        n = h >> 4
        if n == 15:
            n = r.varint()
        if not n:
            return ('?' if h & 15 not in CNAME else CNAME[h & 15], [])
        et = CNAME[h & 15]
        return (et, [_cread(r, et) for _ in range(n)])
    out, last = {}, 0
    while True:
        h = r.byte()
        if not h:
            return out
        last = last + (h >> 4) if h >> 4 else r.zz()
        fk = CNAME.get(h & 15)
        if fk is None or last in out:
            raise Bad('field %d of type %d' % (last, h & 15))
        out[last] = (fk, h & 15 == 1 if fk == 'bool' else _cread(r, fk))


def _bread(r, k):
    if k in ('i16', 'i32', 'i64', 'double'):
        return r.unpack({'i16': '>h', 'i32': '>i', 'i64': '>q', 'double': '>d'}[k])
    if k == 'bool':
        return bool(r.byte())
    if k == 'string':
        return r.take(r.unpack('>i')).decode('utf-8')
    if k == 'list':
        et, n = r.byte(), r.unpack('>i')
        return (BNAME.get(et, '?'), [_bread(r, BNAME[et]) for _ in range(n)])
    out = {}
    while True:
        t = r.byte()
        if not t:
            return out
        i = r.unpack('>h')
        if t not in BNAME or i in out:
            raise Bad('field %d of type %d' % (i, t))
        out[i] = (BNAME[t], _bread(r, BNAME[t]))


def decode(proto, b, k='struct'):
    r = _R(bytes(b))
    v = (_cread if proto == 'compact' else _bread)(r, k)
    return v, r.b[r.p:]


def decode_message(proto, b):
    """-> (name, message type, sequence id, arguments as struct payload, rest)"""
    r = _R(bytes(b))
    if proto == 'compact':
        if r.byte() != 0x82:
            raise Bad('not a compact message')
        h = r.byte()
        if h & 31 != 1:
            raise Bad('compact version %d' % (h & 31))
        mt, seq = h >> 5, r.varint()
        name = r.take(r.varint()).decode('utf-8')
    else:
        h = r.unpack('>I')
        if h >> 16 != 0x8001:
            raise Bad('not a strict binary message')
        mt, name, seq = h & 255, r.take(r.unpack('>i')).decode('utf-8'), r.unpack('>i')
    v = (_cread if proto == 'compact' else _bread)(r, 'struct')
    return name, mt, seq, v, r.b[r.p:]


def encode_message(proto, name, mt, seq, args):
    n = name.encode('utf-8')
    if proto == 'compact':
        return bytes([0x82, mt << 5 | 1]) + varint(seq) + varint(len(n)) + n + _cval(('struct', None), args)
    return struct.pack('>Ii', 0x80010000 | mt, len(n)) + n + struct.pack('>i', seq) + _bval(('struct', None), args)


def untyped(t, p):
    """reduces a payload to what the reading side can see: element types become their kind, empty lists lose theirs"""
    k = kind(t)
    if k == 'struct':
        return {i: (kind(ft), untyped(ft, fp)) for i, (ft, fp) in p.items()}
    if k == 'list':
        et, xs = p
        return [kind(et) if xs else None, [untyped(et, x) for x in xs]]
    if k == 'double':
        return struct.pack('>d', p)
    return p
