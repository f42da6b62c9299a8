"""Independent decoder for the agent datagram (Thrift compact protocol, agent.thrift / jaeger.thrift).

Written from the protocol description and the IDL; shares no code with the client.
"""
import struct


class DecodeError(Exception):
    pass


class _R(object):
    def __init__(self, b):
        self.b = b
        self.p = 0

    def byte(self):
        if self.p >= len(self.b):
            raise DecodeError('truncated at %d' % self.p)
        v = self.b[self.p]
        self.p += 1
        return v

    def take(self, n):
        if n < 0 or self.p + n > len(self.b):
            raise DecodeError('truncated: need %d at %d of %d' % (n, self.p, len(self.b)))
        v = self.b[self.p:self.p + n]
        self.p += n
        return v

    def varint(self):
        r = s = 0
        while True:
            c = self.byte()
            r |= (c & 0x7f) << s
            if not c & 0x80:
                return r
            s += 7
            if s > 70:
                raise DecodeError('varint too long')

    def zigzag(self):
        n = self.varint()
        return (n >> 1) ^ -(n & 1)


STOP, TRUE, FALSE, BYTE, I16, I32, I64, DOUBLE, BINARY, LIST, SET, MAP, STRUCT = range(13)


def _value(r, t, in_list=False):
    if t in (TRUE, FALSE):
        if in_list:
            return r.byte() == TRUE
        return t == TRUE
    if t == BYTE:
        return struct.unpack('b', r.take(1))[0]
    if t in (I16, I32, I64):
        v = r.zigzag()
        bits = {I16: 15, I32: 31, I64: 63}[t]
        if not -(1 << bits) <= v < (1 << bits):
            raise DecodeError('integer out of range for its type')
        return v
    if t == DOUBLE:
        return struct.unpack('<d', r.take(8))[0]
    if t == BINARY:
        return r.take(r.varint())
    if t in (LIST, SET):
        h = r.byte()
        n = h >> 4
        if n == 15:
            n = r.varint()
        return [_value(r, h & 15, True) for _ in range(n)]
    if t == STRUCT:
        return _struct(r)
    if t == MAP:
        n = r.varint()
        if not n:
            return {}
        h = r.byte()
        return {_value(r, h >> 4, True): _value(r, h & 15, True) for _ in range(n)}
    raise DecodeError('unknown type %d' % t)


def _struct(r):
    out = {}
    fid = 0
    while True:
        h = r.byte()
        if h == STOP:
            return out
        t = h & 15
        d = h >> 4
        fid = fid + d if d else r.zigzag()
        if fid in out:
            raise DecodeError('duplicate field %d' % fid)
        out[fid] = _value(r, t)


def _need(d, k, what):
    if k not in d:
        raise DecodeError('%s lacks required field %d' % (what, k))
    return d[k]


def _s(b):
    return b.decode('utf-8')


TAGTYPES = {0: 'string', 1: 'double', 2: 'bool', 3: 'long', 4: 'binary'}


def _tag(d):
    t = TAGTYPES[_need(d, 2, 'tag')]
    f = {'string': 3, 'double': 4, 'bool': 5, 'long': 6, 'binary': 7}[t]
    v = _need(d, f, 'tag')
    extra = set(d) - {1, 2, f}
    if extra:
        raise DecodeError('tag carries extra values %s' % sorted(extra))
    return (_s(_need(d, 1, 'tag')), t, _s(v) if t == 'string' else v)


def _u64(v):
    return v & (2 ** 64 - 1)


def _span(d):
    for k in (1, 2, 3, 4, 5, 7, 8, 9):
        _need(d, k, 'span')
    return {
        'trace_id': (_u64(d[2]) << 64) | _u64(d[1]),
        'span_id': _u64(d[3]),
        'parent_id': _u64(d[4]),
        'operation': _s(d[5]),
        'references': [
            ({0: 'child_of', 1: 'follows_from'}[_need(x, 1, 'ref')],
             (_u64(_need(x, 3, 'ref')) << 64) | _u64(_need(x, 2, 'ref')), _u64(_need(x, 4, 'ref')))
            for x in d.get(6, [])],
        'flags': d[7],
        'start': d[8],
        'duration': d[9],
        'tags': [_tag(x) for x in d.get(10, [])],
        'logs': [(_need(x, 1, 'log'), [_tag(y) for y in _need(x, 2, 'log')]) for x in d.get(11, [])],
    }


def decode_emit_batch(data):
    """One datagram -> {'service', 'tags', 'spans'}; raises DecodeError unless it is exactly one emitBatch call."""
    try:
        r = _R(bytes(data))
        if r.byte() != 0x82:
            raise DecodeError('not a compact protocol message')
        vt = r.byte()
        if vt & 0x1f != 1:
            raise DecodeError('wrong protocol version')
        if vt >> 5 not in (1, 4):
            raise DecodeError('not a call')
        r.varint()
        name = _s(r.take(r.varint()))
        if name != 'emitBatch':
            raise DecodeError('unexpected method %r' % name)
        args = _struct(r)
        if r.p != len(r.b):
            raise DecodeError('%d trailing bytes' % (len(r.b) - r.p))
        batch = _need(args, 1, 'args')
        proc = _need(batch, 1, 'batch')
        return {
            'service': _s(_need(proc, 1, 'process')),
            'tags': [_tag(x) for x in proc.get(2, [])],
            'spans': [_span(x) for x in _need(batch, 2, 'batch')],
        }
    except (KeyError, UnicodeDecodeError, TypeError, AttributeError, struct.error) as e:
        raise DecodeError('%s: %s' % (type(e).__name__, e))
