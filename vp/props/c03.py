"""C03: binary propagation."""
import struct
from hypothesis import strategies as st
from .. import gen, volume
from .. import races as racing
from ..core import Test, Violation, check
from ..util import tracer, ctx, fields, same_ctx, Corrupted, Format, SpanContext
from jaeger_client.codecs import BinaryCodec

PROP = 'C03'
RULE = ('round trip: contexts with unicode baggage against an independently written encoder and decoder; rejection: '
        'valid encodings truncated at every kind of boundary, mutated, with lying counts/lengths, and random bytes; '
        'non-trivial: baggage present (round trip) or input differing from every valid encoding (rejection)')
ASSUMPTIONS = ['baggage strings contain no lone surrogates', 'trailing bytes after a complete context are tolerated or rejected']


def ref_encode(t):
    tid, sid, pid, fl, bg = t
    out = tid.to_bytes(16, 'big') + sid.to_bytes(8, 'big') + (pid or 0).to_bytes(8, 'big') + bytes([fl])
    out += len(bg).to_bytes(4, 'big')
    for k, v in bg.items():
        for x in (k, v):
            b = x.encode('utf-8')
            out += len(b).to_bytes(4, 'big') + b
    return out


class Bad(Exception):
    pass


def ref_decode(b):
    pos = [0]

    def take(n):
        if pos[0] + n > len(b):
            raise Bad()
        pos[0] += n
        return bytes(b[pos[0] - n:pos[0]])

    def u(n):
        return int.from_bytes(take(n), 'big')
    tid, sid, pid, fl, cnt = u(16), u(8), u(8), u(1), u(4)
    bg = {}
    for _ in range(cnt):
        try:
            k = take(u(4)).decode('utf-8')
            v = take(u(4)).decode('utf-8')
        except UnicodeDecodeError:
            raise Bad()
        bg[k] = v
    return (tid, sid, pid or None, fl, bg), pos[0]


@st.composite
def rt_cases(draw):
    keys = st.one_of(gen.baggage_keys(), gen.text(max_len=12, big=2000))
    n = draw(st.integers(1, 3))
    return ([draw(gen.contexts(bg=gen.baggage(keys=keys))) for _ in range(n)],
            draw(st.sampled_from(['tracer', 'codec'])), draw(st.one_of(st.just(b''), st.binary(max_size=8))), draw(st.integers(0, 3)))


def run_rt(case, c):
    ctxs, via, prefix, raw = case
    codec = BinaryCodec()
    tr = tracer()

    def inject(sc, car):
        tr.inject(sc, Format.BINARY, car) if via == 'tracer' else codec.inject(sc, car)

    def extract(car):
        return tr.extract(Format.BINARY, car) if via == 'tracer' else codec.extract(car)
    got = []
    for t in ctxs:
        carrier = bytearray()
        sc = ctx(t)
        if raw == 0:
            # items given as bytes are taken as UTF-8
            sc = SpanContext(*t[:4], baggage={k.encode(): v.encode() for k, v in t[4].items()})
        elif raw == 1:
            sc = SpanContext(*t[:4], baggage={k: v.encode() for k, v in t[4].items()})
        inject(sc, carrier)
        want = ref_encode(t)
        check(bytes(carrier) == want, 'binary form of %r is %r, expected %r', t[:4], bytes(carrier)[:80], want[:80])
        if prefix:
            car2 = bytearray(prefix)
            inject(ctx(t), car2)
            check(bytes(car2) == prefix + want, 'inject did not append to the carrier')
        before = bytes(carrier)
        x = extract(carrier)
        check(bytes(carrier) == before, 'extract changed the carrier')
        same_ctx(x, t, 'binary round trip')
        for b in x.baggage.items():
            check(type(b[0]) is str and type(b[1]) is str, 'baggage type %r', b)
        got.append(x)
    for t, x in zip(ctxs, got):
        same_ctx(x, t, 'earlier context')
    for t in ctxs:
        if t[4]:
            c.hit('baggage')
        if len(t[4]) > 5:
            c.hit('many_items')
        if any(len(k) > 255 or len(v) > 255 for k, v in t[4].items()):
            c.hit('long_item')
        if any(not (k + v).isascii() for k, v in t[4].items()):
            c.hit('unicode')
        if t[0] >> 64:
            c.hit('128bit')


@st.composite
def bad_cases(draw):
    kind = draw(st.sampled_from(['cut', 'mutate', 'count', 'length', 'random', 'splice', 'utf8']))
    t = draw(gen.contexts(bg=gen.baggage(max_items=3, big=0)))
    b = bytearray(ref_encode(t))
    if kind == 'cut':
        b = b[:draw(st.one_of(st.integers(0, len(b)), st.integers(0, 45)))]
    elif kind == 'mutate':
        for _ in range(draw(st.integers(1, 4))):
            if b:
                b[draw(st.integers(0, len(b) - 1))] = draw(st.one_of(st.sampled_from([0, 1, 127, 128, 255]), st.integers(0, 255)))
    elif kind == 'count':
        b[33:37] = struct.pack('>I', draw(gen.ints(0, 2 ** 32 - 1)))
    elif kind == 'length':
        if len(b) > 41:
            b[37:41] = struct.pack('>I', draw(gen.ints(0, 2 ** 32 - 1)))
        else:
            b[33:37] = b'\0\0\0\1'
            b += struct.pack('>I', draw(gen.ints(0, 2 ** 32 - 1))) + draw(st.binary(max_size=8))
    elif kind == 'random':
        b = bytearray(draw(st.one_of(st.binary(max_size=80), st.binary(min_size=36, max_size=60))))
    elif kind == 'splice':
        b = b[:draw(st.integers(0, len(b)))] + bytearray(draw(st.binary(max_size=12)))
    else:
        k = draw(st.binary(max_size=6))
        v = draw(st.binary(max_size=6))
        b[33:37] = b'\0\0\0\1'
        b[37:] = struct.pack('>I', len(k)) + k + struct.pack('>I', len(v)) + v
    return (kind, bytes(b))


def run_bad(case, c):
    kind, data = case
    try:
        want, used = ref_decode(data)
    except Bad:
        want = None
    tr = tracer()
    try:
        got = tr.extract(Format.BINARY, bytearray(data))
    except Corrupted:
        check(want is None or used != len(data) or not want[0] or not want[1],
              'well-formed encoding %r rejected', data[:100])
        c.hit(kind + '_rejected')
        return
    check(want is not None, 'malformed encoding %r accepted as %r', data[:100], got and fields(got))
    if got is None:
        check(not want[0] or not want[1], 'nothing extracted from %r', data[:100])
        return
    same_ctx(got, want, 'decoded')
    c.label(kind + '_accepted')
    if want[0] and want[1]:
        sp = tr.start_span('x', child_of=got)
        check(sp.trace_id == got.trace_id, 'child trace id')
    else:
        sp = tr.start_span('x', child_of=got)
        check(sp.trace_id and sp.parent_id is None, 'span from a zero context: %r', sp.context)
        c.hit('zero_ids')


# ---- far more baggage than usual
@st.composite
def huge_cases(draw):
    return draw(gen.contexts(bg=st.just({}))), draw(gen.huge()), draw(st.sampled_from([0, 0, 1, 4]))


def run_huge(case, c):
    t, spec, cut = case
    t = t[:4] + (gen.huge_baggage(spec),)
    tr = tracer()
    car = bytearray()
    tr.inject(ctx(t), Format.BINARY, car)
    check(bytes(car) == ref_encode(t), 'binary form of %r with %d bytes of baggage differs from the reference', t[:4], len(car))
    if cut:
        try:
            got = tr.extract(Format.BINARY, car[:-cut])
        except Corrupted:
            c.hit('cut')
            return
        check(False, 'an encoding of %d bytes without its last %d was accepted as %r', len(car), cut, fields(got)[:4])
    same_ctx(tr.extract(Format.BINARY, car), t, 'round trip')
    c.hit('many items' if len(t[4]) > 4 else 'large value')


TESTS = [Test('huge', huge_cases, run_huge, quick=100, rule='baggage of many kilobytes or thousands of items'),
         Test('roundtrip', rt_cases, run_rt, quick=9000), Test('garbage', bad_cases, run_bad, quick=16000),
         Test('races', racing.codec_cases(['binary']), racing.run_codecs, quick=2400, rule=racing.CODEC_RULE), volume.BINARY]
