"""C04: B3 header propagation."""
import re
from hypothesis import strategies as st
from .. import gen
from .. import races as racing
from ..core import Test, Violation, check
from ..util import tracer, ctx, fields, Corrupted, Format, SpanContext
from jaeger_client.codecs import B3Codec
from jaeger_client.config import Config
from jaeger_client.reporter import InMemoryReporter
from jaeger_client import ConstSampler

PROP = 'C04'
RULE = ('contexts round-tripped in both width modes through case-mangled, shuffled, noisy headers; inbound header sets with '
        'well-formed, malformed, missing and absent-valued ids and flag headers; non-trivial: parent or flag present, mangled '
        'case, noise, or a malformed id')
ASSUMPTIONS = ['only the sampled and debug bits travel in B3', 'numbers that only Python reads as hex may be accepted with that value or rejected']

TID, SID, PID, SAMPLED, FLAGS = 'X-B3-TraceId', 'X-B3-SpanId', 'X-B3-ParentSpanId', 'X-B3-Sampled', 'X-B3-Flags'
NAMES = {h.lower() for h in (TID, SID, PID, SAMPLED, FLAGS)}
NOISE = ['b3', 'X-B3', 'X-B3-Trace', 'X-B3-TraceIdx', 'X-B3-Span', 'XB3-SpanId', 'x-b3-parentspan', 'X-B3-Sample', 'X_B3_Flags', 'accept']


def codec(wide, via):
    if via == 'codec':
        k = B3Codec(generate_128bit_trace_id=wide)
        return k.inject, k.extract
    cfg = Config({'propagation': 'b3', 'generate_128bit_trace_id': wide, 'tags': {'ip': 'i', 'hostname': 'h'}}, service_name='s')
    tr = cfg.create_tracer(InMemoryReporter(), ConstSampler(True))
    return (lambda s, car: tr.inject(s, Format.HTTP_HEADERS, car)), (lambda car: tr.extract(Format.HTTP_HEADERS, car))


def transform(d, noise, bits, order):
    items = list(d.items()) + [(k, v) for k, v in noise.items() if k.lower() not in NAMES]
    items = [(gen.mangle_case(k, bits >> i), v) for i, (k, v) in enumerate(items)]
    r = order % max(1, len(items))
    items = items[r:] + items[:r]
    if order & 1:
        items.reverse()
    return dict(items)


def noises():
    return st.dictionaries(st.one_of(st.sampled_from(NOISE), gen.text(max_len=14)), st.one_of(gen.text(max_len=8), st.just('1'), st.none()),
                           max_size=3)


@st.composite
def rt_cases(draw):
    return (draw(gen.contexts(bg=st.just({}))), draw(st.booleans()), draw(st.sampled_from(['codec', 'codec', 'config'])),
            draw(NZ), draw(st.one_of(st.just(0), st.integers(0, 2 ** 60))), draw(st.integers(0, 7)), draw(st.booleans()))


NZ = noises()


def run_rt(case, c):
    t, wide, via, noise, bits, order, again = case
    inject, extract = codec(wide, via)
    carrier = {'Keep': 'me'}
    sc = ctx(t)
    inject(sc, carrier)
    check(carrier.pop('Keep', None) == 'me', 'an unrelated header was changed')
    tid, sid, pid, fl = t[:4]
    low = {k.lower(): v for k, v in carrier.items()}
    check(len(low) == len(carrier) and set(low) <= NAMES, 'unexpected headers %r', sorted(carrier))
    check(low.get(TID.lower()) == '%0*x' % (32 if wide else 16, tid), 'trace id header %r for %x', low.get(TID.lower()), tid)
    check(low.get(SID.lower()) == '%016x' % sid, 'span id header %r for %x', low.get(SID.lower()), sid)
    check(low.get(PID.lower()) == (None if pid is None else '%016x' % pid), 'parent header %r for %r', low.get(PID.lower()), pid)
    check((low.get(FLAGS.lower()) == '1') == bool(fl & 2), 'debug header %r for flags %d', low.get(FLAGS.lower()), fl)
    if not fl & 2:
        check((low.get(SAMPLED.lower()) == '1') == bool(fl & 1), 'sampled header %r for flags %d', low.get(SAMPLED.lower()), fl)
    got = extract(transform(carrier, noise, bits, order))
    check(got is not None, 'nothing extracted from %r', carrier)
    check(fields(got)[:3] == (tid, sid, pid), 'ids %r became %r', (tid, sid, pid), fields(got)[:3])
    check(got.flags is not None and got.flags & 3 == fl & 3, 'flags %d became %r', fl, got.flags)
    check(not got.baggage, 'baggage appeared')
    if again:
        car2 = {}
        inject(got, car2)
        got2 = extract(car2)
        check(fields(got2) == fields(got), 'second hop %r differs from %r', fields(got2), fields(got))
    if fl & 3:
        c.hit('flags%d' % (fl & 3))
    if pid:
        c.hit('parent')
    if bits:
        c.hit('mangled')
    if noise:
        c.hit('noise')
    c.label('wide' if wide else 'narrow', via)


HEX = re.compile(r'\A[0-9a-fA-F]+\Z')


@st.composite
def ids(draw):
    k = draw(st.integers(0, 9))
    if k < 5:
        v = draw(gen.trace_ids())
        return draw(st.sampled_from(['%x', '%X', '%016x', '%032x', '%064x'])) % v
    if k == 5:
        return '%x' % draw(gen.ints(0, 2 ** 130))
    if k == 6:
        return draw(st.sampled_from(['0', '0' * 16, '0' * 32, '']))
    if k == 7:
        return draw(st.sampled_from(['-1', '-5', '+5', ' 5', '5 ', '0x5', '1_0', 'zz', 'g', '5z', 'None', '٣', '5:5', '5-5', '1.5']))
    if k == 8:
        return None
    return draw(gen.text(max_len=10))


@st.composite
def in_cases(draw):
    d = []
    for name, p in ((TID, 9), (SID, 9), (PID, 5)):
        if draw(st.integers(0, 9)) < p:
            d.append((name, draw(ids())))
    for name in (SAMPLED, FLAGS):
        if draw(st.booleans()):
            d.append((name, draw(st.sampled_from(['1', '1', '0', '', 'true', 'd', '11', None, '2', '01']))))
    return (d, draw(st.booleans()), draw(st.sampled_from(['codec', 'codec', 'config'])), draw(NZ),
            draw(st.one_of(st.just(0), st.integers(0, 2 ** 60))), draw(st.integers(0, 7)))


def ref_id(v, bits):
    """(verdict, value): ok, maybe, bad, absent"""
    if v is None:
        return 'absent', None
    try:
        n = int(v, 16)
    except ValueError:
        return 'bad', None
    if n < 0 or n >> bits:
        return 'bad', None
    return ('ok' if HEX.match(v) else 'maybe'), n


def run_in(case, c):
    d, wide, via, noise, bits, order = case
    inject, extract = codec(wide, via)
    h = dict(d)
    car = transform(h, noise, bits, order)
    before = dict(car)
    v = [ref_id(h.get(TID), 128), ref_id(h.get(SID), 64), ref_id(h.get(PID), 64)]
    kinds = {x[0] for x in v}
    try:
        got = extract(car)
    except Corrupted:
        check('bad' in kinds or 'maybe' in kinds, 'well-formed headers %r rejected', d)
        c.hit('corrupted')
        return
    check(car == before, 'extract changed the carrier')
    check('bad' not in kinds, 'malformed headers %r accepted as %r', d, got and fields(got))
    tid, sid, pid = (x[1] for x in v)
    if not tid or not sid:
        check(got is None, 'context %r from headers without ids %r', got and fields(got), d)
        c.label('none')
        if d:
            c.hit('missing_ids')
        return
    check(got is not None, 'nothing extracted from %r', d)
    check(fields(got)[:3] == (tid, sid, pid or None), 'ids %r, expected %r', fields(got)[:3], (tid, sid, pid or None))
    sampled, debug = h.get(SAMPLED), h.get(FLAGS)
    if debug in ('1', '0', None, '') and sampled in ('1', '0', None, ''):
        check(bool(got.flags & 2) == (debug == '1'), 'debug state of %r is %r', d, got.flags)
        if debug == '1' and sampled != '1':
            # B3: the debug flag implies an accept decision
            if not got.flags & 1:
                raise Violation('inbound B3 headers with only X-B3-Flags: 1 start an unsampled trace',
                                key='b3-debug-only-not-sampled')
        else:
            check(bool(got.flags & 1) == (sampled == '1'), 'sampled state of %r is %r', d, got.flags)
        c.hit('flag_headers')
    check(got.flags is not None and got.flags & ~3 == 0, 'flags %r', got.flags)
    c.hit('context')


TESTS = [Test('roundtrip', rt_cases, run_rt, quick=16000), Test('inbound', in_cases, run_in, quick=12000),
         Test('races', racing.codec_cases(['b3'], b3=True), racing.run_codecs, quick=2400, rule=racing.CODEC_RULE)]
