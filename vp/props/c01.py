"""C01: text-map / HTTP-header propagation round trip."""
import collections
import string
import types
from functools import lru_cache
from hypothesis import strategies as st
from .. import gen, volume
from .. import races as racing
from ..core import Test, check
from ..util import tracer, ctx, fields, same_ctx, Format, SpanContext
from jaeger_client.codecs import TextCodec

PROP = 'C01'
RULE = ('contexts (ids over the full ranges with boundary/dictionary bias, flags 0..255, unicode baggage up to several '
        'thousand characters and ~130 items) x header configurations x case/order/noise transformations of the carrier; '
        'non-trivial: at least one baggage item or non-default headers or a transformed carrier')
ASSUMPTIONS = ['baggage names are compared lower-cased; configured header names do not collide with each other']

HDR = string.ascii_letters + string.digits + '-_'


@lru_cache(None)
def header_name():
    return st.one_of(st.text(HDR, min_size=1, max_size=16),
                     st.sampled_from(['Trace_ID', 'x-trace', 'UBER-TRACE-ID', 'my_trace_id', 'traceparent']))


def norm(h):
    return h.lower().replace('_', '-')


@lru_cache(None)
def noise_keys():
    return st.one_of(st.text(HDR, min_size=1, max_size=16),
                     st.sampled_from(['Accept', 'uber-trace-idx', 'uber-trace', 'uberctx', 'x-uberctx-a', 'Host',
                                      'jaeger-debug', 'uber-trace-id-2', 'xuber-trace-id', 'content-length']))


@st.composite
def cases(draw):
    t = draw(gen.contexts())
    http = draw(st.booleans())
    cfg = None
    if draw(st.integers(0, 2)) == 0:
        cfg = (draw(header_name()), draw(header_name().map(lambda s: s + '-')), draw(header_name()))
        if draw(st.integers(0, 7)) == 0:          # the name of the trace header starts like those of the baggage headers
            cfg = (cfg[0], cfg[0][:draw(st.integers(1, 3))], cfg[2])
    noise = draw(st.dictionaries(noise_keys(), gen.text(max_len=20), max_size=3))
    pre = draw(st.booleans())                       # noise already in the carrier, or added in transit
    case_bits = draw(st.one_of(st.just(0), st.integers(0, 2 ** 40)))
    order = draw(st.integers(0, 5))
    via = draw(st.sampled_from(['tracer', 'span', 'codec']))
    return (t, http, cfg, noise, pre, case_bits, order, via, draw(st.sampled_from(list(KINDS))), draw(st.integers(0, 5)) == 0)


class Items(object):
    """A carrier that only has items()."""

    def __init__(self, d):
        self.d = d

    def items(self):
        return iter(list(self.d.items()))

    def __eq__(self, o):
        return self.d == getattr(o, 'd', o)


class Fields(dict):
    pass


KINDS = {'dict': dict, 'ordered': collections.OrderedDict, 'view': lambda d: types.MappingProxyType(dict(d)), 'items': Items, 'subclass': Fields,
         'default': lambda d: collections.defaultdict(list, d), 'chain': lambda d: collections.ChainMap(dict(d))}
WRITABLE = ('dict', 'ordered', 'subclass', 'default')

DEFAULT = ('uber-trace-id', 'uberctx-', 'jaeger-debug-id')


def run(case, c):
    t, http, cfg, noise, pre, case_bits, order, via, kind, raw = case
    hdr, prefix, dbg = cfg or DEFAULT
    names = [norm(hdr), norm(dbg), 'jaeger-baggage']
    if len(set(names)) < 3 or any(n.startswith(norm(prefix)) for n in names[1:]):
        return
    special = set(names)
    noise = {k: v for k, v in noise.items()
             if k.lower() not in special and not k.lower().startswith(norm(prefix))}
    bg = t[4]
    own = {norm(hdr)} | {norm(prefix) + k for k in bg}
    if len(own) <= len(bg):
        return
    if norm(hdr).startswith(norm(prefix)):
        c.label('overlapping names')
    noise = {k: v for k, v in noise.items() if k not in own}
    fmt = Format.HTTP_HEADERS if http else Format.TEXT_MAP
    sc = ctx(t)
    raw = raw and via != 'span'
    if raw:
        # names and values that are UTF-8 bytes are carried as the text they encode
        sc = SpanContext(*t[:4], baggage={k.encode(): v.encode() for k, v in bg.items()})
        c.label('bytes baggage')
    kw = {}
    if cfg:
        kw = dict(trace_id_header=hdr, baggage_header_prefix=prefix, debug_id_header=dbg)
    carrier = KINDS[kind if kind in WRITABLE else 'dict'](noise if pre else {})
    if via == 'codec':
        codec = TextCodec(url_encoding=http, **kw)
        codec.inject(sc, carrier)
        extract = codec.extract
    else:
        tr = tracer(**kw)
        if via == 'span' and t[2] is None:
            sp = tr.start_span('x', child_of=sc)
            t = (sp.trace_id, sp.span_id, sp.parent_id, t[3], bg)
            check(fields(sp.context) == (t[0], t[1], t[2], t[3], bg), 'child context %r', fields(sp.context))
            tr.inject(sp, fmt, carrier)
        else:
            tr.inject(sc, fmt, carrier)

        def extract(x):
            return tr.extract(fmt, x)
    # what was written
    if pre:
        for k, v in noise.items():
            check(carrier.get(k) == v, 'unrelated entry %r changed to %r', k, carrier.get(k))
        written = {k: v for k, v in carrier.items() if k not in noise}
    else:
        written = dict(carrier)
    check(len(written) == 1 + len(bg), 'inject wrote %r for baggage %r', sorted(written), bg)
    check(norm(hdr) in written, 'no %r header in %r', norm(hdr), sorted(written))
    want = '%x:%x:%x:%x' % (t[0], t[1], t[2] or 0, t[3])
    check(written[norm(hdr)] == want, 'trace header is %r, expected %r', written[norm(hdr)], want)
    for k in bg:
        check(norm(prefix) + k in written, 'no header for baggage item %r in %r', k, sorted(written))
    for k, v in written.items():
        check(isinstance(v, str), 'header value %r is not a string', v)
        if http:
            check(v.isascii() and all(32 < ord(x) < 127 for x in v) and (k == norm(hdr) or unquote_ref(v) == bg[k[len(prefix):]]),
                  'HTTP header value %r is not percent-encoded ASCII of the item', v)
        elif k != norm(hdr):
            check(v == bg[k[len(prefix):]], 'text-map value %r differs from the item', v)
    # transit
    items = list(carrier.items())
    if not pre:
        items += list(noise.items())
    items = [(gen.mangle_case(k, case_bits), v) for k, v in items]
    r = order % max(1, len(items))
    items = items[r:] + items[:r]
    if order & 1:
        items.reverse()
    moved = dict(items)
    if len(moved) != len(items):
        return
    before = dict(moved)
    moved = KINDS[kind](moved)
    got = extract(moved)
    check(moved == before, 'extract changed the carrier')
    same_ctx(got, (t[0], t[1], t[2], t[3], bg), 'round trip')
    check(got.debug_id is None, 'debug id %r appeared', got.debug_id)
    if bg:
        c.hit('baggage')
    if len(bg) > 5:
        c.hit('many_items')
    if any(len(v) > 200 for v in bg.values()):
        c.hit('long_value')
    if any(not v.isascii() for v in bg.values()):
        c.hit('unicode')
    if cfg:
        c.hit('custom_headers')
    if case_bits:
        c.hit('case_mangled')
    if noise:
        c.hit('noise')
    if t[0] >= 1 << 64:
        c.hit('128bit')
    c.label('http' if http else 'textmap', 'via_' + via)


def unquote_ref(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '%':
            h = s[i + 1:i + 3]
            if len(h) != 2 or any(x not in '0123456789abcdefABCDEF' for x in h):
                return None
            out.append(int(h, 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return out.decode('utf-8', 'replace')


# ---- two contexts, one codec: nothing is remembered between calls
@st.composite
def pair_cases(draw):
    n = draw(st.integers(2, 5))
    return (draw(st.booleans()), [draw(gen.contexts(bg=gen.baggage(max_items=2, big=0))) for _ in range(n)],
            draw(st.lists(st.integers(0, n - 1), min_size=2, max_size=8)))


def run_pair(case, c):
    http, ctxs, order = case
    fmt = Format.HTTP_HEADERS if http else Format.TEXT_MAP
    tr = tracer()
    carriers = []
    for t in ctxs:
        d = {}
        tr.inject(ctx(t), fmt, d)
        carriers.append(d)
    held = []
    for i in order:
        got = tr.extract(fmt, carriers[i])
        same_ctx(got, ctxs[i], 'extract #%d' % i)
        held.append((i, got))
    for i, got in held:
        same_ctx(got, ctxs[i], 'earlier extracted context %d' % i)
    c.hit('sequence')


# ---- a carrier that was used before ---------------------------------------------------------------
@st.composite
def again_cases(draw):
    n = draw(st.integers(2, 4))
    keys = draw(st.lists(gen.baggage_keys(), min_size=1, max_size=4, unique=True))
    bg = st.dictionaries(st.sampled_from(keys), gen.text(max_len=12), max_size=4)
    return (draw(st.booleans()), [draw(gen.contexts(bg=bg)) for _ in range(n)], draw(st.sampled_from(WRITABLE)),
            draw(st.lists(st.booleans(), min_size=n, max_size=n)))


def run_again(case, c):
    http, ctxs, kind, fresh = case
    fmt = Format.HTTP_HEADERS if http else Format.TEXT_MAP
    tr = tracer()
    car = KINDS[kind]({'other': 'kept'})
    old = {}
    for i, t in enumerate(ctxs):
        (tracer() if fresh[i] else tr).inject(ctx(t), fmt, car)
        got = (tr if i & 1 else tracer()).extract(fmt, car)
        check(got is not None, 'nothing extracted after injection %d', i)
        check(fields(got)[:4] == (t[0], t[1], t[2] or None, t[3]), 'injection %d into a used carrier: read %r, injected %r', i, fields(got)[:4], t[:4])
        bag = dict(got.baggage)
        for k, v in t[4].items():
            check(bag.get(k) == v, 'item %r is %r after injecting %r into a used carrier', k, bag.get(k), v)
        for k, v in bag.items():
            check(k in t[4] or v in old.get(k, ()), 'item %r = %r was never injected', k, v)
        for k, v in t[4].items():
            old.setdefault(k, set()).add(v)
        check(car['other'] == 'kept', 'an unrelated entry changed')
        if i and any(k in t[4] and len(old[k]) > 1 for k in old):
            c.hit('replaced an item')
        elif i:
            c.hit('replaced the context')


# ---- far more baggage than usual
@st.composite
def huge_cases(draw):
    return draw(gen.contexts(bg=st.just({}))), draw(st.booleans()), draw(gen.huge())


def run_huge(case, c):
    t, http, spec = case
    bg = gen.huge_baggage(spec)
    t = t[:4] + (bg,)
    fmt = Format.HTTP_HEADERS if http else Format.TEXT_MAP
    tr = tracer()
    car = {}
    tr.inject(ctx(t), fmt, car)
    check(len(car) == 1 + len(bg), '%d entries for %d items', len(car), len(bg))
    same_ctx(tr.extract(fmt, car), t, 'round trip')
    c.hit('many items' if len(bg) > 4 else 'large value')


TESTS = [
    Test('roundtrip', cases, run, quick=24000),
    Test('sequence', pair_cases, run_pair, quick=3000),
    Test('again', again_cases, run_again, quick=3000,
         rule='several contexts sharing baggage names injected one after the other into one carrier; the last one is read back'),
    Test('huge', huge_cases, run_huge, quick=100, rule='baggage of many kilobytes or thousands of items'),
    Test('races', racing.codec_cases(['text', 'http']), racing.run_codecs, quick=2400, rule=racing.CODEC_RULE),
    volume.TEXT,
]
