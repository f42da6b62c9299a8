"""C02: hostile inbound text-map / HTTP headers."""
import re
import string
from functools import lru_cache
from urllib.parse import unquote_to_bytes
from hypothesis import strategies as st
from .. import agent, gen, volume
from .. import races as racing
from ..core import Test, Violation, check
from ..util import tracer, fields, Corrupted, Format, FORMATS
from jaeger_client.codecs import B3Codec, TextCodec

PROP = 'C02'
RULE = ('carriers of string headers built around a well-formed, mutated or random trace header, with debug-id, ad-hoc '
        'baggage, per-item baggage and unrelated headers, in random letter case and order, percent-encoded or not; '
        'non-trivial: the carrier has a trace header that is malformed/out of range, or at least two recognised headers')
ASSUMPTIONS = ['carriers map str to str; no two keys of a carrier are equal up to letter case; numbers that only Python '
               'reads as hex (signs, underscores, blanks, 0x, non-ASCII digits) may be accepted with that value or rejected']


@lru_cache(None)
def hexnum():
    return st.one_of(
        gen.ints(0, 2 ** 64 + 5).map(lambda v: '%x' % v), gen.ints(0, 2 ** 130).map(lambda v: '%x' % v),
        gen.ints(0, 300).map(lambda v: '%x' % v), gen.ints(1, 2 ** 64 - 1).map(lambda v: '%016x' % v),
        gen.ints(1, 2 ** 64 - 1).map(lambda v: '%X' % v), gen.ints(1, 2 ** 128 - 1).map(lambda v: '%032X' % v))


@lru_cache(None)
def badnum():
    return st.one_of(
        st.sampled_from(['', '-1', '-', '+1', ' 1', '1 ', '0x1f', '1_0', 'g', '1g', '١', '1.0', '\n1', '0', '00', '-0', 'NaN',
                         'None', '１', '1%3A2', '🙂', '1' * 17, 'f' * 33, '0' * 40 + '1', '1' * 5000]),
        st.text('0123456789abcdefg-_ x:', max_size=6), gen.text(max_len=6))


@st.composite
def trace_headers(draw):
    kind = draw(st.integers(0, 9))
    if kind < 4:
        return ':'.join([draw(gen.trace_ids().map(lambda v: '%x' % v)), draw(gen.span_ids().map(lambda v: '%x' % v)),
                         draw(gen.ints(0, gen.MAX64).map(lambda v: '%x' % v)), draw(gen.flags().map(lambda v: '%x' % v))])
    if kind < 8:
        n = draw(st.sampled_from([4, 4, 4, 4, 4, 4, 0, 1, 2, 3, 5, 6]))
        return ':'.join(draw(st.one_of(hexnum(), hexnum(), badnum())) for _ in range(n))
    if kind == 8:
        return draw(gen.text(max_len=20))
    s = list('%x:%x:%x:%x' % (draw(gen.trace_ids()), draw(gen.span_ids()), draw(gen.ints(0, gen.MAX64)), draw(gen.flags())))
    for _ in range(draw(st.integers(1, 2))):
        i = draw(st.integers(0, len(s)))
        op = draw(st.integers(0, 2))
        ch = draw(st.sampled_from(':0f-g %A'))
        if op == 0:
            s.insert(i, ch)
        elif i < len(s):
            if op == 1:
                s[i] = ch
            else:
                del s[i]
    return ''.join(s)


DEFAULT = ('uber-trace-id', 'uberctx-', 'jaeger-debug-id', 'jaeger-baggage')


def norm(h):
    return h.lower().replace('_', '-')


@lru_cache(None)
def adhoc():
    word = st.one_of(st.text('abcXYZ01 .-', max_size=6), gen.text(max_len=6))
    part = st.one_of(st.tuples(word, word).map('='.join), st.tuples(word, word).map('='.join),
                     st.tuples(word, word).map('='.join), word, st.tuples(word, word, word).map('='.join),
                     st.sampled_from(['', '=', '==', ' = ', ' k=v ', 'a=', '=b']))
    return st.lists(part, max_size=5).map(','.join)


def enc_some(draw, s):
    mode = draw(st.integers(0, 2))
    if mode == 0:
        return s
    from urllib.parse import quote
    return quote(s) if mode == 1 else ''.join('%%%02X' % b for b in s.encode('utf-8'))


@st.composite
def cases(draw):
    http = draw(st.booleans())
    names = draw(st.sampled_from([DEFAULT, DEFAULT, DEFAULT, ('X-Trace', 'Bg_', 'x-dbg', 'X-Bag'), ('tr', 'b-', 'Dbg_Id', 'jaeger-baggage'), ('x-trace', 'X-', 'dbg', 'jaeger-baggage'),
                                  ('uber-trace-id', 'uberctx-', 'jaeger-debug-id', 'My-Baggage')]))
    hdr, prefix, dbg, bagh = map(norm, names)
    items = []
    if draw(st.integers(0, 9)) < 8:
        items.append((hdr, draw(trace_headers())))
    if draw(st.integers(0, 3)) == 0:
        items.append((dbg, draw(gen.text(max_len=20, big=2000))))
    if draw(st.integers(0, 2)) == 0:
        items.append((bagh, draw(adhoc())))
    for k, v in draw(st.dictionaries(gen.baggage_keys(), gen.text(max_len=20), max_size=3)).items():
        items.append((prefix + k, v))
    for k, v in draw(st.dictionaries(st.one_of(gen.text(max_len=16), st.sampled_from(
            ['uberctx', 'uber-trace-id ', 'uber_trace_id', 'jaeger_debug_id', 'jaeger-baggage2', 'x-uberctx-k'])),
            gen.text(max_len=12), max_size=2)).items():
        items.append((k, v))
    if http:
        items = [(k, enc_some(draw, v)) for k, v in items]
    bits = draw(st.one_of(st.just(0), st.integers(0, 2 ** 40)))
    items = [(gen.mangle_case(k, bits >> (i * 3)), v) for i, (k, v) in enumerate(items)]
    items = draw(st.permutations(items))
    use = draw(st.integers(0, 3)) == 0
    return (http, [list(x) for x in items], use, names)


STRICT = re.compile(r'\A[0-9a-fA-F]+:[0-9a-fA-F]+:[0-9a-fA-F]+:[0-9a-fA-F]+\Z')


def in_range(t, s, p, f):
    return 1 <= t < 1 << 128 and 1 <= s < 1 << 64 and 0 <= p < 1 << 64 and 0 <= f <= 255


def ref_trace(value):
    """'bad', or ('ok' | 'maybe', ids)"""
    parts = value.split(':')
    if len(parts) != 4:
        return 'bad', None
    try:
        nums = tuple(int(x, 16) for x in parts)
    except ValueError:
        return 'bad', None
    if not in_range(*nums):
        return 'bad', None
    return ('ok' if STRICT.match(value) else 'maybe'), (nums[0], nums[1], nums[2] or None, nums[3])


def unq(s):
    return unquote_to_bytes(s).decode('utf-8', 'replace') if '%' in s else s


def run(case, c):
    http, items, use, names = case
    hdr, prefix, dbg, bagh = map(norm, names)
    keys = [k.lower() for k, _ in items]
    if len(set(keys)) != len(keys):
        return
    carrier = {k: v for k, v in items}
    dec = (lambda v: unq(v)) if http else (lambda v: v)
    trace = debug = adhoc_v = None
    per_item = {}
    for k, v in items:
        lk = k.lower()
        v = dec(v)
        if lk == hdr:
            trace = v
        elif lk.startswith(prefix):
            per_item[k[len(prefix):].lower()] = v
        elif lk == dbg:
            debug = v
        elif lk == bagh:
            adhoc_v = v
    bag = {}
    if adhoc_v is not None:
        for part in adhoc_v.split(','):
            kv = part.strip().split('=')
            if len(kv) == 2:
                bag[kv[0]] = kv[1]
    if set(bag) & set(per_item):
        return
    bag.update(per_item)
    if len(per_item) != sum(1 for k in keys if k.startswith(prefix) and k != hdr):
        return
    verdict, ids = ref_trace(trace) if trace is not None else ('none', None)
    if names[3] != 'jaeger-baggage':
        # only a codec can be given another name for the ad-hoc header
        kw = dict(trace_id_header=names[0], baggage_header_prefix=names[1], debug_id_header=names[2], baggage_header=names[3])
        tr = tracer(extra_codecs={Format.TEXT_MAP: TextCodec(**kw), Format.HTTP_HEADERS: TextCodec(url_encoding=True, **kw)})
        c.label('own codec')
    elif names != DEFAULT:
        tr = tracer(trace_id_header=names[0], baggage_header_prefix=names[1], debug_id_header=names[2])
        c.label('own names')
    else:
        tr = tracer()
    fmt = Format.HTTP_HEADERS if http else Format.TEXT_MAP
    before = dict(carrier)
    try:
        got = tr.extract(fmt, carrier)
    except Corrupted:
        check(verdict in ('bad', 'maybe'), 'well-formed headers %r were rejected as corrupted', items)
        c.hit('corrupted')
        return
    check(carrier == before, 'extract changed the carrier')
    check(verdict != 'bad', 'malformed trace header %r was accepted as %r', trace, got and fields(got))
    if trace is None and not debug and not bag:
        check(got is None, 'context %r extracted from nothing', got and fields(got))
        c.label('nothing')
        return
    check(got is not None, 'nothing extracted from %r', items)
    want = ids if trace is not None else (None, None, None, None)
    check(fields(got)[:4] == want, 'extracted ids %r, expected %r from %r', fields(got)[:4], want, trace)
    check(dict(got.baggage) == bag, 'extracted baggage %r, expected %r', dict(got.baggage), bag)
    check((got.debug_id or None) == (debug or None), 'debug id %r, expected %r', got.debug_id, debug)
    check(got.has_trace == (trace is not None), 'has_trace is %r', got.has_trace)
    if verdict == 'maybe':
        c.hit('python_only_hex')
    if (trace is not None) + bool(debug) + bool(adhoc_v) + len(per_item) >= 2:
        c.hit('several_headers')
    if trace is None:
        c.hit('no_trace_header')
    if use:
        use_context(got, bag)
        c.hit('used')


def use_context(got, bag):
    """The context can start spans that travel everywhere and reach the agent."""
    def go(tr):
        sp = tr.start_span('op', child_of=got)
        for name, f in FORMATS.items():
            carrier = bytearray() if name == 'binary' else {}
            tr.inject(sp, f, carrier)
            back = tr.extract(f, carrier)
            check(back is not None and fields(back)[:4] == fields(sp.context)[:4],
                  '%s carries %r as %r', name, fields(sp.context)[:4], back and fields(back)[:4])
        b3 = {}
        B3Codec().inject(sp.context, b3)
        check(sp.context.baggage == bag, 'span baggage %r', sp.context.baggage)
        ref = tr.start_span('op2', references=__import__('opentracing').follows_from(got), ignore_active_span=True)
        ref.set_tag('sampling.priority', 1)
        ref.finish()
        sp.set_tag('sampling.priority', 1)
        sp.finish()
        sampled = [s for s in (ref, sp) if s.is_sampled()]
        return [(s.trace_id, s.span_id, s.parent_id or 0, s.flags) for s in sampled]
    want, batches, m = agent.send_spans(lambda rep: tracer(rep), go)
    sent = [(s['trace_id'], s['span_id'], s['parent_id'], s['flags']) for b in batches for s in b['spans']]
    check(sorted(sent) == sorted(want), 'spans %r reached the agent, expected %r', sent, want)


# arbitrary string dictionaries: only the exception discipline and range validity
@st.composite
def wild(draw):
    key = st.one_of(gen.text(max_len=12), st.sampled_from(['uber-trace-id', 'Uber-Trace-Id', 'uberctx-a', 'UBERCTX-',
                                                           'jaeger-debug-id', 'jaeger-baggage', 'Jaeger-Baggage']))
    val = st.one_of(gen.text(max_len=20), trace_headers(), adhoc())
    return (draw(st.booleans()), draw(st.lists(st.tuples(key, val), max_size=6)))


def run_wild(case, c):
    http, items = case
    tr = tracer()
    try:
        got = tr.extract(Format.HTTP_HEADERS if http else Format.TEXT_MAP, dict(items))
    except Corrupted:
        c.hit('corrupted')
        return
    if got is None:
        return
    t, s, p, f, b = fields(got)
    if t is None and s is None:
        check(p is None and f is None, 'partial context %r', fields(got))
        check(b or got.debug_id, 'empty context returned')
    else:
        check(in_range(t or 0, s or 0, p or 0, -1 if f is None else f), 'context out of range: %r', fields(got))
        c.hit('context')
    check(all(isinstance(k, str) and isinstance(v, str) for k, v in b.items()), 'baggage %r', b)
    c.hit('something')


TESTS = [
    Test('headers', cases, run, quick=20000),
    Test('wild', wild, run_wild, quick=4000),
    Test('races', racing.codec_cases(['text', 'http']), racing.run_codecs, quick=1600, rule=racing.CODEC_RULE),
    volume.TEXT,
]
