"""Generators.  Boundary-biased numbers and texts, plus an automatic dictionary mined from the current sources.

The dictionary is what a fuzzer calls an auto-dictionary: literals found in the code under test, used as values,
as sizes and as neighbours of values and sizes.  Literals that were not there when /verif was last calibrated
(vp/baseline_literals.json) are drawn more often: a changed tree is explored where it changed.
It only affects what is generated, never what is judged.
"""
import json
import os
import functools
import types
from collections import Counter

from . import boot
from hypothesis import strategies as st

HERE = os.path.dirname(os.path.abspath(__file__))
BASELINE = os.path.join(HERE, 'baseline_literals.json')


def _walk(code, out):
    doc = code.co_consts[0] if code.co_consts and isinstance(code.co_consts[0], str) else None
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _walk(c, out)
        else:
            _const(c, out, doc)


def _const(c, out, doc=None):
    if isinstance(c, (tuple, frozenset)):
        for x in sorted(c, key=repr):
            _const(x, out)
    elif isinstance(c, bool) or c is None or c is Ellipsis:
        pass
    elif isinstance(c, int):
        out['i:%d' % c] += 1
    elif isinstance(c, float):
        out['f:%r' % c] += 1
    elif isinstance(c, str):
        if c is not doc and len(c) <= 60:
            out['s:%s' % c] += 1
    elif isinstance(c, bytes) and len(c) <= 60:
        out['s:%s' % c.decode('latin-1')] += 1


def mine(repo=boot.REPO):
    out = Counter()
    for top in ('jaeger_client', 'crossdock'):
        for d, dirs, files in os.walk(os.path.join(repo, top)):
            dirs[:] = sorted(x for x in dirs if x not in ('thrift_gen', '__pycache__'))
            for f in sorted(files):
                if f.endswith('.py'):
                    p = os.path.join(d, f)
                    try:
                        with open(p, encoding='utf-8') as fh:
                            _walk(compile(fh.read(), p, 'exec'), out)
                    except SyntaxError:
                        pass
    return out


def _load():
    cur = mine()
    try:
        with open(BASELINE) as f:
            base = Counter(json.load(f))
    except (OSError, ValueError):
        base = Counter(cur)
    fresh = Counter(cur) if os.environ.get('VP_FRESH') == 'all' else cur - base   # a self-test: every literal counts as new
    return cur, fresh


CUR, FRESH = _load()


def _ints(c):
    out = set()
    for k in c:
        if k[0] == 'i':
            out.add(abs(int(k[2:])))
        elif k[0] == 'f':
            try:
                out.add(abs(int(float(k[2:]))))
            except (OverflowError, ValueError):
                pass
    return sorted(out)


def _strs(c):
    return sorted(k[2:] for k in c if k[0] == 's' and k[2:])


def _floats(c):
    out = set()
    for k in c:
        if k[0] in 'if':
            try:
                out.add(abs(float(k[2:])))
            except OverflowError:
                pass
    return sorted(out)


D_INTS, F_INTS = _ints(CUR), _ints(FRESH)
D_STRS, F_STRS = _strs(CUR), _strs(FRESH)
D_FLOATS, F_FLOATS = _floats(CUR), _floats(FRESH)

_PREFIXES = ('jaeger-', 'uber', 'x-b3', 'X-B3', 'sampl', 'default', 'span', 'error', 'python')
D_WORDS = [s for s in D_STRS if ' ' not in s and '%' not in s and len(s) <= 40]


def _neigh(vals):
    out = set()
    for v in vals:
        out.update((v - 1, v, v + 1))
    return out


@functools.lru_cache(maxsize=None)
def ints(lo, hi, extra=()):
    """Integers in [lo, hi]: boundaries, powers of two, dictionary values, multiples of them, uniform."""
    near = set(extra) | {lo, lo + 1, lo + 2, hi, hi - 1, 0, 1, 2, 10, 15, 16, 100}
    for b in (7, 8, 15, 16, 31, 32, 53, 62, 63, 64, 65, 127, 128):
        near.update((2 ** b - 1, 2 ** b, 2 ** b + 1))
    near |= _neigh(D_INTS)
    near = sorted(v for v in near if lo <= v <= hi)
    alts = [st.sampled_from(near), st.integers(lo, hi)]
    if hi - lo > 1000:
        bits = max(hi.bit_length(), 1)
        alts.append(st.integers(1, bits).flatmap(
            lambda b: st.integers(min(max(lo, 2 ** (b - 1)), hi), min(max(lo, 2 ** b - 1), hi))))
        alts.append(st.tuples(st.integers(0, bits), st.integers(1, 255)).map(
            lambda t: min(max(t[1] << t[0], lo), hi)))
        mods = [m for m in D_INTS if 1 < m <= hi][:60]
        if mods:
            alts.append(st.tuples(st.sampled_from(mods), st.integers(0, max(1, hi // 2))).map(
                lambda t: min(max(lo, (t[1] // t[0]) * t[0]), hi)))
    if F_INTS:
        f = sorted(v for v in _neigh(F_INTS) | {k * m for k in F_INTS for m in (2, 3, 5)} if lo <= v <= hi)
        if f:
            alts.append(st.sampled_from(f))
            alts.append(st.sampled_from(f))
    return st.one_of(*alts)


@functools.lru_cache(maxsize=None)
def sizes(hi, extra=()):
    """Sizes up to hi, mostly small, with dictionary sizes and their neighbours."""
    near = sorted(v for v in (_neigh(D_INTS) | set(extra)) if 0 <= v <= hi)
    alts = [st.integers(0, min(4, hi)), st.integers(0, min(20, hi)), st.integers(0, min(4, hi))]
    if near:
        alts.append(st.sampled_from(near))
    f = sorted(v for v in _neigh(F_INTS) if 0 <= v <= hi)
    if f:
        alts.append(st.sampled_from(f))
        alts.append(st.sampled_from(f))
    return st.one_of(*alts)


def _dict_text(words=None):
    w = list(words or []) + D_WORDS
    alts = [st.sampled_from(w)] if w else []
    if words:
        alts.append(st.sampled_from(list(words)))
    if F_STRS:
        f = F_STRS
        alts.append(st.sampled_from(f))
        alts.append(st.tuples(st.text('ab1', max_size=3), st.sampled_from(f), st.text('ab1', max_size=3)).map(''.join))
    return alts


ASCII = ''.join(chr(c) for c in range(32, 127))
SPECIAL = ':=,;%&+/?#[]{}"\'\\@ \t\n\r\x00_-.~*|<>'
SPICE = 'é€ß中文😀İıſK\u0301\u200b\ufeff\uffff\x7f\x80\xff'


@functools.lru_cache(maxsize=None)
def text(max_len=40, words=(), alphabet=None, big=0, min_len=0):
    """Unicode text without lone surrogates."""
    if alphabet is not None:
        base = [st.text(alphabet, min_size=min_len, max_size=max_len)]
        d = [s for s in list(words) + D_WORDS + F_STRS if set(s) <= set(alphabet) and min_len <= len(s) <= max_len]
        if d:
            base.append(st.sampled_from(d))
        f = [s for s in F_STRS if set(s) <= set(alphabet) and min_len <= len(s) <= max_len]
        if f:
            base.append(st.sampled_from(f))
        ch = st.sampled_from(alphabet[:6])
    else:
        base = [
            st.text('abcXYZ019', min_size=min_len, max_size=max_len),
            st.text(ASCII, min_size=min_len, max_size=max_len),
            st.text(SPECIAL + 'aZ9' + SPICE, min_size=min_len, max_size=max_len),
            st.text(st.characters(blacklist_categories=('Cs',)), min_size=min_len, max_size=max_len),
        ] + [x.filter(lambda s: len(s) >= min_len) for x in _dict_text(words)]
        ch = st.sampled_from('ax é😀%:')
    if big:
        base.append(st.tuples(ch, sizes(big)).map(lambda t: t[0] * max(t[1], min_len)))
    return st.one_of(*base)


@functools.lru_cache(maxsize=None)
def floats(lo, hi, extra=()):
    near = {lo, hi} | set(extra)
    import math
    for v in list(D_FLOATS) + list(F_FLOATS):
        for w in (v, math.nextafter(v, math.inf), math.nextafter(v, -math.inf)):
            near.add(w)
    near = sorted(v for v in near if lo <= v <= hi)
    alts = [st.sampled_from(near), st.floats(lo, hi, allow_nan=False, allow_infinity=False)]
    f = sorted({w for v in F_FLOATS for w in (v, math.nextafter(v, math.inf), math.nextafter(v, -math.inf))
                if lo <= w <= hi})
    if f:
        alts.append(st.sampled_from(f))
    return st.one_of(*alts)


MAX64 = 2 ** 64 - 1
MAX128 = 2 ** 128 - 1


@functools.lru_cache(maxsize=None)
def trace_ids():
    return st.one_of(ints(1, MAX64), ints(1, MAX128),
                     st.tuples(ints(0, MAX64), ints(0, MAX64)).map(lambda t: ((t[0] << 64) | t[1]) or 1))


@functools.lru_cache(maxsize=None)
def span_ids():
    return ints(1, MAX64)


@functools.lru_cache(maxsize=None)
def parent_ids():
    return st.one_of(st.none(), ints(1, MAX64))


@functools.lru_cache(maxsize=None)
def flags():
    return st.one_of(st.sampled_from([0, 1, 2, 3]), ints(0, 255))


@functools.lru_cache(maxsize=None)
def baggage_keys():
    # tokens usable as header names; lower-case because header names are case-insensitive
    return st.one_of(
        st.text('abcdefghijklmnopqrstuvwxyz0123456789-._', min_size=1, max_size=12),
        st.sampled_from([s.lower() for s in D_WORDS]),
        text(max_len=12, min_len=0).map(str.lower).filter(lambda s: s.lower() == s),
        *([st.sampled_from([s.lower() for s in F_STRS])] if F_STRS else []))


@functools.lru_cache(maxsize=None)
def baggage(max_items=5, big=3000, keys=None, values=None):
    values = values if values is not None else text(max_len=30, big=big)
    small = st.dictionaries(keys if keys is not None else baggage_keys(), values, max_size=max_items)
    cands = sorted(v for v in _neigh(D_INTS) if max_items < v <= 130)
    fr = sorted(v for v in _neigh(F_INTS) if 0 < v <= 400)
    many = st.tuples(st.sampled_from(cands or [8]), st.text('xyz', max_size=3)).map(
        lambda t: {'k%d' % i: t[1] + str(i) for i in range(t[0])})
    alts = [small, small, small, small, many]
    if fr:
        alts.append(st.sampled_from(fr).map(lambda n: {'k%d' % i: str(i) for i in range(n)}))
    return st.one_of(*alts)


@functools.lru_cache(maxsize=None)
def contexts(bg=None):
    """(trace_id, span_id, parent_id, flags, baggage)"""
    return st.tuples(trace_ids(), span_ids(), parent_ids(), flags(), bg if bg is not None else baggage(), st.integers(0, 31)).map(relate)


def relate(t):
    """Sometimes lets two of the ids coincide (the root span of a Zipkin trace has the id of the trace)."""
    tid, sid, pid, fl, bg, how = t
    low = tid & MAX64 or 1
    if how == 0:
        sid = low
    elif how == 5:
        pid = sid - 1 or None
    elif how == 6:
        pid = min(sid + 1, MAX64)
    elif how == 7:
        sid = min(low + 1, MAX64)
    elif how == 8:
        sid, pid = min(low + 1, MAX64), low
    elif how == 9:
        pid = sid ^ (1 << 63) or None
    elif how == 10:
        pid = max(low - 1, 0) or None
    elif how == 11:
        sid = low ^ (1 << 32) or 1
    elif how == 1:
        pid = low
    elif how == 2:
        pid = sid
    elif how == 3:
        sid = pid = low
    elif how == 4 and tid <= MAX64:
        tid |= tid << 64
    return tid, sid, pid, fl, bg


HUGE = sorted({2 ** b + d for b in (12, 13, 14, 15, 16, 17, 20) for d in (-1, 0, 1)} | {8000, 10000, 50000, 65507, 65515, 100000, 300000})


def huge():
    """(character, size of the first value, size of the first name, further items) for baggage() beyond what headers usually hold"""
    return st.tuples(st.sampled_from('ax é中😀%'), st.one_of(st.sampled_from(HUGE), st.integers(4000, 200000)),
                     st.one_of(st.integers(1, 3), st.integers(1, 3), st.sampled_from(HUGE[:18])),
                     st.one_of(st.integers(0, 3), st.sampled_from([255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 10000])))


def huge_baggage(spec):
    ch, v, k, n = spec
    if n > 3:
        v, k = min(v, 5000), min(k, 300)
    d = {'k' * k: ch * (v // len(ch.encode()))}
    for i in range(n):
        d['x%d' % i] = ch + str(i)
    return d


def mangle_case(s, bits):
    """Changes the case of ASCII letters only, driven by the bits of an integer."""
    out = []
    for ch in s:
        if ch.isascii() and ch.isalpha():
            out.append(ch.upper() if bits & 1 else ch.lower())
            bits >>= 1
        else:
            out.append(ch)
    return ''.join(out)


@functools.lru_cache(maxsize=None)
def op_names():
    return text(max_len=20, words=('op', 'GET /', 'a', ''), big=300)


if __name__ == '__main__':
    with open(BASELINE, 'w') as f:
        json.dump(dict(sorted(CUR.items())), f, indent=0, sort_keys=True, ensure_ascii=True)
        f.write('\n')


def settings(*fixed):
    """settings of a tracer that must not matter to what a check decides, as a dictionary of constructor arguments"""
    opts = {'generate_128bit_trace_id': st.booleans(), 'one_span_per_rpc': st.booleans(),
            'max_tag_value_length': st.sampled_from([1024, 5000, 100000]), 'max_traceback_length': st.sampled_from([0, 1, 4096, 100000]),
            'debug_id_header': st.sampled_from(['jaeger-debug-id', 'x-debug', 'X-Correlation-ID']),
            'trace_id_header': st.sampled_from(['uber-trace-id', 'x-trace', 'My-Trace-ID']),
            'baggage_header_prefix': st.sampled_from(['uberctx-', 'x-bag-', 'B'])}
    for k in fixed:
        del opts[k]
    return st.one_of(st.just({}), st.fixed_dictionaries({}, optional=opts))
