"""C08: probabilistic sampling is a threshold on the low 64 bits of the trace id."""
from fractions import Fraction
from hypothesis import strategies as st
from .. import boot, gen
from ..core import Test, check
from ..util import tracer
from jaeger_client.sampler import ProbabilisticSampler

PROP = 'C08'
RULE = ('rates (boundaries, powers of two, neighbours of code constants, subnormal, integer 0/1) with ids at, around and far from '
        'rate*2^64 and arbitrary high halves; compared in exact rational arithmetic; non-trivial: some id within 2^12 of the '
        'threshold or both answers occur for one rate')
ASSUMPTIONS = ['rates are ints or floats', 'ids strictly between the floor and the ceiling of a fractional product may go either way']
env = boot.env

RATES = st.one_of(
    gen.floats(0.0, 1.0, extra=(0.5, 0.25, 1e-9, 1e-300, 5e-324, 0.001, 0.999, 1 - 2 ** -53, 2 ** -64, 2 ** -63, 3 * 2.0 ** -65)),
    st.sampled_from([0, 1, 0.0, 1.0, -0.0]),
    st.integers(1, 66).map(lambda k: 2.0 ** -k),
    st.integers(0, 1000).map(lambda k: k / 1000.0),
    st.tuples(st.integers(0, 2 ** 53), st.integers(0, 20)).map(lambda t: min(1.0, t[0] / 2.0 ** (53 + t[1]))))

DELTA = st.one_of(st.integers(-3, 3), st.integers(-4096, 4096), st.integers(0, 63).map(lambda k: 2 ** k),
                  st.integers(0, 63).map(lambda k: -2 ** k))


@st.composite
def cases(draw):
    rate = draw(RATES)
    b = int(Fraction(rate) * 2 ** 64)
    ids = []
    for _ in range(draw(st.integers(1, 8))):
        if draw(st.booleans()):
            low = b + draw(DELTA)
            low = min(max(low, 0), gen.MAX64)
        else:
            low = draw(gen.ints(0, gen.MAX64))
        ids.append(((draw(st.one_of(st.just(0), gen.ints(0, gen.MAX64))) << 64) | low))
    return rate, draw(RATES), ids, draw(gen.op_names()), draw(gen.ints(0, gen.MAX64))


def run(case, c):
    rate, other, ids, op, high = case
    s = ProbabilisticSampler(rate)
    lo, hi = sorted((rate, other))
    s_lo, s_hi = ProbabilisticSampler(lo), ProbabilisticSampler(hi)
    prod = Fraction(rate) * 2 ** 64
    answers = set()
    first = {}
    for i in ids:
        low = i & gen.MAX64
        got, tags = s.is_sampled(i)
        check(got is True or got is False, 'decision %r is not a boolean', got)
        want = low < prod
        if not (low != prod and abs(low - prod) < 1):
            check(got == want, 'rate %r, id %x: sampled %r, threshold %s', rate, i, got, prod)
        check(tags == {'sampler.type': 'probabilistic', 'sampler.param': rate} and
              type(tags['sampler.param']) is type(rate) and str(tags['sampler.param']) == str(rate),
              'tags %r for rate %r', tags, rate)
        for j, o in ((i, op), (low, ''), ((high << 64) | low, 'x')):
            check(s.is_sampled(j, o)[0] == got, 'decision for low half %x changed with the high half, the operation or time', low)
        check(s.is_sampled(trace_id=i, operation=op)[0] == got, 'keyword call differs')
        if s_lo.is_sampled(i)[0]:
            check(s_hi.is_sampled(i)[0], 'id %x sampled at %r but not at %r', i, lo, hi)
        if rate == 1:
            check(got, 'rate 1 did not sample %x', i)
        if rate == 0:
            check(not got, 'rate 0 sampled %x', i)
        answers.add(got)
        first[low] = got
        if abs(low - prod) <= 4096:
            c.hit('near')
    for low, got in first.items():
        check(s.is_sampled(low)[0] == got, 'decision for %x changed over time', low)
    if len(answers) == 2:
        c.hit('both')
    if len(set(ids)) and max(ids) >> 64:
        c.label('wide_ids')


@st.composite
def root_cases(draw):
    return draw(RATES), draw(st.booleans()), draw(st.lists(gen.ints(0, gen.MAX128), min_size=1, max_size=6))


def run_root(case, c):
    rate, wide, bits = case
    env.bits_queue = list(bits)
    tr = tracer(sampler=ProbabilisticSampler(rate), generate_128bit_trace_id=wide)
    prod = Fraction(rate) * 2 ** 64
    res = set()
    for _ in range(4):
        sp = tr.start_span('op')
        low = sp.trace_id & gen.MAX64
        if not (low != prod and abs(low - prod) < 1):
            check(sp.is_sampled() == (low < prod), 'root with trace id %x sampled %r at rate %r', sp.trace_id, sp.is_sampled(), rate)
        res.add(sp.is_sampled())
    if len(res) == 2:
        c.hit('both')
    if wide:
        c.hit('wide')


BAD = st.one_of(st.floats(allow_nan=True).filter(lambda x: not 0 <= x <= 1),
                st.sampled_from([-1, 2, -1e-9, 1.0000000001, 1 + 2 ** -52, float('inf'), float('-inf'), float('nan'), -5e-324, 10 ** 400,
                                 -10 ** 400, 100, 50]),
                gen.ints(2, 2 ** 70), gen.ints(2, 2 ** 70).map(lambda i: -i))


def run_bad(case, c):
    c.hit('bad')
    try:
        s = ProbabilisticSampler(case)
    except Exception:
        return
    check(False, 'rate %r accepted as %s', case, s)


TESTS = [Test('threshold', cases, run, quick=30000), Test('roots', root_cases, run_root, quick=6000),
         Test('reject', lambda: BAD, run_bad, quick=3000)]
