"""C10: per-operation sampling - own probability, own guaranteed lower bound, bounded number of operations."""
import json
from fractions import Fraction

from hypothesis import strategies as st
from .. import boot, gen, volume
from ..agent import Counters, FakeChannel, Response
from ..bucket import Bucket
from ..core import Test, check
from ..simloop import Sim
from jaeger_client.sampler import AdaptiveSampler, RemoteControlledSampler

PROP = 'C10'
RULE = ('histories of decisions (trace ids at and around the boundary of each rate), clock advances and strategy updates over several '
        'operations, directly and through the remote sampler, against one probability and one interval token bucket per operation; '
        'non-trivial: a lower-bound decision was observed both admitted and refused, or an update changed or kept a tracked '
        'operation, or the operation limit was reached')
ASSUMPTIONS = ['strategies are well formed (malformed ones are the subject of C11)',
               'operations tracked before an update that does not name them keep the rates they had']
env = boot.env
TYPE, PARAM = 'sampler.type', 'sampler.param'
DEFAULT_P, DEFAULT_LB = 0.001, 1.0 / 600.0     # documented defaults

RATES = st.one_of(st.sampled_from([0, 0.0, 1, 1.0, 0.5, 0.001, 0.25, 0.1, 2.0 ** -64, 2.0 ** -63, 1 - 2.0 ** -53, 0.999]),
                  st.floats(0, 1), gen.floats(0.0, 1.0))
BOUNDS = st.one_of(st.sampled_from([0, 0.0, 1, 1.0, 2, 0.5, 1.0 / 600, 0.001, 10, 3.5, 100, 0.1, 5]), st.floats(0, 20), gen.floats(0.0, 50.0))
OPS = ['a', 'b', 'c', '', 'op', 'd', 'GET /é', 'A']
OPN = st.one_of(st.sampled_from(OPS[:3]), st.sampled_from(OPS), gen.text(max_len=8, words=('a', 'op')))


@st.composite
def strategies(draw, few=None):
    ops = draw(st.lists(st.tuples(OPN, RATES), max_size=4, unique_by=lambda t: t[0]))
    dp = draw(st.one_of(RATES, RATES, st.none()))
    lb = draw(st.one_of(BOUNDS, BOUNDS, st.none()))
    return ops, dp, lb


def as_json(s):
    ops, dp, lb = s
    d = {'perOperationStrategies': [{'operation': o, 'probabilisticSampling': {'samplingRate': r}} for o, r in ops]}
    if dp is not None:
        d['defaultSamplingProbability'] = dp
    if lb is not None:
        d['defaultLowerBoundTracesPerSecond'] = lb
    return d


@st.composite
def cases(draw):
    via = draw(st.sampled_from(['direct', 'direct', 'remote']))
    maxops = draw(st.one_of(st.integers(1, 4), st.integers(0 if via == 'direct' else 1, 12), gen.sizes(150).map(lambda n: max(n, 1))))
    first = draw(strategies())
    ops = []
    cur = first
    for _ in range(draw(st.integers(1, 22))):
        k = draw(st.integers(0, 15))
        if k < 10:
            ops.append(('ask', draw(OPN), draw(st.sampled_from(['above', 'above', 'above', 'at', 'below', 'zero', 'max', 'wide', 'raw'])),
                        draw(gen.ints(0, 2 ** 64 - 1)), draw(st.sampled_from([1, 1, 1, 2, 3, 8]))))
        elif k < 13:
            ops.append(('wait', draw(st.one_of(st.sampled_from([0.125, 1.0, 600.0, 601.0, 10.0, 3600.0, 0.5]),
                                               st.integers(0, 1 << 13).map(lambda n: n / 64.0)))))
        elif k < 15:
            # updates often repeat part of the strategies in force
            new = draw(strategies())
            keep = draw(st.integers(0, 3))
            o, dp, lb = new
            if keep & 1:
                lb = cur[2]
                dp = cur[1] if keep & 2 else dp
            if keep:
                have = {x for x, _ in o}
                o = o + [t for t in cur[0] if t[0] not in have]
            near = draw(st.integers(0, 3)) == 0
            if near:
                # a bound close to the one in force
                old = DEFAULT_LB if cur[2] is None else cur[2]
                lb = draw(st.one_of(st.sampled_from([old * 2, old + 1 / 512.0, old * 1.25, old / 2, abs(old - 1 / 256.0), old + 0.25]),
                                    st.floats(0, 0.02).map(lambda d: old + d)))
            cur = (o, dp, lb)
            ops.append(('update', cur))
            if near:
                who = draw(OPN) if not o else draw(st.sampled_from([t[0] for t in o]))
                for _ in range(draw(st.integers(1, 3))):
                    ops.append(('due', who, draw(st.booleans())))
                    ops.append(('ask', who, 'above', draw(gen.ints(0, 2 ** 64 - 1)), draw(st.integers(1, 2))))
        else:
            ops.append(('many', draw(gen.sizes(60)), draw(st.integers(0, 3))))
    if draw(st.integers(0, 149)) == 0:
        # sizes of real deployments
        maxops = draw(st.sampled_from([150, 256, 1000, 1024, 2000, 2500]))
        ops.insert(draw(st.integers(0, len(ops))), ('many', draw(st.sampled_from([maxops - 1, maxops, maxops + 20])), draw(st.integers(0, 3))))
        ops.append(('many', 30, draw(st.integers(0, 3))))
    return via, maxops, first, ops, draw(st.lists(st.floats(0, 1, exclude_max=True), max_size=6))


class Model(object):
    def __init__(self, strat, maxops):
        self.maxops = maxops
        self.ops = {}
        self.apply(strat)

    def apply(self, strat):
        ops, dp, lb = strat
        self.dp = DEFAULT_P if dp is None else dp
        self.lb = DEFAULT_LB if lb is None else lb
        changed = set()
        for o, r in ops:
            have = self.ops.get(o)
            if have is None:
                self.ops[o] = [r, self.lb, Bucket(self.lb, max(self.lb, 1.0))]
            else:
                if have[1] != self.lb:
                    have[2].update(self.lb, max(self.lb, 1.0))
                have[0], have[1] = r, self.lb
                changed.add(o)
        return changed

    def rate(self, op):
        return self.ops[op][0] if op in self.ops else self.dp

    def ask(self, op, tid, got, what, c):
        dec, tags = got
        check(isinstance(dec, bool), '%s: decision is %r', what, dec)
        if op not in self.ops:
            if len(self.ops) >= self.maxops:
                want = tid & (2 ** 64 - 1) < Fraction(self.dp) * 2 ** 64
                c.hit('limit reached')
                check(dec == want, '%s: operation beyond the limit of %d: decision %r, default probability %r says %r',
                      what, self.maxops, dec, self.dp, want)
                if dec:
                    self._tags(tags, 'probabilistic', self.dp, what)
                return
            self.ops[op] = [self.dp, self.lb, Bucket(self.lb, max(self.lb, 1.0))]
            c.label('new operation')
        rate, lb, b = self.ops[op]
        if tid & (2 ** 64 - 1) < Fraction(rate) * 2 ** 64:
            check(dec, '%s: not sampled although probability %r admits it', what, rate)
            self._tags(tags, 'probabilistic', rate, what)
            # the lower bound is charged as well, whatever it answered
            b.tick()
            e = b.eps()
            if b.lo >= 1 + e:
                b.lo, b.hi = b.lo - 1, b.hi - 1
            elif b.hi >= 1 - e:
                b.lo, b.hi = 0.0, max(b.hi - 1, min(b.hi, 1.0))
            c.label('probability')
        else:
            b.request(1.0, dec, '%s: lower bound of %r' % (what, op))
            if dec:
                self._tags(tags, 'lowerbound', rate, what)
                self.yes = True
            else:
                self.no = True
            if getattr(self, 'yes', False) and getattr(self, 'no', False):
                c.hit('lower bound admitted and refused')

    def _tags(self, tags, typ, rate, what):
        check(tags.get(TYPE) == typ and tags.get(PARAM) == rate, '%s: tags %r, expected %s %r', what, tags, typ, rate)


def trace_id(rate, how, raw):
    b = int(Fraction(rate) * 2 ** 64)
    if how == 'at':
        v = b
    elif how == 'below':
        v = b - 1
    elif how == 'above':
        v = max(b, min(b + raw % (2 ** 64 - b + 1), 2 ** 64 - 1)) if b < 2 ** 64 else 2 ** 64 - 1
    elif how == 'zero':
        v = 0
    elif how == 'max':
        v = 2 ** 64 - 1
    elif how == 'wide':
        return (raw << 64) | max(0, min(b, 2 ** 64 - 1))
    else:
        v = raw
    return max(0, min(v, 2 ** 64 - 1))


def run(case, c):
    via, maxops, first, ops, fracs = case
    env.virtual = True
    env.rand_queue = list(fracs)
    if via == 'direct':
        s = AdaptiveSampler(as_json(first), maxops)
        m = Model(first, maxops)

        def advance(t):
            env.mono += t

        def update(strat):
            s.update(as_json(strat))
            return m.apply(strat)
        _steps(case, c, s, m, ops, advance, update)
        s.close()
        return
    with Sim() as sim:
        ch = FakeChannel(sim.io_loop)
        cnt = Counters()
        nxt = [first]
        box = []

        def answer(i, fut):
            if nxt:
                strat = nxt.pop()
                fut.set_result(Response(json.dumps({'strategyType': 'PROBABILISTIC', 'operationSampling': as_json(strat)})))
                if box:
                    box[0].apply(strat)
                else:
                    box.append(Model(strat, maxops))
            else:
                fut.set_exception(RuntimeError('no answer'))
        ch.on_sampling = answer
        env.rand_queue = [0.5] + list(fracs)
        s = RemoteControlledSampler(ch, 'svc', metrics_factory=cnt.factory, max_operations=maxops, sampling_refresh_interval=8.0)
        sim.advance(8.0)
        check(box, 'no sampling query within one refresh interval')

        def update(strat):
            before = set(box[0].ops)
            nxt.append(strat)
            sim.advance(8.0)
            check(not nxt, 'no sampling query within one refresh interval')
            return before & {o for o, _ in strat[0]}
        _steps(case, c, s, box[0], ops, sim.advance, update)
        check(cnt.get('jaeger:sampler_updates.result_err') == 0, 'valid strategies were counted as failed updates: %r', case)
        s.close()
        check(not sim.errors(), 'exception in the event loop: %r', sim.errors()[:1])


def _steps(case, c, s, m, ops, advance, update):
    for i, op in enumerate(ops):
        what = 'step %d %r of %r' % (i, op, case)
        if op[0] == 'ask':
            for _ in range(op[4]):
                tid = trace_id(m.rate(op[1]), op[2], op[3])
                m.ask(op[1], tid, s.is_sampled(tid, op[1]), what, c)
        elif op[0] == 'wait':
            advance(op[1])
        elif op[0] == 'due':
            # until just after (or just before) the operation has a whole credit
            if op[1] in m.ops:
                b = m.ops[op[1]][2]
                b.tick()
                need = 1.0 + 1e-4 - b.lo if op[2] else 1.0 - 1e-4 - b.hi
                if need > 0 and b.rate > 0 and need / b.rate < 4000:
                    advance(need / b.rate)
                    c.label('credit awaited')
        elif op[0] == 'update':
            if update(op[1]):
                c.hit('update of tracked operations')
        else:
            for k in range(op[1]):
                o = 'many%d-%d' % (op[2], k)
                tid = trace_id(m.rate(o), 'above', 5)
                m.ask(o, tid, s.is_sampled(tid, o), what, c)


TESTS = [Test('histories', cases, run, quick=16000, rule=RULE), volume.OPERATIONS]
