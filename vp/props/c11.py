"""C11: a remotely controlled sampler survives any agent response and keeps the last good strategy."""
import copy
import json
import math
from fractions import Fraction

from hypothesis import strategies as st
from .. import boot, gen, sched, volume
from ..agent import Counters, FakeChannel, Response
from ..bucket import Bucket
from ..core import Injected, Test, check
from ..simloop import Sim
from .c10 import Model as PerOp, trace_id, RATES, BOUNDS, OPN, as_json, strategies
from jaeger_client.sampler import ConstSampler, ProbabilisticSampler, RateLimitingSampler, RemoteControlledSampler

PROP = 'C11'
RULE = ('scripted agents: each poll gets a valid strategy, a mutated strategy, junk, an undecodable body, an error or nothing, at once, '
        'late or out of order; decisions are compared with a model of the last valid strategy; non-trivial: a decision was checked after '
        'an unusable answer that followed or preceded a valid one')
ASSUMPTIONS = ['answers that omit optional-looking fields, give booleans as numbers or name an operation twice may be accepted or refused',
               'strategies use the JSON field names of the Jaeger agent']
env = boot.env
QOK, QERR = 'jaeger:sampler_queries.result_ok', 'jaeger:sampler_queries.result_err'
UOK, UERR = 'jaeger:sampler_updates.result_ok', 'jaeger:sampler_updates.result_err'
TYPE, PARAM = 'sampler.type', 'sampler.param'

MTPS = st.one_of(st.sampled_from([0, 1, 2, 0.5, 10, 499, 499.999, 100, 1.5, 0.1, 3]), st.integers(0, 499), st.floats(0, 499.5))
JUNK = st.one_of(
    st.sampled_from([None, True, False, 0, 1, -1, 2, 0.5, -0.1, 1.0000001, 500, 501, 1e9, 10 ** 30, 10 ** 400, -10 ** 30, 'abc', '', '0.5', [],
                     [1], {}, {'a': 1}, float('nan'), float('inf'), float('-inf'), 'PROBABILISTIC', 'RATE_LIMITING', [[]], [None], [{}], 1e-320,
                     -1e-9, {'samplingRate': 0.5}, '\x00']),
    gen.ints(-5, 10 ** 6), st.floats(allow_nan=True, allow_infinity=True), gen.text(max_len=6)).map(copy.deepcopy)


@st.composite
def valid_doc(draw):
    k = draw(st.integers(0, 5))
    extra = draw(st.booleans())
    if k < 2:
        d = {'strategyType': 'PROBABILISTIC', 'probabilisticSampling': {'samplingRate': draw(RATES)}}
    elif k < 4:
        d = {'strategyType': 'RATE_LIMITING', 'rateLimitingSampling': {'maxTracesPerSecond': draw(MTPS)}}
    else:
        ops, dp, lb = draw(strategies())
        d = {'strategyType': draw(st.sampled_from(['PROBABILISTIC', 'RATE_LIMITING'])),
             'operationSampling': as_json((ops, draw(RATES) if dp is None else dp, draw(BOUNDS) if lb is None else lb))}
        if draw(st.booleans()):
            d['probabilisticSampling'] = {'samplingRate': draw(RATES)}
    if extra:
        d['x'] = draw(JUNK)
    for k in ('operationSampling', 'probabilisticSampling', 'rateLimitingSampling'):
        if k not in d and draw(st.integers(0, 5)) == 0:
            d[k] = None
    return d


def paths(d, pre=()):
    out = []
    if isinstance(d, dict):
        for k in d:
            out.append(pre + (k,))
            out.extend(paths(d[k], pre + (k,)))
    elif isinstance(d, list):
        for i in range(len(d)):
            out.append(pre + (i,))
            out.extend(paths(d[i], pre + (i,)))
    return out


NUMBERS = (10 ** 400, 10 ** 309, -10 ** 400, 2 ** 1024, 10 ** 30, -1, -1e-320, 1e308, float('inf'), float('nan'), float('-inf'), True, '0.5', None,
           1.0000000000000002, 500, 500.00000000000006, [0.5], {'samplingRate': 0.5})


def at(d, path):
    for k in path:
        d = d[k]
    return d


@st.composite
def mutated_doc(draw):
    d = copy.deepcopy(draw(valid_doc()))
    numbers = [p for p in paths(d) if number(at(d, p))]
    if numbers and draw(st.integers(0, 2)) == 0:
        # one number of an otherwise valid document
        p = draw(st.sampled_from(numbers))
        at(d, p[:-1])[p[-1]] = copy.deepcopy(draw(st.sampled_from(NUMBERS)))
        return d
    for _ in range(draw(st.sampled_from([1, 1, 1, 2]))):
        ps = paths(d)
        if not ps:
            break
        p = draw(st.sampled_from(ps))
        o = d
        for k in p[:-1]:
            o = o[k]
        act = draw(st.integers(0, 5))
        if act == 0:
            del o[p[-1]]
        elif act == 1 and isinstance(o, list):
            o.append(draw(JUNK))
        else:
            o[p[-1]] = draw(JUNK)
    return d


@st.composite
def answers(draw):
    delay = draw(st.sampled_from([0, 0, 0, 0, 0.25, 3.0, 4.5, 9.0, None]))
    k = draw(st.integers(0, 19))
    if k < 8:
        a = ('doc', draw(valid_doc()))
    elif k < 14:
        a = ('doc', draw(mutated_doc()))
    elif k < 15:
        a = ('doc', draw(JUNK))
    elif k < 17:
        body = json.dumps(draw(valid_doc()))
        cut = draw(st.integers(0, len(body)))
        a = ('raw', draw(st.sampled_from([b'', '', None, 5, b'\xff\xfe', b'{"strategyType": "\xff"}', 'null', b'[', '{', '{}', b'{}', b'\x00',
                                         '<html>', body[:cut], body[:cut].encode(), body + 'x', '\ufeff' + body, '[' * 3000,
                                         ('\ufeff' + body).encode(), b'NaN', '"a"', b'\xc3\x28', b'\xed\xa0\x80'])))
    elif k < 18:
        a = ('sync',)
    else:
        a = ('exc',)
    return (delay, draw(st.booleans())) + a


@st.composite
def cases(draw):
    init = draw(st.sampled_from(['none', 'none', 'const1', 'const0', 'prob', 'rate']))
    maxops = draw(st.sampled_from([1, 2, 3, 2000, None]))
    script = draw(st.lists(answers(), min_size=1, max_size=7))
    ops = []
    for _ in range(draw(st.integers(1, 16))):
        k = draw(st.integers(0, 9))
        if k < 6:
            ops.append(('ask', draw(OPN), draw(st.sampled_from(['above', 'above', 'at', 'below', 'zero', 'max', 'raw'])),
                        draw(gen.ints(0, 2 ** 64 - 1)), draw(st.sampled_from([1, 1, 2, 6]))))
        else:
            ops.append(('wait', draw(st.sampled_from([0.0, 0.25, 1.0, 2.0, 4.0, 4.0, 8.0, 13.0]))))
    close = draw(st.one_of(st.none(), st.none(), st.integers(0, len(ops))))
    if close is not None:
        ops.insert(close, ('close',))
        ops.append(('ask', 'a', 'above', 3, 2))
    return init, maxops, script, ops, draw(st.lists(st.floats(0, 1, exclude_max=True), max_size=4))


# --- what an answer means -----------------------------------------------------------------------
def number(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def rng(v, hi, open_end=False):
    """'ok', 'bad' or 'maybe' for a number required to be in [0, hi] or [0, hi)"""
    if v is None or isinstance(v, bool):
        return 'maybe'
    if not number(v):
        return 'bad'
    if isinstance(v, float) and math.isnan(v):
        return 'bad'
    return 'ok' if 0 <= v and (v < hi if open_end else v <= hi) else 'bad'


def judge(d):
    """('valid', state) | ('bad',) | ('maybe',)"""
    if not isinstance(d, dict):
        return ('bad',)
    o = d.get('operationSampling')
    if o is not None:
        if not o:
            return ('maybe',)
        if not isinstance(o, dict):
            return ('bad',)
        res = []
        for key, hi in (('defaultSamplingProbability', 1), ('defaultLowerBoundTracesPerSecond', None)):
            if key not in o:
                res.append('maybe')
            elif hi is None:
                res.append(rng(o[key], math.inf, True))
                if number(o[key]) and o[key] > 1e300:
                    res.append('bad' if o[key] == math.inf or o[key] > 1.7e308 else 'maybe')
            else:
                res.append(rng(o[key], hi))
        ops = []
        per = o.get('perOperationStrategies')
        if per is None:
            res.append('maybe')
        elif not isinstance(per, list):
            res.append('bad' if per and not isinstance(per, (dict, str)) else 'maybe')
            if isinstance(per, (dict, str)) and per:
                res[-1] = 'bad'
        else:
            for s in per:
                if not isinstance(s, dict):
                    res.append('bad')
                    continue
                name = s.get('operation')
                res.append('ok' if isinstance(name, str) else 'maybe')
                p = s.get('probabilisticSampling')
                if isinstance(p, dict) and 'samplingRate' in p:
                    res.append(rng(p['samplingRate'], 1))
                    ops.append((name, p['samplingRate']))
                else:
                    res.append('bad' if p and not isinstance(p, dict) else 'maybe')
            names = [repr(n) for n, _ in ops]
            if len(set(names)) != len(names):
                res.append('maybe')
        if 'bad' in res:
            return ('bad',)
        if 'maybe' in res:
            return ('maybe',)
        return ('valid', ('perop', (ops, o['defaultSamplingProbability'], o['defaultLowerBoundTracesPerSecond'])))
    t = d.get('strategyType')
    if t == 'PROBABILISTIC':
        p = d.get('probabilisticSampling')
        if isinstance(p, dict) and 'samplingRate' in p:
            r = rng(p['samplingRate'], 1)
            return ('valid', ('prob', p['samplingRate'])) if r == 'ok' else (r,)
        return ('bad',) if p and not isinstance(p, dict) else ('maybe',)
    if t == 'RATE_LIMITING':
        p = d.get('rateLimitingSampling')
        if isinstance(p, dict) and 'maxTracesPerSecond' in p:
            r = rng(p['maxTracesPerSecond'], 500, True)
            return ('valid', ('rate', p['maxTracesPerSecond'])) if r == 'ok' else (r,)
        return ('bad',) if p and not isinstance(p, dict) else ('maybe',)
    return ('bad',)


def judge_body(body):
    """As judge, plus ('nonjson',)"""
    if isinstance(body, bytes):
        try:
            body = body.decode('utf-8')
        except UnicodeDecodeError:
            return ('nonjson',)
    try:
        d = json.loads(body)
    except Exception:
        return ('nonjson',)
    return judge(d)


class Model(object):
    def __init__(self, state, maxops):
        self.maxops = maxops
        self.state = None
        self.updates = [0, 0]       # least and most updates to be counted
        self.only = None
        self.set(state)
        self.updates = [0, 0]

    def set(self, st_):
        kind = st_[0]
        old = self.state
        if kind != 'perop':
            # counted when the strategy changed, possibly when it did not
            self.updates[1] += 1
            if old and old[0] != 'unknown' and (old[0] != kind or old[1] != st_[1]):
                self.updates[0] += 1
        if kind == 'rate':
            if old and old[0] == 'rate':
                if old[1] != st_[1]:
                    old[2].update(st_[1], max(st_[1], 1.0))
                self.state = ('rate', st_[1], old[2])
            else:
                self.state = ('rate', st_[1], Bucket(st_[1], max(st_[1], 1.0)))
        elif kind == 'perop':
            self.updates[0] += 1
            self.updates[1] += 1
            if old and old[0] == 'perop':
                old[1].apply(st_[1])
                if self.only is not None:
                    self.only |= {o for o, _ in st_[1][0]}
            else:
                self.state = ('perop', PerOp(st_[1], self.maxops))
                # a leniently accepted answer before may have left operations behind that this one does not name
                self.only = {o for o, _ in st_[1][0]} if old and old[0] == 'unknown' else None
        else:
            self.state = st_

    def rate(self, op):
        s = self.state
        return s[1] if s[0] == 'prob' else s[1].rate(op) if s[0] == 'perop' else 0.5

    def ask(self, op, tid, got, what, c):
        dec, tags = got
        check(dec is True or dec is False, '%s: decision is %r', what, dec)
        check(isinstance(tags, dict), '%s: sampler tags are %r', what, tags)
        s = self.state
        if s[0] == 'unknown':
            return
        if s[0] == 'const':
            check(dec == s[1], '%s: decision %r of the initial sampler', what, dec)
        elif s[0] == 'prob':
            want = tid & (2 ** 64 - 1) < Fraction(s[1]) * 2 ** 64
            check(dec == want, '%s: decision %r, probability %r says %r', what, dec, s[1], want)
            if dec:
                check(tags.get(TYPE) == 'probabilistic' and tags.get(PARAM) == s[1], '%s: tags %r', what, tags)
        elif s[0] == 'rate':
            s[2].request(1.0, dec, what)
            if dec:
                check(tags.get(TYPE) == 'ratelimiting' and tags.get(PARAM) == s[1], '%s: tags %r', what, tags)
        elif self.only is None or op in self.only:
            s[1].ask(op, tid, got, what, c)


def run(case, c):
    init, maxops, script, ops, fracs = case
    with Sim() as sim:
        ch = FakeChannel(sim.io_loop)
        cnt = Counters()
        script = list(script)
        env.rand_queue = list(fracs)
        kw = {}
        state = ('prob', 0.001)
        if init == 'const1':
            kw['init_sampler'], state = ConstSampler(True), ('const', True)
        elif init == 'const0':
            kw['init_sampler'], state = ConstSampler(False), ('const', False)
        elif init == 'prob':
            kw['init_sampler'], state = ProbabilisticSampler(0.75), ('prob', 0.75)
        elif init == 'rate':
            kw['init_sampler'], state = RateLimitingSampler(2), ('rate', 2)
        if maxops is not None:
            kw['max_operations'] = maxops
        m = Model(state, maxops or 2000)
        ev = {'ok': 0, 'err': 0, 'uerr': 0, 'either': 0, 'closed': False, 'bad': 0, 'valid': 0, 'maybe': 0, 'umay': 0}
        inner = ch.request_sampling_strategy

        def request(service_name, timeout=None):
            check(service_name == 'svc', 'query for service %r', service_name)
            i = len(ch.sampling)
            if i < len(script) and script[i][2] == 'sync':
                ch.sampling.append((env.mono, service_name, None))
                ev['err'] += 1
                ev['bad'] += 1
                raise Injected('query %d cannot be sent' % i)
            return inner(service_name, timeout)
        ch.request_sampling_strategy = request

        def resolve(i, fut):
            delay, as_bytes, kind = script[i][:3]
            if kind == 'exc':
                ev['err'] += 1
                ev['bad'] += 1
                fut.set_exception(Injected('answer %d failed' % i))
                return
            if kind == 'doc':
                body = json.dumps(script[i][3])
                try:
                    json.loads(body)
                    j = judge(script[i][3])
                    odd = 'NaN' in body or 'Infinity' in body
                except ValueError:
                    j, odd = ('nonjson',), False
                body = body.encode() if as_bytes else body
            else:
                body = script[i][3]
                j, odd = judge_body(body), False
            if ev['closed']:
                m.state = ('unknown',)
                ev['either'] += 1
                ev['umay'] += 1
            elif j[0] == 'nonjson':
                ev['err'] += 1
                ev['bad'] += 1
            elif j[0] == 'bad':
                ev['bad'] += 1
                if odd:
                    ev['either'] += 1
                    ev['umay'] += 1
                else:
                    ev['ok'] += 1
                    ev['uerr'] += 1
            elif j[0] == 'maybe':
                ev['either' if odd else 'ok'] += 1
                ev['umay'] += 1
                m.state = ('unknown',)
                ev['maybe'] += 1
            else:
                ev['either' if odd else 'ok'] += 1
                ev['valid'] += 1
                m.set(j[1])
            fut.set_result(Response(body))

        def on_query(i, fut):
            if i >= len(script):
                return
            delay = script[i][0]
            if delay is None:
                return
            if delay == 0:
                resolve(i, fut)
            else:
                sim.io_loop.call_later(delay, resolve, i, fut)
        ch.on_sampling = on_query
        t0 = env.mono
        if fracs:
            # the harness does not know how many random numbers the start takes; leave the rest to buckets
            env.rand_queue = list(fracs)
        s = RemoteControlledSampler(ch, 'svc', metrics_factory=cnt.factory, sampling_refresh_interval=4.0, **kw)
        sim.settle()
        closed_at = None
        for i, op in enumerate(ops):
            what = 'step %d %r of %r' % (i, op, case)
            if op[0] == 'wait':
                sim.advance(op[1])
            elif op[0] == 'close':
                s.close()
                ev['closed'] = True
                closed_at = env.mono
            else:
                for _ in range(op[4]):
                    if m.state[0] == 'unknown':
                        tid = op[3]
                    else:
                        r = m.rate(op[1])
                        tid = trace_id(r, op[2], op[3])
                    m.ask(op[1], tid, s.is_sampled(tid, op[1]), what, c)
                if ev['bad'] and ev['valid']:
                    c.hit('decision after a good and an unusable answer')
                elif ev['bad']:
                    c.hit('decision after an unusable answer')
                elif ev['valid']:
                    c.hit('decision after a valid answer (%s)' % m.state[0])
            got = (cnt.get(QOK), cnt.get(QERR), cnt.get(UERR))
            check(got[0] + got[1] == ev['ok'] + ev['err'] + ev['either'] and got[0] >= ev['ok'] and got[1] >= ev['err'],
                  '%s: queries counted %r ok, %r failed; answered: %r', what, got[0], got[1], ev)
            check(ev['uerr'] <= got[2] <= ev['uerr'] + ev['umay'], '%s: %d failed updates counted; answered: %r', what, got[2], ev)
            check(m.updates[0] <= cnt.get(UOK) <= m.updates[1] + ev['umay'], '%s: %d updates counted, expected %r; answered: %r', what,
                  cnt.get(UOK), m.updates, ev)
            check(not sim.errors(), '%s: exception in the event loop: %r', what, sim.errors()[:1])
        end = closed_at if closed_at is not None else env.mono
        times = [t - t0 for t, _, _ in ch.sampling]
        check(all(t <= end - t0 for t in times), 'queries at %r, closed at %r: %r', times, end - t0, case)
        if end - t0 > 4.0 + 1e-6:
            check(times and times[0] <= 4.0 + 1e-6, 'first query at %r with a refresh interval of 4 s', times[:1])
        if times:
            for a, b in zip(times, times[1:]):
                check(abs(b - a - 4.0) < 1e-3, 'queries at %r with a refresh interval of 4 s: %r', times, case)
            check(end - t0 - times[-1] <= 4.0 + 1e-3, 'last query at %r, now %r, refresh interval 4 s: %r', times[-1], end - t0, case)
        if ev['maybe']:
            c.label('lenient answer')
        if closed_at is not None:
            c.label('closed')
        s.close()


# --- decisions concurrent with an update ----------------------------------------------------------
@st.composite
def races(draw):
    docs = [draw(valid_doc()) for _ in range(2)]
    if draw(st.booleans()):
        docs = [{'strategyType': 'PROBABILISTIC', 'operationSampling': as_json(([('a', 0.0)], 0.0, float(draw(st.integers(1, 3)))))}
                for _ in range(2)]
    threads = draw(st.lists(st.lists(st.sampled_from(['a', 'b', 'n']), min_size=1, max_size=3), min_size=1, max_size=2))
    return docs, threads, draw(st.booleans()), draw(sched.plans(st, 500, 6))


def run_race(case, c):
    docs, threads, update, plan = case
    with Sim() as sim:
        ch = FakeChannel(sim.io_loop)
        cnt = Counters()
        env.rand_queue = [0.5]
        ch.on_sampling = lambda i, fut: fut.set_result(Response(json.dumps(docs[min(i, 1)])))
        s = RemoteControlledSampler(ch, 'svc', metrics_factory=cnt.factory, sampling_refresh_interval=4.0, max_operations=2)
        env.rand_queue = [0.999] * 50
        sim.advance(4.0)
        check(cnt.get(QOK) == 1, 'no query within one refresh interval')
        got = []

        def decide(ops):
            def f():
                for o in ops:
                    dec, tags = s.is_sampled(2 ** 64 - 1, o)
                    got.append((o, dec, dict(tags)))
            return f

        def loop():
            sim.advance(4.0)
        sc = sched.Sched(plan)
        sc.run([decide(t) for t in threads] + ([loop] if update else []))
        check(cnt.get(UERR) == 0, 'a valid strategy was counted as a failed update: %r', case)
        for o, dec, tags in got:
            check(dec is True or dec is False, 'decision is %r: %r', dec, case)
        st1, st2 = judge(docs[0])[1], judge(docs[1])[1]
        if not update:
            # frozen clock: no operation gets more than its own burst, new operations are tracked once
            if st1[0] == 'perop':
                ops, dp, lb = st1[1]
                rates = dict(ops)
                for o in 'abn':
                    n = sum(1 for x, dec, t in got if x == o and dec and t.get(TYPE) == 'lowerbound')
                    check(n <= max(lb, 1.0), '%d lower-bound decisions at one instant for %r with a bound of %r: %r', n, o, lb, case)
            elif st1[0] == 'rate':
                n = sum(1 for x, dec, t in got if dec)
                check(n <= max(st1[1], 1.0), '%d decisions at one instant with a rate limit of %r: %r', n, st1[1], case)
        else:
            kinds = {'prob': {'probabilistic'}, 'rate': {'ratelimiting'}, 'perop': {'probabilistic', 'lowerbound'}}
            for o, dec, tags in got:
                if dec:
                    check(tags.get(TYPE) in kinds[st1[0]] | kinds[st2[0]], 'decision tagged %r under %r then %r', tags, st1, st2)
            m = Model(st2, 2)
            if st2[0] == 'prob' or (st2[0] == 'perop' and st1[0] != 'perop'):
                tid = 2 ** 64 - 1
                dec, tags = s.is_sampled(tid, 'a')
                if st2[0] == 'prob':
                    m.ask('a', tid, (dec, tags), 'after the update in %r' % (case,), c)
        if sc.preempted_mid:
            c.hit('interleaved with %s' % ('an update' if update else 'each other'))
        check(not sim.errors(), 'exception in the event loop: %r', sim.errors()[:1])
        s.close()


# --- every decision is made entirely under one strategy -------------------------------------------
SMALL = st.sampled_from([0.0, 1.0, 0.5, 0.25])


@st.composite
def small_doc(draw):
    if draw(st.integers(0, 3)):
        ops = draw(st.lists(st.tuples(st.sampled_from(['a', 'b', 'c']), SMALL), max_size=3, unique_by=lambda t: t[0]))
        return {'strategyType': 'PROBABILISTIC', 'operationSampling': as_json((ops, draw(SMALL), draw(st.sampled_from([0.0, 1.0, 2.0, 3.0]))))}
    return draw(st.sampled_from([{'strategyType': 'PROBABILISTIC', 'probabilisticSampling': {'samplingRate': 0.5}},
                                 {'strategyType': 'RATE_LIMITING', 'rateLimitingSampling': {'maxTracesPerSecond': 2}},
                                 {'strategyType': 'RATE_LIMITING', 'rateLimitingSampling': {'maxTracesPerSecond': 3}},
                                 {'strategyType': 'NONE'}, []]))


ASK = st.tuples(st.sampled_from(['a', 'b', 'c', 'n']), st.sampled_from([2 ** 64 - 1, 2 ** 64 - 1, 0, 2 ** 62, 2 ** 63]))


@st.composite
def linear_cases(draw):
    return ([draw(small_doc()) for _ in range(2)], draw(st.sampled_from([1, 2, 3, 2000])), draw(st.lists(ASK, max_size=2)),
            draw(st.lists(st.lists(ASK, min_size=1, max_size=3), min_size=1, max_size=2)), draw(st.lists(ASK, min_size=1, max_size=5)),
            draw(sched.plans(st, 500, 6)))


def _merges(a, b):
    if not a or not b:
        yield list(a) + list(b)
        return
    for rest in _merges(a[1:], b):
        yield [a[0]] + rest
    for rest in _merges(a, b[1:]):
        yield [b[0]] + rest


def orders(threads):
    """Every order of all events that keeps the order within each thread; the thread -1 only updates."""
    seqs = [[(k, i) for i in range(len(t))] for k, t in enumerate(threads)] + [[(-1, 0)]]
    out = [seqs[0]]
    for q in seqs[1:]:
        out = [m for o in out for m in _merges(o, q)]
    return out


def _play(case, plan, order=None):
    docs, maxops, pre, threads, probes, _ = case
    with Sim() as sim:
        ch = FakeChannel(sim.io_loop)
        cnt = Counters()
        env.rand_queue = [0.5]
        held = []
        ch.on_sampling = lambda i, fut: held.append(fut)
        s = RemoteControlledSampler(ch, 'svc', metrics_factory=cnt.factory, sampling_refresh_interval=4.0, max_operations=maxops)
        env.rand_queue = [0.999] * 60
        sim.advance(4.0)
        check(len(held) == 1, 'no query within one refresh interval')
        held[0].set_result(Response(json.dumps(docs[0])))
        sim.advance(4.0)
        check(len(held) == 2, 'no second query within one refresh interval')

        def ask(a):
            return s.is_sampled(a[1], a[0])

        def update():
            held[1].set_result(Response(json.dumps(docs[1])))
            sim.settle()
        for a in pre:
            ask(a)
        seen, done = {}, []
        mid = 0
        if order is None:
            def asker(k, t):
                def f():
                    for i, a in enumerate(t):
                        seen[(k, i)] = ask(a)
                        done.append((k, i))
                return f

            def up():
                update()
                done.append((-1, 0))
            sc = sched.Sched(plan)
            sc.run([asker(k, t) for k, t in enumerate(threads)] + [up])
            mid = sc.preempted_mid
        else:
            for k, i in order:
                if k < 0:
                    update()
                else:
                    seen[(k, i)] = ask(threads[k][i])
        after = [ask(a) for a in probes]
        check(not sim.errors(), 'exception in the event loop: %r', sim.errors()[:1])
        s.close()
        got = ({k: (v[0], dict(v[1])) for k, v in seen.items()}, [(v[0], dict(v[1])) for v in after], dict(cnt.c))
        return got, done, mid


def run_linear(case, c):
    got, done, mid = _play(case, case[5])
    for order in [done] + orders(case[3]):
        if _play(case, None, order)[0] == got:
            break
    else:
        check(False, 'decisions %r, then %r: no order of the calls and the update gives these, e.g. one after the other: %r', got[0], got[1],
              _play(case, None, done)[0])
    if mid:
        c.hit('an update between decisions')


# --- strategies in Thrift form --------------------------------------------------------------------
@st.composite
def thrift_cases(draw):
    """(type, rate or None, traces per second or None, trace ids, times between)"""
    typ = draw(st.one_of(st.sampled_from([0, 1]), st.sampled_from([0, 1]), st.sampled_from([0, 1, 2, -1, None, 7])))
    rate = draw(st.one_of(st.none(), RATES, st.floats(allow_nan=True, allow_infinity=True),
                          st.sampled_from([0.0, 1.0, -0.0, 1.0000000000000002, -5e-324, 5e-324, 2.0, float('nan')])))
    mtps = draw(st.one_of(st.none(), st.integers(0, 499), st.sampled_from([0, 1, 499, 500, 501, -1, 32767, -32768]), st.integers(-32768, 32767)))
    if draw(st.integers(0, 2)):
        rate, mtps = (rate, None) if typ == 0 else (None, mtps)
    return typ, rate, mtps, draw(st.booleans()),         draw(st.lists(st.tuples(st.sampled_from(['above', 'at', 'below', 'zero', 'max', 'raw']), gen.ints(0, 2 ** 64 - 1),
                                st.sampled_from([0.0, 0.0, 0.25, 1.0, 10.0])), min_size=1, max_size=6)), draw(st.floats(0, 1, exclude_max=True))


def run_thrift(case, c):
    from jaeger_client import thrift
    from jaeger_client.thrift_gen.sampling import SamplingManager as sm
    from thrift.protocol import TCompactProtocol
    from thrift.transport import TTransport
    typ, rate, mtps, wire, asks, frac = case
    env.virtual = True
    env.rand_queue = [frac]
    r = sm.SamplingStrategyResponse(strategyType=typ)
    if rate is not None:
        r.probabilisticSampling = sm.ProbabilisticSamplingStrategy(samplingRate=rate)
    if mtps is not None:
        r.rateLimitingSampling = sm.RateLimitingSamplingStrategy(maxTracesPerSecond=mtps)
    if wire and typ is not None:
        t = TTransport.TMemoryBuffer()
        r.write(TCompactProtocol.TCompactProtocol(t))
        r = sm.SamplingStrategyResponse()
        r.read(TCompactProtocol.TCompactProtocol(TTransport.TMemoryBuffer(t.getvalue())))
    got = thrift.parse_sampling_strategy(r)
    check(isinstance(got, tuple) and len(got) == 2, 'answer is %r', got)
    sampler, err = got
    state = None
    if typ == 0 and rate is not None and 0 <= rate <= 1:
        state = ('prob', rate)
    elif typ == 1 and mtps is not None and 0 <= mtps < 500:
        state = ('rate', mtps)
    if state is None:
        check(sampler is None and isinstance(err, str) and err, 'the unusable strategy %r gives %r', case, got)
        c.hit('refused')
        return
    check(sampler is not None and err is None, 'the strategy %r gives %r', case, got)
    m = Model(state, 1)
    for i, (kind, raw, wait) in enumerate(asks):
        tid = trace_id(m.rate('a'), kind, raw)
        m.ask('a', tid, sampler.is_sampled(tid, 'a'), 'ask %d of %r' % (i, case), c)
        env.mono += wait
    c.hit(state[0])


TESTS = [
    Test('thrift', thrift_cases, run_thrift, quick=3000, rule='sampling strategy responses of the Thrift interface, built or read from the '
         'wire, with rates in and out of range and the other kind of strategy present too; the sampler made decides as the strategy says'),
    Test('histories', cases, run, quick=16000, rule=RULE),
    Test('linear', linear_cases, run_linear, quick=3000,
         rule='threads asking while an answer arrives, under generated schedules: the decisions, those after and the counters are those of '
              'some order of the calls'),
    Test('races', races, run_race, quick=4000, rule=RULE),
    volume.SAMPLER_POLLS,
]
