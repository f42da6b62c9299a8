"""C18: debug-span credits are conserved under any responses, call order and concurrency; requests are complete and periodic."""
import copy
import json
import math
from fractions import Fraction
from hypothesis import strategies as st
from .. import boot, gen, sched, volume
from ..agent import Counters, FakeChannel, Response
from ..core import Injected, Test, check
from ..simloop import Sim
from ..util import tracer, ConstSampler, SpanContext
from jaeger_client.throttler import RemoteThrottler

PROP = 'C18'
RULE = ('scripted agents answer each credit request with well-formed credits, malformed or partial ones, junk, an error or nothing, at '
        'once, late or out of order, while operations are asked for, also through a tracer; a credit book per operation decides; threads '
        'with bytecode switches share operations and race with a response; non-trivial: an operation was asked for after credits came')
ASSUMPTIONS = ['a malformed response may have its well-formed entries applied or not',
               'entries with extra fields are well-formed; numeric strings and booleans as balances may be accepted or refused']
env = boot.env
REFUSED = 'jaeger:throttled_debug_spans'
UOK, UERR = 'jaeger:throttler_update.result_ok', 'jaeger:throttler_update.result_err'
OPN = st.one_of(st.sampled_from(['a', 'b', 'a', 'b', 'c', 'A', '', 'credits']), gen.text(10))
BAL = st.one_of(st.sampled_from([0, 1, 2, 3, 0.5, 0.25, 0.75, 1.5, 1.0, 5, 10, 0.125]), st.integers(0, 40).map(lambda n: n / 8.0),
                st.sampled_from([1000, 1500, 101, 2 ** 40]))
JUNK = st.sampled_from([None, True, -1, -0.5, 'x', '', [], {}, [1], {'a': 1}, float('nan'), float('inf'), float('-inf'), 10 ** 400, '2', '1.5',
                        [[]], [None], {'balances': []}]).map(copy.deepcopy)
RAW = st.sampled_from([b'', '', None, 5, b'\xff\xfe', 'null', '[', '{', '{}', b'{}', '[]', '"balances"', '<html>', b'NaN', '[' * 3000, 'true'])


@st.composite
def docs(draw, names=OPN):
    bal = [{'operation': draw(names), 'balance': draw(BAL)} for _ in range(draw(st.integers(0, 4)))]
    d = {'balances': bal}
    if draw(st.integers(0, 3)) == 0:
        d['x'] = draw(JUNK)
        for b in bal[:1]:
            b['extra'] = 1
    return d


@st.composite
def bad_docs(draw, names=OPN):
    d = draw(docs(names))
    bal = d['balances']
    k = draw(st.integers(0, 5))
    if not bal or k == 0:
        j = draw(JUNK)
        return draw(st.sampled_from([j, {'balances': j}, {'balance': bal}, [d], {}]))
    i = draw(st.integers(0, len(bal) - 1))
    if k == 1:
        del bal[i][draw(st.sampled_from(['operation', 'balance']))]
    elif k == 2:
        bal[i] = draw(JUNK)
    elif k == 3 and draw(st.booleans()):
        bal[i]['operation'] = draw(JUNK)
    else:
        bal[i]['balance'] = draw(JUNK)
    return d


@st.composite
def answers(draw, names):
    delay = draw(st.sampled_from([0, 0, 0, 0.5, 4.5, 9.0, 13.0, None]))
    k = draw(st.integers(0, 15))
    if k < 9:
        a = ('doc', draw(docs(names)))
    elif k < 12:
        a = ('doc', draw(bad_docs(names)))
    elif k < 13:
        a = ('raw', draw(RAW))
    elif k < 14:
        a = ('exc',)
    else:
        a = ('sync',)
    return (delay, draw(st.booleans())) + a


@st.composite
def cases(draw):
    service = draw(st.one_of(st.just('svc'), gen.text(8)))
    interval = draw(st.sampled_from([4.0, 4.0, 1.0, 0.5, 60.0, 7.5]))
    via = draw(st.sampled_from(['direct', 'direct', 'tracer']))
    vocabulary = draw(st.lists(OPN, min_size=1, max_size=3))
    names = st.one_of(st.sampled_from(vocabulary), st.sampled_from(vocabulary), st.sampled_from(vocabulary), OPN)
    script = draw(st.lists(answers(names), min_size=1, max_size=7))
    ops = [('ask', vocabulary[0], 1)]
    for _ in range(draw(st.integers(1, 18))):
        if draw(st.integers(0, 9)) < 6:
            ops.append(('ask', draw(names), draw(st.sampled_from([1, 1, 1, 2, 4]))))
        else:
            ops.append(('wait', draw(st.sampled_from([0.0, 0.25, 0.5, 1.0, 1.0, 2.0, 3.3]))))
    if draw(st.integers(0, 39)) == 0:
        ops.insert(draw(st.integers(0, len(ops))), ('many', draw(st.sampled_from([20, 60, 130, 260, 520, 1100]))))
    close = draw(st.one_of(st.none(), st.none(), st.integers(0, len(ops))))
    if close is not None:
        ops.insert(close, ('close',))
        ops.append(('wait', 3.0))
        ops.append(('ask', 'a', 2))
    return service, interval, via, draw(st.sampled_from([None, 0, 1, 2 ** 63 - 1, 77])), script, ops, \
        draw(st.lists(st.floats(0, 1, exclude_max=True), max_size=3))


def entry(b):
    """(verdict, operation, credits) of one entry of a response"""
    if not isinstance(b, dict) or 'operation' not in b or 'balance' not in b:
        return 'bad', None, 0
    op, v = b['operation'], b['balance']
    if isinstance(v, (bool, str)):
        try:
            f = float(v)
            return ('maybe' if 0 <= f < math.inf and not isinstance(op, (dict, list)) else 'bad'), op, f
        except ValueError:
            return 'bad', op, 0
    if not isinstance(v, (int, float)):
        return 'bad', op, 0
    if not 0 <= v < 1e300:         # NaN is not either
        return 'bad', op, 0
    if isinstance(op, (dict, list)):
        return 'bad', op, 0
    return ('ok' if isinstance(op, str) else 'maybe'), op, v


class Book(object):
    """credits per operation as an interval [lo, hi]"""

    def __init__(self):
        self.lo = {}
        self.hi = {}

    def add(self, op, v, sure):
        v = Fraction(v)
        if sure:
            self.lo[op] = self.lo.get(op, 0) + v
        self.hi[op] = self.hi.get(op, 0) + v

    def ask(self, op, got, what):
        lo, hi = self.lo.get(op, 0), self.hi.get(op, 0)
        check(got is True or got is False, '%s: answer is %r', what, got)
        if got:
            check(hi >= 1, '%s: allowed with only %s credits left', what, hi)
            self.lo[op], self.hi[op] = max(lo, 1) - 1, hi - 1
        else:
            check(lo < 1, '%s: refused with %s credits left', what, lo)
            self.hi[op] = min(hi, Fraction(999999, 1000000))
            self.hi[op] = max(self.hi[op], lo)


def run(case, c):
    service, interval, via, client, script, ops, fracs = case
    with Sim() as sim:
        ch = FakeChannel(sim.io_loop)
        cnt = Counters()
        ev = {'ok': 0, 'err': 0, 'may': 0, 'refused': 0, 'closed': False}
        book = Book()
        asked = {}            # operation -> time first asked
        known = set()         # operations named by responses
        inner = ch.request_throttling_credits
        t0 = env.mono
        closed_at = [None]

        def request(service_name, client_id, operations, timeout=None):
            i = len(ch.credits)
            check(closed_at[0] is None, 'credits requested after close: %r', case)
            check(service_name == service and client_id == want_id, 'request for %r, %r; expected %r, %r', service_name, client_id, service, want_id)
            operations = list(operations)
            check(len(set(operations)) == len(operations), 'operations %r', operations)
            must = set(asked)
            check(must <= set(operations), 'request for %r, asked so far: %r: %r', operations, must, case)
            check(set(operations) <= must | known, 'request for %r, known: %r: %r', operations, must | known, case)
            if i < len(script) and script[i][2] == 'sync':
                ch.credits.append((env.mono, service_name, client_id, operations, None))
                ev['err'] += 1
                raise Injected('request %d cannot be sent' % i)
            return inner(service_name, client_id, operations, timeout)
        ch.request_throttling_credits = request

        def resolve(i, fut):
            kind = script[i][2]
            if kind == 'exc':
                ev['err'] += 1
                fut.set_exception(Injected('answer %d' % i))
                return
            doc = None
            if kind == 'doc':
                body = json.dumps(script[i][3])
                try:
                    doc = json.loads(body)
                except ValueError:       # integers beyond the limit of the parser
                    doc = None
                body = body.encode() if script[i][1] else body
            else:
                body = script[i][3]
            b = doc.get('balances') if isinstance(doc, dict) else None
            odd = kind == 'doc' and ('NaN' in str(body) or 'Infinity' in str(body))
            es = [entry(x) for x in b] if isinstance(b, list) else None
            if es is None:
                lenient = isinstance(doc, dict) and 'balances' in doc and doc['balances'] in ({}, '')
                ev['may' if lenient else 'err'] += 1
            else:
                verdicts = [e[0] for e in es]
                if 'bad' in verdicts:
                    sure = False
                    ev['err'] += 1
                elif 'maybe' in verdicts or odd:
                    sure = False
                    ev['may'] += 1
                else:
                    sure = not ev['closed']
                    ev['may' if ev['closed'] else 'ok'] += 1
                for v, op, n in es:
                    if v != 'bad':
                        try:
                            book.add(op, n, sure)
                        except TypeError:
                            continue
                    if not isinstance(op, (dict, list)):
                        known.add(op)
                    c.label('credits came' if sure else 'partial response')
            fut.set_result(Response(body))

        def on_request(i, fut):
            if i < len(script) and script[i][0] is not None:
                if script[i][0] == 0:
                    resolve(i, fut)
                else:
                    sim.io_loop.call_later(script[i][0], resolve, i, fut)
        ch.on_credits = on_request
        env.rand_queue = list(fracs)
        th = RemoteThrottler(ch, service, refresh_interval=interval, metrics_factory=cnt.factory)
        if client is not None:
            th.set_client_id(client)
        tr = None
        want_id = client
        if via == 'tracer':
            tr = tracer(sampler=ConstSampler(False), throttler=th)
            if client is None:
                want_id = tr.tags['client-uuid']
        sim.settle()

        def ask(op, n):
            if tr is None:
                return th.is_allowed(op)
            if n % 2:
                s = tr.start_span(op or None, child_of=SpanContext.with_debug_id('d'))
            else:
                s = tr.start_span(op)
                s.set_tag('sampling.priority', 1)
            check(s.is_debug() == s.is_sampled(), 'debug %r, sampled %r', s.is_debug(), s.is_sampled())
            return s.is_debug()
        n = 0
        for i, op in enumerate(ops):
            what = 'step %d %r of %r' % (i, op, case)
            if op[0] == 'wait':
                sim.advance(op[1] * interval)
            elif op[0] == 'many':
                for j in range(op[1]):
                    name = 'm%d' % j
                    asked.setdefault(name, env.mono)
                    got = ask(name, n)
                    n += 1
                    book.ask(name, got, what)
                    if not got:
                        ev['refused'] += 1
                c.label('many operations')
            elif op[0] == 'close':
                th.close() if tr is None else tr.close()
                closed_at[0] = env.mono
                ev['closed'] = True
            else:
                for _ in range(op[2]):
                    asked.setdefault(op[1], env.mono)
                    got = ask(op[1], n)
                    n += 1
                    book.ask(op[1], got, what)
                    if not got:
                        ev['refused'] += 1
                    if ev['ok']:
                        c.hit('allowed after credits came' if got else 'refused after credits came')
            check(cnt.get(REFUSED) == ev['refused'], '%s: %d refusals counted, %d made', what, cnt.get(REFUSED), ev['refused'])
            ok, err = cnt.get(UOK), cnt.get(UERR)
            check(ok + err == ev['ok'] + ev['err'] + ev['may'] and ok >= ev['ok'] and err >= ev['err'],
                  '%s: updates counted %d ok, %d failed; answered %r', what, ok, err, ev)
            check(not sim.errors(), '%s: exception in the event loop: %r', what, sim.errors()[:1])
        end = closed_at[0] if closed_at[0] is not None else env.mono
        times = [x[0] - t0 for x in ch.credits]
        eps = 1e-3
        first = min(asked.values()) - t0 if asked else None
        if first is not None and end - t0 - first > interval + eps:
            check(times and times[0] <= first + interval + eps, 'operation first seen at %r, first request at %r, interval %r: %r', first, times[:1],
                  interval, case)
        for a, b in zip(times, times[1:]):
            check(abs(b - a - interval) < eps, 'requests at %r with a refresh interval of %r: %r', times, interval, case)
        if times:
            check(end - t0 - times[-1] <= interval + eps, 'last request at %r, now %r: %r', times[-1], end - t0, case)
        if closed_at[0] is not None:
            c.label('closed')
        # what is left must still be usable
        for op in sorted(asked)[:30]:
            left = int(book.lo.get(op, 0))
            for _ in range(left + 2 if tr is None and 40 < left <= 4000 else 40):
                n += 1
                g = ask(op, n)
                book.ask(op, g, 'draining %r of %r' % (op, case))
                if not g:
                    break
        th.close()


# --- threads ---------------------------------------------------------------------------------------------
@st.composite
def races(draw):
    threads = draw(st.lists(st.lists(st.sampled_from(['a', 'a', 'b', 'new']), min_size=1, max_size=4), min_size=2, max_size=3))
    pre = {o: draw(st.integers(0, 3)) / draw(st.sampled_from([1, 2])) for o in 'ab'}
    late = {o: draw(st.integers(0, 3)) / draw(st.sampled_from([1, 2])) for o in ('a', 'b', 'new')}
    return threads, pre, late, draw(st.sampled_from(['none', 'update', 'update', 'close'])), draw(sched.plans(st, 300, 8))


def run_race(case, c):
    threads, pre, late, mode, plan = case
    with Sim() as sim:
        ch = FakeChannel(sim.io_loop)
        cnt = Counters()
        env.rand_queue = [0.5]
        th = RemoteThrottler(ch, 'svc', refresh_interval=4.0, metrics_factory=cnt.factory)
        give = [[pre], [late]]
        seen = []

        def on_request(i, fut):
            seen.append(set(ch.credits[-1][3]))
            if i < 2:
                fut.set_result(Response(json.dumps({'balances': [{'operation': o, 'balance': b} for g in give[i] for o, b in g.items()]})))
        ch.on_credits = on_request
        th.set_client_id(5)
        for o in 'ab':
            th.is_allowed(o)
        sim.advance(3.9)
        check(len(ch.credits) == 1, 'no credit request after half an interval: %r', case)
        results = []
        finished = []

        def ask(ops):
            def f():
                for o in ops:
                    results.append((o, th.is_allowed(o)))
                    finished.append(o)
            return f

        def loop():
            before = set(finished)
            sim.advance(4.0)
            if mode == 'update' and len(seen) > 1:
                check(before | {'a', 'b'} <= seen[1], 'request for %r, known before: %r: %r', seen[1], before, case)

        def close():
            th.close()
            sim.advance(4.0)
            sim.advance(4.0)
        extra = {'none': [], 'update': [loop], 'close': [close]}[mode]
        s = sched.Sched(plan)
        s.run([ask(t) for t in threads] + extra)
        check(not sim.errors(), 'exception in the event loop: %r', sim.errors()[:1])
        refused = 2 + sum(not g for o, g in results)
        check(cnt.get(REFUSED) == refused, '%d refusals counted, %d made: %r', cnt.get(REFUSED), refused, case)
        updated = cnt.get(UOK) == 2
        if mode == 'update':
            check(updated, 'second response was not applied: %r', case)
        for o in ('a', 'b', 'new'):
            total = pre.get(o, 0) + (late[o] if updated else 0)
            asks = sum(x == o for x, g in results)
            got = sum(x == o and g for x, g in results)
            check(got <= total, '%d debug spans of %r allowed with %r credits: %r', got, o, total, case)
            if mode == 'none':
                check(got == min(asks, int(pre.get(o, 0))), '%d of %d debug spans of %r allowed with %r credits: %r', got, asks, o, pre.get(o, 0), case)
            left = 0
            while left < 50 and th.is_allowed(o):
                left += 1
            check(got + left == int(total), '%d debug spans of %r allowed, then %d more, with %r credits: %r', got, o, left, total, case)
        if s.preempted_mid:
            c.hit('interleaved, %s' % mode)
        th.close()


TESTS = [
    Test('histories', cases, run, quick=14000, rule=RULE),
    Test('races', races, run_race, quick=6000, rule=RULE),
    volume.CREDIT_POLLS,
]
