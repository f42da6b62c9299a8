"""C29: nothing recorded is retained - memory stays bounded however long a tracer is used."""
import asyncio
import contextvars
import gc
import json
import logging
import sys
import threading
import time
import tracemalloc

from hypothesis import strategies as st
from opentracing.scope_managers import ThreadLocalScopeManager
from opentracing.scope_managers.asyncio import AsyncioScopeManager
from opentracing.scope_managers.contextvars import ContextVarsScopeManager
from tornado.concurrent import Future
from .. import boot, gen
from ..agent import FakeChannel, Response
from ..core import Injected, Test, check
from ..simloop import Sim
from ..util import FORMATS, NETTAGS
from jaeger_client import Config, ConstSampler, ProbabilisticSampler, RateLimitingSampler, SpanContext, Tracer
from jaeger_client.codecs import B3Codec
from jaeger_client.metrics import LegacyMetricsFactory, Metrics, MetricsFactory
from jaeger_client.reporter import CompositeReporter, LoggingReporter, NullReporter, Reporter
from jaeger_client.sampler import AdaptiveSampler, RemoteControlledSampler
from jaeger_client.throttler import RemoteThrottler
from jaeger_client.utils import ErrorReporter
from opentracing import Format, Reference, ReferenceType

PROP = 'C29'
RULE = ('rounds of generated operations (spans, scopes, hops in every format, corrupted headers, failing and hanging sends, polls, debug spans, '
        'threads, whole tracers built and closed), every round with new names, ids and values; non-trivial: memory was measured after at '
        'least 30 rounds')
ASSUMPTIONS = ['operation names subject to remote throttling come from a fixed set', 'reporters that keep spans by design are not used']
env = boot.env
WARM, MORE, SLACK = 24, 24, 24
BLOCKS = (150, 400, 1500, 4000, 1000, 1000, 4000)
ENOUGH, CPU = 1000, 24
NAMES = ['a', 'b', 'GET /']
KINDS = ['root', 'root', 'child', 'active', 'left', 'hop', 'hop', 'corrupt', 'text', 'baggage', 'debug', 'priority', 'lost', 'twice', 'names', 'refs',
         'fail', 'poison', 'hang', 'burst', 'wait', 'poll', 'thread', 'raise', 'hostile', 'decide', 'task', 'chain', 'hold']


class Bad(object):
    def __str__(self):
        raise Injected('str')


class Quiet(logging.Handler):
    def emit(self, record):
        record.getMessage()


@st.composite
def cases(draw):
    conf = {'sampler': draw(st.sampled_from(['on', 'on', 'off', 'half', 'rate', 'adaptive', 'remote', 'remote'])),
            'throttler': draw(st.sampled_from([None, None, 'remote'])),
            'reporter': draw(st.sampled_from(['remote', 'remote', 'remote', 'both', 'null', 'small', 'noflush'])),
            'scopes': draw(st.sampled_from([None, None, 'contextvars', 'asyncio'])),
            'b3': draw(st.booleans()), 'errors': draw(st.booleans()), 'settings': draw(gen.settings())}
    ops = draw(st.lists(st.tuples(st.sampled_from(KINDS), st.integers(0, 5), st.booleans()), min_size=1, max_size=7))
    return conf, ops


class World(object):
    """One tracer with everything around it, and operations whose round number makes all their values new."""

    def __init__(self, sim, conf, c, big=64):
        self.sim, self.conf, self.c = sim, conf, c
        self.ch = FakeChannel(sim.io_loop)
        self.ch.send_fault = lambda n: self.fault() if self.fault else None
        self.ch.on_sampling, self.ch.on_credits = self.on_sampling, self.on_credits
        self.fault = None
        self.r = 0
        self.hung = []
        self.last = self.scope = None
        log = logging.getLogger('vp.c29')
        log.propagate = False
        log.setLevel(logging.INFO)
        log.handlers[:] = [Quiet()]
        er = ErrorReporter(Metrics(), log, log_interval_minutes=0) if conf['errors'] else None
        mf = LegacyMetricsFactory(Metrics(count=lambda k, v: None, gauge=lambda k, v: None)) if conf['errors'] else MetricsFactory()
        s = conf['sampler']
        sampler = {'on': lambda: ConstSampler(True), 'off': lambda: ConstSampler(False), 'half': lambda: ProbabilisticSampler(0.5),
                   'rate': lambda: RateLimitingSampler(20), 'adaptive': lambda: AdaptiveSampler(self.strategy(), 6),
                   'remote': lambda: RemoteControlledSampler(self.ch, 'svc', metrics_factory=mf, error_reporter=er, max_operations=6,
                                                             sampling_refresh_interval=4.0)}[s]()
        self.sampler = sampler
        thr = RemoteThrottler(self.ch, 'svc', refresh_interval=4.0, metrics_factory=mf, **({'error_reporter': er} if er else {})) if conf['throttler'] else None
        self.batch = 1 if conf['reporter'] == 'noflush' else 3
        rep = Reporter(self.ch, queue_capacity=4 if conf['reporter'] == 'small' else 50, batch_size=self.batch,
                       flush_interval=0 if conf['reporter'] == 'noflush' else 0.25, metrics_factory=mf, error_reporter=er)
        self.rep = rep
        send = rep._send

        def slow(batch):
            if not self.slow:
                return send(batch)
            f = Future()
            self.hung.append(f)
            return f
        self.slow = False
        rep._send = slow
        if conf['reporter'] == 'both':
            rep = CompositeReporter(LoggingReporter(log), CompositeReporter(rep, NullReporter()))
        elif conf['reporter'] == 'null':
            rep = NullReporter()
        sm = {None: lambda: None, 'contextvars': ContextVarsScopeManager, 'asyncio': AsyncioScopeManager}[conf['scopes']]()
        extra = {Format.HTTP_HEADERS: B3Codec(generate_128bit_trace_id=True)} if conf['b3'] else None
        self.tr = Tracer('svc', rep, sampler, throttler=thr, scope_manager=sm, extra_codecs=extra, tags=dict(NETTAGS), metrics_factory=mf, **conf['settings'])

    def strategy(self):
        r = getattr(self, 'r', 0)
        return {'defaultSamplingProbability': 0.5 + (r % 1000) / 4000.0, 'defaultLowerBoundTracesPerSecond': 1.0 + (r % 997) / 500.0,
                'perOperationStrategies': [{'operation': o, 'probabilisticSampling': {'samplingRate': (r * k % 1013) / 1013.0}}
                                           for k, o in enumerate(NAMES, 3)]}

    def on_sampling(self, i, fut):
        r = self.r
        if r % 5 == 4:
            fut.set_exception(Injected('no answer %d' % r))
        elif r % 5 == 3:
            fut.set_result(Response('not json %d' % r))
        elif r % 5 == 2:
            fut.set_result(Response(json.dumps({'strategyType': 'RATE_LIMITING', 'rateLimitingSampling': {'maxTracesPerSecond': r % 400}})))
        elif r % 5 == 1:
            fut.set_result(Response(json.dumps({'strategyType': 'PROBABILISTIC', 'probabilisticSampling': {'samplingRate': (r % 100) / 100.0}})))
        else:
            fut.set_result(Response(json.dumps({'strategyType': 'PROBABILISTIC', 'operationSampling': self.strategy()})))

    def on_credits(self, i, fut):
        if self.r % 3 == 2:
            fut.set_exception(Injected('no answer %d' % self.r))
        else:
            fut.set_result(Response(json.dumps({'balances': [{'operation': o, 'balance': 2.0 + self.r % 7} for o in NAMES]})))

    def close(self):
        self.tr.close()
        self.rep.close()
        self.sim.advance(1.0)

    def drop(self):
        """What the fake agent keeps."""
        ch = self.ch
        del ch.datagrams[:], ch.attempts[:], ch.sampling[:], ch.credits[:]

    def round(self, ops):
        self.r += 1
        for i, op in enumerate(ops):
            self.op(op, '%d-%d' % (self.r, i), self.r * 16 + i)
        self.fault = None
        for f in self.hung:
            f.set_exception(Injected('late'))
        del self.hung[:]
        self.slow = False
        self.sim.advance(0.5)
        self.sim.steps = 0
        self.drop()

    def op(self, op, u, n):
        kind, k, yes = op
        tr, sim = self.tr, self.sim
        name = NAMES[k % 3]
        if kind == 'root':
            s = tr.start_span(name, tags={'t' + u: u * 9, 'n': n * 1.5, 'i': n, 'b': yes})
            for j in range(k):
                s.set_tag('k%d%s' % (j, u), u)
            s.log_kv({'event': u, 'at' + u: n}, *([1000.0 + n] if yes else []))
            s.set_operation_name(name if self.conf['throttler'] else 'op' + u)
            s.finish(*([env.wall() + n] if k & 1 else []))
        elif kind == 'child':
            s = tr.start_span(name)
            chain = [s]
            for j in range(k + 1):
                chain.append(tr.start_span(name, child_of=chain[-1] if yes else chain[-1].context))
            for s in chain if k & 1 else reversed(chain):
                s.finish()
        elif kind in ('active', 'left', 'task'):
            def use():
                scopes = [tr.start_active_span(name, finish_on_close=yes, tags={'x' + u: u}) for _ in range(k % 4 + 1)]
                for sc in scopes:
                    sc.span.set_baggage_item('b' + u, u)
                for sc in reversed(scopes):
                    if kind == 'left':
                        sc.span.finish()       # the scope is abandoned with its thread or context
                    else:
                        sc.close()
                assert kind == 'left' or tr.active_span is None
            if kind == 'active' and self.conf['scopes'] != 'asyncio':
                contextvars.copy_context().run(use)
            elif kind == 'task' or self.conf['scopes'] == 'asyncio':
                if self.conf['scopes'] is None and kind == 'left':
                    return

                async def main():
                    use()
                    await asyncio.sleep(0)
                sim.io_loop.add_callback(lambda: asyncio.ensure_future(main()))
                sim.settle()
            elif self.conf['scopes'] is None:
                t = threading.Thread(target=use)
                t.start()
                t.join()
            else:
                contextvars.copy_context().run(use)
        elif kind == 'thread':
            def work():
                with tr.start_active_span(name) as sc:
                    sc.span.set_tag('t' + u, u)
            if self.conf['scopes'] == 'asyncio':
                return
            t = threading.Thread(target=work)
            t.start()
            t.join()
        elif kind == 'hop':
            f = list(FORMATS.values())[k % 4]
            s = tr.start_span(name)
            for j in range(3 if yes else 1):
                s.set_baggage_item('k%d-%s' % (j, u), u * 7)
            car = bytearray() if f == Format.BINARY else {'h' + u: u}
            tr.inject(s.context if yes else s, f, car)
            x = tr.extract(f, car)
            y = tr.start_span(name, child_of=x)
            y.finish()
            s.finish()
        elif kind == 'corrupt':
            f = list(FORMATS.values())[k % 4]
            if f == Format.BINARY:
                car = bytearray(u.encode() * (k + 1))
            elif k == 3:
                car = {'span_id': n}
            else:
                car = {'uber-trace-id': u * 3, 'x-b3-traceid': 'z' + u, 'x-b3-spanid': u, 'uberctx-' + u: u}
            try:
                tr.extract(f, car)
            except Exception:
                pass
            try:
                tr.inject(tr.start_span(name), 'format' + u, {})
            except Exception:
                pass
        elif kind == 'text':
            car = {'uber-trace-id': '%x:%x:0:%x' % (n + (n << 70 if yes else 0), n + 1, k % 4), 'uberctx-' + u: u, 'UberCtx-B' + u: 'v' + u,
                   'jaeger-baggage': 'a%s=%s,b=2' % (u, u), 'X-B3-TraceId': '%x' % n, 'X-B3-SpanId': '%x' % (n + 1), 'x-b3-sampled': '1'}
            x = tr.extract(Format.HTTP_HEADERS if k & 1 else Format.TEXT_MAP, car)
            s = tr.start_span(name, child_of=x)
            out = {}
            tr.inject(s, Format.HTTP_HEADERS if k & 2 else Format.TEXT_MAP, out)
            repr(s)
            s.finish()
        elif kind == 'baggage':
            s = tr.start_span(name)
            kid = tr.start_span(name, child_of=s)
            for j in range(k + 1):
                s.set_baggage_item('x%s-%d' % (u, j), u * 5)
                kid.set_baggage_item('x%s-%d' % (u, 0), None if yes else u)
                s.get_baggage_item('y%s' % u)
            kid.finish()
            s.finish()
        elif kind == 'debug':
            s = tr.start_span(name, child_of=SpanContext.with_debug_id('dbg' + u))
            s.finish()
        elif kind == 'priority':
            s = tr.start_span(name)
            s.set_tag('sampling.priority', k if yes else 0)
            s.set_tag('sampling.priority', 'x' + u)
            s.finish()
        elif kind == 'lost':
            s = tr.start_span(name, tags={'t' + u: u})
            s.log_kv({'l' + u: u * 20})
        elif kind == 'twice':
            s = tr.start_span(name)
            for _ in range(k + 1):
                s.finish()
            s.set_tag('late' + u, u).log_kv({'late': u})
            s.set_baggage_item('late' + u, u)
        elif kind == 'names':
            for j in range(k + 1):
                tr.start_span('op%s-%d' % (u, j)).finish()
        elif kind == 'refs':
            a, b = tr.start_span(name), tr.start_span(name)
            s = tr.start_span(name, references=[Reference(ReferenceType.FOLLOWS_FROM, a.context), Reference(ReferenceType.CHILD_OF, b.context)])
            for x in (s, b, a):
                x.finish()
        elif kind == 'fail':
            self.fault = (lambda: OSError('send ' + u)) if yes else (lambda: Injected('send ' + u))
            for _ in range(k + 1):
                tr.start_span(name, tags={'t': u}).finish()
            sim.advance(0.5)
            self.fault = None
        elif kind == 'poison':
            s = tr.start_span(name, start_time=float('nan') if yes else 1e30)
            s.finish()
            tr.start_span(name).finish()
        elif kind == 'hang':
            self.slow = True
            for _ in range(k + 1):
                tr.start_span(name, tags={'t': u}).finish()
            sim.advance(0.5)
        elif kind == 'burst':
            for j in range(12 * (k + 1)):
                tr.start_span(name, tags={'t': u}).finish()
        elif kind == 'wait':
            sim.advance(k / 4.0)
        elif kind == 'poll':
            sim.advance(4.0)
        elif kind == 'raise':
            try:
                with tr.start_span(name):
                    raise Injected('app ' + u)
            except Injected:
                pass
        elif kind == 'chain':
            # a long-lived line of work: every step follows the one before, which is then done with
            old = self.last
            if old is not None and k == 1:
                s = tr.start_span(name, references=Reference(ReferenceType.FOLLOWS_FROM, old.context))
            else:
                s = tr.start_span(name, child_of=old if old is None or yes else old.context)
            if k & 2:
                s.set_baggage_item('same', u)
            if k & 4:
                car = {}
                tr.inject(s, Format.TEXT_MAP, car)
                s = tr.start_span(name, child_of=tr.extract(Format.TEXT_MAP, car))
            s.finish()
            self.last = s
        elif kind == 'hold':
            # one span for as long as the process runs
            if self.scope is None:
                self.scope = tr.start_span(name, child_of=SpanContext(1, 2, 0, 0))
            self.scope.set_tag('t' + u, u).log_kv({'l' + u: u})
            self.scope.set_baggage_item('b', u)
            tr.start_span(name, child_of=self.scope).finish()
        elif kind == 'hostile':
            s = tr.start_span(name, tags={'t' + u: Bad(), n: b'\xff' + u.encode()})
            s.log_kv({'x': 10 ** (20 + k), 'y': object(), 'z' + u: float('inf')})
            s.set_baggage_item('n' + u, 'v')
            s.finish()
        elif kind == 'decide':
            for j in range(k + 1):
                self.sampler.is_sampled(n << 60 | j, NAMES[j % 3] if self.conf['throttler'] or yes else 'op%s-%d' % (u, j))
        else:
            raise AssertionError(kind)


def used():
    gc.collect()
    return tracemalloc.get_traced_memory()[0]


def grows(step, c):
    """Whether a few more rounds add memory."""
    tracemalloc.start()
    try:
        for _ in range(WARM):
            step()
        a = used()
        for _ in range(MORE):
            step()
        c.hit('measured')
        return used() - a > SLACK * MORE
    finally:
        tracemalloc.stop()


def blocks():
    gc.collect()
    return sys.getallocatedblocks()


def bounded(step, c, what, until):
    """A warming cache, or a leak: a leak goes on.  step() runs one more round; until: CPU time at which to stop."""
    c.label('long run')
    total = last = 0
    for n in BLOCKS:
        a = blocks()
        for k in range(n):
            step()
            if time.process_time() > until:
                break
        total += k + 1
        last = (blocks() - a) / (k + 1)
        if k > 100 and last < 0.2:
            return
        c.label('run of %d' % n)
        if time.process_time() > until:
            break
    if total < ENOUGH:
        c.label('undecided')
        return
    check(False, 'after %d rounds every further round still adds %.1f objects that are never released: %s', total, last, what)


def run(case, c):
    conf, ops = case
    with Sim() as sim:
        w = World(sim, conf, c)
        sim.settle()
        if grows(lambda: w.round(ops), c):
            # one kind of work alone runs further
            cached = False
            until = time.process_time() + CPU
            for some in [[op] for op in sorted(set(ops))] + [ops]:
                if cached and some is ops:
                    break      # what one of them alone adds has an end
                w.close()
                w = World(sim, conf, c)
                if grows(lambda: w.round(some), c):
                    cached = True
                    bounded(lambda: w.round(some), c, '%r of %r' % (some, case), until)
        for kind, _, _ in ops:
            c.label(kind)
        c.label('sampler ' + conf['sampler'])
        w.close()
        sim.advance(1.0)
        errs = [e for e in sim.errors() if not isinstance(e, Injected)]
        check(not errs, 'exception escaped into the event loop: %r', errs[:1])


LIVES = st.tuples(st.sampled_from(['direct', 'direct', 'config']), st.sampled_from(['on', 'off', 'remote', 'adaptive', 'rate']),
                  st.sampled_from(['remote', 'both', 'null', 'small']), st.sampled_from([None, None, 'remote']),
                  st.sampled_from([None, 'contextvars', 'asyncio']), st.lists(st.tuples(st.sampled_from(['root', 'child', 'hop', 'debug', 'poll', 'fail', 'hang', 'burst', 'twice']),
                                                                               st.integers(0, 3), st.booleans()), max_size=3),
                  st.sampled_from([0.0, 0.25, 4.0, 9.0]), st.integers(1, 2), st.booleans())


def lives(case, c):
    """Whole tracers, built, used and closed one after another on one event loop."""
    how, sampler, reporter, throttler, scopes, ops, wait, closes, errors = case
    n = [0]
    with Sim() as sim:
        def step():
            n[0] += 1
            if how == 'config':
                kind = {'on': ('const', 1), 'off': ('const', 0), 'rate': ('ratelimiting', 3)}.get(sampler, ('probabilistic', 0.5))
                cfg = Config({'service_name': 'svc%d' % n[0], 'sampler': {'type': kind[0], 'param': kind[1]}, 'logging': reporter == 'both', 'tags': dict(NETTAGS),
                              'local_agent': {'reporting_host': '127.0.0.1', 'reporting_port': 9}, 'propagation': 'b3' if errors else ''}, validate=True)
                tr = cfg.new_tracer(io_loop=sim.io_loop)
                with tr.start_active_span('op%d' % n[0], ignore_active_span=True) as sc:
                    tr.inject(sc.span, Format.HTTP_HEADERS, {})
                sim.advance(wait)
            else:
                conf = {'sampler': sampler, 'throttler': throttler, 'reporter': reporter, 'scopes': scopes, 'b3': errors, 'errors': errors, 'settings': {}}
                w = World(sim, conf, c)
                w.r = n[0]
                tr = w.tr
                sim.advance(wait)
                w.round(ops)
            for _ in range(closes):
                tr.close()
            if how != 'config' and reporter == 'null':
                w.rep.close()     # was not the tracer's
            sim.advance(10.0)
            sim.steps = 0
        if grows(step, c):
            bounded(step, c, '%r' % (case,), time.process_time() + CPU)
        c.label(how)


TESTS = [Test('rounds', cases, run, quick=720, rule=RULE),
         Test('lives', lambda: LIVES, lives, quick=400, rule=RULE)]
