"""C20: configuration resolution, validation, immutability; tracers built from a configuration; one global initialisation."""
import copy
import importlib.util
import json
import logging
import os
import socket
import sys
import urllib.parse
import opentracing
import tornado.httpclient
from hypothesis import strategies as st
from opentracing.scope_managers import ThreadLocalScopeManager
from tornado.concurrent import Future
from .. import boot, gen, sched, volume
from ..agent import Counters, Response, decode, DROPPED
from ..core import Injected, Test, check
from ..simloop import Sim
from ..util import SpanContext, Format
from jaeger_client import Config, ConstSampler
from jaeger_client.reporter import InMemoryReporter

PROP = 'C20'
RULE = ('settings: random configurations and environments, every setting read several times in random order and compared with a table of '
        'the documented rules; tracers: built from random configurations, run against an agent, each setting observed in behaviour; races: '
        'concurrent global initialisations with bytecode switches; non-trivial: a non-default setting was read back or observed')
ASSUMPTIONS = ['JAEGER_TAGS is a comma-separated list of key=value; an environment tag replaces a configured tag of the same name',
               'values are of the documented types (numbers may be given as text where the setting is converted)']
env = boot.env
ENVS = ('JAEGER_TAGS', 'JAEGER_AGENT_HOST', 'JAEGER_AGENT_PORT', 'JAEGER_TRACEID_128BIT')
KEYS = ['logging', 'local_agent', 'sampler', 'tags', 'enabled', 'reporter_batch_size', 'reporter_queue_size', 'propagation',
        'max_tag_value_length', 'max_traceback_length', 'reporter_flush_interval', 'sampling_refresh_interval', 'trace_id_header',
        'generate_128bit_trace_id', 'baggage_header_prefix', 'service_name', 'throttler', 'metrics', 'debug_id_header', 'max_operations']
BOOLS = ['true', 'True', 'TRUE', 'tRuE', True, 1, '1', 'false', 'False', 'FALSE', False, 0, '0', 'none', 'None', 'NONE', None,
         'yes', 'no', 'on', '', 2, -1, 'truee', ' true', '01', 1.0, 0.0, 'null', 'nil', [], {}, 'y', 't', 'f', '10', '11', 'untrue', b'true']
WORD = st.text(alphabet='abcXYZ09-_', min_size=1, max_size=8)


def boolean(v, default):
    v = str(v).lower()
    return False if v in ('false', '0', 'none') else True if v in ('true', '1') else default


def clear_env():
    for k in ENVS:
        os.environ.pop(k, None)


@st.composite
def environs(draw, agent=True):
    e = {}
    if draw(st.booleans()):
        items = draw(st.lists(st.tuples(WORD, st.one_of(WORD, st.sampled_from(['', 'a=b', '=', 'x=y=z', 'http://h:80/p?a=b', 'a b', 'tr\u00e9s',
                                                                             '${x}', '${X:y}', '"q"', 'a==', '=='])),
                                        st.sampled_from(['', '', ' ', '  '])), max_size=4))
        e['JAEGER_TAGS'] = ','.join(s + k + s + '=' + s + v + s for k, v, s in items)
    if agent and draw(st.integers(0, 2)) == 0:
        e['JAEGER_AGENT_HOST'] = draw(st.sampled_from(['agent.local', '10.0.0.1', 'h', '::1']))
    if agent and draw(st.integers(0, 2)) == 0:
        e['JAEGER_AGENT_PORT'] = draw(st.sampled_from(['1', '7000', '65535', ' 80 ', 'abc', '', '6831.5', '0x10', '9999']))
    if draw(st.integers(0, 2)) == 0:
        e['JAEGER_TRACEID_128BIT'] = draw(st.sampled_from(['true', 'false', 'True', 'TRUE', '1', '0', '', 'yes', 'FALSE', 'none', '128']))
    return e


@st.composite
def configs(draw):
    cfg = {}
    pick = draw(st.sets(st.sampled_from(KEYS), max_size=12))
    b = st.sampled_from(BOOLS).map(copy.deepcopy)
    for k in draw(st.permutations(sorted(pick))):
        if k in ('logging', 'enabled', 'metrics', 'generate_128bit_trace_id'):
            cfg[k] = draw(b)
        elif k == 'local_agent':
            g = {}
            if draw(st.booleans()):
                g['enabled'] = draw(b)
            if draw(st.booleans()):
                g['sampling_port'] = draw(st.sampled_from([5778, 1, '5000', 65535, ' 70 ', 'x', None, '', '1e3', 8080]))
            if draw(st.booleans()):
                g['reporting_port'] = draw(st.sampled_from([6831, 2, '5001', 65535, ' 71 ', 'x', None, '', '1e3', 8081]))
            if draw(st.booleans()):
                g['reporting_host'] = draw(st.sampled_from(['localhost', 'agent', '10.1.1.1', 'x.y']))
            cfg[k] = draw(st.sampled_from([g, g, g, g, None]))
        elif k == 'sampler':
            cfg[k] = draw(samplers())
        elif k == 'tags':
            cfg[k] = draw(st.one_of(st.dictionaries(WORD, st.one_of(WORD, st.integers(0, 9), st.booleans()), max_size=3), st.none()))
        elif k in ('reporter_batch_size', 'reporter_queue_size'):
            cfg[k] = draw(st.sampled_from([1, 2, 10, 100, '7', '100', 12345, 3.0]))
        elif k in ('max_tag_value_length', 'max_traceback_length', 'max_operations'):
            cfg[k] = draw(st.sampled_from([1, 5, 1024, 4096, 20000, 2000, 0]))
        elif k in ('reporter_flush_interval', 'sampling_refresh_interval'):
            cfg[k] = draw(st.sampled_from([1, 2, 0.5, 60, 0.1, 5, 0]))
        elif k == 'propagation':
            cfg[k] = draw(st.sampled_from(['b3', 'jaeger', None, 'B3', '']))
        elif k == 'throttler':
            g = {}
            if draw(st.booleans()):
                g['port'] = draw(st.sampled_from([5778, 3, '5002', 'x', None, '']))
            if draw(st.booleans()):
                g['refresh_interval'] = draw(st.sampled_from([5, 1, '10', 'x', None, '']))
            cfg[k] = draw(st.sampled_from([g, g, g, None]))
        elif k == 'service_name':
            cfg[k] = draw(st.one_of(WORD, st.just('caf\u00e9')))
        else:
            cfg[k] = draw(WORD)
    return copy.deepcopy(cfg)


@st.composite
def samplers(draw):
    t = draw(st.sampled_from(['const', 'probabilistic', 'ratelimiting', 'rate_limiting', None, '', 'bad', 'Const', 'const ', 'prob', 'lowerbound',
                              'rate-limiting', 'constant', 'probabilistic2', 'ratelimitin']))
    d = {}
    if t is not None:
        d['type'] = t
    if t == 'const':
        d['param'] = draw(st.sampled_from([x for x in BOOLS if x not in ({}, [])]))
    elif t == 'probabilistic':
        d['param'] = draw(st.sampled_from([0, 1, 0.5, '0.25', '1', 0.001, True, '0', 1e-9]))
    elif t in ('ratelimiting', 'rate_limiting'):
        d['param'] = draw(st.sampled_from([1, 2, 0.5, '3', 100, '0.25', 10.5, 0, '0', 0.0]))
    elif draw(st.booleans()):
        d['param'] = draw(st.sampled_from([1, 'x', None]))
    if t == 'const' and draw(st.integers(0, 4)) == 0:
        del d['param']
    return d


def to_int(v, default):
    try:
        return int(v)
    except (TypeError, ValueError):
        return default


def expected(cfg, e, service):
    la = cfg.get('local_agent') or {}
    th = cfg.get('throttler')
    tags = dict(cfg.get('tags') or {})
    for kv in e.get('JAEGER_TAGS', '').split(','):
        if '=' in kv:
            k, v = kv.split('=', 1)
            tags[k.strip()] = v.strip()
    rp = la.get('reporting_port')
    return {
        'service_name': cfg.get('service_name', service),
        'enabled': boolean(cfg.get('enabled', True), True),
        'logging': boolean(cfg.get('logging', False), False),
        'reporter_batch_size': int(cfg.get('reporter_batch_size', 10)),
        'reporter_queue_size': int(cfg.get('reporter_queue_size', 100)),
        'trace_id_header': cfg.get('trace_id_header', 'uber-trace-id'),
        'baggage_header_prefix': cfg.get('baggage_header_prefix', 'uberctx-'),
        'debug_id_header': cfg.get('debug_id_header', 'jaeger-debug-id'),
        'generate_128bit_trace_id': boolean(cfg['generate_128bit_trace_id'] if 'generate_128bit_trace_id' in cfg else
                                            e.get('JAEGER_TRACEID_128BIT', 'false'), False),
        'max_tag_value_length': cfg.get('max_tag_value_length', 1024),
        'max_traceback_length': cfg.get('max_traceback_length', 4096),
        'max_operations': cfg.get('max_operations'),
        'sampling_refresh_interval': cfg.get('sampling_refresh_interval', 60),
        'reporter_flush_interval': cfg.get('reporter_flush_interval', 1),
        'local_agent_enabled': boolean(la.get('enabled', True), True),
        'local_agent_sampling_port': to_int(la.get('sampling_port'), 5778),
        'local_agent_reporting_port': to_int(rp, to_int(e.get('JAEGER_AGENT_PORT'), 6831)),
        'local_agent_reporting_host': la.get('reporting_host', e.get('JAEGER_AGENT_HOST', 'localhost')),
        'tags': tags,
        'throttler_port': None if th is None else to_int(th.get('port'), 5778),
        'throttler_refresh_interval': None if th is None else to_int(th.get('refresh_interval'), 5),
    }


@st.composite
def settings(draw):
    cfg = draw(configs())
    extra = draw(st.sampled_from([None, None, None, 'Enabled', 'sampler ', 'x', '', 'service', 'local-agent', 'reporter', 'reporter_batch', 'tag',
                                  'max_tag_value', 'metric', 'trace_id_headers', 'sampling', 'enable', 'initialized']))
    return cfg, draw(environs()), extra, draw(st.booleans()), draw(st.lists(st.integers(0, 30), min_size=3, max_size=25)), \
        draw(st.sampled_from([None, 'param', 'param', 'param', 'param', 'param', 'param']))


def check_sampler(cfgobj, d, what):
    t, p = (d or {}).get('type'), (d or {}).get('param')
    try:
        s = cfgobj.sampler
    except ValueError:
        check(t and t not in ('const', 'probabilistic', 'ratelimiting', 'rate_limiting'), '%s: sampler %r was refused', what, d)
        return None
    if not t:
        check(s is None, '%s: sampler %r gave %r', what, d, s)
        return None
    check(t in ('const', 'probabilistic', 'ratelimiting', 'rate_limiting'), '%s: unknown sampler %r gave %r', what, d, s)
    if t == 'const':
        want = boolean(p, False)
        check(s.is_sampled(5, 'o')[0] is want and s.is_sampled(2 ** 64 - 1, 'o')[0] is want, '%s: sampler %r decides %r', what, d, not want)
        return s
    p = float(p)
    dec, tags = s.is_sampled(0, 'o')
    if t == 'probabilistic':
        check(dec is (p > 0), '%s: sampler %r decides %r for id 0', what, d, dec)
        if 0 < p < 1:
            check(s.is_sampled(2 ** 64 - 1, 'o')[0] is False, '%s: sampler %r samples the highest id', what, d)
        if dec:
            check(tags == {'sampler.type': 'probabilistic', 'sampler.param': p}, '%s: sampler %r has tags %r', what, d, tags)
    elif p == 0:
        for _ in range(3):
            check(dec is False, '%s: sampler %r samples', what, d)
            env.mono += 1000.0
            dec, tags = s.is_sampled(0, 'o')
    else:
        for _ in range(60):
            if dec:
                break
            env.mono += 1.0 / p
            dec, tags = s.is_sampled(0, 'o')
        check(dec is True and tags == {'sampler.type': 'ratelimiting', 'sampler.param': p}, '%s: sampler %r has tags %r', what, d, tags)
        n = 0
        env.mono += 1000.0
        while s.is_sampled(0, 'o')[0] and n < 200:
            n += 1
        check(n == int(max(p, 1.0)), '%s: sampler %r has a burst of %d', what, d, n)
    return s


def run_settings(case, c):
    cfg, e, extra, validate, order, param = case
    env.virtual = True
    service = param
    if 'service_name' not in cfg and service is None:
        try:
            Config(copy.deepcopy(cfg))
        except ValueError:
            c.label('no service name')
            return
        check(False, 'a configuration without service name was accepted: %r', cfg)
    clear_env()
    os.environ.update(e)
    try:
        if extra is not None:
            bad = dict(cfg)
            bad[extra] = 1
            try:
                Config(bad, service_name=service, validate=True)
            except ValueError:
                pass
            else:
                check(False, 'strict validation accepted the key %r', extra)
            c.label('unknown key')
            Config(bad, service_name=service)
        given = copy.deepcopy(cfg)
        co = Config(given, service_name=service, validate=validate)
        want = expected(cfg, e, service)
        names = sorted(want)
        for i in order:
            k = names[i % len(names)] if i < 28 else 'sampler'
            if k == 'sampler':
                check_sampler(co, cfg.get('sampler'), 'reading the sampler of %r' % (cfg,))
                continue
            got = getattr(co, k)
            w = want[k]
            check(got == w and (type(got) is type(w)), '%s is %r, expected %r: %r in %r', k, got, w, cfg, e)
            if isinstance(got, dict):
                got['intruder'] = 1           # what is returned belongs to the reader
            if k in cfg or (k.startswith('local_agent') and cfg.get('local_agent')) or (k.startswith('throttler') and cfg.get('throttler')):
                c.hit('configured')
            elif e:
                c.hit('environment')
            check(given == cfg and list(given) == list(cfg), 'reading %s changed the configuration to %r from %r', k, given, cfg)
        check(repr(given) == repr(cfg), 'the configuration changed to %r from %r', given, cfg)
        la = co.local_agent_group()
        check(la == cfg.get('local_agent'), 'local_agent_group is %r', la)
        tr = None
        try:
            tr = co.create_tracer(InMemoryReporter(), ConstSampler(True))
        finally:
            check(repr(given) == repr(cfg), 'building a tracer changed the configuration to %r from %r', given, cfg)
        log, grab = logging.getLogger('jaeger_tracing'), Grab()
        level = log.level
        log.addHandler(grab)
        log.setLevel(logging.ERROR)
        try:
            env.mono += 901.0
            co.error_reporter.error('boom %s', 1)
        finally:
            log.removeHandler(grab)
            log.setLevel(level)
        check(grab.out == (['boom 1'] if want['logging'] else []), 'logging is %r, but an error wrote %r', want['logging'], grab.out)
        check(tr.service_name == want['service_name'], 'service name is %r', tr.service_name)
        for k, v in want['tags'].items():
            check(tr.tags.get(k) == v and type(tr.tags.get(k)) is type(v), 'process tag %r is %r, expected %r', k, tr.tags.get(k), v)
        check(set(tr.tags) <= set(want['tags']) | {'jaeger.version', 'ip', 'hostname'}, 'process tags are %r', tr.tags)
    finally:
        clear_env()


# --- tracers ----------------------------------------------------------------------------------------------
_receivers = {}


def receiver(host):
    if host not in _receivers:
        s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 1 << 20)
        s.bind((host, 0))
        s.setblocking(False)
        _receivers[host] = s
    return _receivers[host]


def drain(s):
    out = []
    while True:
        try:
            out.append(s.recv(70000))
        except BlockingIOError:
            return out


@st.composite
def tracers(draw):
    cfg = {}

    def opt(k, s):
        if draw(st.integers(0, 2)) == 0:
            cfg[k] = draw(s)
    b = st.sampled_from([x for x in BOOLS if x not in ({}, [])])
    opt('reporter_batch_size', st.sampled_from([1, 2, 3, '4', 7]))
    opt('reporter_queue_size', st.sampled_from([3, 5, 40, '20', 150]))
    if int(cfg.get('reporter_queue_size', 100)) < int(cfg.get('reporter_batch_size', 10)):
        cfg['reporter_batch_size'] = 3
    opt('reporter_flush_interval', st.sampled_from([0.5, 2, 5, 1.5]))
    opt('sampling_refresh_interval', st.sampled_from([2, 30, 7, 60]))
    opt('max_tag_value_length', st.sampled_from([1, 5, 50, 1023, 2000]))
    opt('max_traceback_length', st.sampled_from([1, 10, 50, 4095]))
    opt('trace_id_header', st.sampled_from(['trace-id', 'x-t']))
    opt('baggage_header_prefix', st.sampled_from(['bag-', 'ctx-']))
    opt('debug_id_header', st.sampled_from(['dbg', 'x-debug']))
    opt('generate_128bit_trace_id', b)
    opt('propagation', st.sampled_from(['b3', 'b3', 'jaeger', None]))
    opt('logging', b)
    opt('metrics', b)
    opt('max_operations', st.sampled_from([1, 2, 5]))
    opt('tags', st.dictionaries(WORD, st.one_of(WORD, st.integers(0, 99), st.booleans()), max_size=3))
    th = {}
    if draw(st.booleans()):
        th['port'] = draw(st.sampled_from([5779, '5800', 4000]))
    if draw(st.booleans()):
        th['refresh_interval'] = draw(st.sampled_from([3, '2', 9]))
    opt('throttler', st.just(th))
    opt('sampler', samplers().filter(lambda d: d.get('type') in ('const', 'probabilistic', 'rate_limiting', 'ratelimiting')))
    host = draw(st.sampled_from(['127.0.0.1', '127.0.0.2', '127.0.0.3']))
    where = draw(st.sampled_from(['config', 'config', 'env', 'both']))
    sport = draw(st.sampled_from([None, 5555, '7777']))
    e = draw(environs(agent=False))
    return cfg, host, where, sport, e, draw(st.sampled_from(['svc', 'caf\u00e9 x'])), draw(st.integers(1, 30)), draw(st.floats(0, 1, exclude_max=True))


class Grab(logging.Handler):
    def __init__(self):
        super().__init__()
        self.out = []

    def emit(self, record):
        self.out.append(record.getMessage())


def run_tracer(case, c):
    cfg, host, where, sport, e, service, n, frac = case
    cfg0 = cfg
    cfg = copy.deepcopy(cfg)
    clear_env()
    os.environ.update(e)
    rx = receiver(host)
    drain(rx)
    port = rx.getsockname()[1]
    if where in ('config', 'both'):
        cfg['local_agent'] = {'reporting_host': host, 'reporting_port': port}
    if where in ('env', 'both'):
        other = ('127.0.0.9', '9') if where == 'both' else (host, str(port))
        os.environ['JAEGER_AGENT_HOST'], os.environ['JAEGER_AGENT_PORT'] = other
    if sport is not None:
        cfg.setdefault('local_agent', {})['sampling_port'] = sport
    full = dict(cfg)
    want = expected(cfg, dict(e, JAEGER_AGENT_HOST=host, JAEGER_AGENT_PORT=str(port)), service)
    fetched = []

    class Client(object):
        def __init__(self, *a, **k):
            pass

        def fetch(self, request, *a, **k):
            url = request if isinstance(request, str) else request.url
            f = Future()
            u = urllib.parse.urlsplit(url)
            fetched.append((env.mono, u.hostname, u.port, u.path, urllib.parse.parse_qs(u.query, keep_blank_values=True)))
            if u.path == '/credits':
                f.set_result(Response(json.dumps({'balances': [{'operation': 'dop', 'balance': 1}]})))
            else:
                f.set_result(Response(json.dumps({'strategyType': 'PROBABILISTIC', 'operationSampling': {
                    'defaultSamplingProbability': 0.0, 'defaultLowerBoundTracesPerSecond': 1.0, 'perOperationStrategies': []}})))
            return f
    real = tornado.httpclient.AsyncHTTPClient
    tornado.httpclient.AsyncHTTPClient = Client
    log = logging.getLogger('jaeger_tracing')
    grab = Grab()
    log.addHandler(grab)
    level = log.level
    log.setLevel(logging.INFO)
    try:
        with Sim() as sim:
            env.rand_queue = [frac, frac]
            m = Counters()
            sm = ThreadLocalScopeManager()
            co = Config(cfg, service_name=service, metrics_factory=m.factory, scope_manager=sm, validate=True)
            keep = repr(cfg)
            tr = co.new_tracer(sim.io_loop)
            env.rand_queue = []
            t0 = env.mono
            check(tr.scope_manager is sm, 'scope manager is not the one given')
            sim.settle()

            def spans():
                out = []
                for d in drain(rx):
                    out.append(decode(d))
                return out
            root = SpanContext(5, 6, None, 1)
            # flush interval
            flush = want['reporter_flush_interval']
            tr.start_span('first', child_of=root).finish()
            sim.settle()
            got = spans()
            bs = want['reporter_batch_size']
            if bs == 1:
                check(len(got) == 1, 'a full batch of one was not sent at once')
            else:
                check(not got, 'a single span was sent at once with a batch size of %d', bs)
                sim.advance(flush * 0.9)
                check(not spans(), 'span sent before the flush interval %r', flush)
                sim.advance(flush * 0.2)
                got = spans()
                check(len(got) == 1, 'no batch arrived at %s:%d within the flush interval %r: %r', host, port, flush, case)
            b = got[0]
            check(b['service'] == want['service_name'], 'service name %r', b['service'])
            ptags = {k: v for k, t, v in b['tags']}
            for k, v in want['tags'].items():
                v = v[:want['max_tag_value_length']] if isinstance(v, str) else v
                check(ptags.get(k) == v, 'process tag %r is %r, expected %r', k, ptags.get(k), v)
            # batch size and queue capacity
            qs = want['reporter_queue_size']
            for i in range(n + qs):
                tr.start_span('q%d' % i, child_of=root).finish()
            sim.advance(flush * 3)
            got = [len(x['spans']) for x in spans()]
            lost = n + qs - sum(got)
            # spans are admitted on the loop in one go: the consumer takes them one by one in between
            check(lost <= n, '%d spans were lost with a queue of %d: %r', lost, qs, case)
            check(all(x == bs for x in got[:-1]) and got and got[-1] <= bs, 'batches of %r with a batch size of %d: %r', got, bs, case)
            if want_metrics(cfg):
                check(m.get(DROPPED) == lost, '%d spans lost, %d counted', lost, m.get(DROPPED))
            else:
                check(not m.c and not m.g, 'metrics disabled, but %r', m.c)
            # tag limits
            s = tr.start_span('tags', child_of=root)
            s.set_tag('v', 'x' * 5000)
            try:
                raise Injected('y' * 5000)
            except Injected as ex:
                s.log_kv({'tb': ex.__traceback__, 's': 'z' * 3000})
            s.finish()
            sim.advance(flush * 2)
            sp = [x for bb in spans() for x in bb['spans']]
            check(len(sp) == 1, '%d spans', len(sp))
            ml, mt = want['max_tag_value_length'], want['max_traceback_length']
            check([v for k, t, v in sp[0]['tags'] if k == 'v'] == ['x' * min(5000, ml)], 'tag limit %d was not applied', ml)
            f = {k: v for k, t, v in sp[0]['logs'][0][1]}
            check(f['s'] == 'z' * min(3000, ml), 'log limit %d was not applied', ml)
            check(len(f['tb']) <= mt and (mt > 50 or len(f['tb']) == mt), 'traceback limit %d was not applied: %d', mt, len(f['tb']))
            # headers and propagation
            car = {}
            s = tr.start_span('h', child_of=SpanContext(5, 6, None, 1, {'k': 'v'}))
            tr.inject(s, Format.TEXT_MAP, car)
            check(car == {want['trace_id_header']: '5:%x:6:1' % s.span_id, want['baggage_header_prefix'] + 'k': 'v'}, 'carrier is %r: %r', car, case)
            car = {}
            tr.inject(s, Format.HTTP_HEADERS, car)
            wide = want['generate_128bit_trace_id']
            if cfg.get('propagation') == 'b3':
                check({k.lower() for k in car} >= {'x-b3-traceid', 'x-b3-spanid'} and want['trace_id_header'] not in car, 'b3 carrier is %r', car)
                tid = [v for k, v in car.items() if k.lower() == 'x-b3-traceid'][0]
                check(len(tid) == (32 if wide else 16), 'b3 trace id is %r', tid)
            else:
                check(set(car) == {want['trace_id_header'], want['baggage_header_prefix'] + 'k'}, 'carrier is %r', car)
            env.bits_queue = [2 ** 128 - 1] * 4
            r = tr.start_span('mo0', ignore_active_span=True)
            env.bits_queue = []
            check(r.trace_id == (2 ** 128 - 1 if wide else 2 ** 64 - 1), 'trace id is %x, wide: %r', r.trace_id, wide)
            d = tr.start_span('dop', child_of=tr.extract(Format.TEXT_MAP, {want['debug_id_header']: 'corr'}))
            throttled = cfg.get('throttler') is not None
            check(d.is_debug() is not throttled, 'debug span: %r, throttler: %r', d.is_debug(), cfg.get('throttler'))
            if not throttled:
                check([t.vStr for t in d.tags if t.key == want['debug_id_header']] == ['corr'[:ml]], 'debug tag missing')
            scfg = cfg.get('sampler') or {}
            if scfg.get('type') in ('const', 'probabilistic'):
                for tid in (1, 2 ** 128 - 1):
                    env.bits_queue = [tid] * 4
                    s = tr.start_span('x', ignore_active_span=True)
                    env.bits_queue = []
                    p = scfg.get('param')
                    w = boolean(p, False) if scfg['type'] == 'const' else float(p) == 1 or (tid == 1 and float(p) > 1e-15)
                    check(s.is_sampled() is w, 'sampler %r decides %r for id %x', scfg, s.is_sampled(), tid)
            # polling
            remote = not (cfg.get('sampler') or {}).get('type')
            sim.advance(130.0)
            polls = [x for x in fetched if x[3] == '/sampling']
            cred = [x for x in fetched if x[3] == '/credits']
            check(len(polls) + len(cred) == len(fetched), 'requests %r', fetched[:5])
            if remote:
                iv = want['sampling_refresh_interval']
                check(polls, 'no sampling query within 130 s')
                t = [x[0] - t0 for x in polls]
                check(t[0] <= iv + 1e-3 and all(abs(y - x - iv) < 1e-3 for x, y in zip(t, t[1:])), 'queries at %r, refresh interval %r', t[:5], iv)
                check(all(x[1:3] == (host, want['local_agent_sampling_port']) and x[4] == {'service': [want['service_name']]} for x in polls),
                      'query %r, expected %s:%r', polls[0], host, want['local_agent_sampling_port'])
                mo = want['max_operations'] or 2000
                lb = 0
                for i in range(min(mo, 6) + 2):
                    some = 0
                    for _ in range(2):         # a new operation starts with a random part of its budget
                        env.bits_queue = [2 ** 128 - 1] * 4
                        s = tr.start_span('mo%d' % i, ignore_active_span=True)
                        env.bits_queue = []
                        some = some or s.is_sampled()
                        env.mono += 10.0
                    lb += some
                check(lb == min(min(mo, 6) + 2, mo), '%d operations got a lower bound, maximum %r: %r', lb, mo, case)
            else:
                check(not polls, 'a configured sampler, but the agent was asked: %r', polls[:1])
            if throttled:
                iv = want['throttler_refresh_interval']
                check(cred, 'no credit request within 130 s')
                t = [x[0] - t0 for x in cred]
                check(all(abs(y - x - iv) < 1e-3 for x, y in zip(t, t[1:])), 'credit requests at %r, refresh interval %r', t[:5], iv)
                uuid = str(tr.tags['client-uuid'])
                check(all(x[1:3] == (host, want['throttler_port']) and x[4].get('service') == [want['service_name']] and x[4].get('uuid') == [uuid]
                          and 'dop' in x[4].get('operations', []) for x in cred), 'credit request %r, expected %s:%r', cred[0], host,
                      want['throttler_port'])
            else:
                check(not cred, 'no throttler, but credits were requested')
            n0 = len([x for x in grab.out if x.startswith('Reporting span')])
            check((n0 > 0) == want['logging'], '%d spans logged, logging: %r', n0, cfg.get('logging'))
            check(repr(cfg) == keep, 'the configuration changed to %r from %s', cfg, keep)
            check(not sim.errors(), 'exception in the event loop: %r', sim.errors()[:1])
            if not remote:
                check_sampler(co, cfg['sampler'], 'sampler of %r' % (cfg,))
            tr.close()
            sim.advance(flush * 2)
            if full:
                c.hit('%d settings' % (len(cfg0) // 4 * 4))
    finally:
        tornado.httpclient.AsyncHTTPClient = real
        log.removeHandler(grab)
        log.setLevel(level)
        env.bits_queue = []
        clear_env()


def want_metrics(cfg):
    return boolean(cfg.get('metrics', True), True)


# --- one global initialisation -------------------------------------------------------------------------------
PATH = sys.modules['jaeger_client.config'].__file__


def fresh_config():
    """The Config class of a new copy of the module: nothing was initialised in it yet"""
    spec = importlib.util.spec_from_file_location('jaeger_client.config', PATH)
    mod = importlib.util.module_from_spec(spec)
    exec(_code(), mod.__dict__)
    return mod.Config


def _code(cache=[]):
    if not cache:
        with open(PATH, encoding='utf-8') as f:
            cache.append(compile(f.read(), PATH, 'exec'))
    return cache[0]


@st.composite
def races(draw):
    return draw(st.integers(2, 3)), draw(st.booleans()), draw(st.booleans()), \
        draw(st.one_of(sched.plans(st, 200, 8), sched.plans(st, 4000, 8)))


def run_race(case, c):
    n, shared, again, plan = case
    clear_env()
    old = {k: getattr(opentracing, k) for k in ('tracer', 'is_tracer_registered')}
    try:
        with Sim() as sim:
            C = fresh_config()
            check(C.initialized() is False, 'initialised before the start')
            cfgs = [C({'sampler': {'type': 'const', 'param': True}, 'local_agent': {'reporting_host': '127.0.0.1'}}, service_name='s%d' % i)
                    for i in range(1 if shared else n)]
            got = []

            def init(i):
                def f():
                    got.append((i, cfgs[i % len(cfgs)].initialize_tracer(sim.io_loop)))
                return f
            s = sched.Sched(plan)
            s.run([init(i) for i in range(n)])
            made = [t for _, t in got if t is not None]
            check(len(made) == 1, '%d global tracers were made by %d initialisations: %r', len(made), n, case)
            check(opentracing.global_tracer() is made[0], 'the global tracer is not the one returned')
            check(C.initialized() is True, 'not marked as initialised')
            if again:
                check(cfgs[-1].initialize_tracer(sim.io_loop) is None and opentracing.global_tracer() is made[0], 'initialised again')
                t = cfgs[-1].new_tracer(sim.io_loop)
                check(t is not None and opentracing.global_tracer() is made[0], 'a further tracer changed the global one')
                t.close()
            if s.preempted_mid:
                c.hit('interleaved')
            made[0].close()
            sim.advance(3.0)
    finally:
        for k, v in old.items():
            setattr(opentracing, k, v)


TESTS = [
    Test('settings', settings, run_settings, quick=16000, rule=RULE),
    Test('tracers', tracers, run_tracer, quick=2400, rule=RULE),
    Test('races', races, run_race, quick=1600, rule=RULE),
    volume.ENV,
]
