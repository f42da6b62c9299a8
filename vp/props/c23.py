"""C23: one datagram per batch to the configured agent, never blocking; exact HTTP queries and answers."""
import asyncio
import errno
import os
import socket
import threading
import urllib.parse
from hypothesis import strategies as st
import tornado.ioloop
from .. import boot, gen
from ..agent import Counters, decode, OK, ERR, DROPPED
from ..core import HarnessError, Test, check
from ..simloop import Sim
from ..util import tracer, ConstSampler
from jaeger_client import Config
from jaeger_client.local_agent_net import LocalAgentSender
from jaeger_client.reporter import Reporter
import jaeger_client.TUDPTransport  # noqa: F401

PROP = 'C23'
RULE = ('udp: batches of 1..N spans up to and beyond the datagram limit through the real sender to real loopback sockets of several hosts, '
        'with socket errors at generated datagrams and batches that cannot be encoded; restart: an agent that goes away and '
        'comes back between batches; http: sampling queries and credit requests with any '
        'text to a raw loopback server answering with generated status, body, framing or failure; e2e: whole tracers on their own thread; '
        'non-trivial: a datagram was received, or a query was answered')
ASSUMPTIONS = ['datagrams over the loopback interface arrive in order', 'text sent over HTTP has no lone surrogates (they have no UTF-8 form)',
               'a batch beyond the datagram limit cannot be sent and is counted as failed']
env = boot.env
LIMIT = 65507
ERRNOS = [errno.EAGAIN, errno.ENOBUFS, errno.ECONNREFUSED, errno.EMSGSIZE, errno.ENETUNREACH, errno.EPERM, errno.EINTR, errno.EHOSTUNREACH]


def _has6():
    try:
        s = socket.socket(socket.AF_INET6, socket.SOCK_DGRAM)
        s.bind(('::1', 0))
        s.close()
        return True
    except OSError:
        return False


HAS6 = _has6()
HOSTS = ['127.0.0.1', '127.0.0.1', '127.0.0.2', '127.1.2.3', 'localhost', '::1']


def host_of(h):
    return '127.0.0.1' if h == '::1' and not HAS6 else h


def resolve(h):
    """The address the operating system gives for a datagram to h."""
    i = socket.getaddrinfo(h, 1, type=socket.SOCK_DGRAM)[0]
    return i[0], i[4][0]


_rx = {}


def receiver(fam, host):
    if (fam, host) not in _rx:
        s = socket.socket(fam, socket.SOCK_DGRAM)
        s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 1 << 21)
        s.bind((host, 0))
        s.setblocking(False)
        _rx[(fam, host)] = s
    return _rx[(fam, host)]


def drain(s):
    out = []
    while True:
        try:
            out.append(s.recv(70000))
        except BlockingIOError:
            return out


class Faults(object):
    """Scripted errors of the sending socket."""

    def __init__(self, plan):
        self.plan, self.n, self.sockets, self.blocking = list(plan), 0, 0, False

    def before(self, sock):
        n = self.n
        self.n += 1
        if sock.getblocking() or (sock.gettimeout() or 0) > 0:
            self.blocking = True
        f = self.plan[n] if n < len(self.plan) else None
        if f is not None:
            raise OSError(ERRNOS[f % len(ERRNOS)], 'scripted')


def socket_class(faults, real):
    class Sock(real):
        def __init__(self, *a, **k):
            faults.sockets += 1
            super().__init__(*a, **k)

        def sendto(self, *a):
            faults.before(self)
            return super().sendto(*a)

        def send(self, *a):
            faults.before(self)
            return super().send(*a)

        def sendmsg(self, *a):
            faults.before(self)
            return super().sendmsg(*a)
    return Sock


# ---- UDP -------------------------------------------------------------------------------------------------

@st.composite
def udp_cases(draw):
    host = draw(st.sampled_from(HOSTS))
    bs = draw(st.one_of(st.integers(1, 12), gen.sizes(60).map(lambda n: max(n, 1))))
    steps = []
    for _ in range(draw(st.integers(1, 7))):
        n = draw(st.integers(1, min(bs, 12)))
        kind = draw(st.sampled_from(['plain', 'plain', 'plain', 'bad', 'size', 'size']))
        if kind == 'size':
            total = draw(st.one_of(st.integers(0, 3000), st.sampled_from([1400, 1472, 4096, 8192, 16384, 30000, 32768, 60000, 64000, 65000]),
                                   st.integers(LIMIT - 400, LIMIT + 300), st.integers(LIMIT + 1000, 140000),
                                   gen.sizes(66000)))
            steps.append(('size', n, total))
        else:
            steps.append((kind, n, draw(st.integers(0, n - 1)) if kind == 'bad' else draw(st.integers(0, 40))))
    faults = draw(st.lists(st.one_of(st.none(), st.none(), st.integers(0, len(ERRNOS) - 1)), max_size=8))
    between = draw(st.booleans())     # a second sender to another agent is used in between
    return host, bs, steps, faults, between


def run_udp(case, c):
    host, bs, steps, plan, between = case
    host = host_of(host)
    rx = receiver(*resolve(host))
    other = receiver(socket.AF_INET, '127.0.0.77')
    drain(rx), drain(other)
    faults = Faults(plan)
    real = socket.socket
    senders = []
    try:
        with Sim() as sim:
            socket.socket = socket_class(faults, real)
            sender = LocalAgentSender(host, 5778, rx.getsockname()[1], io_loop=sim.io_loop)
            senders.append(sender)
            check(sender.io_loop is sim.io_loop, 'the given event loop is not used')
            m, m2 = Counters(), Counters()
            rep = Reporter(sender, queue_capacity=1000, batch_size=bs, flush_interval=0.5, metrics_factory=m.factory)
            tr = tracer(rep, ConstSampler(True), max_tag_value_length=200000)
            tr2 = None
            if between:
                socket.socket = real
                sender2 = LocalAgentSender('127.0.0.77', 5778, other.getsockname()[1], io_loop=sim.io_loop)
                senders.append(sender2)
                tr2 = tracer(Reporter(sender2, batch_size=1, flush_interval=0.5, metrics_factory=m2.factory))
                tr2.start_span('first').finish()
                sim.advance(1.5)
                check(len(drain(other)) == 1, 'the first batch of a second sender did not arrive')
                socket.socket = socket_class(faults, real)
            ok = bad = 0
            for i, (kind, n, arg) in enumerate(steps):
                before = faults.n
                ids = []
                for j in range(n):
                    kw = {}
                    if kind == 'bad' and j == arg:
                        kw['start_time'] = float('nan')
                    sp = tr.start_span('op%d-%d' % (i, j), **kw)
                    if kind == 'size':
                        sp.set_tag('pad', 'x' * (arg // n))
                    elif kind == 'plain':
                        sp.set_tag('t', 'v' * arg)
                    ids.append((sp.operation_name, sp.span_id))
                    sp.finish()
                if tr2 is not None:
                    tr2.start_span('other%d' % i).finish()
                sim.advance(1.5)
                got = drain(rx)
                tries = faults.n - before
                check(tries <= 1, 'one batch was written to the socket %d times', tries)
                check(not faults.blocking, 'the socket would block the caller')
                fault = tries == 1 and before < len(plan) and plan[before] is not None
                if kind == 'bad':
                    check(not got, 'a batch that cannot be encoded still sent %d datagrams', len(got))
                    bad += n
                    c.hit('unencodable')
                elif fault:
                    check(not got, 'a datagram arrived although sending failed')
                    bad += n
                    c.hit('send failure')
                else:
                    check(tries == 1, 'the batch was not sent')
                    if not got:
                        # the size cannot be judged from the tags alone: the limit is what the kernel says
                        check(kind == 'size' and arg > LIMIT - 60 * n - 600, 'a batch of %d spans did not arrive', n)
                        bad += n
                        c.hit('over the limit')
                    else:
                        check(len(got) == 1, 'one batch arrived as %d datagrams', len(got))
                        b = decode(got[0])
                        check([(s['operation'], s['span_id']) for s in b['spans']] == ids,
                              'the datagram holds %r, the batch was %r', [s['operation'] for s in b['spans']], ids)
                        if kind == 'size':
                            for s in b['spans']:
                                check([len(t[2]) for t in s['tags'] if t[0] == 'pad'] == [arg // n], 'the content was altered')
                        ok += n
                        c.hit('sent', 'large' if len(got[0]) > 8000 else 'small')
                check(m.get(OK) == ok and m.get(ERR) == bad and m.get(DROPPED) == 0,
                      'sent %d and failed %d spans, the metrics say %d and %d', ok, bad, m.get(OK), m.get(ERR))
                if tr2 is not None:
                    g2 = drain(other)
                    check(len(g2) == 1 and [s['operation'] for s in decode(g2[0])['spans']] == ['other%d' % i],
                          'a second sender to another agent was disturbed')
                    c.label('two senders')
            errs = sim.errors()
            check(not errs, 'exception escaped into the event loop: %r', errs[:1])
            c.label('host ' + host)
    finally:
        socket.socket = real
        for s in senders:
            try:
                s.close()
            except Exception:
                pass


# ---- an agent that is not always there ---------------------------------------------------------------------

MINE = 'c23-restart.'


@st.composite
def restart_cases(draw):
    return (draw(st.sampled_from(['v4', 'v4', 'v6'])), draw(st.integers(20000, 31000)),
            draw(st.lists(st.tuples(st.booleans(), st.integers(1, 3), st.sampled_from([0, 10, 3000])), min_size=2, max_size=8)))


def run_restart(case, c):
    fam, port, steps = case
    pid = os.getpid()
    token = '%s%d.%s' % (MINE, pid, os.urandom(4).hex())
    host = '::1' if fam == 'v6' and HAS6 else '127.%d.%d.%d' % (100 + (pid >> 16 & 63), pid >> 8 & 255, 1 + pid % 250)
    family = socket.AF_INET6 if ':' in host else socket.AF_INET
    rx, sender, was_down = None, None, False
    try:
        with Sim() as sim:
            m = Counters()
            sender = LocalAgentSender(host, 5778, port, io_loop=sim.io_loop)
            tr = tracer(Reporter(sender, batch_size=10, flush_interval=0.5, metrics_factory=m.factory), ConstSampler(True))
            total = 0
            for i, (up, n, pad) in enumerate(steps):
                if up and rx is None:
                    rx = socket.socket(family, socket.SOCK_DGRAM)
                    rx.setblocking(False)
                    try:
                        rx.bind((host, port))
                    except OSError:
                        return      # the port is taken by someone else
                elif not up and rx is not None:
                    rx.close()
                    rx = None
                names = ['%s-%d-%d' % (token, i, j) for j in range(n)]
                for x in names:
                    sp = tr.start_span(x)
                    sp.set_tag('pad', 'x' * pad)
                    sp.finish()
                before = m.get(OK)
                sim.advance(1.5)
                total += n
                check(m.get(OK) + m.get(ERR) == total and m.get(DROPPED) == 0, 'of %d spans %d count as sent, %d as failed: %r',
                      total, m.get(OK), m.get(ERR), case)
                if up:
                    # the port is not ours alone: another check may have sent there while its own agent was away
                    got = [[s['operation'] for s in b['spans']] for b in map(decode, drain(rx))
                           if not any(MINE in s['operation'] and token not in s['operation'] for s in b['spans'])]
                    check(got == [names], 'batch %d arrived as %r at an agent that is there%s: %r', i, got, ', after it was not' if was_down else '', case)
                    check(m.get(OK) == before + n, 'batch %d arrived but counts as failed: %r', i, case)
                    if was_down:
                        c.hit('arrived after the agent was away')
                else:
                    was_down = True
            check(not sim.errors(), 'exception escaped into the event loop: %r', sim.errors()[:1])
    finally:
        for s in (rx, sender):
            if s is not None:
                try:
                    s.close()
                except Exception:
                    pass


# ---- HTTP ------------------------------------------------------------------------------------------------

STATUS = [200] * 8 + [201, 202, 204, 400, 401, 403, 404, 418, 429, 500, 502, 503, 599]
FAIL = ['close', 'garbage', 'short', 'refused', 'silent']
texts = st.one_of(gen.text(max_len=20, words=('svc', 'GET /a?b=c&d=e', 'a+b', '%20', '', 'a b', '\u00e9\u4e2d', '&', '#x', ';', '=', '/', '\x00',
                                             '\n', 'a\r\nX: y')),
                  st.text(st.characters(blacklist_categories=('Cs',)), max_size=12)).filter(
    lambda s: not any(0xd800 <= ord(ch) < 0xe000 for ch in s))


@st.composite
def http_cases(draw):
    host = draw(st.sampled_from(['127.0.0.1', '127.0.0.1', '127.0.0.2', 'localhost', '::1']))
    reqs = []
    for _ in range(draw(st.integers(1, 4))):
        kind = draw(st.sampled_from(['sampling', 'credits']))
        if kind == 'sampling':
            args = (draw(texts),)
        else:
            ops = draw(st.one_of(st.lists(texts, max_size=4), st.lists(texts, max_size=4),
                                 gen.sizes(300).flatmap(lambda n: st.just(['op%d' % i for i in range(n)]))))
            if ops and draw(st.integers(0, 3)) == 0:
                ops = ops + [ops[0]]
            args = (draw(texts), draw(st.one_of(gen.ints(0, 2 ** 64 - 1), texts)), ops)
        if draw(st.integers(0, 3)):
            body = draw(st.one_of(st.binary(max_size=40), st.sampled_from([b'', b'{}', b'{"strategyType": 0}', b'\xff\xfe', b'\x00']),
                                  gen.sizes(100000).map(lambda n: b'ab\n' * (n // 3) + b'z' * (n % 3))))
            ans = ('reply', draw(st.sampled_from(STATUS)), body, draw(st.sampled_from(['length', 'length', 'chunked', 'eof'])))
        else:
            ans = (draw(st.sampled_from(FAIL[:4] * 6 + FAIL[4:])),)
        reqs.append((kind, args, ans))
    return host, draw(st.booleans()), draw(st.booleans()), reqs


def reply(ans):
    if ans[0] == 'garbage':
        return b'\x16\x03\x01 nonsense\r\n\r\n'
    if ans[0] == 'short':
        return b'HTTP/1.1 200 OK\r\nContent-Length: 1000\r\n\r\npartial'
    if ans[0] in ('close', 'silent'):
        return b''
    _, status, body, framing = ans
    head = b'HTTP/1.1 %d Whatever\r\nContent-Type: application/json\r\n' % status
    if status == 204:
        return head + b'\r\n'
    if framing == 'length':
        return head + b'Content-Length: %d\r\n\r\n' % len(body) + body
    if framing == 'chunked':
        out = head + b'Transfer-Encoding: chunked\r\n\r\n'
        for i in range(0, len(body), 7777):
            ch = body[i:i + 7777]
            out += b'%x\r\n' % len(ch) + ch + b'\r\n'
        return out + b'0\r\n\r\n'
    return head + b'Connection: close\r\n\r\n' + body


class Server(object):
    """A raw HTTP/1.1 server for one scripted answer at a time."""

    def __init__(self, name):
        self.name = name
        self.seen = []
        self.answer = None
        self.writers = []

    async def start(self, fam, addr):
        self.srv = await asyncio.start_server(self.handle, addr, 0, family=fam, limit=1 << 22)
        self.port = self.srv.sockets[0].getsockname()[1]

    async def handle(self, r, w):
        self.writers.append(w)
        try:
            head = await r.readuntil(b'\r\n\r\n')
            self.seen.append(head)
            a = self.answer
            if a[0] == 'silent':
                return
            w.write(reply(a))
            await w.drain()
        except (asyncio.IncompleteReadError, ConnectionError):
            pass
        if self.answer is None or self.answer[0] != 'silent':
            w.close()

    def stop(self):
        self.srv.close()
        for w in self.writers:
            w.close()


def closed_port(fam, addr):
    s = socket.socket(fam, socket.SOCK_STREAM)
    s.bind((addr, 0))
    return s      # bound but not listening: connections are refused, nobody else can take the port


def run_http(case, c):
    host, separate, as_text, reqs = case
    host = host_of(host)
    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    try:
        loop.run_until_complete(asyncio.wait_for(_http(host, separate, as_text, reqs, c), 120))
    except (asyncio.TimeoutError, TimeoutError):
        check(False, 'a query was neither answered nor reported as failed')
    finally:
        for io in list(tornado.ioloop.IOLoop._ioloop_for_asyncio.values()):
            if getattr(io, 'asyncio_loop', None) is loop:
                io.close()
        if not loop.is_closed():
            loop.close()
        asyncio.set_event_loop(None)


async def _http(host, separate, as_text, reqs, c):
    fam, addr = resolve(host)
    a, b = Server('sampling'), Server('throttling')
    await a.start(fam, addr)
    await b.start(fam, addr)
    dead = closed_port(fam, addr)
    sender = None
    try:
        def make(refused):
            sp, tp = a.port, (b.port if separate else a.port)
            if refused:
                sp = tp = dead.getsockname()[1]
            return LocalAgentSender(host, str(sp) if as_text else sp, 6831, io_loop=tornado.ioloop.IOLoop.current(),
                                    throttling_port=str(tp) if as_text else tp)
        sender = make(False)
        for kind, args, ans in reqs:
            use = sender if ans[0] != 'refused' else make(True)
            server = a if kind == 'sampling' or not separate else b
            idle = b if server is a else a
            server.answer = ans
            server.seen.clear(), idle.seen.clear()
            kw = {'timeout': 0.4} if ans[0] == 'silent' else {}
            given = [list(x) if isinstance(x, list) else x for x in args]
            t0 = boot._real_monotonic()
            if kind == 'sampling':
                fut = use.request_sampling_strategy(given[0], **kw)
            else:
                fut = use.request_throttling_credits(given[0], given[1], given[2], **kw)
            err = res = None
            try:
                res = await fut
            except Exception as e:
                err = e
            if ans[0] == 'silent':
                check(boot._real_monotonic() - t0 < 10, 'a query with a time limit of 0.4 s was given up only after 10 s')
            if ans[0] == 'refused':
                check(err is not None, 'a query to a closed port did not fail')
                check(not server.seen and not idle.seen, 'a query went to another port')
                use.close()
                c.hit('refused')
                continue
            check(not idle.seen, 'the query went to the wrong port')
            check(len(server.seen) == 1, 'the agent received %d queries for one', len(server.seen))
            line, headers = server.seen[0].split(b'\r\n', 1)
            parts = line.split(b' ')
            check(len(parts) == 3 and parts[0] == b'GET', 'unexpected request line %r', line)
            path, _, query = parts[1].decode('ascii').partition('?')
            check(path == '/' + kind, 'unexpected path %r', path)
            want = [('service', args[0])]
            if kind == 'credits':
                want += [('uuid', str(args[1]))] + [('operations', o) for o in args[2]]
            got = urllib.parse.parse_qsl(query, keep_blank_values=True, strict_parsing=False, errors='strict', max_num_fields=5000)
            check(got == want, 'the agent received %r, expected %r', got, want)
            check(given == [list(x) if isinstance(x, list) else x for x in args], 'the arguments were modified')
            hosts = [h for h in headers.split(b'\r\n') if h.lower().startswith(b'host:')]
            check(len(hosts) == 1 and hosts[0].endswith(b':%d' % server.port), 'unexpected host header %r', hosts)
            if ans[0] == 'reply' and ans[1] < 300:
                check(err is None, 'the answer was not handed back: %r', err)
                body = b'' if ans[1] == 204 else ans[2]
                check(bytes(res.body) == body, 'the answer body was altered: %r, sent %r', bytes(res.body)[:60], body[:60])
                c.hit('answered', kind, 'framing ' + ans[3])
                if kind == 'credits' and len(args[2]) > 1:
                    c.hit('several operations')
            else:
                check(err is not None, 'the failure %r was not reported', ans[:2])
                c.hit('failure ' + ('status' if ans[0] == 'reply' else ans[0]), kind)
        c.label('host ' + host)
    finally:
        a.stop()
        b.stop()
        dead.close()
        if sender is not None:
            sender.close()


# ---- whole tracers ---------------------------------------------------------------------------------------

@st.composite
def e2e_cases(draw):
    return (draw(texts.filter(lambda s: s.strip() != '')), draw(st.sampled_from(['127.0.0.1', 'localhost', '::1'])),
            draw(st.integers(1, 40)), draw(st.integers(1, 12)), draw(st.booleans()), draw(st.booleans()))


def run_e2e(case, c):
    """A tracer built from a configuration, on its own event loop thread, against a real loopback agent."""
    service, host, spans, bs, remote, throttle = case
    host = host_of(host)
    fam, addr = resolve(host)
    rx = receiver(fam, addr)
    drain(rx)
    srv = Server('agent')
    srv.answer = ('reply', 200, b'{"strategyType": "PROBABILISTIC", "probabilisticSampling": {"samplingRate": 1.0}}', 'length')
    loop = asyncio.new_event_loop()
    ready = threading.Event()

    def serve():
        asyncio.set_event_loop(loop)
        loop.run_until_complete(srv.start(fam, addr))
        ready.set()
        loop.run_forever()
    th = threading.Thread(target=serve, daemon=True)
    th.start()
    main = asyncio.new_event_loop()
    asyncio.set_event_loop(main)      # as on the main thread of a program
    if not ready.wait(20):
        raise HarnessError('loopback server did not start')
    tr = None
    try:
        cfg = {'local_agent': {'reporting_host': host, 'reporting_port': rx.getsockname()[1], 'sampling_port': srv.port},
               'reporter_batch_size': bs, 'reporter_flush_interval': 0.05, 'sampling_refresh_interval': 0.05, 'logging': False}
        if not remote:
            cfg['sampler'] = {'type': 'const', 'param': True}
        else:
            cfg['sampling_refresh_interval'] = 0.05
        if throttle:
            cfg['throttler'] = {'port': srv.port, 'refresh_interval': 0.05}
        tr = Config(cfg, service_name=service, validate=True).new_tracer()
        sent = []
        t0 = boot._real_monotonic()

        def wait(cond, what, limit=60):
            while not cond():
                check(boot._real_monotonic() - t0 < limit, what)
                boot._real_sleep(0.01)
        if remote:
            def sampled():
                s = tr.start_span('probe')
                if s.is_sampled():
                    sent.append(s.span_id)
                s.finish()
                return s.is_sampled()
            wait(sampled, 'the strategy of the agent was never applied')
            c.hit('strategy over HTTP')
        for i in range(spans):
            s = tr.start_span('op%d' % i)
            sent.append(s.span_id)
            s.finish()
        got = []

        def done():
            for d in drain(rx):
                b = decode(d)
                check(b['service'] == service, 'service is %r, expected %r', b['service'], service)
                check(0 < len(b['spans']) <= bs, 'a batch of %d spans, at most %d configured', len(b['spans']), bs)
                got.extend(s['span_id'] for s in b['spans'])
            return len(got) >= len(sent)
        wait(done, 'spans never reached the agent')
        check(got == sent, 'the agent received %d spans, %d were reported, or in another order', len(got), len(sent))
        c.hit('spans over UDP')
        heads = list(srv.seen)
        for h in heads:
            path, _, q = h.split(b' ')[1].decode('ascii').partition('?')
            check(path in ('/sampling', '/credits'), 'unexpected path %r', path)
            check(dict(urllib.parse.parse_qsl(q, keep_blank_values=True)).get('service') == service, 'service in query %r is not %r', q, service)
        fut = tr.close()
        t0 = boot._real_monotonic()
        wait(fut.done, 'close never completed')
    finally:
        asyncio.set_event_loop(None)
        main.close()
        loop.call_soon_threadsafe(srv.stop)
        loop.call_soon_threadsafe(loop.stop)
        th.join(10)
        loop.close()


TESTS = [
    Test('udp', udp_cases, run_udp, quick=6000, rule=RULE),
    Test('restart', restart_cases, run_restart, quick=1500, rule=RULE),
    Test('http', http_cases, run_http, quick=3000, rule=RULE, wall=True),
    Test('e2e', e2e_cases, run_e2e, quick=160, rule=RULE, wall=True),
]
