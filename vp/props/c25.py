"""C25: every batch identifies the process that sent it, whatever the host looks like."""
import collections
import errno
import socket
import struct
from hypothesis import strategies as st
from .. import boot, gen, volume
from ..agent import FakeChannel, Counters, decode
from ..core import Test, check
from ..simloop import Sim
from jaeger_client import Tracer, ConstSampler, __version__
from jaeger_client.reporter import Reporter, CompositeReporter, InMemoryReporter
from jaeger_client.throttler import RemoteThrottler

PROP = 'C25'
RULE = ('simulated hosts (name, name resolution, interfaces, routes, exhausted or failing sockets) x configured tags x throttling; '
        'non-trivial: detection meets a failure or a loopback address, or a configured tag competes with a detected one')
ASSUMPTIONS = ['the host is simulated at the socket and fcntl modules; interfaces that are probed are eth, en and wlan 0 to 2',
               'what is sent for an address or host name that cannot be determined at all is not specified',
               'a throttler belongs to one tracer']
env = boot.env

IFACES = ['%s%d' % (i, n) for i in ('eth', 'en', 'wlan') for n in range(3)]
OTHER = ['lo', 'docker0', 'eth', 'eth9', 'tun0', 'en', 'wlan']
addr = st.sampled_from(['10.1.2.3', '192.168.0.7', '172.16.255.1', '8.8.4.4', '100.64.0.1', '126.255.255.255', '128.0.0.1',
                        '1.127.0.1', '12.7.0.1', '203.0.113.200'])
loop = st.sampled_from(['127.0.0.1', '127.0.1.1', '127.255.255.254'])
ERR = {'gai': lambda: socket.gaierror(-2, 'Name or service not known'), 'herr': lambda: socket.herror(1, 'Unknown host'),
       'os': lambda: OSError(errno.EIO, 'io'), 'timeout': lambda: socket.timeout('timed out'),
       'uni': lambda: UnicodeError('label empty or too long'),
       'perm': lambda: PermissionError(errno.EPERM, 'not permitted')}
res = st.one_of(addr, loop, loop, st.sampled_from(sorted('!' + k for k in ERR)))
NAMES = ['vm', 'web-1.example.com', 'localhost', 'a..b', 'x' * 64, 'h' * 1100, 'h\xf6st', '-']


@st.composite
def hosts(draw):
    ifs = {}
    for n in draw(st.lists(st.sampled_from(IFACES), max_size=2, unique=True)):
        ifs[n] = draw(addr)
    for n in draw(st.lists(st.sampled_from(OTHER), max_size=2, unique=True)):
        ifs[n] = '127.0.0.1' if n == 'lo' else draw(addr)
    name = draw(st.one_of(st.sampled_from(NAMES), st.sampled_from(NAMES), gen.text(20, min_len=1).filter(lambda s: s[0] != '!'),
                          st.sampled_from(['!os', '!timeout', '!perm'])))
    local = draw(st.one_of(loop, loop, loop, st.sampled_from(['!gai', '!os'])))
    r = draw(res)
    return {'name': name, 'res': local if name == 'localhost' else r, 'localhost': local, 'ifs': ifs,
            'route': draw(st.one_of(addr, st.none(), st.sampled_from(['!os', '!perm']))),
            'nosock': draw(st.sampled_from([0, 0, 0, 0, 1, 2, 99]))}


VALS = st.one_of(gen.text(12), st.integers(-2 ** 63, 2 ** 63 - 1), st.booleans(), st.none(), gen.floats(-1e9, 1e9))


@st.composite
def cases(draw):
    tags = draw(st.one_of(st.none(), st.dictionaries(gen.text(8, words=('team', 'ip2', 'host')), VALS, max_size=3)))
    if draw(st.integers(0, 2)) == 0:
        tags = dict(tags or {})
        for k in draw(st.lists(st.sampled_from(['ip', 'hostname', 'jaeger.version', 'client-uuid']), max_size=3, unique=True)):
            tags[k] = draw(st.sampled_from(['1.2.3.4', 'me', '', 7, 0, False]))
    return (draw(hosts()), draw(st.one_of(gen.text(12), st.sampled_from(['svc', '\u20ac', 'x' * 2000]))), tags, draw(st.booleans()),
            draw(st.sampled_from(['plain', 'plain', 'composite'])), draw(st.booleans()), draw(st.integers(1, 3)))


class Host(object):
    """Stands in for the parts of the socket and fcntl modules that detection can ask."""

    def __init__(self, h):
        self.h = h
        self.open = set()
        self.asked = []
        self.made = 0

    def fail(self, k):
        raise ERR[k[1:]]()

    def gethostname(self):
        n = self.h['name']
        return self.fail(n) if n.startswith('!') else n

    def resolve(self, name):
        if isinstance(name, bytes):
            name = name.decode('utf-8')
        if name == 'localhost':
            r = self.h['localhost']
        elif name in ('', '0.0.0.0'):
            return '0.0.0.0'
        elif name == self.h['name']:
            r = self.h['res']
        elif name.replace('.', '').isdigit():
            return name
        else:
            r = '!gai'
        self.asked.append(name)
        return self.fail(r) if r.startswith('!') else r

    def gethostbyname(self, name):
        return self.resolve(name)

    def gethostbyname_ex(self, name):
        return name, [], [self.resolve(name)]

    def getaddrinfo(self, host, port, family=0, type=0, proto=0, flags=0):
        ip = self.resolve(host)
        return [(socket.AF_INET, type or socket.SOCK_DGRAM, proto, '', (ip, int(port or 0)))]

    def getfqdn(self, name=''):
        return name or self.gethostname()

    def ioctl(self, fd, req, arg=0, mutate=True):
        if isinstance(fd, FakeSocket):
            fd = fd.fileno()
        if fd not in self.open:
            raise OSError(errno.EBADF, 'Bad file descriptor')
        if req != 0x8915:
            raise OSError(errno.ENOTTY, 'Inappropriate ioctl')
        name = bytes(arg)[:16].split(b'\0')[0].decode('latin-1')
        if name not in self.h['ifs']:
            raise OSError(errno.ENODEV, 'No such device')
        out = bytes(arg)[:16] + struct.pack('=HH', socket.AF_INET, 0) + socket.inet_aton(self.h['ifs'][name])
        return out + bytes(len(arg) - len(out))


HOST = [None]


class FakeSocket(object):
    def __init__(self, family=socket.AF_INET, type=socket.SOCK_STREAM, proto=0, fileno=None):
        h = self.host = HOST[0]
        h.made += 1
        self.fd = -1
        if h.made <= h.h['nosock']:
            raise OSError(errno.EMFILE, 'Too many open files')
        self.fd = 1000 + h.made
        h.open.add(self.fd)
        self.peer = None

    def fileno(self):
        return self.fd

    def connect(self, addr):
        r = self.host.h['route']
        if r is None:
            raise OSError(errno.ENETUNREACH, 'Network is unreachable')
        if r.startswith('!'):
            self.host.fail(r)
        self.peer = addr

    def getsockname(self):
        return (self.host.h['route'], 40000) if self.peer else ('0.0.0.0', 0)

    def setblocking(self, v):
        pass

    settimeout = setblocking

    def setsockopt(self, *a):
        pass

    def close(self):
        self.host.open.discard(self.fd)

    __del__ = close         # an abandoned socket is closed when it is collected

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def _patch(host):
    import fcntl
    saved = [(socket, k, getattr(socket, k)) for k in ('gethostname', 'gethostbyname', 'gethostbyname_ex', 'getaddrinfo', 'getfqdn',
                                                       'socket')] + [(fcntl, 'ioctl', fcntl.ioctl)]
    for m, k, v in saved:
        setattr(m, k, FakeSocket if k == 'socket' else getattr(host, k))
    HOST[0] = host
    return saved


def want_tag(v, limit=1024):
    if isinstance(v, bool):
        return ('bool', v)
    if isinstance(v, int):
        return ('long', v)
    if isinstance(v, float):
        return ('double', v)
    return ('string', (v if isinstance(v, str) else str(v))[:limit])


def run(case, c):
    h, service, tags, throttled, shape, mutate, nspans = case
    host = Host(h)
    given = None if tags is None else dict(tags)
    keep = None if given is None else dict(given)
    with Sim() as sim:
        ch = FakeChannel(sim.io_loop)
        m = Counters()
        rep = Reporter(ch, batch_size=2, flush_interval=0.5, metrics_factory=m.factory)
        top = CompositeReporter(rep, InMemoryReporter()) if shape == 'composite' else rep
        th = RemoteThrottler(ch, service, refresh_interval=1) if throttled else None
        saved = _patch(host)
        try:
            tr = Tracer(service, top, ConstSampler(True), tags=given, throttler=th)
        finally:
            for mod, k, v in saved:
                setattr(mod, k, v)
        check(given == keep, "the caller's tags were changed to %r", given)
        check(not host.open, '%d sockets were left open', len(host.open))
        if mutate and given is not None:
            given.clear()
            given['x'] = 'y'
        for i in range(nspans):
            tr.start_span('s%d' % i, tags={'sampling.priority': 1} if i == 0 else None).finish()
        sim.advance(5)
        check(not sim.errors(), 'exception in the event loop: %r', sim.errors()[:1])
        batches = [decode(d) for _, d in ch.datagrams]
        check(sum(len(b['spans']) for b in batches) == (nspans if not throttled else len(batches) and nspans),
              '%d spans sent', sum(len(b['spans']) for b in batches))
        check(batches, 'nothing was sent')
        for b in batches:
            check(b['service'] == service, 'service name %r, configured %r', b['service'], service)
            got = collections.OrderedDict()
            for k, t, v in b['tags']:
                check(k not in got, 'process tag %r sent twice', k)
                got[k] = (t, v)
            for k, v in (keep or {}).items():
                if v is None or (k == 'client-uuid' and throttled):
                    continue
                check(got.get(k) == want_tag(v), 'process tag %r is %r, configured %r', k, got.get(k), v)
            want = set(keep or {}) | {'jaeger.version'}
            if not (keep or {}).get('jaeger.version', 0):
                if 'jaeger.version' not in (keep or {}):
                    check(got.get('jaeger.version') == ('string', 'Python-' + __version__), 'version tag %r', got.get('jaeger.version'))
            if 'hostname' not in (keep or {}) and not h['name'].startswith('!'):
                check(got.get('hostname') == want_tag(h['name']), 'hostname %r, host is called %r', got.get('hostname'), h['name'])
                want.add('hostname')
            if 'ip' not in (keep or {}):
                own = {a for n, a in h['ifs'].items() if n in IFACES}
                if not h['name'].startswith('!') and not h['res'].startswith('!') and not h['res'].startswith('127.'):
                    ok = {h['res']}
                else:
                    c.hit('no usable address by name')
                    ok = set(own) if h['nosock'] == 0 else set()
                    if h['route'] and not h['route'].startswith('!'):
                        if not own or h['nosock']:
                            ok.add(h['route'])
                        ok |= {h['route']}
                    ok |= own
                if h['nosock'] and not h['res'][0].isdigit():
                    c.hit('no sockets')
                found = got.get('ip')
                maybe_none = not ok or h['nosock']
                if ok and not maybe_none:
                    check(found is not None and found[0] == 'string' and found[1] in ok, 'ip is %r, the host has %r', found, sorted(ok))
                    want.add('ip')
                elif found is not None:
                    check(found[1] in ok or found[1] in ('None', '') or found[1].startswith('127.'),
                          'ip is %r, the host has %r', found, sorted(ok))
            else:
                c.hit('ip configured')
            if throttled:
                t = got.get('client-uuid')
                check(t is not None and t[0] == 'long', 'client id tag is %r', t)
                check(ch.credits, 'no credits were requested')
                for _, svc, cid, ops, _f in ch.credits:
                    check(svc == service, 'credits are requested for %r, service is %r', svc, service)
                    check(cid == t[1], 'credits are requested as %r, spans are sent as %r', cid, t[1])
                want.add('client-uuid')
                c.label('throttled')
            extra = set(got) - want - {'ip', 'hostname'}
            check(not extra, 'process tags nobody set: %r', sorted(extra))
            check(want <= set(got), 'process tags missing: %r', sorted(want - set(got)))
        first = (batches[0]['service'], sorted(map(repr, batches[0]['tags'])))
        for b in batches[1:]:
            check((b['service'], sorted(map(repr, b['tags']))) == first, 'the process changed between batches')
        if h['name'].startswith('!'):
            c.hit('host name unknown')
        if 'hostname' in (keep or {}):
            c.hit('hostname configured')
        tr.close()
        sim.advance(2)


TESTS = [Test('hosts', cases, run, quick=12000, rule=RULE), volume.SPAN]
