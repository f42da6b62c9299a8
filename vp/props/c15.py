"""C15: no recorded value can crash the application or poison a batch."""
import copy
import decimal
import math
import asyncio
import collections
import dataclasses
import enum
import fractions
import functools
import pathlib
import queue
import re
import ssl
import types
import uuid
import datetime
import weakref
from unittest import mock

from hypothesis import strategies as st
from .. import boot, gen, volume
from ..agent import Counters, FakeChannel, decode, ERR, OK
from ..core import Injected, Test, check
from ..simloop import Sim
from ..util import Tracer, ConstSampler
from jaeger_client.reporter import Reporter

PROP = 'C15'
RULE = ('ordinary spans mixed with spans carrying hostile tags, log fields, baggage, keys, operation and process names (huge and '
        'non-finite numbers, lone surrogates, huge and nested objects, objects whose str/repr/len fail or return nonsense), recorded at '
        'start, later and in logs; non-trivial: at least one hostile value was recorded')
ASSUMPTIONS = ['datagram size limits of the network aside',
               'classes named bool, and objects with comparison operators or hashes that raise as keys or names, are not used',
               'objects whose truth value raises are not used as baggage values, operation or service names',
               'an object may not record on the same span while it is being converted to a string']
env = boot.env


class BadStr(object):
    def __str__(self):
        raise ValueError('no string')
    __repr__ = __str__


class BadBoth(object):
    """str() fails with an exception whose own str() fails"""
    class E(Exception):
        def __str__(self):
            raise RuntimeError('nor this')
        __repr__ = __str__

    def __str__(self):
        raise BadBoth.E()
    __repr__ = __str__


class NotStr(object):
    def __str__(self):
        return 5
    __repr__ = __str__


class SubStr(str):
    def __str__(self):
        return self


class BadAttr(object):
    def __getattr__(self, n):
        raise RuntimeError(n)


class BadLen(object):
    def __len__(self):
        raise RuntimeError('len')

    def __iter__(self):
        raise RuntimeError('iter')

    def __bool__(self):
        return True


class Surr(object):
    def __str__(self):
        return 'a\udc80b'
    __repr__ = __str__


class BadExc(Exception):
    def __str__(self):
        raise KeyError('x')


class BadBool(object):
    def __bool__(self):
        raise ValueError('The truth value of an array with more than one element is ambiguous')


class Claims(object):
    """A proxy: claims the class of what it stands for."""
    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return self.t

    def __str__(self):
        return 'stands for something'


class BadClass(object):
    @property
    def __class__(self):
        raise ReferenceError('gone')


class OwnStr(str):
    """A string that does everything its own way."""
    def encode(self, *a):
        raise ValueError('encode')

    def __getitem__(self, k):
        raise ValueError('getitem')

    def __len__(self):
        return 2 ** 40


class GivesOwnStr(object):
    def __str__(self):
        return OwnStr('own')
    __repr__ = __str__


class OwnInt(int):
    def __lt__(self, o):
        raise ValueError('lt')
    __le__ = __gt__ = __ge__ = __rshift__ = __lshift__ = __and__ = __xor__ = __index__ = __int__ = __float__ = __neg__ = __lt__


class Color(enum.Enum):
    RED = 'red'


class Level(enum.IntEnum):
    LOW = 1


class Perm(enum.IntFlag):
    R = 4


Point = collections.namedtuple('Point', 'x y')


@dataclasses.dataclass
class Data:
    a: int = 1
    b: str = 'x'


def raised(f):
    try:
        f()
    except Exception as e:
        return e


def finished_task(a):
    async def co():
        return a
    loop = asyncio.new_event_loop()
    try:
        return loop.run_until_complete(asyncio.wait_for(co(), 5))
    finally:
        loop.close()


# what applications put into tags and logs
EVERYDAY = [
    lambda: OSError(2, 'No such file'), lambda: OSError(2, 'No such file', 'name'), lambda: ConnectionResetError(104, 'reset'), lambda: OSError(),
    lambda: raised(lambda: open('/nonexistent/x')), lambda: raised(lambda: b'\xff'.decode()), lambda: raised(lambda: '\ud800'.encode()),
    lambda: raised(lambda: {}['k']), lambda: KeyError(('a', 1)), lambda: KeyError(), lambda: Exception(), lambda: Exception(None), lambda: Exception(1, 2),
    lambda: Exception('a', 5, None), lambda: Exception(b'\xff'), lambda: Exception(['x'], {}), lambda: StopIteration(3), lambda: SystemExit(1), lambda: KeyboardInterrupt(),
    lambda: GeneratorExit(), lambda: ExceptionGroup('g', [ValueError(1), OSError(2, 'x')]), lambda: raised(lambda: 1 / 0), lambda: raised(lambda: int('x')),
    lambda: UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'bad'), lambda: ssl.SSLError(1, 'x'), lambda: asyncio.CancelledError(), lambda: queue.Empty(),
    lambda: Color.RED, lambda: Level.LOW, lambda: Perm.R, lambda: Perm(5), lambda: Point(1, 'y'), lambda: Data(), lambda: decimal.Decimal('NaN'), lambda: decimal.Decimal('1e9'),
    lambda: fractions.Fraction(1, 3), lambda: datetime.date(2020, 1, 1), lambda: datetime.timedelta(1.5), lambda: datetime.time(1), lambda: datetime.datetime.now(datetime.timezone.utc),
    lambda: pathlib.Path('/a/\udcff'), lambda: pathlib.PurePosixPath('x'), lambda: math, lambda: len, lambda: 'x'.join, lambda: functools.partial(len, 'x'), lambda: int, lambda: type,
    lambda: re.compile('x'), lambda: re.match('x', 'x'), lambda: NotImplemented, lambda: range(3), lambda: slice(1, 2), lambda: iter([1]), lambda: {}.items(), lambda: {1: 2}.keys(),
    lambda: frozenset('ab'), lambda: collections.OrderedDict(a=1), lambda: collections.Counter('aab'), lambda: collections.defaultdict(list), lambda: collections.deque([1]),
    lambda: types.SimpleNamespace(a=1), lambda: types.MappingProxyType({}), lambda: memoryview(b'x'), lambda: complex(1, -0.0), lambda: mock.Mock(), lambda: mock.MagicMock(),
    lambda: mock.Mock(spec=int), lambda: mock.Mock(spec=bool), lambda: mock.Mock(spec=str), lambda: mock.Mock(spec=float), lambda: mock.Mock(spec=Exception), lambda: mock.call(1),
    lambda: weakref.ref(Data), lambda: weakref.proxy(Data), lambda: weakref.proxy(BadStr()), lambda: Claims(int), lambda: Claims(float), lambda: Claims(str), lambda: Claims(bytes),
    lambda: Claims(dict), lambda: BadClass(), lambda: OwnStr('abc'), lambda: OwnStr('x' * 2000), lambda: GivesOwnStr(), lambda: OwnInt(5), lambda: OwnInt(-2 ** 70), lambda: OwnInt(2 ** 63 - 1),
    lambda: BadBool(), lambda: finished_task(3), lambda: asyncio.sleep, lambda: uuid.uuid5(uuid.NAMESPACE_DNS, 'x'), lambda: property(len), lambda: staticmethod(len), lambda: super(Data),
    lambda: Data.__init__, lambda: Data().__init__, lambda: types.CodeType, lambda: raised.__code__, lambda: datetime.timezone.utc, lambda: array_like(), lambda: -0.0, lambda: 5e-324,
    lambda: True, lambda: 0, lambda: '', lambda: b'']


class array_like(object):
    """Compares element by element, as arrays do."""
    def __eq__(self, o):
        return BadBool()
    __ne__ = __eq__
    __hash__ = None

    def __len__(self):
        return 2

    def __bool__(self):
        raise ValueError('ambiguous')


class I(int):
    pass


class HexI(int):
    def __str__(self):
        raise ValueError('x')
    __repr__ = __str__


class FloatStr(float):
    def __str__(self):
        raise ValueError('x')


def nested(n):
    x = []
    for _ in range(n):
        x = [x]
    return x


def selfref(n):
    x = {}
    x['me'] = x
    return x


def tb(name):
    g = {}
    try:
        exec(compile('def f():\n  raise ValueError()\nf()', name, 'exec'), g)
    except ValueError as e:
        return e.__traceback__


class Loader(object):
    def get_source(self, n):
        raise RuntimeError('no source')


def tbloader(n):
    g = {'__loader__': Loader(), '__name__': 'nomod', '__spec__': None}
    try:
        exec(compile('raise ValueError()', 'nofile%d.py' % n, 'exec'), g)
    except ValueError as e:
        return e.__traceback__


MAKE = {
    'everyday': lambda a: EVERYDAY[a % len(EVERYDAY)](),
    'badstr': lambda a: BadStr(), 'badboth': lambda a: BadBoth(), 'notstr': lambda a: NotStr(), 'substr': lambda a: SubStr('s' * a),
    'badattr': lambda a: BadAttr(), 'badlen': lambda a: BadLen(), 'surr': lambda a: Surr(), 'badexc': lambda a: BadExc(),
    'bigint': lambda a: 10 ** a, 'negint': lambda a: -(10 ** a), 'i': lambda a: I(a), 'hexi': lambda a: HexI(a), 'nested': nested, 'self': selfref,
    'tb': tb, 'tbloader': tbloader, 'type': lambda a: BadStr, 'lambda': lambda a: (lambda: 0), 'dec': lambda a: decimal.Decimal(a), 'uuid': lambda a: uuid.UUID(int=a),
    'date': lambda a: datetime.datetime(2020, 1, 1), 'set': lambda a: {1, 2}, 'gen': lambda a: (x for x in ()), 'big': lambda a: 'x' * a,
    'bigu': lambda a: '\u20ac' * a, 'bytes': lambda a: b'\xff' * a, 'bytearray': lambda a: bytearray(b'\x80'), 'mem': lambda a: memoryview(b'ab'),
    'biglist': lambda a: list(range(a)), 'float': lambda a: FloatStr(a), 'exc': lambda a: ValueError('\udcff'), 'obj': lambda a: object(), 'ellipsis': lambda a: Ellipsis,
}

HOSTILE = st.one_of(
    st.sampled_from([('!', k, 3) for k in sorted(MAKE) if k not in ('tb', 'everyday')]),
    st.sampled_from([('!', 'everyday', n) for n in range(len(EVERYDAY))]),
    st.sampled_from([('!', 'bigint', n) for n in (18, 19, 20, 40, 400, 5000)] + [('!', 'negint', n) for n in (18, 19, 20, 40, 5000)]),
    st.sampled_from([2 ** 63 - 1, 2 ** 63, -2 ** 63, -2 ** 63 - 1, 2 ** 64 - 1, 2 ** 64, 2 ** 65, -2 ** 64, math.nan, math.inf, -math.inf]),
    gen.ints(-2 ** 130, 2 ** 130),
    st.sampled_from(['\ud800', 'a\udfffb', '\udc80' * 3, '\ud83d\ude00', '\x00', '', '\uffff', 'x\ud800' * 600, '\udcff' * 2000]),
    st.text(st.characters(), max_size=8),
    st.text('\ud800\udbff\udc00\udfffa\u20ac\U0001f600', max_size=5),
    st.sampled_from([('!', 'big', n) for n in (1023, 1024, 1025, 70000, 300000)] + [('!', 'bigu', n) for n in (1024, 1025, 70000)]),
    st.sampled_from([('!', 'nested', n) for n in (10, 900, 100000)] + [('!', 'biglist', 3000)]),
    st.sampled_from([('!', 'tb', n) for n in ('plain.py', 'f\udc80.py', 'x' * 5000, '\u20ac.py', '<\udcff>')]),
    st.binary(max_size=6), st.none(), st.sampled_from([1j, (), [], {}, {1: 2}, frozenset([1])])).map(copy.deepcopy)

def has_truth(v):
    try:
        bool(mk(v))
        return True
    except Exception:
        return False


NAME = HOSTILE.filter(has_truth)
ORD = st.one_of(gen.text(max_len=6), st.integers(-5, 5), st.booleans(), st.floats(-2, 2))
OKEY = st.text('abc', min_size=1, max_size=3)
# objects usable as dictionary keys
HKEY = st.one_of(st.sampled_from([5, None, 1.5, b'\xff', True, (), ('a', 1), '\ud800', 'k\udcffk', '', ('!', 'badstr', 0), ('!', 'badboth', 0), ('!', 'notstr', 0),
                                  ('!', 'surr', 0), ('!', 'bigint', 5000), ('!', 'type', 0), ('!', 'substr', 2), ('!', 'big', 5000), ('!', 'obj', 0)]), OKEY)


@st.composite
def spans(draw):
    hostile = draw(st.sampled_from([True, True, False]))
    V = st.one_of(HOSTILE, HOSTILE, ORD) if hostile else ORD
    K = st.one_of(OKEY, HKEY) if hostile else OKEY
    name = draw(NAME) if hostile and draw(st.integers(0, 3)) == 0 else draw(OKEY)
    ops = []
    for _ in range(draw(st.integers(0, 5))):
        k = draw(st.integers(0, 9))
        if k < 4:
            ops.append(('tag', draw(K), draw(V)))
        elif k < 6:
            ops.append(('log', draw(st.lists(st.tuples(K, V), max_size=3))))
        elif k < 7:
            ops.append(('bag', draw(st.one_of(OKEY, HKEY) if hostile else OKEY), draw(V.filter(has_truth))))
        elif k < 8:
            ops.append(('name', draw(V)))
        elif k < 9:
            ops.append(('event', draw(V), draw(V)))
        else:
            ops.append(('child', draw(V.filter(has_truth))))
    return hostile, name, draw(st.lists(st.tuples(K, V), max_size=2)), ops


@st.composite
def cases(draw):
    proc = draw(st.one_of(st.just(('svc', [])), st.just(('svc', [])), st.tuples(st.one_of(NAME, gen.text(max_len=5)), st.lists(st.tuples(HKEY, HOSTILE), max_size=2))))
    return proc, draw(st.integers(1, 4)), draw(st.lists(spans(), min_size=1, max_size=5))


def mk(v):
    if isinstance(v, tuple) and len(v) == 3 and v[0] == '!':
        return MAKE[v[1]](v[2])
    return v


def ordinary(v):
    """What the wire must hold for a value without surprises, else None."""
    if type(v) is bool:
        return ('bool', v)
    if type(v) is int and -2 ** 63 <= v < 2 ** 63:
        return ('long', v)
    if type(v) is float and v == v:
        return ('double', v)
    if type(v) is int and abs(v) < 10 ** 1000:
        return ('string', str(v))
    if type(v) is str:
        try:
            v.encode('utf-8')
        except UnicodeEncodeError:
            return None
        return ('string', v[:1024])
    return None


def run(case, c):
    (svc, ptags), batch, specs = case
    with Sim() as sim:
        ch = FakeChannel(sim.io_loop)
        m = Counters()
        rep = Reporter(ch, queue_capacity=100, batch_size=batch, flush_interval=0.5, metrics_factory=m.factory)
        tags = {'ip': '1', 'hostname': 'h'}
        for k, v in ptags:
            tags[mk(k)] = mk(v)
        tr = Tracer(mk(svc), rep, ConstSampler(True), tags=tags)
        want = []
        for hostile, name, stags, ops in specs:
            op = mk(name)
            d = {}
            for k, v in stags:
                d[mk(k)] = mk(v)
            rec = [(k, v) for k, v in d.items()]
            sp = tr.start_span(op, tags=dict(d) or None)
            rec += [('sampler.type', 'const'), ('sampler.param', True)]
            logs = []
            spid = sp.span_id
            kids = []
            for o in ops:
                if o[0] == 'tag':
                    k, v = mk(o[1]), mk(o[2])
                    check(sp.set_tag(k, v) is sp, 'set_tag(%r, ...) did not return the span', k)
                    rec.append((k, v))
                elif o[0] == 'log':
                    f = {}
                    for k, v in o[1]:
                        f[mk(k)] = mk(v)
                    check(sp.log_kv(f) is sp, 'log_kv did not return the span')
                    logs.append(list(f.items()))
                elif o[0] == 'bag':
                    k, v = mk(o[1]), mk(o[2])
                    check(sp.set_baggage_item(k, v) is sp, 'set_baggage_item did not return the span')
                    logs.append([('event', 'baggage'), ('key', k), ('value', v)])
                elif o[0] == 'name':
                    op = mk(o[1])
                    check(sp.set_operation_name(op) is sp, 'set_operation_name did not return the span')
                elif o[0] == 'event':
                    e, p = mk(o[1]), mk(o[2])
                    sp.log_event(e, p)
                    logs.append([('event', e)] + ([('payload', p)] if p is not None else []))
                else:
                    kid = tr.start_span(mk(o[1]), child_of=sp)
                    kid.finish()
                    kids.append(kid.span_id)
            sp.finish()
            for k in kids:
                want.append((k, None, None, None, False))
            want.append((spid, op, rec, logs, hostile))
            if hostile:
                c.hit('hostile')
            else:
                c.label('ordinary')
        sim.advance(2.0)
        check(not sim.errors(), 'exception escaped into the event loop: %r', sim.errors()[:1])
        check(m.get(ERR) == 0, '%d of %d spans could not be sent: %r', m.get(ERR), len(want), case)
        got = [s for _, b in ch.datagrams for s in decode(b)['spans']]
        check([s['span_id'] for s in got] == [w[0] for w in want], '%d spans sent, %d recorded: %r', len(got), len(want), case)
        tr.close()
        sim.advance(1.0)
        for g, (sid, op, rec, logs, hostile) in zip(got, want):
            if rec is None:
                continue
            what = 'span %r of %r' % (g['operation'][:40], case)
            if type(op) is str and ordinary(op):
                check(g['operation'] == op, '%s: operation name sent as %.100r', what, g['operation'])
            compare(g['tags'], rec, what)
            check(len(g['logs']) == len(logs), '%s: %d logs, recorded %d', what, len(g['logs']), len(logs))
            for (_, gf), wf in zip(g['logs'], logs):
                if wf and type(wf[0][1]) is str and wf[0] == ('event', 'baggage') and len(gf) == 4:
                    check(gf[3] == ('override', 'string', 'true'), '%s: baggage log is %r', what, gf)
                    gf = gf[:3]
                compare(gf, wf, what)


def compare(got, rec, what):
    check(len(got) == len(rec), '%s: %d entries, recorded %d', what, len(got), len(rec))
    for (k, t, v), (wk, wv) in zip(got, rec):
        if type(wk) is str and ordinary(wk):
            check(k == wk, '%s: %.60r recorded, %.60r sent', what, wk, k)
        w = ordinary(wv)
        if w is not None:
            check((t, v) == w and type(v) is type(w[1]), '%s: %.40r holds %s %.100r, recorded %s %.100r', what, k, t, v, w[0], w[1])
        elif issubclass(type(wv), float):
            check(t == 'double', '%s: %r sent as %s', what, wv, t)
        elif type(wv) is str:
            # characters that can be encoded survive
            keep = [x for x in wv[:1024] if not '\ud800' <= x <= '\udfff']
            check(t == 'string', '%s: text sent as %s', what, t)
            it = iter(v)
            check(all(x in it for x in keep), '%s: %.60r sent as %.60r', what, wv, v)


TESTS = [Test('batches', cases, run, quick=9000, rule=RULE), volume.SPAN]
