"""C26: every Thrift message of the interfaces the client speaks is encoded and decoded as published."""
import importlib
import struct
from hypothesis import strategies as st
from .. import boot, gen
from .. import thriftref as ref
from ..core import Test, check, HarnessError
from ..simloop import Sim
from thrift.protocol import TBinaryProtocol, TCompactProtocol
from thrift.protocol.TProtocol import TProtocolException
from thrift.Thrift import TApplicationException
from thrift.transport import TTransport
from tornado.concurrent import Future

PROP = 'C26'
RULE = ('values of every message type of the agent, collector, sampling, Zipkin and test-service interfaces in both protocols, with '
        'unknown, misplaced and missing fields, and calls of every service method; non-trivial: nested messages or foreign fields, '
        'or two calls in flight')
ASSUMPTIONS = ['binary fields hold UTF-8 text', 'the stubs of the test service (TracedService) need tornado before 6 and are not run', 'the published interface is the table in vp/thriftref.py']
env = boot.env

PKG = {'jaeger': 'jaeger_client.thrift_gen.jaeger', 'zipkincore': 'jaeger_client.thrift_gen.zipkincore',
       'sampling': 'jaeger_client.thrift_gen.sampling', 'agent': 'jaeger_client.thrift_gen.agent',
       'tracetest': 'crossdock.thrift_gen.tracetest'}
RANGE = {'i16': 2 ** 15, 'i32': 2 ** 31, 'i64': 2 ** 63}


def module(name):
    pkg, m = name.split('.')
    return importlib.import_module(PKG[pkg] + '.' + m)


def cls(name):
    pkg, n = name.split('.')
    return getattr(importlib.import_module(PKG[pkg] + '.ttypes'), n)


def scalars(k):
    if k in RANGE:
        r = RANGE[k]
        edge = [0, 1, -1, r - 1, -r, 63, 64, 127, 128, -64, -65, r // 2, 255, 256]
        return st.one_of(st.sampled_from(edge), st.integers(-r, r - 1))
    if k == 'double':
        return st.one_of(st.sampled_from([0.0, -0.0, 1.0, 0.1, float('inf'), float('-inf'), 1e308, 5e-324, -1.5]),
                         st.floats(allow_nan=False))
    if k == 'bool':
        return st.booleans()
    return st.one_of(gen.text(12), st.sampled_from(['', 'a', '\xe9\u20ac\U0001f600', 'x' * 127, 'y' * 128, '\0', 'z' * 300]))


@st.composite
def plain(draw, t, depth=0, full=False):
    k = ref.kind(t)
    if k == 'list':
        n = draw(st.sampled_from([0, 1, 1, 2, 3] if depth < 3 else [0, 1]))
        if depth == 0 and draw(st.integers(0, 9)) == 0:
            n = draw(st.one_of(st.sampled_from([14, 15, 16, 40, 129]), gen.sizes(300)))
            one = draw(plain(t[1], depth + 2))
            return [one] * n
        return [draw(plain(t[1], depth + 1)) for _ in range(n)]
    if k != 'struct':
        return draw(scalars(k))
    out = {}
    for i, (n, ft, req) in ref.S[t[1]].items():
        if not req and (depth > 4 or not draw(st.booleans())):
            continue
        out[n] = draw(plain(ft, depth + 1))
    return out


def defaults(t, v):
    """the value as an object built from it holds it: fields with a default that were not given"""
    k = ref.kind(t)
    if k == 'list':
        return [defaults(t[1], x) for x in v]
    if k != 'struct':
        return v
    out = {n: defaults(ft, v[n]) for i, (n, ft, _) in ref.S[t[1]].items() if v.get(n) is not None}
    for (s, n), d in ref.DEFAULTS.items():
        if s == t[1] and n not in out:
            out[n] = d
    return out


def build(t, v):
    k = ref.kind(t)
    if k == 'list':
        return [build(t[1], x) for x in v]
    if k != 'struct':
        return v
    return cls(t[1])(**{n: build(ft, v[n]) for i, (n, ft, _) in ref.S[t[1]].items() if n in v})


def unbuild(t, o):
    k = ref.kind(t)
    if o is None:
        return None
    if k == 'list':
        return [unbuild(t[1], x) for x in o]
    if k != 'struct':
        return o
    check(type(o) is cls(t[1]), 'a %s was read as %s', t[1], type(o).__name__)
    out = {}
    for i, (n, ft, _) in ref.S[t[1]].items():
        x = unbuild(ft, getattr(o, n))
        if x is not None:
            out[n] = x
    return out


def norm(v):
    if isinstance(v, dict):
        return {k: norm(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, float):
        return ('f', struct.pack('>d', v))
    return v


def proto(kind, trans):
    return (TCompactProtocol.TCompactProtocol if kind == 'compact' else TBinaryProtocol.TBinaryProtocol)(trans)


def write(kind, o):
    b = TTransport.TMemoryBuffer()
    o.write(proto(kind, b))
    return b.getvalue()


def read(kind, c, data):
    b = TTransport.TMemoryBuffer(data)
    o = c()
    o.read(proto(kind, b))
    return o, b.read(1 << 20)


FILL = {'string': 's', 'i16': 1, 'i32': 2, 'i64': 3, 'double': 0.5, 'bool': True, 'list': []}


# ---- messages ---------------------------------------------------------------------------------------
STRUCTS = sorted(ref.S)


@st.composite
def foreign(draw):
    """an extra field: (id choice, type, payload)"""
    k = draw(st.sampled_from(['string', 'i16', 'i32', 'i64', 'double', 'bool', 'list', 'struct', 'list2']))
    if k == 'list':
        et = draw(st.sampled_from(['string', 'i32', 'double', 'i64']))
        p = (et, [draw(scalars(et)) for _ in range(draw(st.sampled_from([0, 1, 2, 16])))])
    elif k == 'list2':
        k, p = 'list', ('struct', [{1: ('string', 'in'), 40: ('bool', True)}])
    elif k == 'struct':
        p = {draw(st.integers(1, 300)): ('i64', 7), 2: ('list', ('i32', [1, 2]))}
    else:
        p = draw(scalars(k))
    return (draw(st.integers(0, 30)), draw(st.booleans()), k, p)


@st.composite
def messages(draw):
    name = draw(st.sampled_from(STRUCTS))
    return (name, draw(plain(('struct', name))), draw(plain(('struct', name))) if draw(st.integers(0, 3)) == 0 else None,
            draw(st.sampled_from(['compact', 'compact', 'binary'])), draw(st.lists(foreign(), max_size=3)),
            draw(st.integers(0, 20)))


def run(case, c):
    name, value, other, kind, extra, drop = case
    t = ('struct', name)
    full = defaults(t, value)
    c_ = cls(name)
    o = build(t, value)
    check(norm(unbuild(t, o)) == norm(full), 'a new %s holds %r, given %r', name, unbuild(t, o), value)
    o.validate()
    # encoding
    data = write(kind, o)
    try:
        got, rest = ref.decode(kind, data)
    except (ref.Bad, UnicodeDecodeError, struct.error, KeyError) as e:
        check(False, '%s is not encoded as a valid %s message: %s', name, kind, e)
    check(not rest, '%s is followed by %d stray bytes', name, len(rest))
    want = ref.untyped('struct', ref.to_dyn(t, full))
    check(ref.untyped('struct', got) == want, '%s encodes as %r, the published form is %r', name, ref.untyped('struct', got), want)
    # decoding its own bytes, and bytes of another sender with fields this version does not know
    back, rest = read(kind, c_, data)
    check(not rest, '%d bytes of %s were not read', len(rest), name)
    check(norm(unbuild(t, back)) == norm(full), '%s reads back as %r, was %r', name, unbuild(t, back), full)
    check(back == o and not back != o, '%s is not equal to its copy', name)
    dyn = dict(ref.to_dyn(t, value))
    mistyped = []
    for where, misplace, fk, p in extra:
        ids = sorted(ref.S[name])
        free = [i for i in ids if i not in dyn and ref.kind(ref.S[name][i][1]) != fk]
        if misplace and free:
            i = free[where % len(free)]
            mistyped.append(i)
        else:
            i = [1000, 13, 17, 32767, 40, 64, 29][where % 7]
        if i in dyn:
            continue
        dyn[i] = (fk, p)
        c.hit('foreign field' if i not in mistyped else 'field of another type')
    enc = ref.encode(kind, 'struct', dyn)
    tail = b'\x15\x00rest'
    back, rest = read(kind, c_, enc + tail)
    check(rest == tail, 'reading a %s consumed %d bytes of what follows or left %d of its own', name, len(tail) - len(rest), len(rest))
    check(norm(unbuild(t, back)) == norm(full), '%s of another sender reads as %r, it was %r', name, unbuild(t, back), full)
    if other is not None:
        o2 = build(t, other)
        same = defaults(t, other) == full
        check((o2 == o) == same and (o2 != o) == (not same), 'equality of %r and %r is %r', value, other, o2 == o)
        c.label('two values')
    # required fields
    req = [n for i, (n, ft, r) in sorted(ref.S[name].items()) if r]
    if req:
        n = req[drop % len(req)]
        setattr(o, n, None)
        try:
            o.validate()
        except TProtocolException:
            pass
        else:
            check(False, '%s without its required %s was accepted', name, n)
        c.label('required field missing')
    if any(isinstance(x, (dict, list)) and x for x in value.values()):
        c.hit('nested')
    c.label(name.split('.')[0], kind)


# ---- enumerations -----------------------------------------------------------------------------------
def enum_cases():
    return st.sampled_from(sorted(ref.ENUMS)).flatmap(lambda e: st.tuples(st.just(e), st.integers(0, len(ref.ENUMS[e]) - 1)))


def run_enum(case, c):
    e, i = case
    k = cls(e)
    n = ref.ENUMS[e][i]
    check(getattr(k, n) == i and k._VALUES_TO_NAMES[i] == n and k._NAMES_TO_VALUES[n] == i and
          len(k._VALUES_TO_NAMES) == len(k._NAMES_TO_VALUES) == len(ref.ENUMS[e]), '%s.%s is %r', e, n, getattr(k, n))
    c.hit(e)


# ---- services ---------------------------------------------------------------------------------------
@st.composite
def calls(draw):
    svc = draw(st.sampled_from(sorted({k[0] for k in ref.SERVICES})))
    methods = [k for k in sorted(ref.SERVICES) if k[0] == svc]
    ops = []
    for _ in range(draw(st.integers(1, 4))):
        m = draw(st.sampled_from(methods))
        arg, at, rt = ref.SERVICES[m]
        ops.append((m[1], draw(plain(at, 1)), draw(plain(rt, 1)) if rt else None, draw(st.sampled_from([0, 0, 0.5, 1.0, 2.0])),
                    draw(st.sampled_from(['ok', 'ok', 'ok', 'ok', 'nothing', 'unknown']))))
    return svc, draw(st.sampled_from(['compact', 'compact', 'binary'])), ops, draw(st.lists(st.integers(0, 5), max_size=4))


class Wire(object):
    """client side transport: frames out, frames in"""

    def __init__(self, loop):
        self.io_loop = loop
        self.out = []
        self.buf = b''
        self.frames = []
        self.waiting = None

    def write(self, b):
        self.buf += bytes(b)

    def flush(self):
        self.out.append(self.buf)
        self.buf = b''

    def isOpen(self):
        return True

    def readFrame(self):
        f = Future()
        if self.frames:
            f.set_result(self.frames.pop(0))
        else:
            self.waiting = f
        return f

    def feed(self, b):
        if self.waiting is not None:
            f, self.waiting = self.waiting, None
            f.set_result(b)
        else:
            self.frames.append(b)


class Factory(object):
    def __init__(self, kind):
        self.kind = kind

    def getProtocol(self, trans):
        return proto(self.kind, trans)


def run_calls(case, c):
    svc, kind, ops, order = case
    m = module(svc)
    with Sim() as sim:
        w = Wire(sim.io_loop)
        client = m.Client(w, Factory(kind))
        sim.advance(0)
        handled = []

        class Handler(object):
            def __getattr__(self, name):
                def h(arg):
                    i = self.current
                    handled.append((name, unbuild(ref.SERVICES[svc, name][1], arg)))
                    _, _, res, delay, how = ops[i]
                    rt = ref.SERVICES[svc, name][2]
                    r = None if rt is None or how == 'nothing' else build(rt, res)
                    if not delay:
                        return r
                    f = Future()
                    sim.io_loop.call_later(delay, lambda: f.set_result(r))
                    return f
                return h
        handler = Handler()
        server = m.Processor(handler)
        futs = []
        for name, arg, res, delay, how in ops:
            argname, at, rt = ref.SERVICES[svc, name]
            futs.append(getattr(client, name)(build(at, arg)))
            check((futs[-1] is None) == (rt is None), '%s returned %r', name, futs[-1])
        check(len(w.out) == len(ops) and not w.buf, '%d messages sent for %d calls', len(w.out), len(ops))
        seqs = []
        pend = []
        outs = []
        for i, (name, arg, res, delay, how) in enumerate(ops):
            argname, at, rt = ref.SERVICES[svc, name]
            try:
                n, mt, seq, args, rest = ref.decode_message(kind, w.out[i])
            except (ref.Bad, UnicodeDecodeError, struct.error, KeyError) as e:
                check(False, 'call of %s is not a valid message: %s', name, e)
            seqs.append(seq)
            want = {1: (ref.kind(at), ref.untyped(at, ref.to_dyn(at, defaults(at, arg))))}
            check((n, mt, rest) == (name, 4 if rt is None else 1, b''), 'call of %s is sent as %r type %d', name, n, mt)
            check(ref.untyped('struct', args) == want, '%s is called with %r, expected %r', name, ref.untyped('struct', args), want)
            data = w.out[i]
            if how == 'unknown' and rt is not None:
                data = ref.encode_message(kind, 'noSuchMethod', 1, seq, args)
            tin, tout = TTransport.TMemoryBuffer(data), TTransport.TMemoryBuffer()
            outs.append(tout)
            handler.current = i
            before = len(handled)
            pend.append(server.process(proto(kind, tin), proto(kind, tout)))
            if data is w.out[i]:
                check(len(handled) == before + 1 and handled[-1][0] == name and
                      norm(handled[-1][1]) == norm(defaults(at, arg)), 'the handler got %r, sent was %s(%r)', handled[before:], name, arg)
            else:
                check(len(handled) == before, 'an unknown method reached the handler: %r', handled[before:])
                n, mt, s, v, rest = ref.decode_message(kind, tout.getvalue())
                check((n, mt, s, rest) == ('noSuchMethod', 3, seq, b'') and v.get(2) == ('i32', 1),
                      'an unknown method is answered with %r', (n, mt, s, v))
                c.hit('unknown method')
        check(len(set(seqs)) == len(seqs), 'calls share a sequence id: %r', seqs)
        sim.advance(5)
        replies = []
        for i, (name, arg, res, delay, how) in enumerate(ops):
            argname, at, rt = ref.SERVICES[svc, name]
            out = outs[i].getvalue()
            if rt is None:
                check(out == b'', 'a one-way call was answered with %r', out)
                continue
            if how != 'unknown':
                n, mt, s, v, rest = ref.decode_message(kind, out)
                want = {} if how == 'nothing' else {0: (ref.kind(rt), ref.untyped(rt, ref.to_dyn(rt, defaults(rt, res))))}
                check((n, mt, s, rest) == (name, 2, seqs[i], b'') and ref.untyped('struct', v) == want,
                      '%s answered %r, expected %r', name, (n, mt, s, v), want)
            else:
                n, mt, s, v, rest = ref.decode_message(kind, out)
                out = ref.encode_message(kind, name, 3, s, v)
            replies.append((i, out))
        if len(replies) > 1:
            c.hit('several calls in flight')
        for k in order:                      # replies arrive in any order
            if replies:
                replies.append(replies.pop(k % len(replies)))
        for i, out in replies:
            check(not futs[i].done(), 'a call finished before it was answered')
            w.feed(out)
            sim.advance(0.01)
            check(futs[i].done(), 'the answer did not reach call %d', i)
            e = futs[i].exception()
            how = ops[i][4]
            rt = ref.SERVICES[svc, ops[i][0]][2]
            if how == 'ok':
                check(e is None, 'call failed: %r', e)
                check(norm(unbuild(rt, futs[i].result())) == norm(defaults(rt, ops[i][2])), 'call returned %r, the answer was %r',
                      unbuild(rt, futs[i].result()), ops[i][2])
            else:
                check(isinstance(e, TApplicationException) and e.type == (5 if how == 'nothing' else 1), 'call gave %r', e)
                c.label(how)
        if handled:
            c.hit('called ' + svc)
        check(not sim.errors(), 'exception in the event loop: %r', sim.errors()[:1])


TESTS = [
    Test('messages', messages, run, quick=16000, rule=RULE, examples=[
        (n, {f: FILL[ref.kind(t)] for f, t, r in ref.S[n].values() if r or ref.kind(t) in FILL and i % 2}, None, kind,
         [(i % 7, False, k, p)], 0)
        for n in STRUCTS if not any(r and ref.kind(t) not in FILL for f, t, r in ref.S[n].values())
        for kind in ('compact', 'binary')
        for i, (k, p) in enumerate([('bool', True), ('bool', False), ('i16', 3), ('i32', -1), ('i64', 2 ** 40), ('double', 0.5),
                                    ('string', 'text'), ('list', ('double', [1.0])), ('struct', {9: ('i64', 7)})])]),
    Test('enums', enum_cases, run_enum, quick=400, rule=RULE),
    Test('services', calls, run_calls, quick=5000, rule=RULE),
]
