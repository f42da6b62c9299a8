"""C17: baggage is an isolated inherited map; last write wins; writes are logged; concurrent writes are kept."""
import opentracing
from hypothesis import strategies as st
from .. import boot, gen, sched, volume
from ..core import Test, check
from ..util import spice, tracer, ConstSampler, InMemoryReporter, SpanContext, FORMATS

PROP = 'C17'
RULE = ('trees of spans grown by every way of starting one (explicit parent, context, references, active span, extracted carrier), with '
        'writes, removals, injections, carrier changes and context snapshots in any order; threads writing baggage on one span while '
        'others start children, inject and read; non-trivial: a write on a span that already has relatives, snapshots or an older value')
ASSUMPTIONS = ['baggage keys and values are strings; the maps returned by the API are not themselves modified by the caller']
env = boot.env

KEYS = st.one_of(st.sampled_from(['a', 'b', 'a', 'b', 'A', 'a-b', 'a_b', 'key', 'value', 'event', 'override']), gen.text(8))
VALS = st.one_of(st.sampled_from(['', '0', 'x', 'y', 'x', 'None', 'false']), gen.text(12))
TEXTISH = ('text', 'http', 'binary')


@st.composite
def trees(draw):
    sampled, kw = draw(st.booleans()), draw(gen.settings('max_tag_value_length', 'debug_id_header'))
    ops = []
    for _ in range(draw(st.integers(2, 22))):
        k = draw(st.integers(0, 20))
        i = draw(st.integers(0, 7))
        if k == 20:
            # a larger map, part of which is likely to be written again after the next forks
            n = draw(st.sampled_from([3, 5, 8, 9, 10, 17, 33]))
            ops.extend(('set', i, 'm%d' % j, 'v') for j in range(n))
            for _ in range(draw(st.integers(0, 2))):
                ops.append(draw(st.sampled_from([('snap', i), ('start', 'child', i, 0, None), ('start', 'ctx', i, 0, None), ('hop', i, 'text', True)])))
            ops.extend(('set', i, 'm%d' % j, v) for j, v in draw(st.lists(st.tuples(st.integers(0, n), st.sampled_from(['w', 'v', '', None])), max_size=3)))
        elif k < 8:
            ops.append(('set', i, draw(KEYS), draw(st.one_of(VALS, VALS, st.none()))))
        elif k < 13:
            how = draw(st.sampled_from(['child', 'child', 'ctx', 'ref', 'follows', 'refs', 'active', 'root', 'snap', 'scope']))
            ops.append(('start', how, i, draw(st.integers(0, 7)), draw(st.sampled_from([None, None, 'server', 'client']))))
        elif k < 14:
            ops.append(('snap', i))
        elif k < 16:
            ops.append(('hop', i, draw(st.sampled_from(TEXTISH)), draw(st.booleans())))
        elif k < 17:
            ops.append(('in', draw(st.dictionaries(st.sampled_from(['a', 'b', 'key']), st.sampled_from(['1', 'z', '']), max_size=2)),
                        draw(st.sampled_from(['trace', 'bare', 'adhoc']))))
        elif k < 18:
            ops.append(('prio', i, draw(st.sampled_from([0, 1]))))
        elif k < 19:
            ops.append(('finish', i))
        else:
            ops.append(('again', i))
    return sampled, ops, kw


def entry(lg):
    return {f.key: (f.vStr if f.vStr is not None else f.vBool if f.vBool is not None else f.vLong) for f in lg.fields}


def clean(s):
    return s.encode('utf-8', 'replace').decode('utf-8')[:1024]



class S(object):
    def __init__(self, span, model):
        self.span = span
        self.model = dict(model)
        c = span.context
        self.ids = (c.trace_id, c.span_id, c.parent_id)
        self.flags = c.flags
        self.log = []
        self.used = False


def run(case, c):
    sampled, ops, kw = case
    env.virtual = True
    tr = tracer(sampler=ConstSampler(sampled), extra_codecs={}, **kw)
    header, prefix = kw.get('trace_id_header', 'uber-trace-id'), kw.get('baggage_header_prefix', 'uberctx-')
    nodes = [S(tr.start_span('s'), {})]
    snaps = []         # (context, baggage, ids, flags)
    carriers = []      # (format, carrier, baggage)

    def start(n, fn):
        if len(nodes) < 12:
            sp = fn()
            nodes.append(S(sp, n))

    for op in ops:
        if op[0] == 'set':
            n = nodes[op[1] % len(nodes)]
            k, v = op[2], op[3]
            if n.used or k in n.model:
                c.hit('write after fork' if n.used else 'overwrite' if v is not None else 'remove')
            prev = n.model.get(k)
            r = n.span.set_baggage_item(k, v)
            check(r is n.span, 'set_baggage_item returned %r', r)
            if v is None:
                n.model.pop(k, None)
            else:
                n.model[k] = v
            if n.span.is_sampled():
                n.log.append((k, v, bool(prev)))
        elif op[0] == 'start':
            p, q = nodes[op[2] % len(nodes)], nodes[op[3] % len(nodes)]
            how = op[1]
            tags = dict(spice(ops.index(op)), **({'tags': {'span.kind': op[4]}} if op[4] else {}))
            if op[4] == 'server' and kw.get('one_span_per_rpc') and how != 'root':
                c.label('shared span')
            p.used = p.used or how != 'root'
            if how == 'child':
                start(p.model, lambda: tr.start_span(**tags, child_of=p.span))
            elif how == 'ctx':
                start(p.model, lambda: tr.start_span(**tags, child_of=p.span.context))
            elif how == 'ref':
                start(p.model, lambda: tr.start_span(**tags, references=opentracing.child_of(p.span.context)))
            elif how == 'follows':
                start(p.model, lambda: tr.start_span(**tags, references=[opentracing.follows_from(p.span.context)]))
            elif how == 'refs':
                start(p.model, lambda: tr.start_span(**tags, references=[opentracing.child_of(p.span.context),
                                                                     opentracing.follows_from(q.span.context)]))
            elif how == 'active':
                with tr.scope_manager.activate(p.span, False):
                    start(p.model, lambda: tr.start_span(**tags))
            elif how == 'scope':
                with tr.scope_manager.activate(p.span, False):
                    if len(nodes) < 12:
                        with tr.start_active_span(**tags, finish_on_close=False) as sc:
                            nodes.append(S(sc.span, p.model))
            elif how == 'root':
                with tr.scope_manager.activate(p.span, False):
                    start({}, lambda: tr.start_span(**tags, ignore_active_span=True))
            elif snaps:
                ctx, bag, _, _ = snaps[op[3] % len(snaps)]
                start(bag, lambda: tr.start_span(**tags, child_of=ctx))
        elif op[0] == 'snap':
            n = nodes[op[1] % len(nodes)]
            ctx = n.span.context
            snaps.append((ctx, dict(n.model), (ctx.trace_id, ctx.span_id, ctx.parent_id), None))
            n.used = True
        elif op[0] == 'hop':
            n = nodes[op[1] % len(nodes)]
            n.used = True
            fmt = op[2]
            safe = {k: v for k, v in n.model.items()}
            carrier = bytearray() if fmt == 'binary' else {}
            tr.inject(n.span if op[3] else n.span.context, FORMATS[fmt], carrier)
            check(n.span.context.baggage == n.model, 'inject changed the baggage: %r', case)
            ctx = tr.extract(FORMATS[fmt], carrier)
            low = [k.lower() for k in safe]
            # equality of what arrives is decided elsewhere; here it is the starting point of another span
            got = dict(ctx.baggage)
            if fmt == 'binary':
                check(got == safe, 'binary hop carries %r, expected %r', got, safe)
            elif len(set(low)) == len(low) and all(k for k in low):
                check(set(got.values()) == set(safe.values()), 'hop carries %r, expected %r', got, safe)
            start(got, lambda: tr.start_span('s', child_of=ctx))
            snaps.append((ctx, got, (ctx.trace_id, ctx.span_id, ctx.parent_id), ctx.flags))
            carriers.append((fmt, carrier))
        elif op[0] == 'in':
            carrier = {}
            bag = {k: v for k, v in op[1].items()}
            if op[2] == 'adhoc':
                bag = {k: v for k, v in bag.items() if v}
                carrier['jaeger-baggage'] = ', '.join('%s=%s' % kv for kv in bag.items())
            else:
                for k, v in bag.items():
                    carrier[prefix + k] = v
            if op[2] == 'trace':
                carrier[header] = '7:8:0:1'
            ctx = tr.extract(FORMATS['text'], carrier)
            if ctx is not None:
                check(ctx.baggage == bag, 'extracted baggage %r, expected %r', ctx.baggage, bag)
                start(bag, lambda: tr.start_span('s', child_of=ctx))
                snaps.append((ctx, bag, (ctx.trace_id, ctx.span_id, ctx.parent_id), ctx.flags))
            carriers.append(('text', carrier))
        elif op[0] == 'again':
            if carriers:       # reuse and change a carrier that was already read or written
                fmt, carrier = carriers[op[1] % len(carriers)]
                if fmt == 'binary':
                    del carrier[len(carrier) // 2:]
                else:
                    for k in list(carrier):
                        carrier[k] = 'changed'
                    carrier[prefix + 'a'] = 'changed'
                c.label('carrier changed')
        elif op[0] == 'prio':
            n = nodes[op[1] % len(nodes)]
            n.span.set_tag('sampling.priority', op[2])
            n.flags = n.span.context.flags
        else:
            nodes[op[1] % len(nodes)].span.finish()
        for j, n in enumerate(nodes):
            x = n.span.context
            check(dict(x.baggage) == n.model, 'span %d has baggage %r, expected %r after %r of %r', j, x.baggage, n.model, op, case)
            check((x.trace_id, x.span_id, x.parent_id) == n.ids, 'span %d changed ids after %r of %r', j, op, case)
            check(x.flags == n.flags, 'span %d changed flags after %r of %r', j, op, case)
            for k in list(n.model) + ['a', 'zz']:
                check(n.span.get_baggage_item(k) == n.model.get(k), 'item %r is %r: %r', k, n.span.get_baggage_item(k), case)
            got = [entry(lg) for lg in n.span.logs]
            want = []
            for k, v, over in n.log:
                e = {'event': 'baggage', 'key': clean(k), 'value': clean(v) if v is not None else 'None'}
                if over:
                    e['override'] = 'true'
                want.append(e)
            for e in got:
                e.setdefault('value', 'None')
            check(got == want, 'span %d logged %r, expected %r after %r of %r', j, got, want, op, case)
        for ctx, bag, ids, fl in snaps:
            check(dict(ctx.baggage) == bag, 'a context obtained earlier has baggage %r, expected %r after %r of %r', ctx.baggage, bag, op, case)
            check((ctx.trace_id, ctx.span_id, ctx.parent_id) == ids and (fl is None or ctx.flags == fl), 'an earlier context changed after %r of %r',
                  op, case)


# --- threads ---------------------------------------------------------------------------------------------
@st.composite
def races(draw):
    n = draw(st.integers(2, 3))
    op = st.one_of(
        st.tuples(st.just('set'), st.sampled_from(['own', 'own', 'shared'])),
        st.tuples(st.just('set'), st.sampled_from(['own', 'own', 'shared'])),
        st.tuples(st.just('child'), st.none()), st.tuples(st.just('inject'), st.sampled_from(sorted(FORMATS))),
        st.tuples(st.just('prio'), st.sampled_from([0, 1])), st.tuples(st.just('drop'), st.none()),
        st.tuples(st.just('tag'), st.none()))
    threads = [draw(st.lists(op, min_size=1, max_size=4)) for _ in range(n)]
    return draw(st.booleans()), draw(st.dictionaries(st.sampled_from(['shared', 'keep', 'drop0', 'drop1']), st.just('0'), max_size=4)), \
        threads, draw(sched.plans(st, 500, 8))


def run_race(case, c):
    sampled, start, threads, plan = case
    env.virtual = True
    tr = tracer(sampler=ConstSampler(True))
    sp = tr.start_span('s', child_of=SpanContext(7, 8, 9, 1 if sampled else 0, dict(start)))
    me = (sp.trace_id, sp.span_id, sp.parent_id)
    kids, early = [], sp.context
    shared_writes = []
    done = [[] for _ in threads]
    tags = []

    def body(k):
        def f():
            for i, (o, a) in enumerate(threads[k]):
                v = '%d.%d' % (k, i)
                if o == 'set':
                    key = 'shared' if a == 'shared' else 'k%d-%d' % (k, i)
                    sp.set_baggage_item(key, v)
                    done[k].append((key, v))
                elif o == 'drop':
                    sp.set_baggage_item('drop%d' % k, None)
                    done[k].append(('drop%d' % k, None))
                elif o == 'child':
                    mine = len(done[k])
                    kid = tr.start_span('kid', child_of=sp)
                    mybag = dict(kid.context.baggage)
                    kids.append((kid, k, mine, mybag))
                    if i % 2:
                        kid.set_baggage_item('kid', v)
                        mybag['kid'] = v
                elif o == 'inject':
                    car = bytearray() if a == 'binary' else {}
                    tr.inject(sp.context, FORMATS[a], car)
                elif o == 'prio':
                    sp.set_tag('sampling.priority', a)
                else:
                    sp.set_tag('t' + v, v)
                    tags.append('t' + v)
        return f
    s = sched.Sched(plan)
    s.run([body(k) for k in range(len(threads))])
    bag = dict(sp.context.baggage)
    want = dict(start)
    last_shared = []
    for d in done:
        sh = [v for key, v in d if key == 'shared']
        last_shared += sh[-1:]
        for key, v in d:
            if v is None:
                want.pop(key, None)
            elif key != 'shared':
                want[key] = v
    if last_shared:
        check(bag.get('shared') in last_shared, 'shared item is %r, last writes are %r: %r', bag.get('shared'), last_shared, case)
        want['shared'] = bag.get('shared')
    check(bag == want, 'baggage is %r, expected %r: %r', bag, want, case)
    check(dict(early.baggage) == start, 'the context obtained first changed to %r: %r', early.baggage, case)
    check((sp.trace_id, sp.span_id, sp.parent_id) == me, 'ids changed: %r', case)
    for kid, k, mine, bagk in kids:
        check(kid.trace_id == 7 and kid.parent_id == sp.span_id, 'child lineage: %r', case)
        check(dict(kid.context.baggage) == bagk, 'baggage of a child changed to %r from %r: %r', kid.context.baggage, bagk, case)
        for key, v in done[k][:mine]:
            if v is None:
                check(key not in bagk, 'child sees the removed item %r: %r', key, case)
            elif key != 'shared':
                check(bagk.get(key) == v, 'child lacks %r: %r', key, case)
            else:
                check('shared' in bagk, 'child lacks %r: %r', key, case)
        for j, d in enumerate(done):
            there = [key in bagk for key, v in d if v is not None and key != 'shared']
            check(there == sorted(there, reverse=True), 'child sees a later write without an earlier one: %r', case)
        for key in bagk:
            check(key in want or key in start or key == 'kid', 'child sees %r: %r', key, case)
    prios = [a for t in threads for o, a in t if o == 'prio']
    fl = 1 if sampled else 0
    if not prios:
        check(sp.flags == fl, 'flags changed to %d: %r', sp.flags, case)
    elif set(prios) == {0}:
        check(sp.flags == 0, 'flags %d after priority 0: %r', sp.flags, case)
    elif set(prios) == {1}:
        check(sp.flags == fl | 3, 'flags %d after priority 1: %r', sp.flags, case)
    else:
        check(sp.flags in (0, 3), 'flags are %d: %r', sp.flags, case)
    if sampled and 0 not in prios:
        log = [entry(x) for x in sp.logs]
        n = sum(len(d) for d in done)
        check(len(log) == n, '%d writes, %d log entries: %r', n, len(log), case)
        check(sorted((e['key'], str(e['value'])) for e in log) == sorted((k, str(v)) for d in done for k, v in d), 'logged %r: %r', log, case)
        nsh = sum(key == 'shared' for d in done for key, v in d)
        over = sum(e['key'] == 'shared' and e.get('override') == 'true' for e in log)
        check(over == nsh - (1 if nsh and 'shared' not in start else 0), '%d of %d writes marked as override: %r', over, nsh, case)
        check(all(('override' in e) == (e['key'] in start) for e in log if e['key'] != 'shared' and e['key'][:4] != 'drop'), 'override marks %r: %r',
              log, case)
        got = [t.key for t in sp.tags if t.key[0] == 't']
        check(sorted(got) == sorted(tags), 'tags %r: %r', got, case)
    if s.preempted_mid:
        c.hit('interleaved')


TESTS = [
    Test('trees', trees, run, quick=12000, rule=RULE),
    Test('races', races, run_race, quick=8000, rule=RULE),
    volume.BAGGAGE,
]
