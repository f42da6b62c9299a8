"""C16: a span is reported exactly once iff sampled at finish; concurrent recording loses and duplicates nothing."""
from hypothesis import strategies as st
from .. import boot, gen, sched, volume
from ..agent import Counters, FakeChannel, decode, ERR
from ..core import Injected, Test, check
from ..simloop import Sim
from ..util import spice, tracer, ConstSampler, InMemoryReporter, SpanContext
from jaeger_client.reporter import BaseReporter, Reporter

PROP = 'C16'
RULE = ('sequential: finishes by every route (finish, with-block, failing with-block, active scopes), with priority changes between, times '
        'and repeats; threads: two to three threads record on and finish one span, with bytecode-level switches, into an in-memory and '
        'a remote reporter; non-trivial: a second finish, an unsampled finish, or a switch inside the client')
ASSUMPTIONS = ['a finish while the span is not sampled does not end it (as in the existing code)']
env = boot.env


class Recorder(BaseReporter):
    def __init__(self, calls=()):
        self.got = []
        self.calls = calls

    def report_span(self, span):
        self.got.append((span, span.end_time, span.start_time))
        for how in self.calls:
            # a reporter may look at the span, and even touch it
            if how == 'read':
                span.is_sampled(), span.get_baggage_item('x'), span.is_rpc(), repr(span), span.flags, span.context.baggage
            elif how == 'tag':
                span.set_tag('reported', 1)
            elif how == 'log':
                span.log_kv({'event': 'reported'})
            elif how == 'name':
                span.set_operation_name('r')
            elif how == 'bag':
                span.set_baggage_item('r', 'v')
            elif how == 'finish':
                span.finish(7.0)
            elif how == 'child':
                span.tracer.start_span('kid', child_of=span)


@st.composite
def histories(draw):
    root = draw(st.booleans())
    ops = []
    for _ in range(draw(st.integers(1, 14))):
        k = draw(st.integers(0, 15))
        i = draw(st.integers(0, 5))
        if k < 3:
            ops.append(('start', draw(st.sampled_from(['root', 'child', 'ctx1', 'ctx0'])), i, draw(st.sampled_from([None, None, 'server', 'client']))))
        elif k < 8:
            ops.append(('finish', i, draw(st.one_of(st.none(), st.none(), st.sampled_from([1.0, 0, 0.0, 5.5, 2e9, 1500000000.5, -3.0, 0.5])))))
        elif k < 9:
            ops.append(('with', i))
        elif k < 10:
            ops.append(('withraise', i))
        elif k < 11:
            ops.append(('scope', i, draw(st.booleans())))
        elif k < 13:
            ops.append(('prio', i, draw(st.sampled_from([0, 1, 0, 2]))))
        elif k < 14:
            ops.append(('tag', i))
        else:
            ops.append(('wait', draw(st.sampled_from([0.5, 1.0, 100.0]))))
    calls = draw(st.one_of(st.just([]), st.lists(st.sampled_from(['read', 'tag', 'log', 'name', 'bag', 'finish', 'child']), max_size=3)))
    return root, ops, calls, draw(gen.settings())


def run(case, c):
    root, ops, calls, kw = case
    env.virtual = True
    rep = Recorder(calls)
    if calls:
        c.label('reporter uses the span')
    tr = tracer(reporter=rep, sampler=ConstSampler(root), **kw)
    spans = [tr.start_span('s')]
    sampled = [root]
    reported = [None]         # end time

    def finish(i, t):
        if sampled[i]:
            if reported[i] is None:
                reported[i] = env.wall() if t is None else t
            else:
                c.hit('finished again')
        else:
            c.hit('finished unsampled')
    for op in ops:
        if op[0] == 'start':
            if len(spans) > 6:
                continue
            tags = dict(spice(ops.index(op)), **({'tags': {'span.kind': op[3]}} if op[3] else {}))
            if op[1] == 'root':
                spans.append(tr.start_span(ignore_active_span=True, **tags))
                sampled.append(root)
            elif op[1] == 'child':
                p = op[2] % len(spans)
                spans.append(tr.start_span(child_of=spans[p], **tags))
                sampled.append(sampled[p])
            else:
                fl = int(op[1][3])
                spans.append(tr.start_span(child_of=SpanContext(5, 6, None, fl), **tags))
                sampled.append(bool(fl))
            reported.append(None)
        elif op[0] == 'wait':
            env.mono += op[1]
        else:
            i = op[1] % len(spans)
            s = spans[i]
            if op[0] == 'finish':
                s.finish(op[2]) if op[2] is not None else s.finish()
                finish(i, op[2])
            elif op[0] == 'with':
                with s:
                    env.mono += 0.25
                finish(i, None)
            elif op[0] == 'withraise':
                try:
                    with s:
                        raise Injected('x')
                except Injected:
                    pass
                finish(i, None)
            elif op[0] == 'scope':
                with tr.scope_manager.activate(s, op[2]):
                    pass
                if op[2]:
                    finish(i, None)
            elif op[0] == 'prio':
                check(s.set_tag('sampling.priority', op[2]) is s, 'set_tag did not return the span')
                sampled[i] = op[2] > 0
            else:
                check(s.set_tag('a', 1) is s, 'set_tag did not return the span')
        for k, s in enumerate(spans):
            mine = [g for g in rep.got if g[0] is s]
            check(len(mine) == (reported[k] is not None), 'span %d was reported %d times, expected %d: after %r of %r', k, len(mine),
                  reported[k] is not None, op, case)
            if mine:
                check(mine[0][1] is not None and s.end_time == mine[0][1] == reported[k],
                      'span %d: end time %r when reported, %r now, first finished at %r: %r', k, mine[0][1], s.end_time, reported[k], case)
    check(len(rep.got) == sum(r is not None for r in reported), 'something else was reported: %r', case)


# --- threads ------------------------------------------------------------------------------------------
OPS = st.sampled_from(['tag', 'tag', 'log', 'log', 'name', 'bag', 'prio', 'event', 'unprio', 'get', 'child'])


@st.composite
def races(draw):
    remote = draw(st.booleans())
    finish_with = draw(st.sampled_from(['after', 'during', 'during']))
    threads = draw(st.lists(st.lists(OPS, min_size=0, max_size=4), min_size=2, max_size=3))
    finishers = draw(st.lists(st.integers(0, 2), min_size=1, max_size=3))
    pre = draw(st.sampled_from([0, 0, 1, 3]))
    return remote, finish_with, threads, finishers, pre, draw(st.sampled_from([0, 1, 1, 3])), draw(sched.plans(st, 700, 8)), draw(sched.plans(st, 300, 6))


def run_race(case, c):
    remote, mode, threads, finishers, pre, flags, plan, plan2 = case
    with Sim() as sim:
        ch = FakeChannel(sim.io_loop)
        m = Counters()
        rep = Reporter(ch, queue_capacity=50, batch_size=2, flush_interval=0.5, metrics_factory=m.factory) if remote else InMemoryReporter()
        tr = tracer(reporter=rep, sampler=ConstSampler(True))
        sim.settle()
        handed = []
        inner = rep.report_span

        def report(span):
            handed.append((span, span.end_time))
            inner(span)
        rep.report_span = report
        sp = tr.start_span('start', child_of=SpanContext(77, 78, None, flags))
        for i in range(pre):
            sp.set_tag('pre', i)
        done = [[] for _ in threads]
        begun = [0]

        def body(k, ops, fins):
            def f():
                for i, o in enumerate(ops):
                    v = '%d-%d' % (k, i)
                    if o == 'tag':
                        sp.set_tag('t' + v, v)
                    elif o == 'log':
                        sp.log_kv({'l': v, 'n': i})
                    elif o == 'event':
                        sp.log_event('e' + v, 1)
                    elif o == 'name':
                        sp.set_operation_name('n' + v)
                    elif o == 'bag':
                        sp.set_baggage_item('b' + v, v)
                    elif o == 'prio':
                        sp.set_tag('sampling.priority', 1)
                    elif o == 'unprio':
                        sp.set_tag('sampling.priority', 0)
                    elif o == 'get':
                        sp.get_baggage_item('b0-0'), sp.is_sampled(), repr(sp), sp.is_rpc()
                    else:
                        kid = tr.start_span('kid' + v, child_of=sp)
                        check(kid.trace_id == 77 and kid.parent_id == sp.span_id, 'child of %r', kid.parent_id)
                    done[k].append((o, v, begun[0]))
                for _ in range(fins):
                    begun[0] = 1
                    sp.finish()
            return f
        nfin = [0] * len(threads)
        for x in finishers:
            nfin[x % len(threads)] += 1
        unprio = any('unprio' in t for t in threads)
        prios = any('prio' in t for t in threads)
        s1 = sched.Sched(plan)
        fns = [body(k, t, nfin[k] if mode == 'during' else 0) for k, t in enumerate(threads)]
        if remote and mode == 'during':
            def loop():
                for _ in range(4):
                    sim.advance(0.6)
            fns.append(loop)
        s1.run(fns)
        if mode == 'after':
            begun[0] = 0
            fin = [lambda: sp.finish() for _ in finishers]
            s2 = sched.Sched(plan2)
            was = sp.is_sampled()
            s2.run(fin)
            check(len(handed) == was, '%d finishes reported the span %d times (sampled: %r): %r', len(finishers), len(handed), was, case)
        else:
            check(len(handed) <= 1, 'the span was reported %d times: %r', len(handed), case)
            if (flags & 1 or prios) and not unprio and finishers:
                last_ok = flags & 1
                check(len(handed) == 1 or not last_ok, 'a sampled span was finished but not reported: %r', case)
            if not flags & 1 and not prios:
                check(not handed, 'an unsampled span was reported: %r', case)
        for s, end in handed:
            check(s is sp and end is not None, 'reported span has end time %r: %r', end, case)
            end0 = end
        before = len(handed)
        sp.finish(finish_time=1.0)
        if before:
            check(sp.end_time == end0, 'a later finish changed the end time: %r', case)
            check(len(handed) == 1, 'a later finish reported the span again: %r', case)
        sim.advance(2.0)
        check(not sim.errors(), 'exception in the event loop: %r', sim.errors()[:1])
        # what was recorded
        tags = [t.key for t in sp.tags]
        wanted = ['t' + v for d in done for o, v, b in d if o == 'tag']
        always = flags & 1 and not unprio
        logged = []
        for lg in sp.logs:
            f = {x.key: (x.vStr if x.vStr is not None else x.vLong) for x in lg.fields}
            logged.append(f.get('l') or f.get('event') + (':' + f.get('key') if f.get('key') else ''))
        wlog = [{'log': v, 'event': 'e' + v, 'bag': 'baggage:b' + v}[o] for d in done for o, v, b in d if o in ('log', 'event', 'bag')]
        mine = [t for t in tags if t.startswith('t')]
        check(len(set(mine)) == len(mine) and set(mine) <= set(wanted), 'tags recorded %r, set %r: %r', tags, wanted, case)
        check(len(set(logged)) == len(logged) and set(logged) <= set(wlog), 'logs recorded %r, made %r: %r', logged, wlog, case)
        if always:
            check(set(mine) == set(wanted), 'tags recorded %r, set %r: %r', tags, wanted, case)
            check(set(logged) == set(wlog), 'logs recorded %r, made %r: %r', logged, wlog, case)
            check(tags.count('pre') == pre, '%d of %d earlier tags left: %r', tags.count('pre'), pre, case)
            n = sum(o == 'prio' for d in done for o, v, b in d)
            check(tags.count('sampling.priority') == (1 if n and not flags & 2 else 0), 'priority recorded %d times: %r',
                  tags.count('sampling.priority'), case)
            for k, d in enumerate(done):
                order = ['t' + v for o, v, b in d if o == 'tag']
                check([t for t in mine if t.startswith('t%d-' % k)] == order, 'tags of one thread are out of order: %r', case)
        bag = dict(sp.context.baggage)
        check(bag == {'b' + v: v for d in done for o, v, b in d if o == 'bag'}, 'baggage is %r: %r', bag, case)
        names = [[v for o, v, b in d if o == 'name'] for d in done]
        cands = ['n' + n[-1] for n in names if n] or ['start']
        check(sp.operation_name in cands, 'name is %r, last set %r: %r', sp.operation_name, cands, case)
        if not unprio:
            want = flags | (3 if any(o == 'prio' for d in done for o, v, b in d) else 0)
            check(sp.flags == want, 'flags are %d, expected %d: %r', sp.flags, want, case)
        elif not prios:
            check(sp.flags == 0, 'flags are %d after priority 0: %r', sp.flags, case)
        if remote and handed:
            check(m.get(ERR) == 0, 'the span could not be sent: %r', case)
            got = [x for _, d in ch.datagrams for x in decode(d)['spans']]
            check(len(got) == 1, 'the span was sent %d times: %r', len(got), case)
            g = got[0]
            st_, sl = [t[0] for t in g['tags']], g['logs']
            ts = [t for t in st_ if t.startswith('t')]
            check(len(set(ts)) == len(ts), 'tags sent twice: %r', case)
            check(set(st_) <= set(tags) and len(sl) <= len(logged), 'sent %r, recorded %r: %r', st_, tags, case)
            if always:
                before = ['t' + v for d in done for o, v, b in d if o == 'tag' and not b]
                check(set(before) <= set(st_), 'tags set before finish are missing: sent %r: %r', st_, case)
                n = sum(o in ('log', 'event', 'bag') and not b for d in done for o, v, b in d)
                check(len(sl) >= n, '%d logs made before finish, %d sent: %r', n, len(sl), case)
                if mode == 'after':
                    check(st_ == tags and len(sl) == len(logged), 'sent %r, recorded %r: %r', st_, tags, case)
        if s1.preempted_mid or (mode == 'after' and s2.preempted_mid):
            c.hit('interleaved %s finish, %s' % (mode, 'remote' if remote else 'memory'))


TESTS = [
    Test('histories', histories, run, quick=16000, rule=RULE),
    Test('races', races, run_race, quick=8000, rule=RULE),
    volume.SPAN,
]
