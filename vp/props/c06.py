"""C06: lineage of started spans, references, fresh ids, scopes."""
import os
import threading
import opentracing
from opentracing.tracer import Reference, ReferenceType
from hypothesis import strategies as st
from .. import boot, gen, tasks, volume
from .. import races as racing
from ..core import Test, check
from ..util import spice, tracer, ctx, fields, SpanContext, ConstSampler, InMemoryReporter
from jaeger_client.throttler import Throttler

PROP = 'C06'
RULE = ('histories of starting spans (explicit parent, active span, references with absent ones, ignored active span), activating '
        'and closing scopes (also by exception, also from other threads); non-trivial: two or more competing parent sources, '
        'references, or nested scopes')
ASSUMPTIONS = ['scopes are closed innermost first (other orders are not defined by the scope manager)',
               'a traceless explicit parent is not combined with an active span (the two documented rules conflict)']
env = boot.env

REMOTE = gen.contexts()
BG = gen.baggage(max_items=3, big=200)


@st.composite
def refs(draw):
    """list of (type, source); source: index into spans, ('r', remote idx), None, or 'bg' (no trace)"""
    n = draw(st.sampled_from([0, 0, 0, 0, 0, 1, 1, 2, 3, 4]))
    out = []
    for i in range(n):
        out.append((draw(st.sampled_from('CF')), draw(st.one_of(st.integers(0, 9), st.integers(-3, -1), st.none(), st.just('bg')))))
    return out


class Gate(Throttler):
    def __init__(self, answer):
        self.answer = answer

    def is_allowed(self, operation):
        return self.answer


@st.composite
def cases(draw):
    remotes = draw(st.lists(REMOTE, min_size=1, max_size=3))
    bg = draw(BG)
    ops = []
    for _ in range(draw(st.integers(1, 14))):
        k = draw(st.integers(0, 11))
        if k < 7:
            par = draw(st.one_of(st.none(), st.none(), st.integers(0, 9), st.integers(-3, -1), st.just('bg')))
            ops.append(('start', draw(st.sampled_from(['span', 'active', 'active', 'active_nf', 'thread'])), par, draw(refs()),
                        draw(st.sampled_from([False, False, True])), draw(st.booleans()), draw(st.booleans()),
                        draw(st.booleans())))
        elif k < 10:
            ops.append(('close', draw(st.sampled_from(['close', 'exit', 'error'])), draw(st.booleans())))
        else:
            what = draw(st.sampled_from(['activate', 'activate', 'finish', 'finish', 'priority']))
            ops.append((what, draw(st.integers(-3 if what == 'priority' else 0, 9)), draw(st.booleans())))
    zeros = draw(st.lists(st.sampled_from([0, 0, 1, 2 ** 64, 2 ** 64 - 1, 2 ** 127]), max_size=4)) if draw(st.integers(0, 4)) == 0 else []
    partial = draw(st.sampled_from([(None, None, None)] * 5 + [(7, None, 1), (None, 7, 1), (7, 8, None), (0, 8, 0), (7, 0, 0)]))
    return (draw(st.booleans()), draw(st.booleans()), draw(st.booleans()), remotes, bg, ops, zeros, partial)


def run(case, c):
    wide, decision, one, remotes, bg, ops, zeros, partial = case
    rep = InMemoryReporter()
    gate = {} if len(ops) % 3 else {'throttler': Gate(len(ops) % 2 == 0)}
    tr = tracer(reporter=rep, sampler=ConstSampler(decision), generate_128bit_trace_id=wide, one_span_per_rpc=one, **gate)
    env.bits_queue = list(zeros)
    rctx = [ctx(r) for r in remotes]
    spans = []          # started spans
    stack = []          # (scope, span, finish_on_close)
    closed = []
    finished = []       # expected order of sampled finishes
    seen_ids = set()
    lists = []

    def resolve(src):
        if src is None or src == 'bg':
            return src
        if src < 0:
            return rctx[(-src - 1) % len(rctx)]
        return spans[src % len(spans)] if spans else rctx[0]

    def ctx_of(x):
        return x.context if isinstance(x, opentracing.Span) else x

    def bgctx():
        return SpanContext(trace_id=partial[0], span_id=partial[1], parent_id=None, flags=partial[2], baggage=dict(bg))

    def active_ok(when):
        top = stack[-1] if stack else None
        sc = tr.scope_manager.active
        if top is None:
            check(sc is None and tr.active_span is None, '%s: active span %r although no scope is open', when, tr.active_span)
        else:
            check(sc is top[0] and tr.active_span is top[1], '%s: the innermost open scope is not active', when)

    def fin(span):
        if span.is_sampled() and span not in finished:
            finished.append(span)

    for op in ops:
        if op[0] == 'start':
            _, how, par, rf, ignore, server, aslist, asctx = op
            p = resolve(par)
            if p == 'bg' and stack and how != 'thread' and not ignore:
                p = None
            parent_arg = bgctx() if p == 'bg' else p
            if asctx and isinstance(parent_arg, opentracing.Span):
                parent_arg = parent_arg.context
            refl, want_refs = [], []
            for t, src in rf:
                r = resolve(src)
                if r == 'bg':
                    if not want_refs:
                        continue         # a traceless first reference: not decided by the statement
                    r = bgctx()
                r = ctx_of(r)
                ref = Reference(ReferenceType.CHILD_OF if t == 'C' else ReferenceType.FOLLOWS_FROM, r)
                refl.append(ref)
                if r is not None:
                    want_refs.append((ref.type, r))
            references = refl if refl else None
            if len(refl) == 1 and not aslist:
                references = refl[0]
            tags = {'span.kind': 'server'} if server else None
            kw = dict(child_of=parent_arg, references=references, tags=tags, ignore_active_span=ignore, **spice(ops.index(op)))
            active = stack[-1][1] if stack and how != 'thread' else None
            # the model
            sources = 0
            parent = None
            if parent_arg is not None and p != 'bg':
                parent = ctx_of(parent_arg)
                sources += 1
            if active is not None and not ignore:
                sources += 1
                if parent is None:
                    parent = active.context
            if want_refs:
                sources += 1
                if parent is None:
                    parent = want_refs[0][1]
            before = fields(parent) if parent is not None else None
            scope = None
            if how == 'span':
                s = tr.start_span(**kw)
            elif how == 'thread':
                box = []

                def in_thread():
                    try:
                        box.append((tr.active_span, tr.start_span(**kw)))
                    except BaseException as e:
                        box.append(e)
                th = threading.Thread(target=in_thread)
                th.start()
                th.join()
                check(not isinstance(box[0], BaseException), 'starting a span in another thread failed: %r', box[0])
                check(box[0][0] is None, 'a scope of one thread is active in another')
                s = box[0][1]
                c.label('thread')
            else:
                scope = tr.start_active_span(finish_on_close=how == 'active', **kw)
                s = scope.span
            if parent is not None:
                check(fields(parent) == before, 'starting a child changed its parent: %r', fields(parent))
                check(s.trace_id == parent.trace_id, 'trace id %x, parent has %x', s.trace_id, parent.trace_id)
                check(s.flags == parent.flags, 'flags %r, parent has %r', s.flags, parent.flags)
                check(dict(s.context.baggage) == dict(parent.baggage), 'baggage %r, parent has %r', s.context.baggage, parent.baggage)
                if one and server:
                    check((s.span_id, s.parent_id) == (parent.span_id, parent.parent_id), 'shared span is %x:%r, caller %x:%r',
                          s.span_id, s.parent_id, parent.span_id, parent.parent_id)
                else:
                    check(s.parent_id == parent.span_id, 'parent id %r, parent is %x', s.parent_id, parent.span_id)
                    check(0 < s.span_id < 2 ** 64, 'span id %r', s.span_id)
                    if not zeros:
                        check(s.span_id not in seen_ids, 'span id %x used twice', s.span_id)
                    seen_ids.add(s.span_id)
            else:
                check(s.parent_id is None, 'a new trace has parent %r', s.parent_id)
                if p == 'bg' and any(partial):
                    c.label('incomplete parent')
                check(0 < s.trace_id < (2 ** 128 if wide else 2 ** 64), 'trace id %x with %d bits configured', s.trace_id, 128 if wide else 64)
                check(0 < s.span_id < 2 ** 64, 'span id %r', s.span_id)
                check(s.flags == (1 if decision else 0), 'flags %r', s.flags)
                want_bg = dict(bg) if p == 'bg' else {}
                check(dict(s.context.baggage) == want_bg, 'baggage %r of a new trace, expected %r', s.context.baggage, want_bg)
                if not zeros:
                    check(s.trace_id not in seen_ids and s.span_id not in seen_ids, 'ids used twice')
                    if wide:
                        check(s.trace_id >> 64, 'trace id %x is not 128 bits wide', s.trace_id)
                        check(s.trace_id & gen.MAX64, 'trace id %x has no low half', s.trace_id)
                seen_ids.update((s.trace_id, s.span_id))
            got_refs = [(r.type, r.referenced_context) for r in (s.references or [])]
            check(len(got_refs) == len(want_refs) and all(a[0] == b[0] and a[1] is b[1] for a, b in zip(got_refs, want_refs)),
                  'references %r, given %r', got_refs, want_refs)
            if references is refl and refl:
                # the list is the caller's: what happens to it later is not part of the span
                late = len(spans) % 3
                if late == 0:
                    refl.append(refl[0])
                elif late == 1:
                    del refl[:]
                else:
                    refl.reverse()
                lists.append((s, want_refs))
            spans.append(s)
            if scope is not None:
                stack.append((scope, s, how == 'active'))
                if len(stack) > 1:
                    c.hit('nested')
            if sources > 1:
                c.hit('competing')
            if want_refs:
                c.hit('references')
            if len(want_refs) != len(refl):
                c.hit('absent_reference')
            if zeros:
                c.hit('zero_bits')
        elif op[0] == 'close' and stack:
            scope, span, foc = stack.pop()
            was = span.finished
            if op[1] == 'close':
                scope.close()
            elif op[1] == 'exit':
                with scope:
                    pass
            else:
                try:
                    with scope:
                        raise KeyError('app')
                except KeyError:
                    pass
                c.label('error_exit')
            if foc:
                fin(span)
            elif not was:
                check(not span.finished, 'closing the scope finished its span although not asked to')
            closed.append(scope)
            if op[2]:
                scope.close()       # closing again is harmless
            c.label('closed')
        elif op[0] == 'activate' and spans:
            s = spans[op[1] % len(spans)]
            scope = tr.scope_manager.activate(s, op[2])
            check(scope.span is s, 'activated scope has another span')
            stack.append((scope, s, op[2]))
        elif op[0] == 'finish' and spans:
            s = spans[op[1] % len(spans)]
            s.finish()
            fin(s)
        elif op[0] == 'priority' and spans:
            # the sampling decision changes while scopes are open
            s = stack[-1][1] if op[1] < 0 and stack else spans[op[1] % len(spans)]
            s.set_tag('sampling.priority', 1 if op[2] else 0)
            c.label('priority')
        active_ok('after %s' % (op[:2],))
        got = rep.get_spans()
        check([id(x) for x in got] == [id(x) for x in finished], 'reported %d spans, expected %d', len(got), len(finished))
    while stack:
        scope, span, foc = stack.pop()
        scope.close()
        if foc:
            fin(span)
        active_ok('at the end')
        got = rep.get_spans()
        check([id(x) for x in got] == [id(x) for x in finished], 'reported %d spans at the end, expected %d', len(got), len(finished))
    for s, want_refs in lists:
        got_refs = [(r.type, r.referenced_context) for r in (s.references or [])]
        check(len(got_refs) == len(want_refs) and all(a[0] == b[0] and a[1] is b[1] for a, b in zip(got_refs, want_refs)),
              'references %r after the caller changed its list, given %r', got_refs, want_refs)
        c.label('list reused')


# ---- randomness of ids ------------------------------------------------------------------------
@st.composite
def rnd_cases(draw):
    t = st.one_of(st.integers(0, 2 ** 31).map(float), st.integers(10 ** 9, 2 * 10 ** 9).map(lambda i: i + 0.25))
    a = draw(t)
    same_time = draw(st.booleans())
    b = a if same_time else a + draw(st.sampled_from([0.001, 0.5, 1.0, 60.0, 3600.0]))
    p = draw(st.integers(1, 40000))
    q = p + draw(st.integers(1, 50)) if same_time else draw(st.one_of(st.just(p), st.just(p)))
    if same_time and a == 0:
        a = b = 1.0
    return a, p, b, q, draw(st.booleans())


def run_rnd(case, c):
    a, p, b, q, wide = case
    env.det_random = False
    real = os.getpid
    ids = []
    try:
        for t, pid in ((a, p), (b, q)):
            env.virtual = True
            env.wall_off = t
            os.getpid = lambda: pid
            tr = tracer(generate_128bit_trace_id=wide)
            ids.append([(s.trace_id, s.span_id) for s in (tr.start_span('x') for _ in range(70))])
    finally:
        os.getpid = real
        env.det_random = True
        env.virtual = False
    for seq in ids:
        for i, bits in ((0, 128 if wide else 64), (1, 64)):
            vals = [x[i] for x in seq]
            check(len(set(vals)) == len(vals), 'an id was generated twice in one process')
            ones = 0
            zeros = 0
            for v in vals:
                ones |= v
                zeros |= ~v
            full = (1 << bits) - 1
            check(ones & full == full and zeros & full == full and max(vals) <= full,
                  'ids do not vary over the configured %d bits: always-zero %x always-one %x', bits, ~ones & full, ~zeros & full)
        check(not any(t == s or t & gen.MAX64 == s for t, s in seq), 'trace and span id are the same random number')
    flat = [{y for x in seq for y in x} for seq in ids]
    check(not flat[0] & flat[1], 'two processes (time %r pid %d, time %r pid %d) generate the same ids', a, p, b, q)
    c.hit('same_time' if a == b else 'same_pid')


TESTS = [Test('lineage', cases, run, quick=20000), Test('randomness', rnd_cases, run_rnd, quick=400),
         Test('races', racing.start_cases, racing.run_starts, quick=4000, rule=racing.START_RULE),
         Test('tasks', tasks.cases, tasks.run, quick=4000, rule=tasks.RULE), volume.LINEAGE]
