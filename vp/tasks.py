"""Coroutines sharing one tracer: the active span is that of the running task (or of whatever the given scope manager says)."""
import asyncio
import opentracing
from hypothesis import strategies as st
from opentracing.scope_managers import ThreadLocalScopeManager
from opentracing.scope_managers.asyncio import AsyncioScopeManager
from opentracing.scope_managers.contextvars import ContextVarsScopeManager
from . import boot
from .core import Injected, check
from .util import tracer, fields, InMemoryReporter

env = boot.env
RULE = ('coroutines that activate spans, start spans, yield, spawn others and fail, under the contextvars, asyncio, thread-local and an '
        'application scope manager; non-trivial: a span was started under an active one while several tasks ran, or by another manager')


class Stack(opentracing.ScopeManager):
    """An application's scope manager."""

    def __init__(self):
        super().__init__()
        self.stack = []
        self.activated = []

    @property
    def active(self):
        return self.stack[-1] if self.stack else None

    def activate(self, span, finish_on_close):
        self.activated.append((span, finish_on_close))
        s = _Scope(self, span)
        s.fin = finish_on_close
        self.stack.append(s)
        return s


class _Scope(opentracing.Scope):
    def close(self):
        if self.manager.active is self:
            self.manager.stack.pop()
            if self.fin:
                self.span.finish()


def bodies(depth=2):
    op = st.one_of(st.tuples(st.just('open'), st.booleans(), st.booleans()), st.tuples(st.just('open'), st.booleans(), st.booleans()),
                   st.just(('start',)), st.just(('start',)), st.just(('yield',)), st.just(('yield',)), st.just(('close',)),
                   st.just(('fail',)), st.just(('ignore',)))
    if depth:
        op = st.one_of(op, op, op, op, st.tuples(st.just('spawn'), bodies(depth - 1)), st.tuples(st.just('call'), bodies(depth - 1)))
    return st.lists(op, max_size=7).map(tuple)


@st.composite
def cases(draw):
    return draw(st.sampled_from(['contextvars', 'contextvars', 'asyncio', 'asyncio', 'thread', 'own', 'default'])), \
        draw(st.lists(bodies(), min_size=1, max_size=3))


def run(case, c):
    kind, tasks = case
    env.virtual = True
    own = Stack()
    kw = {'contextvars': {'scope_manager': ContextVarsScopeManager()}, 'asyncio': {'scope_manager': AsyncioScopeManager()},
          'thread': {'scope_manager': ThreadLocalScopeManager()}, 'own': {'scope_manager': own}, 'default': {}}[kind]
    rep = InMemoryReporter()
    tr = tracer(reporter=rep, **kw)
    if kw:
        check(tr.scope_manager is kw['scope_manager'], 'the tracer uses another scope manager')
    alone = kind in ('thread', 'own', 'default')        # one stack for everybody: tasks run one after the other
    n, running, finished = [0], [0], []

    async def body(ops, stack):
        """stack: the spans active here, innermost last"""
        base = len(stack)
        scopes = []
        running[0] += 1
        children = []

        def look(what):
            want = stack[-1] if stack else None
            check(tr.active_span is want, '%s: active span %r, expected %r (%s)', what, tr.active_span, want, kind)

        def lineage(sp, parent):
            f = fields(sp.context)
            if parent is None:
                check(f[2] is None, 'a span without an active parent has parent id %r', f[2])
            else:
                p = fields(parent.context)
                check((f[0], f[2]) == (p[0], p[1]), 'span has trace %x parent %r, the active span is %x:%x (%s)', f[0], f[2], p[0], p[1], kind)
                if running[0] > 1 or kind in ('own',):
                    c.hit(kind)
        look('at the start')
        for op in ops:
            n[0] += 1
            name = 'n%d' % n[0]
            if op[0] == 'open':
                par = None if op[2] else stack[-1] if stack else None
                sc = tr.start_active_span(name, finish_on_close=op[1], ignore_active_span=op[2])
                lineage(sc.span, par)
                scopes.append((sc, op[1]))
                stack.append(sc.span)
            elif op[0] == 'start':
                lineage(tr.start_span(name), stack[-1] if stack else None)
            elif op[0] == 'ignore':
                lineage(tr.start_span(name, ignore_active_span=True), None)
            elif op[0] == 'yield':
                await asyncio.sleep(0)
            elif op[0] == 'close':
                if scopes:
                    sc, fin = scopes.pop()
                    sc.close()
                    stack.pop()
                    if fin:
                        finished.append(sc.span)
            elif op[0] == 'fail':
                # an exception leaves the scope of a with block
                try:
                    with tr.start_active_span(name) as sc:
                        lineage(sc.span, stack[-1] if stack else None)
                        stack.append(sc.span)
                        look('inside')
                        await asyncio.sleep(0)
                        look('inside, later')
                        raise Injected('x')
                except Injected:
                    finished.append(stack.pop())
            elif op[0] == 'call':
                await body(op[1], stack)
            elif alone:
                await asyncio.ensure_future(body(op[1], stack))
            else:
                children.append(asyncio.ensure_future(body(op[1], list(stack) if kind == 'contextvars' else [])))
            look('after %r' % (op[0],))
        while scopes:
            sc, fin = scopes.pop()
            sc.close()
            stack.pop()
            if fin:
                finished.append(sc.span)
            look('after closing')
        check(len(stack) == base, 'harness: stack')
        for t in children:
            await t
        running[0] -= 1

    async def main():
        if alone:
            for t in tasks:
                await body(t, [])
        else:
            await asyncio.gather(*[asyncio.ensure_future(body(t, [])) for t in tasks])
    env.virtual = False
    loop = asyncio.new_event_loop()
    try:
        asyncio.set_event_loop(loop)
        loop.run_until_complete(main())
    finally:
        asyncio.set_event_loop(None)
        loop.close()
    got = rep.get_spans()
    check(sorted(map(id, got)) == sorted(map(id, finished)), 'finished %d spans by closing their scopes, reported %d', len(finished), len(got))
    if kind == 'own' and own.activated:
        c.hit('own')
    c.label('%s used' % kind)
