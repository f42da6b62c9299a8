"""C09: token bucket - never more than burst + rate*time, never less once the cost has accrued."""
from hypothesis import strategies as st
from .. import boot, gen, sched, volume
from ..bucket import Bucket as Model
from ..core import Test, check
from jaeger_client.rate_limiter import RateLimiter
from jaeger_client.sampler import RateLimitingSampler

PROP = 'C09'
RULE = ('request/wait/clock-step/update histories against an interval token-bucket model; non-trivial: at least one request was '
        'admitted and one refused, or the clock stepped back, or a rate update happened; concurrency: more requests than credits and '
        'a switch inside the limiter')
ASSUMPTIONS = ['item costs are not negative, maximum balance is positive', 'clock readings are finite']
env = boot.env
Q = 2.0 ** -20


def times():
    return st.one_of(
        st.sampled_from([0.0, Q, 2 * Q, 1.0 / 1024, 0.125, 0.5, 1.0, 1.0 - Q, 1.0 + Q, 2.0, 10.0, 60.0, 599.0, 600.0, 601.0, 86400.0,
                         2.0 ** 30]),
        st.integers(0, 1 << 12).map(lambda n: n / 1024.0),
        st.integers(0, 1 << 30).map(lambda n: n * Q))


def rates():
    return st.one_of(st.sampled_from([0, 0.0, 1, 2, 0.5, 0.25, 10, 100, 0.1, 1.0 / 600, 0.001, 1e-6, 499, 1e6, 3, 1.5, 0.75]),
                     st.floats(0, 1000, allow_nan=False), gen.floats(0.0, 1000.0), st.integers(0, 600))


def caps():
    return st.one_of(st.sampled_from([1, 1.0, 2, 10, 0.5, 1.5, 0.001, 100, 1e6, 2.5]), st.floats(0.01, 1000),
                     st.integers(1, 20))


def costs(cap):
    return st.one_of(st.just(1.0), st.just(1.0), st.sampled_from([0, 0.0, 1, 0.5, 2, 2.0, 0.1, 1.5, 10]), st.floats(0, 1).map(lambda f: f * cap),
                     st.just(cap), st.just(cap * 1.25))


@st.composite
def histories(draw):
    kind = draw(st.sampled_from(['limiter', 'sampler']))
    r0 = draw(rates())
    c0 = draw(caps())
    ops = []
    cap = c0 if kind == 'limiter' else max(r0, 1.0)
    for _ in range(draw(st.integers(1, 24))):
        k = draw(st.integers(0, 15))
        if k < 7:
            ops.append(('req', draw(costs(cap)) if kind == 'limiter' else 1.0, draw(st.sampled_from([1, 1, 1, 2, 3, 12]))))
        elif k < 11:
            ops.append(('wait', draw(times())))
        elif k < 12:
            ops.append(('back', draw(times())))
        elif k < 13:
            ops.append(('fwd', draw(times())))
        elif k < 14:
            ops.append(('fill',))       # wait until one item must be admissible
        else:
            r = draw(rates())
            if kind == 'limiter':
                cap = draw(caps())
                ops.append(('update', r, cap))
            else:
                cap = max(r, 1.0)
                ops.append(('update', r, cap))
    return kind, r0, c0, draw(st.floats(0, 1, exclude_max=True)), ops


def run(case, c):
    kind, r0, c0, frac, ops = case
    env.virtual = True
    env.rand_queue = [frac]
    if kind == 'limiter':
        lim = RateLimiter(credits_per_second=r0, max_balance=c0)
        ask = lim.check_credit
        m = Model(r0, c0)
    else:
        smp = RateLimitingSampler(r0)
        n = [0]

        def ask(cost):
            n[0] += 1
            return smp.is_sampled(n[0], 'op')[0]
        m = Model(r0, max(r0, 1.0))
    env.rand_queue = None
    yes = no = 0
    for i, op in enumerate(ops):
        what = 'step %d %r of %r' % (i, op, case)
        if op[0] == 'req':
            for _ in range(op[2]):
                got = ask(op[1])
                check(got is True or got is False, '%s: decision is %r', what, got)
                m.request(op[1], got, what)
                yes, no = yes + bool(got), no + (not got)
        elif op[0] == 'wait':
            env.mono += op[1]
        elif op[0] == 'back':
            env.wall_off -= op[1]
            c.hit('clock stepped back')
        elif op[0] == 'fwd':
            env.wall_off += op[1]
            c.label('clock stepped forward')
        elif op[0] == 'fill':
            cost = min(1.0, m.cap)
            if m.rate > 1e-6:
                m.request(cost, ask(cost), what) if kind == 'limiter' else m.request(1.0, ask(1.0), what)
                env.mono += int(cost / m.rate * 1024 + 2) / 1024.0
                if kind == 'limiter' or m.cap >= 1:
                    got = ask(cost if kind == 'limiter' else 1.0)
                    check(got, '%s: still refused after the time in which its cost accrues (rate %r)', what, m.rate)
                    m.request(cost, got, what)
                    c.label('recovered')
        else:
            c.hit('rate update')
            if kind == 'limiter':
                lim.update(op[1], op[2])
                m.update(op[1], op[2])
            else:
                changed = smp.update(op[1])
                if op[1] != m.rate:
                    check(changed is True, '%s: update to a different rate reported %r', what, changed)
                    m.update(op[1], op[2])
                else:
                    check(changed is False, '%s: update to the same rate reported %r', what, changed)
    if yes and no:
        c.hit('admitted and refused')
    if yes > 3:
        c.label('burst')


# ------------------------------------------------------------------------------------------------
@st.composite
def races(draw):
    cap = draw(st.integers(1, 6))
    used = draw(st.integers(0, cap))
    threads = draw(st.lists(st.lists(st.sampled_from(['req', 'req', 'req', 'tick', 'update']), min_size=1, max_size=4),
                            min_size=2, max_size=3))
    return draw(st.sampled_from(['limiter', 'sampler'])), cap, used, threads, draw(sched.plans(st, 300, 6))


def run_race(case, c):
    kind, cap, used, threads, plan = case
    env.virtual = True
    env.rand_queue = [0.5]
    rate = cap if kind == 'sampler' else 1.0
    if kind == 'limiter':
        lim = RateLimiter(credits_per_second=rate, max_balance=float(cap))
        ask = lambda: lim.check_credit(1.0)                                 # noqa
        same = lambda: lim.update(rate, float(cap))                         # noqa
    else:
        smp = RateLimitingSampler(cap)
        ask = lambda: smp.is_sampled(1, 'op')[0]                            # noqa
        same = lambda: smp.update(cap)                                      # noqa
    env.rand_queue = None
    env.mono += 10.0 * cap + 10
    for _ in range(used):
        check(ask(), 'refused although the bucket was full')
    admitted = []
    ticks = sum(t.count('tick') for t in threads)
    step = 0.25

    def body(ops):
        def f():
            for op in ops:
                if op == 'req':
                    if ask():
                        admitted.append(1)
                elif op == 'tick':
                    env.mono += step
                else:
                    same()
        return f
    s = sched.Sched(plan)
    s.run([body(t) for t in threads])
    asked = sum(t.count('req') for t in threads)
    start = cap - used
    gain = ticks * step * rate
    check(len(admitted) <= start + gain + 1e-6, '%d items admitted concurrently with %d credits and %g accrued: %r',
          len(admitted), start, gain, case)
    rest = 0
    while rest < 20 and ask():
        rest += 1
    total = len(admitted) + rest
    check(total <= start + gain + 1e-6, '%d items admitted with %d credits and %g accrued: %r', total, start, gain, case)
    if start + gain <= cap:       # the cap cannot have cut anything
        check(total == int(start + gain + 1e-6), 'credits lost: %d items admitted with %d credits and %g accrued: %r',
              total, start, gain, case)
    if not ticks:
        check(len(admitted) == min(asked, start), '%d of %d concurrent requests admitted with %d credits: %r',
              len(admitted), asked, start, case)
    if s.preempted_mid and asked > start:
        c.hit('contended')
    elif s.preempted_mid:
        c.hit('interleaved')
    c.label('%d threads' % len(threads))


TESTS = [
    Test('histories', histories, run, quick=24000, rule=RULE),
    Test('races', races, run_race, quick=6000, rule=RULE),
    volume.LIMITS,
]
