"""Shared vocabulary of the checks: violations, contexts of a test case, test descriptions."""


class Violation(Exception):
    """The property does not hold for this case.  `key` names a root cause (used for known findings)."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class HarnessError(Exception):
    """The machinery itself misbehaved; never reported as a violation."""


class Injected(Exception):
    """A fault injected by a test case."""


def check(cond, msg, *args, **kw):
    if not cond:
        raise Violation(msg % args if args else msg, key=kw.get('key'))


class Case(object):
    """Collects what a case exercised."""

    def __init__(self):
        self.labels = set()
        self.nontrivial = False
        self.findings = []

    def label(self, *names):
        self.labels.update(names)

    def hit(self, *names):
        """label and mark as non-trivial"""
        self.nontrivial = True
        self.labels.update(names)


class Test(object):
    def __init__(self, name, strategy, run, quick, thorough=None, examples=(), rule='', serial=False, wall=False):
        self.name = name
        self.strategy = strategy      # () -> SearchStrategy
        self.run = run                # (case, Case) -> None
        self.quick = quick            # total cases over all shards
        self.thorough = thorough if thorough is not None else quick * 25
        self.examples = list(examples)
        self.rule = rule
        self.serial = serial
        self.wall = wall              # runs in real time (loopback sockets)
