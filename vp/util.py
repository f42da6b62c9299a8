"""Helpers shared by property modules."""
from . import boot  # noqa: F401
from .core import check, Violation  # noqa: F401
from opentracing import Format
import opentracing
from jaeger_client import Tracer, SpanContext, ConstSampler
from jaeger_client.reporter import InMemoryReporter, NullReporter  # noqa: F401
from jaeger_client.codecs import ZipkinSpanFormat

NETTAGS = {'ip': '10.0.0.1', 'hostname': 'h'}
Corrupted = opentracing.SpanContextCorruptedException
FORMATS = {'text': Format.TEXT_MAP, 'http': Format.HTTP_HEADERS, 'binary': Format.BINARY, 'zipkin': ZipkinSpanFormat}


def tracer(reporter=None, sampler=None, **kw):
    kw.setdefault('tags', dict(NETTAGS))
    return Tracer('svc', reporter if reporter is not None else InMemoryReporter(),
                  sampler if sampler is not None else ConstSampler(True), **kw)


def ctx(t):
    tid, sid, pid, fl, bg = t
    return SpanContext(trace_id=tid, span_id=sid, parent_id=pid, flags=fl, baggage=dict(bg) if bg is not None else None)


def fields(c):
    return (c.trace_id, c.span_id, c.parent_id, c.flags, dict(c.baggage))


def same_ctx(got, want, what, baggage=True):
    check(got is not None, '%s: nothing was extracted', what)
    g = fields(got)
    for name, a, b in zip(('trace id', 'span id', 'parent id', 'flags', 'baggage'), g, want):
        if name == 'baggage' and not baggage:
            continue
        check(a == b and type(a) is type(b), '%s: %s is %r, expected %r', what, name, a, b)


NAMES = ('op', 'op', '', None, '\u00e9 /%s', 'x' * 300, 'op')
STARTS = (None, None, None, 5.0, 0.0, 2e9, 12)
ENDS = (None, None, None, 4.0, 0.0, 2.5e9, None)


def start_of(i):
    """start time of the i-th span: mostly now"""
    return {'start_time': STARTS[i // 2 % 7]}


def end_of(i):
    """finish time of the i-th span: mostly now, sometimes before it starts"""
    return {'finish_time': ENDS[i % 7]}


def spice(i):
    """what the guarantees on a span do not depend on: its name and start time"""
    return dict(start_of(i), operation_name=NAMES[i % 7])
