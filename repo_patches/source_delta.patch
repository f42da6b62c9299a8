From 064e6a44bc5af92186b45c181ed0b6b5c9967f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:42 +0000
Subject: [PATCH 01/48] fix: reject text trace contexts whose ids or flags are
 out of range

Trace ids beyond 128 bits, span/parent ids beyond 64 bits and flags beyond
one byte were accepted from inbound headers. Such a context later raised
struct.error from a binary inject and made the reporter lose the whole
batch that contained a span started from it.
---
 jaeger_client/codecs.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jaeger_client/codecs.py b/jaeger_client/codecs.py
index 3f11755..f3c3ebc 100644
--- a/jaeger_client/codecs.py
+++ b/jaeger_client/codecs.py
@@ -24,6 +24,8 @@ from .constants import (
     BAGGAGE_HEADER_PREFIX,
     DEBUG_ID_HEADER_KEY,
     TRACE_ID_HEADER,
+    _max_id_bits,
+    _max_trace_id_bits,
 )
 from .span_context import SpanContext
 from .constants import SAMPLED_FLAG, DEBUG_FLAG
@@ -248,6 +250,10 @@ def span_context_from_string(value):
         if trace_id < 1 or span_id < 1 or parent_id < 0 or flags < 0:
             raise SpanContextCorruptedException(
                 'malformed trace context "%s"' % value)
+        if trace_id >> _max_trace_id_bits or span_id >> _max_id_bits \
+                or parent_id >> _max_id_bits or flags > 0xff:
+            raise SpanContextCorruptedException(
+                'trace context out of range "%s"' % value)
         if parent_id == 0:
             parent_id = None
         return trace_id, span_id, parent_id, flags
-- 
2.43.0


From 0cb36cafa1410e54160d08959c00037c37431f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:59 +0000
Subject: [PATCH 02/48] fix: reject malformed binary contexts with
 SpanContextCorruptedException

Truncated or corrupt binary carriers raised struct.error or
UnicodeDecodeError into the application, and negative length fields were
accepted, which with a large item count made extract loop without
consuming input.
---
 jaeger_client/codecs.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/jaeger_client/codecs.py b/jaeger_client/codecs.py
index f3c3ebc..4defd87 100644
--- a/jaeger_client/codecs.py
+++ b/jaeger_client/codecs.py
@@ -158,8 +158,11 @@ class BinaryCodec(Codec):
         if not isinstance(carrier, bytearray):
             raise InvalidCarrierException('carrier not a bytearray')
         baggage = {}
-        high_trace_id, low_trace_id, span_id, parent_id, flags, baggage_count = \
-            struct.unpack('>QQQQBI', carrier[:37])
+        try:
+            high_trace_id, low_trace_id, span_id, parent_id, flags, baggage_count = \
+                struct.unpack('>QQQQBI', carrier[:37])
+        except struct.error as e:
+            raise SpanContextCorruptedException('malformed binary context: %s' % e)
         # if high_trace_id isn't 0, then we are dealing with 128bit trace id integer,
         # therefore unpack into 1 number
         if high_trace_id:
@@ -199,10 +202,13 @@ class BinaryCodec(Codec):
         return key, value, bytes_read
 
     def _read_kv(self, data):
-        data_len = struct.unpack('>i', data[:4])[0]
-        data_value = struct.unpack('>' + 'c' * data_len, data[4:4 + data_len])
-        bytes_read = 4 + data_len
-        return b''.join(data_value).decode('utf-8'), bytes_read
+        try:
+            data_len = struct.unpack('>I', data[:4])[0]
+            if data_len > len(data) - 4:
+                raise ValueError('length %d exceeds the data' % data_len)
+            return bytes(data[4:4 + data_len]).decode('utf-8'), 4 + data_len
+        except (struct.error, ValueError) as e:
+            raise SpanContextCorruptedException('malformed binary context: %s' % e)
 
 
 def span_context_to_string(trace_id, span_id, parent_id, flags):
-- 
2.43.0


From 12e74051914c1992786a8d8283538b947e4e9ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:59 +0000
Subject: [PATCH 03/48] fix: reject B3 ids that are negative or exceed their
 width

Such ids were accepted and later broke injection and the encoding of the
whole batch of spans they ended up in.
---
 jaeger_client/codecs.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/jaeger_client/codecs.py b/jaeger_client/codecs.py
index 4defd87..e09d471 100644
--- a/jaeger_client/codecs.py
+++ b/jaeger_client/codecs.py
@@ -316,16 +316,20 @@ class ZipkinCodec(Codec):
                            baggage=None)
 
 
-def header_to_hex(header):
+def header_to_hex(header, max_bits=_max_id_bits):
     if not isinstance(header, (str,)):
         raise SpanContextCorruptedException(
             'malformed trace context "%s", expected hex string' % header)
 
     try:
-        return int(header, 16)
+        value = int(header, 16)
     except ValueError:
         raise SpanContextCorruptedException(
             'malformed trace context "%s", expected hex string' % header)
+    if value < 0 or value >> max_bits:
+        raise SpanContextCorruptedException(
+            'trace context out of range "%s"' % header)
+    return value
 
 
 class B3Codec(Codec):
@@ -373,7 +377,7 @@ class B3Codec(Codec):
                 continue
             lower_key = header_key.lower()
             if lower_key == self._trace_header_lc:
-                trace_id = header_to_hex(header_value)
+                trace_id = header_to_hex(header_value, _max_trace_id_bits)
             elif lower_key == self._span_header_lc:
                 span_id = header_to_hex(header_value)
             elif lower_key == self._parent_span_header_lc:
-- 
2.43.0


From 033811bc5adf9092461a16813f6f8c51e2982e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:59 +0000
Subject: [PATCH 04/48] fix: keep the sampled state of debug traces in B3
 propagation

Extraction reports a context with only X-B3-Flags as debug but not sampled,
so the trace was cut at the first B3 hop of every debug trace.
---
 jaeger_client/codecs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaeger_client/codecs.py b/jaeger_client/codecs.py
index e09d471..a45b695 100644
--- a/jaeger_client/codecs.py
+++ b/jaeger_client/codecs.py
@@ -364,7 +364,7 @@ class B3Codec(Codec):
             carrier[self.parent_span_header] = format(span_context.parent_id, 'x').zfill(16)
         if span_context.flags & DEBUG_FLAG == DEBUG_FLAG:
             carrier[self.flags_header] = '1'
-        elif span_context.flags & SAMPLED_FLAG == SAMPLED_FLAG:
+        if span_context.flags & SAMPLED_FLAG == SAMPLED_FLAG:
             carrier[self.sampled_header] = '1'
 
     def extract(self, carrier):
-- 
2.43.0


From 73a6995b25bc10364783dcb46fe6dee7e69a89fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:33 +0000
Subject: [PATCH 05/48] fix: do not send references to contexts that carry no
 trace

A reference to a debug-id-only or baggage-only context was encoded without
its required id fields, so the agent could not decode the batch.
---
 jaeger_client/thrift.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jaeger_client/thrift.py b/jaeger_client/thrift.py
index fbe07ff..0a6cc06 100644
--- a/jaeger_client/thrift.py
+++ b/jaeger_client/thrift.py
@@ -187,6 +187,9 @@ def make_references(references):
         return None
     list_of_span_refs = list()
     for span_ref in references:
+        if not span_ref.referenced_context.has_trace:
+            # e.g. a context with only a debug id or baggage: it refers to no span
+            continue
         list_of_span_refs.append(ttypes.SpanRef(
             refType=make_ref_type(span_ref.type),
             traceIdLow=id_to_int(_id_to_low(span_ref.referenced_context.trace_id)),
-- 
2.43.0


From d86c4bb0fc6c84af97b7870f5e0776722572286f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:31 +0000
Subject: [PATCH 06/48] fix: send integers that do not fit 64 bits as string
 tags

They made the encoding of the whole batch fail, losing all its spans.
---
 jaeger_client/thrift.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jaeger_client/thrift.py b/jaeger_client/thrift.py
index 0a6cc06..03ad4b7 100644
--- a/jaeger_client/thrift.py
+++ b/jaeger_client/thrift.py
@@ -22,6 +22,7 @@ import jaeger_client.thrift_gen.sampling.SamplingManager as sampling_manager
 _max_signed_port = (1 << 15) - 1
 _max_unsigned_port = (1 << 16)
 _max_signed_id = (1 << 63) - 1
+_min_signed_long = -(1 << 63)
 _max_unsigned_id = (1 << 64)
 
 
@@ -66,7 +67,7 @@ def make_tag(key, value, max_length, max_traceback_length):
             key=key,
             value=value
         )
-    elif isinstance(value, int):
+    elif isinstance(value, int) and _min_signed_long <= value <= _max_signed_id:
         return _make_long_tag(
             key=key,
             value=value
-- 
2.43.0


From 5d697547b51f91ffabec364ecc41419b9c6a40e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:54 +0000
Subject: [PATCH 07/48] fix: make every string sent to the agent encodable

Operation and service names that are not strings, strings with lone surrogates
and objects whose string conversion fails made the whole batch fail to encode,
or raised into the application.
---
 jaeger_client/thrift.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/jaeger_client/thrift.py b/jaeger_client/thrift.py
index 03ad4b7..00084dc 100644
--- a/jaeger_client/thrift.py
+++ b/jaeger_client/thrift.py
@@ -56,9 +56,14 @@ def id_to_int(big_id):
 
 def _to_string(s):
     try:
-        return str(s)
+        string = str(s)
     except Exception as e:
-        return str(e)
+        try:
+            string = str(e)
+        except Exception:
+            string = type(e).__name__
+    # strings with lone surrogates cannot be encoded
+    return string.encode('utf-8', 'replace').decode('utf-8')
 
 
 def make_tag(key, value, max_length, max_traceback_length):
@@ -171,7 +176,7 @@ def make_log(timestamp, fields, max_length, max_traceback_length):
 
 def make_process(service_name, tags, max_length):
     return ttypes.Process(
-        serviceName=service_name,
+        serviceName=_to_string(service_name),
         tags=make_tags(tags=tags, max_length=max_length,
                        max_traceback_length=MAX_TRACEBACK_LENGTH),
     )
@@ -212,7 +217,7 @@ def make_jaeger_batch(spans, process):
                 traceIdHigh=id_to_int(_id_to_high(span.trace_id)),
                 spanId=id_to_int(span.span_id),
                 parentSpanId=id_to_int(span.parent_id) or 0,
-                operationName=span.operation_name,
+                operationName=_to_string(span.operation_name),
                 references=make_references(span.references),
                 flags=span.context.flags,
                 startTime=timestamp_micros(span.start_time),
-- 
2.43.0


From ed509a018a1f0845ccdead44ab068251d0b79a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:57 +0000
Subject: [PATCH 08/48] fix: encode a snapshot of a span's tags and logs

A tag or log added by another thread while the batch was being encoded changed
the length of a list already announced, and corrupted the datagram.
---
 jaeger_client/thrift.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jaeger_client/thrift.py b/jaeger_client/thrift.py
index 00084dc..c498292 100644
--- a/jaeger_client/thrift.py
+++ b/jaeger_client/thrift.py
@@ -222,8 +222,8 @@ def make_jaeger_batch(spans, process):
                 flags=span.context.flags,
                 startTime=timestamp_micros(span.start_time),
                 duration=timestamp_micros(span.end_time - span.start_time),
-                tags=span.tags,  # TODO
-                logs=span.logs,  # TODO
+                tags=list(span.tags),
+                logs=list(span.logs),
             )
         batch.spans.append(jaeger_span)
     return batch
-- 
2.43.0


From cd051156031e16efaafffd3b78de37deef4249a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:00 +0000
Subject: [PATCH 09/48] fix: do not leave a partly encoded batch in the
 transport

The bytes written before an encoding error were sent in front of the next
batch, which the agent could then not decode.
---
 jaeger_client/reporter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jaeger_client/reporter.py b/jaeger_client/reporter.py
index 6888aa8..3b31f0f 100644
--- a/jaeger_client/reporter.py
+++ b/jaeger_client/reporter.py
@@ -30,6 +30,7 @@ from .utils import ErrorReporter
 from .span import Span
 
 from thrift.protocol import TCompactProtocol
+from thrift.transport.TTransport import TBufferedTransport
 from jaeger_client.thrift_gen.agent import Agent
 
 default_logger = logging.getLogger('jaeger_tracing')
@@ -194,7 +195,9 @@ class Reporter(BaseReporter):
         :param: transport:
         :return: Thrift compact protocol
         """
-        return TCompactProtocol.TCompactProtocol(transport)
+        # each message is buffered separately, so that one which cannot be encoded
+        # leaves nothing behind in the transport
+        return TCompactProtocol.TCompactProtocol(TBufferedTransport(transport))
 
     @tornado.gen.coroutine
     def _submit(self, spans):
-- 
2.43.0


From d3e1293e55a6e58514cdce9827c93e44ce565f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 10/48] fix: consult the sampler for traces started with only
 inbound baggage

A parent context with baggage but no trace started a new trace that was never
sampled.
---
 jaeger_client/tracer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jaeger_client/tracer.py b/jaeger_client/tracer.py
index 1c6c002..d7c6645 100644
--- a/jaeger_client/tracer.py
+++ b/jaeger_client/tracer.py
@@ -187,7 +187,7 @@ class Tracer(opentracing.Tracer):
             parent_id = None
             flags = 0
             baggage = None
-            if parent is None:
+            if parent is None or not parent.debug_id:
                 sampled, sampler_tags = \
                     self.sampler.is_sampled(trace_id, operation_name or '')
                 if sampled:
@@ -195,7 +195,7 @@ class Tracer(opentracing.Tracer):
                     tags = tags or {}
                     for k, v in sampler_tags.items():
                         tags[k] = v
-            elif parent.debug_id and self.is_debug_allowed(operation_name):
+            elif self.is_debug_allowed(operation_name):
                 flags = SAMPLED_FLAG | DEBUG_FLAG
                 tags = tags or {}
                 tags[self.debug_id_header] = parent.debug_id
-- 
2.43.0


From cf16d901a5ddc211ecb469746e3ac89a316c3871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:30 +0000
Subject: [PATCH 11/48] fix: ignore sampling.priority values that are not
 numbers

None, infinity and other objects raised TypeError or OverflowError into the
application.
---
 jaeger_client/span.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaeger_client/span.py b/jaeger_client/span.py
index 65ff161..9a43c1f 100644
--- a/jaeger_client/span.py
+++ b/jaeger_client/span.py
@@ -124,7 +124,7 @@ class Span(opentracing.Span):
 
         try:
             value_num = int(value)
-        except ValueError:
+        except (ValueError, TypeError, OverflowError):
             return False
         if value_num == 0:
             self.context.flags &= ~(SAMPLED_FLAG | DEBUG_FLAG)
-- 
2.43.0


From e1ea8ddd04f37a78e8290f11c43182915fcd08e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:32 +0000
Subject: [PATCH 12/48] fix: do not lose baggage items or flags set
 concurrently

The new context was computed from one read outside the lock, so that an update
made by another thread in between was overwritten.
---
 jaeger_client/span.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jaeger_client/span.py b/jaeger_client/span.py
index 9a43c1f..652efea 100644
--- a/jaeger_client/span.py
+++ b/jaeger_client/span.py
@@ -149,10 +149,9 @@ class Span(opentracing.Span):
         return self
 
     def set_baggage_item(self, key: str, value: Optional[str]) -> 'Span':
-        prev_value = self.get_baggage_item(key=key)
-        new_context = self.context.with_baggage_item(key=key, value=value)
         with self.update_lock:
-            self._context = new_context
+            prev_value = self.get_baggage_item(key=key)
+            self._context = self.context.with_baggage_item(key=key, value=value)
         if self.is_sampled():
             logs = {
                 'event': 'baggage',
-- 
2.43.0


From 5d235559eae948e849cad6ffd4560dae495c5723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:35 +0000
Subject: [PATCH 13/48] fix: never generate the invalid id zero

---
 jaeger_client/tracer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jaeger_client/tracer.py b/jaeger_client/tracer.py
index d7c6645..1029dc1 100644
--- a/jaeger_client/tracer.py
+++ b/jaeger_client/tracer.py
@@ -322,7 +322,8 @@ class Tracer(opentracing.Tracer):
         return self.random.getrandbits(constants.MAX_ID_BITS)
 
     def _random_id(self, bitsize: int) -> int:
-        return self.random.getrandbits(bitsize)
+        # zero is not a valid id
+        return self.random.getrandbits(bitsize) or 1
 
     def is_debug_allowed(self, *args: Any, **kwargs: Any) -> bool:
         if not self.throttler:
-- 
2.43.0


From a6c902041f021d92b2d6e8b486dfce47eb457174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:38 +0000
Subject: [PATCH 14/48] fix: stop credit requests when the tracer is closed

---
 jaeger_client/tracer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jaeger_client/tracer.py b/jaeger_client/tracer.py
index 1029dc1..e718b72 100644
--- a/jaeger_client/tracer.py
+++ b/jaeger_client/tracer.py
@@ -291,6 +291,8 @@ class Tracer(opentracing.Tracer):
             flush has been completed.
         """
         self.sampler.close()
+        if self.throttler:
+            self.throttler.close()
         return self.reporter.close()
 
     def _emit_span_metrics(self, span: Span, join: Optional[bool] = False) -> Span:
-- 
2.43.0


From 726610cc224c45904699f21cde903e0dfe7be325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:57 +0000
Subject: [PATCH 15/48] fix: ignore sampling.priority values whose conversion
 fails in any way

---
 jaeger_client/span.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/jaeger_client/span.py b/jaeger_client/span.py
index 652efea..b49a8e0 100644
--- a/jaeger_client/span.py
+++ b/jaeger_client/span.py
@@ -118,13 +118,12 @@ class Span(opentracing.Span):
         N.B. Caller must be holding update_lock.
         """
 
-        # Ignore debug spans trying to re-enable debug.
-        if self.is_debug() and value:
-            return False
-
         try:
+            # Ignore debug spans trying to re-enable debug.
+            if self.is_debug() and value:
+                return False
             value_num = int(value)
-        except (ValueError, TypeError, OverflowError):
+        except Exception:
             return False
         if value_num == 0:
             self.context.flags &= ~(SAMPLED_FLAG | DEBUG_FLAG)
-- 
2.43.0


From db2e88340ee5b0a02f617802701b5e2c59949cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:00 +0000
Subject: [PATCH 16/48] fix: do not starve the rate limiter when the clock is
 set back

The balance was reduced by the size of the step, possibly far below zero, so
that nothing was admitted until that much credit had accrued again.
---
 jaeger_client/rate_limiter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jaeger_client/rate_limiter.py b/jaeger_client/rate_limiter.py
index 0778db4..6790d57 100644
--- a/jaeger_client/rate_limiter.py
+++ b/jaeger_client/rate_limiter.py
@@ -63,7 +63,8 @@ class RateLimiter(object):
 
     def _update_balance(self):
         current_time = self.timestamp()
-        elapsed_time = current_time - self.last_tick
+        # the wall clock may be set back; that must not take credits away
+        elapsed_time = max(current_time - self.last_tick, 0)
         self.last_tick = current_time
         self.balance += elapsed_time * self.credits_per_second
         if self.balance > self.max_balance:
-- 
2.43.0


From e666f6055c38a9ce4abe33d67952761293f9cb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:19 +0000
Subject: [PATCH 17/48] fix: make the rate limiter safe to share between
 threads

Two threads could both spend the last credit, admitting more than the limit.
---
 jaeger_client/rate_limiter.py | 25 +++++++++++++++----------
 jaeger_client/sampler.py      |  3 ++-
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/jaeger_client/rate_limiter.py b/jaeger_client/rate_limiter.py
index 6790d57..6868268 100644
--- a/jaeger_client/rate_limiter.py
+++ b/jaeger_client/rate_limiter.py
@@ -14,6 +14,7 @@
 
 import random
 import time
+from threading import Lock
 
 
 class RateLimiter(object):
@@ -42,26 +43,30 @@ class RateLimiter(object):
         self.max_balance = max_balance
         self.balance = self.max_balance * random.random()
         self.last_tick = self.timestamp()
+        self.lock = Lock()
 
     @staticmethod
     def timestamp():
         return time.time()
 
     def update(self, credits_per_second, max_balance):
-        self._update_balance()
-        self.credits_per_second = credits_per_second
-        # The new balance should be proportional to the old balance.
-        self.balance = max_balance * self.balance / self.max_balance
-        self.max_balance = max_balance
+        with self.lock:
+            self._update_balance()
+            self.credits_per_second = credits_per_second
+            # The new balance should be proportional to the old balance.
+            self.balance = max_balance * self.balance / self.max_balance
+            self.max_balance = max_balance
 
     def check_credit(self, item_cost):
-        self._update_balance()
-        if self.balance >= item_cost:
-            self.balance -= item_cost
-            return True
-        return False
+        with self.lock:
+            self._update_balance()
+            if self.balance >= item_cost:
+                self.balance -= item_cost
+                return True
+            return False
 
     def _update_balance(self):
+        # N.B. Caller must be holding the lock.
         current_time = self.timestamp()
         # the wall clock may be set back; that must not take credits away
         elapsed_time = max(current_time - self.last_tick, 0)
diff --git a/jaeger_client/sampler.py b/jaeger_client/sampler.py
index 355f853..1453949 100644
--- a/jaeger_client/sampler.py
+++ b/jaeger_client/sampler.py
@@ -175,13 +175,14 @@ class RateLimitingSampler(Sampler):
         pass
 
     def __eq__(self, other: Any) -> bool:
-        """The last_tick and balance fields can be different"""
+        """The last_tick, balance and lock fields can be different"""
         if not isinstance(other, self.__class__):
             return False
         d1 = dict(self.rate_limiter.__dict__)
         d2 = dict(other.rate_limiter.__dict__)
         d1['balance'] = d2['balance']
         d1['last_tick'] = d2['last_tick']
+        d1['lock'] = d2['lock']
         return d1 == d2
 
     def update(self, max_traces_per_second: float) -> bool:
-- 
2.43.0


From dfbd63119d904e4b73393227795967fe16865139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:42 +0000
Subject: [PATCH 18/48] fix: never apply unusable per-operation sampling
 strategies, not even partly

A negative or non-numeric lower bound or default probability was stored and
raised into the application at the next sampling decision; an error in one
strategy left the ones before it applied.
---
 jaeger_client/sampler.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/jaeger_client/sampler.py b/jaeger_client/sampler.py
index 1453949..0e43a64 100644
--- a/jaeger_client/sampler.py
+++ b/jaeger_client/sampler.py
@@ -260,6 +260,7 @@ class AdaptiveSampler(Sampler):
     """
     def __init__(self, strategies: Dict[str, Any], max_operations: int) -> None:
         super(AdaptiveSampler, self).__init__()
+        check_strategies(strategies)
 
         samplers = {}
         for strategy in strategies.get(STRATEGIES_STR, []):
@@ -296,6 +297,7 @@ class AdaptiveSampler(Sampler):
 
     def update(self, strategies: Dict[str, Any]) -> None:
         # (NB) This function should only be called while holding a Write lock.
+        check_strategies(strategies)
         for strategy in strategies.get(STRATEGIES_STR, []):
             operation = strategy.get(OPERATION_STR)
             lower_bound = strategies.get(DEFAULT_LOWER_BOUND_STR, DEFAULT_LOWER_BOUND)
@@ -509,6 +511,22 @@ class RemoteControlledSampler(Sampler):
                 self.periodic.stop()
 
 
+def check_strategies(strategies: Dict[str, Any]) -> None:
+    """
+    Raise an error if any part of the strategies cannot be used, so that
+    unusable strategies are never applied, not even partly.
+    """
+    ProbabilisticSampler(strategies.get(DEFAULT_SAMPLING_PROBABILITY_STR,
+                                        DEFAULT_SAMPLING_PROBABILITY))
+    lower_bound = strategies.get(DEFAULT_LOWER_BOUND_STR, DEFAULT_LOWER_BOUND)
+    if not (lower_bound >= 0 and float(lower_bound) < float('inf')):
+        raise ValueError('Invalid %s: %s' % (DEFAULT_LOWER_BOUND_STR, lower_bound))
+    for strategy in strategies.get(STRATEGIES_STR, []):
+        if not isinstance(strategy.get(OPERATION_STR), str):
+            raise ValueError('Invalid %s: %s' % (OPERATION_STR, strategy.get(OPERATION_STR)))
+        ProbabilisticSampler(get_sampling_probability(strategy))
+
+
 def get_sampling_probability(strategy: Optional[Dict[str, Any]] = None) -> float:
     if not strategy:
         return DEFAULT_SAMPLING_PROBABILITY
-- 
2.43.0


From 2ec2f5ee3e048119922197b545fb54d9c5e08933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:05 +0000
Subject: [PATCH 19/48] fix: count agent answers that are not valid UTF-8 as
 failed

They raised UnicodeDecodeError into the event loop and were not counted.
---
 jaeger_client/sampler.py   | 12 +++++-------
 jaeger_client/throttler.py | 12 +++++-------
 2 files changed, 10 insertions(+), 14 deletions(-)

diff --git a/jaeger_client/sampler.py b/jaeger_client/sampler.py
index 0e43a64..e9f9d73 100644
--- a/jaeger_client/sampler.py
+++ b/jaeger_client/sampler.py
@@ -436,14 +436,12 @@ class RemoteControlledSampler(Sampler):
 
         response = future.result()
 
-        # In Python 3.5 response.body is of type bytes and json.loads() does only support str
-        # See: https://github.com/jaegertracing/jaeger-client-python/issues/180
-        if hasattr(response.body, 'decode') and callable(response.body.decode):
-            response_body = response.body.decode('utf-8')
-        else:
-            response_body = response.body
-
+        response_body = response.body
         try:
+            # In Python 3.5 response.body is of type bytes and json.loads() does only support str
+            # See: https://github.com/jaegertracing/jaeger-client-python/issues/180
+            if hasattr(response_body, 'decode') and callable(response_body.decode):
+                response_body = response_body.decode('utf-8')
             sampling_strategies_response = json.loads(response_body)
             self.metrics.sampler_retrieved(1)
         except Exception as e:
diff --git a/jaeger_client/throttler.py b/jaeger_client/throttler.py
index 6866e4b..b4548fe 100644
--- a/jaeger_client/throttler.py
+++ b/jaeger_client/throttler.py
@@ -155,14 +155,12 @@ class RemoteThrottler(Throttler):
             return
 
         response = future.result()
-        # In Python 3.5 response.body is of type bytes and json.loads() does only support str
-        # See: https://github.com/jaegertracing/jaeger-client-python/issues/180
-        if hasattr(response.body, 'decode') and callable(response.body.decode):
-            response_body = response.body.decode('utf-8')
-        else:
-            response_body = response.body
-
+        response_body = response.body
         try:
+            # In Python 3.5 response.body is of type bytes and json.loads() does only support str
+            # See: https://github.com/jaegertracing/jaeger-client-python/issues/180
+            if hasattr(response_body, 'decode') and callable(response_body.decode):
+                response_body = response_body.decode('utf-8')
             throttling_response = json.loads(response_body)
             self.logger.debug('Received throttling response: %s',
                               throttling_response)
-- 
2.43.0


From 7929e88fb20cd86960a76588adf9a0f886ea9d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:20 +0000
Subject: [PATCH 20/48] fix: request credits for a snapshot of the operations

The live view handed out changed size while the request was being built when
another thread used a new operation.
---
 jaeger_client/throttler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaeger_client/throttler.py b/jaeger_client/throttler.py
index b4548fe..59c15e4 100644
--- a/jaeger_client/throttler.py
+++ b/jaeger_client/throttler.py
@@ -117,7 +117,7 @@ class RemoteThrottler(Throttler):
 
     def _operations(self):
         with self.lock:
-            return self.credits.keys()
+            return list(self.credits.keys())
 
     def _delayed_polling(self):
         def callback():
-- 
2.43.0


From a12a6dfeea9d896db4cf9e4ee62174955f6f6ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:22 +0000
Subject: [PATCH 21/48] fix: reject credits that are negative or not finite
 numbers

A negative balance took away credits already held, NaN allowed every debug span
from then on and an integer too large for a float raised into the application.
---
 jaeger_client/throttler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jaeger_client/throttler.py b/jaeger_client/throttler.py
index 59c15e4..95dfe03 100644
--- a/jaeger_client/throttler.py
+++ b/jaeger_client/throttler.py
@@ -177,7 +177,9 @@ class RemoteThrottler(Throttler):
         with self.lock:
             for op_balance in response['balances']:
                 op = op_balance['operation']
-                balance = op_balance['balance']
+                balance = float(op_balance['balance'])
+                if not 0 <= balance < float('inf'):
+                    raise ValueError('Invalid balance: %s' % balance)
                 if op not in self.credits:
                     self.credits[op] = 0
                 self.credits[op] += balance
-- 
2.43.0


From e31df22f5d80e671d022bf5106c0e7d64d25c2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:25 +0000
Subject: [PATCH 22/48] fix: do not query the agent after close

Closing before the first poll still let that poll send its request.
---
 jaeger_client/sampler.py   | 3 +++
 jaeger_client/throttler.py | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/jaeger_client/sampler.py b/jaeger_client/sampler.py
index e9f9d73..ea5efc7 100644
--- a/jaeger_client/sampler.py
+++ b/jaeger_client/sampler.py
@@ -408,6 +408,9 @@ class RemoteControlledSampler(Sampler):
                 'Delaying sampling strategy polling by %d sec', delay)
 
     def _delayed_polling(self):
+        with self.lock:
+            if not self.running:
+                return
         periodic = self._create_periodic_callback()
         self._poll_sampling_manager()  # Initialize sampler now
         with self.lock:
diff --git a/jaeger_client/throttler.py b/jaeger_client/throttler.py
index 95dfe03..d40daa7 100644
--- a/jaeger_client/throttler.py
+++ b/jaeger_client/throttler.py
@@ -120,6 +120,10 @@ class RemoteThrottler(Throttler):
             return list(self.credits.keys())
 
     def _delayed_polling(self):
+        with self.lock:
+            if not self.running:
+                return
+
         def callback():
             self._fetch_credits(self._operations())
 
-- 
2.43.0


From c43317d8dca173172c1c5f9c39d3070bf3d942d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:49 +0000
Subject: [PATCH 23/48] fix: keep polling when a query cannot be sent

An error raised while building the first request (e.g. a name that cannot be
encoded in a URL) meant that the periodic polling was never started.
---
 jaeger_client/sampler.py   |  8 +++++++-
 jaeger_client/throttler.py | 10 ++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/jaeger_client/sampler.py b/jaeger_client/sampler.py
index ea5efc7..30bee90 100644
--- a/jaeger_client/sampler.py
+++ b/jaeger_client/sampler.py
@@ -502,7 +502,13 @@ class RemoteControlledSampler(Sampler):
 
     def _poll_sampling_manager(self):
         self.logger.debug('Requesting tracing sampler refresh')
-        fut = self._channel.request_sampling_strategy(self.service_name)
+        try:
+            fut = self._channel.request_sampling_strategy(self.service_name)
+        except Exception as e:
+            self.metrics.sampler_query_failure(1)
+            self.error_reporter.error(
+                'Fail to request sampling strategy from jaeger-agent: %s', e)
+            return
         fut.add_done_callback(self._sampling_request_callback)
 
     def close(self) -> None:
diff --git a/jaeger_client/throttler.py b/jaeger_client/throttler.py
index d40daa7..3cf22fe 100644
--- a/jaeger_client/throttler.py
+++ b/jaeger_client/throttler.py
@@ -145,8 +145,14 @@ class RemoteThrottler(Throttler):
         if not operations:
             return
         self.logger.debug('Requesting throttling credits')
-        fut = self.channel.request_throttling_credits(
-            self.service_name, self.client_id, operations)
+        try:
+            fut = self.channel.request_throttling_credits(
+                self.service_name, self.client_id, operations)
+        except Exception as e:
+            self.metrics.throttler_update_failure(1)
+            self.error_reporter.error(
+                'Failed to request throttling credits from jaeger-agent: %s', e)
+            return
         fut.add_done_callback(self._request_callback)
 
     def _request_callback(self, future):
-- 
2.43.0


From e519ca8aab3816284c101d4917bbef892626697d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:51 +0000
Subject: [PATCH 24/48] fix: complete the future of every close() of a reporter

A second close put another stop marker in the queue, which nobody consumed.
---
 jaeger_client/reporter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jaeger_client/reporter.py b/jaeger_client/reporter.py
index 3b31f0f..428b75f 100644
--- a/jaeger_client/reporter.py
+++ b/jaeger_client/reporter.py
@@ -239,8 +239,10 @@ class Reporter(BaseReporter):
     def _flush(self):
         # stopping here ensures we don't lose spans from pending _report_span_from_ioloop callbacks
         with self.stop_lock:
+            stopped = self.stopped
             self.stopped = True
-        yield self.queue.put(self.stop)
+        if not stopped:
+            yield self.queue.put(self.stop)
         yield self.queue.join()
 
 
-- 
2.43.0


From fa7d4e686781d25d5ff0ef032e4a7ab0289cb3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:54 +0000
Subject: [PATCH 25/48] fix: complete the close of a composite reporter without
 parts

---
 jaeger_client/reporter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jaeger_client/reporter.py b/jaeger_client/reporter.py
index 428b75f..4f6027f 100644
--- a/jaeger_client/reporter.py
+++ b/jaeger_client/reporter.py
@@ -285,6 +285,9 @@ class CompositeReporter(BaseReporter):
                 if count[0] == len(self.reporters):
                     future.set_result(True)
 
+        if not self.reporters:
+            future.set_result(True)
+
         for reporter in self.reporters:
             f = reporter.close()
             f.add_done_callback(on_close)
-- 
2.43.0


From 326f3f104119c63fcc5686a7f34a51337ce502fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:57 +0000
Subject: [PATCH 26/48] fix: pass on errors of functions submitted to the event
 loop

set_exc_info does not exist any more, so the returned future never completed.
---
 jaeger_client/ioloop_util.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jaeger_client/ioloop_util.py b/jaeger_client/ioloop_util.py
index eb73b6f..f5d2ff8 100644
--- a/jaeger_client/ioloop_util.py
+++ b/jaeger_client/ioloop_util.py
@@ -13,7 +13,6 @@
 # limitations under the License.
 
 
-import sys
 from tornado import gen
 from tornado.concurrent import Future
 
@@ -33,12 +32,12 @@ def submit(fn, io_loop, *args, **kwargs):
         """Execute fn on the IOLoop."""
         try:
             result = gen.maybe_future(fn(*args, **kwargs))
-        except Exception:
+        except Exception as e:
             # The function we ran didn't return a future and instead raised
             # an exception. Let's pretend that it returned this dummy
             # future with our stack trace.
             f = gen.Future()
-            f.set_exc_info(sys.exc_info())
+            f.set_exception(e)
             on_done(f)
         else:
             result.add_done_callback(on_done)
-- 
2.43.0


From 3f69d4ea9caf566870751e6623c6e297d6a2acf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:14 +0000
Subject: [PATCH 27/48] fix: accept all supported keys when the configuration
 is validated

metrics, debug_id_header and max_operations were rejected as unexpected.
---
 jaeger_client/config.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jaeger_client/config.py b/jaeger_client/config.py
index c70f56a..67d30af 100644
--- a/jaeger_client/config.py
+++ b/jaeger_client/config.py
@@ -139,7 +139,10 @@ class Config(object):
                         'generate_128bit_trace_id',
                         'baggage_header_prefix',
                         'service_name',
-                        'throttler']
+                        'throttler',
+                        'metrics',
+                        'debug_id_header',
+                        'max_operations']
         config_keys = config.keys()
         unexpected_config_keys = [k for k in config_keys if k not in allowed_keys]
         if unexpected_config_keys:
-- 
2.43.0


From c8f540e8de60f1a7a8103adda105a90376ee7bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:16 +0000
Subject: [PATCH 28/48] fix: allow '=' in the values of JAEGER_TAGS

---
 jaeger_client/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaeger_client/config.py b/jaeger_client/config.py
index 67d30af..2a3626a 100644
--- a/jaeger_client/config.py
+++ b/jaeger_client/config.py
@@ -320,7 +320,7 @@ class Config(object):
         env_tags = os.environ.get('JAEGER_TAGS', '')
         if env_tags:
             for kv in env_tags.split(','):
-                key, value = kv.split('=')
+                key, value = kv.split('=', 1)
                 tags[key.strip()] = value.strip()
         return tags
 
-- 
2.43.0


From cae0dd7c93c9fe85182cb7d72b685933310ef7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:18 +0000
Subject: [PATCH 29/48] fix: do not write JAEGER_TAGS into the caller's
 configuration

---
 jaeger_client/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaeger_client/config.py b/jaeger_client/config.py
index 2a3626a..5c919ff 100644
--- a/jaeger_client/config.py
+++ b/jaeger_client/config.py
@@ -316,7 +316,7 @@ class Config(object):
         :return: Returns tags from config and `JAEGER_TAGS` environment variable
         to use as process-wide tracer tags
         """
-        tags = self.config.get('tags', {})
+        tags = dict(self.config.get('tags') or {})
         env_tags = os.environ.get('JAEGER_TAGS', '')
         if env_tags:
             for kv in env_tags.split(','):
-- 
2.43.0


From b37e87154062f929007998c7af59111679382d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 30/48] fix: do not modify the tags of the caller in the
 Prometheus factory

---
 jaeger_client/metrics/prometheus.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/jaeger_client/metrics/prometheus.py b/jaeger_client/metrics/prometheus.py
index a4f3339..3f6dec9 100644
--- a/jaeger_client/metrics/prometheus.py
+++ b/jaeger_client/metrics/prometheus.py
@@ -36,11 +36,9 @@ class PrometheusMetricsFactory(MetricsFactory):
         return tag_name_list
 
     def _get_metric(self, metricType, name, tags):
+        tags = dict(tags or {})
         if self._service_name_label:
-            if tags is None:
-                tags = {'service': self._service_name_label}
-            else:
-                tags['service'] = self._service_name_label
+            tags['service'] = self._service_name_label
 
         label_name_list = self._get_tag_name_list(tags)
         cache_key = name + '@@'.join(label_name_list)
-- 
2.43.0


From cda962f622ff45d68941d88b445cb248c3aa0a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:23 +0000
Subject: [PATCH 31/48] fix: tell apart Prometheus metrics with similar names
 and labels

Metrics whose name and label names concatenate to the same text were mixed up,
and the same labels in a different order were rejected as duplicates.
---
 jaeger_client/metrics/prometheus.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jaeger_client/metrics/prometheus.py b/jaeger_client/metrics/prometheus.py
index 3f6dec9..e49080e 100644
--- a/jaeger_client/metrics/prometheus.py
+++ b/jaeger_client/metrics/prometheus.py
@@ -33,7 +33,8 @@ class PrometheusMetricsFactory(MetricsFactory):
         tag_name_list = []
         for key in tags.keys():
             tag_name_list.append(key)
-        return tag_name_list
+        # the order of the tags makes no difference
+        return sorted(tag_name_list)
 
     def _get_metric(self, metricType, name, tags):
         tags = dict(tags or {})
@@ -41,7 +42,7 @@ class PrometheusMetricsFactory(MetricsFactory):
             tags['service'] = self._service_name_label
 
         label_name_list = self._get_tag_name_list(tags)
-        cache_key = name + '@@'.join(label_name_list)
+        cache_key = (name, tuple(label_name_list))
 
         metric = self._cache.get(cache_key)
         if metric is None:
-- 
2.43.0


From 6d6149d4b7480583664b3f65284fc638b39e9ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:11 +0000
Subject: [PATCH 32/48] fix: let the priority '0' given as text unsample a
 debug span too

As on other spans; it was taken for an attempt to re-enable debug.
---
 jaeger_client/span.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jaeger_client/span.py b/jaeger_client/span.py
index b49a8e0..17d9d66 100644
--- a/jaeger_client/span.py
+++ b/jaeger_client/span.py
@@ -119,12 +119,12 @@ class Span(opentracing.Span):
         """
 
         try:
-            # Ignore debug spans trying to re-enable debug.
-            if self.is_debug() and value:
-                return False
             value_num = int(value)
         except Exception:
             return False
+        # Ignore debug spans trying to re-enable debug.
+        if self.is_debug() and value_num:
+            return False
         if value_num == 0:
             self.context.flags &= ~(SAMPLED_FLAG | DEBUG_FLAG)
             return False
-- 
2.43.0


From 210614651341d52880306e5fb6cbc082fca70a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:36 +0000
Subject: [PATCH 33/48] fix: make traceback tags encodable for any file name

---
 jaeger_client/thrift.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jaeger_client/thrift.py b/jaeger_client/thrift.py
index c498292..4b42501 100644
--- a/jaeger_client/thrift.py
+++ b/jaeger_client/thrift.py
@@ -98,7 +98,11 @@ def make_tag(key, value, max_length, max_traceback_length):
 
 def _make_traceback_tag(key, value, max_length):
     key = _to_string(key)
-    value = ''.join(traceback.format_tb(value))
+    try:
+        value = ''.join(traceback.format_tb(value))
+    except Exception as e:
+        value = e
+    value = _to_string(value)
     if len(value) > max_length:
         value = value[:max_length]
     return ttypes.Tag(
-- 
2.43.0


From 5232658e28143e9320933e3f6db8da060d354786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:00 +0000
Subject: [PATCH 34/48] fix: accept JAEGER_TRACEID_128BIT in any spelling
 booleans have elsewhere

---
 jaeger_client/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaeger_client/config.py b/jaeger_client/config.py
index 5c919ff..5ea7bd2 100644
--- a/jaeger_client/config.py
+++ b/jaeger_client/config.py
@@ -193,7 +193,7 @@ class Config(object):
         """
         if 'generate_128bit_trace_id' in self.config:
             return get_boolean(self.config['generate_128bit_trace_id'], False)
-        return os.getenv('JAEGER_TRACEID_128BIT') == 'true'
+        return get_boolean(os.getenv('JAEGER_TRACEID_128BIT', 'false'), False)
 
     @property
     def baggage_header_prefix(self) -> str:
-- 
2.43.0


From 059fe808e0453c141e38afa4a1fbb8426a719eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:17 +0000
Subject: [PATCH 35/48] fix: request debug credits for spans without a name
 under the name they get

---
 jaeger_client/tracer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaeger_client/tracer.py b/jaeger_client/tracer.py
index e718b72..32f58ec 100644
--- a/jaeger_client/tracer.py
+++ b/jaeger_client/tracer.py
@@ -195,7 +195,7 @@ class Tracer(opentracing.Tracer):
                     tags = tags or {}
                     for k, v in sampler_tags.items():
                         tags[k] = v
-            elif self.is_debug_allowed(operation_name):
+            elif self.is_debug_allowed(operation_name or ''):
                 flags = SAMPLED_FLAG | DEBUG_FLAG
                 tags = tags or {}
                 tags[self.debug_id_header] = parent.debug_id
-- 
2.43.0


From 0c3b0c82c04dc55c3262742614c63c10c4e2ec78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:17 +0000
Subject: [PATCH 36/48] fix: apply the timeout of agent queries to each query

---
 jaeger_client/local_agent_net.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jaeger_client/local_agent_net.py b/jaeger_client/local_agent_net.py
index 7f95606..8d73fc1 100644
--- a/jaeger_client/local_agent_net.py
+++ b/jaeger_client/local_agent_net.py
@@ -31,12 +31,12 @@ class LocalAgentHTTP(object):
         self.agent_http_port = int(port)
 
     def _request(self, path, timeout=DEFAULT_TIMEOUT, args=None):
-        http_client = tornado.httpclient.AsyncHTTPClient(
-            defaults=dict(request_timeout=timeout))
+        # The client is shared by everything on this IOLoop, so its defaults are not ours to set.
+        http_client = tornado.httpclient.AsyncHTTPClient()
         url = 'http://%s:%d/%s' % (self.agent_http_host, self.agent_http_port, path)
         if args:
             url = url_concat(url, args)
-        return http_client.fetch(url)
+        return http_client.fetch(url, request_timeout=timeout)
 
     def request_sampling_strategy(self, service_name, timeout=DEFAULT_TIMEOUT):
         return self._request('sampling', timeout=timeout, args={'service': service_name})
-- 
2.43.0


From 70c60f6b17a8910250a3d2f9742f0461869ef178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:07 +0000
Subject: [PATCH 37/48] fix: ignore unknown fields of crossdock messages
 whatever they are called

---
 crossdock/server/serializer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crossdock/server/serializer.py b/crossdock/server/serializer.py
index 7b90d4b..761d6d1 100644
--- a/crossdock/server/serializer.py
+++ b/crossdock/server/serializer.py
@@ -113,8 +113,9 @@ def traced_service_object_to_json(obj):
 
 
 def set_traced_service_object_values(obj, values, downstream_func):
+    keys = class_keys(obj)
     for k in values.keys():
-        if hasattr(obj, k):
+        if k in keys:
             if k == 'downstream':
                 if values[k] is not None:
                     obj.downstream = downstream_func(values[k])
-- 
2.43.0


From b920e7a664bd4b2f45dcb7159d25321971c824be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:17 +0000
Subject: [PATCH 38/48] fix: look for the local IP on the numbered network
 interfaces

---
 jaeger_client/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaeger_client/utils.py b/jaeger_client/utils.py
index ff464b4..ca2b5de 100644
--- a/jaeger_client/utils.py
+++ b/jaeger_client/utils.py
@@ -93,7 +93,7 @@ def get_local_ip_by_interfaces() -> Optional[str]:
     ip = None
     # Check eth0, eth1, eth2, en0, ...
     interfaces = [
-        i + bytes(n) for i in (b'eth', b'en', b'wlan') for n in range(3)
+        i + str(n).encode() for i in (b'eth', b'en', b'wlan') for n in range(3)
     ]  # :(
     for interface in interfaces:
         try:
-- 
2.43.0


From cb9c47921d97d15490347619f10d1a4d54fab04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:20 +0000
Subject: [PATCH 39/48] fix: create tracers on hosts whose name or address
 cannot be determined

---
 jaeger_client/utils.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/jaeger_client/utils.py b/jaeger_client/utils.py
index ca2b5de..5f7fab7 100644
--- a/jaeger_client/utils.py
+++ b/jaeger_client/utils.py
@@ -66,9 +66,10 @@ def local_ip() -> Optional[str]:
 
     try:
         ip = socket.gethostbyname(socket.gethostname())
-    except IOError:
-        ip = socket.gethostbyname('localhost')
-    if ip.startswith('127.'):
+    except (IOError, UnicodeError):
+        # the host has no name, or one that cannot be resolved
+        ip = None
+    if ip is None or ip.startswith('127.'):
         ip = get_local_ip_by_interfaces()
         if ip is None:
             ip = get_local_ip_by_socket()
@@ -77,15 +78,13 @@ def local_ip() -> Optional[str]:
 
 def get_local_ip_by_socket() -> Optional[str]:
     # Explanation : https://stackoverflow.com/questions/166506
-    s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
     try:
-        # doesn't even have to be reachable
-        s.connect(('10.255.255.255', 1))
-        ip = s.getsockname()[0]
+        with socket.socket(socket.AF_INET, socket.SOCK_DGRAM) as s:
+            # doesn't even have to be reachable
+            s.connect(('10.255.255.255', 1))
+            ip = s.getsockname()[0]
     except IOError:
         ip = None
-    finally:
-        s.close()
     return ip
 
 
-- 
2.43.0


From 0beeb6b386ce9cda2cd35f8ebc9160ef9edb3955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:21 +0000
Subject: [PATCH 40/48] fix: register each Prometheus metric once when threads
 share a factory

---
 jaeger_client/metrics/prometheus.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/jaeger_client/metrics/prometheus.py b/jaeger_client/metrics/prometheus.py
index e49080e..4ee59ec 100644
--- a/jaeger_client/metrics/prometheus.py
+++ b/jaeger_client/metrics/prometheus.py
@@ -12,6 +12,8 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+import threading
+
 from jaeger_client.metrics import MetricsFactory
 from collections import defaultdict
 from prometheus_client import Counter, Gauge
@@ -24,6 +26,7 @@ class PrometheusMetricsFactory(MetricsFactory):
     """
     def __init__(self, namespace: str = '', service_name_label: Optional[str] = None) -> None:
         self._cache: DefaultDict = defaultdict(object)
+        self._cache_lock = threading.Lock()
         self._namespace = namespace
         self._service_name_label = service_name_label
 
@@ -44,11 +47,12 @@ class PrometheusMetricsFactory(MetricsFactory):
         label_name_list = self._get_tag_name_list(tags)
         cache_key = (name, tuple(label_name_list))
 
-        metric = self._cache.get(cache_key)
-        if metric is None:
-            metric = metricType(name=name, documentation=name,
-                                labelnames=label_name_list, namespace=self._namespace)
-            self._cache[cache_key] = metric
+        with self._cache_lock:
+            metric = self._cache.get(cache_key)
+            if metric is None:
+                metric = metricType(name=name, documentation=name,
+                                    labelnames=label_name_list, namespace=self._namespace)
+                self._cache[cache_key] = metric
 
         if tags is not None and len(tags) > 0:
             metric = metric.labels(**tags)
-- 
2.43.0


From fed296101ce276507e75d3c9bd8271d66f33f692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:50 +0000
Subject: [PATCH 41/48] fix: count spans as failed when the reporter has no
 process

---
 jaeger_client/reporter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jaeger_client/reporter.py b/jaeger_client/reporter.py
index 4f6027f..5c650bd 100644
--- a/jaeger_client/reporter.py
+++ b/jaeger_client/reporter.py
@@ -206,6 +206,9 @@ class Reporter(BaseReporter):
         with self._process_lock:
             process = self._process
             if not process:
+                self.metrics.reporter_failure(len(spans))
+                self.error_reporter.error(
+                    'Failed to submit traces to jaeger-agent: process is not set')
                 return
         try:
             batch = thrift.make_jaeger_batch(spans=spans, process=process)
-- 
2.43.0


From 25f5e4a1abdaab937afa1cf764e0803e23ba9fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:33 +0000
Subject: [PATCH 42/48] fix: match a custom ad-hoc baggage header in any letter
 case

---
 jaeger_client/codecs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaeger_client/codecs.py b/jaeger_client/codecs.py
index a45b695..c6d24e7 100644
--- a/jaeger_client/codecs.py
+++ b/jaeger_client/codecs.py
@@ -52,7 +52,7 @@ class TextCodec(Codec):
         self.trace_id_header = trace_id_header.lower().replace('_', '-')
         self.baggage_prefix = baggage_header_prefix.lower().replace('_', '-')
         self.debug_id_header = debug_id_header.lower().replace('_', '-')
-        self.baggage_header = baggage_header
+        self.baggage_header = baggage_header.lower()
         self.prefix_length = len(baggage_header_prefix)
 
     def inject(self, span_context, carrier):
-- 
2.43.0


From 761918516cdac0837d1e8912693b9563ffa21ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:49 +0000
Subject: [PATCH 43/48] fix: tag values are encoded by their type, not by the
 type they claim

---
 jaeger_client/thrift.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/jaeger_client/thrift.py b/jaeger_client/thrift.py
index 4b42501..efcaf36 100644
--- a/jaeger_client/thrift.py
+++ b/jaeger_client/thrift.py
@@ -63,7 +63,7 @@ def _to_string(s):
         except Exception:
             string = type(e).__name__
     # strings with lone surrogates cannot be encoded
-    return string.encode('utf-8', 'replace').decode('utf-8')
+    return str.encode(string, 'utf-8', 'replace').decode('utf-8')
 
 
 def make_tag(key, value, max_length, max_traceback_length):
@@ -72,12 +72,14 @@ def make_tag(key, value, max_length, max_traceback_length):
             key=key,
             value=value
         )
-    elif isinstance(value, int) and _min_signed_long <= value <= _max_signed_id:
+    # what the value is, not what it claims to be (e.g. a proxy of a number), decides how it is sent
+    elif issubclass(type(value), int) \
+            and _min_signed_long <= int.__int__(value) <= _max_signed_id:
         return _make_long_tag(
             key=key,
-            value=value
+            value=int.__int__(value)
         )
-    elif isinstance(value, float):
+    elif issubclass(type(value), float):
         return _make_double_tag(
             key=key,
             value=value
-- 
2.43.0


From bfd71074eca21a83013805e936131b53b5f71741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:00 +0000
Subject: [PATCH 44/48] fix: keep explicit times of zero

---
 jaeger_client/span.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/jaeger_client/span.py b/jaeger_client/span.py
index 17d9d66..9bea78b 100644
--- a/jaeger_client/span.py
+++ b/jaeger_client/span.py
@@ -50,7 +50,7 @@ class Span(opentracing.Span):
     ) -> None:
         super(Span, self).__init__(context=context, tracer=tracer)
         self.operation_name = operation_name
-        self.start_time = start_time or time.time()
+        self.start_time = time.time() if start_time is None else start_time
         self.end_time: Optional[float] = None
         self.finished = False
         self.update_lock = threading.Lock()
@@ -91,7 +91,7 @@ class Span(opentracing.Span):
                 logger.warning('Span has already been finished; will not be reported again.')
                 return
             self.finished = True
-            self.end_time = finish_time or time.time()
+            self.end_time = time.time() if finish_time is None else finish_time
 
         self.tracer.report_span(self)
 
@@ -135,10 +135,9 @@ class Span(opentracing.Span):
 
     def log_kv(self, key_values: Dict[str, Any], timestamp: Optional[float] = None) -> 'Span':
         if self.is_sampled():
-            timestamp = timestamp if timestamp else time.time()
             # TODO handle exception logging, 'python.exception.type' etc.
             log = thrift.make_log(
-                timestamp=timestamp if timestamp else time.time(),
+                timestamp=time.time() if timestamp is None else timestamp,
                 fields=key_values,
                 max_length=self._tracer.max_tag_value_length,
                 max_traceback_length=self._tracer.max_traceback_length,
-- 
2.43.0


From df2256525b29110bcbd4a8ebc1e2e61fd0155cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:43 +0000
Subject: [PATCH 45/48] fix: log and convert tag values outside of the span's
 lock

---
 jaeger_client/span.py | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/jaeger_client/span.py b/jaeger_client/span.py
index 9bea78b..0afcee5 100644
--- a/jaeger_client/span.py
+++ b/jaeger_client/span.py
@@ -87,11 +87,15 @@ class Span(opentracing.Span):
             return
 
         with self.update_lock:
-            if self.finished:
-                logger.warning('Span has already been finished; will not be reported again.')
-                return
-            self.finished = True
-            self.end_time = time.time() if finish_time is None else finish_time
+            already_finished = self.finished
+            if not already_finished:
+                self.finished = True
+                self.end_time = time.time() if finish_time is None else finish_time
+
+        # N.B. log handlers may use this span, so the lock cannot be held here
+        if already_finished:
+            logger.warning('Span has already been finished; will not be reported again.')
+            return
 
         self.tracer.report_span(self)
 
@@ -100,16 +104,19 @@ class Span(opentracing.Span):
         :param key:
         :param value:
         """
-        with self.update_lock:
-            if key == ext_tags.SAMPLING_PRIORITY and not self._set_sampling_priority(value):
-                return self
-            if self.is_sampled():
-                tag = thrift.make_tag(
-                    key=key,
-                    value=value,
-                    max_length=self.tracer.max_tag_value_length,
-                    max_traceback_length=self._tracer.max_traceback_length,
-                )
+        if key == ext_tags.SAMPLING_PRIORITY:
+            with self.update_lock:
+                if not self._set_sampling_priority(value):
+                    return self
+        if self.is_sampled():
+            # N.B. converting the value may use this span, so the lock cannot be held here
+            tag = thrift.make_tag(
+                key=key,
+                value=value,
+                max_length=self.tracer.max_tag_value_length,
+                max_traceback_length=self._tracer.max_traceback_length,
+            )
+            with self.update_lock:
                 self.tags.append(tag)
         return self
 
-- 
2.43.0


From bcd7a9df4f0bca565b62ce6df6c8e7911a00942a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:45 +0000
Subject: [PATCH 46/48] fix: log and count outside of the remote sampler's lock

---
 jaeger_client/sampler.py | 45 ++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/jaeger_client/sampler.py b/jaeger_client/sampler.py
index 30bee90..b13e0c5 100644
--- a/jaeger_client/sampler.py
+++ b/jaeger_client/sampler.py
@@ -404,8 +404,8 @@ class RemoteControlledSampler(Sampler):
             delay = r.random() * self.sampling_refresh_interval
             self.io_loop.call_later(delay=delay,
                                     callback=self._delayed_polling)
-            self.logger.info(
-                'Delaying sampling strategy polling by %d sec', delay)
+        self.logger.info(
+            'Delaying sampling strategy polling by %d sec', delay)
 
     def _delayed_polling(self):
         with self.lock:
@@ -418,9 +418,9 @@ class RemoteControlledSampler(Sampler):
                 return
             self.periodic = periodic
             periodic.start()  # start the periodic cycle
-            self.logger.info(
-                'Tracing sampler started with sampling refresh '
-                'interval %d sec', self.sampling_refresh_interval)
+        self.logger.info(
+            'Tracing sampler started with sampling refresh '
+            'interval %d sec', self.sampling_refresh_interval)
 
     def _create_periodic_callback(self):
         return PeriodicCallback(
@@ -458,26 +458,35 @@ class RemoteControlledSampler(Sampler):
         self.logger.debug('Tracing sampler set to %s', self.sampler)
 
     def _update_sampler(self, response):
-        with self.lock:
-            try:
+        # N.B. metrics and log handlers may use the tracer, so they cannot be called with the lock
+        try:
+            with self.lock:
                 if response.get(OPERATION_SAMPLING_STR):
-                    self._update_adaptive_sampler(response.get(OPERATION_SAMPLING_STR))
+                    updated = self._update_adaptive_sampler(response.get(OPERATION_SAMPLING_STR))
                 else:
-                    self._update_rate_limiting_or_probabilistic_sampler(response)
-            except Exception as e:
-                self.metrics.sampler_update_failure(1)
-                self.error_reporter.error(
-                    'Fail to update sampler'
-                    'from jaeger-agent: %s [%s]', e, response)
+                    updated = self._update_rate_limiting_or_probabilistic_sampler(response)
+            if updated:
+                self.metrics.sampler_updated(1)
+        except Exception as e:
+            self.metrics.sampler_update_failure(1)
+            self.error_reporter.error(
+                'Fail to update sampler'
+                'from jaeger-agent: %s [%s]', e, response)
 
     def _update_adaptive_sampler(self, per_operation_strategies):
+        """
+        :return: True if the sampler was updated. N.B. Caller must be holding the lock.
+        """
         if isinstance(self.sampler, AdaptiveSampler):
             self.sampler.update(per_operation_strategies)
         else:
             self.sampler = AdaptiveSampler(per_operation_strategies, self.max_operations)
-        self.metrics.sampler_updated(1)
+        return True
 
     def _update_rate_limiting_or_probabilistic_sampler(self, response):
+        """
+        :return: True if the sampler was updated. N.B. Caller must be holding the lock.
+        """
         s_type = response.get(STRATEGY_TYPE_STR)
         new_sampler = self.sampler
         if s_type == PROBABILISTIC_SAMPLING_STRATEGY:
@@ -489,8 +498,7 @@ class RemoteControlledSampler(Sampler):
                 raise ValueError(
                     'Rate limiting parameter not in [0, 500) range: %s' % mtps)
             if isinstance(self.sampler, RateLimitingSampler):
-                if self.sampler.update(max_traces_per_second=mtps):
-                    self.metrics.sampler_updated(1)
+                return self.sampler.update(max_traces_per_second=mtps)
             else:
                 new_sampler = RateLimitingSampler(max_traces_per_second=mtps)
         else:
@@ -498,7 +506,8 @@ class RemoteControlledSampler(Sampler):
 
         if self.sampler != new_sampler:
             self.sampler = new_sampler
-            self.metrics.sampler_updated(1)
+            return True
+        return False
 
     def _poll_sampling_manager(self):
         self.logger.debug('Requesting tracing sampler refresh')
-- 
2.43.0


From d57d5e6bab2b241b79656066e32f45af03395c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:48 +0000
Subject: [PATCH 47/48] fix: log and count outside of the throttler's lock

---
 jaeger_client/throttler.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/jaeger_client/throttler.py b/jaeger_client/throttler.py
index 3cf22fe..665aa13 100644
--- a/jaeger_client/throttler.py
+++ b/jaeger_client/throttler.py
@@ -82,15 +82,15 @@ class RemoteThrottler(Throttler):
         with self.lock:
             if operation not in self.credits:
                 self.credits[operation] = 0.0
-                self.metrics.throttled_debug_spans(1)
-                return False
             value = self.credits[operation]
-            if value < MINIMUM_CREDITS:
-                self.metrics.throttled_debug_spans(1)
-                return False
+            allowed = value >= MINIMUM_CREDITS
+            if allowed:
+                self.credits[operation] = value - MINIMUM_CREDITS
 
-            self.credits[operation] = value - MINIMUM_CREDITS
-            return True
+        # N.B. metrics may use the tracer, so the lock cannot be held here
+        if not allowed:
+            self.metrics.throttled_debug_spans(1)
+        return allowed
 
     def set_client_id(self, client_id: int) -> None:
         with self.lock:
@@ -112,8 +112,8 @@ class RemoteThrottler(Throttler):
             delay = r.random() * self.refresh_interval
             self.channel.io_loop.call_later(
                 delay=delay, callback=self._delayed_polling)
-            self.logger.info(
-                'Delaying throttling credit polling by %d sec', delay)
+        self.logger.info(
+            'Delaying throttling credit polling by %d sec', delay)
 
     def _operations(self):
         with self.lock:
@@ -137,9 +137,9 @@ class RemoteThrottler(Throttler):
                 return
             self.periodic = periodic
             self.periodic.start()
-            self.logger.info(
-                'Throttling client started with refresh interval %d sec',
-                self.refresh_interval)
+        self.logger.info(
+            'Throttling client started with refresh interval %d sec',
+            self.refresh_interval)
 
     def _fetch_credits(self, operations):
         if not operations:
@@ -193,7 +193,8 @@ class RemoteThrottler(Throttler):
                 if op not in self.credits:
                     self.credits[op] = 0
                 self.credits[op] += balance
-            self.logger.debug('credits = %s', self.credits)
+            credits = dict(self.credits)
+        self.logger.debug('credits = %s', credits)
 
     def close(self) -> None:
         with self.lock:
-- 
2.43.0


From 16463daabc435bfb149e41d5b4f81d852cf74f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:50 +0000
Subject: [PATCH 48/48] fix: log outside of the lock of Config

---
 jaeger_client/config.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/jaeger_client/config.py b/jaeger_client/config.py
index 5ea7bd2..258d76d 100644
--- a/jaeger_client/config.py
+++ b/jaeger_client/config.py
@@ -372,11 +372,14 @@ class Config(object):
         """
 
         with Config._initialized_lock:
-            if Config._initialized:
-                logger.warning('Jaeger tracer already initialized, skipping')
-                return None
+            already_initialized = Config._initialized
             Config._initialized = True
 
+        # N.B. log handlers may use Config, so the lock cannot be held here
+        if already_initialized:
+            logger.warning('Jaeger tracer already initialized, skipping')
+            return None
+
         tracer = self.new_tracer(io_loop)
 
         self._initialize_global_tracer(tracer=tracer)
-- 
2.43.0

