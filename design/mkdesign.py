"""Expands DESIGN.in.md into ../DESIGN.md (property table, fixes, planted bugs)."""
import ast, json, os
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
ORACLE = {
 'C01': 'round trip, plus an independent writer of the header format and percent-decoder; carriers compared entry by entry before and after; thread runs are compared with single-thread runs',
 'C02': 'an independent grammar of the trace header and of the three baggage/debug headers says accept (with exact fields), reject or nothing; the result is then used: started from, injected everywhere, reported and decoded',
 'C03': 'independent encoder and decoder of the Go layout; any accepted input must re-encode to the same fields; time and memory of a decode are bounded by the input length, so lying counts are seen',
 'C04': 'independent B3 writer/reader; round trip of sampled and debug state; error class for malformed ids',
 'C05': 'reference model of the whole tree of services: ids, flags, parent links, baggage per hop, over five formats',
 'C06': 'reference model of parent selection, scope stack and references; freshness and width of ids, and bit-wise statistics over many ids with real randomness',
 'C07': 'scripted sampler and throttle record each consultation; model of flags per span; thread runs against the same model',
 'C08': 'exact rational arithmetic: sampled iff low64 < rate * 2^64; monotonicity over rates; also through whole tracers',
 'C09': 'interval token bucket: never more than the upper, never less than the lower bound, over calls, waits, clock steps and updates; threads: sum admitted is bounded by the sequential model',
 'C10': 'per operation: probability model plus interval token bucket, operation table with limit, tags; updates keep or change exactly what they name; also through the remote sampler',
 'C11': 'scripted agent; a validator of strategies written from the interface decides usable or not; decisions compared with a fresh sampler of the last valid strategy; query and update counters; poll times in virtual time',
 'C12': 'conservation law per span: sent + failed + dropped = reported, exactly once, order kept, batch and queue bounds; independent decoding; counters equal to events',
 'C13': 'deadline of each buffered span in virtual time; at completion of close nothing accepted is unsent; futures complete; composites complete exactly with their last part, also when parts fail',
 'C14': 'independent decoder of the datagram against a record of what was called, in exact arithmetic for times',
 'C15': 'no exception reaches the caller; every ordinary span of every batch decodes intact; hostile ones are present',
 'C16': 'model of finish; concurrent recordings are compared as multisets with what is reported; deadlocks are detected by the scheduler',
 'C17': 'reference map per span, snapshots and carriers; log entries; concurrent writes are all present',
 'C18': 'credit book per operation; requests (contents, times) and counters; thread runs bound by the book',
 'C19': 'counter model; legacy keys; Prometheus registry samples against a sum per name and label set; factory shared by threads',
 'C20': 'table of the documented resolution rules; built tracers observed in behaviour against a loopback agent in virtual time; concurrent initialisation',
 'C21': 'model of the interval in exact arithmetic; calls of the error reporter against failure counters and injected causes',
 'C22': 'records of every query and datagram after close in virtual time (hours); use after close must not raise',
 'C23': 'real loopback UDP sockets and a raw HTTP server; bytes received compared with the batch, the query parsed independently; datagrams from whole tracers on their own thread',
 'C24': 'independent JSON reader and writer; round trip; grammar of endpoints; generator counted through its tracer',
 'C25': 'simulated host says which addresses are right; tags of every decoded batch and the credit requests are compared',
 'C27': 'differential: each tracer of a set against the same tracer alone (ids renamed), plus the table of formats it was given',
 'C29': 'metamorphic: after a warm-up, further rounds of the same work with new values must not add memory (traced bytes after a full collection); growth is followed for thousands of rounds (allocated blocks) before it counts, so caches of bounded size are not leaks',
 'C30': 'invariants over histories with call-backs that re-enter the client: no self-deadlock (locks of the client that are re-acquired by their owner are reported), no exception, each finished span sent once with everything recorded before; a deterministic scheduler decides lock-order deadlocks between two threads',
 'C28': 'record of what was reported, in order, against each leaf of the tree; snapshots compared as sets and per-thread orders under schedules',
 'C26': 'independent encoder/decoder and the published interface as a table: bytes equal, decode equal, foreign fields skipped, required fields enforced; service calls matched with a recording handler',
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
rows = []
for p in props:
    i = p['id']
    src = open(os.path.join(V, 'vp', 'props', i.lower() + '.py')).read()
    tests, rule, ass = '', '', []
    for n in ast.parse(src).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            k = n.targets[0].id
            if k == 'RULE': rule = ast.literal_eval(n.value)
            if k == 'ASSUMPTIONS': ass = ast.literal_eval(n.value)
            if k == 'TESTS':
                out = []
                for c in n.value.elts:
                    if isinstance(c, ast.Attribute):
                        out.append('many (600)')
                        continue
                    q = [w.value.value for w in c.keywords if w.arg == 'quick']
                    out.append('%s (%d)' % (c.args[0].value, q[0]))
                tests = ', '.join(out)
    rows.append('### %s %s\n\n* generated: %s\n* decided by: %s\n* tests (quick cases): %s\n* assumed: %s\n* beyond the tests because: %s\n' % (
        i, p['title'], rule, ORACLE[i], tests, '; '.join(ass) or 'nothing further', p['why_tests_cant']))
fixes = '\n'.join('* %s: %s (`%s`)' % tuple(x) for x in (
    (l.split('|')[0], l.split('|')[2], l.split('|')[1]) for l in open(os.path.join(V, 'fixes.txt')).read().splitlines() if l))
caught = json.load(open(os.path.join(H, 'caught.json'))) if os.path.exists(os.path.join(H, 'caught.json')) else {}
bugs = ['| bug | breaks | needs | reported by |', '| --- | --- | --- | --- |']
for b in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', b, 'meta.json')))
    bugs.append('| %s | %s | %s | %s |' % (b, m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'), caught.get(b, '')))
s = open(os.path.join(H, 'DESIGN.in.md')).read()
for k, v in (('PROPS', '\n'.join(rows)), ('FIXES', fixes), ('BUGS', '\n'.join(bugs))):
    s = s.replace('@@%s@@' % k, v)
open(os.path.join(V, 'DESIGN.md'), 'w').write(s)
