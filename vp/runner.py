"""Runs the tests of one property: shards cases over processes, shrinks failures, writes replay and evidence."""
import argparse
import hashlib
import importlib
import json
import math
import os
import random
import resource
import signal
import struct
import sys
import time
import traceback

from . import boot
from .core import Case, HarnessError, Injected, Violation
import hypothesis
from hypothesis import HealthCheck, Phase, settings
from hypothesis import seed as hseed

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
FINDINGS = os.path.join(ROOT, 'known_findings.json')
CPU_LIMIT_CASE = 40.0     # seconds of CPU one case may use (normal: milliseconds)
SHRINK_SECONDS = 60

real_time = boot._real_time


class Hang(BaseException):
    pass


def enc(case):
    return repr(case)


def dec(text):
    return eval(text, {'__builtins__': {}, 'inf': math.inf, 'nan': math.nan, 'frozenset': frozenset, 'set': set,
                       'bytearray': bytearray})


def load_findings(prop):
    try:
        with open(FINDINGS) as f:
            return {e['key']: e for e in json.load(f)['findings'] if e['property'] == prop and e['status'] == 'open'}
    except OSError:
        return {}


def classify(e):
    """Turns an exception that escaped from a test case into a Violation, or a HarnessError."""
    frames = traceback.extract_tb(e.__traceback__)
    repo = [f for f in frames if f.filename.startswith(boot._REPO_PREFIXES)]
    if isinstance(e, Injected):
        return Violation('an injected fault escaped into the application: %r' % e)
    if isinstance(e, boot.SelfDeadlock):
        return Violation('deadlock: %s' % e)
    if repo and not frames[-1].filename.startswith(HERE):
        last = repo[-1]
        return Violation('unexpected %s: %s  (%s:%d in %s)' % (
            type(e).__name__, str(e)[:300], os.path.relpath(last.filename, boot.REPO), last.lineno, last.name))
    if repo and (frames[-1].line or '').startswith('raise '):
        # one of the stand-ins failed on purpose (a host without a route, a value whose __str__ raises)
        return Violation('a scripted failure escaped through %s: %s: %s' % (repo[-1].name, type(e).__name__, str(e)[:300]))
    # An oracle that trips over the data it inspects saw output of a kind the property does not allow; on conforming
    # output this does not happen.  Anything else (missing names, resources) is the machinery's own problem.
    mine = [f for f in frames if f.filename.startswith(HERE)]
    if not repo and mine and (
            isinstance(e, (ValueError, TypeError, LookupError, ArithmeticError, struct.error))
            or isinstance(e, AttributeError) and e.obj is None):
        return Violation('output that cannot be interpreted: %s: %s (while checking it at %s:%d)' % (
            type(e).__name__, str(e)[:300], os.path.basename(mine[-1].filename), mine[-1].lineno))
    return HarnessError(''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:])


def _on_cpu(sig, frm):
    raise Hang()


class Recorder(object):
    def __init__(self, known):
        self.known = known
        self.n = 0
        self.hashes = set()
        self.nt = set()
        self.labels = {}
        self.samples = []
        self.label_samples = {}
        self.fail = None
        self.first_fail = None
        self.history = []
        self.findings = {}
        self.harness = None

    def run(self, test, case):
        text = enc(case)
        c = Case()
        boot.env.reset()
        random.seed(12345)
        self.n += 1
        failing = self.first_fail is not None
        if not failing:
            self.history.append(text)
            del self.history[:-40]
        signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT_CASE)
        try:
            try:
                test.run(case, c)
            finally:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
                boot.env.virtual = False
                boot.env.sched = None
        except Violation as v:
            self._violation(v, text)
        except HarnessError as e:
            self.harness = str(e)
            raise
        except Hang:
            v = Violation('no termination within %d s of CPU time' % CPU_LIMIT_CASE)
            v.hang = True
            self._violation(v, text)
        except hypothesis.errors.HypothesisException:
            raise
        except Exception as e:
            x = classify(e)
            if isinstance(x, HarnessError):
                self.harness = str(x)
                raise x
            self._violation(x, text)
        for key in c.findings:
            self._finding(key, text)
        h = hashlib.blake2b(text.encode('utf-8', 'surrogatepass'), digest_size=8).digest()
        self.hashes.add(h)
        for lab in c.labels:
            self.labels[lab] = self.labels.get(lab, 0) + 1
        if c.nontrivial and h not in self.nt:
            self.nt.add(h)
            if len(self.samples) < 3:
                self.samples.append(text)
            else:
                for lab in c.labels:
                    if lab not in self.label_samples and len(text) < 1200:
                        self.label_samples[lab] = text
                        break

    def _finding(self, key, text):
        self.findings.setdefault(key, text)

    def _violation(self, v, text):
        if v.key is not None and v.key in self.known:
            self._finding(v.key, text)
            return
        self.fail = (text, str(v))
        if self.first_fail is None:
            self.first_fail = self.fail
        elif len(text) < len(self.first_fail[0]) and False:
            self.first_fail = self.fail
        if getattr(v, 'hang', False):
            raise Hang()
        raise v


def drive(test, rec, n, seed_value, plain=False):
    try:
        from hypothesis.internal.conjecture import engine
        engine.MAX_SHRINKING_SECONDS = SHRINK_SECONDS
        if plain:
            # hypothesis varies each case it has found in a few ways before it draws a new one; without
            # that the cases are independent draws, which cover the product of the choices better
            engine.ConjectureRunner.generate_mutations_from = lambda self, data: None
    except Exception:
        pass

    def body(case):
        rec.run(test, case)
    body.__name__ = body.__qualname__ = test.name
    t = hypothesis.given(test.strategy())(body)
    t = settings(max_examples=n, deadline=None, database=None, derandomize=False, report_multiple_bugs=False,
                 phases=(Phase.generate, Phase.shrink), suppress_health_check=list(HealthCheck),
                 verbosity=hypothesis.Verbosity.quiet, print_blob=False)(t)
    t = hseed(seed_value)(t)
    t()


def worker(mod, tests, shard, shards, scale, base_seed, out_path, known):
    signal.signal(signal.SIGVTALRM, _on_cpu)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass
    result = {'tests': {}, 'status': 'ok'}
    for test in tests:
        rec = Recorder(known)
        t0 = real_time()
        count = test.thorough if scale == 'thorough' else test.quick
        n = int(math.ceil(count / float(shards)))
        status = 'ok'
        sd = int.from_bytes(hashlib.sha256(
            ('%d/%s/%s/%d' % (base_seed, mod.PROP, test.name, shard)).encode()).digest()[:8], 'big')
        try:
            if shard == 0:
                for ex in test.examples:
                    rec.run(test, ex)
            if not (test.serial and shard > 0):
                drive(test, rec, n, sd, plain=shard % 2 == 1)
        except Violation:
            status = 'violation'
        except Hang:
            status = 'violation'
        except HarnessError:
            status = 'harness'
        except BaseException as e:
            if rec.fail is not None:
                status = 'violation'      # e.g. a flaky failure: the oracle did see a violation
            else:
                status = 'harness'
                rec.harness = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
        result['tests'][test.name] = {
            'status': status, 'n': rec.n, 'hashes': [h.hex() for h in rec.hashes],
            'nt': [h.hex() for h in rec.nt], 'labels': rec.labels, 'samples': rec.samples,
            'label_samples': rec.label_samples, 'fail': rec.fail, 'first_fail': rec.first_fail,
            'history': rec.history if status == 'violation' else [], 'findings': rec.findings,
            'harness': rec.harness, 'wall': real_time() - t0, 'seed': sd}
        if status != 'ok':
            result['status'] = status
            break
    tmp = out_path + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(result, f)
    os.rename(tmp, out_path)


def run_one(test, case, known):
    """Plain execution of one case (replay); returns None or the violation message."""
    signal.signal(signal.SIGVTALRM, _on_cpu)
    rec = Recorder(known)
    try:
        rec.run(test, case)
    except (Violation, Hang):
        return rec.fail[1]
    for k in rec.findings:
        print('KNOWN-FINDING: property=%s %s' % (test.prop, known[k]['what'] if k in known else k))
    return None


def in_child(fn):
    """Runs fn() in a forked child; returns its (JSON-able) result or None."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 0
        try:
            data = json.dumps(fn()).encode()
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        except BaseException:
            traceback.print_exc()
            code = 1
        os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return json.loads(data) if data else None


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VP_JOBS', '8')))
    ap.add_argument('--only')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--attempt', type=int, default=0, help=argparse.SUPPRESS)
    argv = sys.argv[1:] if argv is None else list(argv)
    a = ap.parse_args(argv)
    t0 = real_time()
    mod = importlib.import_module('vp.props.' + a.prop.lower())
    tests = mod.TESTS
    for t in tests:
        t.prop = mod.PROP
    if a.only:
        tests = [t for t in tests if t.name in a.only.split(',')]
    known = load_findings(mod.PROP)

    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        test = [t for t in mod.TESTS if t.name == rep['test']][0]
        msg = None
        for text in rep['cases']:
            print('case: %s' % text[:2000])
            msg = run_one(test, dec(text), known)
        if msg:
            print('reproduced: %s' % msg)
            print('VIOLATION property=%s replay=%s' % (mod.PROP, a.replay))
            return 1
        print('not reproduced')
        return 0

    if a.scale != 1.0:
        for t in tests:
            t.quick = max(1, int(t.quick * a.scale))
            t.thorough = max(1, int(t.thorough * a.scale))
    limit = 800 if a.tier == 'quick' else 6 * 3600
    tmpdir = os.environ.get('TMPDIR', '/tmp')
    outdir = os.path.join(tmpdir, 'vp-%s-%d' % (mod.PROP, os.getpid()))
    os.makedirs(outdir)
    pids = {}
    sys.stdout.flush()
    for s in range(a.jobs):
        path = os.path.join(outdir, '%d.json' % s)
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                worker(mod, tests, s, a.jobs, a.tier, a.seed, path, known)
            except BaseException:
                traceback.print_exc()
                os._exit(3)
            os._exit(0)
        pids[pid] = (s, path)
    results = {}
    problem = None
    timed_out = False
    while pids:
        try:
            pid, st_ = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            break
        if pid == 0:
            if real_time() - t0 > limit:
                timed_out = True
                break
            boot._real_sleep(0.02)
            continue
        if pid not in pids:
            continue
        s, path = pids.pop(pid)
        try:
            with open(path) as f:
                results[s] = json.load(f)
        except (OSError, ValueError):
            problem = 'worker %d ended without a result (status %d)' % (s, st_)
            break
        if results[s]['status'] == 'violation':
            break
    for pid in list(pids):
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
    for pid in list(pids):
        try:
            os.waitpid(pid, 0)
        except ChildProcessError:
            pass
    for f in os.listdir(outdir):
        os.unlink(os.path.join(outdir, f))
    os.rmdir(outdir)

    # ---- merge
    agg = {}
    viol = None
    harness = None
    for s in sorted(results):
        for name, r in results[s]['tests'].items():
            g = agg.setdefault(name, {'n': 0, 'h': set(), 'nt': set(), 'labels': {}, 'samples': [], 'ls': {},
                                      'findings': {}, 'wall': 0})
            g['n'] += r['n']
            g['h'].update(r['hashes'])
            g['nt'].update(r['nt'])
            for k, v in r['labels'].items():
                g['labels'][k] = g['labels'].get(k, 0) + v
            g['samples'].extend(r['samples'])
            for k, v in r['label_samples'].items():
                g['ls'].setdefault(k, v)
            g['wall'] = max(g['wall'], r['wall'])
            for k, v in r['findings'].items():
                g['findings'].setdefault(k, v)
            if r['status'] == 'violation' and viol is None:
                viol = (name, r)
            if r['status'] == 'harness' and harness is None:
                harness = (name, r)
    rc = 0
    viols = 0
    if viol is not None:
        name, r = viol
        rc = 1
        viols = 1
        test = [t for t in tests if t.name == name][0]
        cands = [[r['fail'][0]], [r['first_fail'][0]], r['history']]
        chosen, note, msg = cands[0], 'not reproduced in a fresh process', r['fail'][1]
        for cs in cands:
            def again(cs=cs):
                m = None
                for text in cs:
                    m = run_one(test, dec(text), known)
                return m
            m = in_child(again)
            if m:
                chosen, note, msg = cs, 'reproduced in a fresh process', m
                break
        if note.startswith('not') and a.attempt == 0:
            # Either something outside (another process on the loopback network) or a failure that depends on timing:
            # the latter shows again when the search is repeated.
            print('%s: %s (%s): searching again with other cases' % (name, msg, note))
            return main(argv + ['--attempt', '1', '--seed', str(a.seed + 1000)])
        rdir = os.path.join(ROOT, 'replay')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%s.json' % (mod.PROP, name))
        with open(path, 'w') as f:
            json.dump({'property': mod.PROP, 'test': name, 'cases': chosen, 'message': msg, 'note': note,
                       'seed': r['seed'], 'how': './check %s --replay %s' % (mod.PROP, path)}, f, indent=1)
        print('%s: %s (%s)' % (name, msg, note))
        print('case: %s' % chosen[-1][:3000])
        print('VIOLATION property=%s replay=%s' % (mod.PROP, path))
    elif harness is not None or problem or timed_out:
        rc = 2
        if harness:
            print('HARNESS ERROR in %s: %s' % (harness[0], harness[1]['harness']))
        if problem:
            print('HARNESS ERROR: %s' % problem)
        if timed_out:
            print('INCONCLUSIVE: safety limit of %d s reached' % limit)
    found = {}
    for g in agg.values():
        for k, v in g['findings'].items():
            found.setdefault(k, v)
    for k in sorted(found):
        print('KNOWN-FINDING: property=%s %s' % (mod.PROP, known[k]['what'] if k in known else k))

    total = sum(g['n'] for g in agg.values())
    samples = []
    for name, g in agg.items():
        for s_ in g['samples'][:2]:
            samples.append({'test': name, 'case': s_[:1500]})
        for k in sorted(g['ls'])[:4]:
            samples.append({'test': name, 'label': k, 'case': g['ls'][k][:1500]})
    ev = {
        'property': mod.PROP, 'tier': a.tier, 'seed': a.seed, 'level': 'exploration',
        'coverage': {
            'evaluations': total,
            'distinct_nontrivial': sum(len(g['nt']) for g in agg.values()),
            'rule': mod.RULE,
            'samples': samples[:40],
            'per_test': {name: {'evaluations': g['n'], 'distinct': len(g['h']), 'distinct_nontrivial': len(g['nt']),
                                'labels': dict(sorted(g['labels'].items())), 'wall_s': round(g['wall'], 2)}
                         for name, g in agg.items()},
            'known_findings_seen': sorted(found),
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(real_time() - t0, 2),
        'violations': viols,
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', mod.PROP + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for name, g in agg.items():
        nt = len(g['nt'])
        print('%s %-22s cases=%d distinct=%d nontrivial=%d wall=%.1fs%s' % (
            mod.PROP, name, g['n'], len(g['h']), nt, g['wall'],
            (' ' + ' '.join('%s=%d' % kv for kv in sorted(g['labels'].items()))) if a.v else ''))
        if rc == 0 and nt < min(50, max(1, g['n'] // 10)) and not a.only and a.scale >= 1:
            print('HARNESS ERROR: %s is nearly vacuous' % name)
            rc = 2
    print('%s %s %s cases=%d wall=%.1fs' % (mod.PROP, a.tier, {0: 'held', 1: 'VIOLATED', 2: 'ERROR'}[rc], total,
                                            real_time() - t0))
    return rc
