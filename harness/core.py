"""Shared machinery of the checks: generation, classification, shrinking,
replay files, evidence and exit codes.

A check module defines

    RULE   text: how cases are made and what makes one non-trivial
    TESTS  list of Test objects

A Test has a Hypothesis strategy that yields JSON-able cases and a function
``body(case, ctx)`` that exercises glmtools and compares with an oracle.  The
body signals a broken property by raising Violation (through expect*), and
wraps every call into the code under test in ``with ctx.sut(...)``, so that a
crash there on valid input is a violation while a crash of the harness itself
is reported as an error of the check.
"""
import contextlib
import hashlib
import importlib
import json
import logging
import math
import multiprocessing
import multiprocessing.connection
import os
import pickle
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
EVIDENCE = os.path.join(VERIF, 'evidence')
SHARDS = 8
SHRINK_S = 20.0
CASE_LIMIT_S = 100     # one case
TOTAL_S = {'quick': 420, 'thorough': 7200}     # no further cases are started after this
MEMORY = 3 * 2 ** 30   # address space of one worker beyond what it starts with
_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def _import_hypothesis():
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        # Borrow only the hypothesis package; everything else keeps coming
        # from the interpreter's own site-packages.
        sys.path.append(_VT)
        try:
            import hypothesis  # noqa: F401
            import hypothesis.strategies  # noqa: F401
        finally:
            sys.path.remove(_VT)
    # Shrinking imports these lazily.
    for name in ('hypothesis.internal.conjecture.shrinker',
                 'hypothesis.internal.conjecture.engine',
                 'hypothesis.internal.conjecture.optimiser'):
        with contextlib.suppress(ImportError):
            sys.path.append(_VT)
            try:
                importlib.import_module(name)
            finally:
                sys.path.remove(_VT)


_import_hypothesis()
import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, Verbosity, given, settings  # noqa: E402

if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
_STUBS = os.path.join(VERIF, 'stubs')
if _STUBS not in sys.path:
    sys.path.append(_STUBS)

import numpy as np  # noqa: E402

from harness import fastinterp  # noqa: E402

fastinterp.install()
warnings.simplefilter('ignore')
np.seterr(all='ignore')


class Violation(Exception):
    """The property does not hold for the current case."""


class _Stop(BaseException):
    """Leave the generation engine once shrinking has had its time."""


def expect(cond, msg, *args):
    if not cond:
        raise Violation((msg.format(*args) if '{' in msg else msg % args) if args else msg)


def short(a, n=300):
    s = repr(a)
    return s if len(s) <= n else s[:n] + '...'


def expect_equal(got, want, what):
    """Exact equality of arrays (NaN equals NaN, NaT equals NaT) or values."""
    g, w = np.asarray(got), np.asarray(want)
    if g.shape != w.shape:
        raise Violation('{}: shape {} instead of {}'.format(what, g.shape, w.shape))
    if g.size == 0:
        return
    if g.dtype.kind in 'fcmM' and w.dtype.kind in 'fcmM':
        same = (g == w) | (np.isnat(g) & np.isnat(w) if g.dtype.kind in 'mM'
                           else np.isnan(g) & np.isnan(w))
    else:
        same = g == w
    if not np.all(same):
        idx = np.argwhere(~np.atleast_1d(same))[0]
        gi = np.atleast_1d(g)[tuple(idx)]
        wi = np.atleast_1d(w)[tuple(idx)]
        raise Violation('{}: got {!r} instead of {!r} at {}'.format(
            what, gi, wi, tuple(int(i) for i in idx)))


def expect_close(got, want, what, rtol=1e-9, atol=0.0):
    """Closeness with stated tolerances; NaN must match NaN."""
    g, w = np.asarray(got, dtype='f8'), np.asarray(want, dtype='f8')
    if g.shape != w.shape:
        raise Violation('{}: shape {} instead of {}'.format(what, g.shape, w.shape))
    if g.size == 0:
        return
    ok = (np.abs(g - w) <= atol + rtol * np.abs(w)) | (np.isnan(g) & np.isnan(w)) | (g == w)
    if not np.all(ok):
        bad = ~np.atleast_1d(ok)
        idx = tuple(int(i) for i in np.argwhere(bad)[0])
        raise Violation('{}: got {!r} instead of {!r} at {} ({} of {} differ)'.format(
            what, float(np.atleast_1d(g)[idx]), float(np.atleast_1d(w)[idx]), idx,
            int(bad.sum()), g.size))


class Ctx:
    """What a test body may use besides the case."""

    def __init__(self):
        self.labels = []
        self.nontrivial = False
        self._tmp = None

    def label(self, name):
        self.labels.append(name)

    @property
    def tmp(self):
        if self._tmp is None:
            # the same path for every case of a process, so that a file read from it by an
            # earlier case is not taken for the one there now; blanks and a point in the name
            self._tmp = os.path.join(tempfile.gettempdir(),
                                     'glmverif-%d of v1.2 (s2018)' % os.getpid())
            os.mkdir(self._tmp, 0o700)
        return self._tmp

    def close(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None

    @contextlib.contextmanager
    def sut(self, what='call'):
        """Code under test runs inside this block on valid input."""
        try:
            yield
        except Violation:
            raise
        except KeyboardInterrupt:
            raise
        except (Exception, SystemExit) as e:  # a crash, an exit or running out of memory
            tb = traceback.extract_tb(e.__traceback__)
            at = ''
            for fr in reversed(tb):
                if fr.filename.startswith(REPO + os.sep):
                    at = ' at {}:{}'.format(os.path.relpath(fr.filename, REPO), fr.lineno)
                    break
            raise Violation('{} raised {}: {}{}'.format(
                what, type(e).__name__, str(e)[:300], at)) from e


class Test:
    def __init__(self, name, strategy, body, quick=200, thorough=None):
        self.name = name
        self.strategy = strategy
        self.body = body
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, np.generic):
        return x.item()
    return x


def case_text(case):
    return json.dumps(jsonable(case), sort_keys=True)


def derive_seed(*parts):
    h = hashlib.sha256('/'.join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], 'big')


class _Late(Violation):
    """A case without a result in time."""


def _alarm(signum, frame):
    raise _Late('no result within {} s'.format(CASE_LIMIT_S))


def run_body(test, case):
    """Run one case; returns (ctx, violation message or None)."""
    ctx = Ctx()
    ctx.late = False
    logging.disable(logging.CRITICAL)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT_S)
    try:
        test.body(case, ctx)
        return ctx, None
    except Violation as v:
        ctx.late = isinstance(v, _Late)
        return ctx, str(v)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        ctx.close()


def _shard(args):
    prop, ti, shard, n, seed, until, note = args
    mod = sys.modules['checks.' + prop]
    test = mod.TESTS[ti]
    out = _blank(test.name)
    st = {'best': None, 'deadline': None, 'past': []}

    def wrapped(case):
        if time.monotonic() > (until if st['deadline'] is None else st['deadline']):
            out['stopped'] = st['best'] is None
            raise _Stop()
        text = case_text(case)
        with open(note, 'w') as f:
            f.write(text)
        begun = time.monotonic()
        ctx, msg = run_body(test, json.loads(text))
        out['slowest'] = max(out['slowest'], time.monotonic() - begun)
        if ctx.late and st['best'] is not None:
            return   # a slow case is not a smaller form of the failure
        if st['best'] is None:
            out['evaluations'] += 1
            h = hashlib.md5(text.encode()).digest()
            out['distinct'].add(h)
            for lb in set(ctx.labels):
                out['labels'][lb] = out['labels'].get(lb, 0) + 1
            if ctx.nontrivial:
                if h not in out['nontrivial'] and len(out['samples']) < 3:
                    out['samples'].append(text if len(text) < 1500 else text[:1500] + '...')
                out['nontrivial'].add(h)
            st['past'].append(text)
        if msg is not None:
            if st['best'] is None or len(text) <= len(st['best'][0]):
                st['best'] = (text, msg)
            if ctx.late:
                raise _Stop()
            if st['deadline'] is None:
                st['deadline'] = time.monotonic() + SHRINK_S
            raise Violation(msg)

    run = given(test.strategy)(wrapped)
    run = hypothesis.seed(seed)(run)
    run = settings(max_examples=n, database=None, deadline=None, print_blob=False,
                   phases=(Phase.generate, Phase.shrink), verbosity=Verbosity.quiet,
                   suppress_health_check=list(HealthCheck),
                   report_multiple_bugs=False)(run)
    stdout, stderr = sys.stdout, sys.stderr
    try:
        with open(os.devnull, 'w') as null:
            sys.stdout = sys.stderr = null
            run()
    except _Stop:
        pass
    except Violation:
        pass
    except BaseException:
        if st['best'] is None:
            out['error'] = traceback.format_exc()
    finally:
        sys.stdout, sys.stderr = stdout, stderr
    if st['best'] is not None:
        out['failure'] = {'case': st['best'][0], 'message': st['best'][1], 'past': st['past']}
    return out


def _sequence(test, texts, path):
    msg = None
    with open(os.devnull, 'w') as null:
        sys.stdout = sys.stderr = null
        for text in texts:
            msg = run_body(test, json.loads(text))[1]
    if msg is not None:
        with open(path, 'w') as f:
            f.write(msg)


def fails_alone(test, texts, until):
    """Message of the last of these cases when run in order in a process of their own, or None."""
    path = os.path.join(tempfile.gettempdir(), 'alone')
    if os.path.exists(path):
        os.unlink(path)
    p = multiprocessing.get_context('fork').Process(target=_sequence, args=(test, texts, path))
    p.start()
    p.join(max(1, until - time.monotonic()))
    if p.is_alive():
        p.kill()
        p.join()
    if not os.path.exists(path):
        return None
    with open(path) as f:
        return f.read()


def with_history(test, failure):
    """A failure that the case shows by itself is reported as it is. Where it takes cases run
    before in the same process, as when something is kept between calls, those are added."""
    until = time.monotonic() + 2 * SHRINK_S
    past = failure.pop('past', None)
    if not past or fails_alone(test, [failure['case']], until):
        return failure
    last, past = past[-1], past[:-1]
    msg = fails_alone(test, [last], until)
    if msg is not None:
        return {'case': last, 'message': msg}
    msg = fails_alone(test, past + [last], time.monotonic() + 4 * SHRINK_S)
    if msg is None:
        return failure
    until = time.monotonic() + 2 * SHRINK_S
    step = (len(past) + 1) // 2
    while step and time.monotonic() < until:
        i = 0
        while i < len(past) and time.monotonic() < until:
            fewer = past[:i] + past[i + step:]
            m = fails_alone(test, fewer + [last], until)
            if m is None:
                i += step
            else:
                past, msg = fewer, m
        step = step // 2 if step > 1 else 0
    return {'case': last, 'message': msg, 'before': past}


def _blank(name):
    return {'test': name, 'evaluations': 0, 'distinct': set(), 'nontrivial': set(), 'labels': {},
            'samples': [], 'failure': None, 'error': None, 'stopped': False,
            'slowest': 0.0}


def _worker(task, path):
    used = int(open('/proc/self/statm').read().split()[0]) * resource.getpagesize()
    resource.setrlimit(resource.RLIMIT_AS, (used + MEMORY, resource.RLIM_INFINITY))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    out = _shard(task)
    with open(path + '.tmp', 'wb') as f:
        pickle.dump(out, f)
    os.replace(path + '.tmp', path)


def run_tasks(tasks, names, workers, scratch):
    """Run each task in a process of its own. A process that the code under test takes down, or
    keeps from returning, is a violation by the case it was at."""
    ctx = multiprocessing.get_context('fork')
    waiting = list(range(len(tasks)))
    running, results = {}, {}
    while waiting or running:
        while waiting and len(running) < workers:
            k = waiting.pop(0)
            path = os.path.join(scratch, 'result-%d' % k)
            note = os.path.join(scratch, 'case-%d' % k)
            p = ctx.Process(target=_worker, args=(tasks[k] + (note,), path))
            p.start()
            running[k] = p, path, note
        multiprocessing.connection.wait([p.sentinel for p, _, _ in running.values()], timeout=5)
        for k, (p, path, note) in list(running.items()):
            stuck = False
            if p.is_alive():
                # out of reach of the alarm, as in a compiled loop
                stuck = (os.path.exists(note)
                         and time.time() - os.path.getmtime(note) > CASE_LIMIT_S + 40)
                if not stuck:
                    continue
                p.kill()
            p.join()
            del running[k]
            if not stuck and os.path.exists(path):
                with open(path, 'rb') as f:
                    results[k] = pickle.load(f)
                continue
            r = results[k] = _blank(names[k])
            if stuck or p.exitcode in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGFPE,
                                       -signal.SIGBUS, -signal.SIGILL):
                with open(note) as f:
                    r['failure'] = {'case': f.read(), 'message': (
                        'no result within {} s'.format(CASE_LIMIT_S) if stuck else
                        'the interpreter ended with signal {}'.format(-p.exitcode))}
                r['evaluations'] = 1
            else:
                r['error'] = 'a worker ended with code {}'.format(p.exitcode)
    return [results[k] for k in range(len(tasks))]


def known_findings(prop):
    """Entries of the committed file for this property (never written here)."""
    path = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith('{'):
                    d = json.loads(line)
                    if d['property'] == prop:
                        out.append(d)
    return out


def load(prop):
    mod = importlib.import_module('checks.' + prop)
    import glmtools
    if not os.path.abspath(glmtools.__file__).startswith(REPO + os.sep):
        raise RuntimeError('glmtools was imported from ' + glmtools.__file__)
    return mod


def replay(path):
    with open(path) as f:
        d = json.load(f)
    mod = load(d['property'])
    test = {t.name: t for t in mod.TESTS}[d['test']]
    for case in d.get('before', []):
        run_body(test, case)
    ctx, msg = run_body(test, d['case'])
    if msg is None:
        print('replay passes: the property holds for this case')
        return 0
    print(msg)
    print('VIOLATION property={} replay={}'.format(d['property'], os.path.abspath(path)))
    return 1


def main(argv):
    if len(argv) == 2 and argv[0] == '--replay':
        return replay(argv[1])
    if argv == ['--selftest']:
        import glmtools.io.glm  # noqa: F401
        os.makedirs(EVIDENCE, exist_ok=True)
        print('hypothesis {}, numpy {}, glmtools from {}'.format(
            hypothesis.__version__, np.__version__, os.path.dirname(glmtools.__file__)))
        return 0
    if len(argv) != 1:
        print(__doc__)
        return 2
    prop = argv[0]
    t0 = time.monotonic()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    try:
        mod = load(prop)
    except Exception:
        traceback.print_exc()
        print('ERROR: check {} could not be loaded'.format(prop))
        return 2

    if hasattr(mod, 'warm'):
        mod.warm()
    tasks = []
    until = t0 + TOTAL_S.get(tier, TOTAL_S['quick'])
    for ti, test in enumerate(mod.TESTS):
        total = test.thorough if tier == 'thorough' else test.quick
        n = max(1, math.ceil(total / SHARDS))
        for k in range(SHARDS):
            tasks.append((prop, ti, k, n, derive_seed(seed, prop, test.name, k), until))
    # interleave tests so that long ones start early
    tasks.sort(key=lambda a: (a[2], a[1]))
    workers = max(1, min(SHARDS, os.cpu_count() or 1))
    tempfile.tempdir = scratch = tempfile.mkdtemp(prefix='verif-')
    try:
        results = run_tasks(tasks, [mod.TESTS[a[1]].name for a in tasks], workers, scratch)
        return conclude(prop, mod, results, tier, seed, t0)
    finally:
        tempfile.tempdir = None
        shutil.rmtree(scratch, ignore_errors=True)


def conclude(prop, mod, results, tier, seed, t0):
    """Merge the results of the workers, write the evidence and report."""

    rows, errors = {}, []
    evaluations, nontrivial, distinct, samples = 0, 0, 0, []
    violations = []
    for test in mod.TESTS:
        mine = [r for r in results if r['test'] == test.name]
        ev = sum(r['evaluations'] for r in mine)
        nt = set().union(*(r['nontrivial'] for r in mine))
        di = set().union(*(r['distinct'] for r in mine))
        labels = {}
        for r in mine:
            for k, v in r['labels'].items():
                labels[k] = labels.get(k, 0) + v
            if r['error']:
                errors.append((test.name, r['error']))
        rows[test.name] = {'evaluations': ev, 'distinct': len(di),
                           'distinct_nontrivial': len(nt),
                           'slowest_case_s': round(max(r['slowest'] for r in mine), 2),
                           'labels': dict(sorted(labels.items()))}
        evaluations += ev
        nontrivial += len(nt)
        distinct += len(di)
        for r in mine:
            if r['samples']:
                samples.append({'test': test.name, 'case': r['samples'][-1]})
                break
        fails = [r['failure'] for r in mine if r['failure']]
        if fails:
            best = min(fails, key=lambda f: (len(f['case']), f['case']))
            violations.append((test.name, with_history(test, best)))

    # Listed findings are specific inputs outside the generated domain: each is
    # re-executed, and only the listed failure of that input is tolerated.
    findings = []
    fresh = list(violations)
    for k in known_findings(prop):
        test = {t.name: t for t in mod.TESTS}[k['test']]
        _, msg = run_body(test, k['case'])
        if msg is None:
            print('listed finding no longer fails: ' + k['what'])
        elif k['match'] in msg:
            findings.append(k['what'])
            print('KNOWN-FINDING: property={} {}'.format(prop, k['what']))
        else:
            fresh.append((k['test'], {'case': case_text(k['case']), 'message': msg}))

    os.makedirs(os.path.join(EVIDENCE, 'replay'), exist_ok=True)
    lines = []
    for name, best in fresh:
        path = os.path.join(EVIDENCE, 'replay', '{}-{}.json'.format(prop, name))
        with open(path, 'w') as f:
            d = {'property': prop, 'test': name, 'message': best['message'],
                 'case': json.loads(best['case'])}
            if best.get('before'):
                d['before'] = [json.loads(b) for b in best['before']]
            json.dump(d, f, indent=1, sort_keys=True)
        print('{} / {}: {}'.format(prop, name, best['message']))
        lines.append('VIOLATION property={} replay={}'.format(prop, path))

    evidence = {
        'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick',
        'seed': seed, 'level': 'exploration',
        'coverage': {'evaluations': evaluations, 'distinct_nontrivial': nontrivial,
                     'distinct': distinct, 'rule': mod.RULE, 'samples': samples,
                     'tests': rows},
        'violations': len(fresh),
        'violation_messages': [{'test': n, 'message': b['message']} for n, b in fresh],
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.monotonic() - t0, 2),
    }
    if any(r['stopped'] for r in results):
        evidence['stopped_by_time'] = True
        print('{}: stopped generating after {} s'.format(prop, TOTAL_S.get(tier, TOTAL_S['quick'])))
    if findings:
        evidence['known_findings'] = findings
    path = os.path.join(EVIDENCE, prop + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(evidence, f, indent=1)
    os.replace(path + '.tmp', path)

    for name, row in rows.items():
        print('{} / {}: {} cases, {} distinct non-trivial, labels {}'.format(
            prop, name, row['evaluations'], row['distinct_nontrivial'], row['labels']))
    if lines:
        # a violation was found by executing the code: report it even if some
        # other shard had a problem of its own
        for ln in lines:
            print(ln)
        return 1
    if errors:
        for name, err in errors[:3]:
            print('ERROR in {} / {}:\n{}'.format(prop, name, err))
        return 2
    print('{}: held on {} cases ({} distinct non-trivial) in {:.1f} s'.format(
        prop, evaluations, nontrivial, time.monotonic() - t0))
    return 0
