"""Bounded exhaustive exploration of the real code.

A property module gives

    META          title, bounds, assumptions...
    cases(tier)   iterator over JSON-able case descriptors; the *whole* bounded
                  space, in a fixed order
    run(case)     executes one case on fresh objects of the real code, along
                  the reference model, and raises Violation when they disagree.
                  Returns a Cov.

The engine spreads the cases over processes, gathers the distinct states seen,
writes the evidence and one replay file per violation.
"""
import hashlib
import importlib
import itertools
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import threading
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_REPORT = 5
CASE_TIMEOUT = 100      # seconds for one case; they take about 0.01 s


class Violation(Exception):
    """The property does not hold."""


class CaseTimeout(BaseException):
    """Not an Exception, so that the code under test does not swallow it."""


class Cov(object):
    """What one case covered."""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.checks = 0
        self.nontrivial = False
        self.traces = 0
        self.tags = {}

    def state(self, *parts):
        """Record a canonical state (arrays are rounded)."""
        self.states.add(digest(parts))

    def step(self, n=1):
        self.transitions += n

    def check(self, n=1):
        self.checks += n

    def tag(self, name, n=1):
        self.tags[name] = self.tags.get(name, 0) + n


def canon(obj):
    import numpy as np
    if isinstance(obj, np.ndarray):
        if obj.dtype.kind in 'fc':
            return ('a', obj.shape, np.round(obj, 6).tobytes())
        return ('a', obj.shape, obj.tobytes())
    if isinstance(obj, float):
        return round(obj, 6)
    if isinstance(obj, (list, tuple)):
        return tuple(canon(o) for o in obj)
    if isinstance(obj, dict):
        return tuple(sorted((str(k), canon(v)) for k, v in obj.items()))
    return obj


def digest(obj):
    return hashlib.blake2b(repr(canon(obj)).encode(), digest_size=8).digest()


def _alarm(signum, frame):
    raise CaseTimeout()


_mod = None


def load(pid):
    return importlib.import_module('mc.props.' + pid.lower())


def _quiet():
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    try:
        import numpy
        numpy.seterr(all='ignore')
    except Exception:
        pass


def run_case(mod, case):
    """Returns (Cov or None, message or None)."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        return mod.run(case), None
    except Violation as e:
        return None, str(e)
    except CaseTimeout:
        return None, 'no end after %d s' % CASE_TIMEOUT
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = '; '.join('%s:%s' % (os.path.basename(f.filename), f.name)
                          for f in tb[-4:])
        return None, 'unexpected %s: %s [%s]' % (type(e).__name__, e, where)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def _work(chunk):
    pid, items = chunk
    global _mod
    _quiet()
    if _mod is None or _mod.__name__ != 'mc.props.' + pid.lower():
        _mod = load(pid)
    out = {'n': 0, 'states': set(), 'transitions': 0, 'checks': 0,
           'nontrivial': 0, 'traces': 0, 'tags': {}, 'bad': []}
    for case in items:
        cov, msg = run_case(_mod, case)
        out['n'] += 1
        if msg is not None:
            out['bad'].append((case, msg))
            if msg.startswith('no end'):
                break       # report it soon
            continue
        out['states'] |= cov.states
        out['transitions'] += cov.transitions
        out['checks'] += cov.checks
        out['nontrivial'] += 1 if cov.nontrivial else 0
        out['traces'] += cov.traces
        for k, v in cov.tags.items():
            out['tags'][k] = out['tags'].get(k, 0) + v
    return out


def _chunks(it, n):
    it = iter(it)
    while True:
        c = list(itertools.islice(it, n))
        if not c:
            return
        yield c


def known_findings(pid):
    """{signature: text} of the recorded, unrepaired, findings."""
    res = {}
    path = os.path.join(HERE, 'known_findings.json')
    with open(path) as f:
        for e in json.load(f)['findings']:
            if e['property'] == pid:
                res[e['case']] = e['what']
    return res


def case_key(case):
    return json.dumps(case, sort_keys=True)


def explore(pid, tier, seed):
    t0 = time.time()
    _quiet()
    mod = load(pid)
    nproc = int(os.environ.get('VERIF_PROCS', '0')) or min(8, os.cpu_count() or 1)
    budget = float(os.environ.get('VERIF_BUDGET_S', '0')) or \
        (600. if tier == 'quick' else 6 * 3600.)
    limit = int(os.environ.get('VERIF_MAX_BAD', '0')) or 200
    # (for the search of mutants only)
    stride = int(os.environ.get('VERIF_STRIDE', '0')) or 1
    chunk = getattr(mod, 'CHUNK', 20)
    tot = {'n': 0, 'states': set(), 'transitions': 0, 'checks': 0,
           'nontrivial': 0, 'traces': 0, 'tags': {}, 'bad': []}
    samples = []
    stopped = False

    slots = threading.Semaphore(40 * nproc)
    ended = []

    def feed():
        k = 0
        for c in _chunks(itertools.islice(mod.cases(tier), 0, None, stride),
                         chunk):
            slots.acquire()
            if ended:
                return
            for case in c:
                if k in (0, 7, 77, 777, 7777):
                    samples.append(case)
                k += 1
            yield (pid, c)

    def merge(out):
        tot['n'] += out['n']
        tot['states'] |= out['states']
        for k in ('transitions', 'checks', 'nontrivial', 'traces'):
            tot[k] += out[k]
        for k, v in out['tags'].items():
            tot['tags'][k] = tot['tags'].get(k, 0) + v
        tot['bad'].extend(out['bad'])

    known = known_findings(pid)
    ctx = mp.get_context('fork')
    pool = ctx.Pool(nproc)
    try:
        results = pool.imap_unordered(_work, feed())
        while True:
            try:
                out = results.next(timeout=chunk * 10 + 2 * CASE_TIMEOUT)
            except StopIteration:
                break
            except mp.TimeoutError:
                # a process of the pool died (the memory of the machine...)
                tot['bad'].append((None, 'a worker process died'))
                stopped = True
                break
            slots.release()
            merge(out)
            fresh = sum(1 for (c, m) in tot['bad'] if case_key(c) not in known)
            if fresh >= limit or (fresh and time.time() - t0 > 300):
                stopped = True
                break
            if time.time() - t0 > budget:
                stopped = True
                break
    finally:
        # (the thread that feeds the pool must not wait for ever)
        ended.append(True)
        slots.release()
        end = threading.Thread(target=pool.terminate, daemon=True)
        end.start()
        end.join(30)
        for p in mp.active_children():
            p.kill()
    return mod, tot, samples, stopped, time.time() - t0


def write_replay(pid, n, case, msg):
    d = os.path.join(HERE, 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%d.json' % (pid, n))
    with open(path, 'w') as f:
        json.dump({'property': pid, 'case': case, 'message': msg}, f, indent=1,
                  sort_keys=True)
    return path


def main(argv):
    if argv and argv[0] == '--replay':
        return replay(argv[1])
    pid = argv[0].upper()
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '0'))
    except ValueError:
        seed = 0
    scratch = tempfile.mkdtemp(prefix='mc-')
    os.environ['MPLCONFIGDIR'] = scratch
    os.environ['MC_SCRATCH'] = scratch
    tempfile.tempdir = scratch
    try:
        return _main(pid, tier, seed)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _main(pid, tier, seed):
    try:
        mod, tot, samples, stopped, wall = explore(pid, tier, seed)
    except Exception as e:
        # the code under test cannot even be imported
        traceback.print_exc()
        path = write_replay(pid, 0, None, '%s: %s' % (type(e).__name__, e))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    known = known_findings(pid)
    bad = sorted(tot['bad'], key=lambda cm: (len(case_key(cm[0])),
                                             case_key(cm[0])))
    fresh = []
    for case, msg in bad:
        k = case_key(case)
        if k in known:
            print('KNOWN-FINDING: property=%s %s' % (pid, known[k]))
        else:
            fresh.append((case, msg))
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': len(tot['states']),
            'transitions': tot['transitions'],
            'traces_validated_against_impl': tot['traces'],
            'evaluations': tot['n'],
            'distinct_nontrivial': tot['nontrivial'],
            'comparisons': tot['checks'],
            'rule': mod.META['rule'],
            'bounds': mod.META['bounds'],
            'tags': tot['tags'],
            'exhaustive': not stopped and 'VERIF_STRIDE' not in os.environ,
            'samples': samples[:3],
        },
        'assumptions': mod.META.get('assumptions', []),
        'wall_s': round(wall, 2),
        'violations': len(fresh),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
    print('%s %s: %d executions, %d states, %d transitions, %d comparisons, '
          '%.1f s%s' % (pid, tier, tot['n'], len(tot['states']),
                        tot['transitions'], tot['checks'], wall,
                        ' (stopped before the end)' if stopped else ''))
    if not fresh:
        return 0
    for n, (case, msg) in enumerate(fresh[:MAX_REPORT]):
        path = write_replay(pid, n, case, msg)
        print('  %s' % msg[:600])
        print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1


def replay(path):
    _quiet()
    with open(path) as f:
        r = json.load(f)
    scratch = tempfile.mkdtemp(prefix='mc-')
    os.environ['MPLCONFIGDIR'] = scratch
    os.environ['MC_SCRATCH'] = scratch
    try:
        mod = load(r['property'])
        if r['case'] is None:
            print('imported')
            return 0
        cov, msg = run_case(mod, r['case'])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if msg is None:
        print('the property holds on this case')
        return 0
    print(msg)
    print('VIOLATION property=%s replay=%s' % (r['property'], path))
    return 1
