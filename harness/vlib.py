"""Shared machinery of the property checks.

* runs Quint specifications and decodes their ITF traces,
* runs TLC and decodes state graphs,
* replays traces into the real code with total verdicts,
* writes evidence and replay files, applies the known-findings file.
"""
import contextlib
import hashlib
import io
import json
import math
import multiprocessing
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
EVID = os.path.join(VERIF, 'evidence')
FX = 10**40


class Machinery(Exception):
    """The checking machinery itself failed (not a verdict about the code)."""


class Mismatch(Exception):
    """The implementation does not conform to the specification."""


STEP_LIMIT = 90     # seconds one conformance step may take


def _expired(*a):
    raise Mismatch('the step did not finish within %d s' % STEP_LIMIT)


def fx(n):
    """Fixed point integer of the specification -> nearest double."""
    return n / FX


def fxm(m):
    """Nested lists of fixed point numbers -> nested lists of floats."""
    if isinstance(m, (list, tuple)):
        return [fxm(x) for x in m]
    return m / FX


# ---------------------------------------------------------------- ITF ------
class HashableDict(dict):
    def __hash__(self):
        return hash(tuple(sorted((str(k), str(v)) for k, v in self.items())))


def itf(v):
    if isinstance(v, dict):
        if '#bigint' in v:
            return int(v['#bigint'])
        if '#tup' in v:
            return tuple(itf(x) for x in v['#tup'])
        if '#set' in v:
            return frozenset(freeze(itf(x)) for x in v['#set'])
        if '#map' in v:
            return HashableDict((freeze(itf(k)), itf(x)) for k, x in v['#map'])
        return HashableDict((k, itf(x)) for k, x in v.items() if k != '#meta')
    if isinstance(v, list):
        return [itf(x) for x in v]
    return v


def freeze(x):
    if isinstance(x, list):
        return tuple(freeze(y) for y in x)
    return x


QUINT_ENV = None


def quint_run(spec, main=None, init='init', step='step', seed=1, n=1, steps=10,
              invariants=(), timeout=600):
    """Run the Quint simulator and return a list of traces (lists of states)."""
    d = tempfile.mkdtemp(prefix='itf_', dir=os.environ.get('VERIF_TMP', '/tmp'))
    cmd = ['quint', 'run', os.path.join(SPEC, spec), '--init', init,
           '--step', step, '--seed', str(seed), '--max-samples', str(n),
           '--n-traces', str(n), '--max-steps', str(steps), '--n-threads', '1',
           '--mbt', '--verbosity', '1',
           '--out-itf', os.path.join(d, 't_{seq}.itf.json')]
    if main:
        cmd += ['--main', main]
    if invariants:
        cmd += ['--invariants'] + list(invariants)
    try:
        res = subprocess.run(cmd, capture_output=True, text=True,
                             timeout=timeout)
    except subprocess.TimeoutExpired:
        shutil.rmtree(d, ignore_errors=True)
        raise Machinery('quint timed out: ' + ' '.join(cmd))
    files = sorted(os.listdir(d), key=lambda f: int(re.findall(r'\d+', f)[0])
                   if re.findall(r'\d+', f) else 0)
    traces = []
    for f in files:
        with open(os.path.join(d, f)) as fh:
            traces.append([itf(s) for s in json.load(fh)['states']])
    shutil.rmtree(d, ignore_errors=True)
    if res.returncode != 0 or not traces:
        raise Machinery('quint failed (%s): %s\n%s' % (
            ' '.join(cmd), res.stdout[-1500:], res.stderr[-1500:]))
    return traces


def quint_many(jobs, workers=6):
    """Run several quint_run keyword dictionaries in parallel."""
    with ThreadPoolExecutor(workers) as ex:
        return list(ex.map(lambda kw: quint_run(**kw), jobs))


def split_jobs(base, n, chunk, seed):
    """Split n traces into jobs of at most chunk traces with derived seeds."""
    jobs, k = [], 0
    while n > 0:
        m = min(chunk, n)
        kw = dict(base)
        kw.update(n=m, seed=seed * 1000000 + k * 5003)
        jobs.append(kw)
        n -= m
        k += 1
    return jobs


# ------------------------------------------------------------- compare -----
def close(a, b, rtol=1e-9, atol=1e-12):
    """Scalars or nested sequences; NaN never matches a number."""
    import numpy as np
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    try:
        a = a.astype(complex)
        b = b.astype(complex)
    except (TypeError, ValueError):
        return False
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return False
    scale = np.max(np.abs(b))
    return bool(np.all(np.abs(a - b) <= atol + rtol * np.maximum(np.abs(b), 1e-3 * scale)))


def need(cond, msg, *args):
    if not cond:
        raise Mismatch(msg % args if args else msg)


def need_close(got, want, what, rtol=1e-9, atol=1e-12):
    if not close(got, want, rtol, atol):
        raise Mismatch('%s: implementation %s, specification %s' % (
            what, short(got), short(want)))


def short(x, n=600):
    s = repr(x)
    s = re.sub(r'\s+', ' ', s)
    return s if len(s) <= n else s[:n] + '...'


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted((jsonable(v) for v in x), key=str)
    if isinstance(x, int) and abs(x) > 10**25:
        return float(x / FX)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    return repr(x)


@contextlib.contextmanager
def quiet():
    """Swallow what the code under test prints."""
    with contextlib.redirect_stdout(io.StringIO()) as buf:
        yield buf


# --------------------------------------------------------------- check -----
class Check:
    def __init__(self, pid):
        self.pid = pid
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.t0 = time.time()
        self.thorough = self.tier == 'thorough'
        self.violations = []
        self.known_hits = {}
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.extra = {}
        self.level = 'exploration'
        self.rule = ''
        self.assumptions = []
        self.known = load_known(pid)
        self.max_violations = 5

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- bookkeeping ---------------------------------------------------------
    def count_trace(self, trace):
        self.traces += 1
        self.states += len(trace)
        self.transitions += max(0, len(trace) - 1)

    def case(self, key, sample=None):
        self.evals += 1
        h = hashlib.md5(repr(key).encode()).hexdigest()
        self.distinct.add(h)
        if sample is not None and len(self.samples) < 3:
            self.samples.append(jsonable(sample))

    # -- verdicts ------------------------------------------------------------
    def violation(self, where, data, msg, ident=None):
        """Record one violation; ident identifies it for the known findings."""
        ident = ident or where
        for k in self.known:
            if k['ident'] == ident:
                self.known_hits.setdefault(ident, k['text'])
                return
        if len(self.violations) >= self.max_violations:
            return
        d = os.path.join(EVID, 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%d.json' % (self.pid, len(self.violations)))
        with open(path, 'w') as f:
            json.dump({'property': self.pid, 'seed': self.seed,
                       'tier': self.tier, 'where': where, 'message': msg,
                       'ident': ident, 'case': jsonable(data)}, f, indent=1)
        self.violations.append((where, msg, path))

    def too_many(self):
        return len(self.violations) >= self.max_violations

    def guard(self, where, data, fn, *args, **kw):
        """Run one conformance step; any failure is a verdict."""
        signal.signal(signal.SIGALRM, _expired)
        signal.alarm(STEP_LIMIT)
        try:
            return fn(*args, **kw)
        except Machinery:
            raise
        except Mismatch as e:
            self.violation(where, data, str(e), getattr(e, 'ident', None))
        except Exception as e:
            tb = traceback.format_exc(limit=-6)
            self.violation(where, data, 'raised %s: %s\n%s' % (
                type(e).__name__, e, tb))
        except SystemExit as e:
            self.violation(where, data, 'called sys.exit(%r)' % (e.code,))
        finally:
            signal.alarm(0)
        return None

    def parallel(self, fn, items, workers=6):
        """fn(chk, item) for every item, in forked processes."""
        items = list(items)
        chunks = [items[i::workers] for i in range(workers) if items[i::workers]]
        ctx = multiprocessing.get_context('fork')
        procs = []
        for chunk in chunks:
            recv, send = ctx.Pipe(False)
            p = ctx.Process(target=_worker, args=(self, fn, chunk, send))
            p.start()
            send.close()
            procs.append((p, recv))
        for p, recv in procs:
            try:
                kind, out = recv.recv()
            except EOFError:
                raise Machinery('a worker process died')
            p.join()
            if kind == 'error':
                raise Machinery(out)
            self.states += out['states']
            self.transitions += out['transitions']
            self.traces += out['traces']
            self.evals += out['evals']
            self.distinct |= out['distinct']
            self.samples = (self.samples + out['samples'])[:3]
            for v in out['violations']:
                self.violation(*v)

    def finish(self):
        for ident, text in sorted(self.known_hits.items()):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, text))
        for where, msg, path in self.violations:
            print('--- %s: %s' % (where, msg[-700:]))
        for where, msg, path in self.violations:
            print('VIOLATION property=%s replay=%s' % (
                self.pid, os.path.relpath(path, VERIF)))
        cov = {
            'states': self.states, 'transitions': self.transitions,
            'traces_validated_against_impl': self.traces,
            'evaluations': self.evals,
            'distinct_nontrivial': len(self.distinct),
            'rule': self.rule or 'one evaluation per specification step replayed',
            'samples': self.samples or ['(none)'],
        }
        cov.update(self.extra)
        ev = {'property': self.pid, 'tier': self.tier if self.tier in
              ('quick', 'thorough') else 'quick', 'seed': self.seed,
              'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2),
              'violations': len(self.violations)}
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s %s: %d traces, %d states, %d evaluations (%d distinct), '
              '%d violations, %.1f s' % (
                  self.pid, self.tier, self.traces, self.states, self.evals,
                  len(self.distinct), len(self.violations),
                  time.time() - self.t0))
        return 1 if self.violations else 0


class _Sub(Check):
    """The share of a check done in one worker process."""
    def __init__(self, parent):
        super().__init__(parent.pid)
        self.found = []

    def violation(self, where, data, msg, ident=None):
        self.found.append((where, jsonable(data), msg, ident))
        if len(self.found) >= 50:
            raise Machinery('__stop__')

    def too_many(self):
        return len([f for f in self.found if not any(
            k['ident'] == (f[3] or f[0]) for k in self.known)]) >= self.max_violations


def _worker(parent, fn, chunk, send):
    sub = _Sub(parent)
    try:
        try:
            for item in chunk:
                fn(sub, item)
                if sub.too_many():
                    break
        except Machinery as e:
            if str(e) != '__stop__':
                raise
        send.send(('ok', {'states': sub.states, 'transitions': sub.transitions,
                          'traces': sub.traces, 'evals': sub.evals,
                          'distinct': sub.distinct, 'samples': sub.samples,
                          'violations': sub.found}))
    except Exception:
        send.send(('error', traceback.format_exc()))
    finally:
        send.close()
        sys.stdout.flush()
        os._exit(0)


def load_known(pid):
    path = os.path.join(VERIF, 'known-findings.txt')
    out = []
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'finding: property=(\S+) ident=(\S+) (.*)', line)
            if m and m.group(1) == pid:
                out.append({'ident': m.group(2), 'text': m.group(3).strip()})
    return out
