"""Common driver of all checks: tiers, exhaustive case enumeration over a process
pool, evidence, replay files, VIOLATION / KNOWN-FINDING lines and exit codes."""
import atexit
import collections
import itertools
import json
import multiprocessing
import multiprocessing.connection
import os
import signal
import sys
import time
import traceback

from . import build as _build
from . import sched as _sched   # noqa: F401  (wraps time.sleep before redmapper is imported)

HOME = os.environ.get('VERIF_HOME', os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
MAX_REPORT = 5


class HarnessError(Exception):
    pass


class NoAnswer(BaseException):
    """A case that takes far longer than any case takes (an endless loop, a deadlock)."""


def case_limit():
    return float(os.environ.get('VERIF_CASE_LIMIT') or (2400 if os.environ.get('VERIF_TIER') == 'thorough' else 240))


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, np.generic):
        return jsonable(x.item())
    if isinstance(x, bytes):
        return x.decode('latin1')
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def in_code_under_test(exc):
    """True when the innermost non-library frames of exc are in the redmapper copy."""
    src = os.path.realpath(os.path.join(_build.scratch(), 'src'))
    return any(os.path.realpath(f.filename).startswith(src) for f in traceback.extract_tb(exc.__traceback__))


def exc_problem(exc, what='code under test'):
    tb = traceback.extract_tb(exc.__traceback__)
    src = os.path.realpath(os.path.join(_build.scratch(), 'src'))
    where = [f for f in tb if os.path.realpath(f.filename).startswith(src)]
    loc = ''
    if where:
        loc = ' at %s:%s' % (os.path.relpath(os.path.realpath(where[-1].filename), src), where[-1].name)
    return '%s raised %s: %s%s' % (what, type(exc).__name__, str(exc)[:200], loc)


class Check:
    def __init__(self, prop, level, rule, assumptions=()):
        self.prop = prop
        self.level = level
        self.rule = rule
        self.assumptions = list(assumptions)
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.thorough = self.tier == 'thorough'
        self.t0 = time.time()
        self.evaluations = 0
        self.nontrivial = 0
        self.outcomes = collections.Counter()
        self.samples = []
        self.violations = []
        self.known_hit = {}
        self.extra = {}
        self.known = self._load_known()
        self.slowest = 0.0
        self.stopped = False     # a case did not answer: nothing else is run
        self.replay = None
        if '--replay' in sys.argv:
            with open(sys.argv[sys.argv.index('--replay') + 1]) as f:
                self.replay = json.load(f)

    def _load_known(self):
        p = os.path.join(HOME, 'known_findings.json')
        if not os.path.isfile(p):
            return {}
        with open(p) as f:
            d = json.load(f)
        return {e['key']: e for e in d.get('findings', []) if e['property'] == self.prop}

    # ------------------------------------------------------------------
    def note(self, outcome, nontrivial=True, sample=None):
        self.evaluations += 1
        self.outcomes[outcome] += 1
        if nontrivial:
            self.nontrivial += 1
        if sample is not None and len(self.samples) < 4:
            self.samples.append(jsonable(sample))

    def problem(self, case, text, key=None):
        """Record one violation (or a known finding when its key is listed)."""
        if key is not None and key in self.known:
            self.known_hit[key] = self.known[key]
            return
        self.violations.append((case, text))

    # ------------------------------------------------------------------
    def run_cases(self, cases, run_case, group='', chunk=None, nproc=None, stop_after=MAX_REPORT):
        """Exhaustively run run_case(case) for every case.

        run_case returns (problems, outcome[, nontrivial]) with problems a list of
        strings or (key, string) tuples.  Replay runs only the recorded case."""
        if self.replay is not None:
            if self.replay.get('group', '') != group:
                return
            cases = [self.replay['case']]
        if self.stopped:
            return
        signal.setitimer(signal.ITIMER_REAL, 0)
        try:
            self._run_cases(cases, run_case, group, chunk, nproc, stop_after)
        finally:
            setup_alarm()

    def _run_cases(self, cases, run_case, group, chunk, nproc, stop_after):
        cases = list(cases)
        if not cases:
            raise HarnessError('no cases in group %r' % group)
        nproc = nproc or min(8, os.cpu_count() or 1, max(1, len(cases)))
        if self.replay is not None:
            nproc = 1
        n0 = len(self.violations)
        if nproc == 1:
            results = enumerate(map(_Runner(run_case), cases))
            self._consume(cases, results, group, n0, stop_after)
            return
        if chunk is None:
            chunk = max(1, min(64, len(cases) // (nproc * 8)))
        workers = _Workers(run_case, cases, nproc, chunk)
        try:
            self._consume(cases, workers.results(), group, n0, stop_after)
        finally:
            workers.stop()

    def _consume(self, cases, results, group, n0, stop_after):
        first = True
        for index, (kind, payload) in results:
            case = cases[index]
            self.slowest = max(self.slowest, payload[3] if kind == 'ok' and len(payload) > 3 else 0.0)
            payload = payload[:3] if kind == 'ok' else payload
            if kind == 'harness':
                raise HarnessError(payload)
            problems, outcome, nontrivial = payload
            self.note((group, outcome) if group else outcome, nontrivial,
                      {'group': group, 'case': case, 'outcome': outcome} if first or not nontrivial else None)
            first = False
            for p in problems:
                key = None
                if isinstance(p, tuple):
                    key, p = p
                self.problem({'group': group, 'case': jsonable(case)}, p, key)
            if outcome == 'no answer':
                self.stopped = True
            if self.stopped or len(self.violations) - n0 >= stop_after:
                break

    # ------------------------------------------------------------------
    def finish(self):
        cov = {'evaluations': self.evaluations, 'distinct_nontrivial': self.nontrivial,
               'rule': self.rule, 'samples': self.samples or [{'note': 'none recorded'}],
               'distinct_outcomes': len(self.outcomes),
               'exhaustive': self.replay is None and not self.violations}
        cov.update(self.extra)
        if os.environ.get('VERIF_TIMES'):
            print('slowest case of %s: %.1f s' % (self.prop, self.slowest))
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': jsonable(cov), 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        d = os.path.join(HOME, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for key, e in sorted(self.known_hit.items()):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, e['what']))
        print('%s: %d evaluations, %d non-trivial, %d distinct outcomes, %.1f s; %s' % (
            self.prop, self.evaluations, self.nontrivial, len(self.outcomes), time.time() - self.t0,
            ', '.join('%s=%s' % (k, v) for k, v in self.extra.items() if isinstance(v, (int, float)))))
        if self.violations:
            rd = os.path.join(HOME, 'replays')
            os.makedirs(rd, exist_ok=True)
            for i, (case, text) in enumerate(self.violations[:MAX_REPORT]):
                path = os.path.join(rd, '%s-%d.json' % (self.prop, i + 1))
                with open(path, 'w') as f:
                    rec = dict(case) if isinstance(case, dict) else {'case': case}
                    rec.update(property=self.prop, problem=text,
                               replay_with='bash %s/run.sh %s --replay %s' % (HOME, os.path.basename(sys.argv[0])[:-3], path))
                    json.dump(jsonable(rec), f, indent=1)
                print('  ' + text)
                print('  case: %s' % json.dumps(jsonable(case))[:600])
                print('VIOLATION property=%s replay=%s' % (self.prop, path))
            sys.stdout.flush()
            return 1
        return 0


class _Runner:
    def __init__(self, fn):
        self.fn = fn

    def __call__(self, case):
        return _guarded(self.fn, case)


class _Workers:
    """Cases in forked processes, results in the order of the cases.  A process that dies in a case (a crash in compiled code, say), or
    that can not be interrupted in it, is a problem of that case."""

    def __init__(self, fn, cases, nproc, chunk):
        self.fn, self.cases, self.limit = fn, cases, case_limit()
        self.todo = collections.deque((i, min(i + chunk, len(cases))) for i in range(0, len(cases), chunk))
        self.ctx = multiprocessing.get_context('fork')
        self.busy = {}           # connection -> [process, next case, end of the range, time]
        self.nproc = nproc

    def start(self, first, end):
        a, b = self.ctx.Pipe()
        p = self.ctx.Process(target=self.work, args=(b, a), daemon=True)
        p.start()
        b.close()
        self.busy[a] = [p, first, end, time.time()]
        a.send((first, end))

    def work(self, conn, other):
        other.close()
        for c in list(self.busy):
            c.close()
        try:
            while True:
                r = conn.recv()
                for i in range(*r):
                    conn.send((i, _guarded(self.fn, self.cases[i])))
        except (EOFError, OSError, KeyboardInterrupt):
            pass

    def lost(self, conn, text):
        """Give up the process of this connection; the rest of its range goes to another one."""
        p, i, end, _ = self.busy.pop(conn)
        conn.close()
        if p.is_alive():
            p.kill()
        p.join()
        if i + 1 < end:
            self.todo.appendleft((i + 1, end))
        return i, ('ok', ([text], 'no answer' if 'no answer' in text else 'exception', True))

    def results(self):
        have, want = {}, 0
        while want < len(self.cases):
            while self.todo and len(self.busy) < self.nproc:
                self.start(*self.todo.popleft())
            for c in multiprocessing.connection.wait(list(self.busy), timeout=5.0):
                w = self.busy[c]
                try:
                    i, r = c.recv()
                except (EOFError, OSError):
                    w[0].join()
                    code = w[0].exitcode
                    if code == -signal.SIGKILL:
                        raise HarnessError('a process was killed from outside in case %r' % (self.cases[w[1]],))
                    i, r = self.lost(c, 'the process that runs the case died (%s)' % (signal.Signals(-code).name if code < 0 else 'exit code %d' % code))
                    have[i] = r
                    continue
                have[i] = r
                w[1], w[3] = i + 1, time.time()
                if w[1] == w[2]:
                    if self.todo:
                        w[1], w[2] = self.todo.popleft()
                        c.send((w[1], w[2]))
                    else:
                        w[0].terminate()
                        del self.busy[c]
                        c.close()
                        w[0].join()
            for c in [c for c, w in self.busy.items() if time.time() - w[3] > self.limit + 60]:
                i, r = self.lost(c, 'no answer within %d s' % (self.limit + 60))
                have[i] = r
            while want in have:
                yield want, have.pop(want)
                want += 1
            # a case without answer ends the run: do not wait for those before it
            late = [i for i, r in have.items() if r[0] == 'ok' and r[1][1] == 'no answer']
            if late:
                yield late[0], have.pop(late[0])
                return

    def stop(self):
        for w in self.busy.values():
            w[0].terminate()
        for c, w in self.busy.items():
            w[0].join(5)
            if w[0].is_alive():
                w[0].kill()
                w[0].join()
            c.close()
        self.busy = {}


def _alarm(*a):
    raise NoAnswer()


def setup_alarm():
    """What runs between the cases has a limit of its own."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, 3 * case_limit())


def _guarded(fn, case):
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, case_limit())
    t0 = time.time()
    try:
        r = fn(case)
        signal.setitimer(signal.ITIMER_REAL, 0)
        if len(r) == 2:
            r = (r[0], r[1], True)
        return ('ok', (list(r[0]), _hashable(r[1]), bool(r[2]), time.time() - t0))
    except NoAnswer:
        return ('ok', (['no answer within %d s' % case_limit()], 'no answer', True))
    except (Exception, SystemExit) as e:      # noqa
        signal.setitimer(signal.ITIMER_REAL, 0)
        if in_code_under_test(e):
            return ('ok', ([exc_problem(e)], 'exception', True))
        if isinstance(e, (AttributeError, LookupError, TypeError, ValueError, ArithmeticError, FileNotFoundError)) or \
                (isinstance(e, OSError) and 'could not open the named file' in str(e)):
            # a result that lacks what the oracle reads (a missing attribute, column, row or file)
            f = traceback.extract_tb(e.__traceback__)[-1]
            return ('ok', (['the result can not be read: %s: %s (%s:%d)' % (type(e).__name__, str(e)[:200], os.path.basename(f.filename), f.lineno)], 'exception', True))
        return ('harness', 'case %r: %s' % (case, traceback.format_exc()))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _hashable(o):
    if isinstance(o, (list, tuple)):
        return tuple(_hashable(v) for v in o)
    if isinstance(o, dict):
        return tuple(sorted((k, _hashable(v)) for k, v in o.items()))
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return repr(o)


def main(prop, level, rule, body, assumptions=(), need_ext=True):
    """Build, run body(check), write evidence, exit 0/1 (2: error of the check)."""
    try:
        check = Check(prop, level, rule, assumptions)
        try:
            _build.build(need_ext=need_ext)
        except AssertionError:
            raise
        setup_alarm()
        body(check)
        signal.setitimer(signal.ITIMER_REAL, 0)
        code = check.finish()
    except HarnessError as e:
        sys.stderr.write('HARNESS ERROR: %s\n' % e)
        code = 2
    except SystemExit:
        raise
    except NoAnswer:
        check.stopped = True
        check.problem({'group': 'setup'}, 'setup: no answer within %d s' % (3 * case_limit()))
        code = check.finish()
    except Exception as e:       # noqa
        signal.setitimer(signal.ITIMER_REAL, 0)
        if in_code_under_test(e):
            check.problem({'group': 'setup'}, exc_problem(e, 'setup: code under test'))
            traceback.print_exc()
            code = check.finish()
        else:
            traceback.print_exc()
            code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    if code != 2 and check.stopped:
        # threads that hang would keep the process
        atexit._run_exitfuncs()
        os._exit(code)
    sys.exit(code)


def powerset(xs, lo=0, hi=None):
    xs = list(xs)
    hi = len(xs) if hi is None else hi
    for k in range(lo, hi + 1):
        for c in itertools.combinations(xs, k):
            yield c
