"""Controlled scheduler for real processes that share a directory.

Every participant is a forked process running the real redmapper code.  Each of
its file-system operations on the shared directory (link, remove, rename, mkdir,
listing, existence test, open for writing, FITS open and FITS close) and every
sleep is a scheduling point: the process reports the operation and waits until
the controller lets it go on, or kills it there (os._exit: nothing buffered is
flushed, no handler runs).  Exactly one process runs at a time, so an execution
is determined by the list of choices, and the explorer enumerates all lists
within a bound on preemptions and crashes.
"""
import os
import pickle
from multiprocessing.reduction import ForkingPickler
import re
import select
import shutil
import signal
import struct
import sys
import time
import traceback

_real_sleep = time.sleep
_child = None          # the Child object when this process is a participant


sleep_hook = None     # sequential checks may replace waiting


def _sleep(secs):
    if sleep_hook is not None:
        return sleep_hook(secs)
    if _child is not None:
        _child.point('sleep', '')
    else:
        _real_sleep(secs)


time.sleep = _sleep    # before redmapper is imported, so "from time import sleep" is covered too

_TMPNAME = re.compile(r'^[a-z0-9_]{8}$')


class Child:
    def __init__(self, rfd, wfd, root, interesting):
        self.rfd, self.wfd, self.root = rfd, wfd, os.path.realpath(root)
        self.interesting = interesting
        self.busy = False

    def send(self, obj):
        b = pickle.dumps(obj)
        b = struct.pack('<I', len(b)) + b
        while b:
            n = os.write(self.wfd, b)
            b = b[n:]

    def rel(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = p.decode('utf8', 'replace')
        p = os.path.abspath(p)
        if not (p == self.root or p.startswith(self.root + '/')):
            return None
        r = os.path.relpath(p, self.root)
        if _TMPNAME.match(os.path.basename(r)):
            return None
        if self.interesting is not None and not self.interesting(r):
            return None
        # names that carry the process number have to be the same on replay
        return re.sub(r'(?<![0-9])%d(?![0-9])' % os.getpid(), 'PID', r)

    def point(self, kind, what):
        if self.busy:
            return
        self.busy = True
        try:
            self.send((kind, what))
            c = os.read(self.rfd, 1)
            if c != b'g':
                os._exit(137)
        finally:
            self.busy = False

    def path_point(self, kind, path):
        if self.busy:
            return
        r = self.rel(path)
        if r is not None:
            self.point(kind, r)


def barrier():
    if _child is not None:
        _child.point('barrier', '')


def step(label):
    """An explicit scheduling point of the harness (e.g. between two calls)."""
    if _child is not None:
        _child.point('step', label)


def _install(child):
    global _child
    _child = child
    W = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND

    def hook(event, args):
        if child.busy:
            return
        if event == 'open':
            path, _mode, flags = args
            if isinstance(path, int) or path is None:
                return
            if flags & W:
                child.path_point('open', path)
        elif event == 'os.link':
            child.path_point('link', args[1])
        elif event == 'os.symlink':
            child.path_point('link', args[1])
        elif event == 'os.rename':
            child.path_point('rename', args[1])
        elif event == 'os.remove':
            child.path_point('remove', args[0])
        elif event in ('os.mkdir', 'os.rmdir'):
            child.path_point('mkdir', args[0])
        elif event in ('os.scandir', 'os.listdir'):
            child.path_point('list', args[0] if args[0] is not None else '.')
    sys.addaudithook(hook)

    real_stat = os.stat

    def stat(path, *a, **k):
        if not isinstance(path, int):
            child.path_point('stat', path)
        return real_stat(path, *a, **k)
    os.stat = stat

    import fitsio
    import fitsio.fitslib
    Real = fitsio.fitslib.FITS

    class FITS(Real):
        def __init__(self, filename, mode='r', *a, **k):
            self._vp = None
            fn = str(filename).lstrip('!').split('[')[0]
            child.path_point('fopen-%s' % ('r' if mode in (0, 'r') else 'w'), fn)
            if mode not in (0, 'r'):
                self._vp = fn
            b, child.busy = child.busy, True
            try:
                Real.__init__(self, filename, mode, *a, **k)
            finally:
                child.busy = b

        def close(self):
            if getattr(self, '_vp', None) is not None:
                fn, self._vp = self._vp, None
                child.path_point('fclose', fn)
            b, child.busy = child.busy, True
            try:
                Real.close(self)
            finally:
                child.busy = b
    fitsio.fitslib.FITS = FITS
    fitsio.FITS = FITS

    serial_pools()


POOL_ORDER = 'forward'


def serial_pools(order='forward', pickled=False):
    """Worker pools of the code under test run their tasks in this process, in the given order.

    pickled: each task works on its own copy of function and argument, as with a real pool."""
    global POOL_ORDER
    POOL_ORDER = order
    import multiprocessing
    import multiprocessing.context

    def run(f, xs):
        xs = list(xs)
        idx = list(range(len(xs)))
        if POOL_ORDER == 'reverse':
            idx = idx[::-1]
        elif POOL_ORDER == 'oddeven':
            idx = idx[1::2] + idx[0::2]
        out = [None] * len(xs)
        for i in idx:
            g, x = pickle.loads(ForkingPickler.dumps((f, xs[i]))) if pickled else (f, xs[i])
            out[i] = g(x)
        return out, idx

    class Pool:
        def __init__(self, *a, **k):
            init = k.get('initializer')
            if init is not None:
                init(*k.get('initargs', ()))

        def map(self, f, xs, chunksize=None):
            return run(f, xs)[0]

        def starmap(self, f, xs, chunksize=None):
            return run(lambda x: f(*x), xs)[0]

        def imap(self, f, xs, chunksize=None):
            return iter(run(f, xs)[0])

        def imap_unordered(self, f, xs, chunksize=None):
            out, idx = run(f, xs)
            return iter([out[i] for i in idx])

        def close(self):
            pass
        terminate = join = close

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False
    multiprocessing.context.BaseContext.Pool = lambda self, *a, **k: Pool(*a, **k)
    multiprocessing.Pool = Pool


class Proc:
    def __init__(self, idx, fn, root, interesting):
        self.idx = idx
        c2p_r, c2p_w = os.pipe()
        p2c_r, p2c_w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(c2p_r)
                os.close(p2c_w)
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                devnull = os.open(os.devnull, os.O_WRONLY)
                os.dup2(devnull, 1)
                os.dup2(devnull, 2)
                ch = Child(p2c_r, c2p_w, root, interesting)
                ch.point('start', '')
                _install(ch)
                try:
                    r = ('done', fn())
                except Exception as e:   # noqa
                    from .core import in_code_under_test
                    r = ('exc', (type(e).__name__, str(e)[:300], in_code_under_test(e),
                                 traceback.format_exc()[-2000:]))
                ch.busy = True
                ch.send(r)
            except BaseException:        # noqa
                code = 3
            finally:
                os._exit(code)
        os.close(c2p_w)
        os.close(p2c_r)
        self.pid, self.r, self.w = pid, c2p_r, p2c_w
        self.pending = None      # (kind, what) waiting for 'g'
        self.result = None       # ('done', x) | ('exc', ...) | ('killed',)
        self.slept_at = -1
        self.progress = self.mark = self.phase = 0
        self.retry = False
        self.recv()

    def _read(self, n):
        b = b''
        while len(b) < n:
            c = os.read(self.r, n - len(b))
            if not c:
                return None
            b += c
        return b

    def recv(self):
        r, _, _ = select.select([self.r], [], [], 300)
        if not r:
            os.kill(self.pid, signal.SIGKILL)
            raise RuntimeError('participant hangs')
        h = self._read(4)
        if h is None:
            self.pending = None
            self.result = ('died',)
            self._reap()
            return
        msg = pickle.loads(self._read(struct.unpack('<I', h)[0]))
        if msg[0] in ('done', 'exc'):
            self.pending = None
            self.result = msg
            self._reap()
        else:
            self.pending = msg

    def go(self):
        os.write(self.w, b'g')
        self.recv()

    def kill(self):
        os.write(self.w, b'k')
        self.result = ('killed',) + tuple(self.pending)
        self.pending = None
        self._reap()

    def _reap(self):
        try:
            os.waitpid(self.pid, 0)
        except ChildProcessError:
            pass
        os.close(self.r)
        os.close(self.w)

    def abort(self):
        if self.result is None:
            try:
                os.kill(self.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            self.result = ('aborted',)
            self._reap()


class Execution:
    """points: list of (n_alternatives, chosen, [cost per alternative]); trace: readable."""
    def __init__(self):
        self.points = []
        self.trace = []
        self.results = []
        self.diverged = None
        self.livelock = False


def execute(procs_fns, root, prefix, interesting=None, crash_ok=(), crash_phase=0, max_steps=20000):
    """Run one execution.  prefix: list of choices (0 = default).  crash_ok: indices of
    processes that may be killed; a kill is the last alternative of a point."""
    ex = Execution()
    procs = [Proc(i, f, root, interesting) for i, f in enumerate(procs_fns)]
    cur = 0
    steps = 0
    k = 0
    try:
        while True:
            alive = [p for p in procs if p.result is None]
            if not alive:
                break
            atbar = [p for p in alive if p.pending[0] == 'barrier']
            if atbar and len(atbar) == len(alive):
                for p in atbar:
                    ex.trace.append('p%d passes barrier' % p.idx)
                    p.phase += 1
                    p.go()
                steps += 1
                continue
            run = [p for p in alive if p.pending[0] != 'barrier']
            enabled = [p for p in run if not (p.pending[0] == 'sleep' and p.slept_at >= steps_other(procs, p))]
            if not enabled:
                enabled = run        # only sleepers left: time passes
            curp = procs[cur]
            order = []
            if curp in enabled:
                order.append(curp)
            order += [p for p in enabled if p is not curp]
            pre = curp in enabled and curp.pending[0] not in ('start',)
            alts = [('go', p, (1, 0) if (pre and p is not curp) else (0, 0)) for p in order]
            head = order[0]
            if head.idx in crash_ok and head.phase >= crash_phase and head.pending[0] not in ('start', 'sleep'):
                alts.append(('kill', head, (0, 1)))
            if k < len(prefix):
                c = prefix[k]
                if c >= len(alts):
                    ex.diverged = 'choice %d of point %d out of range' % (c, k)
                    break
            else:
                c = 0
            ex.points.append((len(alts), c, [a[2] for a in alts]))
            k += 1
            act, p, _ = alts[c]
            if act == 'kill':
                ex.trace.append('p%d KILLED before %s %s' % (p.idx, p.pending[0], p.pending[1]))
                p.kill()
            else:
                ex.trace.append('p%d %s %s' % (p.idx, p.pending[0], p.pending[1]))
                slept = p.pending[0] == 'sleep'
                if slept:
                    p.retry, p.mark = True, p.progress      # a retry loop: what follows may be no progress
                elif p.pending[0] not in ('link', 'stat', 'list', 'fopen-r'):
                    p.retry = False
                if not slept:
                    p.progress += 1
                p.go()
                if p.result is None and p.pending[0] == 'sleep':
                    if p.retry:
                        p.progress = p.mark                 # it only polled and sleeps again
                    p.slept_at = steps_other(procs, p)
                cur = p.idx
            steps += 1
            if steps > max_steps:
                ex.livelock = True
                break
        ex.results = [p.result for p in procs]
    finally:
        for p in procs:
            p.abort()
    ex.results = [p.result for p in procs]
    return ex


def steps_other(procs, me):
    """Progress made by everybody but me (terminated processes count as progress)."""
    return sum(p.progress + (1 if p.result is not None else 0) for p in procs if p is not me)


def children(prefix, ex, pmax, cmax):
    """All one-choice deviations of ex after its prefix, within the bounds."""
    out = []
    pre = crash = 0
    for i, (n, c, costs) in enumerate(ex.points):
        if i >= len(prefix):
            for alt in range(n):
                if alt == c:
                    continue
                if pre + costs[alt][0] <= pmax and crash + costs[alt][1] <= cmax:
                    out.append([pt[1] for pt in ex.points[:i]] + [alt])
        pre += costs[c][0]
        crash += costs[c][1]
    return out


_W = {}


def _explore_one(arg):
    prefix = arg
    sc = _W['scenario']
    root = os.path.join(_W['base'], 'w%d' % os.getpid())
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    try:
        fns = sc.start(root)
        ex = execute(fns, root, prefix, sc.interesting, sc.crash_ok, sc.crash_phase)
        if ex.diverged:
            return prefix, [], ['DIVERGED ' + ex.diverged], '', ex.trace, 0
        if _W.get('twice'):
            shutil.rmtree(root, ignore_errors=True)
            os.makedirs(root)
            fns = sc.start(root)
            ex2 = execute(fns, root, prefix, sc.interesting, sc.crash_ok, sc.crash_phase)
            if ex2.trace != ex.trace:
                return prefix, [], ['DIVERGED trace differs on replay'], '', ex.trace, 0
        problems, outcome = sc.judge(root, ex)
        return prefix, children(prefix, ex, sc.pmax, sc.cmax), problems, outcome, ex.trace, len(ex.points)
    finally:
        shutil.rmtree(root, ignore_errors=True)


class Scenario:
    """start(root) -> list of callables; judge(root, ex) -> (problems, outcome)."""
    name = ''
    pmax = 2
    cmax = 0
    crash_ok = ()
    crash_phase = 0        # kills only after this many barriers
    interesting = None

    def __init__(self, **k):
        self.__dict__.update(k)


def explore(check, scenario, base, nproc=None, cap=None):
    """Exhaustive exploration of one scenario within its bounds, breadth first."""
    import multiprocessing
    from .core import HarnessError
    group = scenario.name
    if check.replay is not None and check.replay.get('group') != group:
        return
    _W['scenario'] = scenario
    _W['base'] = base
    os.makedirs(base, exist_ok=True)
    stats = {'executions': 0, 'transitions': 0}
    nproc = nproc or min(8, os.cpu_count() or 1)

    def consume(res):
        prefix, kids, problems, outcome, trace, npts = res
        for p in problems:
            if isinstance(p, str) and p.startswith('DIVERGED'):
                raise HarnessError('%s: %s: %r' % (group, p, prefix))
        stats['executions'] += 1
        stats['transitions'] += npts
        check.note((group, outcome), len(prefix) > 0,
                   {'scenario': group, 'schedule': prefix, 'trace': trace[:60], 'outcome': outcome}
                   if stats['executions'] in (1, 50) else None)
        for p in problems:
            key = None
            if isinstance(p, tuple):
                key, p = p
            check.problem({'group': group, 'case': prefix, 'trace': trace[-120:]}, '%s: %s' % (group, p), key)
        return kids

    n0 = len(check.violations)
    if check.replay is not None:
        consume(_explore_one(check.replay['case']))
        return
    # the default schedule twice: the harness must be deterministic
    _W['twice'] = True
    frontier = consume(_explore_one([]))
    _W['twice'] = False
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(nproc) as pool:
        while frontier:
            nxt = []
            for res in pool.imap_unordered(_explore_one, frontier, chunksize=4):
                nxt += consume(res)
                if len(check.violations) - n0 >= 3:
                    break
            if len(check.violations) - n0 >= 3:
                break
            nxt.sort()
            frontier = nxt
            if cap is not None and stats['executions'] + len(frontier) > cap:
                raise HarnessError('%s: more than %d executions' % (group, cap))
        pool.terminate()
    e = check.extra
    e['schedules'] = e.get('schedules', 0) + stats['executions']
    e['transitions'] = e.get('transitions', 0) + stats['transitions']
    e.setdefault('bounds', {})[group] = {'preemptions': scenario.pmax, 'crashes': scenario.cmax,
                                         'executions': stats['executions']}
