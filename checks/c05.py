"""C05: the lock-file primitive under all interleavings of 2-3 real processes, crashes, and pre-existing locks."""
import itertools
import os
import shutil

from mc import build, core, sched


class Lock(sched.Scenario):
    """spec: per process a list of 'n' (non-blocking) / 'b' (blocking, long) / 's' (blocking, 2 tries) acquisitions."""
    pre = False

    def start(self, root):
        from redmapper.utilities import make_lockfile
        lock = os.path.join(root, 'thing.fit.lock')
        log = os.path.join(root, 'zlog')
        fd = os.open(log, os.O_CREAT | os.O_WRONLY | os.O_APPEND)
        os.close(fd)
        if self.pre:
            with open(lock, 'w') as f:
                f.write('somebody')

        def proc(i):
            def f():
                fd = os.open(log, os.O_WRONLY | os.O_APPEND)

                def say(s):
                    os.write(fd, ('%d %s\n' % (i, s)).encode())
                for kind in self.spec[i]:
                    say('call')
                    if kind == 'n':
                        r = make_lockfile(lock)
                    elif kind == 'b':
                        r = make_lockfile(lock, block=True)
                    else:
                        r = make_lockfile(lock, block=True, maxtry=2, waittime=0.5)
                    if r is True:
                        say('enter')
                        sched.step('inside')
                        say('exit')
                        os.remove(lock)
                        say('released')
                    else:
                        say('refused-%s %r' % (kind, r))
                return True
            return f
        return [proc(i) for i in range(len(self.spec))]

    def judge(self, root, ex):
        bad = []
        killed = [i for i, r in enumerate(ex.results) if r[0] == 'killed']
        for i, r in enumerate(ex.results):
            if r[0] == 'exc':
                bad.append('process %d failed: %s %s' % (i, r[1][0], r[1][1]))
            elif r[0] not in ('done', 'killed'):
                bad.append('process %d: %s' % (i, r[0]))
        if ex.livelock:
            bad.append('no termination')
        ev = [x.split(' ', 1) for x in open(os.path.join(root, 'zlog')).read().splitlines()]
        inside = set()
        seen = []
        # a process holds the lock from some point between call and enter until released; it is free otherwise
        for n, (p, e) in enumerate(ev):
            if e == 'enter':
                if inside:
                    bad.append('processes %s and %s hold the lock at the same time' % (inside, p))
                inside.add(p)
                if self.pre:
                    bad.append('lock obtained although its file existed')
            elif e == 'exit':
                inside.discard(p)
            elif e.startswith('refused'):
                if e[10:] != 'False':
                    bad.append('a refused call did not return False but %s' % e[10:])
                # somebody else may have held it during the call
                k = max(j for j in range(n) if ev[j] == [p, 'call'])
                others = self.pre or bool(killed)
                hold = {}
                for j, (q, f) in enumerate(ev):
                    if q == p:
                        continue
                    if f == 'call':
                        hold[q] = j
                    if f == 'released' and j < k:
                        hold.pop(q, None)
                    elif f.startswith('refused') and j < k:
                        hold.pop(q, None)
                    if j < n and q in hold and f in ('enter', 'exit', 'released'):
                        others = True
                if not others and hold:
                    others = any(c < n for c in hold.values())
                if not others:
                    bad.append('process %s was refused a lock nobody held' % p)
            seen.append((p, e))
        if not killed:
            ent = sum(1 for p, e in ev if e == 'enter')
            if not self.pre and any(e.startswith('refused-b') for p, e in ev):
                bad.append('a blocking call gave up although the lock was released')
            if ent == 0 and not self.pre:
                bad.append('nobody got the lock')
        left = sorted(f for f in os.listdir(root) if f != 'zlog')
        want = ['thing.fit.lock'] if self.pre else []
        if not killed and left != want:
            bad.append('files left: %s, expected %s' % (left, want))
        if killed:
            # nobody else may remove the lock of a dead holder
            for i in killed:
                mine = [e for p, e in ev if p == str(i)]
                if mine and mine[-1] in ('enter', 'exit') and 'thing.fit.lock' not in left:
                    bad.append('the lock of dead process %d disappeared' % i)
        if self.pre:
            with open(os.path.join(root, 'thing.fit.lock')) as f:
                if f.read() != 'somebody':
                    bad.append('the existing lock file was changed')
        return bad, tuple(seen)


def run_seq(case):
    """Sequential use: acquire twice, in nested/relative directories, with timeouts; counts the waits."""
    from redmapper.utilities import make_lockfile
    where, ops = case
    root = os.path.join(build.scratch(), 'c05s', str(os.getpid()))
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(os.path.join(root, 'a', 'b'))
    cwd = os.getcwd()
    os.chdir(root)
    lock = {'abs': root + '/x.lock', 'rel': 'x.lock', 'sub': 'a/b/x.lock', 'dot': './x.lock'}[where]
    held = False
    bad = []
    waits = []
    try:
        for op in ops:
            del waits[:]
            releaser = [None]

            def fake(s):
                waits.append(s)
                if releaser[0] is not None and len(waits) == releaser[0]:
                    os.remove(lock)
            sched.sleep_hook = fake
            try:
                if op == 'n':
                    r = make_lockfile(lock)
                    want = not held
                elif op == 'b3':
                    r = make_lockfile(lock, block=True, maxtry=3, waittime=7)
                    want = not held
                    if held and (len(waits) not in (2, 3) or set(waits) != {7}):
                        bad.append('a blocking call with maxtry=3, waittime=7 waited %s' % waits)
                elif op == 'rel2':
                    # the holder releases during the second wait
                    if not held:
                        continue
                    releaser[0] = 2
                    r = make_lockfile(lock, block=True, maxtry=5, waittime=1)
                    want = True
                else:
                    if held:
                        os.remove(lock)
                        held = False
                    continue
            finally:
                sched.sleep_hook = None
            if r is not want:
                bad.append('%s returned %r, expected %r' % (op, r, want))
                break
            held = held or r
            if os.path.isfile(lock) != held:
                bad.append('lock file %s after %s' % (os.path.isfile(lock), op))
            files = [f for _, _, fs in os.walk(root) for f in fs]
            if len(files) != int(held):
                bad.append('stray files %s after %s' % (files, op))
    finally:
        os.chdir(cwd)
        shutil.rmtree(root, ignore_errors=True)
    return bad, (where, held, len(ops))


def body(check):
    base = os.path.join(build.scratch(), 'c05')
    th = check.thorough
    notlog = lambda r: not os.path.basename(r).startswith('zlog')   # noqa
    P = 3 if th else 2
    scen = []
    for spec in (['n', 'n'], ['n', 'b'], ['b', 'b'], ['s', 'b'], ['s', 's'], ['nn', 'nn'], ['bn', 'nb'], ['bb', 'bb'], ['sn', 'bs']):
        scen.append(Lock(name='2 processes %s' % '/'.join(spec), spec=spec, pmax=P + 1))
    for spec in (['n', 'n', 'n'], ['b', 'b', 'b'], ['n', 'b', 's'], ['b', 'b', 'n']):
        scen.append(Lock(name='3 processes %s' % '/'.join(spec), spec=spec, pmax=P))
    for spec in (['b', 'n'], ['n', 's'], ['b', 's'], ['s', 'nn']):
        scen.append(Lock(name='holder may die %s' % '/'.join(spec), spec=spec, pmax=P, cmax=1, crash_ok=(0,)))
    for spec in (['n', 'n'], ['s', 'n'], ['s', 's']):
        scen.append(Lock(name='foreign lock %s' % '/'.join(spec), spec=spec, pmax=P, pre=True))
    for s in scen:
        s.interesting = notlog
        sched.explore(check, s, base)
    nsched = check.evaluations
    cases = [[w, list(o)] for w in ('abs', 'rel', 'sub', 'dot') for o in itertools.product(('n', 'b3', 'rel2', 'free'), repeat=4)]
    check.run_cases(cases, run_seq, 'sequences')
    check.extra['states'] = len(check.outcomes)
    check.extra['traces_validated_against_impl'] = nsched


if __name__ == '__main__':
    core.main('C05', 'model_checking',
              'All schedules of 2-3 real processes taking and releasing one lock file within the preemption/crash bounds, '
              'and all sequential operation sequences of length 4. Non-trivial: the schedule deviates from sequential.', body)
