"""C04: distributed computation of zreds, one task per coarse pixel, coordinated through files."""
import glob
import os

import numpy as np

from mc import build, core, rm, sched
from mc import gals as G

TN = 8            # galaxy table nside
CN = 4            # task nside
COARSE = (50, 51, 90)
NSAMP = 4
_S = {}


def setup():
    """A small galaxy catalog with 2 fine pixels in the first coarse pixel, one in each other; reference zreds."""
    import hpgeom as hpg
    from redmapper import GalaxyCatalog, GalaxyCatalogMaker, RedSequenceColorPar, ZredColor
    base = os.path.join(build.scratch(), 'c04in')
    src = GalaxyCatalog.from_galfile(os.path.join(build.DATA, 'pixelized_dr8_test', 'dr8_test_galaxies_master_table.fit'))
    sets = {}
    for name, coarse in (('two', COARSE[:2]), ('three', COARSE)):
        fine = []
        for k, c in enumerate(coarse):
            ch = hpg.nest_to_ring(TN, hpg.ring_to_nest(CN, c) * 4 + np.arange(4))
            fine += ch[:2].tolist() if k == 0 else ch[1:2].tolist()
        ra, dec, idx = [], [], []
        for k, p in enumerate(fine):
            r, d = G.pix_positions(TN, p, 2 + k % 2, salt=k)
            ra += r.tolist()
            dec += d.tolist()
        n = len(ra)
        s = src._ndarray[100:100 + n * 7:7]
        g = np.zeros(n, dtype=GalaxyCatalogMaker.get_galaxy_dtype(5))
        for f in ('refmag', 'refmag_err', 'mag', 'mag_err', 'ebv'):
            g[f] = s[f]
        g['id'] = np.arange(1, n + 1)
        g['ra'], g['dec'] = ra, dec
        out = os.path.join(base, name, 'my_cat')
        os.makedirs(os.path.dirname(out))
        mk = GalaxyCatalogMaker(out, G.INFO, nside=TN)
        mk.split_galaxies(g)
        zc = ZredColor(RedSequenceColorPar(os.path.join(build.DATA, 'test_dr8_pars.fit')))
        ref = {}
        for p in fine:
            c = GalaxyCatalog.from_galfile(out + '_master_table.fit', nside=TN, hpix=[p])
            c.add_zred_fields(NSAMP)
            zc.compute_zreds(c)
            ref[p] = c
        sets[name] = (out + '_master_table.fit', fine, ref)
    _S.update(sets)


def file_ok(path, ref):
    import fitsio
    try:
        z = fitsio.read(path, ext=1, lower=True)
    except Exception:
        return False
    if z.size != ref.size:
        return False
    return all(np.allclose(z[n], getattr(ref, n), rtol=1e-5) for n in ('zred', 'zred_e', 'zred2', 'zred2_e', 'zred_uncorr', 'lkhd', 'chisq')) \
        and z['zred_samp'].shape[1] == NSAMP


def problems_of_master(zd, name):
    """What is wrong with the published table, if anything ([] when fine; None when unreadable)."""
    import fitsio
    mast, fine, ref = _S[name]
    try:
        t = fitsio.read(os.path.join(zd, 'my_zreds_master_table.fit'), ext=1, lower=True)
    except Exception:
        return None
    bad = []
    hp = np.atleast_1d(t['hpix'][0]).tolist()
    fn = [x.decode().strip() if isinstance(x, bytes) else str(x).strip() for x in np.atleast_1d(t['filenames'][0])]
    ng = np.atleast_1d(t['ngals'][0]).tolist()
    if sorted(hp) != sorted(fine):
        return ['published zred table lists pixels %s, expected %s' % (hp, fine)]
    for p, f, n in zip(hp, fn, ng):
        if f != 'my_zreds_%07d.fit' % p:
            bad.append('published zred table names %r for pixel %d' % (f, p))
        elif not file_ok(os.path.join(zd, f), ref[p]):
            bad.append('zred table is published but the file of pixel %d is missing, incomplete or wrong' % p)
        if n != ref[p].size:
            bad.append('published zred table counts %d for pixel %d' % (n, p))
    return bad


class Zreds(sched.Scenario):
    data = 'two'
    reader = False
    tasks = None
    mkpath = False

    def conf(self, root):
        cf = os.path.join(root, 'conf.yml')
        if not os.path.isfile(cf):
            rm.write_config(cf, galfile=_S[self.data][0], zredfile=os.path.join(root, 'zout', 'my_zreds_master_table.fit'),
                            zred_nsamp=NSAMP, calib_nproc=1)
        return cf

    def task(self, root, c):
        from redmapper.pipeline.zredtask import RunZredPixelTask
        cf = self.conf(root)

        def f():
            t = RunZredPixelTask(cf, c, CN)
            rm.quiet(t.config)
            t.run()
            return True
        return f

    def start(self, root):
        self.zd = os.path.join(root, 'zout')
        if not self.mkpath:
            os.makedirs(self.zd)
        fns = [self.task(root, c) for c in self.tasks]

        def observe():
            sched.step('observe')
            sched._child.busy = True
            try:
                if not os.path.exists(os.path.join(self.zd, 'my_zreds_master_table.fit')):
                    return ('absent',)
                r = problems_of_master(self.zd, self.data)
                return ('unreadable',) if r is None else ('read',) + tuple(r)
            finally:
                sched._child.busy = False
        if self.reader:
            fns.append(observe)
        return fns

    def judge(self, root, ex):
        bad = []
        n = len(self.tasks)
        res = ex.results[:n]
        killed = any(r[0] == 'killed' for r in res)
        dup = len(set(self.tasks)) < n
        for i, r in enumerate(res):
            if r[0] == 'exc':
                if dup and r[1][0] in ('IOError', 'OSError') and 'lock' in r[1][1]:
                    continue
                bad.append('task %d failed: %s: %s' % (i, r[1][0], r[1][1]))
            elif r[0] in ('died', 'aborted'):
                bad.append('task %d: %s' % (i, r[0]))
        if ex.livelock:
            bad.append('no termination')
        if self.reader:
            o = ex.results[n]
            if o[0] == 'exc':
                raise RuntimeError(o[1][3])
            if o[1][0] == 'read':
                bad += ['observer: ' + b for b in o[1][1:]]
        mpath = os.path.join(self.zd, 'my_zreds_master_table.fit')
        done = sorted(set(self.tasks)) == sorted(COARSE[:2] if self.data == 'two' else COARSE)
        files = sorted(os.path.basename(f) for f in glob.glob(self.zd + '/*')) if os.path.isdir(self.zd) else []
        out = [r[0] for r in res]
        if not killed:
            if done and not os.path.isfile(mpath):
                bad.append('all tasks finished but no zred table was published')
            if not done and os.path.isfile(mpath):
                bad.append('zred table published before all pixels were computed')
            stray = [f for f in files if not f.endswith('.fit')]
            if stray:
                bad.append('stray files: %s' % stray)
        if os.path.isfile(mpath):
            p = problems_of_master(self.zd, self.data)
            if p is None:
                if not killed:
                    bad.append('published zred table is unreadable')
            else:
                bad += p
        if killed and not bad:
            # the operator clears the stale locks and runs the missing pixels again
            for f in glob.glob(self.zd + '/*'):
                if not f.endswith('.fit'):
                    os.remove(f)
            for i, r in enumerate(res):
                if r[0] != 'done':
                    p = sched.execute([self.task(root, self.tasks[i])], root, [], self.interesting)
                    if p.results[0][0] != 'done':
                        bad.append('rerun of pixel task %d failed: %s' % (i, p.results[0]))
            p = problems_of_master(self.zd, self.data) if os.path.isfile(mpath) else ['absent']
            if p is None or p:
                bad.append('after a rerun of the dead task the zred table is %s' % ('unreadable' if p is None else p))
            out.append('rerun')
        return bad, (tuple(out), tuple(files), ex.results[n][1][0] if self.reader else '')


def body(check):
    setup()
    base = os.path.join(build.scratch(), 'c04')
    th = check.thorough
    only = lambda r: r.startswith('zout')   # noqa
    X, Y, Z = COARSE
    scen = [
        Zreds(name='2 tasks', tasks=[X, Y], pmax=3 if th else 2),
        Zreds(name='2 tasks, other order, path to be created', tasks=[Y, X], mkpath=True, pmax=2 if th else 1),
        Zreds(name='2 tasks with observer', tasks=[X, Y], reader=True, pmax=2 if th else 1),
        Zreds(name='3 tasks', data='three', tasks=[X, Y, Z], pmax=2 if th else 1),
        Zreds(name='1 of 2 tasks', tasks=[Y], pmax=0),
        Zreds(name='2 of 3 tasks', data='three', tasks=[X, Z], pmax=1),
        Zreds(name='same pixel twice', data='two', tasks=[X, X, Y], pmax=2 if th else 1),
        Zreds(name='task 0 dies', tasks=[X, Y], crash_ok=(0,), cmax=1, pmax=2 if th else 1),
    ]
    for s in scen:
        s.interesting = only
        sched.explore(check, s, base)
    check.extra['states'] = len(check.outcomes)
    check.extra['traces_validated_against_impl'] = check.extra.get('schedules', 0)


if __name__ == '__main__':
    core.main('C04', 'model_checking',
              'All schedules of the real zred pixel tasks in 1-3 real processes at file-operation granularity within the '
              'preemption and crash bounds, with an observer at every point; after a crash, stale locks are removed and '
              'the dead task is run again. Non-trivial: deviates from sequential execution.', body,
              assumptions=['file-system operations are atomic and immediately visible'])
