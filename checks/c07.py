"""C07: a run on pixels that is interrupted anywhere and restarted ends as if it had never stopped."""
import itertools
import os
import shutil
import sys
import traceback

import numpy as np

from mc import build, core, pipe, ref, rm, sched, stage

ZCORR = os.path.join(build.DATA, 'test_dr8_zlambdacorr.fit')
MODES = ('empty', 'half', 'block', 'after')


# ------------------------------------------------------------------ interruptions
class Injector:
    """Numbers the operations that change the file system below a directory, and ends the process at one of them."""

    def __init__(self, root, crash, log=None):
        self.root, self.crash, self.log, self.n, self.busy = root, crash, log, 0, False

    def mine(self, path):
        p = os.path.abspath(os.fsdecode(path))
        return p.startswith(self.root + os.sep)

    def event(self, kind, path):
        """Returns the torn mode in which to end the process after this operation, or None."""
        if self.busy or not self.mine(path):
            return None
        self.busy = True
        try:
            k = self.n
            self.n += 1
            if self.log is not None:
                self.log.append((kind, os.path.relpath(path, self.root)))
            if self.crash is not None and self.crash[0] == k:
                if self.crash[1] == 'before':
                    os._exit(77)
                return self.crash[1]
        finally:
            self.busy = False
        return None

    def install(self):
        W = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND

        def hook(event, args):
            if self.busy:
                return
            if event == 'open':
                if not isinstance(args[0], int) and args[0] is not None and args[2] & W:
                    self.event('open', args[0])
            elif event in ('os.link', 'os.symlink', 'os.rename'):
                self.event('rename', args[1])
            elif event in ('os.remove', 'os.mkdir', 'os.rmdir', 'os.truncate'):
                if isinstance(args[0], (str, bytes)):
                    self.event(event[3:], args[0])
        sys.addaudithook(hook)
        import fitsio
        import fitsio.fitslib
        Real = fitsio.fitslib.FITS
        inj = self

        class FITS(Real):
            def __init__(self, filename, mode='r', *a, **k):
                self._vp = None
                fn = str(filename).lstrip('!').split('[')[0]
                if mode not in (0, 'r'):
                    self._vp = fn
                b = inj.busy
                if mode not in (0, 'r') and inj.event('create', fn):
                    os._exit(78)
                inj.busy = True
                try:
                    Real.__init__(self, filename, mode, *a, **k)
                finally:
                    inj.busy = b

            def close(self):
                torn = None
                fn = getattr(self, '_vp', None)
                if fn is not None:
                    self._vp = None
                    torn = inj.event('write', fn)
                b, inj.busy = inj.busy, True
                try:
                    Real.close(self)
                    if torn:
                        size = os.path.getsize(fn)
                        cut = {'empty': 0, 'half': size // 2, 'block': max(0, size - 2880), 'after': size}[torn]
                        os.truncate(fn, cut)
                        os._exit(77)
                finally:
                    inj.busy = b
        fitsio.fitslib.FITS = FITS
        fitsio.FITS = FITS


def attempt(job, d, crash=None, want_log=False):
    """Runs job(d) in a child process.  Returns ('done'|'crashed'|'error: ...', events)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            os.close(r)
            log = [] if want_log else None
            sched.serial_pools(pickled=True)
            Injector(d, crash, log).install()
            try:
                with ref.fixed_random():
                    job(d)
                out = ('done', log)
                code = 0
            except Exception as e:
                out = ('raised %s: %s' % (type(e).__name__, str(e)[:160]) if core.in_code_under_test(e) else 'harness ' + traceback.format_exc(), log)
                code = 1
            import pickle
            os.write(w, pickle.dumps(out)[:60000])
        finally:
            os._exit(code)
    os.close(w)
    data = b''
    while True:
        x = os.read(r, 65536)
        if not x:
            break
        data += x
    os.close(r)
    _, st = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(st)
    if code == 77:
        return 'crashed', None
    if code in (0, 1):
        import pickle
        res = pickle.loads(data)
        if res[0].startswith('harness'):
            raise core.HarnessError(res[0])
        return res
    raise core.HarnessError('child ended with %s' % code)


# ------------------------------------------------------------------ worlds
SEEDS = {'few': (0, 3, 7), 'more': (0, 1, 3, 4, 7, 11, 9), 'one': (13,), 'two': (3, 11)}


def write_seeds(path, spec):
    import fitsio
    rows = []
    if spec == 'nozred':
        rows = [dict(i=0, zred=0.9), dict(i=3, zred=0.01)]
    elif spec == 'faint':
        rows = [dict(i=0, refmag=21.9), dict(i=3, refmag=21.9)]
    else:
        rows = [dict(i=i, zspec=pipe.POOL[i][2]) for i in SEEDS[spec]]
    fitsio.write(path, stage.seeds_from(rows), clobber=True)
    return path


def rand_file():
    """Random points in pixels, made once."""
    if 'rand' not in _S:
        import fitsio
        from redmapper.randoms import RandomCatalogMaker
        d = rm.workdir('c07rand')
        a = np.zeros(len(pipe.POOL), dtype=[('ra', 'f8'), ('dec', 'f8'), ('id', 'i8'), ('z', 'f4'), ('lambda', 'f4'), ('id_input', 'i4')])
        for k, (ra, dec, z, lam) in enumerate(pipe.POOL):
            a[k] = (ra, dec, k + 1, z, lam, 100 + k)
        m = RandomCatalogMaker(os.path.join(d, 'rand'), {}, nside=128)
        m.append_randoms(a)
        m.finalize_catalog()
        _S['rand'] = m.filename
    return _S['rand']


_S = {}


def options(d, case):
    p, n = pipe.shared_maskgals()
    kw = dict(maskgalfile=p, maskgal_ngals=n, maskgal_nsamples=1, outbase=case.get('base', 't'), outpath=os.path.join(d, case.get('sub', 'out')), border=0.0,
              zredfile=build.DATA + '/zreds_test/dr8_test_zreds_master_table.fit', zlambdafile=ZCORR, calib_run_nproc=case.get('nproc', 2))
    kw.update(case.get('over', {}))
    return kw


def prepare(d, case):
    """Inputs in d/in, the outputs go to d/out."""
    os.makedirs(os.path.join(d, 'in'))
    kw = options(d, case)
    conf0 = pipe.world().conf
    if 'seeds' in case:
        kw['seedfile'] = write_seeds(os.path.join(d, 'in', 'seeds.fit'), case['seeds'])
    if 'cat' in case:
        rows = [dict(ra=pipe.POOL[i][0], dec=pipe.POOL[i][1], z=pipe.POOL[i][2], Lambda=pipe.POOL[i][3], lnlike=10.0 + i) for i in case['cat']]
        kw['catfile'] = pipe.write_candidates(os.path.join(d, 'in', 'cat.fit'), conf0, rows)
    if case['what'] == 'zmask':
        kw['randfile'] = rand_file()
    if case['what'] == 'zscan':
        kw.setdefault('zscan_zstep', 0.05)
    return rm.write_config(os.path.join(d, 'in', 'c.yml'), **kw)


def job_of(case):
    def job(d):
        from redmapper import Configuration, RedmapperRun
        import redmapper.pipeline as pl
        cf = os.path.join(d, 'in', 'c.yml')
        if case['what'] == 'run':
            conf = rm.quiet(Configuration(cf))
            conf.d.hpix = [pipe.HPIX]
            conf.d.nside = pipe.NSIDE
            return RedmapperRun(conf).run(**case.get('kw', {}))
        cls = {'finder': pl.RunRedmapperPixelTask, 'runcat': pl.RuncatPixelTask, 'zmask': pl.RunZmaskPixelTask, 'zscan': pl.RunZScanPixelTask}[case['what']]
        t = cls(cf, case.get('pixel', pipe.HPIX), case.get('nside', pipe.NSIDE))
        rm.quiet(t.config)
        t.run()
    return job


# ------------------------------------------------------------------ what the run has to leave behind
def load(path):
    import fitsio
    try:
        with fitsio.FITS(path) as f:
            return [h.read(lower=True) for h in f[1:]]
    except Exception as e:      # a torn file
        return 'unreadable'


def same(a, b):
    if isinstance(a, str) or isinstance(b, str) or len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x.dtype != y.dtype or x.shape != y.shape:
            return False
        for n in x.dtype.names:
            if not np.array_equal(x[n], y[n], equal_nan=x[n].dtype.kind == 'f'):
                return False
    return True


def outputs(d, case):
    o = os.path.join(d, case.get('sub', 'out'))
    return sorted(os.path.join(r, f) for r, _, fs in os.walk(o) for f in fs if f.endswith('.fit') and not f.startswith('.')) if os.path.isdir(o) else []


def by_hand(d, case):
    """The same stages called one after the other, without the task; {name: arrays}."""
    import fitsio
    from redmapper import Configuration, RunFirstPass, RunLikelihoods, RunPercolation, RunCatalog, RunZScan, RunRandomsZmask
    cf = os.path.join(d, 'in', 'c.yml')
    out = {}

    def chain(conf, steps, prefix):
        for cls, members, ckw, rkw in steps:
            with ref.fixed_random():
                r = cls(conf, **ckw)
                r.run(**rkw)
            if r.cat is None or r.cat.size == 0:
                return
            name = '%s_%s_catalog' % (prefix, r.filetype)
            f = os.path.join(d, 'ref_' + name + '.fit')
            fitsio.write(f, np.atleast_1d(r.cat._ndarray), clobber=True)
            out[name + '.fit'] = load(f)
            conf.catfile = f
            if members:
                g = os.path.join(d, 'ref_' + name + '_members.fit')
                fitsio.write(g, np.atleast_1d(r.members._ndarray), clobber=True)
                out[name + '_members.fit'] = load(g)
    if case['what'] != 'run':
        conf = rm.quiet(Configuration(cf))
        conf.border = conf.compute_border()
        conf.d.hpix = [case.get('pixel', pipe.HPIX)]
        conf.d.nside = case.get('nside', pipe.NSIDE)
        steps = {'finder': [(RunFirstPass, False, {}, {}), (RunLikelihoods, False, {}, {}), (RunPercolation, True, {}, {})],
                 'runcat': [(RunCatalog, True, {}, dict(do_percolation_masking=conf.runcat_percolation_masking))],
                 'zscan': [(RunZScan, True, {}, {})], 'zmask': [(RunRandomsZmask, False, {}, {})]}[case['what']]
        chain(conf, steps, '%s_%d_%05d' % (case.get('base', 't'), conf.d.nside, conf.d.hpix[0]))
        return out
    # the local run: its own choice of pixels is checked elsewhere, here the results of each and the merged catalogs
    import hpgeom as hpg
    kw = dict(specmode=False, keepz=False, cleaninput=False, percolation_only=False, consolidate_like=False, consolidate=True)
    kw.update({k: v for k, v in case.get('kw', {}).items() if k in kw})
    conf0 = rm.quiet(Configuration(cf))
    nside = case['split']
    kids = [p for p in range(12 * nside * nside) if hpg.angle_to_pixel(pipe.NSIDE, *hpg.pixel_to_angle(nside, p, nest=False), nest=False) == pipe.HPIX] \
        if nside >= pipe.NSIDE else None
    finals, likes = [], []
    base = case.get('base', 't')
    for p in kids:
        conf = rm.quiet(Configuration(cf))
        conf.d.hpix = [p]
        conf.d.nside = nside
        k = dict(keepz=kw['keepz'], cleaninput=kw['cleaninput'])
        if kw['percolation_only']:
            steps = [(RunPercolation, True, {}, k)]
        else:
            steps = [(RunFirstPass, False, dict(specmode=kw['specmode']), k), (RunLikelihoods, False, {}, dict(keepz=kw['keepz'])),
                     (RunPercolation, True, {}, dict(keepz=kw['keepz']))]
        pre = '%s_%d_%05d' % (base, nside, p)
        chain(conf, steps, pre)
        for lst, t in ((finals, 'final'), (likes, 'like')):
            if pre + '_%s_catalog.fit' % t in out:
                lst.append((p, out[pre + '_%s_catalog.fit' % t][0], out.get(pre + '_%s_catalog_members.fit' % t, [None])[0]))
    if kw['consolidate']:
        out[base + '_final.fit'] = [merged(conf0, nside, finals, True)]
        out[base + '_final_members.fit'] = None
    if kw['consolidate_like']:
        out[base + '_like.fit'] = [merged(conf0, nside, likes, False)]
    _S['finals'] = finals
    return out


def merged(conf, nside, files, sort):
    import hpgeom as hpg
    rows = []
    for p, cat, mem in files:
        for r in cat:
            if (hpg.angle_to_pixel(nside, r['ra'], r['dec'], nest=False) == p and r['maskfrac'] < conf.max_maskfrac and
                    r['lambda'] / r['scaleval'] > conf.percolation_minlambda):
                rows.append((r, p, mem[mem['mem_match_id'] == r['mem_match_id']] if mem is not None else None))
    if sort:
        rows.sort(key=lambda x: -x[0]['lnlike'])
    return rows


def compare_merged(cat, mem, rows, bad, name):
    """Merged catalog: the rows of the pixels, new identifiers in likelihood order, and the members of each."""
    if len(cat) != len(rows):
        bad.append('%s has %d clusters, %d of the pixels qualify' % (name, len(cat), len(rows)))
        return
    nm = 0
    for k, (r, p, m) in enumerate(rows):
        for n in r.dtype.names:
            if n == 'mem_match_id' and m is not None:
                if cat[n][k] != k + 1:
                    bad.append('%s: identifier %d of the cluster of rank %d' % (name, cat[n][k], k + 1))
                continue
            if not np.array_equal(cat[n][k], r[n], equal_nan=r[n].dtype.kind == 'f'):
                bad.append('%s: %s of cluster %d of pixel %d changed' % (name, n, k, p))
                break
        if m is not None:
            got = mem[mem['mem_match_id'] == k + 1]
            nm += len(m)
            a, b = np.sort(got['id']), np.sort(m['id'])
            if not np.array_equal(a, b):
                bad.append('%s: members of cluster %d of pixel %d: %d, expected %d' % (name, k, p, len(a), len(b)))
            else:
                x, y = got[np.argsort(got['id'])], m[np.argsort(m['id'])]
                if not all(np.array_equal(x[n], y[n], equal_nan=x[n].dtype.kind == 'f') for n in x.dtype.names if n != 'mem_match_id'):
                    bad.append('%s: values of the members of cluster %d changed' % (name, k))
    if mem is not None and nm != len(mem):
        bad.append('%s: %d members, %d belong to the clusters' % (name, len(mem), nm))


# ------------------------------------------------------------------ checks
def state(d, case):
    return {f: (os.stat(f).st_ino, os.stat(f).st_mtime_ns, os.stat(f).st_size) for f in outputs(d, case)}


def plain(case):
    """The uninterrupted run against the stages by hand; a second run then changes nothing."""
    d = rm.workdir('c07')
    try:
        prepare(d, case)
        job = job_of(case)
        bad = []
        res, log = attempt(job, d, want_log=True)
        if res != 'done':
            return ['run on a pixel: ' + res], 'failed', True
        want = by_hand(d, case)
        got = {os.path.basename(f): f for f in outputs(d, case)}
        for n in sorted(set(got) - set(want)):
            bad.append('%s was written, but the stages give no such file' % n)
        for n in sorted(set(want) - set(got)):
            bad.append('%s is missing' % n)
        if not bad:
            for n, w in sorted(want.items()):
                if case['what'] == 'run' and n.count('_') <= case.get('base', 't').count('_') + 2 and '_catalog' not in n:
                    if n.endswith('_members.fit'):
                        continue
                    g = load(got[n])[0]
                    m = load(got[n[:-4] + '_members.fit'])[0] if n.endswith('_final.fit') else None
                    compare_merged(g, m, w[0], bad, n)
                elif not same(load(got[n]), w):
                    bad.append('%s differs from the result of the stage' % n)
        st = state(d, case)
        res2, _ = attempt(job, d)
        if res2 != 'done':
            bad.append('second run: ' + res2)
        elif case.get('kw', {}).get('check', True) and state(d, case) != st:
            bad.append('running again on a complete directory changed %s' % sorted(os.path.basename(f) for f in set(st) ^ set(state(d, case)) or [f for f in st if state(d, case).get(f) != st[f]]))
        n = sum(len(load(f)[0]) for f in got.values())
        return bad[:4], (len(got), n), bool(got) or bool(case.get('none'))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def template(case):
    """Names, arrays and events of an uninterrupted run (cached)."""
    key = repr(sorted((k, repr(v)) for k, v in case.items()))
    if key not in _S:
        d = rm.workdir('c07t')
        try:
            prepare(d, case)
            res, log = attempt(job_of(case), d, want_log=True)
            _S[key] = (res, {os.path.relpath(f, d): load(f) for f in outputs(d, case)}, log)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return _S[key]


DONE = {'finder': 'final_catalog', 'runcat': 'lambda_chisq_catalog', 'zscan': 'zscan_catalog', 'zmask': 'randoms_zmask_catalog', 'run': 't_final'}


def crash(arg):
    """End the process at each listed point in turn, start again, and compare."""
    case, points = arg['case'], [tuple(p) for p in arg['points']]
    res, want, log = template(case)
    if res != 'done':
        return ['run on a pixel: ' + res], 'failed', True
    d = rm.workdir('c07c')
    try:
        prepare(d, case)
        job = job_of(case)
        bad = []
        where = []
        for p in points:
            before = state(d, case)
            r, _ = attempt(job, d, crash=p)
            if r == 'done':
                where.append('end')
                break
            if r != 'crashed':
                return ['restarted after an interruption at %s: %s' % (where, r)], 'failed', True
            where.append(p)
            now = state(d, case)
            for f, s in before.items():
                if now.get(f) != s:
                    bad.append('interrupted again at %s: the complete file %s was written again' % (p, os.path.basename(f)))
            for f in now:
                n = os.path.relpath(f, d)
                if n not in want:
                    bad.append('interrupted at %s: unknown file %s' % (p, n))
                elif not same(load(f), want[n]) and not n.endswith('_members.fit'):
                    bad.append('interrupted at %s: %s is there but not complete' % (p, n))
                elif not n.endswith('_members.fit'):
                    m = n[:-4] + '_members.fit'
                    if m in want and (os.path.join(d, m) not in now or not same(load(os.path.join(d, m)), want[m])):
                        bad.append('interrupted at %s: %s is there without its members' % (p, n))
        if case['what'] == 'run' and 'out/t_like.fit' in want and os.path.join(d, 'out', 't_final.fit') in state(d, case) \
                and not same(load(os.path.join(d, 'out', 't_like.fit')), want['out/t_like.fit']):
            bad.append('interrupted at %s: the final catalog is there, which stands for the whole run, but the likelihoods are not' % (where,))
        before = state(d, case)
        complete = {f: s for f, s in before.items() if same(load(f), want.get(os.path.relpath(f, d), 'x'))
                    and os.path.basename(f).endswith('_catalog.fit')}
        r, _ = attempt(job, d)
        if r != 'done':
            return bad[:2] + ['restarted after an interruption at %s: %s' % (where, r)], 'failed', True
        now = state(d, case)
        got = {os.path.relpath(f, d) for f in now}
        if got != set(want):
            bad.append('after an interruption at %s and a restart: files %s' % (where, sorted(got ^ set(want))))
        for f in now:
            n = os.path.relpath(f, d)
            if n in want and not same(load(f), want[n]):
                bad.append('after an interruption at %s and a restart: %s differs from that of a run without interruption' % (where, n))
        for f, s in complete.items():
            if now.get(f) != s:
                bad.append('restart after %s: the complete file %s was computed again' % (where, os.path.basename(f)))
        return bad[:4], (case['what'], len(before), len(complete)), where != ['end']
    finally:
        shutil.rmtree(d, ignore_errors=True)


def points_of(case):
    res, want, log = template(case)
    if res != 'done':
        return [(0, 'before')]
    out = []
    for k, (kind, path) in enumerate(log):
        out.append((k, 'before'))
        if kind == 'write':
            out += [(k, m) for m in MODES]
    return out


def cdtype(conf):
    from redmapper import ClusterCatalog
    return ClusterCatalog.zeros(1, config=conf)._ndarray.dtype


CL = {'in': (0, 0.0, 20.0, 1.0), 'other': (1, 0.0, 20.0, 1.0), 'far': (None, 0.0, 20.0, 1.0), 'masked': (0, 0.3, 20.0, 1.0), 'poor': (0, 0.0, 4.0, 1.0),
      'scaled': (0, 0.0, 8.0, 2.0), 'ok2': (0, 0.1, 12.0, 2.0)}


def merging(case):
    """The merged catalogs of a local run whose pixels are all done already: {pixel: [(kind, lnlike, members)]}."""
    import fitsio
    import hpgeom as hpg
    files, like, idorder = case['files'], case['like'], case.get('ids', 'up')
    d = rm.workdir('c07m')
    try:
        c = dict(what='run', kw=dict(specmode=False, keepz=False, consolidate_like=like), split=128,
                 over=dict(percolation_minlambda=5.0, max_maskfrac=0.2))
        prepare(d, c)
        o = os.path.join(d, 'out')
        os.makedirs(o)
        kids = [hp128(k) for k in range(4)]
        if 'dtype' not in _S:
            _S['dtype'] = cdtype(pipe.world().conf)
        finals = []
        tag = 0
        for k, p in enumerate(kids):
            rows = files[k] if k < len(files) else []
            spec = rows or [['far', 1.0, 1]]
            cat = np.zeros(len(spec), dtype=_S['dtype'])
            mem = []
            ids = list(range(1, len(spec) + 1))
            if idorder == 'down':
                ids = ids[::-1]
            elif idorder == 'gap':
                ids = [3 * i + 2 for i in ids]
            for j, (kind, lnl, nm) in enumerate(spec):
                off, mf, lam, sc = CL[kind]
                q = kids[(k + off) % 4] if off is not None else kids[0]
                ra, dec = hpg.pixel_to_angle(128, q, nest=False)
                if off is None:
                    ra += 20.0
                tag += 1
                cat[j]['ra'], cat[j]['dec'] = ra + 0.001 * tag, dec
                cat[j]['maskfrac'], cat[j]['lambda'], cat[j]['scaleval'], cat[j]['lnlike'], cat[j]['mem_match_id'] = mf, lam, sc, lnl, ids[j]
                for i in range(nm):
                    mem.append((ids[j], 1000 * tag + i, ra, dec))
            if not mem:
                return [], 'none', False        # a percolated cluster has members
            order = range(len(mem)) if idorder != 'down' else range(len(mem))[::-1]
            mem = np.array([mem[i] for i in order], dtype=[('mem_match_id', 'i4'), ('id', 'i8'), ('ra', 'f8'), ('dec', 'f8')])
            for t in ('firstpass', 'like', 'final'):
                fitsio.write(os.path.join(o, 't_128_%05d_%s_catalog.fit' % (p, t)), cat, clobber=True)
            fitsio.write(os.path.join(o, 't_128_%05d_final_catalog_members.fit' % p), mem, clobber=True)
            cat = fitsio.read(os.path.join(o, 't_128_%05d_final_catalog.fit' % p), ext=1, lower=True)
            finals.append((p, cat, mem))
        conf = pipe.world().conf
        class C:
            max_maskfrac, percolation_minlambda = 0.2, 5.0
        rows = merged(C, 128, finals, True)
        if not rows:
            return [], 'none', False
        st = state(d, c)
        r, _ = attempt(job_of(c), d)
        if r != 'done':
            return ['merging: ' + r], 'failed', True
        bad = []
        for f, s in st.items():
            if state(d, c).get(f) != s:
                bad.append('merging wrote the pixel file %s' % os.path.basename(f))
        f = load(os.path.join(o, 't_final.fit'))[0]
        m = load(os.path.join(o, 't_final_members.fit'))[0]
        if len(set(x[0]['lnlike'] for x in rows)) == len(rows):
            compare_merged(f, m, rows, bad, 'final')
        else:
            # equal likelihoods: any order among them
            if (np.diff(f['lnlike']) > 0).any():
                bad.append('final catalog not in the order of likelihood')
            pos = {float(x[0]['ra']): x for x in rows}
            rows2 = [pos.get(float(v)) for v in f['ra']]
            if None in rows2:
                bad.append('unknown cluster in the final catalog')
            else:
                compare_merged(f, m, rows2 if len(set(f['ra'])) == len(rows) else rows, bad, 'final')
        if like:
            l = load(os.path.join(o, 't_like.fit'))[0]
            compare_merged(l, None, merged(C, 128, [(p, a, None) for p, a, b in finals], False), bad, 'like')
        elif os.path.exists(os.path.join(o, 't_like.fit')):
            bad.append('likelihood file not asked for')
        return bad[:4], (len(rows), len(m)), True
    finally:
        shutil.rmtree(d, ignore_errors=True)


def end_to_end(case):
    """Pixel tasks, and then the consolidation, which has to find what they wrote."""
    import hpgeom as hpg
    from redmapper.pipeline import RedmapperConsolidateTask, RuncatConsolidateTask
    d = rm.workdir('c07e')
    try:
        cf = prepare(d, case)
        o = os.path.join(d, 'out')
        want = []
        for k in range(4):
            c = dict(case, nside=128, pixel=hp128(k))
            r, _ = attempt(job_of(c), d)
            if r != 'done':
                return ['pixel task: ' + r], 'failed', True
            f = os.path.join(o, 't_128_%05d_%s.fit' % (hp128(k), DONE[case['what']]))
            if os.path.isfile(f):
                cat = load(f)[0]
                want += [(round(float(x['ra']), 8), round(float(x['dec']), 8)) for x in cat if hpg.angle_to_pixel(128, x['ra'], x['dec'], nest=False) == hp128(k)
                         and (case['what'] != 'finder' or (x['maskfrac'] < 0.2 and x['lambda'] / x['scaleval'] > 5))]

        def job(d):
            if case['what'] == 'finder':
                t = RedmapperConsolidateTask(cf, lambda_cuts=[5.0])
                rm.quiet(t.config)
                t.run(do_plots=False, match_spec=False)
            else:
                t = RuncatConsolidateTask(cf)
                rm.quiet(t.config)
                kw = dict(do_plots=False, match_spec=False)
                if case['what'] == 'zmask':
                    kw.update(consolidate_members=False, cattype='randoms_zmask')
                elif case['what'] == 'zscan':
                    kw.update(cattype='zscan')
                t.run(**kw)
        r, _ = attempt(job, d)
        if r != 'done':
            return ['consolidation of the pixels: ' + r], 'failed', True
        got = [f for f in outputs(d, case) if '_redmapper_v' in f and f.endswith('_catalog.fit')]
        if len(got) != 1:
            return ['consolidation wrote %s' % [os.path.basename(f) for f in got]], 'files', True
        cat = load(got[0])[0]
        have = sorted((round(float(x['ra']), 8), round(float(x['dec']), 8)) for x in cat)
        bad = [] if have == sorted(want) else ['consolidated catalog has %d clusters, the pixels %d' % (len(have), len(want))]
        return bad, len(want), len(want) > 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


def splits(case):
    """Pixels of the local run: together they hold every galaxy pixel of the region once, and nothing else."""
    import fitsio
    import hpgeom as hpg
    from redmapper import Configuration, RedmapperRun
    tn, th, dn, dh, nproc, mn = case
    d = rm.workdir('c07s')
    try:
        key = 'splitconf'
        if key not in _S:
            dd = rm.workdir('c07sc')
            _S[key] = rm.write_config(os.path.join(dd, 'c.yml'), **options(dd, {}))
        conf = rm.quiet(Configuration(_S[key]))
        f = os.path.join(d, 'g_master_table.fit')
        a = fitsio.read(conf.galfile, ext=1)
        dt = [(n, a.dtype[n].str) if a.dtype[n].subdtype is None else (n, a.dtype[n].subdtype[0].str, (len(th),) if a.dtype[n].shape == (16,) else a.dtype[n].shape) for n in a.dtype.names]
        b = np.zeros(1, dtype=dt)
        for n in b.dtype.names:
            if n == 'NSIDE':
                b[n] = tn
            elif n == 'HPIX':
                b[n][0] = th
            elif b.dtype[n].shape == (len(th),) and a.dtype[n].shape == (16,):
                b[n][0] = a[n][0][:1]
            else:
                b[n] = a[n]
        fitsio.write(f, b, clobber=True)
        conf.galfile = f
        conf.d.nside, conf.d.hpix = dn, list(dh)
        conf.calib_run_nproc, conf.calib_run_min_nside = nproc, mn
        ns, pix = RedmapperRun(conf)._get_pixel_splits()
        pix = [int(p) for p in pix]
        bad = []
        if len(set(pix)) != len(pix):
            bad.append('a pixel is run twice: %s' % pix)
        fine = max(ns, tn, dn, 1) * 2
        def at(n, x):
            return hpg.angle_to_pixel(n, *hpg.pixel_to_angle(fine, x, nest=True), nest=False)
        allp = np.arange(12 * fine * fine)
        need = np.isin(at(tn, allp), th)
        if len(dh):
            need &= np.isin(at(dn, allp), dh)
        have = np.isin(at(ns, allp), pix)
        miss = need & ~have
        if miss.any():
            bad.append('%.1f%% of the area with galaxies is in none of the pixels (nside %d: %s)' % (100. * miss.sum() / need.sum(), ns, pix[:8]))
        if len(dh) and (have & ~np.isin(at(dn, allp), dh)).any():
            bad.append('pixels (nside %d: %s) outside of the region' % (ns, pix[:8]))
        for p in pix:
            if not need[at(ns, allp) == p].any():
                bad.append('pixel %d of nside %d has no galaxies' % (p, ns))
        if nproc > 1 and len(pix) > 2 * nproc and ns > max(dn, mn):
            bad.append('%d pixels for %d processes' % (len(pix), nproc))
        return bad[:3], (ns, len(pix)), len(pix) > 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


def body(check):
    import hpgeom as hpg
    pipe.setup()
    rand_file()
    th = check.thorough
    f = dict(what='finder', seeds='few')
    perc = dict(percolation_only=True, keepz=True, cleaninput=True)
    spec = dict(specmode=True, keepz=True, consolidate_like=True, cleaninput=True)
    base = [f, dict(f, seeds='more'), dict(f, seeds='nozred', none=1), dict(f, seeds='faint', none=1), dict(f, over=dict(percolation_minlambda=500.0, likelihoods_minlambda=500.0), none=1),
            dict(f, over=dict(percolation_minlambda=500.0), none=1), dict(f, pixel=2164, none=1), dict(f, base='x_7'), dict(f, sub='o.fit_dir', seeds='two'), dict(f, nside=128, pixel=8518 if False else hp128(3), seeds='more'),
            dict(what='runcat', cat=(0, 3, 7)), dict(what='runcat', cat=(0, 1, 3, 4, 5), over=dict(runcat_percolation_masking=True)), dict(what='runcat', cat=(13,), sub='deep/er'),
            dict(what='zscan', cat=(0, 7)), dict(what='zmask'), dict(what='zmask', nside=128, pixel=hp128(0)),
            dict(what='run', seeds='more', split=128), dict(what='run', seeds='more', split=128, kw=spec), dict(what='run', seeds='more', split=64, nproc=1, kw=spec),
            dict(what='run', cat=(0, 3, 7, 11), split=128, kw=perc), dict(what='run', seeds='one', split=128, kw=dict(consolidate_like=True)),
            dict(what='run', seeds='few', split=128, kw=dict(consolidate=False)), dict(what='run', seeds='few', split=128, kw=dict(check=False)), dict(what='run', seeds='more', split=128, sub='o.fit_dir', kw=spec)]
    check.run_cases(base, plain, 'stages of a pixel', chunk=1)
    crashed = [f, dict(what='runcat', cat=(0, 3)), dict(what='zscan', cat=(0,)), dict(what='zmask'), dict(what='run', seeds='two', split=128, kw=spec), dict(what='run', cat=(0, 11), split=128, kw=perc)]
    cases = []
    if check.replay is None:
        for c in crashed:
            pts = points_of(c)
            cases += [dict(case=c, points=[p]) for p in pts]
            check.extra['crash points of %s%s' % (c['what'], '/perc' if 'kw' in c and c['kw'] is perc else '')] = len(pts)
            if th and c['what'] != 'run':
                cases += [dict(case=c, points=[p, (j, m)]) for p in pts for j in range(0, 40) for m in ('before', 'half')]
    check.run_cases(cases, crash, 'interruptions', chunk=2)
    cases = []
    for tn in (1, 2, 4, 8) + ((16,) if th else ()):
        base4 = [0] if tn == 1 else [int(p) for p in np.unique(at_children(tn))]
        sets = [base4[:1], base4[-1:], base4[::2], base4, [0, 12 * tn * tn - 1]]
        for s in sets:
            for dn, dh in [(0, ()), (1, (0,)), (1, (0, 4)), (2, (0,)), (2, (1, 4, 9)), (4, (0, 1)), (4, tuple(range(12))), (8, (3, 5))]:
                for nproc in (1, 2, 3, 8):
                    for mn in (1, 2, 4):
                        if max(dn, mn if nproc > 1 else 0) > tn:
                            continue        # finer than the galaxy files: the stages refuse that
                        cases.append((tn, tuple(sorted(set(s))), dn, dh, nproc, mn))
    check.run_cases(cases, splits, 'choice of pixels')
    check.run_cases([dict(what='finder', seeds='more', over=dict(percolation_minlambda=5.0, max_maskfrac=0.2, consolidate_vlim_lstars=[])), dict(what='runcat', cat=(0, 3, 7, 11, 13)),
                     dict(what='zscan', cat=(0, 7, 11)), dict(what='zmask')], end_to_end, 'pixels and consolidation', chunk=1)
    kinds = [[k, l, n] for k in CL for l, n in ((5.0, 1),)] + [['in', 9.0, 2], ['in', 7.0, 0], ['ok2', 5.0, 2]]
    one = [[k] for k in kinds]
    two = [[a, [b[0], lb, b[2]]] for a in kinds for b in kinds[:4] + kinds[-3:] for lb in (5.0, 8.0)]
    cases = []
    some = [[], [['in', 6.0, 2]], [['other', 6.5, 1], ['in', 4.0, 1]], [['masked', 6.0, 1]]]
    for a in one + two:
        for b in some if th else some[1:3]:
            cases.append(dict(files=[a, b], like=False))
    for a in one:
        for b in one:
            for c in (some if th else some[:2]):
                cases.append(dict(files=[a, b, c], like=True, ids='down'))
    for a in two[::3 if not th else 1]:
        for i in ('down', 'gap'):
            cases.append(dict(files=[[], a, some[2], [['in', 5.5, 1]]], like=True, ids=i))
    check.run_cases(cases, merging, 'merging pixels')


def at_children(tn):
    import hpgeom as hpg
    return [hpg.angle_to_pixel(tn, *hpg.pixel_to_angle(8, p, nest=True), nest=False) for p in range(64)]


def hp128(k):
    import hpgeom as hpg
    kids = sorted(p for p in range(8000, 10000) if hpg.angle_to_pixel(64, *hpg.pixel_to_angle(128, p, nest=False), nest=False) == pipe.HPIX)
    return int(kids[k])


if __name__ == '__main__':
    core.main('C07', 'bounded-exhaustive',
              'every stage file of a pixel run compared with the stages called by hand; every crash point of the enumerated runs; every enumerated choice of pixels',
              body)
