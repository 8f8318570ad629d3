"""C01: concurrent ingestion into one pixelized galaxy catalog."""
import glob
import os

import numpy as np

from mc import core, build, sched, gals as G

NSIDE = 8
PIXA, PIXB = 200, 333


def batches(spec):
    """spec: list per process of list of batches; a batch is a list of (pix, n)."""
    out = []
    nid = 1
    for pb in spec:
        bl = []
        for batch in pb:
            ras, decs, ids = [], [], []
            for pix, n in batch:
                ra, dec = G.pix_positions(NSIDE, pix, n, salt=nid)
                ras.append(ra)
                decs.append(dec)
                ids.append(np.arange(nid, nid + n))
                nid += n
            bl.append(G.make_gals(np.concatenate(ids), np.concatenate(ras), np.concatenate(decs)))
        out.append(bl)
    return out


class Ingest(sched.Scenario):
    genid = False
    outname = 'cat'
    dup = False
    reader = False
    finalizers = None
    finalize = True

    def start(self, root):
        from redmapper import GalaxyCatalogMaker
        self.outbase = os.path.join(root, self.outname)
        data = batches(self.spec)
        if self.dup:
            data[-1][-1]['id'][0] = data[0][0]['id'][0]
        self.data = data

        def proc(i):
            def f():
                maker = GalaxyCatalogMaker(self.outbase, dict(G.INFO), nside=NSIDE, parallel=True,
                                           generate_unique_ids=self.genid)
                acked = 0
                for b in data[i]:
                    maker.append_galaxies(b)
                    acked += 1
                    with open(os.path.join(root, 'ack%d' % i), 'w') as fh:
                        fh.write(str(acked))
                if self.finalize:
                    sched.barrier()
                    maker.finalize_catalog()
                return acked
            return f

        def reader():
            sched.barrier()
            sched.step('observe')
            master = self.outbase + '_master_table.fit'
            if not os.path.exists(master):
                return ('absent',)
            sched._child.busy = True
            try:
                try:
                    m = G.read_master(self.outbase)
                    px = G.read_pixel_files(self.outbase)
                except Exception as e:      # unreadable: loud for a user, not wrong
                    return ('unreadable', type(e).__name__)
                return ('read',) + tuple(self.consistent(m, px))
            finally:
                sched._child.busy = False
        fns = [proc(i) for i in range(len(data))]
        if self.reader:
            fns.append(reader)
        return fns

    @property
    def expected(self):
        e = {}
        for pb in self.data:
            for b in pb:
                import hpgeom as hpg
                pix = hpg.angle_to_pixel(NSIDE, b['ra'], b['dec'], nest=False)
                for p, g in zip(pix, b):
                    e.setdefault(int(p), []).append(g)
        return e

    def consistent(self, m, px):
        """Problems of a published summary."""
        bad = []
        exp = self.expected
        hp = [int(p) for p in np.atleast_1d(m['hpix'])]
        if sorted(hp) != sorted(exp):
            bad.append('published summary lists pixels %s, expected %s' % (hp, sorted(exp)))
            return bad
        for i, p in enumerate(hp):
            fn = np.atleast_1d(m['filenames'])[i]
            fn = fn.decode() if isinstance(fn, bytes) else str(fn)
            if fn.strip() != '%s_%07d.fit' % (os.path.basename(self.outbase), p):
                bad.append('summary names file %r for pixel %d' % (fn, p))
            if p not in px or int(np.atleast_1d(m['ngals'])[i]) != px[p].size:
                bad.append('summary count of pixel %d differs from its file' % p)
        ids = np.concatenate([px[p]['id'] for p in sorted(px)])
        if np.unique(ids).size != ids.size:
            bad.append('published catalog has duplicate ids')
        if self.genid and sorted(ids.tolist()) != list(range(1, ids.size + 1)):
            bad.append('published catalog does not have the generated ids')
        return bad

    def judge(self, root, ex):
        bad = []
        n = len(self.data)
        killed = [r[0] == 'killed' for r in ex.results[:n]]
        for i, r in enumerate(ex.results[:n]):
            if r[0] == 'exc':
                ok = (any(killed) and r[1][0] == 'RuntimeError' and 'lock' in r[1][1]) or \
                     (self.dup and r[1][0] == 'RuntimeError' and 'unique' in r[1][1])
                if not ok:
                    bad.append('process %d failed: %s: %s' % (i, r[1][0], r[1][1]))
            elif r[0] == 'died' or r[0] == 'aborted':
                bad.append('process %d died (%s)' % (i, r[0]))
        if ex.livelock:
            bad.append('no termination')
        if self.reader and ex.results[n][0] == 'done' and ex.results[n][1][0] == 'read':
            bad += ['observer: ' + b for b in ex.results[n][1][1:]]
        elif self.reader and ex.results[n][0] == 'exc':
            raise RuntimeError(ex.results[n][1][3])
        acked = []
        for i in range(n):
            p = os.path.join(root, 'ack%d' % i)
            s = open(p).read() if os.path.isfile(p) else ''
            acked.append(int(s or 0))
        # galaxies of acknowledged appends, and of attempted ones
        import hpgeom as hpg
        must, may = {}, {}
        for i, pb in enumerate(self.data):
            for j, b in enumerate(pb):
                pix = hpg.angle_to_pixel(NSIDE, b['ra'], b['dec'], nest=False)
                for p, g in zip(pix, b):
                    (must if j < acked[i] else may).setdefault(int(p), []).append(g)
        try:
            px = G.read_pixel_files(self.outbase)
        except Exception as e:
            px = None
            if not any(killed):
                bad.append('pixel file unreadable: %s' % e)
        if px is not None:
            for p in sorted(set(must) | set(may) | set(px)):
                rows = px.get(p)
                nrow = 0 if rows is None else rows.size
                if not any(killed) and not self.dup and nrow != len(must.get(p, [])):
                    bad.append('pixel %d has %d rows, %d galaxies were appended' % (p, nrow, len(must.get(p, []))))
                key = (lambda g: (float(g['ra']), float(g['dec']), float(g['refmag']), tuple(g['mag'].tolist()),
                                  tuple(g['mag_err'].tolist()), float(g['ebv']), float(g['refmag_err']),
                                  0 if self.genid else int(g['id'])))
                have = [] if rows is None else [key(r) for r in rows]
                for g in must.get(p, []):
                    c = have.count(key(g))
                    if c != 1:
                        bad.append('appended galaxy id %d of pixel %d is stored %d times' % (g['id'], p, c))
                        break
                allowed = set(map(key, must.get(p, []))) | set(map(key, may.get(p, [])))
                if not any(killed) or self.crash_before_finalize:
                    extra = [h for h in have if h not in allowed]
                    if extra:
                        bad.append('pixel %d holds %d rows nobody appended' % (p, len(extra)))
        master = os.path.isfile(self.outbase + '_master_table.fit')
        if self.finalize and not any(killed):
            if self.dup:
                if master:
                    bad.append('summary published for a catalog with duplicate ids')
                if not any(r[0] == 'exc' for r in ex.results[:n]):
                    bad.append('nobody was told about the duplicate ids')
            elif not master:
                bad.append('no summary although all processes finalized')
        if master and px is not None:
            try:
                m = G.read_master(self.outbase)
            except Exception as e:
                m = None
                if not any(killed):
                    bad.append('summary unreadable: %s' % e)
            if m is not None and not self.dup:
                bad += self.consistent(m, px)
        locks = glob.glob(os.path.join(root, '*.lock'))
        if not any(killed) and locks:
            bad.append('lock files remain: %s' % [os.path.basename(x) for x in locks])
        if not any(killed):
            known = ('ack', os.path.basename(self.outbase))
            left = [f for f in os.listdir(root) if not f.startswith(known)]
            if left:
                bad.append('stray files remain: %s' % left[:3])
        outcome = tuple(r[0] if r[0] != 'done' else 'done' for r in ex.results[:n]) + \
            (ex.results[n][1][0] if self.reader and ex.results[n][0] == 'done' else '', master, len(locks) > 0,
             tuple(sorted((p, tuple(r['id'].tolist())) for p, r in (px or {}).items())))
        return bad, outcome

    crash_before_finalize = True


def body(check):
    base = os.path.join(build.scratch(), 'c01')
    th = check.thorough
    A1, B1 = (PIXA, 1), (PIXB, 1)
    A2 = (PIXA, 2)
    notack = lambda r: not os.path.basename(r).startswith('ack')   # noqa
    scen = [
        Ingest(name='2 processes, 2 shared pixels, then finalize', spec=[[[A1, B1]], [[A2, B1]]],
               pmax=3 if th else 2),
        Ingest(name='3 processes, 1 shared pixel, no finalize', spec=[[[A1]], [[A1]], [[A2]]], finalize=False,
               pmax=3 if th else 2),
        Ingest(name='2 processes, 2 batches each, no finalize', spec=[[[A1], [A1]], [[A1], [A2]]], finalize=False,
               pmax=3 if th else 2),
        Ingest(name='generated ids, observer', spec=[[[A1, B1]], [[A2]]], genid=True, reader=True,
               pmax=2 if th else 1),
        Ingest(name='digits in the catalog name', spec=[[[A1]], [[B1]]], outname='cat_20200101_0000012', pmax=1),
        Ingest(name='duplicate ids across processes, observer', spec=[[[A1]], [[B1]]], dup=True, pmax=2 if th else 1),
        Ingest(name='process 0 dies, appends only', spec=[[[A1, B1], [A1]], [[A2], [B1]]], finalize=False,
               crash_ok=(0,), cmax=1, pmax=2 if th else 1),
        Ingest(name='process 0 dies while finalizing', spec=[[[A1]], [[B1]]], genid=True, crash_ok=(0,), cmax=1,
               pmax=1, crash_phase=1, crash_before_finalize=False),
    ]
    for s in scen:
        s.interesting = notack
        sched.explore(check, s, base)
    check.extra['states'] = check.extra['transitions']
    check.extra['traces_validated_against_impl'] = check.extra['schedules']


if __name__ == '__main__':
    core.main('C01', 'model_checking',
              'All schedules of the real ingestion code in 2-3 real processes at file-system-operation granularity, '
              'within the preemption and crash bounds listed under bounds; a schedule is non-trivial when it deviates '
              'from running the processes one after another.', body,
              assumptions=['file-system operations of one process are atomic and immediately visible to the others',
                           'all processes finish appending before any starts to finalize (a barrier, as the batch usage does)'])
