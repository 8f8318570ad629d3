"""C08: consolidation of pixel catalogs: every cluster in exactly the files it belongs to, with one identifier and its own members."""
import glob
import itertools
import os
import shutil

import numpy as np

from mc import core, rm

NSIDE = 4
PIX = (70, 71, 86)
ARCSEC = 1. / 3600.

# cluster: (where, maskfrac, Lambda, z_lambda, scaleval, lnlamlike, nmem)
WHERE = ('in', 'in2', 'other', 'far')


def position(pix, where):
    import hpgeom as hpg
    ra, dec = hpg.pixel_to_angle(NSIDE, pix, nest=False)
    if where == 'in':
        return float(ra), float(dec)
    if where == 'in2':
        return float(ra) + 1.5, float(dec) - 0.7
    if where == 'other':
        o = PIX[(PIX.index(pix) + 1) % len(PIX)]
        r, d = hpg.pixel_to_angle(NSIDE, o, nest=False)
        return float(r) + 0.5, float(d)
    return float(ra) + 40.0, float(dec) - 60.0


def inside(pix, ra, dec):
    import hpgeom as hpg
    return int(hpg.angle_to_pixel(NSIDE, ra, dec, nest=False)) == pix


class World:
    """Pixel catalogs described by lists of clusters; writes the files and keeps the rows."""

    def __init__(self, files, spread=True):
        self.files = []
        tag = 0
        for pix, rows in files:
            cl, mem = [], []
            ids = list(range(1, len(rows) + 1))
            if spread:
                ids = [3 * len(rows) - 2 * i for i in range(len(rows))]      # unordered ids
            for i, (where, maskfrac, lam, z, scale, like, nmem) in enumerate(rows):
                tag += 1
                ra, dec = position(pix, where)
                ra = (ra + 0.03 * (i % 30)) % 360.
                dec += 0.03 * (i // 30)
                cl.append(dict(tag=tag, mem_match_id=ids[i], ra=ra, dec=dec, maskfrac=maskfrac, lam=lam, z=z, scale=scale, like=like, pix=pix))
                for k in range(nmem):
                    mem.append(dict(tag=1000 * tag + k, ctag=tag, mem_match_id=ids[i], ra=ra + 0.001 * (k + 1), dec=dec, pmem=0.25 + 0.125 * k))
            mem = mem[::2] + mem[1::2]              # members of different clusters interleave
            self.files.append((pix, cl, mem))

    def write(self, d, base, suffix, members=True):
        from redmapper import ClusterCatalog, GalaxyCatalog
        for pix, cl, mem in self.files:
            a = np.zeros(len(cl), dtype=[('mem_match_id', 'i4'), ('ra', 'f8'), ('dec', 'f8'), ('lambda', 'f4'), ('maskfrac', 'f4'), ('z_lambda', 'f4'),
                                         ('scaleval', 'f4'), ('lnlamlike', 'f4'), ('cg_spec_z', 'f4'), ('tag', 'i8')])
            for i, c in enumerate(cl):
                a[i] = (c['mem_match_id'], c['ra'], c['dec'], c['lam'], c['maskfrac'], c['z'], c['scale'], c['like'], 0.77, c['tag'])
            m = np.zeros(len(mem), dtype=[('mem_match_id', 'i4'), ('ra', 'f8'), ('dec', 'f8'), ('pmem', 'f4'), ('zspec', 'f4'), ('tag', 'i8')])
            for i, g in enumerate(mem):
                m[i] = (g['mem_match_id'], g['ra'], g['dec'], g['pmem'], 0.88, g['tag'])
            stem = os.path.join(d, '%s_%d_%05d_%s_catalog' % (base, NSIDE, pix, suffix))
            ClusterCatalog(a).to_fits_file(stem + '.fit')
            if members:
                GalaxyCatalog(m).to_fits_file(stem + '_members.fit')


SPECS = {
    'none': (),
    # (tag of the target: cluster or member, offset in arcsec, z, z_err)
    'mix': ((1, 0.0, 0.3, 1e-4), (1, 1.5, 0.4, 1e-4), (2, 2.5, 0.35, 1e-4), (3, 3.5, 0.36, 1e-4), (4, 0.0, 0.37, 0.01), (4, 2.0, 0.38, 5e-4),
            (1000, 0.5, 0.21, 1e-4), (1001, 2.9, 0.22, 1e-4), (2000, 3.2, 0.23, 1e-4), (2001, 0.0, 0.24, 0.001)),
}


def write_spec(path, world, which):
    import fitsio
    pos = {}
    for pix, cl, mem in world.files:
        for r in cl + mem:
            pos[r['tag']] = (r['ra'], r['dec'])
    rows = [(5.0, -80.0, 0.55, 1e-4)]
    for tag, off, z, ze in SPECS[which]:
        if tag in pos:
            rows.append((pos[tag][0], pos[tag][1] + off * ARCSEC, z, ze))
    a = np.zeros(len(rows), dtype=[('ra', 'f8'), ('dec', 'f8'), ('z', 'f4'), ('z_err', 'f4')])
    for i, r in enumerate(rows):
        a[i] = r
    fitsio.write(path, a, clobber=True)
    return a


def spec_of(spec, ra, dec):
    from mc import ref
    gd = spec[spec['z_err'] < 0.001]
    d = ref.sphdist(gd['ra'], gd['dec'], ra, dec) * 3600.
    i = int(np.argmin(d))
    return float(gd['z'][i]) if d[i] < 3.0 else -1.0


def vlim_zmax(world, ra, dec, table):
    """table: zmax by (tag modulo its length); None: not in the mask."""
    for pix, cl, mem in world.files:
        for c in cl:
            if c['ra'] == ra and c['dec'] == dec:
                return table[c['tag'] % len(table)]
    return None


def write_vlim(path, world, table):
    import healsparse
    m = healsparse.HealSparseMap.make_empty(32, 4096, dtype=[('fracgood', 'f4'), ('zmax', 'f4')], primary='fracgood')
    import hpgeom as hpg
    for pix, cl, mem in world.files:
        for c in cl:
            z = table[c['tag'] % len(table)]
            if z is None:
                continue
            v = np.zeros(1, dtype=[('fracgood', 'f4'), ('zmax', 'f4')])
            v['fracgood'] = 1.0
            v['zmax'] = z
            m.update_values_pix(np.array([hpg.angle_to_pixel(4096, c['ra'], c['dec'])]), v)
    m.write(path, clobber=True)


def compare(catfile, memfile, want, specs, spec, bad, what, idmap, world):
    """Rows of one consolidated file against the clusters that belong in it."""
    import fitsio
    if not want:
        if os.path.isfile(catfile):
            n = fitsio.read(catfile, ext=1).size
            if n:
                bad.append('%s: %d rows, expected none' % (what, n))
        return
    for f in (catfile, memfile):
        if f is not None and not os.path.isfile(f):
            bad.append('%s: no file %s' % (what, os.path.basename(f)))
            return
    cat = fitsio.read(catfile, ext=1, lower=True)
    with fitsio.FITS(catfile) as f:
        if len(f) != 2:
            bad.append('%s: %d HDUs' % (what, len(f)))
    if sorted(cat['tag'].tolist()) != sorted(c['tag'] for c in want):
        bad.append('%s: clusters %s, expected %s' % (what, sorted(cat['tag'].tolist()), sorted(c['tag'] for c in want)))
        return
    by = {c['tag']: c for c in want}
    newid = {}
    for r in cat:
        c = by[int(r['tag'])]
        newid[c['tag']] = int(r['mem_match_id'])
        for col, k in (('ra', 'ra'), ('dec', 'dec'), ('lambda', 'lam'), ('maskfrac', 'maskfrac'), ('z_lambda', 'z'), ('scaleval', 'scale'), ('lnlamlike', 'like')):
            if r[col] != np.array(c[k], dtype=cat.dtype[col]):
                bad.append('%s: cluster %d %s %r, expected %r' % (what, c['tag'], col, r[col], c[k]))
        z = np.float32(0.77) if not specs else np.float32(spec_of(spec, c['ra'], c['dec']))
        if r['cg_spec_z'] != z:
            bad.append('%s: cluster %d spectroscopic redshift %r, expected %r' % (what, c['tag'], r['cg_spec_z'], z))
    for t, i in newid.items():
        if idmap.setdefault(t, i) != i:
            bad.append('%s: cluster %d has identifier %d here and %d elsewhere' % (what, t, i, idmap[t]))
    if memfile is None:
        return
    mem = fitsio.read(memfile, ext=1, lower=True)
    with fitsio.FITS(memfile) as f:
        if len(f) != 2:
            bad.append('%s: %d HDUs of members' % (what, len(f)))
    wm = [m for pix, cl, ms in world.files for m in ms if m['ctag'] in by]
    if sorted(mem['tag'].tolist()) != sorted(m['tag'] for m in wm):
        bad.append('%s: members %s, expected %s' % (what, sorted(mem['tag'].tolist())[:12], sorted(m['tag'] for m in wm)[:12]))
        return
    bm = {m['tag']: m for m in wm}
    for r in mem:
        m = bm[int(r['tag'])]
        if int(r['mem_match_id']) != newid[m['ctag']]:
            bad.append('%s: member %d has identifier %d, its cluster %d' % (what, m['tag'], r['mem_match_id'], newid[m['ctag']]))
        for col, k in (('ra', 'ra'), ('dec', 'dec'), ('pmem', 'pmem')):
            if r[col] != np.array(m[k], dtype=mem.dtype[col]):
                bad.append('%s: member %d %s changed' % (what, m['tag'], col))
        z = np.float32(0.88) if not specs else np.float32(spec_of(spec, m['ra'], m['dec']))
        if r['zspec'] != z:
            bad.append('%s: member %d spectroscopic redshift %r, expected %r' % (what, m['tag'], r['zspec'], z))


def run(case):
    from redmapper.pipeline import RedmapperConsolidateTask
    files = [(p, [tuple(r) for r in rows]) for p, rows in case['files']]
    cuts = case.get('cuts', [5.0, 20.0])
    scale = case.get('scale', False)
    which = case.get('spec')
    vl = case.get('vlim') or {}
    base = case.get('base', 'runx')
    d = rm.workdir('c08')
    try:
        if case.get('dir'):
            d2 = os.path.join(d, case['dir'])
            os.makedirs(d2)
        else:
            d2 = d
        world = World(files)
        world.write(d2, base, 'final')
        spec = write_spec(os.path.join(d2, 'spec.fit'), world, which) if which else None
        lst = sorted(float(x) for x in vl)
        conf = rm.write_config(os.path.join(d2, 'conf.yaml'), outbase=base, consolidate_lambda_cuts=[float(c) for c in cuts],
                               consolidate_vlim_lstars=lst, select_scaleval=scale, percolation_minlambda=3.0, max_maskfrac=0.2, zrange=[0.05, 0.6],
                               specfile=os.path.join(d2, 'spec.fit') if which else rm.DROP, calib_spec_max_zerr=0.001, outpath=d2, printlogging=False)
        before = set(os.listdir(d2))
        for rep in range(2 if case.get('twice') else 1):
            task = RedmapperConsolidateTask(conf, path=d2 if case.get('path') else None, lambda_cuts=cuts if case.get('args') else None,
                                            vlim_lstars=lst if case.get('args') else [])
            rm.quiet(task.config)
            for l in lst:
                write_vlim(task.config.redmapper_filename('vl%02d_vlim_zmask' % int(l * 10), withversion=True), world, vl[str(l)])
            try:
                task.run(do_plots=False, match_spec=bool(which))
            except Exception as e:
                if not core.in_code_under_test(e):
                    raise
                return [core.exc_problem(e, 'consolidation')], ('raised',), True
        bad = []
        good = [c for pix, cl, mem in world.files for c in cl
                if inside(pix, c['ra'], c['dec']) and np.float32(c['maskfrac']) < 0.2 and np.float32(c['lam']) > 3.0]
        idmap = {}
        expected = set(before)
        nw = 0
        for cut in cuts:
            for l in (lst or [None]):
                def zmax(c):
                    if l is None:
                        return 0.6
                    z = vlim_zmax(world, c['ra'], c['dec'], vl[str(l)])
                    return 0.0 if z is None else np.float32(z)
                want = [c for c in good if zmax(c) > np.float32(c['z'])
                        and (np.float32(c['lam']) / (np.float32(c['scale']) if scale else 1.0)) > cut]
                extra = 'lgt%02d' % cut if l is None else 'lgt%02d_vl%02d' % (cut, int(l * 10))
                cf = task.config.redmapper_filename(extra + '_catalog', withversion=True)
                mf = task.config.redmapper_filename(extra + '_catalog_members', withversion=True)
                expected |= {os.path.basename(cf), os.path.basename(mf)}
                compare(cf, mf, want, which, spec, bad, extra, idmap, world)
                nw += len(want)
        # identifiers: the rank by likelihood among all clusters that can be output
        likes = sorted((np.float32(c['like']) for c in good), reverse=True)
        for c in good:
            if c['tag'] not in idmap:
                continue
            i = idmap[c['tag']]
            lo = 1 + sum(1 for x in likes if x > np.float32(c['like']))
            hi = sum(1 for x in likes if x >= np.float32(c['like']))
            if not lo <= i <= hi:
                bad.append('cluster %d has identifier %d, its rank by likelihood is %d..%d' % (c['tag'], i, lo, hi))
        if len(set(idmap.values())) != len(idmap):
            bad.append('two clusters share an identifier: %s' % idmap)
        stray = set(os.listdir(d2)) - expected - {os.path.basename(x) for x in glob.glob(os.path.join(d2, '*zmask*'))}
        if stray:
            bad.append('files left: %s' % sorted(stray))
        for pix, cl, mem in world.files:
            import fitsio
            stem = os.path.join(d2, '%s_%d_%05d_final_catalog.fit' % (base, NSIDE, pix))
            if fitsio.read(stem, ext=1).size != len(cl):
                bad.append('input changed')
        return bad[:4], (nw, len(good), len(files)), nw > 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


def runcat(case):
    from redmapper.pipeline import RuncatConsolidateTask
    files = [(p, [tuple(r) for r in rows]) for p, rows in case['files']]
    which = case.get('spec')
    base = case.get('base', 'runx')
    ctype = case.get('ctype', 'runcat')
    members = case.get('members', True)
    d = rm.workdir('c08r')
    try:
        world = World(files)
        world.write(d, base, ctype, members=members)
        if ctype == 'runcat':
            # files of another kind must not be mixed in
            World([(PIX[0], [('in', 0.0, 50.0, 0.2, 1.0, 9.0, 1)])]).write(d, base, 'zscan')
        spec = write_spec(os.path.join(d, 'spec.fit'), world, which) if which else None
        conf = rm.write_config(os.path.join(d, 'conf.yaml'), outbase=base, outpath=d, printlogging=False,
                               specfile=os.path.join(d, 'spec.fit') if which else rm.DROP, calib_spec_max_zerr=0.001)
        task = RuncatConsolidateTask(conf)
        rm.quiet(task.config)
        try:
            task.run(do_plots=False, match_spec=bool(which), consolidate_members=members, cattype=ctype)
        except Exception as e:
            if not core.in_code_under_test(e):
                raise
            return [core.exc_problem(e, 'runcat consolidation')], ('raised',), True
        bad = []
        want = [c for pix, cl, mem in world.files for c in cl if inside(pix, c['ra'], c['dec'])]
        # rows keep their own identifiers, which repeat between pixels: check by file
        cf = task.config.redmapper_filename('%s_catalog' % ctype, withversion=True)
        mf = task.config.redmapper_filename('%s_catalog_members' % ctype, withversion=True) if members else None
        compare(cf, mf, want, which, spec, bad, ctype, {}, world)
        if want and not bad:
            import fitsio
            cat = fitsio.read(cf, ext=1, lower=True)
            by = {c['tag']: c for c in want}
            for r in cat:
                if int(r['mem_match_id']) != by[int(r['tag'])]['mem_match_id']:
                    bad.append('cluster %d changed its identifier' % r['tag'])
        return bad[:4], ('runcat', len(want)), bool(want)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def members_of(name):
    import fitsio
    from redmapper.utilities import read_members
    d = rm.workdir('c08m')
    try:
        for i, other in enumerate((name, name + '_x', 'y' + name, name.rstrip('.fit') + 'q')):
            a = np.zeros(2, dtype=[('mem_match_id', 'i4'), ('ra', 'f8'), ('dec', 'f8')])
            a['mem_match_id'] = 10 * i + np.arange(2)
            fitsio.write(os.path.join(d, other + '_members.fit'), a, clobber=True)
        try:
            mem = read_members(os.path.join(d, name + '.fit'))
        except Exception as e:
            if not core.in_code_under_test(e):
                raise
            return [core.exc_problem(e, 'reading the members of %s.fit' % name)], ('raised',), True
        bad = [] if mem.mem_match_id.tolist() == [0, 1] else ['members of %s.fit are those of another catalog' % name]
        return bad, ('members',), True
    finally:
        shutil.rmtree(d, ignore_errors=True)


def c(where='in', maskfrac=0.0, lam=30.0, z=0.3, scale=1.0, like=10.0, nmem=1):
    return [where, maskfrac, lam, z, scale, like, nmem]


def body(check):
    th = check.thorough
    # every kind of cluster, one file each and all in one file
    kinds = [c(w, m, l, z, s, 5.0 + (i * 37) % 101, n) for i, (w, m, l, z, s, n) in enumerate(
        itertools.product(WHERE[1:], (0.0, 0.199, 0.2, 0.5), (1.0, 3.0, 3.25, 5.0, 5.5, 10.0, 10.5, 20.0, 40.0, 41.0), (0.1, 0.6, 0.65), (1.0, 2.0), (2,)))]
    cases = []
    for sc in (False, True):
        for cuts in ([5.0, 20.0], [20.0], [20.0, 5.0], [5.0]):
            cases.append(dict(files=[[PIX[0], kinds]], cuts=cuts, scale=sc))
            cases.append(dict(files=[[p, kinds[i::3]] for i, p in enumerate(PIX)], cuts=cuts, scale=sc))
            cases.append(dict(files=[[p, kinds[i::3]] for i, p in enumerate(PIX)], cuts=cuts, scale=sc, spec='mix',
                              vlim={'0.2': [0.05, 0.2, 0.35, 0.7, None], '5.0': [0.62, None]}))
    check.run_cases(cases, run, 'all kinds of clusters', chunk=1)
    # histories: up to three files of up to two clusters
    types = [c(), c(lam=10.0), c(lam=4.0), c('other'), c(maskfrac=0.5)]
    one = [[t] for t in types]
    two = [[a, b] for a in types[:4] for b in types]
    lists = [[]] + one + two
    cases = []
    for n in (1, 2, 3):
        pool = lists if n == 1 or (n == 2 and th) else one + two[:6]
        for combo in itertools.product(pool, repeat=n):
            if not any(combo):
                continue
            if n == 3 and not th and sum(len(x) for x in combo) > 4:
                continue
            files = [[p, [list(r) for r in rows]] for p, rows in zip(PIX, combo) if rows]
            k = 0
            for f in files:
                for r in f[1]:
                    k += 1
                    r[5] = float((k * 7) % 5)            # likelihoods out of order, with ties
                    r[6] = 1 + k % 3
            for sc, args in (((False, False),) if n == 3 else ((False, False), (True, True))):
                cases.append(dict(files=files, scale=sc, args=args, path=args))
    check.run_cases(cases, run, 'histories of pixel files')
    # order of the likelihoods
    cases = []
    for perm in itertools.product((1.0, 2.0, 3.0), repeat=4):
        rows = [c('in2', lam=6.0 + 20 * (i % 2), like=x, nmem=2) for i, x in enumerate(perm)]
        cases.append(dict(files=[[PIX[0], rows[:2]], [PIX[1], rows[2:]]], twice=perm[0] == 1.0))
    check.run_cases(cases, run, 'identifiers by likelihood')
    # names of files and directories, volume limits, spectra
    cases = []
    four = [[PIX[0], [c(like=4.0, nmem=2), c(lam=8.0, like=3.0, nmem=2)]], [PIX[1], [c(like=7.0, nmem=1), c('in2', lam=25.0, like=1.0, nmem=3)]]]
    for base in ('runx', 'run_8_12345', 'run_4_00070_x', 'run_i', 'a.fit'):
        for sub in (None, 'job_8_00003_out', 'x_4_00071_final_catalog'):
            for tw in (False, True):
                cases.append(dict(files=four, base=base, dir=sub, twice=tw))
    for t1 in itertools.product((None, 0.2, 0.3, 0.301, 0.9), repeat=2):
        for t2 in ((0.9,), (None,), (0.29, 0.31, None)):
            for sc in (False, True):
                cases.append(dict(files=four, vlim={'0.2': list(t1), '5.0': list(t2)}, scale=sc))
                cases.append(dict(files=four, vlim={'1.0': list(t1)}, args=True, scale=sc))
    for sp in ('none', 'mix'):
        for f in (four, four[:1], four[1:]):
            cases.append(dict(files=f, spec=sp))
    check.run_cases(cases, run, 'names, volume limits and spectra')
    check.run_cases(['catalog', 'a_fit', 'cat', 'rich_f', 'x.fit', 'i', 'lgt20', 'out.t', 'v1.0.fi'], members_of, 'members of a catalog')
    # runcat
    cases = []
    rl = [[]] + [[t] for t in (c(), c('other'), c('in2', nmem=0))] + [[a, b] for a in (c(nmem=2), c('other', nmem=2)) for b in (c(), c('other'), c('in2', nmem=0), c('far'))]
    for n in (1, 2, 3):
        for combo in itertools.product(rl if n < 3 or th else rl[:8], repeat=n):
            files = [[p, rows] for p, rows in zip(PIX, combo) if rows]
            if not files or len(files) != n:
                continue
            for kw in (dict(), dict(members=False), dict(ctype='zscan')):
                if n == 3 and kw and not th:
                    continue
                cases.append(dict(files=files, **kw))
    for sp in ('none', 'mix'):
        for base in ('runx', 'run_8_12345', 'run_f'):
            cases.append(dict(files=four, spec=sp, base=base))
    check.run_cases(cases, runcat, 'runcat catalogs')


if __name__ == '__main__':
    core.main('C08', 'model_checking',
              'All histories of up to three pixel catalogs of up to two clusters of five types, every combination of position, masked fraction, richness, redshift and '
              'scale at and around the limits, all orders of likelihoods, richness cuts, volume limits, spectra, file and directory names; the consolidated files are '
              'compared row by row with the definition. Non-trivial: clusters are output.', body)
