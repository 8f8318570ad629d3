"""C23: random points follow the volume-limit map and the cluster catalog; weights and areas count what is lost."""
import itertools
import math
import os
import shutil

import numpy as np

from mc import build, core, pipe, ref, rm, stage

NS, NC = 512, 64
# three regions side by side across ra=0
CENTERS = ((0.1, -47.0), (357.3, -46.6), (2.9, -46.6))
HALF = 0.8
_S = {}


def region(k):
    import hpgeom as hpg
    if ('reg', k) not in _S:
        _S['reg', k] = np.sort(hpg.query_circle(NS, CENTERS[k][0], CENTERS[k][1], HALF, nest=True))
    return _S['reg', k]


def vlim_file(path, spec):
    """spec: for each region (fracgood, zmax); inside a region every third pixel has the second pair if there are two."""
    import healsparse
    dt = [('fracgood', 'f4'), ('zmax', 'f4')]
    m = healsparse.HealSparseMap.make_empty(NC, NS, dtype=dt, primary='fracgood')
    pix, cell, v = [], [], []
    for k, pairs in enumerate(spec):
        if not pairs:
            continue
        for j, p in enumerate(region(k)):
            c = 1 if len(pairs) > 1 and j % 3 == 0 else 0
            pix.append(p)
            cell.append((k, c))
            v.append(pairs[c])
    a = np.zeros(len(pix), dtype=dt)
    a['fracgood'], a['zmax'] = np.array(v, dtype='f4').T
    m.update_values_pix(np.array(pix, dtype=np.int64), a)
    m.write(path, clobber=True)
    return {int(p): (c, x) for p, c, x in zip(pix, cell, a)}


def config(d, **over):
    from redmapper import Configuration
    kw = dict(vlim_bands=[], vlim_depthfiles=[], vlim_nsigs=[], outbase='rnd', outpath=d, printlogging=False, zrange=[0.1, 0.6],
              randfile=os.path.join(d, 'rands', 'rnd_master_table.fit'))
    kw.update(over)
    return rm.quiet(Configuration(rm.write_config(os.path.join(d, 'c.yaml'), **kw)))


CATS = {
    'one': [0.25],
    'three': [0.15, 0.3, 0.45],
    'failed': [0.2, -1.0, 0.4],
    'nine': [0.12, 0.16, 0.21, 0.26, 0.31, 0.36, 0.41, 0.46, 0.52],
}


def cluster_cat(name, kind='cluster'):
    from redmapper import ClusterCatalog, GalaxyCatalog
    z = np.array(CATS[name], dtype='f4')
    n = z.size
    if kind == 'cluster':
        a = np.zeros(n, dtype=[('mem_match_id', 'i4'), ('z_lambda', 'f4'), ('lambda', 'f4'), ('scaleval', 'f4'), ('z', 'f4'), ('ra', 'f8'), ('dec', 'f8')])
        a['mem_match_id'] = 1000 - 7 * np.arange(n)          # descending, not the row number
        a['lambda'] = 20.0 + 3.5 * ((np.arange(n) * 5) % 11)
        a['z_lambda'] = z
        a['z'] = 0.05
        a['scaleval'] = 1.0
        return ClusterCatalog(a)
    a = np.zeros(n, dtype=[('id', 'i8'), ('ra', 'f8'), ('dec', 'f8'), ('zredmagic', 'f4')])
    a['zredmagic'] = z
    return GalaxyCatalog(a)


# (fracgood, zmax) of the regions
SPECS = {
    'plain': [[(1.0, 0.59)], [(1.0, 0.59)], [(1.0, 0.59)]],
    'frac': [[(1.0, 0.59)], [(0.25, 0.59)], [(0.5, 0.59), (0.125, 0.59)]],
    'zmax': [[(1.0, 0.59)], [(1.0, 0.2)], [(1.0, 0.35), (1.0, 0.55)]],
    'both': [[(1.0, 0.59)], [(0.5, 0.18)], [(0.25, 0.33), (0.75, 0.55)]],
    'mixed': [[(0.25, 0.59), (1.0, 0.17)], [], [(1.0, 0.3)]],
    'empty': [[(0.0, 0.59), (0.25, 0.59)], [(0.0, 0.2)], []],
    'thin': [[(0.0625, 0.59)], [(0.03125, 0.59)], [(0.0625, 0.3)]],
}


def judge_points(ra, dec, z, cells, zcat, spec, catname, n):
    """Every point in the map, its redshift one of the catalog and below the limit there; densities and redshifts distributed as documented."""
    import hpgeom as hpg
    bad = []
    if np.any(~np.isfinite(ra)) or np.any(~np.isfinite(dec)):
        return ['positions not finite'], 'x'
    pix = hpg.angle_to_pixel(NS, ra, dec, nest=True, lonlat=True)
    out = [p for p in pix.tolist() if p not in cells]
    if out:
        return ['%d points outside the map' % len(out)], 'x'
    fg = np.array([cells[p][1]['fracgood'] for p in pix.tolist()])
    zm = np.array([cells[p][1]['zmax'] for p in pix.tolist()])
    if np.any(fg <= 0):
        bad.append('%d points where nothing is covered' % (fg <= 0).sum())
    if np.any(~(z < zm)):
        i = int(np.argmax(~(z < zm)))
        bad.append('%d points beyond the volume limit (z=%s where the limit is %s)' % ((~(z < zm)).sum(), z[i], zm[i]))
    if len(set(zip(ra.tolist(), dec.tolist()))) < n:
        bad.append('repeated positions')
    if n >= 1000 and not bad:
        # redshifts: as in the catalog (all that fit somewhere)
        top = max(float(c[1]['zmax']) for c in cells.values() if c[1]['fracgood'] > 0)
        fit = [x for x in zcat if 0 < x < top]
        assert len(fit) == len([x for x in zcat if x > 0])
        for x in fit:
            k = int((z == np.float32(x)).sum())
            e = n / len(fit)
            if abs(k - e) > 6.5 * math.sqrt(e) + 6:
                bad.append('redshift %s appears %d times in %d points of %d redshifts' % (x, k, n, len(fit)))
        # density of the points of the lowest redshift: the covered area (where it fits)
        x = min(fit)
        use = z == np.float32(x)
        ids = {}
        for p, (c, v) in cells.items():
            if np.float32(x) < v['zmax']:
                ids.setdefault(c, [0.0, 0])
                ids[c][0] += float(v['fracgood'])
        for p in pix[use].tolist():
            ids[cells[p][0]][1] += 1
        tot = sum(a for a, k in ids.values())
        for c, (a, k) in sorted(ids.items()):
            e = use.sum() * a / tot
            if abs(k - e) > 6.5 * math.sqrt(e) + 6:
                bad.append('%d of %d points in part %s of the map, which has %.3f of the area' % (k, use.sum(), c, a / tot))
    return bad, (catname, len(set(pix.tolist())) > 10)


def run_generate(case):
    import fitsio
    from redmapper.randoms import GenerateRandoms, RandomCatalog
    from redmapper.volumelimit import VolumeLimitMask
    import hpgeom as hpg
    spec, catname, n, seed, how, nside = case
    d = rm.workdir('c23')
    bad = []
    try:
        conf = config(d, vlim_lstar=0.2)
        conf.galfile_nside = nside
        vf = conf.redmapper_filename('vl02_vlim_zmask', withversion=True) if how == 'config' else os.path.join(d, 'v.hs')
        cells = vlim_file(vf, SPECS[spec])
        cat = cluster_cat(catname)
        rng = np.random.RandomState(seed)
        if how == 'config':
            conf.catfile = os.path.join(d, 'cat.fit')
            cat.to_fits_file(conf.catfile)
            g = GenerateRandoms(conf)
        else:
            g = GenerateRandoms(conf, vlim_mask=VolumeLimitMask(conf, 0.2, vlimfile=vf), redmapper_cat=cat)
        g.generate_randoms(n, rng=rng)
        r = RandomCatalog.from_randfile(conf.randfile)
        if r.size != n:
            return ['%d points generated, %d requested' % (r.size, n)], 'x', True
        ra, dec, z = np.array(r.ra), np.array(r.dec), np.array(r.z)
        if sorted(np.array(r.id).tolist()) != list(range(1, n + 1)):
            bad.append('the ids are not 1..%d' % n)
        rows = {int(i): (np.float32(zz), np.float32(l)) for i, zz, l in zip(cat.mem_match_id, cat.z_lambda, cat.Lambda)}
        for i, zz, l in zip(np.array(r.id_input).tolist(), z, np.array(r.Lambda)):
            if rows.get(i) != (zz, l):
                bad.append('a point with id_input %s, z %s, lambda %s is not of one cluster' % (i, zz, l))
                break
        if np.any(~(z > 0)):
            bad.append('points without redshift')
        b2, out = judge_points(ra, dec, z, cells, CATS[catname], spec, catname, n)
        bad += b2
        # each in the file of its pixel
        tab = fitsio.read(conf.randfile, ext=1, lower=True)
        seen = 0
        for hp, f, k in zip(tab['hpix'][0].ravel(), tab['filenames'][0].ravel(), tab['ngals'][0].ravel()):
            if k == 0:
                continue
            a = fitsio.read(os.path.join(os.path.dirname(conf.randfile), f.decode().strip() if isinstance(f, bytes) else f.strip()), ext=1, lower=True)
            seen += a.size
            if a.size != k or np.any(hpg.angle_to_pixel(int(tab['nside'][0]), a['ra'], a['dec'], nest=False, lonlat=True) != hp):
                bad.append('the file of pixel %d does not hold its points' % hp)
        if seen != n or int(tab['nside'][0]) != nside:
            bad.append('%d points in the files at nside %d' % (seen, int(tab['nside'][0])))
        # not twice into one catalog
        try:
            g.generate_randoms(3, rng=rng)
            bad.append('generated into an existing catalog')
        except RuntimeError:
            pass
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return bad, (spec, catname, out), n > 1


def run_redmagic(case):
    import fitsio
    from redmapper.redmagic.redmagic_randoms import RedmagicGenerateRandoms
    from redmapper.volumelimit import VolumeLimitMask
    spec, catname, n, seed, how = case
    d = rm.workdir('c23')
    bad, out = [], 'x'
    try:
        conf = config(d)
        vf = os.path.join(d, 'v.hs')
        cells = vlim_file(vf, SPECS[spec])
        cat = cluster_cat(catname, 'redmagic')
        if how == 'files':
            cf = os.path.join(d, 'rmg.fit')
            cat.to_fits_file(cf)
            g = RedmagicGenerateRandoms(conf, vf, cf)
        else:
            g = RedmagicGenerateRandoms(conf, VolumeLimitMask(conf, 0.2, vlimfile=vf), cat)
        of = os.path.join(d, 'r.fit')
        rng = np.random.RandomState(seed)
        g.generate_randoms(n + 1, of, rng=rng)
        try:
            g.generate_randoms(n, of, rng=rng)
            bad.append('an existing file was replaced')
        except RuntimeError:
            if fitsio.FITS(of)[1].get_nrows() != n + 1:
                bad.append('a refused call changed the file')
        g.generate_randoms(n, of, clobber=True, rng=rng)
        r = fitsio.read(of, ext=1, lower=True)
        if r.size != n or len(fitsio.FITS(of)) != 2:
            return ['%d points written, %d requested' % (r.size, n)], 'x', True
        if set(r['z'].tolist()) - set(np.array(CATS[catname], dtype='f4').tolist()):
            bad.append('redshifts that are not in the catalog')
        if np.any(r['weight'] != 1):
            bad.append('weights other than one')
        if np.any(~(r['z'] > 0)):
            bad.append('points without redshift')
        b2, out = judge_points(r['ra'], r['dec'], r['z'], cells, CATS[catname], spec, catname, n)
        bad += b2
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return bad, (spec, catname, out), n > 1


# ------------------------------------------------------------------- weights
#   lambda (in), scaleval, maskfrac, z
ROWS = {
    'good': (30.0, 1.0, 0.0, 0.30),
    'faint': (15.0, 1.0, 0.0, 0.31),
    'edge': (20.0, 1.0, 0.1, 0.32),          # not above 20
    'masked': (30.0, 1.0, 0.5, 0.33),
    'atmask': (30.0, 1.0, 0.25, 0.34),       # not below 0.25
    'bright': (40.0, 1.0, 0.0, 0.35),        # upper edge of the bin, included
    'bigger': (41.0, 1.0, 0.0, 0.36),
    'scaled': (30.0, 1.75, 0.0, 0.37),
    'fails': (30.0, -1.0, 0.0, 0.38),
    'near': (30.0, 1.0, 0.0, 0.12),
    'far': (30.0, 1.0, 0.0, 0.58),
}
CLUS = {5: (30.0, 1.0), 3: (25.0, 1.5), 9: (18.0, 1.0), 7: (40.0, 1.0), 2: (45.0, 1.0)}     # id: lambda, scaleval


def weigh_reference(rows, opts):
    """rows: (id_input, name). Returns {row: weight}, or None if it must raise."""
    zlo, zhi = opts['zrange'] or (0.1, 0.6)
    lo, hi = opts['bin'] or (0.0, 1000.0)
    ms = opts['minlambda']

    def sel(lam, scale):
        return (lam / scale if opts['scaled'] else lam) > ms and lo < lam <= hi

    inz = [k for k, (i, nm) in enumerate(rows) if zlo < np.float32(ROWS[nm][3]) < zhi]
    if not inz:
        return None
    use = [k for k in inz if sel(*CLUS[rows[k][0]])]
    if not use:
        return None
    w = {}
    for i in CLUS:
        mine = [k for k in use if rows[k][0] == i]
        ok = [k for k in mine if sel(ROWS[rows[k][1]][0], ROWS[rows[k][1]][1]) and ROWS[rows[k][1]][2] < 0.25]
        for k in ok:
            w[k] = len(mine) / len(ok)
    return w


def weigher(d, rand, **over):
    from redmapper.randoms import RandomWeigher
    from redmapper.volumelimit import VolumeLimitMask
    from redmapper import ClusterCatalog
    import fitsio
    over.setdefault('area_finebin', 0.01)
    over.setdefault('area_coarsebin', 0.02)
    over.setdefault('area_nodesize', 0.1)
    over.setdefault('max_maskfrac', 0.25)
    conf = config(d, **over)
    vf = os.path.join(d, 'v.hs')
    if 'vlim' not in _S:
        _S['vlim'] = vlim_file(vf, SPECS['frac'])
        with open(vf, 'rb') as f:
            _S['vlimbytes'] = f.read()
    with open(vf, 'wb') as f:
        f.write(_S['vlimbytes'])
    cat = np.zeros(len(CLUS), dtype=[('mem_match_id', 'i4'), ('lambda', 'f4'), ('scaleval', 'f4'), ('z_lambda', 'f4')])
    for k, i in enumerate(CLUS):
        cat[k] = (i, CLUS[i][0], CLUS[i][1], 0.3)
    rf = os.path.join(d, 'rand.fit')
    fitsio.write(rf, rand, clobber=True)
    v = VolumeLimitMask(conf, 0.2, vlimfile=vf)
    return RandomWeigher(conf, rf, vlim_mask=v, vlim_lstar=0.2, redmapper_cat=ClusterCatalog(cat)), conf, v


RDT = [('mem_match_id', 'i4'), ('ra', 'f8'), ('dec', 'f8'), ('z', 'f4'), ('lambda', 'f4'), ('scaleval', 'f4'), ('maskfrac', 'f4'),
       ('id_input', 'i4'), ('lambda_in', 'f4')]


def run_weigh(case):
    import fitsio
    rows, opts = case
    opts = dict(zip(('minlambda', 'zrange', 'bin', 'scaled'), opts))
    d = rm.workdir('c23')
    bad, out = [], 'x'
    try:
        a = np.zeros(len(rows), dtype=RDT)
        for k, (i, nm) in enumerate(rows):
            lam, sc, mf, z = ROWS[nm]
            a[k] = (k + 1, 10.0 + k, 20.0 - k, z, -5.0, sc, mf, i, lam)
        w, conf, v = weigher(d, a, select_scaleval=opts['scaled'])
        want = weigh_reference(rows, opts)
        try:
            rf, af = w.weight_randoms(opts['minlambda'], zrange=None if opts['zrange'] is None else np.array(opts['zrange']),
                                      lambdabin=None if opts['bin'] is None else np.array(opts['bin']))
        except RuntimeError as e:
            if want is not None:
                bad.append('refused (%s) although there are points to weigh' % e)
            return bad, 'refused', False
        if want is None:
            return ['weighed although no point is selected'], 'x', True
        got = fitsio.read(rf, ext=1, lower=True)
        g = {}
        for r in got:
            k = int(round(r['ra'] - 10.0))
            g[k] = float(r['weight'])
            lam, sc, mf, z = ROWS[rows[k][1]]
            if abs(r['dec'] - (20.0 - k)) > 1e-9 or r['ztrue'] != np.float32(z) or r['lambda_in'] != np.float32(lam) or r['avg_lambdaout'] != np.float32(lam):
                bad.append('point %d has the values of another one' % k)
        if len(got) != len(g):
            bad.append('points repeated')
        if set(g) != set(want) or any(abs(g[k] - want[k]) > 1e-5 for k in want):
            bad.append('weights %s, expected %s' % (sorted(g.items()), sorted(want.items())))
        ar = fitsio.read(af, ext=1, lower=True)
        full = v.get_areas()
        if ar.size != full.size or np.any(ar['area'] < -1e-7) or np.any(ar['area'] > np.array(full.area) * (1 + 1e-5)):
            bad.append('areas outside [0, area of the map]')
        out = (len(rows), len(want), opts['bin'] is None, opts['scaled'])
        # another redshift range: its own files
        if not bad and opts['zrange'] is None and rows:
            try:
                rf2, af2 = w.weight_randoms(opts['minlambda'], zrange=np.array([0.2, 0.5]), lambdabin=None if opts['bin'] is None else np.array(opts['bin']))
            except RuntimeError as e:
                if weigh_reference(rows, dict(opts, zrange=(0.2, 0.5))) is not None:
                    bad.append('a second redshift range is refused: %s' % e)
            else:
                if rf2 == rf or af2 == af:
                    bad.append('two redshift ranges share one file')
                elif not np.array_equal(fitsio.read(rf, ext=1, lower=True), got):
                    bad.append('weighing another redshift range changed the first file')
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return bad, out, bool(out != 'x' and out[1])


def run_area(case):
    """Dense points: a fraction good/total at every redshift gives that fraction of the area."""
    import fitsio
    good, total, why, scaled, binned = case
    d = rm.workdir('c23')
    bad, out = [], 'x'
    try:
        zs = np.arange(0.1025, 0.6, 0.005)
        a = np.zeros(zs.size * total, dtype=RDT)
        for k, z in enumerate(zs):
            for j in range(total):
                nm = 'bright' if j < good else why
                lam, sc, mf, _ = ROWS[nm]
                a[k * total + j] = (k * total + j + 1, 10.0, 20.0, z, -5.0, sc, mf, 7, lam)
        a = a[np.argsort((np.arange(a.size) * 37) % a.size, kind='stable')]
        w, conf, v = weigher(d, a, select_scaleval=scaled)
        rf, af = w.weight_randoms(20.0, lambdabin=np.array([25.0, 40.0]) if binned else None)
        r = fitsio.read(rf, ext=1, lower=True)
        if r.size != zs.size * good or np.any(np.abs(r['weight'] - total / good) > 1e-5):
            bad.append('%d of %d points weighed by %s' % (r.size, zs.size * good, set(r['weight'].tolist())))
        ar = fitsio.read(af, ext=1, lower=True)
        full = np.array(v.get_areas().area, dtype='f8')
        ratio = ar['area'] / np.where(full > 0, full, 1)
        if np.any(np.abs(ratio[full > 0] - good / total) > 0.02):
            bad.append('area is %s of the map, expected %s' % (sorted(set(np.round(ratio[full > 0], 3).tolist()))[:5], good / total))
        out = (good, total, why)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return bad, out, True


# ------------------------------------------------------------------- masked fractions of random points
def zmask_points(which):
    base = [(ra, dec, z, lam, 100 + k) for k, (ra, dec, z, lam) in enumerate(pipe.POOL[:8])]
    base += [(139.0, 60.0, 0.3, 30.0, 200), (140.3, 65.3, 0.2, 120.0, 201), (140.31, 65.8, 0.45, 6.0, 202)]
    return [base[i] for i in which]


def run_zmask(case):
    import fitsio
    from redmapper import RunRandomsZmask, Cluster
    from redmapper.randoms import RandomCatalogMaker
    which, mask, ids = case
    d = rm.workdir('c23')
    bad, out = [], 'x'
    try:
        over = dict() if mask == 'plain' else dict(maskfile=stage.mask_file(mask))
        conf = pipe.config(d, **over)
        conf.d.hpix, conf.d.nside = [], 0
        pts = zmask_points(which)
        a = np.zeros(len(pts), dtype=[('id', 'i4'), ('ra', 'f8'), ('dec', 'f8'), ('z', 'f4'), ('lambda', 'f4'), ('id_input', 'i4')])
        for k, (ra, dec, z, lam, i) in enumerate(pts):
            a[k] = (ids + k, ra, dec, z, lam, i)
        m = RandomCatalogMaker(os.path.join(d, 'rand'), {}, nside=64)
        m.split_randoms(a)
        conf.randfile = m.filename
        with ref.fixed_random():
            run = RunRandomsZmask(conf)
            run.run()
        run.output(savemembers=False)
        got = fitsio.read(run.filename, ext=1, lower=True)
        if sorted(got['mem_match_id'].tolist()) != sorted(a['id'].tolist()):
            return ['points %s of %s' % (got['mem_match_id'].tolist(), a['id'].tolist())], 'x', True
        mk, depth = stage.tools(conf)
        nmask = 0
        for r in got:
            k = int(np.where(a['id'] == r['mem_match_id'])[0][0])
            s = a[k]
            for c, e in (('ra', 'ra'), ('dec', 'dec'), ('id_input', 'id_input'), ('lambda_in', 'lambda'), ('z_in', 'z')):
                if r[c] != s[e]:
                    bad.append('%s of point %d is %s, not %s' % (c, k, r[c], s[e]))
            w = pipe.world()
            c = Cluster(config=conf, zredstr=w.par, bkg=w.bkg, r0=run.r0, beta=run.beta)
            c.ra, c.dec = float(s['ra']), float(s['dec'])
            c.redshift = float(s['z'])
            with ref.fixed_random():
                c.maskgal_index = mk.select_maskgals_sample()
                depth.calc_maskdepth(mk.maskgals, c.ra, c.dec, c.mpc_scale)
                mk.set_radmask(c)
            rl = run.r0 * (float(s['lambda']) / 100.0) ** run.beta
            whole = stage.masked_fraction(mk, 1.0)
            if whole == 1.0:
                if r['maskfrac'] != 1.0 or r['scaleval'] > 0:
                    bad.append('point %d off the footprint has maskfrac %s, scaleval %s' % (k, r['maskfrac'], r['scaleval']))
                nmask += 1
                continue
            mf = stage.masked_fraction(mk, rl)
            if abs(r['maskfrac'] - mf) > 1e-6:
                bad.append('maskfrac of point %d is %s, expected %s' % (k, r['maskfrac'], mf))
            nmask += mf > 0
            mst = float(w.par.mstar(c.redshift))
            with ref.fixed_random():
                cp = mk.calc_maskcorr(mst, mst - 2.5 * math.log10(conf.lval_reference), w.par.limmag)
            sv = 1.0 / (1.0 - np.polyval(cp, rl))
            if abs(1.0 / r['scaleval'] - 1.0 / sv) > 2e-3:
                bad.append('scaleval of point %d is %s, expected %s' % (k, r['scaleval'], sv))
            if abs(r['lambda'] - s['lambda']) > 1e-5 or abs(r['r_lambda'] - rl) > 1e-5:
                bad.append('richness %s, radius %s of point %d, expected %s, %s' % (r['lambda'], r['r_lambda'], k, s['lambda'], rl))
        out = (len(pts), mask, nmask > 0)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return bad, out, True


def body(chk):
    th = chk.thorough
    specs = list(SPECS)

    def fits(s, c):
        top = max(p[1] for r in SPECS[s] for p in r if p[0] > 0)
        return all(z < top for z in CATS[c])
    seeds = (1, 2, 3, 4) if th else (1,)
    gen = [(s, c, n, seed, how, ns) for s in specs for c in CATS if fits(s, c)
           for n, how, ns in ((1, 'given', 32), (37, 'config', 8), (4000, 'given', 8), (4000, 'config', 32)) for seed in seeds
           if th or n < 1000 or (specs.index(s) + list(CATS).index(c)) % 2 == (ns == 8) or s in ('both', 'mixed')]
    chk.run_cases(gen, run_generate, group='generate', chunk=2)
    rmg = [(s, c, n, seed, how) for s in specs for c in CATS if fits(s, c)
           for n, how in ((1, 'files'), (4000, 'objects')) for seed in seeds]
    chk.run_cases(rmg, run_redmagic, group='redmagic', chunk=2)
    OPTS = [(20.0, None, None, False), (20.0, (0.2, 0.5), (20.0, 40.0), False), (20.0, None, (25.0, 40.0), True), (5.0, (0.35, 0.6), None, True)]
    names = list(ROWS)
    ids = list(CLUS)
    cases = []
    for o in OPTS:
        for n in names:                                     # one point of each cluster
            for i in ids:
                cases.append((((i, n),), o))
        for n1, n2 in itertools.product(names, names):      # two of one cluster, a third of another
            if th or (names.index(n1) + names.index(n2)) % 3 == OPTS.index(o) % 3:
                cases.append((((7, n1), (2, 'good'), (7, n2)), o))
        for k in range(len(names)):                         # all kinds, all clusters
            cases.append((tuple((ids[(j + k) % 5], nm) for j, nm in enumerate(names + names[:k])), o))
        for n1, n2, n3 in itertools.combinations(names, 3):
            if th:
                cases.append((((7, n1), (3, n2), (7, n2), (3, n3), (7, n3)), o))
    chk.run_cases(cases, run_weigh, group='weigh', chunk=8)
    ar = [(g, t, why, sc, b) for t in ((2, 4, 5, 8) if th else (2, 4)) for g in range(1, t + 1) for why in ('masked', 'faint', 'fails', 'bigger')
          for sc in (False, True) for b in (False, True)
          if not (why == 'fails' and not sc) and not (why == 'bigger' and not b)]
    chk.run_cases(ar, run_area, group='area', chunk=2)
    pipe.setup()
    allp = tuple(range(11))
    zm = [((i,), m, 1) for i in range(11) for m in ('plain', 'cut', 'frac')]
    zm += [(allp, m, 5) for m in ('plain', 'cut', 'frac')] + [(allp[::-1], m, 1) for m in ('plain', 'cut', 'frac')]
    if th:
        zm += [(p, m, 3) for p in itertools.combinations(range(11), 2) for m in ('cut', 'frac')]
    chk.run_cases(zm, run_zmask, group='zmask', chunk=2)


if __name__ == '__main__':
    core.main('C23', 'exploration',
              'Maps of three regions (side by side across ra=0) with 7 patterns of coverage and volume limit x 4 catalogs x 1..4000 points x generators, every point judged by its map pixel and its cluster; '
              'weights of all assignments of 11 point states to the clusters (singles, pairs, rotations) in 4 selections and areas of constant good fractions, against counting; '
              'masked fractions of 11 points in 3 footprints, recomputed. Non-trivial: several points, points weighed.', body)
