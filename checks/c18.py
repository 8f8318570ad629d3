"""C18: running a catalog of positions gives every input its own richness, redshift and members."""
import itertools
import math
import os
import shutil

import numpy as np

from mc import build, core, pipe, ref, rm, stage

ZCORR = os.path.join(build.DATA, 'test_dr8_zlambdacorr.fit')
_EXP = {}


def options(over):
    over = {k: (rm.DROP if v == 'DROP' else v) for k, v in over.items()}
    if over.get('maskfile') in ('cut', 'frac'):
        over['maskfile'] = stage.mask_file(over['maskfile'])
    if over.get('zlambdafile') == 'yes':
        over['zlambdafile'] = ZCORR
    return over


def run_cat(over, rows, kw):
    import fitsio
    from redmapper import RunCatalog
    d = rm.workdir('c18')
    try:
        conf = pipe.config(d, **options(over))
        conf.catfile = pipe.write_candidates(os.path.join(d, 'in.fit'), conf, rows)
        a = fitsio.read(conf.catfile, ext=1, lower=True)
        with ref.fixed_random():
            r = RunCatalog(conf)
            r.run(**kw)
        r.output(savemembers=True, withversion=False, clobber=True)
        fn = conf.redmapper_filename('lambda_chisq_catalog')
        mf = conf.redmapper_filename('lambda_chisq_catalog_members')
        cat = fitsio.read(fn, ext=1, lower=True) if os.path.isfile(fn) else None
        mem = fitsio.read(mf, ext=1, lower=True) if os.path.isfile(mf) else None
        extra = sorted(set(os.listdir(d)) - {'c.yml', 'in.fit', os.path.basename(fn), os.path.basename(mf)})
        return conf, a, cat, mem, extra
    finally:
        shutil.rmtree(d, ignore_errors=True)


def limlum(conf):
    l = max(conf.lval_reference - 0.1, 0.01)
    for v in (conf.percolation_memlum, conf.percolation_lmask):
        if v is not None and v > 0:
            l = min(l, v)
    return l


def local(conf, c, mask):
    """Density of the galaxies in the annulus, per area of the footprint, relative to that of the background."""
    w = pipe.world()
    mg = mask.maskgals
    depth = stage.tools(conf)[1]
    z = float(c.redshift)
    mpc = math.radians(1.0) * float(conf.cosmo.Da(0, z))
    ra, dec = c.ra + np.asarray(mg.x_uniform, 'f8') / mpc / math.cos(math.radians(c.dec)), c.dec + np.asarray(mg.y_uniform, 'f8') / mpc
    mst = float(w.par.mstar(z))
    lim = mst - 2.5 * math.log10(conf.lval_reference)
    m = mst + np.asarray(mg.m, 'f8')
    sg = np.asarray(w.bkg.sigma_g_lookup(z, mg.chisq, m), 'f8')
    pdf = np.asarray(mg.chisq_pdf, 'f8') * np.asarray(mg.lum_pdf, 'f8')
    ok = (m < lim) & np.isfinite(sg) & (pdf > 0) & (m < np.asarray(depth.get_depth_values(ra, dec)[0]))
    pred = float(np.mean(sg[ok] / pdf[ok]))
    a0, a1 = (float(x) for x in conf.bkg_local_annuli)
    ring = (mg.r_uniform > a0) & (mg.r_uniform < a1)
    cover = float(np.mean(np.asarray(mask.compute_radmask(ra, dec))[ring].astype(bool)))
    r = mpc * ref.sphdist(c.ra, c.dec, w.gals.ra, w.gals.dec)[c.neighbors.index]
    mag = np.asarray(c.neighbors.refmag, 'f8')
    n = (r > a0) & (r < a1) & (mag < lim) & (np.asarray(c.neighbors.chisq) < mg.chisq.max()) & (mag < np.asarray(depth.get_depth_values(c.neighbors.ra, c.neighbors.dec)[0]))
    if cover == 0:
        return None
    return float(n.sum()) / (math.pi * (a1 ** 2 - a0 ** 2) / mpc ** 2 * cover) / pred


def process(conf, row, kw, claimed):
    """One position, from its own neighborhood; claimed: probability taken per galaxy (None: no masking)."""
    from redmapper import Zlambda
    from redmapper.zlambda import ZlambdaCorrectionPar
    key = None
    if claimed is None:
        key = (float(row['ra']), float(row['dec']), float(row['z']), str(sorted(kw.items())), conf.maskfile, str(conf.zlambdafile), conf.percolation_r0, conf.percolation_beta,
               conf.percolation_rmask_0, conf.percolation_rmask_beta, conf.lval_reference, limlum(conf), conf.zlambda_epsilon, conf.bkg_local_compute, tuple(float(x) for x in conf.bkg_local_annuli))
        if key in _EXP:
            return _EXP[key]
    out, near = None, False
    c, mask = stage.cluster_at(conf, row['ra'], row['dec'], row['z'], conf.percolation_r0, conf.percolation_beta, limlum(conf),
                                rad=max(stage.maxrad(conf, conf.percolation_r0, conf.percolation_beta), conf.bkg_local_annuli[1] if conf.bkg_local_compute else 0.0))
    if c is not None:
        mf = stage.masked_fraction(mask, 1.0)
        if claimed is not None:
            c.neighbors.pfree[:] = np.clip(1.0 - claimed[c.neighbors.index], 0, None)
        ok = mf <= 0.7
        maxiter = kw.get('maxiter', 5)
        with ref.fixed_random():
            for it in range(maxiter if ok else 0):
                lam = float(c.calc_richness(mask))
                near |= abs(lam - 3.0) < 0.02
                if lam < 3.0:
                    ok = False
                    break
                zl = Zlambda(c)
                z, e = zl.calc_zlambda(c.redshift, mask, calc_err=True, calcpz=True)
                if z < 0:
                    ok = False
                    break
                if not kw.get('converge_zlambda'):
                    break
                d = abs(float(c.redshift) - float(z))
                near |= abs(d - kw.get('tol', 0.005)) < 1e-4
                c.redshift = float(z)
                if d < kw.get('tol', 0.005):
                    break
        if ok:
            g = c.neighbors
            out = dict(lam=lam, lam_e=float(c.Lambda_e), scaleval=float(c.scaleval), r_lambda=float(c.r_lambda), z=float(z), ze=float(e), redshift=float(c.redshift),
                       maskfrac=stage.masked_fraction(mask, float(c.r_lambda)), idx=np.array(g.index), p=np.array(g.p), pmem=np.array(g.pmem), r=np.array(g.r),
                       pfree=np.array(g.pfree), mstar=float(c.mstar), pzbins=np.array(zl.pzbins), pz=np.array(zl.pz), theta_i=np.array(g.theta_i),
                       theta_r=np.array(g.theta_r), pcol=np.array(g.pcol), chisq=np.array(g.chisq))
            if os.path.isfile(str(conf.zlambdafile)):
                corr = ZlambdaCorrectionPar(conf.zlambdafile, zlambda_pivot=conf.zlambda_pivot)
                out['z'], out['ze'], out['pzbins'], out['pz'] = corr.apply_correction(lam, out['z'], out['ze'], pzbins=out['pzbins'].copy(), pzvals=out['pz'].copy())
            if conf.bkg_local_compute and not kw.get('converge_zlambda'):
                with ref.fixed_random():
                    out['local'] = local(conf, c, mask)
            eps = conf.zlambda_epsilon
            l = []
            with ref.fixed_random():
                for s in (-1, 1):
                    t = c.copy()
                    t.redshift = float(np.float32(out['z'])) + s * eps
                    l.append((float(t.calc_richness(mask)), float(t.Lambda_e)))
            if l[0][0] > 0 and l[1][0] > 0:
                out['dl'] = (math.log(l[1][0]) - math.log(l[0][0])) / (2 * eps)
    if key is not None:
        if len(_EXP) > 3000:
            _EXP.clear()
        _EXP[key] = (out, near)
    return out, near


def run(case):
    rows, over, kw = case
    cands = []
    for k, r in enumerate(rows):
        ra, dec, z = pipe.POOL[r['i']][:3]
        x = dict(ra=ra, dec=dec, z=z, Lambda=1.0, lnlike=1.0, tag=k + 1, refmag=1.0)
        x.update({n: v for n, v in r.items() if n != 'i'})
        cands.append(x)
    ids = [c.get('mem_match_id', 0) for c in cands]
    dup = len(set(ids)) != len(ids) and len(set(ids)) > 1
    if dup:
        try:
            run_cat(over, cands, kw)
            return ['repeated ids were accepted'], ('bad',), True
        except RuntimeError:
            return [], ('refused',), False
    conf, a, cat, mem, extra = run_cat(over, cands, kw)
    bad = []
    if extra:
        bad.append('files left: %s' % extra)
    if cat is None or cat.size != len(rows):
        return bad + ['%s rows for %d positions' % (None if cat is None else cat.size, len(rows))], ('bad',), True
    w = pipe.world()
    g = w.gals
    if len(set(ids)) == 1 and (len(ids) > 1 or ids[0] <= 0):
        ids = list(range(1, len(ids) + 1))
    claimed = np.zeros(g.size, 'f8') if kw.get('do_percolation_masking') else None
    n = 0
    lens = []
    for k, o in enumerate(cat):
        pre = 'position %d (%.4f %.4f z %.4f): ' % (k, a['ra'][k], a['dec'][k], a['z'][k])
        if o['ra'] != a['ra'][k] or o['dec'] != a['dec'][k] or o['z'] != a['z'][k] or o['z_spec_init'] != a['z_spec_init'][k]:
            return bad + [pre + 'the row is not that of its input'], ('bad',), True
        if o['mem_match_id'] != ids[k]:
            bad.append(pre + 'id %d, expected %d' % (o['mem_match_id'], ids[k]))
        near1 = ref.sphdist(o['ra'], o['dec'], g.ra, g.dec) * 3600
        j = int(np.argmin(near1))
        if near1[j] < 0.9:
            if (near1 < 1.1).sum() == 1 and (o['refmag'] != g.refmag[j] or np.any(o['mag'] != g.mag[j]) or np.any(o['mag_err'] != g.mag_err[j])):
                bad.append(pre + 'magnitudes are not those of the galaxy there')
        elif near1[j] > 1.1 and (o['refmag'] != a['refmag'][k] or np.any(o['mag'] != a['mag'][k])):
            bad.append(pre + 'magnitudes changed without a galaxy there')
        want, near = process(conf, a[k], kw, claimed)
        mm = None if mem is None else mem[mem['mem_match_id'] == o['mem_match_id']]
        if want is None:
            if not near:
                for f in ('lambda', 'lambda_e', 'scaleval', 'z_lambda', 'z_lambda_e'):
                    if o[f] != -1.0:
                        bad.append(pre + 'no cluster, but %s is %s' % (f, o[f]))
                if mm is not None and mm.size:
                    bad.append(pre + 'no cluster, but %d members' % mm.size)
            continue
        if near:
            if claimed is not None:
                break
            continue
        n += 1
        tol = 3e-3
        for f, v, t in (('lambda', want['lam'], tol * want['lam']), ('lambda_e', want['lam_e'], 0.01 * want['lam_e']), ('scaleval', want['scaleval'], tol), ('r_lambda', want['r_lambda'], tol),
                        ('z_lambda', want['z'], 4e-4), ('z_lambda_e', want['ze'], 1e-3), ('maskfrac', want['maskfrac'], 1e-2)):
            if not abs(o[f] - v) <= t:
                bad.append(pre + '%s is %s, expected %s' % (f, o[f], v))
        if 'dl' in want and not abs(o['dlambda_dz'] - want['dl']) <= 0.05 + 0.05 * abs(want['dl']):
            bad.append(pre + 'dlambda_dz is %s, expected %s' % (o['dlambda_dz'], want['dl']))
        if np.max(np.abs(o['pzbins'] - want['pzbins'])) > 2e-3 or np.max(np.abs(o['pz'] - want['pz'])) > 0.03 * np.max(want['pz']):
            bad.append(pre + 'p(z) is not that of the cluster')
        if want.get('local') is not None:
            if not abs(o['bkg_local'] - want['local']) <= 0.02 * want['local'] + 0.002:
                bad.append(pre + 'local background %s, expected %s' % (o['bkg_local'], want['local']))
        elif not conf.bkg_local_compute and o['bkg_local'] != 0:
            bad.append(pre + 'local background %s was not asked for' % o['bkg_local'])
        # members
        use = np.where(want['pmem'] > 0.01)[0]
        sure = set(int(g.id[want['idx'][q]]) for q in use if want['pmem'][q] > 0.0105 and want['pfree'][q] > 0.0105)
        may = set(int(g.id[want['idx'][q]]) for q in range(want['idx'].size) if want['pmem'][q] > 0.0095)
        got = [] if mm is None else mm['id'].tolist()
        if len(set(got)) != len(got) or not sure <= set(got) or not set(got) <= may:
            bad.append(pre + '%d members, expected %d' % (len(got), len(sure)))
        else:
            byid = {int(g.id[want['idx'][q]]): q for q in range(want['idx'].size)}
            for m in mm:
                q = byid[int(m['id'])]
                j = want['idx'][q]
                for f in ('ra', 'dec', 'refmag', 'refmag_err', 'mag', 'mag_err', 'ebv'):
                    if np.any(m[f] != g._ndarray[f][j].astype(m[f].dtype)):
                        bad.append(pre + 'member %s is not that of its galaxy' % f)
                for f, t in (('r', 1e-3), ('p', 5e-3), ('theta_i', 5e-3), ('theta_r', 2e-2), ('pcol', 5e-3), ('pfree', 1e-3), ('chisq', 0.02 * abs(want['chisq'][q]) + 0.02)):
                    if abs(m[f] - want[f][q]) > t:
                        bad.append(pre + 'member %s is %s, expected %s' % (f, m[f], want[f][q]))
                if abs(m['z'] - want['redshift']) > 5e-4:
                    bad.append(pre + 'member redshift %s' % m['z'])
                if bad:
                    break
        if mem is not None and mm is not None and mm.size:
            tot = float((mm['p'].astype('f8') * mm['theta_i'] * mm['theta_r'] * mm['pfree']).sum())
            rest = float(want['pmem'][want['pmem'] <= 0.0105].sum())
            if not want['lam'] / want['scaleval'] - rest - 0.05 - 0.01 * want['lam'] <= tot <= want['lam'] / want['scaleval'] + 0.01 * want['lam'] + 0.05:
                bad.append(pre + 'members sum to %s, richness %s' % (tot, want['lam'] / want['scaleval']))
        lens.append(len(got))
        if claimed is not None:
            rmask = max(conf.percolation_rmask_0 * (want['lam'] / 100) ** conf.percolation_rmask_beta * ((1 + want['redshift']) / (1 + conf.percolation_rmask_zpivot)) ** conf.percolation_rmask_gamma, want['r_lambda'])
            if abs(o['r_mask'] - rmask) > 3e-3:
                bad.append(pre + 'masking radius %s, expected %s' % (o['r_mask'], rmask))
            lm = conf.percolation_lmask if conf.percolation_lmask is not None and conf.percolation_lmask >= 0 else conf.lval_reference
            lim = want['mstar'] - 2.5 * math.log10(lm)
            cl = (np.asarray(g.refmag)[want['idx']] < lim) & (want['r'] < rmask) & (want['p'] > 0)
            claimed[want['idx'][cl]] += want['p'][cl]
        if bad:
            break
    if mem is not None and set(mem['mem_match_id'].tolist()) - set(cat['mem_match_id'].tolist()):
        bad.append('members of unknown clusters')
    return bad[:3], (n, len(rows), str(sorted(kw)), tuple(lens)[:3]), n > 0


def body(check):
    pipe.setup()
    stage.mask_file('cut'), stage.mask_file('frac')
    th = check.thorough
    S = {'a': dict(i=0), 'b': dict(i=3), 'c': dict(i=10), 'poor': dict(i=16), 'far': dict(i=0, ra=150.0, dec=40.0), 'wrongz': dict(i=0, z=0.45),
         'off': dict(i=0, ra=140.657, dec=65.939), 'edge': dict(i=15), 'a2': dict(i=1), 'west': dict(i=5), 'empty': dict(i=0, ra=140.9, dec=65.5, z=0.12),
         'hiz': dict(i=3, z=0.58), 'loz': dict(i=3, z=0.06)}
    sets = [[S[k]] for k in S]
    five = ('a', 'a2', 'poor', 'far', 'b')
    sets += [[S[k] for k in p] for n in (2, 3) for p in itertools.permutations(five, n)]
    sets += [[S[k] for k in S], [S[k] for k in reversed(list(S))]]
    allp = [dict(i=i) for i in range(20)]
    sets += [allp, allp[::-1]]
    modes = [{}, {'do_percolation_masking': True}]
    cases = [[s, {}, k] for s in sets for k in modes]
    big = [sets[-4], allp[:12]]
    for k in ({'converge_zlambda': True}, {'converge_zlambda': True, 'maxiter': 1}, {'converge_zlambda': True, 'maxiter': 2, 'tol': 1e-5}, {'converge_zlambda': True, 'do_percolation_masking': True}):
        cases += [[s, o, k] for s in big for o in ({}, {'zlambdafile': 'yes'})]
    for over in ({'maskfile': 'cut'}, {'maskfile': 'frac'}, {'zlambdafile': 'yes'}, {'percolation_r0': 0.7, 'percolation_beta': 0.0}, {'percolation_memlum': 0.15}, {'percolation_lmask': 0.05},
                 {'percolation_lmask': 0.5}, {'lval_reference': 0.4}, {'percolation_rmask_0': 2.0}, {'use_tempfiles_to_conserve_memory': True}, {'zlambda_epsilon': 0.01},
                 {'percolation_rmask_0': 0.3, 'percolation_rmask_beta': 0.0, 'percolation_rmask_gamma': 1.0}):
        cases += [[s, over, k] for s in big for k in modes]
    # local background
    for ann in ([2.0, 3.0], [1.0, 2.0], [0.5, 4.0]):
        for o in ({}, {'maskfile': 'cut'}, {'maskfile': 'frac'}, {'lval_reference': 0.4}, {'percolation_memlum': 0.15}):
            cases += [[s, dict(o, bkg_local_compute=True, bkg_local_annuli=ann), k] for s in big for k in modes]
    # positions stacked on each other
    for z in itertools.permutations((-0.03, -0.01, 0.0, 0.02), 3):
        cases += [[[dict(i=i, z=pipe.POOL[i][2] + d) for d in z], {}, {'do_percolation_masking': True}] for i in ((3, 7) if not th else (0, 3, 7, 11))]
    # ids
    for i in itertools.product((0, 4, 9), repeat=3):
        cases.append([[dict(i=k, mem_match_id=m) for k, m in zip((0, 3, 10), i)], {}, {}])
    cases += [[[dict(i=0, mem_match_id=m)], {}, {}] for m in (0, -1, 17)]
    if th:
        cases += [[[S[k] for k in p], {}, m] for p in itertools.permutations(five + ('c', 'edge'), 3) for m in modes]
        cases += [[[S[k] for k in p], {'maskfile': 'cut'}, m] for p in itertools.permutations(five, 3) for m in modes]
    check.run_cases(cases, run, 'lists')


if __name__ == '__main__':
    core.main('C18', 'exploration',
              'All listed lists of positions (every kind alone, all ordered pairs and triples of five kinds, all together) with and without masking, '
              'x options, redshift iteration, stacked positions and preset ids; every row recomputed from its own neighborhood. Non-trivial: a cluster results.', body)
