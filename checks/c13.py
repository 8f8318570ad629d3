"""C13: the likelihood stage scores exactly the usable candidates, each by the definition of the likelihood."""
import itertools
import math
import os
import shutil

import numpy as np

from mc import build, core, pipe, ref, rm, stage

ZCORR = os.path.join(build.DATA, 'test_dr8_zlambdacorr.fit')


def run_like(over, rows, kw):
    import fitsio
    from redmapper import RunLikelihoods
    d = rm.workdir('c13')
    try:
        over = {k: (rm.DROP if v == 'DROP' else v) for k, v in over.items()}
        if over.get('maskfile') in ('cut', 'frac'):
            over['maskfile'] = stage.mask_file(over['maskfile'])
        if over.get('zlambdafile') == 'yes':
            over['zlambdafile'] = ZCORR
        conf = pipe.config(d, **over)
        conf.catfile = pipe.write_candidates(os.path.join(d, 'in.fit'), conf, rows)
        a = fitsio.read(conf.catfile, ext=1, lower=True)
        # earlier values must not survive
        a['lnlike'], a['lnlamlike'], a['lncglike'] = 7.0, 8.0, 9.0
        for k, r in enumerate(rows):
            if 'z_lambda' in r:
                a['z_lambda'][k] = r['z_lambda']
        fitsio.write(conf.catfile, a, clobber=True)
        with ref.fixed_random():
            r = RunLikelihoods(conf)
            r.run(**kw)
        r.output(savemembers=True, withversion=False, clobber=True)
        fn = os.path.join(d, os.path.basename(conf.redmapper_filename('like_catalog')))
        cat = fitsio.read(fn, ext=1, lower=True) if os.path.isfile(fn) else None
        extra = sorted(set(os.listdir(d)) - {'c.yml', 'in.fit', os.path.basename(fn)})
        return conf, a, cat, extra
    finally:
        shutil.rmtree(d, ignore_errors=True)


def gauss(x, m, s):
    return math.exp(-0.5 * ((x - m) / s) ** 2) / (math.sqrt(2 * math.pi) * s)


def expected(conf, row):
    limlum = max(conf.lval_reference - 0.1, 0.01)
    usez = bool(conf.likelihoods_use_zred)
    c, mask = stage.cluster_at(conf, row['ra'], row['dec'], row['z'], conf.likelihoods_r0, conf.likelihoods_beta, limlum, conf.chisq_max if usez else None)
    if c is None or stage.masked_fraction(mask, 1.0) >= 1.0:
        return None, False
    with ref.fixed_random():
        lam = float(c.calc_richness(mask))
    g = c.neighbors
    pm, r = np.asarray(g.pmem, 'f8'), np.asarray(g.r, 'f8')
    j = int(np.argmin(r))
    inc = (pm > 0) & (r > r[j])
    near = abs(lam - conf.likelihoods_minlambda) < 0.01 * conf.likelihoods_minlambda
    if lam < conf.likelihoods_minlambda or inc.sum() < 3:
        return None, near
    sv = float(c.scaleval)
    lnlam = -lam / sv - float(np.sum(np.log(1.0 - pm[inc])))
    if conf.lnw_cen_sigma <= 0:
        lncg = 0.0
    else:
        mstar = float(pipe.world().par.mstar(float(np.float32(row['z']))))
        mbar = mstar + conf.wcen_Delta0 + conf.wcen_Delta1 * math.log(lam / conf.wcen_pivot)
        lphi = -0.5 * ((float(g.refmag[j]) - mbar) / conf.wcen_sigma_m) ** 2 - math.log(math.sqrt(2 * math.pi) * conf.wcen_sigma_m)
        if usez:
            zr = float(row['z_lambda'])
            if conf.zlambdafile == ZCORR:
                from redmapper.zlambda import ZlambdaCorrectionPar
                zc = ZlambdaCorrectionPar(conf.zlambdafile, zlambda_pivot=conf.zlambda_pivot)
                zr = float(np.interp(zr, zc.z, zc.zred_uncorr))
            w = pipe.world().gals
            k = int(g.index[j])
            gg = gauss(float(w.zred[k]), zr, float(w.zred_e[k]))
        else:
            from scipy import stats
            gg = float(stats.chi2.pdf(float(g.chisq[j]), pipe.world().par.ncol))
        lum = 10 ** ((mstar - np.asarray(g.refmag, 'f8')) / 2.5)
        u = (r > 1e-5) & (pm > 0)
        ww = math.log(np.sum(pm[u] * lum[u] / np.sqrt(r[u] ** 2 + conf.wcen_rsoft ** 2)) / (np.sum(pm[u] * lum[u]) / float(c.r_lambda)))
        sig = conf.lnw_cen_sigma / math.sqrt(min(lam, conf.wcen_maxlambda) / sv / conf.wcen_pivot)
        if ww <= 0:
            lncg = float('nan')
        else:
            lncg = lphi + math.log(max(gg, 1e-10)) - 0.5 * ((math.log(ww) - conf.lnw_cen_mean) / sig) ** 2 - math.log(math.sqrt(2 * math.pi) * sig)
    return dict(lam=lam, e=float(c.Lambda_e), lnlam=lnlam, lncg=lncg, sv=sv, rl=float(c.r_lambda), mf=stage.masked_fraction(mask, float(c.r_lambda))), near


def run(case):
    rows, over, kw = case
    rows = [dict(r) for r in rows]
    for r in rows:
        p = pipe.POOL[r.pop('i')]
        j = pipe.nearest(*p[:2])
        g = pipe.world().gals
        for k, v in (('ra', float(g.ra[j])), ('dec', float(g.dec[j])), ('z', p[2]), ('Lambda', p[3]), ('lnlike', 0.0)):
            r.setdefault(k, v)
    for k, r in enumerate(rows):
        r['mem_match_id'] = 100 + k
    conf, a, cat, extra = run_like(dict(over), rows, dict(kw))
    bad = []
    if extra:
        bad.append('files left: %s' % extra)
    lo, hi = conf.zrange
    if kw.get('keepz'):
        lo, hi = max(lo - conf.calib_zrange_cushion, 0.05), hi + conf.calib_zrange_cushion
    limlum = max(conf.lval_reference - 0.1, 0.01)
    w = pipe.world()
    mlim = np.array([float(w.par.mstar(float(z))) for z in a['z']]) - 2.5 * math.log10(limlum)
    use = (a['z'] > lo) & (a['z'] < hi) & (a['lambda'] > 0) & (a['refmag'] < mlim)
    if kw.get('cleaninput'):
        import healsparse
        m = healsparse.HealSparseMap.read(conf.maskfile)
        f = m.get_values_pos(a['ra'], a['dec'], lonlat=True)
        got = set() if cat is None else set(cat['mem_match_id'].tolist())
        use &= np.array([v >= 1.0 or (v > 0 and int(i) in got) for v, i in zip(f, a['mem_match_id'])])
    k = n = 0
    for row in a[use]:
        want, near = expected(conf, row)
        here = cat is not None and k < cat.size and cat['mem_match_id'][k] == row['mem_match_id']
        if not here:
            if want is not None and not near:
                bad.append('candidate %s (z %.3f, richness %.2f) is missing' % (row['mem_match_id'], row['z'], want['lam']))
            continue
        o = cat[k]
        k += 1
        n += 1
        if want is None:
            if not near:
                bad.append('candidate %s has no usable richness but is in the catalog with %s' % (row['mem_match_id'], o['lambda']))
            continue
        for f in a.dtype.names:
            if f in ('ra', 'dec', 'z', 'refmag', 'refmag_err', 'mag', 'mag_err', 'z_lambda', 'z_spec_init', 'z_init', 'zred', 'zred_e') and not np.array_equal(o[f], row[f]):
                bad.append('%s changed from %s to %s' % (f, row[f], o[f]))
        tl = 0.02 + 5e-3 * abs(want['lnlam'])
        tc = 0.05 + 5e-3 * abs(want['lncg'])
        for f, v, tol in (('lambda', want['lam'], 2e-3 * want['lam']), ('lambda_e', want['e'], 0.02 * want['e']), ('scaleval', want['sv'], 2e-3),
                          ('r_lambda', want['rl'], 2e-3), ('maskfrac', want['mf'], 0.01), ('lnlamlike', want['lnlam'], tl), ('lncglike', want['lncg'], tc),
                          ('lnlike', want['lnlam'] + want['lncg'], tl + tc)):
            if np.isnan(v) and np.isnan(o[f]):
                continue
            if not abs(o[f] - v) <= tol:
                bad.append('%s of candidate %s is %s, expected %s' % (f, row['mem_match_id'], o[f], v))
    if cat is not None and k != cat.size:
        bad.append('%d rows are not usable candidates in their order' % (cat.size - k))
    return bad, (n, len(rows), tuple(sorted(kw))), n > 0


def body(check):
    pipe.setup()
    stage.mask_file('cut'), stage.mask_file('frac')
    th = check.thorough
    allc = [dict(i=i) for i in range(20)]
    S = {'a': dict(i=0), 'b': dict(i=3), 'poor': dict(i=16), 'zlow': dict(i=0, z=0.0499), 'zhigh': dict(i=7, z=0.62), 'lam0': dict(i=3, Lambda=0.0), 'neg': dict(i=3, Lambda=-1.0),
         'faint': dict(i=0, refmag=22.5), 'far': dict(i=0, ra=150.0, dec=40.0), 'zl': dict(i=0, z_lambda=0.32), 'off': dict(i=10, ra=140.6, dec=65.45),
         'z1': dict(i=11, z=0.6), 'empty': dict(i=0, ra=141.9, dec=66.6), 'wrong': dict(i=3, z=0.2)}
    cases = [[[S[k]], {}, {}] for k in S]
    cases += [[list(p), {}, {}] for n in (2, 3) for p in itertools.permutations([S['a'], S['b'], S['poor'], S['far'], S['lam0']], n)]
    opts = [{}, {'likelihoods_use_zred': False}, {'lnw_cen_sigma': -1.0}, {'zlambdafile': 'yes'}, {'likelihoods_minlambda': 10.0}, {'likelihoods_minlambda': 20.0},
            {'likelihoods_r0': 0.5, 'likelihoods_beta': 0.0}, {'zrange': [0.3132, 0.4]}, {'maskfile': 'cut'}, {'maskfile': 'frac'}, {'lval_reference': 0.4},
            {'wcen_maxlambda': 10.0}, {'wcen_pivot': 10.0}, {'wcen_rsoft': 0.2}, {'wcen_Delta1': 0.8}, {'chisq_max': 5.0}, {'use_tempfiles_to_conserve_memory': True},
            {'likelihoods_use_zred': False, 'zlambdafile': 'yes', 'maskfile': 'cut'}, {'lnw_cen_mean': 0.6}, {'lnw_cen_sigma': 0.005}, {'wcen_sigma_m': 0.05}]
    kws = [dict(z) for n in range(3) for z in itertools.combinations([('keepz', True), ('cleaninput', True)], n)]
    for o in opts:
        for kw in (kws if th or o in opts[:1] or 'maskfile' in o or 'zrange' in o else kws[:1]):
            cases += [[allc, o, kw], [list(S.values()), o, kw]]
    if th:
        cases += [[[dict(i=i, z=pipe.POOL[i][2] + dz) for i in range(20)], o, {}] for dz in (-0.04, -0.02, -0.01, 0.01, 0.02, 0.04) for o in opts]
        cases += [[[dict(i=i, Lambda=1.0, z_lambda=pipe.POOL[i][2] + dz) for i in range(20)], o, {}] for dz in (-0.02, 0.02) for o in opts]
    check.run_cases(cases, run, 'likelihood')


if __name__ == '__main__':
    core.main('C13', 'exploration',
              'All listed candidate lists (each kind alone, all ordered pairs and triples of five kinds, all together) x options x run flags. '
              'Non-trivial: at least one candidate is scored.', body)
