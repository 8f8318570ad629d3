"""C12: the first pass turns exactly the acceptable seeds into clusters, each from its own neighborhood alone."""
import itertools
import math
import os
import shutil

import numpy as np

from mc import core, pipe, ref, rm, stage


def run_fp(over, seeds=None, kw=None, specmode=False):
    import fitsio
    from redmapper import RunFirstPass
    d = rm.workdir('c12')
    try:
        over = dict(over)
        if over.get('maskfile') in ('cut', 'frac'):
            over['maskfile'] = stage.mask_file(over['maskfile'])
        if seeds is not None:
            over['seedfile'] = os.path.join(d, 'seeds.fit')
            fitsio.write(over['seedfile'], seeds, clobber=True)
        conf = pipe.config(d, **over)
        with ref.fixed_random():
            r = RunFirstPass(conf, specmode=specmode)
            r.run(**(kw or {}))
        r.output(savemembers=True, withversion=False, clobber=True)
        fn = os.path.join(d, os.path.basename(conf.redmapper_filename(('firstpass_spec' if specmode else 'firstpass') + '_catalog')))
        cat = fitsio.read(fn, ext=1, lower=True) if os.path.isfile(fn) else None
        extra = sorted(set(os.listdir(d)) - {'c.yml', 'seeds.fit', os.path.basename(fn)})
        return conf, cat, extra
    finally:
        shutil.rmtree(d, ignore_errors=True)


_EXP = {}


def expected(conf, s, zstart, keepz, niter, chisq_max):
    """(Lambda, z_lambda, ...) of one seed, or None."""
    from redmapper.zlambda import Zlambda
    key = (float(s['ra']), float(s['dec']), float(zstart), keepz, niter, conf.firstpass_r0, conf.firstpass_beta, conf.firstpass_minlambda,
           tuple(conf.zrange), os.path.basename(os.path.dirname(os.path.dirname(conf.maskfile))), chisq_max, conf.lval_reference)
    if key in _EXP:
        return _EXP[key]
    out = None
    limlum = max(conf.lval_reference - 0.1, 0.01)
    c, mask = stage.cluster_at(conf, s['ra'], s['dec'], zstart, conf.firstpass_r0, conf.firstpass_beta, limlum, chisq_max)
    near = False
    if c is not None and stage.masked_fraction(mask, 1.0) < 1.0:
        for k in range(niter):
            with ref.fixed_random():
                lam = float(c.calc_richness(mask, calc_err=False))
            m = conf.firstpass_minlambda
            near |= abs(lam - m) < 0.02 * m or (lam > 0 and abs(lam - m / float(c.scaleval)) < 0.02 * m)
            if lam < m / abs(float(c.scaleval)) or lam < 0:
                break
            with ref.fixed_random():
                z, e = Zlambda(c).calc_zlambda(c.redshift, mask, calc_err=True)
            near |= min(abs(z - conf.zrange[0]), abs(z - conf.zrange[1])) < 1e-3
            if not conf.zrange[0] <= z <= conf.zrange[1]:
                break
            if not keepz:
                c.redshift = float(z)
        else:
            if lam >= conf.firstpass_minlambda:
                j = int(np.argmin(c.neighbors.r))
                out = dict(lam=lam, z_lambda=float(z), z_lambda_e=float(e), scaleval=float(c.scaleval), r_lambda=float(c.r_lambda),
                           maskfrac=stage.masked_fraction(mask, float(c.r_lambda)), chisq=float(c.neighbors.chisq[j]))
    if len(_EXP) > 4000:
        _EXP.clear()
    _EXP[key] = (out, near)
    return _EXP[key]


COPIED = ('ra', 'dec', 'mag', 'mag_err', 'refmag', 'refmag_err', 'zred', 'zred_e', 'zred_chisq')


def compare(conf, cat, seeds, keepz, specmode, chisq_max, bad, withebv):
    """Rows of the catalog against the seeds that should have been used."""
    niter = 1 if specmode else int(conf.firstpass_niter)
    k = 0
    n = 0
    for s in seeds:
        z0 = s['zspec'] if specmode else s['zred']
        want, near = expected(conf, s, z0, keepz, niter, chisq_max)
        here = cat is not None and k < cat.size and cat['ra'][k] == s['ra'] and cat['dec'][k] == s['dec']
        if not here:
            if want is not None and not near:
                bad.append('seed at %.4f %.4f z %.4f: richness %.2f at z %.4f, but not in the catalog' % (s['ra'], s['dec'], z0, want['lam'], want['z_lambda']))
            continue
        row = cat[k]
        k += 1
        n += 1
        if want is None:
            if not near:
                bad.append('seed at %.4f %.4f z %.4f gives no cluster, but is in the catalog with richness %s' % (s['ra'], s['dec'], z0, row['lambda']))
            continue
        for f in COPIED:
            if not np.array_equal(row[f], s[f]):
                bad.append('%s of a cluster is %s, its seed has %s' % (f, row[f], s[f]))
        if withebv and (row['ebv_mean'] != s['ebv'] or row['z_spec_init'] != s['zspec']):
            bad.append('ebv or zspec of the seed not kept')
        if abs(row['z_init'] - z0) > 1e-6:
            bad.append('z_init %s, expected %s' % (row['z_init'], z0))
        for f, v, tol in (('lambda', want['lam'], 2e-3 * want['lam']), ('z_lambda', want['z_lambda'], 4e-4), ('z_lambda_e', want['z_lambda_e'], 1e-3),
                          ('scaleval', want['scaleval'], 2e-3), ('r_lambda', want['r_lambda'], 2e-3), ('maskfrac', want['maskfrac'], 1e-2),
                          ('chisq', want['chisq'], 0.02 * abs(want['chisq']) + 0.02)):
            if not abs(row[f] - v) <= tol:
                bad.append('%s of the seed at %.4f %.4f z %.4f is %s, expected %s' % (f, s['ra'], s['dec'], z0, row[f], v))
        zz = s['zspec'] if specmode else row['z_lambda']
        if abs(row['z'] - zz) > 1e-6:
            bad.append('z %s, expected %s' % (row['z'], zz))
    if cat is not None and k != cat.size:
        bad.append('%d rows of the catalog are not accepted seeds in their order' % (cat.size - k))
    return n


def accept(conf, seeds):
    """The selection of seeds from a file."""
    use = (seeds['zred'] >= conf.zrange[0]) & (seeds['zred'] <= conf.zrange[1]) & (seeds['zred_chisq'] < conf.chisq_max)
    return seeds[use]


def run_seeds(case):
    rows, over, keepz, specmode, clean = case
    seeds = stage.seeds_from([dict(r) for r in rows])
    over = dict(over)
    conf, cat, extra = run_fp(over, seeds, dict(keepz=keepz, cleaninput=clean), specmode)
    bad = []
    if extra:
        bad.append('files left: %s' % extra)
    want = accept(conf, seeds)
    if clean and want.size:
        import healsparse
        m = healsparse.HealSparseMap.read(conf.maskfile)
        f = m.get_values_pos(want['ra'], want['dec'], lonlat=True)
        # a partly covered position is inside or not by chance
        got = set() if cat is None else set(zip(cat['ra'], cat['dec']))
        want = want[[(v >= 1.0) or (v > 0.0 and (a, b) in got) for v, a, b in zip(f, want['ra'], want['dec'])]]
    n = compare(conf, cat, want, keepz, specmode, conf.chisq_max, bad, True)
    if cat is not None and np.any(cat['lambda'] < conf.firstpass_minlambda):
        bad.append('richness below the minimum in the catalog')
    return bad, (n, len(rows), keepz, specmode, clean), n > 0


def run_gals(case):
    zr, lval, over = case
    over = dict(over, zrange=zr, lval_reference=lval)
    conf, cat, extra = run_fp(over)
    bad = []
    if extra:
        bad.append('files left: %s' % extra)
    w = pipe.world()
    g = w.gals._ndarray
    with np.errstate(all='ignore'):
        use = (g['zred'] >= zr[0]) & (g['zred'] <= zr[1]) & (g['chisq'] < conf.chisq_max)
        use[use] &= g['refmag'][use] < np.array([float(w.par.mstar(z)) for z in g['zred'][use]]) - 2.5 * math.log10(lval)
    seeds = stage.seeds_from([dict(gal=int(i)) for i in np.where(use)[0]])
    n = compare(conf, cat, seeds, False, False, conf.chisq_max, bad, False)
    return bad, (n, seeds.size), n > 0


def body(check):
    pipe.setup()
    stage.mask_file('cut'), stage.mask_file('frac')
    th = check.thorough
    f32 = lambda x: float(np.float32(x))    # noqa
    lo, hi = 0.3, 0.45
    up, dn = float(np.nextafter(np.float32(1), np.float32(2))), float(np.nextafter(np.float32(1), np.float32(0)))
    # seeds: everyday ones, on the limits of the selection, off the footprint, without neighbors
    S = {'a': dict(i=0), 'b': dict(i=3), 'c': dict(i=10), 'd': dict(i=7), 'poor': dict(i=16), 'zlow': dict(i=0, zred=f32(0.05) * dn),
         'zhigh': dict(i=3, zred=0.6001), 'chi': dict(i=10, chisq=20.0), 'chi2': dict(i=10, chisq=19.999), 'far': dict(i=0, ra=150.0, dec=40.0),
         'wrongz': dict(i=0, zred=0.45), 'off': dict(i=0, ra=140.657, dec=65.939), 'edge': dict(i=15), 'neg': dict(i=0, zred=-1.0),
         'a2': dict(i=1), 'faint': dict(i=0, refmag=21.9), 'spec': dict(i=13, zspec=0.377), 'west': dict(i=5)}
    sets = [[S[k]] for k in S] + [[], ]
    sets = [s for s in sets if s]
    sets += [list(p) for n in (2, 3) for p in itertools.permutations([S['a'], S['a2'], S['poor'], S['zhigh'], S['far']], n)]
    sets += [[S[k] for k in S], [S[k] for k in reversed(list(S))]]
    sets += [[dict(i=i) for i in range(20)]]
    cases = [[s, {}, False, False, False] for s in sets]
    big = [sets[-1], sets[-2]]
    base = [S['a'], S['b'], S['c'], S['poor'], S['west'], S['spec'], S['far']]
    for keepz, spec, clean in itertools.product((False, True), repeat=3):
        for over in ({}, {'maskfile': 'cut'}, {'maskfile': 'frac'}):
            cases += [[base, over, keepz, spec, clean]]
        cases += [[[dict(r, zspec=z) for r in base], {}, keepz, spec, clean] for z in (0.31, 0.38)]
    for over in ({'firstpass_minlambda': 8.0}, {'firstpass_minlambda': 15.0}, {'firstpass_niter': 1}, {'firstpass_niter': 3}, {'firstpass_r0': 1.0, 'firstpass_beta': 0.2},
                 {'firstpass_r0': 0.8, 'firstpass_beta': 0.0}, {'zrange': [0.3, 0.4]}, {'zrange': [f32(0.3132), 0.5]}, {'chisq_max': 10.0},
                 {'lval_reference': 0.4}, {'maskfile': 'cut', 'firstpass_r0': 1.0, 'firstpass_beta': 0.2}, {'use_tempfiles_to_conserve_memory': True}):
        for s in big:
            cases += [[s, over, kz, False, False] for kz in (False, True)]
    # selection on the exact limits
    for zred in (lo, hi):
        for m in (dn, 1.0, up):
            cases.append([[dict(i=i, zred=float(np.float32(zred)) * m) for i in (0, 3, 10)], {'zrange': [f32(lo), f32(hi)]}, True, False, False])
    check.run_cases(cases, run_seeds, 'seeds')
    zrs = [[0.30, 0.32], [0.35, 0.37], [0.38, 0.385], [0.10, 0.16], [0.48, 0.49], [0.59, 0.60]]
    if th:
        zrs += [[0.05 + 0.025 * k, 0.075 + 0.025 * k] for k in range(22)] + [[0.05, 0.6]]
    gc = [[z, l, o] for z in zrs for l, o in ((0.2, {}), (0.5, {}), (0.2, {'firstpass_r0': 1.0, 'firstpass_beta': 0.2}), (0.2, {'use_tempfiles_to_conserve_memory': True}),
                                             (0.2, {'chisq_max': 5.0}))]
    check.run_cases(gc, run_gals, 'galaxies')


if __name__ == '__main__':
    core.main('C12', 'exploration',
              'All listed seed lists (all ordered pairs and triples of five kinds of seeds, each kind alone, all of them) x options x keepz x '
              'spectroscopic mode x input cleaning, and seeds taken from the galaxies of redshift slices. Non-trivial: a cluster results.', body)
