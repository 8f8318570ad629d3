"""C19: scanning positions in redshift finds the most likely redshift of each and its cluster there."""
import itertools
import math
import os
import shutil

import numpy as np

from mc import build, core, pipe, ref, rm, stage

ZCORR = os.path.join(build.DATA, 'test_dr8_zlambdacorr.fit')
_EXP = {}


def options(over):
    over = {k: (rm.DROP if v == 'DROP' else v) for k, v in over.items()}
    if over.get('maskfile') in ('cut', 'frac'):
        over['maskfile'] = stage.mask_file(over['maskfile'])
    if over.get('zlambdafile') == 'yes':
        over['zlambdafile'] = ZCORR
    return over


def run_scan(over, rows):
    import fitsio
    from redmapper import RunZScan
    d = rm.workdir('c19')
    try:
        conf = pipe.config(d, **options(over))
        conf.catfile = pipe.write_candidates(os.path.join(d, 'in.fit'), conf, rows)
        a = fitsio.read(conf.catfile, ext=1, lower=True)
        with ref.fixed_random():
            r = RunZScan(conf)
            r.run()
        r.output(savemembers=True, withversion=False, clobber=True)
        fn, mf = conf.redmapper_filename('zscan_catalog'), conf.redmapper_filename('zscan_catalog_members')
        cat = fitsio.read(fn, ext=1, lower=True) if os.path.isfile(fn) else None
        mem = fitsio.read(mf, ext=1, lower=True) if os.path.isfile(mf) else None
        extra = sorted(set(os.listdir(d)) - {'c.yml', 'in.fit', os.path.basename(fn), os.path.basename(mf)})
        return conf, a, cat, mem, extra
    finally:
        shutil.rmtree(d, ignore_errors=True)


def scan(conf, ra, dec):
    """Richness and likelihood at every redshift (-1: nothing there), and whether a decision is close."""
    zs = [conf.zrange[0] + k * conf.zscan_zstep for k in range(int(math.ceil((conf.zrange[1] - conf.zrange[0]) / conf.zscan_zstep)))]
    limlum = max(conf.lval_reference - 0.1, 0.01)
    rad = 1.2 * conf.zscan_r0 if conf.zscan_beta == 0 else conf.zscan_r0 * 3.0 ** conf.zscan_beta
    lam, like, near = [], [], []
    c0, mask = stage.cluster_at(conf, ra, dec, zs[0], conf.zscan_r0, conf.zscan_beta, None, rad=rad)
    if c0 is None or stage.masked_fraction(mask, 1.0) >= 1.0:
        return None
    for z in zs:
        c, mask = stage.cluster_at(conf, ra, dec, z, conf.zscan_r0, conf.zscan_beta, limlum, rad=rad)
        lam.append(-1.0)
        like.append(-1.0)
        near.append(False)
        if c is None or c.neighbors.size < 2:
            continue
        with ref.fixed_random():
            l = float(c.calc_richness(mask, calc_err=False))
        near[-1] = abs(l - conf.zscan_minlambda) < 0.02
        if l < conf.zscan_minlambda:
            continue
        pm, r = np.asarray(c.neighbors.pmem, 'f8'), np.asarray(c.neighbors.r)
        u = (pm > 0) & (pm < 1) & (r > 1e-6)
        lam[-1] = l
        like[-1] = -l / float(c.scaleval) - np.log(1 - pm[u]).sum() if u.any() else -1.0
    return np.array(zs), np.array(lam), np.array(like), np.array(near)


def expected(conf, ra, dec):
    from redmapper import Zlambda
    from redmapper.zlambda import ZlambdaCorrectionPar
    key = (float(ra), float(dec), tuple(conf.zrange), conf.zscan_zstep, conf.zscan_r0, conf.zscan_beta, conf.zscan_minlambda, conf.percolation_r0, conf.percolation_beta,
           conf.lval_reference, conf.maskfile, str(conf.zlambdafile), conf.centerclass, conf.percolation_maxcen)
    if key in _EXP:
        return _EXP[key]
    out = dict(ok=False, near=False)
    s = scan(conf, ra, dec)
    if s is not None:
        zs, lam, like, near = s
        out.update(zs=zs, lams=lam, likes=like, nears=near)
        srt = np.sort(like)[::-1]
        out['near'] = bool(near.any()) or (srt.size > 1 and srt[0] > -1 and srt[0] - srt[1] < 0.02)
        k = int(np.argmax(like))
        if lam[k] >= conf.zscan_minlambda:
            refine(conf, ra, dec, zs[k], out)
    if len(_EXP) > 2000:
        _EXP.clear()
    _EXP[key] = out
    return out


def refine(conf, ra, dec, zmax, out):
    import redmapper
    from redmapper import Zlambda, ZredBackground
    from redmapper.zlambda import ZlambdaCorrectionPar
    r0, beta = conf.percolation_r0, conf.percolation_beta
    rad = 1.2 * r0 if beta == 0 else r0 * 3.0 ** beta
    limlum = max(conf.lval_reference - 0.1, 0.01)
    c, mask = stage.cluster_at(conf, ra, dec, zmax, r0, beta, limlum, rad=2 * rad)
    depth = stage.tools(conf)[1]
    c.zredbkg = ZredBackground(conf.bkgfile)

    def remask():
        with ref.fixed_random():
            mask.set_radmask(c)
            depth.calc_maskdepth(mask.maskgals, c.ra, c.dec, c.mpc_scale)
    with ref.fixed_random():
        lam = float(c.calc_richness(mask))
    out['near'] |= abs(lam / float(c.scaleval) - conf.zscan_minlambda) < 0.02
    if lam / float(c.scaleval) < conf.zscan_minlambda:
        return
    zl = Zlambda(c)
    with ref.fixed_random():
        z, e = zl.calc_zlambda(c.redshift, mask, calc_err=True, calcpz=True)
    if z < 0:
        return
    c.redshift = float(z)
    remask()
    with ref.fixed_random():
        lam = float(c.calc_richness(mask))
    out['near'] |= abs(lam / float(c.scaleval) - conf.zscan_minlambda) < 0.02 or abs(lam - conf.zscan_minlambda) < 0.02
    if lam / float(c.scaleval) < conf.zscan_minlambda or lam < conf.zscan_minlambda:
        return
    c.redshift = float(np.float32(z))
    cent = getattr(redmapper, conf.centerclass)(c)
    found = cent.find_center() and cent.ngood > 0
    out.update(ok=True, lam=lam, lam_e=float(c.Lambda_e), scaleval=float(c.scaleval), r_lambda=float(c.r_lambda), z=float(z), ze=float(e), redshift=float(z), found=bool(found),
               maskfrac=stage.masked_fraction(mask, float(c.r_lambda)), pzbins=np.array(zl.pzbins), pz=np.array(zl.pz), idx=np.array(c.neighbors.index), pmem=np.array(c.neighbors.pmem),
               p=np.array(c.neighbors.p), r=np.array(c.neighbors.r))
    if found:
        o = c.copy()
        o.ra, o.dec = cent.ra[0], cent.dec[0]
        o.redshift = c.redshift
        o.update_neighbors_dist()
        with ref.fixed_random():
            o.calc_richness(mask)
            zo, eo = Zlambda(o).calc_zlambda(o.redshift, mask, calc_err=True, calcpz=False)
        j = int(cent.index[0])
        out.update(ra_opt=float(cent.ra[0]), dec_opt=float(cent.dec[0]), lam_opt=float(o.Lambda), lam_opt_e=float(o.Lambda_e), z_opt=float(zo), z_opt_e=float(eo), ngood=int(cent.ngood),
                   p_cen=np.array(cent.p_cen), gal=int(c.neighbors.index[j]) if j >= 0 else -1, cents=[int(c.neighbors.index[q]) for q in cent.index[:cent.ngood] if q >= 0])
    if os.path.isfile(str(conf.zlambdafile)):
        corr = ZlambdaCorrectionPar(conf.zlambdafile, zlambda_pivot=conf.zlambda_pivot)
        out['z'], out['ze'], out['pzbins'], out['pz'] = corr.apply_correction(lam, out['z'], out['ze'], pzbins=out['pzbins'].copy(), pzvals=out['pz'].copy())


def run(case):
    pos, over = case
    rows = [dict(ra=ra, dec=dec, z=0.77, Lambda=2.0, lnlike=1.0, tag=k + 1) for k, (ra, dec) in enumerate(pos)]
    conf, a, cat, mem, extra = run_scan(over, rows)
    bad = []
    if extra:
        bad.append('files left: %s' % extra)
    w = pipe.world()
    g = w.gals
    n = 0
    tags = [] if cat is None else cat['z_spec_init'].astype(int).tolist()
    if tags != sorted(set(tags)) or (tags and (tags[0] < 1 or tags[-1] > len(rows))):
        return bad + ['rows %s' % tags], ('bad',), True
    for k in range(len(rows)):
        pre = 'position %d (%.4f %.4f): ' % (k, a['ra'][k], a['dec'][k])
        x = expected(conf, a['ra'][k], a['dec'][k])
        if x['near']:
            continue
        if (k + 1 in tags) != x['ok']:
            bad.append(pre + ('a cluster was found here' if x['ok'] else 'there is no cluster here') + (', but is missing' if x['ok'] else ', but a row'))
            continue
        if not x['ok']:
            continue
        n += 1
        o = cat[tags.index(k + 1)]
        if o['ra'] != a['ra'][k] or o['dec'] != a['dec'][k] or o['ra_orig'] != a['ra'][k] or o['dec_orig'] != a['dec'][k]:
            bad.append(pre + 'position %s %s' % (o['ra'], o['dec']))
        if o['mem_match_id'] != k + 1:
            bad.append(pre + 'id %s' % o['mem_match_id'])
        if np.max(np.abs(o['z_steps'] - x['zs'])) > 1e-6:
            bad.append(pre + 'redshifts of the scan')
        if np.max(np.abs(o['lambda_steps'] - x['lams']) - 3e-3 * np.abs(x['lams'])) > 1e-2:
            bad.append(pre + 'richness of the scan %s, expected %s' % (o['lambda_steps'].tolist(), x['lams'].tolist()))
        if np.max(np.abs(o['likelihood_steps'] - x['likes']) - 5e-3 * np.abs(x['likes'])) > 2e-2:
            bad.append(pre + 'likelihood of the scan %s, expected %s' % (o['likelihood_steps'].tolist(), x['likes'].tolist()))
        m = int(np.argmax(x['likes']))
        if o['max_ind'] != m or abs(o['zmax'] - x['zs'][m]) > 1e-6 or o['lmax'] != o['likelihood_steps'][m]:
            bad.append(pre + 'maximum at %s (z %s), expected %s' % (o['max_ind'], o['zmax'], m))
        for f, v, t in (('lambda', x['lam'], 4e-3 * x['lam']), ('lambda_e', x['lam_e'], 0.01 * x['lam_e']), ('scaleval', x['scaleval'], 3e-3), ('r_lambda', x['r_lambda'], 3e-3), ('z_lambda', x['z'], 5e-4),
                        ('z_lambda_e', x['ze'], 1e-3), ('maskfrac', x['maskfrac'], 1e-2)):
            if not abs(o[f] - v) <= t:
                bad.append(pre + '%s is %s, expected %s' % (f, o[f], v))
        if np.max(np.abs(o['pzbins'] - x['pzbins'])) > 2e-3 or np.max(np.abs(o['pz'] - x['pz'])) > 0.03 * np.max(x['pz']):
            bad.append(pre + 'p(z) is not that of the cluster')
        if x['found']:
            if ref.sphdist(o['ra_opt'], o['dec_opt'], x['ra_opt'], x['dec_opt']) > 1e-6:
                bad.append(pre + 'optical center %s %s, expected %s %s' % (o['ra_opt'], o['dec_opt'], x['ra_opt'], x['dec_opt']))
            for f, v, t in (('lambda_opt', x['lam_opt'], 5e-3 * abs(x['lam_opt'])), ('lambda_opt_e', x['lam_opt_e'], 0.02 * abs(x['lam_opt_e'])), ('z_lambda_opt', x['z_opt'], 8e-4), ('z_lambda_opt_e', x['z_opt_e'], 1e-3)):
                if not abs(o[f] - v) <= t:
                    bad.append(pre + '%s is %s, expected %s' % (f, o[f], v))
            nc = x['ngood']
            if o['ncent_good'] != nc or np.max(np.abs(o['p_cen'] - x['p_cen'])) > 5e-3:
                bad.append(pre + 'centers %s %s' % (o['ncent_good'], o['p_cen']))
            if np.any(o['ra_cent'][nc:] != -400) or np.any(o['id_cent'][nc:] != 0):
                bad.append(pre + 'unused centers %s %s' % (o['ra_cent'], o['id_cent']))
            if x['cents'] and o['id_cent'][:nc].tolist() != [int(g.id[q]) for q in x['cents']]:
                bad.append(pre + 'center ids %s' % o['id_cent'])
            if x['gal'] >= 0:
                q = x['gal']
                if o['refmag'] != g.refmag[q] or np.any(o['mag'] != g.mag[q]) or o['zred'] != g.zred[q] or o['zred_e'] != g.zred_e[q]:
                    bad.append(pre + 'values of the optical center are not those of its galaxy')
        mm = [] if mem is None else mem[mem['mem_match_id'] == k + 1]
        sure = set(int(g.id[q]) for q, v in zip(x['idx'], x['pmem']) if v > 0.0105)
        may = set(int(g.id[q]) for q, v in zip(x['idx'], x['pmem']) if v > 0.0095)
        got = [] if mem is None else mm['id'].tolist()
        if len(set(got)) != len(got) or not sure <= set(got) or not set(got) <= may:
            bad.append(pre + '%d members, expected %d' % (len(got), len(sure)))
        if bad:
            break
    if mem is not None and cat is not None and set(mem['mem_match_id'].tolist()) - set(cat['mem_match_id'].tolist()):
        bad.append('members of unknown clusters')
    return bad[:3], (n, len(rows)), n > 0


def body(check):
    pipe.setup()
    stage.mask_file('cut'), stage.mask_file('frac')
    th = check.thorough
    P = [list(p[:2]) for p in pipe.POOL]
    off = [P[0][0] + 0.02, P[0][1] + 0.01]
    S = [P[0], P[3], P[10], off, [150.0, 40.0], [140.9, 65.5], P[16]]
    zr = {'zrange': [0.2, 0.5], 'zscan_zstep': 0.02}
    cases = [[[s], zr] for s in S + ([q for q in P] if th else [])]
    cases += [[[S[i] for i in p], zr] for n in (2, 3) for p in itertools.permutations((0, 1, 3, 4), n)]
    cases += [[S, zr], [S[::-1], zr]]
    for over in ({'zscan_zstep': 0.007}, {'zscan_zstep': 0.03, 'zrange': [0.21, 0.5]}, {'zscan_r0': 0.9, 'zscan_beta': 0.2}, {'zscan_minlambda': 8.0}, {'zscan_minlambda': 15.0}, {'percolation_r0': 0.7, 'percolation_beta': 0.0},
                 {'maskfile': 'cut'}, {'maskfile': 'frac'}, {'zlambdafile': 'yes'}, {'centerclass': 'CenteringWcenZred'}, {'centerclass': 'CenteringWcenZred', 'percolation_maxcen': 2},
                 {'lval_reference': 0.4}, {'use_tempfiles_to_conserve_memory': True}, {'zrange': [0.05, 0.6], 'zscan_zstep': 0.05}):
        cases += [[l, dict(zr, **over)] for l in (S[:4], [P[7], P[13], P[19]])]
        if th:
            cases += [[l, dict(zr, **over)] for l in ([P[4], P[5], P[6]], [P[11], P[12]], [P[17], P[18]])]
    check.run_cases(cases, run, 'scan', chunk=1)


if __name__ == '__main__':
    core.main('C19', 'exploration',
              'Lists of positions (each kind alone, all ordered pairs and triples of four kinds, all together) x option settings; every redshift step and the '
              'refined cluster recomputed from brute-force neighborhoods. Non-trivial: a cluster results.', body)
