"""C32: the color training gives exactly the members of the clusters around red galaxies with spectra."""
import itertools
import math
import os
import shutil
import sys

import fitsio
import numpy as np

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import build, core, pipe, ref, rm, stage   # noqa: E402

_S = {}
NODES = np.arange(0.05, 0.66, 0.05)


def catalog():
    """All galaxies of the pixel, as a run without zreds reads them."""
    if 'gals' not in _S:
        from redmapper import GalaxyCatalog, ColorBackground
        w = pipe.world()
        _S['gals'] = GalaxyCatalog.from_galfile(w.conf.galfile, nside=pipe.NSIDE, hpix=[pipe.HPIX], border=0.0)
        _S['cbkg'] = ColorBackground(os.path.join(build.DATA, 'test_dr8_col_bkg.fit'), usehdrarea=True)
        p = w.par
        # colors of the red sequence at the nodes
        k = np.array([int(np.argmin(np.abs(p.z - z))) for z in NODES])
        _S['color'] = np.array(p.c)[k]
        _S['byid'] = {int(i): n for n, i in enumerate(_S['gals'].id)}
    return _S['gals']


def natural(x, y, q):
    """Natural cubic spline, as a dense system for its second derivatives."""
    x, y = np.asarray(x, 'f8'), np.asarray(y, 'f8')
    n = x.size
    a, r = np.zeros((n, n)), np.zeros(n)
    a[0, 0] = a[-1, -1] = 1.0
    for i in range(1, n - 1):
        a[i, i - 1], a[i, i], a[i, i + 1] = x[i] - x[i - 1], 2 * (x[i + 1] - x[i - 1]), x[i + 1] - x[i]
        r[i] = 6 * ((y[i + 1] - y[i]) / (x[i + 1] - x[i]) - (y[i] - y[i - 1]) / (x[i] - x[i - 1]))
    m = np.linalg.solve(a, r)
    k = int(np.clip(np.searchsorted(x, q) - 1, 0, n - 2))
    h, u, v = x[k + 1] - x[k], x[k + 1] - q, q - x[k]
    return float((m[k] * u ** 3 + m[k + 1] * v ** 3) / (6 * h) + (y[k] / h - m[k] * h / 6) * u + (y[k + 1] / h - m[k + 1] * h / 6) * v)


def seeds(rows):
    """rows: [pool index, redshift or None]."""
    g = catalog()
    nb = g.mag.shape[1]
    a = np.zeros(len(rows), dtype=[('id', 'i8'), ('ra', 'f8'), ('dec', 'f8'), ('refmag', 'f4'), ('refmag_err', 'f4'), ('mag', 'f4', nb), ('mag_err', 'f4', nb), ('ebv', 'f4'), ('z', 'f4')])
    for k, (i, z) in enumerate(rows):
        p = pipe.POOL[i]
        j = int(np.argmin(ref.sphdist(p[0], p[1], g.ra, g.dec)))
        for n in ('id', 'ra', 'dec', 'refmag', 'refmag_err', 'mag', 'mag_err'):
            a[n][k] = g._ndarray[n][j]
        a['z'][k] = p[2] if z is None else z
    return a


def setup_config(d, over):
    over = dict(over)
    mk = over.pop('mask', None)
    conf = pipe.config(d, bkgfile_color=os.path.join(build.DATA, 'test_dr8_col_bkg.fit'))
    conf.zrange = np.array([0.1, 0.6])
    conf.calib_colormem_zbounds, conf.calib_colormem_colormodes, conf.calib_colormem_sigint = np.array([0.35]), np.array([1, 2]), np.array([0.05, 0.05])
    conf.calib_colormem_minlambda = 3.0
    for k, v in over.items():
        setattr(conf, k, np.array(v) if isinstance(v, list) else v)
    if mk:
        conf.maskfile = stage.mask_file(mk)
    conf.redgalfile, conf.redgalmodelfile, conf.zmemfile = os.path.join(d, 'red.fit'), os.path.join(d, 'model.fit'), os.path.join(d, 'zmem.fit')
    n, c = NODES.size, _S['color'].shape[1]
    m = np.zeros(1, dtype=[('nodes', 'f4', n), ('meancol', 'f4', (n, c)), ('meancol_scatter', 'f4', (n, c)), ('medcol', 'f4', (n, c)), ('medcol_width', 'f4', (n, c))])
    m['nodes'], m['meancol'], m['medcol'] = NODES, _S['color'], _S['color'] + 0.1
    m['meancol_scatter'] = m['medcol_width'] = 0.05
    fitsio.write(conf.redgalmodelfile, m, clobber=True)
    return conf


def run_training(s, over):
    from redmapper import RunColormem
    d = rm.workdir('c32')
    try:
        conf = setup_config(d, over)
        fitsio.write(conf.redgalfile, s, clobber=True)
        with ref.fixed_random():
            r = RunColormem(conf)
            r.run()
            r.output_training()
        cat = fitsio.read(conf.redmapper_filename('colorcat'), ext=1, lower=True)
        mem = fitsio.read(conf.zmemfile, ext=1, lower=True)
        return conf, cat, mem
    finally:
        shutil.rmtree(d, ignore_errors=True)


def one(conf, x, pgal, par):
    """The cluster around one seed; galaxies already taken by pgal (None in the first pass)."""
    from redmapper import Cluster
    g = catalog()
    mask, depth = stage.tools(conf)
    r0, beta = conf.calib_colormem_r0, conf.calib_colormem_beta
    c = Cluster(config=conf, zredstr=par, cbkg=_S['cbkg'], r0=r0, beta=beta)
    z = float(x['z'])
    c.ra, c.dec = float(x['ra']), float(x['dec'])
    c.redshift = z
    mpc = math.radians(1.0) * float(conf.cosmo.Da(0, z))
    # neighborhoods are those of the percolation of the final run, if larger
    rad = max(1.2 * r0 if beta == 0 else r0 * 3 ** beta, (1.2 * conf.percolation_rmask_0 if beta == 0 else conf.percolation_rmask_0 * 3 ** conf.percolation_rmask_beta))
    dist = ref.sphdist(c.ra, c.dec, g.ra, g.dec)
    ok = (mpc * dist < rad) & (np.asarray(g.refmag) <= float(c.mstar) - 2.5 * math.log10(max(conf.lval_reference - 0.1, 0.01)))
    idx = np.where(ok)[0]
    out = dict(good=False, lam=-1.0)
    if idx.size == 0:
        return out
    c.set_neighbors(g[idx])
    c.neighbors.dist, c.neighbors.index = dist[idx], idx
    c.redshift = z
    c.neighbors.pfree[:] = 1.0 if pgal is None else np.clip(1.0 - pgal[idx], 0.0, None)
    with ref.fixed_random():
        c.maskgal_index = mask.select_maskgals_sample()
        depth.calc_maskdepth(mask.maskgals, c.ra, c.dec, c.mpc_scale)
        mask.set_radmask(c)
        if stage.masked_fraction(mask, 1.0) == 1.0 or np.median(mask.maskgals.limmag) <= 1.0:
            return out
        m = [k for k in range(len(conf.calib_colormem_colormodes)) if k == len(conf.calib_colormem_zbounds) or z <= conf.calib_colormem_zbounds[k]][0]
        b = int(conf.calib_colormem_colormodes[m])
        lam = c.calc_richness_fit(mask, b, centcolor_in=natural(NODES.astype('f4'), _S['color'][:, b].astype('f4'), z), sigint=float(conf.calib_colormem_sigint[m]))
    if lam < 0:
        return out
    nb = c.neighbors
    pb = float(nb.pmem[int(np.argmin(nb.r))])
    out.update(pbcg=pb, ratio=lam / c.scaleval)
    if lam / c.scaleval < conf.calib_colormem_minlambda or pb < conf.calib_pcut:
        return out
    rmask = max(float(c.r_lambda), r0 * (lam / 100.) ** beta * ((1 + z) / (1 + conf.percolation_rmask_zpivot)) ** conf.percolation_rmask_gamma)
    lmask = conf.lval_reference if conf.percolation_lmask < 0 else conf.percolation_lmask
    r, p, pm = np.asarray(nb.r, 'f8'), np.asarray(nb.p, 'f8'), np.asarray(nb.pmem, 'f8')
    take = (np.asarray(nb.refmag) < float(c.mstar) - 2.5 * math.log10(lmask)) & (r < rmask) & (p > 0)
    mem = (pm > 0.01) & (np.asarray(nb.pfree) > 0.01)
    out.update(good=True, lam=float(lam), r_lambda=float(c.r_lambda), scaleval=float(c.scaleval), r_mask=rmask, take=(idx[take], p[take]), maskfrac=stage.masked_fraction(mask, float(c.r_lambda)),
               mem={int(nb.id[k]): (r[k], p[k], float(nb.pcol[k]), float(nb.pfree[k]), pm[k]) for k in np.where(mem)[0]}, mode=b, z=z)
    return out


def expected(conf, s):
    """All outcomes the rule allows (equal richness, in particular no cluster, may be in any order)."""
    from redmapper import RedSequenceColorPar
    par = RedSequenceColorPar(None, config=conf)
    inside = [k for k in range(s.size) if conf.zrange[0] < s['z'][k] < conf.zrange[1]]
    first = {k: one(conf, s[k], None, par) for k in inside}
    good = sorted((k for k in inside if first[k]['good']), key=lambda k: -first[k]['lam'])
    rest = [k for k in inside if not first[k]['good']]
    ties = []
    for k in good:
        if ties and abs(first[ties[-1][0]]['lam'] - first[k]['lam']) < 1e-4 * first[k]['lam']:
            ties[-1].append(k)
        else:
            ties.append([k])
    orders = [[k for t in g for k in t] + list(o) for g in itertools.islice(itertools.product(*[itertools.permutations(t) for t in ties]), 6)
              for o in itertools.islice(itertools.permutations(rest), 3)]
    res = []
    skip = None
    for o in orders:
        if skip is not None and o[:len(good)] == skip:
            continue
        skip = None
        pgal = np.zeros(catalog().size)
        out = {}
        for k in o:
            c = one(conf, s[k], pgal.astype('f4'), par)
            if c['good']:
                np.add.at(pgal, c['take'][0], c['take'][1])
                out[k] = c
        res.append({k: c for k, c in out.items() if c['maskfrac'] < conf.max_maskfrac})
        if not any(k in out for k in rest):
            skip = o[:len(good)]                 # the order of the rest is irrelevant
    return inside, first, res


def judge(conf, s, cat, mem, exp, near):
    bad = []
    got = {}
    for x in cat:
        k = [k for k in range(s.size) if s['ra'][k] == x['ra'] and s['dec'][k] == x['dec'] and abs(s['z'][k] - x['z']) < 1e-6]
        if len(k) != 1:
            return ['a cluster that belongs to %d seeds' % len(k)]
        if k[0] in got:
            bad.append('seed %d gives more than one cluster' % k[0])
        got[k[0]] = x
    for k in sorted(set(exp) ^ set(got)):
        if k not in near:
            bad.append('seed %d (z=%.4f) %s' % (k, s['z'][k], 'gives no cluster' if k in exp else 'gives a cluster'))
    if len(set(int(x['mem_match_id']) for x in cat)) != cat.size:
        bad.append('clusters share an identifier')
    if not set(int(x) for x in mem['mem_match_id']) <= set(int(x['mem_match_id']) for x in cat):
        bad.append('members of clusters that are not in the catalog')
    g = catalog()
    sm = conf.calib_colormem_smooth
    allz = []
    for k in sorted(set(exp) & set(got)):
        c, x = exp[k], got[k]
        for n, t in (('lam', 2e-3), ('r_lambda', 1e-3), ('scaleval', 2e-3), ('r_mask', 1e-3), ('maskfrac', 1e-3)):
            v = float(x['lambda' if n == 'lam' else n])
            if abs(v - c[n]) > t * max(1.0, abs(c[n])):
                bad.append('seed %d: %s is %.5f, not %.5f' % (k, n, v, c[n]))
        if abs(x['z_init'] - s['z'][k]) > 1e-6:
            bad.append('seed %d: z_init is %.4f' % (k, x['z_init']))
        m = mem[mem['mem_match_id'] == x['mem_match_id']]
        ids = [int(i) for i in m['id']]
        if len(set(ids)) != len(ids):
            bad.append('seed %d: a member is listed more than once' % k)
        want = {i for i, v in c['mem'].items() if v[2] > conf.calib_pcut}
        edge = {i for i, v in c['mem'].items() if abs(v[2] - conf.calib_pcut) < 5e-3 or v[4] < 0.013 or v[3] < 0.015}
        for i in sorted((want ^ set(ids)) - edge):
            # members just below the limit of the probability are not in c['mem']
            if i in want or i in c['mem'] or float(m['p'][ids.index(i)]) * float(m['theta_i'][ids.index(i)]) * float(m['theta_r'][ids.index(i)]) * float(m['pfree'][ids.index(i)]) > 0.013:
                bad.append('seed %d: galaxy %d is %s the members' % (k, i, 'missing from' if i in want else 'among'))
                break
        for y in m:
            v = c['mem'].get(int(y['id']))
            if v is None:
                continue
            j = _S['byid'][int(y['id'])]
            if y['ra'] != g.ra[j] or y['dec'] != g.dec[j] or y['refmag'] != g.refmag[j] or not np.array_equal(y['mag'], g.mag[j]) or not np.array_equal(y['mag_err'], g.mag_err[j]):
                bad.append('member %d is not as in the galaxy catalog' % y['id'])
                break
            if abs(y['r'] - v[0]) > 1e-3 or abs(y['p'] - v[1]) > 5e-3 or abs(y['pcol'] - v[2]) > 5e-3 or abs(y['pfree'] - v[3]) > 5e-3:
                bad.append('seed %d, member %d: r, p, pcol, pfree = %s, not %s' % (k, y['id'], (y['r'], y['p'], y['pcol'], y['pfree']), v[:4]))
                break
        dz = np.asarray(m['z'], 'f8') - float(s['z'][k])
        allz += list(dz)
        if np.any(np.abs(dz) > (1e-6 if sm == 0 else 6 * sm)):
            bad.append('seed %d: member redshifts are off by up to %.4f' % (k, np.max(np.abs(dz))))
        if sm > 0 and dz.size > 4 and np.ptp(dz) < 0.3 * sm:
            bad.append('seed %d: members are not smoothed individually' % k)
    if sm > 0 and len(allz) > 25 and not 0.6 * sm < np.std(allz) < 1.5 * sm:
        bad.append('the member redshifts are smoothed by %.5f, not %.5f' % (np.std(allz), sm))
    return bad


def run_case(case):
    rows, over = case
    s = seeds(rows)
    try:
        conf, cat, mem = run_training(s, over)
    except Exception as ex:
        if not core.in_code_under_test(ex):
            raise
        d = rm.workdir('c32x')
        inside, first, res = expected(setup_config(d, over), s)
        shutil.rmtree(d, ignore_errors=True)
        if not any(res) or not any(v[2] > 0.3 for r in res for c in r.values() for v in c['mem'].values()):
            return [], 'no cluster', False
        return [core.exc_problem(ex)], 'raised', True
    inside, first, res = expected(conf, s)
    # seeds whose acceptance is decided by rounding
    near = {k for k, c in first.items() if 'ratio' in c and (abs(c['ratio'] / conf.calib_colormem_minlambda - 1) < 2e-3 or abs(c['pbcg'] - conf.calib_pcut) < 2e-3)}
    probs = [judge(conf, s, cat, mem, e, near) for e in res]
    best = min(probs, key=len)
    shared = any(set(a['take'][0]) & set(b['take'][0]) for e in res[:1] for a, b in itertools.combinations(e.values(), 2))
    return best[:3], (len(rows), cat.size, len(inside), shared), cat.size > 0


OPTS = [{}, {'calib_colormem_minlambda': 8.0}, {'calib_colormem_minlambda': 10.0}, {'calib_colormem_minlambda': 5.0}, {'calib_colormem_minlambda': 2.0},
        {'calib_pcut': 0.7}, {'calib_pcut': 0.05}, {'calib_pcut': 0.9},
        {'calib_colormem_smooth': 0.0}, {'calib_colormem_smooth': 0.02},
        {'calib_colormem_r0': 0.8}, {'calib_colormem_r0': 0.5, 'calib_colormem_beta': 0.2}, {'calib_colormem_r0': 1.0, 'calib_colormem_beta': 0.2}, {'calib_colormem_r0': 0.3},
        {'calib_colormem_zbounds': [], 'calib_colormem_colormodes': [1], 'calib_colormem_sigint': [0.05]},
        {'calib_colormem_zbounds': [], 'calib_colormem_colormodes': [2], 'calib_colormem_sigint': [0.03]},
        {'calib_colormem_zbounds': [0.3, 0.4], 'calib_colormem_colormodes': [1, 2, 1], 'calib_colormem_sigint': [0.05, 0.03, 0.03]},
        {'calib_colormem_zbounds': [0.38], 'calib_colormem_colormodes': [2, 1], 'calib_colormem_sigint': [0.02, 0.1]},
        {'zrange': [0.3, 0.45]}, {'zrange': [0.1, 0.38]},
        {'mask': 'cut'}, {'mask': 'frac'}, {'mask': 'cut', 'max_maskfrac': 0.05}, {'mask': 'frac', 'max_maskfrac': 0.6}, {'max_maskfrac': 0.02},
        {'percolation_lmask': 0.5}, {'percolation_lmask': -1.0}, {'lval_reference': 0.4}, {'percolation_rmask_gamma': -2.0}, {'percolation_rmask_0': 0.2},
        {'percolation_rmask_0': 2.5}]


def memoize_background():
    """Reading the color background takes most of a short run: read it only once."""
    from redmapper.color_background import ColorBackground
    orig, seen = ColorBackground.__init__, {}

    def init(self, *a, **k):
        key = repr((a, sorted(k.items())))
        if key not in seen:
            orig(self, *a, **k)
            seen[key] = dict(self.__dict__)
        else:
            self.__dict__.update(seen[key])
    ColorBackground.__init__ = init


def body(check):
    pipe.setup()
    memoize_background()
    catalog()
    T = check.thorough
    for k in ('cut', 'frac'):
        stage.mask_file(k)
    groups = [(0, 1, 2), (3, 4, 5, 6), (7, 8), (9, 10, 11, 12), (14, 15, 16), (17, 18, 19, 13)]
    # every selection of seeds that share galaxies, in several orders
    sets = [c for grp in groups for n in range(1, len(grp) + 1) for c in itertools.combinations(grp, n)]
    cases = [([(i, None) for i in o], {}) for c in sets for o in itertools.permutations(c)]
    if T:
        cases = [(c, o) for c, _ in cases for o in OPTS if 'mask' not in o]
    check.run_cases(cases, run_case, 'seeds')
    # options
    lists = [list(range(20)), [19 - i for i in range(20)], [(7 * k) % 20 for k in range(20)]] + [[k for k in range(20) if k not in c] for c in sets if len(c) == 1 and T]
    check.run_cases([([(i, None) for i in l], o) for o in OPTS for l in lists], run_case, 'options', chunk=1)
    # redshifts at the limits and at the borders of the color modes
    zs = (0.0999, 0.1, 0.1001, 0.3499, 0.35, 0.3501, 0.5999, 0.6, 0.6001, 0.05, 0.65)
    cases = [([(3, None), (i, z), (0, None)], {}) for i in (11, 7) for z in zs]
    cases += [([(3, None), (i, z), (0, None)], {'zrange': [0.25, 0.5], 'calib_colormem_zbounds': [0.375]}) for i in (11, 7, 5) for z in (0.25, 0.2501, 0.3749, 0.375, 0.3751, 0.4999, 0.5)]
    for i, z in ((5, 0.375), (3, 0.375), (11, 0.4375), (0, 0.3125), (1, 0.3125), (7, 0.5)):
        for dz in (-2.0 ** -12, 0.0, 2.0 ** -12):
            for o in ({'zrange': [z, 0.6]}, {'zrange': [0.1, z]}, {'calib_colormem_zbounds': [z], 'calib_colormem_sigint': [0.04, 0.07]}):
                cases.append(([(k, None) for k in (17, 9)] + [(i, z + dz)], dict(o, calib_colormem_minlambda=1.0, calib_pcut=0.1)))
    # many seeds of the same galaxies
    st = (-0.03, -0.015, 0.0, 0.015, 0.03)
    cases += [([(i, pipe.POOL[i][2] + dz) for dz in o], {'calib_colormem_minlambda': 2.0}) for i in (3, 11) for o in (itertools.permutations(st, 2) if not T else itertools.permutations(st, 3))]
    check.run_cases(cases, run_case, 'limits')


if __name__ == '__main__':
    core.main('C32', 'model_checking',
              'All selections of seeds that compete for galaxies in all orders, all options on 20 seeds, redshifts at every limit, stacks of seeds; '
              'clusters and members compared with the two passes recomputed one cluster at a time. Non-trivial: there are clusters.', body)
