"""C16: the cluster redshift is the self-consistent peak of its members' likelihood; corrections follow their definition."""
import itertools
import math
import os

import numpy as np

from mc import build, core, pipe, ref, rm

_S = {}
DUMMY = -7.0


def env(over):
    """Configuration, mask and depth for these options (per process)."""
    key = repr(sorted(over.items()))
    if key not in _S:
        from redmapper import DepthMap
        from redmapper.mask import get_mask
        d = rm.workdir('c16_%d' % (abs(hash(key)) % 10 ** 8))
        conf = pipe.config(d, **over)
        _S[key] = (conf, get_mask(conf), DepthMap(conf))
    return _S[key]


def make(conf, mask, depth, i, dz, sel, order):
    from redmapper import Cluster
    w = pipe.world()
    p = pipe.POOL[i]
    c = Cluster(config=conf, zredstr=w.par, bkg=w.bkg, r0=conf.percolation_r0, beta=conf.percolation_beta)
    c.ra, c.dec = p[0], p[1]
    c.redshift = p[2] + dz
    c.find_neighbors(2.0, w.gals, megaparsec=True)
    n = c.neighbors.size
    k = np.arange(n)
    rr = np.argsort(c.neighbors.r, kind='stable')
    use = {'all': k, 'odd': k[k % 2 == 1], 'bright': np.sort(np.argsort(c.neighbors.refmag, kind='stable')[:n // 3]),
           'near': np.sort(rr[:60]), 'one': rr[:1], 'two': rr[:2], 'four': rr[:4], 'far': k[c.neighbors.r > 1.7]}[sel]
    if order == 'reverse':
        use = use[::-1]
    elif order == 'cut':
        use = use[c.neighbors.r[use] < 1.8]
    dist = c.neighbors.dist[use].copy()
    c.set_neighbors(w.gals[c.neighbors.index[use]])
    c.neighbors.dist = dist
    c.redshift = p[2] + dz
    c.neighbors.pfree[:] = 1.0 if sel != 'odd' else 0.2 + 0.08 * (np.asarray(c.neighbors.id) % 11)
    c.Lambda = DUMMY
    c.z_lambda = DUMMY
    with ref.fixed_random():
        c.maskgal_index = mask.select_maskgals_sample()
        depth.calc_maskdepth(mask.maskgals, c.ra, c.dec, c.mpc_scale)
        mask.set_radmask(c)
    return c


class Like:
    """Likelihood of a redshift given the members selected at redshift z."""

    def __init__(self, conf, mask, c, z, zin):
        w = pipe.world()
        t = c.copy()
        t.redshift = z
        maxrad = 1.2 * c.r0 * 3.0 ** c.beta
        idx = np.where(t.neighbors.r < maxrad)[0]
        self.ok = False
        if idx.size == 0:
            return
        with ref.fixed_random():
            lam = t.calc_richness(mask, calc_err=False, index=idx)
        if lam < conf.percolation_minlambda:
            return
        g = t.neighbors
        f = ref.Filter(w.par, w.bkg, conf, z, 0.0, 0.0, g, dist=np.asarray(g.dist))
        pcol = f.members(lam, float(t.r_lambda))[2]
        maxmag = float(w.par.mstar(zin)) - 2.5 * math.log10(conf.lval_reference)
        inr = np.zeros(g.size, bool)
        inr[idx] = True
        pcol = np.where(inr, pcol, 0.0)
        use = np.where(inr & (g.refmag < maxmag) & (pcol > 0))[0]
        if use.size < 3:
            return
        n = max(conf.zlambda_topfrac * pcol.sum(), 3)
        n = min(n, use.size)
        thr = np.sort(pcol[use])[::-1][int(np.around(n)) - 1]
        pw = 1.0 / (np.exp((thr - pcol[use]) / 0.04) + 1)
        self.keep = use[pw > 1e-3]
        self.pw = pw[pw > 1e-3]
        self.gals = g[self.keep]
        self.par = w.par
        self.ok = True

    def __call__(self, z):
        return float(np.sum(self.pw * self.par.calculate_chisq(self.gals, z, calc_lkhd=True)))


def run_z(case):
    i, dz, sel, order, mode, over = case
    from redmapper.zlambda import Zlambda
    conf, mask, depth = env(dict(over))
    c = make(conf, mask, depth, i, dz, sel, order)
    zin = float(c.redshift)
    before = c.neighbors._ndarray.copy()
    vals = (float(c.redshift), float(c.Lambda), float(c.r_lambda))
    kw = {'plain': dict(calc_err=False), 'err': dict(calc_err=True), 'pz': dict(calc_err=True, calcpz=True),
          'norec': dict(calc_err=True, record_values=False)}[mode]
    zl = Zlambda(c)
    with ref.fixed_random():
        z, e = zl.calc_zlambda(zin, mask, **kw)
    z, e = float(z), float(e)
    bad = []
    if not np.array_equal(before, c.neighbors._ndarray) or vals != (float(c.redshift), float(c.Lambda), float(c.r_lambda)):
        bad.append('the cluster itself was changed')
    want = DUMMY if mode == 'norec' else z
    if abs(float(c.z_lambda) - want) > 1e-6:
        bad.append('z_lambda recorded as %s, expected %s' % (c.z_lambda, want))
    with ref.fixed_random():
        z2, e2 = zl.calc_zlambda(zin, mask, **kw)
    if abs(z2 - z) > 1e-9 or abs(e2 - e) > 1e-9:
        bad.append('a second computation gives %s +- %s instead of %s +- %s' % (z2, e2, z, e))
    if order != 'plain':
        c0 = make(conf, mask, depth, i, dz, sel, 'plain')
        with ref.fixed_random():
            z0, e0 = Zlambda(c0).calc_zlambda(zin, mask, **kw)
        if abs(z0 - z) > (1e-6 if order == 'cut' else 5e-4) or abs(e0 - e) > 1e-3:
            bad.append('%s +- %s, but %s +- %s with the neighbors in another order or extent' % (z, e, z0, e0))
    if z < 0:
        if z != -1.0 or e != -1.0:
            bad.append('failed redshift is %s +- %s' % (z, e))
        if mode == 'pz' and (np.any(zl.pz != 0) or np.any(zl.pzbins != 0) or zl.pz.size != conf.npzbins):
            # a failure found only while computing p(z) leaves its p(z)
            if np.all(zl.pz == 0):
                bad.append('p(z) of a failed redshift')
        L = Like(conf, mask, c, zin, zin)
        if L.ok and sel in ('all', 'bright', 'near') and abs(dz) < 0.011 and mode in ('plain', 'err'):
            # a rich cluster near its own redshift cannot fail, unless the likelihood has no peak here
            zz = np.linspace(zin - 0.03, zin + 0.03, 31)
            ll = np.array([L(x) for x in zz])
            if 5 < int(np.argmax(ll)) < 25 and L.pw.sum() > 10:
                bad.append('no redshift although the likelihood of its members peaks at %.3f' % zz[np.argmax(ll)])
        return bad, ('none', sel, mode), False
    zc = z
    if mode == 'pz':
        n = conf.npzbins
        b, p = np.asarray(zl.pzbins, 'f8'), np.asarray(zl.pz, 'f8')
        if b.size != n or p.size != n or np.any(np.diff(b) <= 0) or np.ptp(np.diff(b)) > 1e-9:
            return bad + ['p(z) bins %s' % b], ('x',), True
        import scipy.integrate
        if np.any(p < 0) or abs(scipy.integrate.simpson(y=p, x=b) - 1) > 1e-6:
            bad.append('p(z) is not a normalized density')
        if not (b[0] <= z <= b[-1]):
            bad.append('z_lambda %s outside its p(z)' % z)
        if abs(b[np.argmax(p)] - z) > conf.zlambda_tol + 1e-9:
            bad.append('z_lambda %s is not the peak %s of p(z)' % (z, b[np.argmax(p)]))
        zc = b[(n - 1) // 2]
    L = Like(conf, mask, c, zc, zin)
    if not L.ok:
        bad.append('a redshift %s is returned although there are too few members there' % z)
        return bad, ('x',), True
    conv = getattr(zl, 'niter', conf.zlambda_maxiter) < conf.zlambda_maxiter
    if mode != 'pz' or abs(zc - z) < 1e-9:
        st = conf.zlambda_parab_step
        x = z + st * (np.arange(10) - 4.5)
        y = np.array([L(v) for v in x])
        f = np.polyfit(x, y, 2)
        if f[0] < 0 and conv and mode != 'pz':
            pk = float(np.clip(-f[1] / (2 * f[0]), x[0] - st, x[-1] + st))
            if abs(pk - z) > 2.5 * conf.zlambda_tol:
                bad.append('z_lambda %s but the likelihood of its members peaks at %s' % (z, pk))
        elif conv and mode != 'pz' and f[0] > 1e-3:
            bad.append('z_lambda %s is not at a peak of the likelihood' % z)
    if mode in ('err', 'norec'):
        t = L(z) - 1.0
        zz = np.arange(0.001, 0.1, 0.0005)
        lo = np.array([abs(L(z - v) - t) for v in zz])
        hi = np.array([abs(L(z + v) - t) for v in zz])
        # one crossing on each side, else the minimizer may pick any
        def one(v, s):
            y = np.array([L(z + s * q) for q in v]) - t
            return (np.sign(y[:-1]) != np.sign(y[1:])).sum() == 1
        if one(zz, 1) and one(zz, -1):
            want = 0.5 * (zz[np.argmin(lo)] + zz[np.argmin(hi)])
            if abs(e - want) > 0.004:
                bad.append('error %s, expected %s' % (e, want))
        if not 0.001 <= e <= 0.1:
            bad.append('error %s' % e)
    if mode == 'pz':
        # the selection was made at z, or in the middle bin if the peak of p(z) was elsewhere
        import scipy.integrate
        dev = []
        for zs in {z, zc}:
            l = Like(conf, mask, c, zs, zin)
            if not l.ok:
                continue
            lnl = np.array([l(v) for v in b])
            want = np.exp(lnl - lnl.max()) * l.par.volume_factor[[int(l.par.zindex(v)) for v in b]]
            want /= scipy.integrate.simpson(y=want, x=b)
            dev.append(np.max(np.abs(want - p)) / want.max())
        if conv and min(dev) > 0.06:
            bad.append('p(z) differs from the likelihood of the members times the volume by %.3f of its peak' % min(dev))
        if e <= 0 and e != -1.0:
            bad.append('error %s' % e)
    return bad, (sel, mode, conv, round(z, 2)), True


def corr(kind):
    if ('corr', kind) not in _S:
        from redmapper.catalog import Entry
        from redmapper.zlambda import ZlambdaCorrectionPar
        if kind == 'file':
            _S['corr', kind] = (ZlambdaCorrectionPar(os.path.join(build.DATA, 'test_dr8_zlambdacorr.fit'), zlambda_pivot=30.0), None)
        else:
            n = kind
            oz, sz = np.array([0.1, 0.15, 0.2, 0.3, 0.4, 0.55]), np.array([0.1, 0.3, 0.55])
            dt = [('niter_true', 'i4'), ('offset_z', 'f8', oz.size), ('slope_z', 'f8', sz.size),
                  ('offset_true', 'f8', (oz.size, n)), ('slope_true', 'f8', (sz.size, n)), ('scatter_true', 'f8', (sz.size, n)),
                  ('zred_uncorr', 'f8', oz.size)]
            if n == 1:
                dt = [(x[0], x[1]) + ((x[2][0],) if len(x) > 2 and isinstance(x[2], tuple) else x[2:]) for x in dt]
            a = np.zeros(1, dtype=dt)
            a['niter_true'] = n
            a['offset_z'], a['slope_z'] = oz, sz
            k = np.arange(n)
            off = 0.004 * np.sin(7 * oz[:, None] + k) / (1 + k)
            slo = 0.002 * np.cos(5 * sz[:, None] - k)
            sca = 0.003 + 0.004 * sz[:, None] / (1 + k) - 0.004 * (k == 1)
            a['offset_true'][0] = off[:, 0] if n == 1 else off
            a['slope_true'][0] = slo[:, 0] if n == 1 else slo
            a['scatter_true'][0] = sca[:, 0] if n == 1 else sca
            a['zred_uncorr'] = oz * 1.01
            # an integer number of bins that contain every node
            c = ZlambdaCorrectionPar(pars=Entry(a), zrange=[0.05, 0.6], zbinsize=0.002, zlambda_pivot=30.0)
            _S['corr', kind] = (c, (oz, sz, off, slo, np.clip(sca, 0.001, None)))
    return _S['corr', kind]


def run_corr(case):
    kind, lam, z, e, pz, noerr = case
    c, nodes = corr(kind)
    bad = []
    if nodes is not None:
        oz, sz, off, slo, sca = nodes
        for k in range(kind):
            for name, x, y in (('offset', oz, off), ('slope', sz, slo), ('scatter', sz, sca)):
                got = np.interp(x, c.z, getattr(c, name)[k])
                if np.max(np.abs(got - y[:, k])) > 2e-5:
                    bad.append('%s of iteration %d does not pass through its nodes' % (name, k))
    zz, ee = z, e
    bins = vals = None
    if pz:
        bins = np.linspace(z - 4 * e, z + 4 * e, pz) + (0.3 * e if pz == 7 else 0.0)
        vals = np.exp(-0.5 * ((bins - z) / e) ** 2)
        vals /= np.trapz(vals, bins)
    kb, kv = (None, None) if bins is None else (bins.copy(), vals.copy())
    wb = bins
    for k in range(c.niter):
        dz = np.interp(zz, c.z, c.offset[k] + c.slope[k] * math.log(lam / c.zlambda_pivot))
        ex = 0.0 if noerr else np.interp(zz, c.z, c.scatter[k])
        nz, ne = zz + dz, math.sqrt(ee ** 2 + ex ** 2)
        if wb is not None:
            mid = wb[(wb.size - 1) // 2]
            wb = (nz + mid - zz) + (wb - 0.5 * (wb[0] + wb[-1])) * ne / ee
        zz, ee = nz, ne
    r = c.apply_correction(lam, z, e, pzbins=kb, pzvals=kv, noerr=noerr)
    if len(r) != (4 if pz else 2):
        return bad + ['%d values returned' % len(r)], ('x',), True
    if abs(r[0] - zz) > 1e-9 or abs(r[1] - ee) > 1e-9:
        bad.append('corrected redshift %s +- %s, expected %s +- %s' % (r[0], r[1], zz, ee))
    if pz:
        import scipy.integrate
        if not np.allclose(r[2], wb, atol=1e-9):
            bad.append('p(z) bins %s, expected %s' % (r[2], wb))
        if abs(scipy.integrate.simpson(y=r[3], x=r[2]) - 1) > 1e-6 or not np.allclose(r[3] / r[3].max(), vals / vals.max(), atol=1e-6):
            bad.append('corrected p(z) is not the normalized original')
        if not np.array_equal(kb, bins) or not np.array_equal(kv, vals):
            bad.append('the caller\'s p(z) arrays were changed')
    # array input: element by element, without changing the caller's arrays
    if not pz:
        za, ea, la = np.array([z, z, 0.31]), np.array([e, 0.02, e]), lam
        zk = za.copy()
        try:
            ra = c.apply_correction(la, za, ea, noerr=noerr)
        except (ValueError, TypeError) as exc:
            return bad + ['array input: %r' % exc], ('x',), True
        if abs(ra[0][0] - zz) > 1e-9 or abs(ra[1][0] - ee) > 1e-9:
            bad.append('in an array: %s +- %s, expected %s +- %s' % (ra[0][0], ra[1][0], zz, ee))
        if not np.array_equal(za, zk):
            bad.append('the caller\'s redshifts were changed')
    return bad, (kind, pz, noerr), True


def run_stage(case):
    """In the percolation output: correction applied exactly once, p(z) consistent with the redshift."""
    import fitsio
    from redmapper import RunPercolation
    from redmapper.zlambda import ZlambdaCorrectionPar
    idx, withcorr, keepz = case
    d = rm.workdir('c16s')
    out = []
    zf = os.path.join(build.DATA, 'test_dr8_zlambdacorr.fit')
    bad = []
    for corrected in ((False, True) if withcorr else (False,)):
        conf = pipe.config(d, **{'zlambdafile': zf if corrected else rm.DROP})
        cands = [dict(ra=pipe.POOL[i][0], dec=pipe.POOL[i][1], z=pipe.POOL[i][2], Lambda=pipe.POOL[i][3], lnlike=50.0 - k, tag=k) for k, i in enumerate(idx)]
        conf.catfile = pipe.write_candidates(os.path.join(d, 'in.fit'), conf, cands)
        with ref.fixed_random():
            r = RunPercolation(conf)
            r.run(keepz=keepz)
        out.append(np.array(r.cat._ndarray))
        for o in r.cat._ndarray:
            b, p = o['pzbins'].astype('f8'), o['pz'].astype('f8')
            if np.any(p < 0) or abs(np.trapz(p, b) - 1) > 0.05:
                bad.append('p(z) in the catalog integrates to %s' % np.trapz(p, b))
            if abs(b[np.argmax(p)] - o['z_lambda']) > 0.5 * (b[1] - b[0]) + 3e-4:
                bad.append('p(z) peaks at %s, z_lambda %s' % (b[np.argmax(p)], o['z_lambda']))
            if not o['z_lambda_e'] > 0:
                bad.append('error %s' % o['z_lambda_e'])
    if withcorr and not bad:
        a, b = out
        c = ZlambdaCorrectionPar(zf, zlambda_pivot=conf.zlambda_pivot)
        if a.size != b.size:
            bad.append('%d clusters without correction, %d with' % (a.size, b.size))
        else:
            for x, y in zip(a, b):
                # the centering may depend on the correction, the redshift before it does not for these clusters
                if x['ra'] != y['ra']:
                    continue
                z, e, bn, pv = c.apply_correction(float(x['lambda']), float(x['z_lambda']), float(x['z_lambda_e']), pzbins=x['pzbins'].astype('f8'), pzvals=x['pz'].astype('f8'))
                if abs(z - y['z_lambda']) > 2e-4 or abs(e - y['z_lambda_e']) > 2e-4:
                    bad.append('corrected %s +- %s, expected %s +- %s' % (y['z_lambda'], y['z_lambda_e'], z, e))
                if not np.allclose(bn, y['pzbins'], atol=2e-4) or not np.allclose(pv, y['pz'], rtol=0.02, atol=0.02 * pv.max()):
                    bad.append('corrected p(z) of cluster %s is not in the catalog' % y['mem_match_id'])
    return bad, (len(out[0]), withcorr, keepz), True


def body(check):
    pipe.setup()
    th = check.thorough
    pos = (0, 3, 4, 7, 9, 10, 13, 17) if not th else range(20)
    dzs = (-0.02, 0.0, 0.01) if not th else (-0.04, -0.02, -0.005, 0.0, 0.01, 0.03)
    opts = [{}, {'zlambda_topfrac': 0.3}]
    if th:
        opts += [{'zlambda_tol': 0.001}, {'zlambda_parab_step': 0.001}, {'percolation_r0': 0.7, 'percolation_beta': 0.0}, {'npzbins': 11}]
    cases = [list(x) for x in itertools.product(pos, dzs, ('all', 'odd', 'bright', 'near', 'one', 'two', 'four', 'far'), ('plain',), ('plain', 'err', 'pz', 'norec'), opts)
             if th or x[4] in ('err', 'pz') or (x[1] == 0.0 and not x[5])]
    cases += [list(x) for x in itertools.product(pos, (0.0,), ('all', 'odd', 'near'), ('reverse', 'cut'), ('err', 'pz'), opts[:1])]
    check.run_cases(cases, run_z, 'zlambda')
    cases = [list(x) for x in itertools.product(('file', 1, 2, 3), (5.0, 30.0, 120.0), (0.06, 0.1, 0.2, 0.317, 0.55, 0.65), (0.002, 0.02), (0, 7, 21), (False, True))]
    check.run_cases(cases, run_corr, 'correction')
    cases = [[l, wc, kz] for l in ([0, 3, 7, 13], [3, 4, 5, 6], list(range(20)), [9, 10, 11, 12], [17, 18, 19]) for wc in (False, True) for kz in (False, True)]
    check.run_cases(cases, run_stage, 'stage')


if __name__ == '__main__':
    core.main('C16', 'exploration',
              'All cluster positions x starting redshift x neighbor selection x order x mode x option, all correction '
              'settings of a lattice, and percolation runs with and without correction. Non-trivial: a redshift was found.', body)
