"""C15: the centering algorithms choose and weigh the central galaxy by their definitions, and report when there is none."""
import itertools
import math
import os

import numpy as np

from mc import build, core, pipe, ref, rm, stage

ZCORR = os.path.join(build.DATA, 'test_dr8_zlambdacorr.fit')
POOLS = (0, 3, 6, 9, 13, 19)
_S = {}


def gauss(x, m, s):
    return np.exp(-0.5 * ((x - m) / s) ** 2) / (math.sqrt(2 * math.pi) * s)


def base(i):
    """A cluster with richness and member probabilities (made once per process)."""
    if i not in _S:
        from redmapper import ZredBackground
        d = rm.workdir('c15_%d' % i)
        conf = pipe.config(d)
        ra, dec, z = pipe.POOL[i][:3]
        c, mask = stage.cluster_at(conf, ra, dec, z, conf.percolation_r0, conf.percolation_beta, rad=2.2)
        with ref.fixed_random():
            c.calc_richness(mask)
        c.zredbkg = ZredBackground(conf.bkgfile)
        _S[i] = c
    c = _S[i].copy()
    c.redshift = _S[i].redshift
    return c


def zspec(c):
    """Spectroscopic redshifts for some neighbors (others: none)."""
    from redmapper import GalaxyCatalog
    g = c.neighbors
    g.add_fields([('zspec', 'f4'), ('zspec_err', 'f4')])
    g.zspec[:] = -1.0
    k = np.arange(g.size)
    near = k % 3 == 0
    g.zspec[near] = c.redshift + 0.001 * (k[near] % 7 - 3)
    far = k % 5 == 1
    g.zspec[far] = c.redshift + 0.2
    g.zspec_err[:] = 0.004
    return GalaxyCatalog


def prepare(case):
    i, pf, chi, lam, scale, zs, maxcen, lum, order = case
    c = base(i)
    conf = c.config
    conf.d.percolation_maxcen = maxcen
    conf.d.wcen_uselum = lum
    conf.d.centering_use_zspec = zs
    g = c.neighbors
    if order == 'reversed':
        n = g[np.arange(g.size)[::-1]]
        c.set_neighbors(n)
        g = c.neighbors
    elif order == 'twins':
        # each galaxy near the center has a twin at the same place
        k = np.argsort(g.r)[:8]
        g.ra[k[4:]], g.dec[k[4:]] = g.ra[k[:4]], g.dec[k[:4]]
        g.dist[k[4:]], g.r[k[4:]] = g.dist[k[:4]], g.r[k[:4]]
    if pf == 'near':
        g.pfree[np.argsort(g.r)[:3]] = [0.3, 0.5, 0.45]
    elif pf == 'alternating':
        g.pfree[::2] = 0.2
        g.pfree[1::2] = 0.8
    elif pf == 'none':
        g.pfree[:] = 0.1
    if chi == 'bad':
        g.zred_chisq[:] = 200.0
    elif chi == 'one':
        g.zred_chisq[:] = 200.0
        g.zred_chisq[np.argsort(g.r)[0]] = 1.0
    elif chi == 'sparse':
        # only two galaxies connect the candidates
        near = np.argsort(g.r)
        g.p[near[2:]] = 0.0
    elif chi == 'edge':
        g.zred_chisq[np.argsort(g.refmag)[:5]] = conf.wcen_zred_chisq_max
    if lam is not None:
        c.Lambda = lam
    c.scaleval = scale
    if zs:
        zspec(c)
    return c


def redshifts(c):
    g = c.neighbors
    z, e, chi = np.array(g.zred, 'f8'), np.array(g.zred_e, 'f8'), np.array(g.zred_chisq, 'f8')
    if c.config.centering_use_zspec:
        h = np.asarray(g.zspec) > 0
        z[h], e[h], chi[h] = g.zspec[h], g.zspec_err[h], 1.0
    return z, e, chi


def wcen(c, zcorr):
    """Definition of the wcen-zred algorithm."""
    conf, g = c.config, c.neighbors
    z, e, chi = redshifts(c)
    lam, rl, ms = float(c.Lambda), float(c.r_lambda), float(c.mstar)
    cand = [k for k in range(g.size) if g.r[k] < rl and g.pfree[k] >= conf.percolation_pbcg_cut and chi[k] < conf.wcen_zred_chisq_max
            and (g.pmem[k] > 0 or abs(c.redshift - z[k]) < 5 * e[k])]
    if not cand:
        return None
    cand = np.array(cand)
    mag = np.asarray(g.refmag, 'f8')
    zmod = float(c.redshift) if zcorr is None else float(np.interp(c.redshift, zcorr.z, zcorr.zred_uncorr))
    gz = gauss(z[cand], zmod, e[cand])
    p = np.asarray(g.p, 'f8')
    wt = p * (10 ** (0.4 * (ms - mag)) if conf.wcen_uselum else 1.0)
    w = np.full(cand.size, 1e-3)
    src = np.where(p > 0)[0]
    for a, k in enumerate(cand):
        d = ref.sphdist(g.ra[k], g.dec[k], g.ra[src], g.dec[src])
        dis = np.sqrt((d * c.mpc_scale) ** 2 + conf.wcen_rsoft ** 2)
        ok = (src != k) & (d < 1.1 * rl / c.mpc_scale) & (dis < rl)
        if ok.any():
            w[a] = math.log((wt[src] / dis)[ok].sum() / (wt[src][ok].sum() / rl))
    with np.errstate(all='ignore'):
        lnw = np.log(w)
        ss = math.sqrt(min(lam, conf.wcen_maxlambda) / float(c.scaleval) / conf.wcen_pivot)
        mbar = ms + conf.wcen_Delta0 + conf.wcen_Delta1 * math.log(lam / conf.wcen_pivot)
        ucen = gauss(mag[cand], mbar, conf.wcen_sigma_m) * gz * gauss(lnw, conf.lnw_cen_mean, conf.lnw_cen_sigma / ss)
        mags = np.arange(c.zredstr.lumrefmagbins[0], ms - 2.5 * math.log10(conf.lval_reference) + 1e-9, 0.01)
        sch = lambda x: 10. ** (0.4 * (c.zredstr.alpha + 1) * (ms - x)) * np.exp(-10. ** (0.4 * (ms - x)))   # noqa
        usat = sch(mag[cand]) / (sch(mags).sum() * 0.01) * gz * gauss(lnw, conf.lnw_sat_mean, conf.lnw_sat_sigma / ss)
        ucen, usat = np.where(ucen < 1e-10, 0, ucen), np.where(usat < 1e-10, 0, usat)
        bk = c.zredbkg.sigma_g_lookup(z[cand], mag[cand]) / c.mpc_scale ** 2 * gauss(lnw, conf.lnw_fg_mean, conf.lnw_fg_sigma / ss) * math.pi * rl ** 2
        pc = np.clip(np.asarray(g.pfree)[cand] * ucen / (ucen + (lam / float(c.scaleval) - 1) * usat + bk), None, 0.99999)
        pc = np.where(np.isfinite(pc), pc, 0.0)
        fg = bk / ((lam - 1) * usat + bk)
        sat = (lam - 1) * usat / ((lam - 1) * usat + bk)
        fg, sat = np.where(np.isfinite(fg), fg, 0.0), np.where(np.isfinite(sat), sat, 0.0)
    order = np.argsort(-pc, kind='stable')
    order = order[pc[order] > 0][:conf.percolation_maxcen]
    un = np.array([pc[a] * np.prod([1 - pc[b] for b in order if b != a]) for a in order])
    miss = np.prod(1 - pc[order])
    return dict(cand=cand, pc=pc, order=order, pcen=un / un.sum() if un.size else un, qcen=un / (un.sum() + miss) if un.size else un, fg=fg, sat=sat)


def zc():
    if 'zc' not in _S:
        from redmapper import ZlambdaCorrectionPar
        _S['zc'] = ZlambdaCorrectionPar(ZCORR, zlambda_pivot=30.0)
    return _S['zc']


def unchanged(c, before):
    bad = []
    for n in before.dtype.names:
        if before[n].tobytes() != c.neighbors._ndarray[n].tobytes():
            bad.append('column %s of the neighbors was changed' % n)
    return bad


def common(c, cent, ok):
    """What every algorithm guarantees about its output."""
    bad = []
    n, m = int(cent.ngood), c.config.percolation_maxcen
    if ok not in (True, False):
        bad.append('result %r' % (ok,))
    if not ok and n:
        bad.append('candidates without a center')
    if n > m:
        bad.append('too many candidates')
    if n:
        if np.any(cent.index[n:] != -1):
            bad.append('unused slots name a galaxy')
        for a in ('p_cen', 'q_cen', 'p_fg', 'p_sat', 'p_c'):
            v = np.asarray(getattr(cent, a))
            if v.size != m or np.any(v[n:] != 0) or np.any(~np.isfinite(v)) or np.any(v < 0) or np.any(v > 1 + 1e-6):
                bad.append('%s is %s' % (a, v))
        if np.any(np.asarray(cent.ra)[n:] != -400.0) or np.any(np.asarray(cent.dec)[n:] != -400.0):
            bad.append('unused slots have a position')
        if abs(np.sum(cent.p_cen) - 1) > 1e-5:
            bad.append('p_cen sums to %s' % np.sum(cent.p_cen))
        g = c.neighbors
        for k in range(n):
            j = cent.index[k]
            if j >= 0 and (cent.ra[k] != g.ra[j] or cent.dec[k] != g.dec[j]):
                bad.append('candidate %d is not at its galaxy' % k)
        if cent.maxind != cent.index[0]:
            bad.append('maxind is not the first candidate')
    return bad


def run_wcen(case):
    from redmapper import CenteringWcenZred
    corr = case[-1]
    c = prepare(case[:-1])
    before = c.neighbors._ndarray.copy()
    cent = CenteringWcenZred(c, zlambda_corr=zc() if corr else None)
    with np.errstate(all='ignore'):
        ok = cent.find_center()
    bad = unchanged(c, before) + common(c, cent, ok)
    want = wcen(c, zc() if corr else None)
    if want is None or want['order'].size == 0:
        if ok and cent.ngood:
            bad.append('a center where there is none')
        if want is not None and cent.q_miss != 1.0:
            bad.append('q_miss is %s without a center' % cent.q_miss)
        return bad, ('none', want is None), False
    o = want['order']
    n = o.size
    if not ok or cent.ngood != n:
        return bad + ['%d candidates, expected %d' % (cent.ngood, n)], ('bad',), True
    pc = want['pc']
    got = cent.index[:n]
    exp = want['cand'][o]
    if got.tolist() != exp.tolist():
        # equal up to rounding of the ranking?
        val = {int(k): v for k, v in zip(want['cand'], pc)}
        if any(int(a) not in val or abs(val[int(a)] - val[int(b)]) > 1e-5 for a, b in zip(got, exp)) or len(set(got.tolist())) != n:
            return bad + ['candidates %s, expected %s' % (got.tolist(), exp.tolist())], ('bad',), True
        return bad, ('tie',), True
    for a, v in (('p_c', pc[o]), ('p_cen', want['pcen']), ('q_cen', want['qcen']), ('p_fg', (1 - want['pcen']) * want['fg'][o]), ('p_sat', (1 - want['pcen']) * want['sat'][o])):
        x = np.asarray(getattr(cent, a))[:n]
        if np.max(np.abs(x - v)) > 2e-4:
            bad.append('%s is %s, expected %s' % (a, x.tolist(), v.tolist()))
    return bad, (case[0], n, round(float(cent.p_cen[0]), 2)), n > 1


def run_bcg(case):
    from redmapper import CenteringBCG
    small = case[-1]
    c = prepare(case[:-1])
    if small == 'tiny':
        c.r_lambda = 1e-9
    elif small == 'pmem0':
        c.neighbors.pmem[:] = 0.0
    elif small == 'far':
        c.neighbors.pmem[:] = 0.5
        c.neighbors.zred[:] = c.redshift + 0.5
    elif small.startswith('p='):
        # far from the redshift of the cluster; only the bright ones may be members
        c.neighbors.zred[:] = c.redshift + 0.5
        c.neighbors.pmem[:] = 0.3
        c.neighbors.pmem[np.argsort(c.neighbors.r)[1]] = 0.99
        c.neighbors.pmem[np.argsort(np.where(c.neighbors.r < c.r_lambda, c.neighbors.refmag, 99.0))[:3]] = float(small[2:])
    before = c.neighbors._ndarray.copy()
    cent = CenteringBCG(c)
    ok = cent.find_center()
    g = c.neighbors
    bad = unchanged(c, before)
    z, e, _ = redshifts(c)
    use = np.where((g.r < c.r_lambda) & ((g.pmem > 0.8) | (np.abs(z - c.redshift) < 2 * e)))[0]
    if use.size == 0:
        return bad + (['a center where there is none'] if ok else []), ('none',), False
    best = np.asarray(g.refmag)[use].min()
    if not ok or cent.ngood != 1:
        return bad + ['no center found'], ('bad',), True
    k = int(cent.index[0])
    if k not in use.tolist() or g.refmag[k] != best or cent.maxind != k:
        bad.append('center %d is not the brightest acceptable galaxy' % k)
    if cent.ra[0] != g.ra[k] or cent.dec[0] != g.dec[k] or np.any(cent.index[1:] != -1):
        bad.append('center is not at its galaxy')
    if cent.p_cen[0] != 1 or cent.q_cen[0] != 1 or cent.p_sat[0] != 0 or np.any(cent.p_cen[1:] != 0):
        bad.append('probabilities')
    return bad, (case[0], k), True


class draws:
    """Every draw of numpy's global generator gives the listed uniform numbers in turn."""

    def __init__(self, *vals):
        self.vals = list(vals)
        self.k = 0

    def __enter__(self):
        self.old = {n: getattr(np.random, n) for n in ('random', 'uniform', 'rand', 'random_sample')}

        def rnd(size=None):
            n = 1 if size is None else int(np.prod(size))
            v = [self.vals[(self.k + i) % len(self.vals)] for i in range(n)]
            self.k += n
            return np.array(v) if size is not None else v[0]

        def uni(low=0.0, high=1.0, size=None):
            return low + (high - low) * rnd(size)
        np.random.random = np.random.random_sample = rnd
        np.random.uniform = uni
        np.random.rand = lambda *s: rnd(s if s else None)
        return self

    def __exit__(self, *exc):
        for n, f in self.old.items():
            setattr(np.random, n, f)


def run_random(case):
    from redmapper import CenteringRandom
    i, ra, dec, n = case
    c = base(i)
    c.ra, c.dec = ra, dec
    bad = []
    rad, ang = [], []
    grid = (np.arange(n) + 0.5) / n
    for u, v in itertools.product(grid, grid):
        cent = CenteringRandom(c)
        with draws(u, v):
            ok = cent.find_center()
        bad += common(c, cent, ok)
        if not ok or cent.ngood != 1 or cent.index[0] != -1:
            bad.append('random center')
        if not 0 <= cent.ra[0] <= 360:
            bad.append('ra %s' % cent.ra[0])
        rad.append(float(ref.sphdist(ra, dec, cent.ra[0], cent.dec[0])) * c.mpc_scale / float(c.r_lambda))
        dra = (cent.ra[0] - ra + 180) % 360 - 180
        ang.append(math.atan2(cent.dec[0] - dec, dra * math.cos(math.radians(dec))))
        if bad:
            return bad[:2], ('bad',), True
    rad, ang = np.array(rad), np.array(ang)
    if rad.max() > 1.01:
        bad.append('center at %s of the radius' % rad.max())
    for x in (0.3, 0.5, 0.7, 0.9):
        if abs((rad < x).mean() - x * x) > 1.5 / n:
            bad.append('%s of the centers within %s of the radius' % ((rad < x).mean(), x))
    for q in range(4):
        lo = -math.pi + q * math.pi / 2
        if abs(((ang >= lo) & (ang < lo + math.pi / 2)).mean() - 0.25) > 1.5 / n:
            bad.append('directions are not uniform')
    return bad, (i, round(float(rad.mean()), 2)), True


def run_sat(case):
    from redmapper import CenteringRandomSatellite
    i, kind = case
    c = base(i)
    g = c.neighbors
    if kind == 'one':
        g.pmem[:] = 0.0
        g.pmem[g.size // 2] = 0.7
    elif kind == 'two':
        g.pmem[:] = 0.0
        g.pmem[1], g.pmem[g.size - 1] = 0.75, 0.25
    elif kind == 'equal':
        g.pmem[:] = 0.5
    elif kind == 'few':
        keep = np.argsort(g.pmem)[::-1][:4]
        c.set_neighbors(g[keep])
        g = c.neighbors
        g.pmem[:] = [0.9, 0.6, 0.3, 0.0]
    before = g._ndarray.copy()
    N = 8 * g.size
    cnt = np.zeros(g.size)
    bad = []
    for k in range(N):
        cent = CenteringRandomSatellite(c)
        with draws((k + 0.5) / N):
            ok = cent.find_center()
        if not ok or cent.ngood != 1:
            return ['no satellite found'], ('bad',), True
        if k % 50 == 0:
            bad += common(c, cent, ok)
        cnt[cent.index[0]] += 1
        if bad:
            return bad[:2], ('bad',), True
    bad += unchanged(c, before)
    pm = np.asarray(g.pmem, 'f8')
    if np.any(cnt[pm == 0] > 0):
        bad.append('a galaxy without membership became the center')
    off = np.max(np.abs(cnt / N - pm / pm.sum()))
    if off > 1.01 / g.size + 1e-9:
        bad.append('chosen with a frequency %s off the membership probability' % off)
    return bad, (i, kind), True


def body(check):
    pipe.setup()
    th = check.thorough
    pools = POOLS if not th else tuple(range(len(pipe.POOL)))
    lams = ((None, 1.0), (150.0, 1.0), (25.0, 1.7), (150.0, 1.7))
    full = list(itertools.product(pools, ('free', 'near', 'alternating', 'none'), ('as is', 'bad', 'one', 'edge', 'sparse'), lams, (False, True), (1, 2, 5), (True, False), ('as is', 'reversed', 'twins'), (False, True)))

    def depth(x):
        return sum(a != b for a, b in zip(x[1:], ('free', 'as is', lams[0], False, 5, True, 'as is', False)))
    lim = 8 if th else 2
    cases = [[x[0], x[1], x[2], x[3][0], x[3][1], x[4], x[5], x[6], x[7], x[8]] for x in full if depth(x) <= lim]
    check.run_cases(cases, run_wcen, 'wcen')
    cases = [[i, pf, 'as is', None, 1.0, zs, m, True, o, s] for i in pools for pf in ('free', 'none') for zs in (False, True) for m in (1, 5) for o in ('as is', 'reversed') for s in ('', 'tiny', 'pmem0', 'far', 'p=0.5', 'p=0.78', 'p=0.82', 'p=0.95')]
    check.run_cases(cases, run_bcg, 'bcg')
    n = 12 if not th else 24
    check.run_cases([[i, ra, dec, n] for i in pools[:3] for ra, dec in ((140.5, 65.9), (0.001, 10.0), (359.999, -45.0), (80.0, 0.0))], run_random, 'random')
    check.run_cases([[i, k] for i in pools for k in ('as is', 'one', 'two', 'equal', 'few')], run_sat, 'satellite')


if __name__ == '__main__':
    core.main('C15', 'exploration',
              'wcen-zred: six clusters (20 thorough) x all combinations of at most two (all: thorough) non-default values of free probability, chi-squared, richness, '
              'spectroscopic redshifts, slots, luminosity weight, row order and redshift correction, against the definition; brightest-galaxy, random and '
              'random-satellite centering on all combinations and on a grid of all random numbers. Non-trivial: there is more than one candidate (or a center).', body)
