"""C10: cluster richness: the matched-filter fixed point, its bounds, membership probabilities, invariances."""
import itertools
import math
import os

import numpy as np

from mc import build, core, rm

LO, HI = 0.5, 2000.0
TOL = 0.01


def norm_nfw(r):
    x = math.log(r)
    return math.exp(1.65169 - 0.547850 * x + 0.138202 * x ** 2 - 0.0719021 * x ** 3 - 0.0158241 * x ** 4 - 0.000854985 * x ** 5)


def weights(lam, r0, beta, u, b, r, w, rsig):
    """p, weight, theta_r, r_lambda at richness lam."""
    rl = r0 * (lam / 100.0) ** beta
    with np.errstate(all='ignore'):
        x = lam * u * norm_nfw(rl)
        p = x / (x + b)
    p = np.where(np.isfinite(p), p, 0.0)
    if rsig <= 0:
        th = (r < rl).astype('f8')
    else:
        th = np.array([0.5 + 0.5 * math.erf((rl - x) / (math.sqrt(2.0) * rsig)) for x in r])
    return p, p * w * th, th, rl


def total(lam, r0, beta, u, b, r, w, rsig, cpars):
    p, wt, th, rl = weights(lam, r0, beta, u, b, r, w, rsig)
    return wt.sum() + lam * max(0.0, np.polyval(cpars, rl))


def judge(sol, r0, beta, u, b, r, w, rsig, cpars):
    """Problems of a solution (lam, p, wt, rlam, theta_r); the number of crossings."""
    lam, p, wt, rlam, th = [np.asarray(x, 'f8') for x in sol]
    lam, rlam = float(lam), float(rlam)
    bad = []
    n = u.size
    if not (p.shape == wt.shape == th.shape == (n,)):
        return ['shapes %s %s %s' % (p.shape, wt.shape, th.shape)], 0, 'x'
    grid = np.exp(np.linspace(np.log(LO), np.log(HI), 400))
    g = np.array([total(x, r0, beta, u, b, r, w, rsig, cpars) - x for x in grid])
    above = grid >= 1.0
    sign = np.where(np.abs(g) < 1e-9, 0, np.sign(g))
    cross = [i for i in range(grid.size - 1) if sign[i] > 0 and sign[i + 1] <= 0]
    if lam == -1.0:
        if rlam != -1.0:
            bad.append('richness -1 but radius %s' % rlam)
        # one crossing, well above the detection limit, and the cluster exists all the way down to it
        if cross and len(cross) == 1 and grid[cross[0]] > 1.3 and np.all(sign[:cross[0] + 1] > 0):
            bad.append('no richness found although the solution is %.3f' % grid[cross[0]])
        return bad, len(cross), 'none'
    if not 1.0 <= lam <= HI:
        return ['richness %s outside [1, 2000]' % lam], len(cross), 'x'
    if abs(rlam - r0 * (lam / 100.0) ** beta) > 1e-9:
        bad.append('radius %s does not belong to richness %s' % (rlam, lam))
    if np.all(sign[above] < 0) and lam > 2:
        bad.append('richness %s although no solution exists' % lam)
    glo = total(lam - 2 * TOL, r0, beta, u, b, r, w, rsig, cpars) - (lam - 2 * TOL)
    ghi = total(lam + 2 * TOL, r0, beta, u, b, r, w, rsig, cpars) - (lam + 2 * TOL)
    if not (glo >= -1e-6 and ghi <= 1e-6) and lam < HI - 1 and lam > 2:
        bad.append('richness %s is not the sum of its membership probabilities (residuals %s, %s)' % (lam, glo, ghi))
    if lam >= HI - 1 and g[-1] < 0:
        bad.append('richness at the upper limit although a smaller one solves')
    # membership probabilities, evaluated within the tolerance of the solution
    alt = [weights(x, r0, beta, u, b, r, w, rsig) for x in (lam - 2 * TOL, lam, lam + 2 * TOL)]
    for name, got, k in (('p', p, 0), ('weight', wt, 1), ('theta_r', th, 2)):
        lo = np.min([a[k] for a in alt], axis=0) - 1e-5
        hi = np.max([a[k] for a in alt], axis=0) + 1e-5
        if rsig <= 0 and k == 1:
            lo = np.where(np.abs(r - rlam) < 1e-3, 0, lo)
        if np.any((got < lo) | (got > hi)):
            i = int(np.argmax(np.maximum(lo - got, got - hi)))
            bad.append('%s of galaxy %d is %s, expected %s' % (name, i, got[i], alt[1][k][i]))
    if np.any(p < 0) or np.any(p > 1) or np.any(wt < 0) or np.any(wt > w + 1e-12):
        bad.append('probabilities outside their range')
    return bad, len(cross), 'found'


#          u      b      r     w
PALETTE = [(8.0, 0.5, 0.05, 1.0), (3.0, 1.0, 0.3, 1.0), (1.0, 2.0, 0.62, 0.7), (0.5, 0.2, 0.8, 1.0), (0.2, 5.0, 1.1, 1.0),
           (0.0, 1.0, 0.2, 1.0), (2.0, 0.0, 0.4, 1.0), (0.0, 0.0, 0.3, 1.0), (5.0, np.inf, 0.1, 1.0), (4.0, 0.3, 0.2, 0.0)]
CPARS = {'none': [0, 0, 0, 0], 'const': [0, 0, 0, 0.25], 'edge': [0.05, -0.1, 0.3, 0.02], 'neg': [0, 0, -0.2, 0.05], 'all': [0, 0, 0, 1.0]}


def run_solver(case):
    from redmapper.solver_nfw import Solver
    gals, rep, cp, rsig, (r0, beta) = case
    a = np.array([PALETTE[i] for i in gals for _ in range(rep)], dtype='f8').reshape(-1, 4)
    if a.shape[0]:
        a[:, 2] *= 1 + 0.004 * (np.arange(a.shape[0]) % 7)      # not all at the same radius
    u, b, r, w = [a[:, k].copy() for k in range(4)]
    cpars = np.array(CPARS[cp], dtype='f8')
    keep = [x.copy() for x in (u, b, r, w, cpars)]
    sol = Solver(r0, beta, u, b, r, w, cpars=cpars, rsig=rsig).solve_nfw()
    bad, nc, out = judge(sol, r0, beta, u, b, r, w, rsig, cpars)
    if any(not np.array_equal(x, y) for x, y in zip(keep, (u, b, r, w, cpars))):
        bad.append('an input array was modified')
    if u.size > 1 and not bad:
        # any order of the galaxies, float32 and strided input
        perm = np.argsort((np.arange(u.size) * 7 + 3) % u.size, kind='stable')
        s2 = Solver(r0, beta, u[perm], b[perm], r[perm], w[perm], cpars=cpars, rsig=rsig).solve_nfw()
        if abs(float(s2[0]) - float(sol[0])) > 3 * TOL or (out == 'found' and not np.allclose(s2[2], sol[2][perm], atol=1e-2)):
            bad.append('richness %s depends on the order of the galaxies (%s)' % (float(sol[0]), float(s2[0])))
        big = np.zeros((u.size, 8))
        big[:, ::2] = np.array([u, b, r, w]).T
        s3 = Solver(r0, beta, big[:, 0], big[:, 2], big[:, 4], big[:, 6], cpars=cpars, rsig=rsig).solve_nfw()
        if float(s3[0]) != float(sol[0]) or not np.array_equal(s3[2], sol[2]):
            bad.append('result depends on the memory layout')
        # a galaxy that cannot contribute changes nothing
        x = lambda v, e: np.append(v, e)     # noqa
        s4 = Solver(r0, beta, x(u, 3.0), x(b, 1.0), x(r, 0.2), x(w, 0.0), cpars=cpars, rsig=rsig).solve_nfw()
        if abs(float(s4[0]) - float(sol[0])) > 1e-9:
            bad.append('a galaxy of weight zero changes the richness')
    return bad, (out, min(nc, 3), rep, cp, rsig), out == 'found'


def run_solver_bad(case):
    from redmapper.solver_nfw import Solver
    a = [np.ones(3), np.ones(3), np.ones(3), np.ones(3)]
    cp = np.zeros(4)
    k, dn = case
    if k < 4:
        a[k] = np.ones(3 + dn)
    else:
        cp = np.zeros(4 + dn)
    try:
        Solver(1.0, 0.2, *a, cpars=cp)
    except ValueError:
        return [], ('refused', k, dn), True
    return ['argument %d of the wrong length was accepted' % k], ('accepted', k), True


# --- clusters -------------------------------------------------------------
_S = {}


def setup():
    import fitsio
    from redmapper import Background, ColorBackground, Configuration, GalaxyCatalog, RedSequenceColorPar
    d = os.path.join(build.scratch(), 'c10')
    os.makedirs(d)
    cf = rm.write_config(d + '/c.yml', maskgalfile=d + '/maskgals.fit', maskgal_ngals=2000, maskgal_nsamples=3)
    conf = rm.quiet(Configuration(cf))
    rm.make_maskgals(conf, d + '/maskgals.fit')
    _S['conf'] = conf
    _S['par'] = RedSequenceColorPar(os.path.join(build.DATA, 'test_dr8_pars.fit'), fine=True)
    _S['cbkg'] = ColorBackground(os.path.join(build.DATA, 'test_dr8_col_bkg.fit'), usehdrarea=True)
    _S['bkg'] = Background(os.path.join(build.DATA, 'test_bkg.fit'))
    _S['nb'] = GalaxyCatalog.from_fits_file(os.path.join(build.DATA, 'test_cluster_members.fit'))
    h = fitsio.read_header(os.path.join(build.DATA, 'test_cluster_members.fit'), ext=1)
    _S['hdr'] = (h['RA'], h['DEC'], h['Z'])
    from redmapper import DepthMap, HPMask
    _S['mask'] = HPMask(conf)
    _S['depth'] = DepthMap(conf)


def nfw_sigma(r):
    x = np.maximum(np.atleast_1d(r) / 0.15, 0.1 / 0.15)
    out = np.zeros(x.size)
    for i, v in enumerate(x):
        if abs(v - 1) < 0.0011:
            # both limits are 1/3; the code averages the two sides
            out[i] = 1.0 / 3.0
        elif v < 1:
            out[i] = (1 - 2 / math.sqrt(1 - v * v) * math.atanh(math.sqrt((1 - v) / (1 + v)))) / (v * v - 1)
        else:
            out[i] = (1 - 2 / math.sqrt(v * v - 1) * math.atan(math.sqrt((v - 1) / (1 + v)))) / (v * v - 1)
    return out


MASKS = ('full', 'half', 'quarter', 'depth')


def make_cluster(z, sel, perm, beta=None, r0=None):
    from redmapper import Cluster
    nb = _S['nb']
    idx = np.arange(nb.size)
    if sel == 'odd':
        idx = idx[1::2]
    elif sel == 'inner':
        idx = idx[nb.r < 0.6]
    elif sel == 'outer':
        idx = idx[nb.r > 1.3]
    elif sel == 'five':
        idx = idx[:5]
    elif sel == 'one':
        idx = idx[:1]
    idx = np.array(sorted(idx, key=lambda i: (i * 7919) % 10007)) if perm else idx
    c = Cluster(config=_S['conf'], r0=r0, beta=beta)
    cat = nb[idx]
    c.set_neighbors(cat)
    c.zredstr = _S['par']
    c.bkg = _S['bkg']
    c.ra, c.dec = _S['hdr'][:2]
    c.redshift = z
    return c, idx


def set_mask(c, kind):
    """Prepare the maskgals for the cluster; the mask is deterministic."""
    m = _S['mask']
    m.select_maskgals_sample(maskgal_index=1)
    g = m.maskgals
    g.mark = np.ones(g.size, dtype=bool)
    if kind == 'half':
        g.mark = g.x > 0.0
    elif kind == 'quarter':
        g.mark = ~((g.x > 0.1) & (g.y > 0.1))
    g.w[:] = -1.0
    g.limmag[:] = 20.5 if kind == 'depth' else 24.0
    g.exptime[:] = 100.0
    g.zp[0] = 22.5
    g.nsig[0] = 10.0
    g.m50[:] = 0.0
    return m


def run_cluster(case):
    from scipy import stats
    z, sel, pf, kind, index, perm, (r0, beta) = case
    c, idx = make_cluster(z, sel, perm, beta, r0)
    par, conf = _S['par'], _S['conf']
    nb = c.neighbors
    n = nb.size
    m = set_mask(c, kind)
    if pf == 'mix':
        nb.pfree[:] = np.array([1.0, 0.5, 0.0, 0.9])[idx % 4]
    elif pf == 'zero':
        nb.pfree[:] = 0.0
    # stale results of an earlier computation must not matter
    for f in ('p', 'pmem', 'theta_i', 'theta_r', 'pcol'):
        getattr(nb, f)[:] = 0.77
    nb.chisq[:] = 3.3
    sub = np.arange(n)
    if index == 'even':
        sub = sub[::2]
    raw = nb._ndarray.copy()
    np.random.seed(3)
    lam = c.calc_richness(m, index=None if index is None else sub)
    bad = []
    # ---- reference
    maxmag = par.mstar(z) - 2.5 * np.log10(conf.lval_reference)
    chi = np.asarray(par.calculate_chisq(_S['nb'][idx], z), 'f8')
    mpc = np.radians(1.0) * float(conf.cosmo.Da(0, z))
    r = np.clip(mpc * np.asarray(_S['nb'].dist, 'f8')[idx], 1e-6, None)
    if not np.allclose(nb.r, r, rtol=1e-6):
        bad.append('radii do not correspond to the distances at z=%s' % z)
    if not np.allclose(nb.chisq[sub], chi[sub], rtol=1e-5):
        bad.append('chisq of the neighbors is not that at the cluster redshift')
    refmag = np.asarray(raw['refmag'], 'f8')
    rerr = np.asarray(raw['refmag_err'], 'f8')
    iz = par.zindex(z)
    mags = np.arange(par.lumrefmagbins[0], maxmag + 1e-9, 0.01)
    sch = lambda x: 10. ** (0.4 * (par.alpha + 1) * (par.mstar(z) - x)) * np.exp(-10. ** (0.4 * (par.mstar(z) - x)))    # noqa
    phi = sch(refmag) / (sch(mags).sum() * 0.01)
    rho = stats.chi2.pdf(chi, par.ncol)
    u = 2 * np.pi * r * nfw_sigma(r) * phi * rho
    sg = c.bkg.sigma_g_lookup(z, chi, refmag)
    b = 2 * np.pi * r * sg / mpc ** 2
    lim = min(maxmag, par.limmag)
    with np.errstate(all='ignore'):
        ti = np.array([0.5 + 0.5 * math.erf((lim - x) / (math.sqrt(2) * e)) for x, e in zip(refmag, rerr)])
    ti[refmag > par.limmag] = 0.0
    pfree = np.asarray(raw['pfree'], 'f8')
    cpars = m.calc_maskcorr(c.mstar, maxmag, par.limmag) if kind != 'depth' else None
    if cpars is None:
        np.random.seed(3)
        cpars = m.calc_maskcorr(c.mstar, maxmag, par.limmag)
    w = (ti * pfree)[sub]
    got = {f: np.asarray(getattr(nb, f), 'f8') for f in ('p', 'pmem', 'theta_i', 'theta_r', 'pcol')}
    off = np.setdiff1d(np.arange(n), sub)
    zero = np.arange(n) if lam < 0 else off
    for f in got:
        if np.any(got[f][zero] != 0):
            bad.append('%s of galaxies that were not used is not zero' % f)
    R0, B = c.r0, c.beta
    uu, bb, rr = u[sub], b[sub], r[sub]
    # small differences of the luminosity normalization are allowed for
    g0 = lambda x, s: total(x, R0, B, uu * s, bb, rr, w, conf.rsig, cpars) - x     # noqa
    if lam < 0:
        out = 'none'
        if lam != -1.0 or c.Lambda != -1.0 or c.scaleval != -1.0 or c.Lambda_e != -1.0:
            bad.append('no cluster, but lambda %s %s scaleval %s error %s' % (lam, c.Lambda, c.scaleval, c.Lambda_e))
        grid = np.exp(np.linspace(np.log(1.3), np.log(300), 60))
        if sum(g0(x, 0.97) > 0.05 for x in grid) > 20 and np.max(w) > 0:
            bad.append('no richness found although there is a cluster')
        return bad, (case[1], out), False
    out = 'found'
    ok = lam * 0.01 + 2 * TOL
    if lam > 2 and not (g0(lam - ok, 1.03) >= 0 and g0(lam + ok, 0.97) <= 0):
        bad.append('richness %s is not the fixed point (residuals %s, %s)' % (lam, g0(lam - ok, 1.0), g0(lam + ok, 1.0)))
    rl = R0 * (lam / 100.0) ** B
    if abs(c.r_lambda - rl) > 1e-5 or c.Lambda != np.float32(lam):
        bad.append('r_lambda %s, Lambda %s for richness %s' % (c.r_lambda, c.Lambda, lam))
    p, wt, th, _ = weights(float(lam), R0, B, uu, bb, rr, w, conf.rsig)
    for f, want, tol in (('theta_i', ti[sub], 1e-4), ('theta_r', th, 2e-3), ('p', p, 0.02), ('pmem', wt, 0.02)):
        d = np.abs(got[f][sub] - want)
        if np.any(d > tol):
            i = int(np.argmax(d))
            bad.append('%s of galaxy %d is %s, expected %s' % (f, i, got[f][sub][i], want[i]))
    prod = got['p'][sub] * pfree[sub] * got['theta_i'][sub] * got['theta_r'][sub]
    if np.any(np.abs(prod - got['pmem'][sub]) > 5e-3):
        bad.append('pmem is not p * pfree * theta_i * theta_r')
    s = got['pmem'].sum()
    if abs(c.scaleval * s - lam) > 1e-4 * lam:
        bad.append('lambda %s is not scaleval %s times the sum of pmem %s' % (lam, c.scaleval, s))
    if cpars is not None and abs(1 / c.scaleval - (1 - max(0, np.polyval(cpars, rl)))) > 0.02 * (1 + 30 / lam):
        bad.append('scaleval %s does not correspond to the masked fraction %s' % (c.scaleval, np.polyval(cpars, rl)))
    with np.errstate(all='ignore'):
        pc = rho * phi * lam / (rho * phi * lam + b)
    pc = np.where(np.isfinite(pc) & (r <= rl) & (refmag <= maxmag) & (refmag <= par.limmag), pc, 0.0)
    edge = (np.abs(r - rl) < 1e-3) | (np.abs(refmag - maxmag) < 1e-3)
    if np.any((np.abs(got['pcol'] - pc) > 0.02)[sub] & ~edge[sub]):
        bad.append('pcol differs from its definition')
    # error
    pm = got['pmem'][sub]
    bar = np.sum(pm ** 2) / np.sum(pm)
    cerr = {}
    for name, cv in (('', max(0.0, np.polyval(cpars, rl))), ('rev', max(0.0, float(np.sum(cpars * rl ** np.arange(4)))))):
        cerr[name] = mask_err(c, m, par, z, mpc, lam, rl, pm, cv, conf.dldr_gamma, B)
    base = (1 - bar) * lam * c.scaleval
    want = {k: math.sqrt(base + v ** 2) for k, v in cerr.items()}
    if abs(c.Lambda_e - want['']) > 1e-3 * want['']:
        if abs(c.Lambda_e - want['rev']) <= 1e-3 * want['rev']:
            bad.append(('mask-fraction-polynomial-reversed-in-error', 'richness error %s, expected %s' % (c.Lambda_e, want[''])))
        else:
            bad.append('richness error %s, expected %s' % (c.Lambda_e, want['']))
    # again, and with the neighbors in another state: same answer
    np.random.seed(3)
    lam2 = c.calc_richness(m, calc_err=False, index=None if index is None else sub)
    if abs(lam2 - lam) > 1e-9 or c.Lambda_e != 0.0:
        bad.append('second computation gives %s +- %s instead of %s' % (lam2, c.Lambda_e, lam))
    for f in ('ra', 'dec', 'refmag', 'refmag_err', 'mag', 'mag_err', 'dist', 'pfree', 'r'):
        if not np.array_equal(raw[f], nb._ndarray[f]):
            bad.append('column %s of the neighbors was modified' % f)
    # other order of the neighbors
    if not perm and sel == 'all' and index is None:
        c2, idx2 = make_cluster(z, sel, True, beta, r0)
        if pf == 'mix':
            c2.neighbors.pfree[:] = np.array([1.0, 0.5, 0.0, 0.9])[idx2 % 4]
        set_mask(c2, kind)
        np.random.seed(3)
        l3 = c2.calc_richness(m)
        if abs(l3 - lam) > 3 * TOL:
            bad.append('richness %s in another neighbor order, %s originally' % (l3, lam))
    return bad, (sel, out, kind, pf), True


def run_fit(case):
    """Richness of the color-training stage: red sequence fitted in one color."""
    z, sel, pf, kind, col, (dc, rcut), perm = case
    c, idx = make_cluster(z, sel, perm)
    par, conf = _S['par'], _S['conf']
    c.cbkg = _S['cbkg']
    nb = c.neighbors
    m = set_mask(c, kind)
    if pf == 'mix':
        nb.pfree[:] = np.array([1.0, 0.5, 0.0, 0.9])[idx % 4]
    for f in ('p', 'pmem', 'theta_i', 'theta_r', 'pcol'):
        getattr(nb, f)[:] = 0.77
    raw = nb._ndarray.copy()
    r = np.asarray(nb.r, 'f8')
    gc = np.asarray(nb.galcol[:, col], 'f8')
    ge = np.asarray(nb.galcol_err[:, col], 'f8')
    refmag = np.asarray(raw['refmag'], 'f8')
    mst = par.mstar(z)
    maxmag = mst - 2.5 * np.log10(conf.lval_reference)
    rng = c.cbkg.get_colrange(col)
    cen = None if dc is None else float(np.median(gc)) + dc
    np.random.seed(3)
    lam = c.calc_richness_fit(m, col, centcolor_in=cen, rcut=rcut, calc_err=True)
    bad = []
    use = (refmag > mst - 2.5 * np.log10(20)) & (refmag < maxmag) & (r < rcut) & (gc > rng[0]) & (gc < rng[1])
    cc = cen
    reason = None
    if cc is None:
        i0 = int(np.argmin(r))
        cc = gc[i0]
        if not use[i0]:
            reason = 'bcg'
    err = np.sqrt(ge ** 2 + 0.05 ** 2)
    fit = use & (np.abs(gc - cc) < 2 * err)
    if use.sum() < 5 or fit.sum() < 5:
        reason = 'few'
    if reason:
        if lam != -10.0:
            bad.append('richness %s from too few galaxies' % lam)
        return bad, ('fit', reason), False
    piv = np.median(refmag[use])
    a, b0 = np.polyfit(refmag[fit] - piv, gc[fit], 1, w=1 / ge[fit])
    d = gc - (a * (refmag - piv) + b0)
    dw = np.exp(-d ** 2 / (2 * err ** 2)) / np.sqrt(2 * np.pi) / err
    mags = np.arange(par.lumrefmagbins[0], maxmag + 1e-9, 0.01)
    sch = lambda x: 10. ** (0.4 * (par.alpha + 1) * (mst - x)) * np.exp(-10. ** (0.4 * (mst - x)))    # noqa
    phi = sch(refmag) / (sch(mags).sum() * 0.01)
    mpc = np.radians(1.0) * float(conf.cosmo.Da(0, z))
    u = 2 * np.pi * r * nfw_sigma(r) * phi * dw
    b = 2 * np.pi * r * c.cbkg.sigma_g_diagonal(col, gc, refmag) / mpc ** 2
    lim = min(maxmag, conf.limmag_catalog)
    ti = np.array([0.5 + 0.5 * math.erf((lim - x) / (math.sqrt(2) * e)) for x, e in zip(refmag, np.asarray(raw['refmag_err'], 'f8'))])
    ti[refmag > conf.limmag_catalog] = 0
    np.random.seed(3)
    cpars = m.calc_maskcorr(c.mstar, maxmag, conf.limmag_catalog)
    w = ti * np.asarray(raw['pfree'], 'f8')
    g0 = lambda x, s: total(x, c.r0, c.beta, u * s, b, r, w, 0.0, cpars) - x     # noqa
    if lam < 0:
        if lam != -1.0 or c.scaleval != -1.0:
            bad.append('no cluster, but richness %s scaleval %s' % (lam, c.scaleval))
        grid = np.exp(np.linspace(np.log(1.3), np.log(300), 60))
        if sum(g0(x, 0.97) > 0.05 for x in grid) > 20:
            bad.append('no richness found although there is a cluster')
        return bad, ('fit', 'none'), False
    ok = lam * 0.01 + 2 * TOL
    if lam > 2 and not (g0(lam - ok, 1.03) >= 0 and g0(lam + ok, 0.97) <= 0):
        bad.append('richness %s is not the fixed point (residuals %s, %s)' % (lam, g0(lam - ok, 1.0), g0(lam + ok, 1.0)))
    rl = c.r0 * (lam / 100.0) ** c.beta
    if abs(c.r_lambda - rl) > 1e-5 or abs(c.Lambda - lam) > 1e-5 * lam:
        bad.append('r_lambda %s, Lambda %s for richness %s' % (c.r_lambda, c.Lambda, lam))
    p, wt, th, _ = weights(float(lam), c.r0, c.beta, u, b, r, w, 0.0)
    edge = np.abs(r - rl) < 2e-3
    for f, want, tol in (('theta_i', ti, 1e-4), ('theta_r', th, 2e-3), ('p', p, 0.02), ('pmem', wt, 0.02)):
        dd = np.abs(np.asarray(getattr(nb, f), 'f8') - want)
        dd[edge] = 0
        if np.any(dd > tol):
            i = int(np.argmax(dd))
            bad.append('%s of galaxy %d is %s, expected %s' % (f, i, getattr(nb, f)[i], want[i]))
    pm = np.asarray(nb.pmem, 'f8')
    if abs(c.scaleval * pm.sum() - lam) > 1e-4 * lam:
        bad.append('lambda %s is not scaleval times the sum of pmem' % lam)
    ce = mask_err(c, m, par, z, mpc, lam, rl, pm, max(0.0, np.polyval(cpars, rl)), conf.dldr_gamma, c.beta)
    want = math.sqrt((1 - np.sum(pm ** 2) / pm.sum()) * lam * c.scaleval + ce ** 2)
    if abs(c.Lambda_e - want) > 1e-3 * want:
        bad.append('richness error %s, expected %s' % (c.Lambda_e, want))
    out = (r > rl + 1e-3) | (refmag > maxmag + 1e-3) | (refmag > conf.limmag_catalog + 1e-3)
    pc = np.asarray(nb.pcol, 'f8')
    if np.any(pc[out] != 0) or not np.all((pc >= 0) & (pc <= 1) | ~np.isfinite(pc)):
        bad.append('pcol outside the cluster is not zero')
    for f in ('ra', 'dec', 'refmag', 'refmag_err', 'mag', 'mag_err', 'dist', 'pfree', 'r'):
        if not np.array_equal(raw[f], nb._ndarray[f]):
            bad.append('column %s of the neighbors was modified' % f)
    return bad, ('fit', sel, kind, pf), True


def mask_err(c, m, par, z, mpc, lam, rl, pm, cval, gamma, beta):
    g = m.maskgals
    use = np.where(g.r < rl)[0]
    ref = par.mstar(z) + np.asarray(g.m, 'f8')[use]
    u = np.asarray(g.cwt, 'f8')[use] * norm_nfw(rl) * np.asarray(g.nfw, 'f8')[use] * np.asarray(g.lumwt, 'f8')[use]
    out = np.where((ref > par.limmag) | ~g.mark[use])[0]
    if out.size == 0 or cval < 0.01:
        return 0.0
    rb = np.where(ref >= par.limmag, par.limmag - 0.01, ref)
    b = 2 * np.pi * np.asarray(g.r, 'f8')[use] * c.bkg.sigma_g_lookup(z, np.asarray(g.chisq)[use], rb) / mpc ** 2
    p = lam * u[out] / (lam * u[out] + b[out])
    v = p.sum() / lam / use.size
    return lam ** 2 / np.sum(pm ** 2) * math.sqrt(v - v * v) / (1 - beta * gamma)


def body(check):
    th = check.thorough
    size = 4 if th else 3
    multis = [list(x) for k in range(0, size + 1) for x in itertools.combinations_with_replacement(range(len(PALETTE)), k)]
    cases = [[g, rep, cp, rs, rb] for g in multis for rep in (1, 6, 40) for cp in CPARS for rs in (0.0, 0.05)
             for rb in ([1.0, 0.2], [0.5, 0.0])]
    if not th:
        cases = [c for c in cases if not (len(c[0]) == 3 and c[1] == 6)]
    check.run_cases(cases, run_solver, 'solver')
    check.run_cases([[k, dn] for k in range(5) for dn in (-1, 1)], run_solver_bad, 'sizes')
    setup()
    zs = (0.1, 0.227865, 0.35) if not th else (0.07, 0.1, 0.15, 0.227865, 0.3, 0.35, 0.45)
    cases = [list(x) for x in itertools.product(zs, ('all', 'odd', 'inner', 'outer', 'five', 'one'), ('one', 'mix', 'zero'), MASKS,
                                                (None, 'even'), (False, True), ([None, None], [0.5, 0.0], [1.3, 0.3]))
             if not (x[2] == 'zero' and x[5])]
    if not th:
        cases = [c for c in cases if not (c[5] and c[6] != [None, None])]
    check.run_cases(cases, run_cluster, 'clusters')
    cases = [list(x) for x in itertools.product(zs, ('all', 'odd', 'inner', 'outer', 'five', 'one'), ('one', 'mix'), MASKS, (1, 2),
                                                ((None, 0.5), (0.0, 0.5), (0.1, 0.5), (-0.3, 0.5), (0.0, 0.2), (0.0, 1.0)), (False, True))
             if th or not x[6]]
    check.run_cases(cases, run_fit, 'fit')


if __name__ == '__main__':
    core.main('C10', 'exploration',
              'All multisets of up to 3 (4) galaxy types, repeated 1/6/40 times, x mask correction x softening x radius '
              'scaling for the solver; all selections/weights/masks/redshifts for real cluster neighbors. Non-trivial: a '
              'richness was found.', body)
