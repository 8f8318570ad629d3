"""C11: chi-squared of the red-sequence color model: all modes, options, layouts against an independent reference."""
import itertools
import os

import numpy as np

from mc import build, core

SIGINT = 0.001
MINEIG = 1e-6


def chisq_ref(cov, c, slope, pivot, refmag, magerr, color, rme, lup, nophot, tab):
    """One galaxy at one redshift; (chisq, lkhd)."""
    n = c.size
    if np.any(np.diag(cov) < tab['sigint'] ** 2):
        return 1e11, -1e11
    m = cov.astype('f8').copy()
    if not nophot:
        R = np.zeros((n, n + 1))
        for j in range(n):
            R[j, j], R[j, j + 1] = 1.0, -1.0
        m = m + R @ np.diag(np.asarray(magerr, 'f8') ** 2) @ R.T
    m = m + np.outer(slope, slope) * rme ** 2
    w, q = np.linalg.eigh(m)
    if np.any(w < tab['mineig']):
        m = q @ np.diag(np.clip(w, tab['mineig'], None)) @ q.T
    d = c + slope * (refmag - pivot) + lup - color
    x2 = d @ np.linalg.solve(m, d)
    return x2, -0.5 * x2 - 0.5 * np.log(np.linalg.det(m))


def constants():
    return {'sigint': SIGINT, 'mineig': MINEIG}


def covset(ncol, kind, k):
    s = np.array([0.05, 0.03, 0.02, 0.04])[:ncol] * (1 + 0.4 * k)
    rho = {'diag': 0.0, 'corr': 0.6, 'near': 0.985, 'nonpd': -0.9, 'tiny': 0.2, 'tiny0': 0.2, 'edge': 0.2}[kind]
    m = np.outer(s, s) * rho
    for j in range(ncol):
        m[j, j] = s[j] ** 2
        for l in range(ncol):
            if l != j:
                m[j, l] *= (1.0 if (j + l + k) % 2 else 0.8)
    if kind == 'tiny' and k == 1:
        m[ncol - 1, ncol - 1] = (0.2 * SIGINT) ** 2
    if kind == 'tiny0' and k == 0:
        m[0, 0] = (0.9 * SIGINT) ** 2
    if kind == 'edge' and k == 0:
        m[ncol - 1, ncol - 1] = (1.05 * SIGINT) ** 2
    return 0.5 * (m + m.T)


def layout(x, how):
    if how == 'C':
        return np.ascontiguousarray(x)
    if how == 'F':
        return np.asfortranarray(x)
    y = np.zeros(tuple(2 * s for s in x.shape), dtype=x.dtype) + 777.0
    y[tuple(slice(0, 2 * s, 2) for s in x.shape)] = x
    return y[tuple(slice(0, 2 * s, 2) for s in x.shape)]


def run_dist(case):
    from redmapper.chisq_dist import compute_chisq
    mode, ncol, n, kind, rme, lup, nophot, dt, lay, flags = case
    tab = constants()
    nz = 1 if mode == 0 else n
    ng = 1 if mode == 1 else n
    cov = np.array([covset(ncol, kind, k) for k in range(nz)])
    c = np.array([[1.0 - 0.2 * j + 0.1 * k for j in range(ncol)] for k in range(nz)])
    slope = np.array([[0.05 - 0.03 * j - 0.02 * k * (j + 1) for j in range(ncol)] for k in range(nz)])
    piv = np.array([18.0 + 0.7 * k for k in range(nz)])
    refmag = np.array([17.5 + 0.9 * k for k in range(ng)])
    magerr = np.array([[0.02 + 0.01 * ((j + 2 * k) % 3) for j in range(ncol + 1)] for k in range(ng)])
    color = np.array([[0.95 - 0.21 * j + 0.07 * k + 0.013 * j * k for j in range(ncol)] for k in range(ng)])
    if rme in ('mix0', 'mix1'):
        magerr[int(rme[3]) % ng] = 0.0       # one galaxy with perfect photometry
    rm = {None: None, 'mix0': np.array([0.4 * k for k in range(ng)]), 'mix1': np.array([0.5 * (k != 1) for k in range(ng)]), 'zero': np.zeros(ng), 'err': np.array([0.3 + 0.4 * k for k in range(ng)])}[rme]
    lp = np.array([[0.01 * (j + 1) * (k + 1) for j in range(ncol)] for k in range(max(nz, ng))]) if lup else None
    args = [cov.transpose(1, 2, 0) if mode else cov[0], c if mode else c[0], slope if mode else slope[0],
            piv, refmag, magerr if mode != 1 else magerr[0], color if mode != 1 else color[0]]
    args = [layout(np.asarray(a, dtype=dt), lay) for a in args]
    keep = [a.copy() for a in args]
    kw = dict(nophotoerr=nophot, calc_chisq=flags[0], calc_lkhd=flags[1])
    if rm is not None:
        kw['refmagerr'] = layout(rm.astype(dt), lay)
    if lp is not None:
        kw['lupcorr'] = layout(lp.astype(dt), lay)
    r = compute_chisq(*args, **kw)
    bad = []
    if any(not np.array_equal(a, b) for a, b in zip(args, keep)):
        bad.append('an input array was modified')
    # the reference uses the values as passed (float32 rounding included)
    f = [np.asarray(a, 'f8') for a in args]
    want = []
    for i in range(n):
        zi, gi = (0 if mode == 0 else i), (0 if mode == 1 else i)
        want.append(chisq_ref(f[0][:, :, zi] if mode else f[0], f[1][zi] if mode else f[1], f[2][zi] if mode else f[2], f[3][zi],
                              f[4][gi], f[5][gi] if mode != 1 else f[5], f[6][gi] if mode != 1 else f[6],
                              0.0 if rm is None else float(kw['refmagerr'][gi]),
                              0.0 if lp is None else np.asarray(kw['lupcorr'][i], 'f8'), nophot, tab))
    want = np.array(want).T
    got = r if flags == [True, True] else (r,)
    exp = [want[k] for k in (0, 1) if flags[k]]
    if len(got) != len(exp):
        bad.append('%d results, expected %d' % (len(got), len(exp)))
    for g, e, nm in zip(got, exp, [x for x, fl in zip(('chisq', 'lkhd'), flags) if fl]):
        if np.shape(g) != (n,):
            bad.append('%s has shape %s' % (nm, np.shape(g)))
        elif not np.allclose(g, e, rtol=1e-6, atol=1e-8):
            bad.append('%s is %s, expected %s' % (nm, g, e))
    return bad, (mode, ncol, n, kind, rme, lup, nophot), True


_P = {}


def setup():
    from redmapper import GalaxyCatalog, RedSequenceColorPar
    import fitsio
    pf = os.path.join(build.DATA, 'test_dr8_pars.fit')
    d = fitsio.read(pf, ext=1, upper=True)
    # a variant with photometric-error rescaling
    nm = [x for x in d.dtype.descr if not x[0].startswith('MAG_ERR_RATIO')]
    e = np.zeros(1, dtype=nm + [('MAG_ERR_RATIO_INT', 'f8', 5), ('MAG_ERR_RATIO_SLOPE', 'f8', 5), ('MAG_ERR_RATIO_PIVOT', 'f8')])
    for x in nm:
        e[x[0]] = d[x[0]]
    e['MAG_ERR_RATIO_INT'] = [1.3, 0.8, 1.1, 0.9, 1.5]
    e['MAG_ERR_RATIO_SLOPE'] = [0.05, -0.03, 0.02, 0.0, 0.1]
    e['MAG_ERR_RATIO_PIVOT'] = 19.0
    hdr = fitsio.read_header(pf, ext=1)
    p2 = os.path.join(build.scratch(), 'pars2.fit')
    fitsio.write(p2, e, header=hdr, clobber=True)
    for name, path in (('plain', pf), ('ratio', p2)):
        for fine in (False, True):
            _P[name, fine] = RedSequenceColorPar(path, fine=fine)
    _P['gals'] = GalaxyCatalog.from_galfile(os.path.join(build.DATA, 'pixelized_dr8_test', 'dr8_test_galaxies_master_table.fit'))


def run_model(case):
    """calculate_chisq / calculate_chisq_redshifts agree with the reference, galaxy by galaxy and redshift by redshift."""
    name, fine, gi, zi, lk = case
    par = _P[name, fine]
    tab = constants()
    nz = par.z.size
    gals = _P['gals'][np.array(gi)]
    zinds = (np.array(zi) * nz // 100).astype('i8')
    bad = []

    def ref(g, z):
        dmag = float(g['refmag']) - par.mag_err_ratio_pivot
        me = g['mag_err'].astype('f4') * 1.0
        me = np.asarray(me, 'f8') * (par.mag_err_ratio_intercept + par.mag_err_ratio_slope * dmag)
        mi = int(np.argmin(np.abs(par.refmagbins - np.round(float(g['refmag']) * par.refmagbinscale) / par.refmagbinscale)))
        col = (g['mag'][:-1] - g['mag'][1:]).astype('f8')
        return chisq_ref(par.covmat[:, :, z], par.c[z], par.slope[z], par.pivotmag[z], float(g['refmag']), me, col,
                         float(g['refmag_err']), par.lupcorr[mi, z, :], False, tab)[1 if lk else 0]

    raw = gals._ndarray
    want = np.array([[ref(g, z) for z in zinds] for g in raw])
    before = raw.copy()
    tol = dict(rtol=2e-4, atol=1e-4)
    for k, z in enumerate(zinds):            # many galaxies, one redshift
        got = par.calculate_chisq(gals, int(z), calc_lkhd=lk, z_is_index=True)
        if not np.allclose(got, want[:, k], **tol):
            bad.append('many galaxies at one redshift: %s, expected %s' % (got, want[:, k]))
    for i in range(len(gi)):                 # one galaxy, many redshifts
        got = par.calculate_chisq_redshifts(gals[i], zinds, calc_lkhd=lk, z_is_index=True)
        if not np.allclose(got, want[i], **tol):
            bad.append('one galaxy at many redshifts: %s, expected %s' % (got, want[i]))
        for k, z in enumerate(zinds):        # one galaxy, one redshift, by redshift value
            got = par.calculate_chisq(gals[i:i + 1], float(par.z[z]), calc_lkhd=lk)
            if not np.allclose(got, want[i, k], **tol):
                bad.append('one galaxy at one redshift: %s, expected %s' % (got, want[i, k]))
    zz = zinds[np.arange(len(gi)) % zinds.size]   # many galaxies at many redshifts, pairwise
    if len(gi) > 1:
        got = par.calculate_chisq(gals, zz, calc_lkhd=lk, z_is_index=True)
        w = np.array([ref(g, z) for g, z in zip(raw, zz)])
        if not np.allclose(got, w, **tol):
            bad.append('galaxies each at its own redshift: %s, expected %s' % (got, w))
    if not np.array_equal(before, gals._ndarray):
        bad.append('galaxies were modified')
    return bad, (name, fine, tuple(gi), lk), True


def run_index(case):
    """Table lookups round to the nearest grid value."""
    name, fine, what, k = case
    par = _P[name, fine]
    bad = []
    if what == 'z':
        grid, fn = par.z[:-1], par.zindex
    elif what == 'ref':
        grid, fn = par.refmagbins[:-1], par.refmagindex
    else:
        grid, fn = par.lumrefmagbins[:-1], par.lumrefmagindex
    step = grid[1] - grid[0]
    for f in (-0.4, 0.0, 0.3, 0.45):
        v = grid + f * step
        if k == 0:
            got = fn(v)
        else:
            got = np.array([fn(x) for x in v[::7]])
            v = v[::7]
        want = np.arange(grid.size) if k == 0 else np.arange(grid.size)[::7]
        # beyond half a step of the last bin the overflow bin is used
        if np.any(np.asarray(got) != want):
            i = int(np.where(np.asarray(got) != want)[0][0])
            bad.append('%s lookup of %s gives bin %d, expected %d' % (what, v[i], np.asarray(got)[i], want[i]))
    if fn(grid[-1] + 5 * step) != grid.size:
        bad.append('%s overflow not in the last bin' % what)
    if fn(grid[0] - 5 * step) != 0:
        bad.append('%s underflow not in the first bin' % what)
    return bad, (name, fine, what, k), True


def run_bad(case):
    """Mis-shaped input is refused."""
    from redmapper.chisq_dist import compute_chisq
    mode, which = case
    ncol, n = 3, 3
    a = {0: [(3, 3), (3,), (3,), (1,), (n,), (n, 4), (n, 3)],
         1: [(3, 3, n), (n, 3), (n, 3), (n,), (1,), (4,), (3,)],
         2: [(3, 3, n), (n, 3), (n, 3), (n,), (n,), (n, 4), (n, 3)]}[mode]
    kw = {'refmagerr': (1,) if mode == 1 else (n,), 'lupcorr': (n, 3)}
    shapes = list(a)
    if which < 7:
        s = shapes[which]
        shapes[which] = s[:-1] + (s[-1] + 1,)
    elif which == 7:
        kw['refmagerr'] = (kw['refmagerr'][0] + 1,)
    elif which == 8:
        kw['lupcorr'] = (n + 1, 3)
    elif which == 9:
        kw['lupcorr'] = (n, 4)
    elif which == 11:
        shapes[0] = (4,) + shapes[0][1:]
    elif which == 12:
        shapes[4] = (n - 1,) if mode == 2 else (2,)
    arr = [np.ones(s) for s in shapes]
    try:
        compute_chisq(*arr, **{k: np.ones(v) for k, v in kw.items()})
    except ValueError:
        return [], ('refused', mode, which), True
    if which == 10:
        return [], ('ok', mode), False
    return ['mode %d: argument %d of the wrong shape was accepted' % (mode, which)], ('accepted', mode, which), True


def body(check):
    setup()
    th = check.thorough
    ns = (1, 2, 3, 4) if th else (1, 2, 3)
    cases = [list(x) for x in itertools.product(
        (0, 1, 2), (1, 2, 3, 4), ns, ('diag', 'corr', 'near', 'nonpd', 'tiny', 'tiny0', 'edge'), (None, 'zero', 'err', 'mix0', 'mix1'), (False, True),
        (False, True), ('f8', 'f4') if th else ('f8',), ('C', 'F', 'S'), ([True, False], [False, True], [True, True]))
        if not (x[3] in ('near', 'nonpd') and x[7] == 'f4')]
    check.run_cases(cases, run_dist, 'primitive')
    gsets = [[3], [3, 900], [10, 4000, 7000], [14000, 22, 5000, 5000]]
    zsets = [[0], [5, 60], [98, 40, 2], [99], [20, 21, 22, 80]]
    mc = [[n, f, g, z, l] for n in ('plain', 'ratio') for f in (False, True) for g in gsets for z in zsets for l in (False, True)]
    check.run_cases(mc, run_model, 'model')
    check.run_cases([[n, f, w, k] for n in ('plain',) for f in (False, True) for w in ('z', 'ref', 'lum') for k in (0, 1)], run_index, 'lookup')
    # wrong shapes; only those the mode can tell apart
    check.run_cases([[m, w] for m in (0, 1, 2) for w in range(11)
                     if w != 1 and (m, w) != (0, 4)] + [[2, 11], [2, 12], [1, 11], [1, 12], [0, 11]], run_bad, 'shapes')


if __name__ == '__main__':
    core.main('C11', 'exploration',
              'Complete lattice of mode x number of colors x sizes x covariance family (diagonal, correlated, nearly '
              'singular, not positive definite, too small) x options x dtype x memory layout, against a numpy reference; '
              'and the red-sequence model entry points on real parameters.', body)
