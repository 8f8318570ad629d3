"""C28: what the calibration fits minimise is the documented likelihood of the documented parameters, and a fit returns parameters that are no worse than its starting point."""
import itertools
import os
import sys

import numpy as np

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core   # noqa: E402


class Held(Exception):
    pass


class capture(object):
    """Replace the minimisers: they record the bounds and return the starting point."""

    def __enter__(self):
        import scipy.optimize
        from redmapper import fitters
        from redmapper.calibration import centeringcal, zlambdacal
        self.old = []
        self.bounds = None

        def minimize(fun, x0, *a, **kw):
            self.bounds = kw.get('bounds')
            return scipy.optimize.OptimizeResult(x=np.array(x0, dtype='f8'), fun=None, success=True)

        def fmin(fun, x0, *a, **kw):
            return np.array(x0, dtype='f8')
        for mod in (scipy.optimize, fitters, centeringcal, zlambdacal):
            for n, f in (('minimize', minimize), ('fmin', fmin)):
                if hasattr(mod, n):
                    self.old.append((mod, n, getattr(mod, n)))
                    setattr(mod, n, f)
        return self

    def __exit__(self, *a):
        for mod, n, f in self.old:
            setattr(mod, n, f)


def nspline(x, y, xx):
    """Natural cubic spline with end points as redmapper defines it (its own class is checked by C24)."""
    from redmapper.utilities import CubicSpline
    return np.asarray(CubicSpline(np.asarray(x, 'f8'), np.asarray(y, 'f8'))(np.asarray(xx, 'f8')), 'f8')


def gauss(x, mu, var):
    return np.exp(-(x - mu)**2 / (2 * var)) / np.sqrt(2 * np.pi * var)


def close(a, b, tol=1e-9):
    return np.isfinite(a) == np.isfinite(b) and abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def unchanged(before, arrays, bad):
    for n, a in arrays.items():
        if not np.array_equal(a, before[n], equal_nan=True):
            bad.append('the input %s is changed' % n)


# ------------------------------------------------------------------- data
N = 24
Z = 0.1 + 0.2 * np.arange(N) / (N - 1.0)
K = np.arange(N)


def wiggle(a, b, c=7):
    return a * (((K * b) % c) - (c - 1) / 2.0) / ((c - 1) / 2.0)


# ------------------------------------------------------------------- red sequence
def rs_data():
    return dict(mean_nodes=np.array([0.1, 0.2, 0.3]), slope_nodes=np.array([0.1, 0.3]), scatter_nodes=np.array([0.1, 0.18, 0.3]), redshifts=Z.copy(),
                colors=0.8 + 2.0 * (Z - 0.2) + wiggle(0.06, 5), mag_errs=np.stack((0.02 + 0.002 * (K % 5), 0.03 + 0.003 * (K % 4)), axis=1), dmags=wiggle(1.2, 11, 9), trunc=0.1 + 0.01 * (K % 6),
                lupcorrs=wiggle(0.02, 3), probs=0.3 + 0.1 * (K % 8), bkgs=0.2 + 0.1 * (K % 6), scatter_max=np.array([0.2, 0.05, 0.3]), dmags_err_ratio=wiggle(0.9, 13, 5))


P_MEAN, P_SLOPE, P_SCAT, P_ERR = np.array([0.62, 0.79, 1.01]), np.array([-0.03, 0.02]), np.array([0.04, 0.03, 0.06]), np.array([1.3, 0.2])


def rs_cost(d, opt, mean, slope, scat, minscat, err, ind, prior):
    """Negative log likelihood of the red sequence by its definition; opt: the options that are given."""
    g = {k: d[k] for k in d}
    n = g['redshifts'].size
    mu = nspline(g['mean_nodes'], mean, g['redshifts'])
    if 'dmags' in opt:
        mu = mu + nspline(g['slope_nodes'], slope, g['redshifts']) * g['dmags']
        if 'lupcorrs' in opt:
            mu = mu + g['lupcorrs']
    r = np.ones(n)
    if err is not None:
        r = err[0] + err[1] * (g['dmags_err_ratio'] if 'dmags_err_ratio' in opt else np.zeros(n))
    e2 = np.zeros(n)
    for b in (0, 1):
        e2 = e2 + g['mag_errs'][:, b]**2 * (r**2 if err is not None and b in ind else 1.0)
    s2 = np.maximum(nspline(g['scatter_nodes'], scat, g['redshifts']), minscat)**2 + e2
    f = gauss(g['colors'], mu, s2)
    if 'trunc' in opt:
        from scipy.special import erf
        f = f / erf(g['trunc'] / np.sqrt(2 * s2))
    if 'probs' in opt:
        f = g['probs'] * f + (1 - g['probs']) * g['bkgs']
    with np.errstate(all='ignore'):
        v = np.log(f)
    v[~np.isfinite(v)] = -100.0
    t = -np.sum(v)
    if prior:
        t += np.sum(np.log(np.maximum(scat, minscat)))
    return t


def rs_fitter(d, opt, prior):
    from redmapper.fitters import RedSequenceFitter
    kw = dict(slope_nodes=d['slope_nodes'], scatter_nodes=d['scatter_nodes'])
    for n in ('dmags', 'trunc', 'lupcorrs', 'probs', 'scatter_max', 'dmags_err_ratio'):
        if n in opt:
            kw[n] = d[n]
    if 'probs' in opt:
        kw['bkgs'] = d['bkgs']
    return RedSequenceFitter(d['mean_nodes'], d['redshifts'], d['colors'], d['mag_errs'], use_scatter_prior=prior, **kw)


def steps(p, width):
    """The starting point, and each parameter moved both ways; and all moved."""
    yield np.array(p)
    for i in range(len(p)):
        for s in (-1, 1):
            q = np.array(p)
            q[i] += s * width[i]
            yield q
    yield np.array(p) + np.array(width)


def run_redsequence(case):
    opt, flags, err, prior, minscat, bright = case
    fm, fs, fc = flags
    bad = []
    d = rs_data()
    if bright:
        # one galaxy where the likelihood underflows
        d['colors'][3] += 1000.0
    before = {k: v.copy() for k, v in d.items()}
    epars, ind = (None, [0, 1]) if err is None else (P_ERR.copy(), list(err))
    p0 = np.concatenate([np.zeros(0)] + [P_MEAN] * fm + [P_SLOPE] * fs + [P_SCAT] * fc + ([P_ERR] if fc and err is not None else []))
    width = np.concatenate([np.zeros(0)] + [[0.05] * 3] * fm + [[0.02] * 2] * fs + [[0.06, 0.02, 0.01]] * fc + ([[0.4, 0.3]] if fc and err is not None else []))

    def make(p0mean=P_MEAN, p0slope=P_SLOPE, p0scat=P_SCAT):
        f = rs_fitter(d, opt, prior)
        with capture() as c:
            r = f.fit(p0mean.copy(), p0slope.copy(), p0scat.copy(), fit_mean=fm, fit_slope=fs, fit_scatter=fc, min_scatter=minscat, err_ratio_pars=epars, fit_err_ratio_ind=ind)
        return f, r, c.bounds

    def cost(q, n=1):
        i = 0
        m, s, c, e = P_MEAN, P_SLOPE, P_SCAT, (None if err is None else P_ERR)
        if fm:
            m, i = q[i:i + 3], i + 3
        if fs:
            s, i = q[i:i + 2], i + 2
        if fc:
            c, i = q[i:i + 3], i + 3
            if err is not None:
                e = q[i:i + 2]
        dd = d
        if n > 1:
            # the errors of the second magnitude added once more for each further evaluation
            dd = dict(d)
            me = np.array(d['mag_errs'])
            add = (n - 1) * me[:, 1]**2 if err is None or 1 not in ind else sum((x[0] + x[1] * (d['dmags_err_ratio'] if 'dmags_err_ratio' in opt else 0.0))**2 for x in hist) * me[:, 1]**2
            me[:, 0] = np.sqrt(me[:, 0]**2 + add)
            dd['mag_errs'] = me
        return rs_cost(dd, opt, m, s, c, minscat, e, ind, prior and fc)
    try:
        legal = (fm or fs or fc) and not (fs and 'dmags' not in opt)
        try:
            f, r, bounds = make()
        except ValueError as e:
            return (['refused: %s' % e] if legal else []), 'refused', True
        if not legal:
            return ['the fit of %s with %s is accepted' % (flags, opt)], 'accepted', True
        # what a fit returns: the parameters in their order
        exp = [P_MEAN] * fm + [P_SLOPE] * fs + ([np.append(P_SCAT, P_ERR) if err is not None else P_SCAT] if fc else [])
        if len(r) != len(exp) or any(not np.array_equal(np.asarray(a), b) for a, b in zip(r, exp)):
            bad.append('a fit that ends where it starts returns %s instead of %s' % ([np.asarray(x).tolist() for x in r], [x.tolist() for x in exp]))
        if bounds is not None and fc:
            n0 = 3 * fm + 2 * fs
            for i in range(3):
                b = bounds[n0 + i]
                hi = d['scatter_max'][i] if 'scatter_max' in opt else np.inf
                if b[0] != minscat or (np.inf if b[1] is None else b[1]) != hi:
                    bad.append('scatter node %d is fitted between %s instead of %s and %s' % (i, b, minscat, hi))
        hist = []
        for q in steps(p0, width):
            f, _, _ = make()
            a, b = float(f(q.copy())), cost(q)
            if not close(a, b):
                bad.append('cost %r at %s, by the definition %r' % (a, q.tolist(), b))
                break
        # the same point again, in a fitter that was used
        f, _, _ = make()
        qs = list(steps(p0, width))[:3]
        for k, q in enumerate(qs):
            a, b = float(f(q.copy())), cost(q)
            if not close(a, b):
                key = None
                if fc and (err is None or 0 not in ind) and close(a, cost(q, k + 1)):
                    key = 'redsequence-errors-grow-with-every-evaluation'
                bad.append((key, 'cost %r at %s in evaluation %d of the fitter, by the definition %r' % (a, q.tolist(), k + 1, b)))
                break
            if fc:
                hist.append(q[-2:])
        unchanged(before, d, bad)
    except Exception as e:
        return [core.exc_problem(e)], 'raised', True
    return bad, 'cost', True


def run_rsfit(case):
    """Fits with the real minimiser: no worse than the start, within the bounds; what is not fitted is held."""
    opt, flags, err, prior, start = case
    fm, fs, fc = flags
    bad = []
    d = rs_data()
    before = {k: v.copy() for k, v in d.items()}
    ind = [0, 1] if err is None else list(err)
    m0, s0, c0 = P_MEAN + start[0], P_SLOPE + start[1], np.clip(P_SCAT + start[2], 0.002, 0.045)
    epars = None if err is None else P_ERR.copy()
    try:
        f = rs_fitter(d, opt, prior)
        r = f.fit(m0.copy(), s0.copy(), c0.copy(), fit_mean=fm, fit_slope=fs, fit_scatter=fc, err_ratio_pars=epars, fit_err_ratio_ind=ind)
    except Exception as e:
        return [core.exc_problem(e)], 'raised', True
    m, s, c, e = m0, s0, c0, epars
    r = list(r)
    if fm:
        m = np.asarray(r.pop(0))
    if fs:
        s = np.asarray(r.pop(0))
    if fc:
        c = np.asarray(r.pop(0))
        if err is not None:
            c, e = c[:3], c[3:]
            if not (0.5 <= e[0] <= 10 and -5 <= e[1] <= 5):
                bad.append('error ratio %s outside of its range' % e)
        hi = d['scatter_max'] if 'scatter_max' in opt else np.full(3, np.inf)
        if np.any(c < 0.001) or np.any(c > hi):
            bad.append('scatter %s outside of 0.001 to %s' % (c, hi))
    a = rs_cost(d, opt, m, s, c, 0.001, e, ind, prior and fc)
    b = rs_cost(d, opt, m0, s0, c0, 0.001, epars, ind, prior and fc)
    if a > b + 1e-6 * max(1, abs(b)):
        # with scatter and unscaled errors the cost of this fit drifts while it runs
        key = 'redsequence-errors-grow-with-every-evaluation' if fc and (err is None or 0 not in ind) else None
        bad.append((key, 'the fit ends with the cost %.6f, it started with %.6f' % (a, b)))
    unchanged(before, d, bad)
    return bad, 'fit', a < b


# ------------------------------------------------------------------- off-diagonal elements
def od_data(nmag=4):
    me = np.stack([0.02 + 0.004 * b + 0.002 * ((K + b) % 5) for b in range(nmag)], axis=1)
    return dict(nodes=np.array([0.1, 0.2, 0.3]), redshifts=Z.copy(), d1=wiggle(0.08, 5), d2=wiggle(0.06, 11, 9) + 0.5 * wiggle(0.08, 5), s1=0.04 + 0.001 * (K % 5), s2=0.05 + 0.002 * (K % 3), mag_errs=me,
                probs=0.3 + 0.1 * (K % 8), bkgs=0.2 + 0.1 * (K % 6))


def od_cost(d, j, k, pars, prior, full, mineig):
    r = np.clip(nspline(d['nodes'], pars, d['redshifts']), -0.9, 0.9)
    t = 0.0
    for i in range(d['redshifts'].size):
        c = np.array([[d['s1'][i]**2, r[i] * d['s1'][i] * d['s2'][i]], [r[i] * d['s1'][i] * d['s2'][i], d['s2'][i]**2]])
        # colors are differences of neighbouring magnitudes with independent errors
        nm = d['mag_errs'].shape[1]
        a, b = np.zeros(nm), np.zeros(nm)
        a[j], a[j + 1], b[k], b[k + 1] = 1, -1, 1, -1
        v = np.diag(d['mag_errs'][i]**2)
        c = c + np.array([[a @ v @ a, a @ v @ b], [a @ v @ b, b @ v @ b]])
        x = np.array([d['d1'][i], d['d2'][i]])
        g = np.exp(-0.5 * x @ np.linalg.inv(c) @ x) / (2 * np.pi * np.sqrt(np.linalg.det(c)))
        w = d['probs'][i] * g + (1 - d['probs'][i]) * d['bkgs'][i]
        t -= np.log(w) if w > 0 else -100.0
    t += np.sum(0.5 * (np.asarray(pars) / prior)**2)
    wall = False
    if full is not None:
        for i in range(d['nodes'].size):
            m = np.array(full[:, :, i])
            m[j, k] = m[k, j] = pars[i] * np.sqrt(m[j, j] * m[k, k])
            wall = wall or np.linalg.eigvalsh(m).min() < mineig
    return t, wall


def od_full(kind, nc=3):
    a = np.zeros((nc, nc, 3))
    for i in range(3):
        for x in range(nc):
            a[x, x, i] = (0.03 + 0.01 * x + 0.005 * i)**2
        if kind == 'tight':
            # the third color strongly tied to the first: with a large correlation elsewhere no longer a covariance
            a[0, 2, i] = a[2, 0, i] = 0.85 * np.sqrt(a[0, 0, i] * a[2, 2, i])
    return a


def run_offdiag(case):
    from redmapper.fitters import RedSequenceOffDiagonalFitter
    j, k, prior, fullkind, mineig, real = case
    bad = []
    d = od_data()
    before = {x: v.copy() for x, v in d.items()}
    p0 = np.array([0.05, 0.1, -0.1])
    try:
        f = RedSequenceOffDiagonalFitter(d['nodes'], d['redshifts'], d['d1'], d['d2'], d['s1'], d['s2'], d['mag_errs'], j, k, d['probs'], d['bkgs'], prior, min_eigenvalue=mineig)
        full = None if fullkind is None else od_full(fullkind)
        ref = None if full is None else full.copy()
        if real:
            got = np.asarray(f.fit(p0.copy(), full_covmats=full))
            (a, wa), (b, wb) = od_cost(d, j, k, got, prior, ref, mineig), od_cost(d, j, k, p0, prior, ref, mineig)
            if np.any(np.abs(got) > 0.9):
                bad.append('correlations %s beyond 0.9' % got)
            if wa and not wb:
                bad.append('the fit ends in correlations %s that make no covariance matrix' % got)
            if not wa and not wb and a > b + 1e-6:
                bad.append('the fit ends with the cost %.6f, it started with %.6f' % (a, b))
            return bad, 'fit', a < b
        with capture() as c:
            r = f.fit(p0.copy(), full_covmats=full)
        if not np.array_equal(np.asarray(r), p0):
            bad.append('a fit that ends where it starts returns %s' % r)
        if c.bounds is not None and any(tuple(x) != (-0.9, 0.9) for x in c.bounds):
            bad.append('correlations are fitted within %s' % (c.bounds,))
        walls = set()
        for q in list(steps(p0, np.array([0.3, 0.5, 0.6]))) + [np.array([0.85, 0.88, 0.9]), np.array([-0.9, 0.9, -0.9]), p0]:
            a = float(f(q.copy()))
            b, wall = od_cost(d, j, k, q, prior, ref, mineig)
            walls.add(wall)
            if (not wall and not close(a, b, 1e-8)) or (wall and not a > b + 1000):
                bad.append('cost %r at %s, by the definition %r%s' % (a, q.tolist(), b, ' and a penalty for a matrix that is no covariance' if wall else ''))
                break
        unchanged(before, d, bad)
        if full is not None:
            o = np.ones_like(full, dtype=bool)
            o[j, k] = o[k, j] = False
            if not np.array_equal(full[o], ref[o]):
                bad.append('other elements of the covariance matrices are changed')
        return bad, 'walls=%s' % sorted(walls), True
    except Exception as e:
        return [core.exc_problem(e)], 'raised', True


# ------------------------------------------------------------------- zred corrections
def co_data():
    return dict(mean_nodes=np.array([0.1, 0.2, 0.3]), redshifts=Z.copy(), dzs=wiggle(0.03, 5) + 0.01, dz_errs=0.01 + 0.002 * (K % 4), slope_nodes=np.array([0.1, 0.3]), r_nodes=np.array([0.1, 0.22, 0.3]),
                bkg_nodes=np.array([0.1, 0.28]), probs=0.3 + 0.1 * (K % 8), dmags=wiggle(1.1, 11, 9), ws=0.5 + 0.1 * (K % 6))


C_MEAN, C_SLOPE, C_R, C_BKG = np.array([0.01, 0.0, 0.02]), np.array([0.002, -0.003]), np.array([0.9, 1.1, 1.3]), np.array([0.01, 0.02])


def co_cost(d, opt, mean, slope, r, bkg):
    n = d['redshifts'].size
    sn = d['slope_nodes'] if 'slope_nodes' in opt else d['mean_nodes']
    rn = d['r_nodes'] if 'r_nodes' in opt else sn
    bn = d['bkg_nodes'] if 'bkg_nodes' in opt else sn
    z = d['redshifts']
    mu = nspline(d['mean_nodes'], mean, z) + nspline(sn, slope, z) * (d['dmags'] if 'dmags' in opt else np.zeros(n))
    v0 = (nspline(rn, r, z) * d['dz_errs'])**2
    v1 = np.maximum(nspline(bn, bkg, z), 1e-10)
    p = d['probs'] if 'probs' in opt else np.ones(n)
    with np.errstate(all='ignore'):
        f = (d['ws'] if 'ws' in opt else np.ones(n)) * (p * gauss(d['dzs'], mu, v0) + (1 - p) * gauss(d['dzs'], 0.0, v1))
    f[~np.isfinite(f) | (f <= 0)] = 4e-44
    return -np.sum(np.log(f))


def co_setup(case):
    from redmapper.fitters import CorrectionFitter
    opt, flags, far = case[:3]
    d = co_data()
    if far:
        d['dzs'][2] = 50.0
    kw = {n: d[n] for n in ('slope_nodes', 'r_nodes', 'bkg_nodes', 'probs', 'dmags', 'ws') if n in opt}
    f = CorrectionFitter(d['mean_nodes'], d['redshifts'], d['dzs'], d['dz_errs'], **kw)

    def size(p, nodes):
        # as many values as nodes
        return np.resize(p, nodes)
    ns = 2 if 'slope_nodes' in opt else 3
    nr = 3 if 'r_nodes' in opt else ns
    nb = 2 if 'bkg_nodes' in opt else ns
    return d, f, [C_MEAN, size(C_SLOPE, ns), size(C_R, nr), size(C_BKG, nb)]


def run_correction(case):
    opt, flags, far, real = case
    bad = []
    d, f, p = co_setup(case)
    before = {x: v.copy() for x, v in d.items()}
    kw = dict(zip(('fit_mean', 'fit_slope', 'fit_r', 'fit_bkg'), flags))
    wid = (0.01, 0.004, 0.2, 0.005)
    try:
        args = [x.copy() for x in p]
        if not any(flags):
            try:
                f.fit(*args, **kw)
            except ValueError:
                return bad, 'refused', True
            return ['a fit of nothing is accepted'], 'accepted', True
        fitted = [x for x, on in zip(p, flags) if on]

        def split(q):
            out, i = [], 0
            for x, on in zip(p, flags):
                out.append(q[i:i + x.size] if on else x)
                i += x.size if on else 0
            return out
        if real:
            r = [np.asarray(x) for x in f.fit(*args, **kw)]
            if [x.size for x in r] != [x.size for x in fitted]:
                return ['the fit returns %s parameters instead of %s' % ([x.size for x in r], [x.size for x in fitted])], 'fit', True
            a, b = co_cost(d, opt, *split(np.concatenate(r))), co_cost(d, opt, *p)
            if a > b + 1e-6 * max(1, abs(b)):
                bad.append('the fit ends with the cost %.6f, it started with %.6f' % (a, b))
            k = 0
            for i, on in enumerate(flags):
                if on:
                    if i == 2 and (np.any(r[k] < 0.1) or np.any(r[k] > 2.0)):
                        bad.append('error factors %s outside of 0.1 to 2' % r[k])
                    if i == 3 and np.any(r[k] < 0):
                        bad.append('negative outlier variance %s' % r[k])
                    k += 1
            unchanged(before, d, bad)
            return bad, 'fit', a < b
        with capture():
            r = f.fit(*args, **kw)
        if len(r) != len(fitted) or any(not np.array_equal(np.asarray(a), b) for a, b in zip(r, fitted)):
            bad.append('a fit that ends where it starts returns %s instead of %s' % ([np.asarray(x).tolist() for x in r], [x.tolist() for x in fitted]))
        p0 = np.concatenate(fitted)
        width = np.concatenate([np.full(x.size, w) for x, w, on in zip(p, wid, flags) if on])
        for rnd in range(2):
            for q in steps(p0, width):
                a, b = float(f(q.copy())), co_cost(d, opt, *split(q))
                if not close(a, b):
                    bad.append('cost %r at %s, by the definition %r (pass %d)' % (a, q.tolist(), b, rnd))
                    break
        unchanged(before, d, bad)
        return bad, 'cost', True
    except Exception as e:
        return [core.exc_problem(e)], 'raised', True


# ------------------------------------------------------------------- afterburner
def run_zlambda(case):
    from redmapper.calibration.zlambdacal import ZLambdaFitter
    flags, minscat, same_nodes, far, real = case
    bad = []
    nodes = np.array([0.1, 0.2, 0.3])
    snodes = nodes if same_nodes else np.array([0.1, 0.3])
    d = dict(z=Z.copy(), dz=wiggle(0.02, 5) + 0.005, e=0.004 + 0.001 * (K % 5), ll=wiggle(0.9, 11, 9))
    if far:
        d['dz'][3] = 40.0
    before = {x: v.copy() for x, v in d.items()}
    p = [np.array([0.004, 0.006, 0.002]), np.resize(np.array([0.001, -0.002]), snodes.size), np.resize(np.array([0.005, 0.003]), snodes.size)]

    def cost(delta, slope, scat):
        s = np.maximum(nspline(snodes, scat, d['z']), minscat)
        with np.errstate(all='ignore'):
            v = np.log(gauss(d['dz'], nspline(nodes, delta, d['z']) + nspline(snodes, slope, d['z']) * d['ll'], s**2 + d['e']**2))
        v[~np.isfinite(v)] = -100.0
        return -np.sum(v)

    def split(q):
        out, i = [], 0
        for x, on in zip(p, flags):
            out.append(q[i:i + x.size] if on else x)
            i += x.size if on else 0
        return out
    try:
        f = ZLambdaFitter(nodes, snodes, d['z'], d['dz'], d['e'], d['ll'])
        kw = dict(zip(('fit_delta', 'fit_slope', 'fit_scatter'), flags), min_scatter=minscat)
        args = [x.copy() for x in p]
        if not any(flags):
            try:
                f.fit(*args, **kw)
            except ValueError:
                return bad, 'refused', True
            return ['a fit of nothing is accepted'], 'accepted', True
        fitted = [x for x, on in zip(p, flags) if on]
        if real:
            r = [np.asarray(x) for x in f.fit(*args, **kw)]
            q = split(np.concatenate(r))
            a, b = cost(*q), cost(*p)
            if a > b + 1e-6 * max(1, abs(b)):
                bad.append('the fit ends with the cost %.6f, it started with %.6f' % (a, b))
            if flags[2] and p[2].min() >= minscat and q[2].min() < minscat - 1e-9:
                bad.append('scatter %s below %s' % (q[2], minscat))
            unchanged(before, d, bad)
            return bad, 'fit', a < b
        with capture():
            r = f.fit(*args, **kw)
        if len(r) != len(fitted) or any(not np.array_equal(np.asarray(a), b) for a, b in zip(r, fitted)):
            bad.append('a fit that ends where it starts returns %s instead of %s' % ([np.asarray(x).tolist() for x in r], [x.tolist() for x in fitted]))
        width = np.concatenate([np.full(x.size, w) for x, w, on in zip(p, (0.01, 0.004, 0.004), flags) if on])
        for rnd in range(2):
            for q in steps(np.concatenate(fitted), width):
                a, b = float(f(q.copy())), cost(*split(q))
                low = flags[2] and split(q)[2].min() < minscat
                if (not low and not close(a, b)) or (low and not a > b + 1000):
                    bad.append('cost %r at %s, by the definition %r%s' % (a, q.tolist(), b, ' and a penalty for too small a scatter' if low else ''))
                    break
        unchanged(before, d, bad)
        return bad, 'cost', True
    except Exception as e:
        return [core.exc_problem(e)], 'raised', True


# ------------------------------------------------------------------- centers
def run_center(case):
    from redmapper.calibration.centeringcal import WcenCFitter, WcenCwFitter, WcenFgFitter
    which, var, real = case
    bad = []
    lam = 20.0 + 3.0 * (K % 13)
    d = dict(w=np.exp(wiggle(0.4, 5) - 0.2), lscale=1.0 / np.sqrt(lam / 30.0), pcen=0.5 + 0.05 * (K % 8), psat=0.05 + 0.02 * (K % 5), mstar=17.0 + 3.0 * Z, ll=np.log(lam / 30.0), refmag=16.0 + 3.0 * Z + wiggle(0.6, 11, 9),
             cwt=0.05 + 0.01 * (K % 9), phi1=0.2 + 0.05 * (K % 7), bc=0.01 + 0.01 * (K % 3), ffg=0.3 + 0.1 * (K % 4), fsat=0.2 + 0.1 * (K % 6))
    if var == 'far':
        d['refmag'][4] = 40.0
    elif var == 'sure':
        d['pcen'][:] = 1.0
        d['psat'][:] = 0.0
    before = {x: v.copy() for x, v in d.items()}

    def normal(w, mu, sig):
        return np.exp(-0.5 * ((np.log(w) - mu) / sig)**2) / (np.sqrt(2 * np.pi) * sig)
    if which == 'fg':
        f = WcenFgFitter(d['w'], d['lscale'])
        p0, width = np.array([-0.2, 0.3]), np.array([0.1, 0.1])

        def cost(q):
            return -np.sum(np.log(normal(d['w'], q[0], q[1] * d['lscale'])))
    elif which == 'cw':
        f = WcenCwFitter(d['pcen'], d['psat'], d['w'], d['ffg'], d['fsat'], d['lscale'])
        p0, width = np.array([0.1, 0.3]), np.array([0.1, 0.1])

        def cost(q):
            return -np.sum(np.log(d['pcen'] * normal(d['w'], q[0], q[1] * d['lscale']) + d['psat'] * d['fsat'] + (1 - d['pcen'] - d['psat']) * d['ffg']))
    else:
        f = WcenCFitter(d['pcen'], d['psat'], d['mstar'], d['ll'], d['refmag'], d['cwt'], d['phi1'], d['bc'])
        p0, width = np.array([-1.2, -0.3, 0.4]), np.array([0.2, 0.2, 0.1])

        def cost(q):
            rho = d['pcen'] * d['cwt'] * gauss(d['refmag'], d['mstar'] + q[0] + q[1] * d['ll'], q[2]**2) + d['psat'] * d['phi1'] * d['cwt'] + (1 - d['pcen'] - d['psat']) * d['bc']
            return -np.sum(np.log(np.maximum(rho, 1e-5)))
    try:
        if real:
            r = np.asarray(f.fit(p0.copy()))
            a, b = cost(r), cost(p0)
            if r.size != p0.size or not r[-1] > 0:
                bad.append('the fit returns %s' % r)
            elif a > b + 1e-6:
                bad.append('the fit ends with the cost %.6f, it started with %.6f' % (a, b))
            unchanged(before, d, bad)
            return bad, 'fit', a < b
        with capture():
            r = f.fit(p0.copy())
        if not np.array_equal(np.asarray(r), p0):
            bad.append('a fit that ends where it starts returns %s' % r)
        for rnd in range(2):
            for q in itertools.product(*[(x - w, x, x + w) for x, w in zip(p0, width)]):
                q = np.array(q)
                a, b = float(f(q.copy())), cost(q)
                if not close(a, b):
                    bad.append('cost %r at %s, by the definition %r (pass %d)' % (a, q.tolist(), b, rnd))
                    break
        unchanged(before, d, bad)
        return bad, 'cost', True
    except Exception as e:
        return [core.exc_problem(e)], 'raised', True


# ------------------------------------------------------------------- medians, mixtures, error ratios
def run_small(case):
    which = case[0]
    bad = []
    try:
        if which == 'median':
            from redmapper.fitters import MedZFitter
            _, kind, lo, hi, real = case
            nodes = np.array([0.1, 0.2, 0.3])
            truth = np.array([0.6, 0.8, 1.1])
            z = np.linspace(0.1, 0.3, 41)
            k = np.arange(41)
            v = nspline(nodes, truth, z) + 0.01 * (((k * 7) % 5) - 2)
            if kind == 'outliers':
                v[::5] += 3.0
            before = v.copy()
            f = MedZFitter(nodes, z, v)
            p0 = np.array([0.75, 0.85, 0.95])

            def cost(q):
                return np.sum(np.abs(v - nspline(nodes, q, z)))
            if real:
                r = np.asarray(f.fit(p0.copy(), min_val=lo, max_val=hi))
                if np.any(r < lo) or np.any(r > hi):
                    bad.append('%s outside of %s to %s' % (r, lo, hi))
                if cost(r) > cost(p0) + 1e-9:
                    bad.append('the fit is worse than its start')
                if lo == -np.inf and hi == np.inf and np.max(np.abs(r - truth)) > 0.05:
                    bad.append('the medians are %s instead of about %s' % (r, truth))
            else:
                with capture():
                    f.fit(p0.copy(), min_val=lo, max_val=hi)
                for rnd in range(2):
                    for q in itertools.product((0.5, 0.6, 0.7), (0.8, 0.9), (1.0, 1.1, 1.3)):
                        a = float(f(np.array(q)))
                        if not close(a, cost(q)):
                            bad.append('cost %r at %s, by the definition %r' % (a, q, cost(q)))
                            break
            if not np.array_equal(v, before):
                bad.append('the input is changed')
            return bad, 'median', True
        if which == 'mixture':
            from redmapper.fitters import EcgmmFitter
            _, frac, mus, offset, start, real = case
            n = 400
            k = np.arange(n)
            from scipy.special import ndtri
            blue = k % 10 >= round(frac * 10)
            u = ((k * 197) % n + 0.5) / n
            e = 0.02 + 0.005 * (k % 3)
            # quantiles of the two components
            y = np.where(blue, mus[0], mus[1]) + np.where(blue, 0.08, 0.04) * ndtri(u) + e * ndtri(((k * 89) % n + 0.5) / n)
            before, be = y.copy(), e.copy()
            f = EcgmmFitter(y, e)
            mu0 = np.array([mus[1], mus[0]] if start == 'swapped' else mus, dtype='f8')
            w0 = 0.4

            def cost(q):
                return -np.sum(np.log(q[0] * gauss(y, q[1], q[3]**2 + e**2) + (1 - q[0]) * gauss(y, q[2], q[4]**2 + e**2)))
            if real:
                wt, mu, sg = [np.asarray(x) for x in f.fit(w0, mu0, np.array([0.1, 0.06]), offset=offset)]
                if not mu[0] <= mu[1]:
                    bad.append('the second component %s is not the redder one' % mu)
                if abs(wt.sum() - 1) > 1e-9 or wt.min() < -1e-12:
                    bad.append('weights %s' % wt)
                a = cost([wt[0], mu[0], mu[1], sg[0], sg[1]])
                b = cost([w0, mu0[0], mu0[1], 0.1, 0.06])
                if a > b + 1e-6 * abs(b):
                    bad.append('the fit ends with the cost %.6f, it started with %.6f' % (a, b))
                again = [np.asarray(x) for x in f.fit(w0, mu0, np.array([0.1, 0.06]), offset=offset)]
                if any(np.max(np.abs(x - z)) > 1e-5 for x, z in zip((wt, mu, sg), again)):
                    bad.append('the same fit again gives %s instead of %s' % (again, [wt, mu, sg]))
            else:
                with capture():
                    wt, mu, sg = f.fit(w0, mu0.copy(), np.array([0.1, 0.06]), offset=offset)
                st = np.argsort(mu0)
                if np.max(np.abs(np.asarray(mu) - mu0[st])) > 1e-12 or np.max(np.abs(np.asarray(wt) - np.array([0.4, 0.6])[st])) > 1e-12 or np.max(np.abs(np.asarray(sg) - np.array([0.1, 0.06])[st])) > 1e-12:
                    bad.append('a fit that ends where it starts returns %s %s %s' % (wt, mu, sg))
                for rnd in range(2):
                    for q in itertools.product((0.2, 0.7), (-0.1, 0.3), (0.2, 0.4), (0.05, 0.2), (0.03, 0.1)):
                        a = float(f(np.array(q)))
                        if not close(a, cost(q), 1e-8):
                            bad.append('cost %r at %s, by the definition %r' % (a, q, cost(q)))
                            break
            if not (np.array_equal(y, before) and np.array_equal(e, be)):
                bad.append('the input is changed')
            return bad, 'mixture', True
        if which == 'errorbins':
            from redmapper.fitters import ErrorBinFitter
            _, ratio, slope, ind, real = case
            from scipy.special import ndtri
            n = 1500
            k = np.arange(n)
            dm = 2.0 * ((k * 7) % 50) / 50.0 - 1.0
            e0, e1 = 0.05 + 0.01 * (k % 3), 0.03 + 0.01 * (k % 2)
            s2 = np.full(n, 0.02**2)
            r = ratio + slope * dm
            sig = np.sqrt(s2 + (e0 * (r if 0 in ind else 1.0))**2 + (e1 * (r if 1 in ind else 1.0))**2)
            dc = sig * ndtri(((k * 389) % n + 0.5) / n)
            ins = dict(dc=dc, dm=dm, e0=e0, e1=e1, s2=s2)
            before = {x: v.copy() for x, v in ins.items()}
            st = np.random.get_state()
            np.random.seed(4)
            try:
                f = ErrorBinFitter(dc, dm, e0, e1, s2, ntrial=40)
                if real:
                    got = np.asarray(f.fit(np.array([1.0, 0.0]), scale_indices=list(ind)))
                    again = np.asarray(f.fit(np.array([1.0, 0.0]), scale_indices=list(ind)))
                else:
                    with capture() as c:
                        f.fit(np.array([1.0, 0.0]), scale_indices=list(ind))
            finally:
                np.random.set_state(st)
            if real:
                if abs(got[0] - ratio) > 0.12 or abs(got[1] - slope) > 0.2:
                    bad.append('error ratio %s instead of about %s' % (got, (ratio, slope)))
                if np.max(np.abs(got - again)) > 1e-6:
                    bad.append('the same fit again gives %s instead of %s' % (again, got))
            else:
                if c.bounds is not None and [list(b) for b in c.bounds] != [[0.5, 10.0], [-5.0, 5.0]]:
                    bad.append('bounds %s' % (c.bounds,))
                # the true ratio is nearly the best on a grid
                best = min((float(f(np.array([a, b]))), abs(a - ratio) + abs(b - slope)) for a in (ratio - 0.4, ratio, ratio + 0.4) for b in (slope - 0.5, slope, slope + 0.5))
                if best[1] > 1e-9:
                    bad.append('the cost is smallest %.2f away from the truth' % best[1])
            unchanged(before, ins, bad)
            return bad, 'errorbins', True
    except Exception as e:
        return [core.exc_problem(e)], 'raised', True


# ------------------------------------------------------------------- several fits by one fitter
def run_sequence(case):
    """Fits one after another, each with its own fixed parameters: only the last one counts."""
    which, seq, opt = case
    bad = []
    try:
        if which == 'redsequence':
            d = rs_data()
            f = rs_fitter(d, opt, True)
            sets = [(P_MEAN, P_SLOPE, P_SCAT), (P_MEAN + 0.05, P_SLOPE - 0.02, P_SCAT + 0.03), (P_MEAN - 0.03, P_SLOPE + 0.05, P_SCAT * 0.5)]
            err = P_ERR.copy()
            for i, fl in enumerate(seq):
                m, s, c = sets[i % 3]
                with capture():
                    f.fit(m.copy(), s.copy(), c.copy(), fit_mean=fl[0], fit_slope=fl[1], fit_scatter=fl[2], err_ratio_pars=err.copy(), fit_err_ratio_ind=[0, 1])
                cur = [x + 0.01 if on else x for x, on in zip((m, s, c), fl)]
                q = np.concatenate([x for x, on in zip(cur, fl) if on] + ([err] if fl[2] else []))
                a, b = float(f(q)), rs_cost(d, opt, cur[0], cur[1], cur[2], 0.001, err, [0, 1], fl[2])
                if not close(a, b):
                    bad.append('fit %d of the sequence %s: cost %r, by the definition %r' % (i + 1, seq, a, b))
                    break
        elif which == 'correction':
            d, f, p = co_setup((opt, None, False))
            for i, fl in enumerate(seq):
                k = 1.0 + 0.5 * (i % 3)
                cur = [p[0] + 0.01 * k, p[1] * k, p[2] * k, p[3] * k]
                with capture():
                    f.fit(*[x.copy() for x in cur], **dict(zip(('fit_mean', 'fit_slope', 'fit_r', 'fit_bkg'), fl)))
                cur = [x * 1.1 if on else x for x, on in zip(cur, fl)]
                a, b = float(f(np.concatenate([x for x, on in zip(cur, fl) if on]))), co_cost(d, opt, *cur)
                if not close(a, b):
                    bad.append('fit %d of the sequence %s: cost %r, by the definition %r' % (i + 1, seq, a, b))
                    break
        else:
            from redmapper.calibration.zlambdacal import ZLambdaFitter
            nodes, sn = np.array([0.1, 0.2, 0.3]), np.array([0.1, 0.3])
            dz, e, ll = wiggle(0.02, 5) + 0.005, 0.004 + 0.001 * (K % 5), wiggle(0.9, 11, 9)
            f = ZLambdaFitter(nodes, sn, Z.copy(), dz.copy(), e.copy(), ll.copy())
            for i, fl in enumerate(seq):
                k = 1.0 + 0.5 * (i % 3)
                ms = (0.0, 0.004, 0.001)[i % 3]
                cur = [np.array([0.004, 0.006, 0.002]) * k, np.array([0.001, -0.002]) * k, np.array([0.0055, 0.0045]) * k]
                with capture():
                    f.fit(*[x.copy() for x in cur], min_scatter=ms, **dict(zip(('fit_delta', 'fit_slope', 'fit_scatter'), fl)))
                cur = [x * 1.1 if on else x for x, on in zip(cur, fl)]
                s = np.maximum(nspline(sn, cur[2], Z), ms)
                b = -np.sum(np.log(gauss(dz, nspline(nodes, cur[0], Z) + nspline(sn, cur[1], Z) * ll, s**2 + e**2)))
                a = float(f(np.concatenate([x for x, on in zip(cur, fl) if on])))
                if not close(a, b):
                    bad.append('fit %d of the sequence %s: cost %r, by the definition %r' % (i + 1, seq, a, b))
                    break
    except Exception as e:
        return [core.exc_problem(e)], 'raised', True
    return bad, 'sequence %s' % which, True


def body(check):
    T = check.thorough
    flags = list(itertools.product((False, True), repeat=3))
    opts = [(), ('dmags',), ('dmags', 'lupcorrs'), ('trunc',), ('probs',), ('dmags', 'trunc', 'probs'), ('dmags', 'lupcorrs', 'trunc', 'probs', 'scatter_max'),
            ('dmags', 'lupcorrs', 'trunc', 'probs', 'scatter_max', 'dmags_err_ratio')]
    if T:
        opts = [tuple(o) for o in core.powerset(['dmags', 'lupcorrs', 'trunc', 'probs', 'scatter_max', 'dmags_err_ratio'])]
    errs = [None, (0, 1), (0,), (1,), ()]
    cases = [(o, f, e, p, m, b) for o in opts for f in flags for e in errs for p in (False, True) for m in (0.001, 0.035) for b in (False, True)]
    check.run_cases(cases, run_redsequence, group='redsequence')
    starts = [(0.0, 0.0, 0.0), (0.1, -0.03, 0.02)] + ([(-0.2, 0.05, -0.02), (0.3, 0.0, 0.01)] if T else [])
    cases = [(o, f, e, p, s) for o in opts for f in flags if any(f) and not (f[1] and 'dmags' not in o) for e in (None, (0, 1), (0,)) for p in (False, True) for s in starts]
    check.run_cases(cases, run_rsfit, group='rsfit')
    cases = [(j, k, p, f, m, r) for j, k in ((0, 1), (0, 2), (1, 2)) for p in (0.45, 2.0, 10.0) for f in (None, 'free', 'tight') if not (f == 'tight' and (j, k) == (0, 2)) for m in (0.0, 1e-5)
             for r in (False, True)]
    check.run_cases(cases, run_offdiag, group='offdiag')
    copts = [tuple(o) for o in core.powerset(['slope_nodes', 'r_nodes', 'bkg_nodes', 'probs', 'dmags', 'ws'])]
    if not T:
        copts = [o for i, o in enumerate(copts) if i % 4 == 0 or len(o) in (0, 1, 6)]
    cases = [(o, f, x, False) for o in copts for f in itertools.product((False, True), repeat=4) for x in (False, True)]
    ropts = copts if T else [(), ('probs',), ('slope_nodes', 'r_nodes', 'bkg_nodes', 'probs', 'dmags', 'ws')]
    cases += [(o, f, False, True) for o in ropts for f in itertools.product((False, True), repeat=4) if any(f)]
    check.run_cases(cases, run_correction, group='correction')
    cases = [(f, m, s, x, r) for f in flags for m in (0.0, 0.002, 0.004) for s in (False, True) for x in (False, True) for r in (False, True)]
    check.run_cases(cases, run_zlambda, group='zlambda')
    fl3, fl4 = [f for f in flags if any(f)], [f for f in itertools.product((False, True), repeat=4) if any(f)]
    depth = 3 if T else 2
    cases = [('redsequence', q, o) for n in range(2, depth + 1) for q in itertools.product(fl3, repeat=n) for o in (('dmags', 'trunc', 'probs', 'dmags_err_ratio'), ('dmags', 'lupcorrs'))]
    cases += [('correction', q, o) for n in range(2, depth + 1) for q in itertools.product(fl4, repeat=n) for o in (('probs', 'dmags'), ('slope_nodes', 'r_nodes', 'bkg_nodes', 'probs', 'dmags', 'ws'))]
    cases += [('zlambda', q, ()) for n in range(2, depth + 2) for q in itertools.product(fl3, repeat=n)]
    check.run_cases(cases, run_sequence, group='sequence')
    cases = [(w, v, r) for w in ('fg', 'c', 'cw') for v in ('plain', 'far', 'sure') for r in (False, True)]
    check.run_cases(cases, run_center, group='center')
    cases = [('median', k, lo, hi, r) for k in ('plain', 'outliers') for lo, hi in ((-np.inf, np.inf), (0.7, 1.0)) for r in (False, True)]
    cases += [('mixture', fr, m, o, s, r) for fr in (0.3, 0.5, 0.7) for m in ((-0.4, 0.0), (-0.2, 0.2), (0.1, 0.5)) for o in (0.0, 0.5) for s in ('ordered', 'swapped') for r in (False, True)]
    cases += [('errorbins', a, b, i, r) for a in (1.0, 1.5, 2.0) for b in (0.0, 0.3) for i in ((0,), (1,), (0, 1)) for r in (False, True)]
    check.run_cases(cases, run_small, group='small')


if __name__ == '__main__':
    core.main('C28', 'exploration',
              'Cost functions of the nine fitters of the calibration at their starting point and with every parameter moved both ways, in fresh and in used fitters, for all combinations of fitted parameters and of optional '
              'inputs within the lists, against the likelihoods recomputed from their definition; fits with the minimiser from several starting points. Non-trivial: the fit improves on its start or a cost is compared.', body)
