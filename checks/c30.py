"""C30: splines, error models, profiles, mask galaxies and depth fits are what they are defined to be."""
import glob
import itertools
import os
import shutil
import types

import fitsio
import hpgeom as hpg
import numpy as np
import scipy.special as sp

from mc import build, core, ref, rm


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, 'f8'), np.asarray(b, 'f8')
    return a.shape == b.shape and bool(np.all((a == b) | (np.abs(a - b) <= tol * np.maximum(1.0, np.abs(b)))))


# ---------------------------------------------------------------- interpolation
def spline(x, y, ends, q, fix):
    """Second derivatives by a dense solve of the defining equations, then the pieces."""
    n = len(x)
    A, b = np.zeros((n, n)), np.zeros(n)
    h = np.diff(x)
    s = np.diff(y) / h
    for i in range(1, n - 1):
        A[i, i - 1: i + 2] = h[i - 1] / 6, (h[i - 1] + h[i]) / 3, h[i] / 6
        b[i] = s[i] - s[i - 1]
    if ends is None:
        A[0, 0] = A[-1, -1] = 1
    elif ends == '3d=0':
        A[0, :2] = 1, -1
        A[-1, -2:] = 1, -1
    else:
        A[0, :2], b[0] = (-h[0] / 3, -h[0] / 6), ends[0] - s[0]
        A[-1, -2:], b[-1] = (h[-1] / 6, h[-1] / 3), ends[1] - s[-1]
    m = np.linalg.solve(A, b)
    out = []
    for v in q:
        i = min(max(int(np.searchsorted(x, v)) - 1, 0), n - 2)
        t, u = (x[i + 1] - v) / h[i], (v - x[i]) / h[i]
        o = t * y[i] + u * y[i + 1] + ((t ** 3 - t) * m[i] + (u ** 3 - u) * m[i + 1]) * h[i] ** 2 / 6
        if fix and v < x[0]:
            o = y[0]
        if fix and v > x[-1]:
            o = y[-1]
        out.append(o)
    return np.array(out)


def run_spline(case):
    steps, ys, ends, fix, dt = case
    from redmapper.utilities import CubicSpline, interpol
    x = np.concatenate([[0.25], 0.25 + np.cumsum(steps)]).astype(dt)
    ends = tuple(ends) if isinstance(ends, list) else ends
    q = np.unique(np.concatenate([x, (x[1:] + x[:-1]) / 2, x[:-1] + np.diff(x) * 0.25, [x[0] - 1.0, x[0] - 0.125, x[-1] + 0.125, x[-1] + 3.0]])).astype('f8')
    bad = []
    for y in itertools.product(ys, repeat=len(x)):
        y = np.array(y, dt)
        x0, y0 = x.copy(), y.copy()
        f = CubicSpline(x, y, yp=ends, fixextrap=fix)
        e = spline(x.astype('f8'), y.astype('f8'), ends, q, fix)
        g = f(q.copy())
        if not close(g, e, 1e-5 if dt == 'f4' else 1e-9):
            bad.append('spline through %s at %s (%s): %s, expected %s' % (y, x, ends, g, e))
        if not close(f(q[::-1].copy()), g[::-1]) or not close(f(q.copy()), g, 0):
            bad.append('another order or another call gives other values')
        if not fix:
            k = len(q) // 2
            if abs(f(q[k]) - g[k]) > 1e-12:
                bad.append('a single value gives %s, in the list %s' % (f(q[k]), g[k]))
        i = np.clip(np.searchsorted(x, q) - 1, 0, len(x) - 2)
        lin = y[i] + (q - x[i]) * (y[i + 1] - y[i]) / (x[i + 1] - x[i])
        if ends is None and not fix and not close(interpol(y, x, q), lin, 1e-6):
            bad.append('linear interpolation of %s at %s' % (y, x))
        if np.any(x != x0) or np.any(y != y0):
            bad.append('the nodes are changed')
        if len(bad) > 2:
            break
    return bad[:3], (len(x), str(ends), fix), True


def run_nodes(case):
    z0, z1, size, top = case
    from redmapper.utilities import make_nodes
    n = make_nodes([z0, z1], size, maxnode=top)
    t = z1 if top is None or top < 0 else min(top, z1)
    bad = []
    if abs(n[0] - z0) > 1e-9 or abs(n[-1] - z1) > 1e-9 or np.any(np.diff(n) <= 0):
        bad.append('nodes %s do not span %s..%s' % (n, z0, z1))
    body = n
    if t < z1 - 1e-9:
        body = n[:-1]
        if abs(body[-1] - t) > 1e-9:
            bad.append('no node at the highest useful redshift %s: %s' % (t, n))
    if len(body) > 1:
        d = np.diff(body)
        if len(d) > 1 and np.max(np.abs(d[:-1] - size)) > 1e-9:
            bad.append('nodes not %s apart: %s' % (size, n))
        if not size / 2 + 0.01 - 1e-6 <= d[-1] <= 1.5 * size + 0.01 + 1e-6:
            bad.append('last node at %s: %s' % (d[-1], n))
    return bad, len(n), True


def run_lut(case):
    kind, name = case
    from redmapper.utilities import MStar, RedGalInitialColors
    bad = []
    base = os.path.join(build.REPO, 'redmapper', 'data')
    if kind == 'mstar':
        survey, band = name
        t = fitsio.read(os.path.join(base, 'mstar', 'mstar_%s_%s.fit' % (survey, band)), ext=1, upper=True)
        m = MStar(survey, band)
        z = t['Z'].astype('f8')
        q = np.concatenate([z, (z[1:] + z[:-1]) / 2, [z[0] - 0.01, z[-1] + 0.02]])
        e = spline(z, t['MSTAR'].astype('f8'), None, q, False)
        if not close(m(q), e, 2e-6):
            bad.append('mstar of %s: off by %s' % (name, np.max(np.abs(m(q) - e))))
        w = MStar(survey + '  ', band + ' ')
        if not close(w(q), m(q), 0):
            bad.append('mstar with blanks in the names')
    elif kind == 'nomstar':
        try:
            MStar(*name)
            bad.append('a look-up table for %s' % (name,))
        except IOError:
            pass
    else:
        f = os.path.join(base, 'initcolors', name)
        t = fitsio.read(f, ext=1, lower=True)
        b = fitsio.read_header(f, ext=1)['BANDS'].rstrip()
        b = b.split(',') if ',' in b else list(b)
        for src in (name, f):
            r = RedGalInitialColors(src)
            z = np.concatenate([t['z'], t['z'] + 0.002])
            for i in range(len(b) - 1):
                e = np.array([lin_at(t['z'].astype('f8'), t['color'][:, i].astype('f8'), v) for v in z.astype('f8')])
                for b1, b2 in ((b[i], b[i + 1]), (b[i].lower(), b[i + 1].upper())):
                    if not close(r(b1, b2, z), e, 1e-4):
                        bad.append('color %s-%s of %s' % (b1, b2, name))
            for b1, b2 in itertools.product(b, b):
                if (b1, b2) not in list(zip(b[:-1], b[1:])):
                    try:
                        r(b1, b2, z)
                        bad.append('a color %s-%s' % (b1, b2))
                    except ValueError:
                        pass
            if abs(r.zmax - t['z'].max()) > 1e-6:
                bad.append('zmax')
    return bad[:3], kind, True


def lin_at(x, y, v):
    i = min(max(int(np.searchsorted(x, v)) - 1, 0), len(x) - 2)
    return y[i] + (v - x[i]) * (y[i + 1] - y[i]) / (x[i + 1] - x[i])


# ---------------------------------------------------------------- magnitudes
def run_theta(case):
    maxmag, limmag, errs = case
    from redmapper.utilities import calc_theta_i
    mags = np.array([maxmag + d for d in (-5.0, -1.0, -0.5, -0.25, -0.01, 0.0, 0.01, 0.25, 0.5, 2.0)] + [limmag + d for d in (-0.1, -0.001, 0.0, 0.001, 0.1)])
    grid = list(itertools.product(mags, errs))
    m, e = np.array([g[0] for g in grid]), np.array([g[1] for g in grid])
    lims = [limmag, np.full(m.size, limmag), np.where(np.arange(m.size) % 2, limmag, limmag - 0.3)]
    bad = []
    for lim in lims:
        with np.errstate(all='ignore'):
            g = calc_theta_i(m, e, maxmag, lim)
        la = np.zeros(m.size) + lim
        d = np.minimum(maxmag, la) - m
        w = np.where(m > la, 0.0, 0.5 + 0.5 * sp.erf(d / (np.sqrt(2) * e)))
        if not close(g, w, 1e-6):
            k = int(np.argmax(np.abs(g - w)))
            bad.append('magnitude %s +- %s, limits %s and %s: %s, expected %s' % (m[k], e[k], maxmag, la[k], g[k], w[k]))
        for k in range(0, m.size, 7):
            o = calc_theta_i(m[k: k + 1], e[k: k + 1], maxmag, la[k: k + 1])
            if abs(o[0] - g[k]) > 1e-12:
                bad.append('a galaxy alone has %s, with others %s' % (o[0], g[k]))
    return bad[:3], (maxmag > limmag), True


def run_errors(case):
    lims, times, nsig, zp, opts = case
    from redmapper.utilities import apply_errormodels
    pairs = list(itertools.product(lims, times, (-3.0, -1.0, 0.0, 0.5, 2.0)))
    lim, t, dm = (np.array([p[k] for p in pairs]) for k in range(3))
    mg = types.SimpleNamespace(limmag=lim, exptime=t, zp=np.full(lim.size, zp), nsig=np.full(lim.size, nsig))
    mag = lim + dm
    o = dict(opts)
    kw = {k: o[k] for k in ('err_ratio', 'sigma0', 'b', 'fluxmode') if k in o}
    bad = []
    if o.get('inlup'):
        b = o['b']
        f = 2 * b * 1e9 * np.sinh(-np.log(b) - 0.4 * np.log(10.0) * mag)
        kw['inlup'] = True
    else:
        f = 10 ** (-0.4 * (mag - zp))
    fl = 10 ** (-0.4 * (lim - zp))
    sky = np.maximum(fl ** 2 * t / nsig ** 2 - fl, 0.001)
    err = o.get('err_ratio', 1.0) * np.sqrt(sky * t + f * t) / t
    if o.get('sigma0'):
        err = np.sqrt(err ** 2 + (np.log(10) / 2.5 * o['sigma0'] * f) ** 2)
    with np.errstate(all='ignore'):
        m, e = apply_errormodels(mg, mag, nonoise=True, **kw)

    def expect(flux):
        if o.get('fluxmode'):
            return flux, err
        if 'b' in o:
            b = o['b']
            return (2.5 * np.log10(1 / b) - np.arcsinh(0.5 * flux / (b * 1e9)) / (0.4 * np.log(10)),
                    2.5 * err / (2 * b * 1e9 * np.log(10) * np.sqrt(1 + (0.5 * flux / (b * 1e9)) ** 2)))
        with np.errstate(all='ignore'):
            a, c = zp - 2.5 * np.log10(flux), 2.5 / np.log(10) * err / flux
        return np.where(flux > 0, a, 99.0), np.where(flux > 0, c, 99.0)
    w = expect(f)
    if not close(m, w[0], 1e-6) or not close(e, w[1], 1e-6):
        k = int(np.argmax(np.abs(m - w[0]) + np.abs(e - w[1])))
        bad.append('magnitude %s, limit %s, %s s: %s +- %s, expected %s +- %s' % (mag[k], lim[k], t[k], m[k], e[k], w[0][k], w[1][k]))
    if not o.get('fluxmode') and 'b' not in o and 'err_ratio' not in o and 'sigma0' not in o:
        k = (dm == 0) & (sky > 0.002)
        if not close(e[k], np.full(k.sum(), 2.5 / np.log(10) / nsig), 1e-5):
            bad.append('the error at the limiting magnitude is not 1/%s' % nsig)
    # with noise: the same draws, in units of the noise, in every kind of output
    st = np.random.get_state()
    try:
        np.random.seed(11)
        kf = dict(kw, fluxmode=True)
        fx, fe = apply_errormodels(mg, mag, **kf)
        np.random.seed(11)
        with np.errstate(all='ignore'):
            m2, e2 = apply_errormodels(mg, mag, **kw)
    finally:
        np.random.set_state(st)
    z = (fx - f) / err
    if not close(fe, err, 1e-6 * 1.0) or not np.all(np.isfinite(z)) or np.max(np.abs(z)) > 6 or len(np.unique(np.round(z, 6))) < z.size - 1 or not 0.5 < np.std(z) < 1.6:
        bad.append('noise in units of the error: %s' % z)
    w = expect(fx)
    if not close(m2, w[0], 1e-6) or not close(e2, w[1], 1e-6):
        k = int(np.argmax(np.abs(m2 - w[0]) + np.abs(e2 - w[1])))
        bad.append('with noise, flux %s: %s +- %s, expected %s +- %s' % (fx[k], m2[k], e2[k], w[0][k], w[1][k]))
    return bad[:3], tuple(sorted(o)), True


# ---------------------------------------------------------------- profiles
def nfw(x, rs=0.15, core_=0.1, factor=False):
    """Projected NFW profile with a flat core."""
    out = []
    for v in np.asarray(x, 'f8'):
        u = max(v, core_) / rs
        if v >= 10.0:
            s = 0.0
        elif abs(u - 1) < 1e-3:
            s = 1 / 3. - 0.4 * (u - 1)
        elif u < 1:
            s = (1 - np.arccosh(1 / u) / np.sqrt(1 - u * u)) / (u * u - 1)
        else:
            s = (1 - np.arccos(1 / u) / np.sqrt(u * u - 1)) / (u * u - 1)
        out.append(s * (2 * np.pi * v if factor else 1.0))
    return np.array(out)


def run_pdf(case):
    kind, p = case
    from redmapper import utilities as u
    import scipy.stats
    bad = []
    if kind == 'chisq':
        x = np.array([0.001, 0.1, 0.5, 1.0, 2.0, 3.0, 5.0, 10.0, 20.0, 100.0])
        if not close(u.chisq_pdf(x, p), scipy.stats.chi2.pdf(x, p), 1e-9):
            bad.append('chi-squared density, %s degrees' % p)
    elif kind == 'schechter':
        a, m = p
        x = m + np.arange(-6, 6.1, 0.25)
        l = 10 ** (-0.4 * (x - m))
        if not close(u.schechter_pdf(x, alpha=a, mstar=m), l ** (a + 1) * np.exp(-l), 1e-9):
            bad.append('Schechter function %s' % (p,))
    elif kind == 'nfw':
        rs, c, f = p
        x = np.concatenate([[0.0, c / 2, c * 0.999, c, c * 1.001], np.arange(0.05, 2.0, 0.0371), rs * np.array([0.99, 0.9991, 1.0, 1.0009, 1.002]), [5.0, 9.99, 10.0, 11.0]])
        g = u.nfw_pdf(x, rscale=rs, corer=c, radfactor=f)
        e = nfw(x, rs, c, f)
        if np.max(np.abs(g - e) / np.maximum(e, 1e-3)) > 2e-3:
            k = int(np.argmax(np.abs(g - e) / np.maximum(e, 1e-3)))
            bad.append('NFW profile %s at %s: %s, expected %s' % (p, x[k], g[k], e[k]))
    else:
        lo, hi, step, which, n = p
        fn = {'flat': lambda x: np.ones(x.size), 'ramp': lambda x: x - lo, 'peak': lambda x: np.exp(-0.5 * ((x - 0.3) / 0.05) ** 2), 'ends': lambda x: (x < lo + step * 2.5) + (x > hi - step * 2.5) * 2.0}[which]
        with quantiles() as q:
            g = u.sample_from_pdf(fn, [lo, hi], step, n)
        x = np.arange(lo, hi, step)
        c = np.cumsum(fn(x) * 1.0)
        c /= c[-1]
        emp = np.searchsorted(np.sort(g), x + step * 0.25) / float(n)
        tol = (2.5 / x.size + 1.5 / n) if q.used else 0.05
        if g.shape != (n,) or np.max(np.abs(emp - c)) > tol or np.max(np.abs(g[:, None] - x[None, :]).min(axis=1)) > 1e-9:
            bad.append('samples of %s: distribution off by %s' % (p, np.max(np.abs(emp - c))))
    return bad, kind, True


class quantiles:
    """Uniform random numbers are the quantiles 1/2n, 3/2n, ... (every value once)."""

    def __enter__(self):
        self.old, self.used = np.random.uniform, False

        def uniform(low=0.0, high=1.0, size=None):
            if size is None or (low, high) != (0.0, 1.0) or not isinstance(size, (int, np.integer)):
                return self.old(low, high, size)
            self.used = True
            return (np.arange(size) + 0.5) / size
        np.random.uniform = uniform
        return self

    def __exit__(self, *a):
        np.random.uniform = self.old


# ---------------------------------------------------------------- mask galaxies
def run_maskgals(case):
    n, k, over = case
    from redmapper import Configuration
    from redmapper.mask import Mask
    d = rm.workdir('c30')
    try:
        p = d + '/mg.fit'
        c = rm.quiet(Configuration(rm.write_config(d + '/c.yml', **dict({'outpath': d, 'maskgalfile': p, 'maskgal_ngals': n, 'maskgal_nsamples': k}, **over))))
        m = Mask(c, include_maskgals=False)
        with ref.fixed_random(3), quantiles() as q:
            m.gen_maskgals(p)
        g = fitsio.read(p, ext=1, lower=True)
        bad = []

        def same(name, want, tol=1e-5):
            if g[name].shape != np.shape(want) or not close(g[name], want, tol):
                bad.append('%s is not what the other columns give: %s, expected %s' % (name, g[name].ravel()[:4], np.ravel(want)[:4]))
        if g.size != n * k:
            return ['%d mask galaxies, %d expected' % (g.size, n * k)], None, True
        r, phi, mag = (g[x].astype('f8') for x in ('r', 'phi', 'm'))
        same('x', r * np.cos(phi))
        same('y', r * np.sin(phi))
        ann = c.bkg_local_annuli[1]
        same('r_uniform', np.hypot(g['x_uniform'].astype('f8'), g['y_uniform']))
        ncol = c.nmag - 1
        import scipy.stats
        same('cwt', scipy.stats.chi2.pdf(g['chisq'].astype('f8'), ncol))
        same('chisq_pdf', g['cwt'])
        if not close(g['nfw'], nfw(r, factor=True), 5e-3):
            bad.append('nfw')
        al = c.calib_lumfunc_alpha
        l = 10 ** (-0.4 * mag)
        same('lum_pdf', l ** (al + 1) * np.exp(-l), 1e-4)
        mg = np.arange(-9.0, -2.5 * np.log10(c.lval_reference), 0.0005)
        l = 10 ** (-0.4 * mg)
        same('lumwt', g['lum_pdf'] / (np.sum(l ** (al + 1) * np.exp(-l)) * 0.0005), 1e-2)
        s = c.maskgal_zred_err
        same('zwt', np.exp(-0.5 * (g['dzred'].astype('f8') / s) ** 2) / np.sqrt(2 * np.pi) / s, 1e-4)
        if n * k >= 300 and not 0.8 < np.std(g['dzred']) / s < 1.25:
            bad.append('redshift errors of %s' % np.std(g['dzred']))
        # radii
        lo = min(np.floor(10 * c.percolation_r0 * 0.03 ** c.percolation_beta) / 10, 0.5)
        hi = np.ceil(10 * c.percolation_r0 * 3 ** c.percolation_beta) / 10
        rb = g['radbins'][0].astype('f8')
        if np.any(g['radbins'] != g['radbins'][0]) or abs(rb[0] - lo) > 1e-5 or np.max(np.abs(np.diff(rb) - c.maskgal_rad_stepsize)) > 1e-5 or not hi - 1e-5 <= rb[-1] <= hi + 2.01 * c.maskgal_rad_stepsize:
            bad.append('radii %s of %s..%s' % (rb, lo, hi))
        bright = mag < -2.5 * np.log10(c.lval_reference)
        for j in range(k):
            u = slice(j * n, (j + 1) * n)
            th = np.ones((n, rb.size)) if c.rsig <= 0 else 0.5 + 0.5 * sp.erf((rb[None, :] - r[u, None]) / (np.sqrt(2) * c.rsig))
            if not close(g['theta_r'][u], th, 1e-5):
                bad.append('radial weights of sample %d' % j)
            if not close(g['nin'][u], np.tile(th[bright[u]].sum(axis=0), (n, 1)), 1e-4):
                bad.append('numbers inside, of sample %d' % j)
            # (a radius exactly at a bin is in, but it is stored in single precision)
            ins = [((r[u, None] <= rb[None, :] + e) & bright[u, None]).sum(axis=0) for e in (-1e-5, 1e-5)]
            if np.any(g['nin_orig'][u] < ins[0]) or np.any(g['nin_orig'][u] > ins[1]):
                bad.append('counts inside, of sample %d' % j)
        # the distributions
        if q.used and n * k >= 300:
            N = n * k

            def follows(name, x, pdf, step):
                cdf = np.cumsum(pdf)
                cdf = cdf / cdf[-1]
                emp = np.searchsorted(np.sort(g[name].astype('f8')), x + step * 0.25) / float(N)
                if np.max(np.abs(emp - cdf)) > 3.0 / x.size + 2.0 / N + 1e-3:
                    bad.append('distribution of %s is off by %s' % (name, np.max(np.abs(emp - cdf))))
            x = np.arange(0.001, hi, 0.001)
            follows('r', x, nfw(x, factor=True), 0.001)
            x = np.arange(-2.5, -2.5 * np.log10(c.lval_reference) + c.maskgal_dmag_extra, 0.002)
            l = 10 ** (-0.4 * x)
            follows('m', x, l ** (al + 1) * np.exp(-l), 0.002)
            x = np.arange(10000) * c.chisq_max / 10000.
            w = x.copy()
            w[1:] = scipy.stats.chi2.pdf(x[1:], ncol)
            follows('chisq', x, w, c.chisq_max / 10000.)
            if not close(np.sort(g['r_uniform'])[[0, N // 2, N - 1]], ann * np.sqrt((np.array([0, N // 2, N - 1]) + 0.5) / N), 1e-4):
                bad.append('uniform radii')
        if g['r_uniform'].max() > ann * 1.0001 or g['phi'].min() < 0 or g['phi'].max() > 2 * np.pi + 1e-5:
            bad.append('positions')
        # reading
        m.read_maskgals(p)
        for j in range(k):
            if m.select_maskgals_sample(maskgal_index=j) != j or not np.array_equal(np.asarray(m.maskgals.r), g['r'][j * n: (j + 1) * n]):
                bad.append('sample %d is not what was made' % j)
        seen = set()
        for i in range(60):
            with ref.fixed_random(i):
                j = m.select_maskgals_sample()
            seen.add(int(j))
            if not np.array_equal(np.asarray(m.maskgals.r), g['r'][j * n: (j + 1) * n]):
                bad.append('random sample %s is not the one reported' % j)
                break
        if seen != set(range(k)):
            bad.append('samples %s are used of %d' % (sorted(seen), k))
        return bad[:3], (n, k), True
    finally:
        shutil.rmtree(d)


def run_version(case):
    """Mask galaxies of another version, or none, are not used."""
    from redmapper import Configuration
    from redmapper.mask import Mask, get_mask
    d = rm.workdir('c30')
    try:
        p = d + '/mg.fit'
        c = rm.quiet(Configuration(rm.write_config(d + '/c.yml', outpath=d, maskgalfile=p, maskgal_ngals=20, maskgal_nsamples=1)))
        if case != 'missing':
            with ref.fixed_random(3):
                Mask(c, include_maskgals=False).gen_maskgals(p)
            if case != 'same':
                with fitsio.FITS(p, 'rw') as f:
                    f[1].write_key('VERSION', int(f[1].read_header()['VERSION']) + case)
        try:
            Mask(c, include_maskgals=False).read_maskgals(p)
        except RuntimeError:
            return (['mask galaxies are refused'] if case == 'same' else []), case, True
        return ([] if case == 'same' else ['mask galaxies of another version are used']), case, True
    finally:
        shutil.rmtree(d)


# ---------------------------------------------------------------- depth from the data
CONST = 2.5 / np.log(10)


def survey(lim, t, nsig, zp, mags):
    f = 10 ** (-0.4 * (mags - zp))
    fl = 10 ** (-0.4 * (lim - zp))
    return CONST * np.sqrt((fl ** 2 * t / nsig ** 2 - fl) * t + f * t) / (f * t)


JUNK = {'nan': (np.nan, 0.1), 'inf': (np.inf, 0.1), 'err nan': (20.0, np.nan), 'negative': (19.0, -1.0), 'zero': (18.0, 0.0), 'err inf': (21.0, np.inf)}


def run_depth(case):
    lim, t, nsig, zp, n, junk, rev = case
    from redmapper.depth_fitting import calcErrorModel
    mag = np.linspace(lim - 5.0, lim + 0.6, n)
    err = survey(lim, t, nsig, zp, mag)
    for j, name in enumerate(junk):
        at = (j * 7) % mag.size
        mag, err = np.insert(mag, at, JUNK[name][0]), np.insert(err, at, JUNK[name][1])
    if rev:
        mag, err = mag[::-1].copy(), err[::-1].copy()
    m0, e0 = mag.copy(), err.copy()
    pars, fail = calcErrorModel(mag, err, nSig=nsig, zp=zp)
    if fail:
        return ['the fit of perfect data fails'], None, True
    bad = []
    p = {k: float(pars[k][0]) for k in pars.dtype.names}
    if abs(p['LIMMAG'] - lim) > 0.01 or p['ZP'] != np.float32(zp) or p['NSIG'] != np.float32(nsig):
        bad.append('limiting magnitude %s (%s), made with %s' % (p['LIMMAG'], p, lim))
    fl = 10 ** (-0.4 * (p['LIMMAG'] - zp))
    if not close(p['FLUX1_LIM'], fl, 1e-4) or abs(p['FSKY1'] - (fl ** 2 * p['EXPTIME'] / nsig ** 2 - fl)) > 1e-3 * max(abs(p['FSKY1']), 0.01 * fl):
        bad.append('parameters do not agree with each other: %s' % p)
    bright = np.array([lim - 4.0, lim - 2.0, lim - 1.0, lim])
    w = survey(lim, t, nsig, zp, bright)
    with np.errstate(all='ignore'):
        g = survey(p['LIMMAG'], p['EXPTIME'], nsig, zp, bright)
    if np.max(np.abs(g / w - 1)) > 0.05:
        bad.append('errors of the fit %s, of the data %s' % (g, w))
    if p['FRAC_OUT'] > 0.02:
        bad.append('outliers %s in perfect data' % p['FRAC_OUT'])
    if not (np.array_equal(mag, m0, equal_nan=True) and np.array_equal(err, e0, equal_nan=True)):
        bad.append('the data are changed')
    return bad[:3], (nsig, zp), True


def run_depthlim(case):
    """Local depth, or the global one where there is no local fit."""
    glob_, local, size = case
    from redmapper.depth_fitting import DepthLim, calcErrorModel
    from redmapper import Catalog
    mag = np.linspace(15.0, glob_[0] + 0.5, 400)
    d = DepthLim(mag, survey(glob_[0], glob_[1], 10.0, 22.5, mag))
    mg = Catalog.zeros(size, dtype=[(n, 'f4') for n in ('limmag', 'exptime', 'zp', 'nsig')])
    mg.limmag[:], mg.exptime[:], mg.zp[:], mg.nsig[:] = -1, -2, -3, -4
    bad = []
    for loc in local:
        if loc == 'none':        # nothing measured well
            m = np.linspace(22.0, 23.0, 50)
            e = np.full(50, 0.9)
            want = glob_
        else:
            m = np.linspace(15.0, loc[0] + 0.5, 300)
            e = survey(loc[0], loc[1], 10.0, 22.5, m)
            want = loc
        d.calc_maskdepth(mg, m, e)
        g = (mg.limmag, mg.exptime, mg.zp[0], mg.nsig[0])
        if np.max(np.abs(g[0] - want[0])) > 0.01 or np.max(np.abs(g[1] / want[1] - 1)) > 0.15 or g[2] != 22.5 or g[3] != 10.0:
            bad.append('local data %s, global %s: depth %s, exposure %s' % (loc, glob_, g[0][:2], g[1][:2]))
    return bad[:3], len(local), True


# ---------------------------------------------------------------- parts of the sky
def run_cover(case):
    ns, pix, border, cov = case
    from redmapper.utilities import get_healsparse_subpix_indices
    got = np.unique(np.asarray(get_healsparse_subpix_indices(ns, pix, border, cov)))
    fine = 512 if ns <= 64 else 1024
    bad = []
    # points of the region, and of its border
    if ns >= 4 or border == 0:
        k = fine // ns
        sub = np.concatenate([hpg.ring_to_nest(ns, np.array([p])) * k * k + np.arange(k * k) for p in pix])
        r, dd = hpg.pixel_to_angle(fine, sub, nest=True)
        need = np.unique(hpg.angle_to_pixel(cov, r, dd, nest=True))
        if not set(need.tolist()) <= set(got.tolist()):
            bad.append('%d coverage pixels of the region are missing' % len(set(need.tolist()) - set(got.tolist())))
        v = unit(r, dd)
        c = unit(*hpg.pixel_to_angle(cov, np.arange(12 * cov * cov), nest=True))
        from scipy.spatial import cKDTree
        dist = np.degrees(2 * np.arcsin(np.minimum(1, cKDTree(v).query(c)[0] / 2)))
        half = np.degrees(np.sqrt(np.pi / 3) / cov)
        if border > 0:
            # all points within the border: pixels whose center is that close need to be there
            need = np.where(dist < border - 0.12)[0]
            if not set(need.tolist()) <= set(got.tolist()):
                bad.append('%d coverage pixels within the border are missing' % len(set(need.tolist()) - set(got.tolist())))
        far = [p for p in got if dist[p] > border + 1.6 * half + 60.0 / cov]
        if far:
            bad.append('coverage pixels %s are far from the region' % far[:3])
    return bad, (ns, len(pix), border > 0), True


def unit(r, d):
    r, d = np.radians(r), np.radians(d)
    return np.array([np.cos(d) * np.cos(r), np.cos(d) * np.sin(r), np.sin(d)]).T


def run_cover_refuse(case):
    from redmapper.utilities import get_healsparse_subpix_indices
    ns, pix, border, cov, err = case
    try:
        r = get_healsparse_subpix_indices(ns, pix, border, cov)
    except (RuntimeError, NotImplementedError):
        return ([] if err else ['refused']), err, True
    if err:
        return ['accepted: %s' % (case,)], err, True
    return ([] if r is None else ['full sky gives %s' % r]), err, True


def body(check):
    t = check.thorough
    ys = [-1.0, 0.0, 2.0]
    cases = []
    for k in (1, 2, 3, 4) if not t else (1, 2, 3, 4, 5):
        for st in itertools.product((0.5, 1.5), repeat=k):
            for ends in (None, '3d=0', [0.0, 0.0], [1.0, -2.0], [-0.5, 0.0]):
                if k == 1 and ends == '3d=0':
                    continue
                for fix in (False, True):
                    cases.append([list(st), ys if k < 4 or t else ys[1:], ends, fix, 'f8'])
            cases.append([list(st), ys[:2], None, False, 'f4'])
    check.run_cases(cases, run_spline, 'splines')
    nodes = [[z0, z0 + w, s, m] for z0 in (0.05, 0.1, 0.2) for w in (0.2, 0.25, 0.3, 0.33, 0.37, 0.5, 0.55, 0.7) for s in (0.05, 0.08, 0.1, 0.15, 0.2) for m in (None, -1.0, z0 + 0.2, 0.42, 0.5, 3.0)
             if s <= w and (m is None or m < 0 or m - z0 >= s)]
    check.run_cases(nodes, run_nodes, 'nodes')
    data = os.path.join(build.REPO, 'redmapper', 'data')
    lut = [['mstar', os.path.basename(f)[6:-4].split('_')] for f in sorted(glob.glob(data + '/mstar/mstar_*.fit'))] + [['nomstar', x] for x in (('sdss', 'u'), ('nosuch', 'i03'))]
    lut += [['colors', os.path.basename(f)] for f in sorted(glob.glob(data + '/initcolors/*.fit'))]
    check.run_cases(lut, run_lut, 'tables', chunk=1)
    errs = [[0.01, 0.05, 0.1, 0.3, 1.0], [1e-4, 2.0]]
    check.run_cases([[a, b, e] for a in (19.5, 20.0, 20.75, 22.0) for b in (20.0, 20.5, 21.0, 20.0001) for e in errs], run_theta, 'luminosity cut')
    opts = [{}, {'err_ratio': 2.0}, {'sigma0': 0.05}, {'err_ratio': 0.5, 'sigma0': 0.2}, {'fluxmode': True}, {'fluxmode': True, 'err_ratio': 1.5}, {'b': 1e-10}, {'b': 2.5e-9}, {'b': 1e-10, 'sigma0': 0.1}, {'b': 1e-10, 'inlup': True}, {'b': 5e-10, 'inlup': True, 'fluxmode': True}]
    er = [[ls, ts, n, z, o] for ls in ([19.0, 20.5], [21.0, 22.5, 24.0]) for ts in ([10.0, 100.0], [0.5, 1000.0, 30.0]) for n in (10.0, 5.0, 3.0) for z in (22.5, 25.0, 30.0) for o in opts if not o.get('inlup') or (z == 22.5 and ls[0] < 20)]
    check.run_cases(er, run_errors, 'error model')
    pdf = [['chisq', k] for k in (1, 2, 3, 4, 5, 8, 2.5)] + [['schechter', [a, m]] for a in (-1.0, -0.7, -1.3, 0.0) for m in (0.0, 19.0, 21.5)]
    pdf += [['nfw', [rs, c, f]] for rs in (0.15, 0.3, 0.12) for c in (0.1, 0.05, 0.02) for f in (False, True) if c < rs]
    pdf += [['sample', [lo, lo + w, s, k, n]] for lo in (0.0, -2.5, 0.001) for w in (1.0, 3.0) for s in (0.01, 0.002, 0.125) for k in ('flat', 'ramp', 'peak', 'ends') for n in (1000, 1, 317) if not (k == 'peak' and (lo + w < 0.3 or s > 0.05))]
    check.run_cases(pdf, run_pdf, 'profiles')
    mg = [[n, k, {}] for n, k in ((300, 1), (100, 3), (10, 4), (1, 1), (400, 2))]
    mg += [[n, k, o] for n, k in ((200, 2), (500, 1)) for o in ({'rsig': 0.0}, {'rsig': 0.3}, {'percolation_beta': 0.0}, {'percolation_r0': 0.5}, {'percolation_r0': 1.5, 'percolation_beta': 0.3}, {'chisq_max': 12.0}, {'lval_reference': 0.4},
                                                                {'calib_lumfunc_alpha': -0.8}, {'maskgal_zred_err': 0.1}, {'maskgal_dmag_extra': 1.0}, {'maskgal_rad_stepsize': 0.1}, {'maskgal_rad_stepsize': 0.03}, {'bkg_local_annuli': [1.0, 2.0]})]
    if t:
        mg += [[n, k, dict(rsig=a, percolation_r0=b, percolation_beta=e, lval_reference=f)] for n, k in ((150, 3), (600, 1)) for a in (0.0, 0.05, 0.2) for b in (0.45, 1.0, 1.3) for e in (0.0, 0.2, 0.4) for f in (0.1, 0.2, 0.5)]
    check.run_cases(mg, run_maskgals, 'mask galaxies', chunk=1)
    check.run_cases(['same', 'missing', -1, 1], run_version, 'mask galaxy files', chunk=1)
    dep = [[l, tt, ns, z, n, [], r] for l in (19.5, 20.4, 21.5, 23.0) for tt in (20.0, 100.0, 600.0) for ns, z in ((10.0, 22.5), (5.0, 22.5), (10.0, 25.0)) for n in (300, 1000) for r in (0, 1)]
    dep = [c for c in dep if survey_ok(*c[:4])]
    dep += [[20.4, 100.0, 10.0, 22.5, 300, list(j), r] for k in range(1, 4 if not t else 7) for j in itertools.combinations(sorted(JUNK), k) for r in (0, 1)]
    check.run_cases(dep, run_depth, 'depth fits', chunk=2)
    loc = [(20.0, 60.0), (21.0, 200.0), 'none']
    dl = [[g, list(h), s] for g in ((20.5, 100.0), (21.5, 300.0)) for k in (1, 2, 3) for h in itertools.product(loc, repeat=k) for s in (1, 5)]
    check.run_cases(dl, run_depthlim, 'local depth', chunk=1)
    cov = [[ns, [p], b, c] for ns in (4, 8, 32, 64) for p in sorted({0, 3, 12 * ns * ns - 1, 6 * ns * ns, 2 * ns * (ns - 1), 10 * ns * ns + 5, 570 % (12 * ns * ns)}) for b in (0.0, 0.3, 1.0, 3.0) for c in (8, 32) if t or ns > 4 or b < 2]
    cov += [[ns, ps, 0.0, c] for ns in (2, 8, 32, 64) for ps in ([0, 1], [5, 17, 30], [3, 3, 40]) for c in (8, 32)]
    check.run_cases(cov, run_cover, 'coverage', chunk=1)
    check.run_cases([[8, [], 0.0, 32, True], [8, [1, 2], 1.0, 32, True], [0, [0], 0.0, 32, False]], run_cover_refuse, 'coverage refused', chunk=1)


def survey_ok(lim, t, nsig, zp):
    fl = 10 ** (-0.4 * (lim - zp))
    return fl ** 2 * t / nsig ** 2 > 1.5 * fl


if __name__ == '__main__':
    core.main('C30', 'exploration',
              'Splines through all small node sets (spacings, values, end conditions); nodes, luminosity cut, error model, densities and samplers over the full product of their parameter lists; mask galaxies of every configuration '
              'of the list, with the random numbers replaced by all quantiles; depth fits of perfect data with every combination of unusable measurements; coverage pixels of regions with borders.', body)
