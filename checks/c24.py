"""C24: the red-sequence model at every redshift is the spline of its calibrated nodes, and look-ups find the right bin."""
import itertools
import math
import os
import shutil

import numpy as np

from mc import build, core, rm

_S = {}


def natural(x, y, xo):
    """Natural cubic spline through (x, y), extrapolated with the end polynomials, by a dense solve."""
    x, y, xo = [np.asarray(v, 'f8') for v in (x, y, xo)]
    n = x.size
    m = np.zeros((n, n))
    r = np.zeros(n)
    m[0, 0] = m[-1, -1] = 1.0
    for i in range(1, n - 1):
        m[i, i - 1] = (x[i] - x[i - 1]) / 6
        m[i, i] = (x[i + 1] - x[i - 1]) / 3
        m[i, i + 1] = (x[i + 1] - x[i]) / 6
        r[i] = (y[i + 1] - y[i]) / (x[i + 1] - x[i]) - (y[i] - y[i - 1]) / (x[i] - x[i - 1])
    y2 = np.linalg.solve(m, r)
    k = np.clip(np.searchsorted(x, xo) - 1, 0, n - 2)
    h = x[k + 1] - x[k]
    a, b = (x[k + 1] - xo) / h, (xo - x[k]) / h
    return a * y[k] + b * y[k + 1] + ((a ** 3 - a) * y2[k] + (b ** 3 - b) * y2[k + 1]) * h * h / 6


def wiggle(n, k, lo, hi):
    """n values between lo and hi, a fixed irregular pattern numbered k."""
    t = (np.arange(n) * 7 + k * 5 + (np.arange(n) ** 2) * (k % 3)) % 11
    return lo + (hi - lo) * t / 10.0


def nodes(n, lo, hi):
    """n slightly irregular nodes from lo to hi."""
    x = np.linspace(lo, hi, n)
    if n > 2:
        x[1:-1] += (hi - lo) / n * 0.2 * np.where(np.arange(n - 2) % 2, 1, -1)
    return x


def make(path, o):
    """A parameter file with the options o; returns the table and its header values."""
    import fitsio
    nc = o['ncol']
    f = o.get('type', 'f8')
    n = o['nodes']
    z0, z1 = o.get('zrange', (0.1, 0.5))
    c0, c1 = (z0, z1) if not o.get('extrap') else (z0 + 0.06, z1 - 0.07)
    old = o.get('old')
    pn, rn = ('REFMAG', 'IMAG') if old else ('PIVOTMAG', 'REFMAG')
    dt = [(pn + '_Z', f, n), (pn, f, n), ('MIN' + rn, f, n), ('MAX' + rn, f, n), ('COVMAT_Z', f, n + 1), ('SIGMA', f, (nc, nc, n + 1)),
          ('CORR_Z', f, n + 2), ('CORR', f, n + 2), ('CORR_SLOPE_Z', f, n), ('CORR_SLOPE', f, n), ('CORR2', f, n + 2), ('CORR2_SLOPE', f, n),
          ('VOLUME_FACTOR_Z', f, n + 3), ('VOLUME_FACTOR', f, n + 3)]
    if o.get('corr_r', 'none') != 'none':
        dt += [('CORR_R', f, n), ('CORR2_R', f, n)]
    if o.get('ratio'):
        dt += [('MAG_ERR_RATIO_INT', f, nc + 1), ('MAG_ERR_RATIO_SLOPE', f, nc + 1), ('MAG_ERR_RATIO_PIVOT', f)]
    for j in range(nc):
        dt += [('Z%02d' % j, f, n + j), ('C%02d' % j, f, n + j), ('ZS%02d' % j, f, n), ('SLOPE%02d' % j, f, n)]
    p = np.zeros(1, dtype=dt)
    r = p[0]
    r[pn + '_Z'] = nodes(n, c0, c1)
    r[pn] = 17.0 + 3.0 * np.linspace(0, 1, n) + wiggle(n, 1, -0.2, 0.2)
    r['MIN' + rn] = r[pn] - 2.0
    r['MAX' + rn] = r[pn] + 1.5 + wiggle(n, 2, 0, 0.3)
    r['COVMAT_Z'] = nodes(n + 1, c0, c1)
    lo, hi = o.get('sigma', (0.02, 0.09))
    cr = o.get('rho', 0.8)
    for j in range(nc):
        for k in range(nc):
            # the two triangles differ: only the upper one counts
            r['SIGMA'][j, k, :] = wiggle(n + 1, j + 2, lo, hi) if j == k else wiggle(n + 1, 3 * j + k, -cr, cr)
    r['CORR_Z'] = nodes(n + 2, c0, c1)
    r['CORR'], r['CORR2'] = wiggle(n + 2, 3, -0.01, 0.02), wiggle(n + 2, 4, -0.02, 0.01)
    r['CORR_SLOPE_Z'] = nodes(n, c0, c1)
    r['CORR_SLOPE'], r['CORR2_SLOPE'] = wiggle(n, 5, -0.005, 0.005), wiggle(n, 6, -0.004, 0.006)
    r['VOLUME_FACTOR_Z'] = nodes(n + 3, z0, z1)
    r['VOLUME_FACTOR'] = wiggle(n + 3, 7, 0.4, 1.0)
    q = o.get('corr_r', 'none')
    if q != 'none':
        a, b = {'ok': ((0.8, 1.4), (0.6, 1.2)), 'low': ((0.3, 1.0), (0.1, 0.7)), 'zero': ((0.0, 0.0), (0.7, 1.0)), 'zero2': ((0.6, 1.0), (0.0, 0.0))}[q]
        r['CORR_R'], r['CORR2_R'] = wiggle(n, 8, *a), wiggle(n, 9, *b)
        if q == 'low':
            r['CORR_R'][0], r['CORR2_R'][0] = 0.6, 0.55
    if o.get('ratio'):
        r['MAG_ERR_RATIO_INT'] = wiggle(nc + 1, 2, 0.8, 1.3)
        r['MAG_ERR_RATIO_SLOPE'] = wiggle(nc + 1, 3, -0.05, 0.05)
        p['MAG_ERR_RATIO_PIVOT'] = 19.25
    for j in range(nc):
        r['Z%02d' % j] = nodes(n + j, c0, c1)
        r['C%02d' % j] = np.linspace(0.6, 1.6, n + j) + wiggle(n + j, j, -0.1, 0.1)
        r['ZS%02d' % j] = nodes(n, c0, c1)
        r['SLOPE%02d' % j] = wiggle(n, j + 1, -0.06, 0.02)
    h = dict(NCOL=nc, MSTARSUR='sdss', MSTARBAN='i03', LIMMAG=o.get('limmag', 20.85), ZRANGE0=z0, ZRANGE1=z1, ALPHA=o.get('alpha', -1.0),
             ZBINFINE=o.get('fine', 0.002), ZBINCOAR=o.get('coarse', 0.01), LOWZMODE=o.get('lowz', 0))
    if o.get('b'):
        for j in range(nc + 1):
            h['BVALUE%d' % (j + 1)] = [1.4e-10, 9e-11, 1.2e-10, 1.8e-10, 7.4e-10][j] if o['b'] == 'all' or j else 0.0
    h['I_IND' if o.get('iind') else 'REF_IND'] = o['ref']
    if o.get('template'):
        h['TEMPLATE'] = 'bc03_colors_sdss.fit'
        h['BANDS'] = o['bands']
    for k in o.get('drop', ()):
        h.pop(k, None)
    fitsio.write(path, p, header=h, clobber=True)
    return fitsio.read(path, ext=1)[0], h, pn, rn


def template():
    if 'tpl' not in _S:
        import fitsio
        import redmapper
        f = os.path.join(os.path.dirname(redmapper.__file__), 'data', 'initcolors', 'bc03_colors_sdss.fit')
        t, h = fitsio.read(f, ext=1, lower=True, header=True)
        bands = h['BANDS'].rstrip()
        _S['tpl'] = (np.asarray(t['z'], 'f8'), np.asarray(t['color'], 'f8'), bands.split(',') if ',' in bands else list(bands))
    return _S['tpl']


def template_color(b1, b2, z):
    tz, tc, bands = template()
    names = [(bands[i].upper(), bands[i + 1].upper()) for i in range(len(bands) - 1)]
    if (b1.upper(), b2.upper()) not in names:
        return None
    j = names.index((b1.upper(), b2.upper()))
    z = np.atleast_1d(z)
    k = np.clip(np.searchsorted(tz, z) - 1, 0, tz.size - 2)
    return tc[k, j] + (z - tz[k]) * (tc[k + 1, j] - tc[k, j]) / (tz[k + 1] - tz[k])


def mstar_ref(z, survey='sdss', band='i03'):
    if ('ms', survey, band) not in _S:
        import fitsio
        import redmapper
        f = os.path.join(os.path.dirname(redmapper.__file__), 'data', 'mstar', 'mstar_%s_%s.fit' % (survey, band))
        t = fitsio.read(f, ext=1, upper=True)
        _S['ms', survey, band] = (np.asarray(t['Z'], 'f8').ravel(), np.asarray(t['MSTAR'], 'f8').ravel())
    x, y = _S['ms', survey, band]
    return natural(x, y, z)


def close(name, got, want, tol, bad):
    got, want = np.asarray(got, 'f8'), np.asarray(want, 'f8')
    if got.shape != want.shape:
        bad.append('%s has shape %s, expected %s' % (name, got.shape, want.shape))
        return
    d = np.abs(got - want)
    if got.size and not np.all(d <= tol):
        i = np.unravel_index(int(np.argmax(np.where(np.isnan(d), np.inf, d))), d.shape)
        bad.append('%s%s is %s, expected %s' % (name, list(map(int, i)), got[i], want[i]))


def judge_model(par, r, h, pn, rn, o, kw, bad):
    """All tables of the model, against the nodes."""
    tol = 1e-9 if o.get('type', 'f8') == 'f8' else 5e-5
    nc = o['ncol']
    zr = kw.get('zrange', (h['ZRANGE0'], h['ZRANGE1']))
    dz = kw.get('zbinsize') or (h['ZBINFINE'] if kw.get('fine') else h['ZBINCOAR'])
    nz = int(round((zr[1] - zr[0]) / dz))
    z = zr[0] + dz * np.arange(nz)
    z = np.append(z, z[-1])         # the overflow bin repeats the last one
    ms = mstar_ref(z)
    close('z', par.z[:-1], z[:-1], 1e-12, bad)
    if not par.z[-1] > 100:
        bad.append('no overflow bin')
    if bad:
        return z, ms
    lim = kw.get('limmag', h['LIMMAG'])
    if par.limmag != lim or par.ncol != nc or par.nmag != nc + 1 or par.alpha != h['ALPHA']:
        bad.append('limmag %s, ncol %s, nmag %s, alpha %s' % (par.limmag, par.ncol, par.nmag, par.alpha))
    pz = np.asarray(r[pn + '_Z'], 'f8')
    ext = (z < pz.min()) | (z > pz.max())
    edge = np.minimum(np.abs(z - pz.min()), np.abs(z - pz.max())) < 1e-6
    if not np.array_equal(par.extrapolated[~edge], ext[~edge]):
        bad.append('extrapolated bins are not those outside the nodes')
    ext = np.asarray(par.extrapolated)
    lo, hi = np.where(ext & (z < pz.mean()))[0], np.where(ext & (z > pz.mean()))[0]
    ins = np.where(~ext)[0]
    tpl = bool(o.get('template'))

    def pinned(v):
        v = v.copy()
        if tpl:
            v[lo], v[hi] = v[ins[0]], v[ins[-1]]
        return v
    close('pivotmag', par.pivotmag, pinned(natural(pz, r[pn], z)), tol, bad)
    close('maxrefmag', par.maxrefmag, natural(pz, r['MAX' + rn], z), tol * 10, bad)
    close('minrefmag', par.minrefmag, natural(pz, r['MIN' + rn], z), tol * 10, bad)
    col = np.zeros((z.size, nc))
    slo = np.zeros((z.size, nc))
    bands = None
    if tpl:
        bands = o['bands'].split(',') if ',' in o['bands'] else list(o['bands'])
    for j in range(nc):
        col[:, j] = natural(r['Z%02d' % j], r['C%02d' % j], z)
        slo[:, j] = pinned(natural(r['ZS%02d' % j], r['SLOPE%02d' % j], z))
        if tpl and template_color(bands[j], bands[j + 1], 0.3) is not None:
            for sel, k in ((lo, ins[0]), (hi, ins[-1])):
                t = template_color(bands[j], bands[j + 1], z)
                col[sel, j] = t[sel] - t[k] + col[k, j]
    close('c', par.c, col, tol * (20 if tpl else 2), bad)
    close('slope', par.slope, slo, tol, bad)
    minsig = kw.get('minsig', 0.01)
    sig = np.zeros((nc, nc, z.size))
    for j in range(nc):
        sig[j, j] = np.maximum(natural(r['COVMAT_Z'], r['SIGMA'][j, j], z), minsig)
    cov = np.zeros_like(sig)
    for j in range(nc):
        cov[j, j] = sig[j, j] ** 2
        for k in range(j + 1, nc):
            sig[j, k] = sig[k, j] = np.clip(natural(r['COVMAT_Z'], r['SIGMA'][j, k], z), -0.99, 0.99)
            cov[j, k] = cov[k, j] = sig[j, k] * sig[j, j] * sig[k, k]
    close('sigma', par.sigma, sig, tol * 5, bad)
    close('covmat', par.covmat, cov, tol * 5, bad)
    close('volume_factor', par.volume_factor, natural(r['VOLUME_FACTOR_Z'], r['VOLUME_FACTOR'], z), tol * 5, bad)
    for nm, zn in (('CORR', 'CORR_Z'), ('CORR2', 'CORR_Z'), ('CORR_SLOPE', 'CORR_SLOPE_Z'), ('CORR2_SLOPE', 'CORR_SLOPE_Z')):
        close(nm.lower(), getattr(par, nm.lower()), natural(r[zn], r[nm], z), tol, bad)
    for nm in ('CORR_R', 'CORR2_R'):
        if o.get('corr_r', 'none') == 'none' or r[nm][0] <= 0:
            want = np.ones(z.size)
        else:
            want = np.maximum(natural(r['CORR_SLOPE_Z'], r[nm], z), 0.5)
        close(nm.lower(), getattr(par, nm.lower()), want, tol * 5, bad)
    if o.get('ratio'):
        close('mag_err_ratio_intercept', par.mag_err_ratio_intercept, r['MAG_ERR_RATIO_INT'], 1e-7, bad)
        close('mag_err_ratio_slope', par.mag_err_ratio_slope, r['MAG_ERR_RATIO_SLOPE'], 1e-7, bad)
        close('mag_err_ratio_pivot', par.mag_err_ratio_pivot, r['MAG_ERR_RATIO_PIVOT'], 1e-6, bad)
    else:
        close('mag_err_ratio_intercept', par.mag_err_ratio_intercept, np.ones(nc + 1), 0, bad)
        close('mag_err_ratio_slope', par.mag_err_ratio_slope, np.zeros(nc + 1), 0, bad)
    # luptitude corrections
    rb = np.asarray(par.refmagbins)
    first = 10.0 if o.get('lowz') else 12.0
    nb = int(math.ceil(round((np.float32(lim) - first) / 0.01, 3)))
    if abs(rb.size - 1 - nb) > 1 or np.max(np.abs(rb[:-1] - first - 0.01 * np.arange(rb.size - 1))) > 1e-9 or not rb[-1] > 100:
        bad.append('magnitude bins from %s to %s' % (rb[0], rb[-2]))
        return z, ms
    mag = np.append(rb[:-1], rb[-2])
    if par.lupcorr.shape != (mag.size, z.size, nc):
        bad.append('luptitude corrections have shape %s' % (par.lupcorr.shape,))
        return z, ms
    if o.get('b') == 'all':
        bv = [h['BVALUE%d' % (j + 1)] for j in range(nc + 1)]
        for i in range(z.size):
            m = np.zeros((mag.size, nc + 1))
            off = par.c[i] + par.slope[i] * (mag[:, None] - par.pivotmag[i])
            m[:, o['ref']] = mag
            for j in range(o['ref'] + 1, nc + 1):
                m[:, j] = m[:, j - 1] - off[:, j - 1]
            for j in range(o['ref'] - 1, -1, -1):
                m[:, j] = m[:, j + 1] + off[:, j]
            lup = np.array([-2.5 * np.log10(b) - np.arcsinh(10 ** (-0.4 * (m[:, j] - 22.5)) / (2e9 * b)) * 2.5 / np.log(10) for j, b in enumerate(bv)]).T
            want = (lup[:, :-1] - lup[:, 1:]) - (m[:, :-1] - m[:, 1:])
            n0 = len(bad)
            close('lupcorr of redshift %d' % i, par.lupcorr[:, i, :], want, 1e-8, bad)
            if len(bad) > n0:
                break
    elif np.any(par.lupcorr != 0):
        bad.append('luptitude corrections without softening')
    return z, ms


def judge_lookup(par, z, ms, alpha, bad, lowz=False):
    """Indices and the quantities looked up with them."""
    dz = par.zbinsize
    top = z.size - 1
    q = np.concatenate([z[:-1], z[:-1] + 0.3 * dz, z[:-1] - 0.3 * dz, [0.0, 0.001, z[0] - 5 * dz, z[-1] + dz, z[-1] + 7 * dz, 3.0]])
    e = np.concatenate([np.arange(top)] * 3 + [[0, 0, 0, top, top, top]])
    got = par.zindex(q)
    if not np.array_equal(got, e):
        i = int(np.argmax(np.asarray(got) != e))
        bad.append('redshift %s is looked up in bin %s, expected %s' % (q[i], got[i], e[i]))
    got = par.zindex(q.astype('f4'))
    if not np.array_equal(got, e):
        i = int(np.argmax(np.asarray(got) != e))
        bad.append('float32 redshift %s is looked up in bin %s, expected %s' % (q[i], got[i], e[i]))
    close('mstar', par.mstar(q), ms[e], 1e-5, bad)
    for i in (0, q.size // 2, q.size - 1):
        a = par.zindex(q[i])
        b = par.mstar(float(q[i]))
        if np.ndim(a) != 0 or a != e[i] or abs(float(np.squeeze(b)) - ms[e[i]]) > 1e-5:
            bad.append('a single redshift %s gives bin %s, mstar %s' % (q[i], a, b))
    for nm, bins in (('refmagindex', par.refmagbins), ('lumrefmagindex', par.lumrefmagbins)):
        b = np.asarray(bins)[:-1]
        f = getattr(par, nm)
        q = np.concatenate([b, b + 0.004, b - 0.004, [3.0, b[0] - 1, b[-1] + 0.02, 30.0]])
        e = np.concatenate([np.arange(b.size)] * 3 + [[0, 0, b.size, b.size]])
        got = f(q)
        if not np.array_equal(got, e):
            i = int(np.argmax(np.asarray(got) != e))
            bad.append('%s of %s is %s, expected %s' % (nm, q[i], got[i], e[i]))
        if np.ndim(f(float(b[3]))) != 0 or f(float(b[3])) != 3:
            bad.append('%s of a single magnitude is %s' % (nm, f(float(b[3]))))
    lb = np.asarray(par.lumrefmagbins)
    want = mstar_ref(np.array([z[-1] + dz]))[0] + 2.5
    if abs(lb[-2] - want) > 0.02 or abs(lb[0] - (10.0 if lowz else 12.0)) > 1e-9:
        bad.append('luminosity bins from %s to %s, expected up to %s' % (lb[0], lb[-2], want))
    # integral of the luminosity function up to each magnitude
    x = lb[:-1]
    for i in sorted(set([0, z.size // 3, z.size - 2, z.size - 1])):
        f = 10 ** (0.4 * (alpha + 1) * (ms[i] - x)) * np.exp(-10 ** (0.4 * (ms[i] - x)))
        w = np.cumsum(f) * 0.01
        close('lumnorm of redshift %d' % i, par.lumnorm[:-1, i], w, 1e-4 * max(1.0, w[-1]), bad)
        if abs(par.lumnorm[-1, i] - w[-1]) > 0.011 * f[-1] + 1e-4 * w[-1]:
            bad.append('lumnorm of the overflow bin is %s, expected %s' % (par.lumnorm[-1, i], w[-1]))


def run_model(case):
    from redmapper import RedSequenceColorPar
    o, kw = case
    d = rm.workdir('c24')
    bad = []
    try:
        p = os.path.join(d, 'par.fit')
        r, h, pn, rn = make(p, o)
        with open(p, 'rb') as f:
            raw = f.read()
        kk = dict(kw)
        if 'zrange' in kk:
            kk['zrange'] = np.array(kk['zrange'])
        par = RedSequenceColorPar(p, **kk)
        z, ms = judge_model(par, r, h, pn, rn, o, kw, bad)
        if not bad:
            judge_lookup(par, z, ms, h['ALPHA'], bad, lowz=o.get('lowz'))
        with open(p, 'rb') as f:
            if f.read() != raw:
                bad.append('the file was changed')
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return bad, (o['ncol'], o['nodes'], bool(o.get('template')), o.get('b'), o.get('corr_r'), bool(o.get('extrap'))), True


def run_header(case):
    """A file without a required entry is refused."""
    from redmapper import RedSequenceColorPar
    key, kw = case
    d = rm.workdir('c24')
    bad = []
    try:
        p = os.path.join(d, 'par.fit')
        make(p, dict(ncol=2, nodes=3, ref=1, drop=[key]))
        need = {'ZBINFINE': kw.get('fine') and not kw.get('zbinsize'), 'ZBINCOAR': not kw.get('fine') and not kw.get('zbinsize'),
                'LIMMAG': 'limmag' not in kw, 'ZRANGE0': 'zrange' not in kw, 'ZRANGE1': 'zrange' not in kw, 'LOWZMODE': False}.get(key, True)
        try:
            RedSequenceColorPar(p, **kw)
            if need:
                bad.append('a file without %s was accepted' % key)
        except ValueError:
            if not need:
                bad.append('a file without %s was refused' % key)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return bad, (key, bool(need)), bool(need)


def run_placeholder(case):
    """Without a file: the luminosity function from the configuration."""
    from redmapper import RedSequenceColorPar, Configuration
    over, kw = case
    d = rm.workdir('c24')
    bad = []
    try:
        conf = rm.quiet(Configuration(rm.write_config(os.path.join(d, 'c.yaml'), outpath=d, **over)))
        par = RedSequenceColorPar(None, config=conf, **kw)
        zr = kw.get('zrange', over['zrange'])
        nz = int(round((zr[1] - zr[0]) / 0.001))
        z = zr[0] + 0.001 * np.arange(nz)
        z = np.append(z, z[-1])
        ms = mstar_ref(z, conf.mstar_survey, conf.mstar_band)
        close('z', par.z[:-1], z[:-1], 1e-12, bad)
        if par.limmag != kw.get('limmag', conf.limmag_catalog) or par.alpha != conf.calib_lumfunc_alpha or par.ncol != conf.nmag - 1:
            bad.append('limmag %s, alpha %s, ncol %s' % (par.limmag, par.alpha, par.ncol))
        if not bad:
            judge_lookup(par, z, ms, conf.calib_lumfunc_alpha, bad)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return bad, tuple(zr), True


def run_mstar(case):
    """The tables of the characteristic magnitude that come with the code."""
    from redmapper.utilities import MStar
    survey, band = case
    bad = []
    m = MStar(survey, band)
    z = np.arange(0.02, 1.0, 0.0037)
    close('mstar', m(z), mstar_ref(z, survey, band), 2e-4, bad)
    m2 = MStar(survey + ' ', band + ' ')
    if not np.array_equal(m2(z), m(z)):
        bad.append('blanks change the table')
    return bad, (survey, band), True


def run_colors(case):
    """Initial colors: linear between the redshifts of the template; unknown colors are refused."""
    from redmapper.utilities import RedGalInitialColors
    b1, b2 = case
    bad = []
    rg = RedGalInitialColors('bc03_colors_sdss.fit')
    tz, tc, bands = template()
    z = np.concatenate([tz, 0.5 * (tz[1:] + tz[:-1]), 0.9 * tz[1:] + 0.1 * tz[:-1]])
    z = z[z < 1.2]
    want = template_color(b1, b2, z)
    if abs(rg.zmax - tz.max()) > 1e-6:
        bad.append('zmax %s' % rg.zmax)
    try:
        got = rg(b1, b2, z)
    except ValueError:
        if want is not None:
            bad.append('%s-%s refused' % (b1, b2))
        return bad, 'refused', False
    if want is None:
        return ['%s-%s accepted' % (b1, b2)], 'x', True
    close('color', got, want, 1e-5, bad)
    return bad, 'color', True


def body(check):
    th = check.thorough
    base = dict(ncol=2, nodes=3, ref=1)
    models = []
    # all sizes and reference bands
    for nc in (1, 2, 3, 4):
        for ref in range(nc + 1):
            for n in (2, 3, 5) if not th else (2, 3, 4, 5, 7):
                models.append([dict(ncol=nc, nodes=n, ref=ref, b='all'), dict(zbinsize=0.02)])
    flags = [dict(), dict(extrap=1), dict(extrap=1, template=1), dict(old=1), dict(type='f4'), dict(type='f4', extrap=1, template=1)]
    for f, q, rat in itertools.product(flags, ('none', 'ok', 'low', 'zero', 'zero2'), (0, 1)):
        o = dict(ncol=3, nodes=4, ref=2, corr_r=q, ratio=rat, **f)
        if f.get('template'):
            o['bands'] = 'g,r,i,z'
        models.append([o, dict()])
    for bands in ('g,r,i,z', 'griz', 'u,g,r,i', 'x,g,r,i', 'g,r,x,y'):
        for b in (None, 'all', 'part'):
            for n in (2, 4):
                models.append([dict(ncol=3, nodes=n, ref=2, extrap=1, template=1, bands=bands, b=b), dict(zbinsize=0.01)])
    for kw in (dict(fine=True), dict(fine=True, zbinsize=0.004), dict(zrange=[0.15, 0.4]), dict(zrange=[0.05, 0.6], fine=True), dict(limmag=19.5), dict(limmag=21.0, fine=True),
               dict(minsig=0.05), dict(minsig=0.0), dict(zrange=[0.1, 0.13]), dict(zbinsize=0.001), dict(zbinsize=0.0005, zrange=[0.2, 0.3])):
        for o in (dict(), dict(sigma=(0.0, 0.03)), dict(rho=1.2), dict(lowz=1), dict(alpha=-0.7), dict(iind=1), dict(extrap=1), dict(extrap=1, template=1, bands='r,i,z'), dict(b='all')):
            if not (o.get('template') and kw.get('zrange') == [0.1, 0.13]):       # nothing calibrated there
                models.append([dict(base, **o), kw])
    if th:
        for kw in (dict(zbinsize=z) for z in (0.001, 0.002, 0.0025, 0.004, 0.005, 0.008, 0.01, 0.02, 0.025, 0.04, 0.05)):
            for zr in ((0.1, 0.5), (0.05, 0.65), (0.2, 0.9), (0.4, 0.5)):
                for o in (dict(b='all'), dict(extrap=1), dict(extrap=1, template=1, bands='r,i,z')):
                    if o.get('extrap') and zr[1] - zr[0] < 0.3 or abs(zr[0] / kw['zbinsize'] - round(zr[0] / kw['zbinsize'])) > 1e-6 \
                       or abs((zr[1] - zr[0]) / kw['zbinsize'] - round((zr[1] - zr[0]) / kw['zbinsize'])) > 1e-6:
                        continue
                    models.append([dict(base, zrange=zr, **o), kw])
    check.run_cases(models, run_model, 'model', chunk=2)
    keys = ('LIMMAG', 'ZRANGE0', 'ZRANGE1', 'ALPHA', 'MSTARSUR', 'MSTARBAN', 'NCOL', 'ZBINFINE', 'ZBINCOAR', 'REF_IND', 'LOWZMODE')
    check.run_cases([[k, kw] for k in keys for kw in (dict(), dict(fine=True), dict(zbinsize=0.01), dict(limmag=20.0), dict(zrange=[0.2, 0.3]))], run_header, 'header')
    pl = [[dict(zrange=list(zr), calib_lumfunc_alpha=a), kw] for zr in ((0.05, 0.6), (0.1, 0.35)) for a in (-1.0, -0.8) for kw in (dict(), dict(limmag=19.0), dict(zrange=[0.2, 0.3]))]
    check.run_cases(pl, run_placeholder, 'placeholder')
    import redmapper
    d = os.path.join(os.path.dirname(redmapper.__file__), 'data', 'mstar')
    sb = sorted(f[6:-4].rsplit('_', 1) for f in os.listdir(d) if f.startswith('mstar_') and f.endswith('.fit'))
    check.run_cases([list(x) for x in sb], run_mstar, 'mstar')
    bl = ['u', 'g', 'r', 'i', 'z', 'y', 'G']
    check.run_cases([[a, b] for a in bl for b in bl], run_colors, 'colors')


if __name__ == '__main__':
    core.main('C24', 'exploration',
              'Parameter files with 1-4 colors x reference band x 2-7 nodes x template/extrapolation x old/new names x softening x correction tables x bin sizes and ranges; every value of every table against '
              'a dense natural-spline solve, every bin and half-way point looked up; placeholders, all mstar tables and initial colors. Non-trivial: a model results (or a required entry is missing).', body)
