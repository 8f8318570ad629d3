"""C31: the red-sequence calibration recovers the model its galaxies follow, from exactly the galaxies it may use."""
import contextlib
import io
import itertools
import os
import shutil

import fitsio
import numpy as np
from scipy.special import ndtri

from mc import core, rm

ZR = (0.1, 0.3)
LN = 2.5 / np.log(10.0)


def seq(n, d):
    """A low-discrepancy sequence of n points in d dimensions."""
    phi = 2.0
    for _ in range(40):
        phi = (1 + phi) ** (1.0 / (d + 1))
    a = phi ** -(1.0 + np.arange(d))
    return (0.5 + np.outer(np.arange(1, n + 1), a)) % 1.0


def color(j, z):
    return 0.6 + 0.3 * j + (1.5 - 0.4 * j) * (z - 0.2) + (2.0 if j % 2 else -1.5) * (z - 0.2) ** 2


def slope(j, z):
    return -0.02 - 0.01 * j - 0.05 * (z - 0.1)


SIG = (0.03, 0.02, 0.025, 0.02)


def pivot(z):
    return 20.0 + 4.0 * (z - 0.1)


def lupt(mag, b):
    return 2.5 * np.log10(1.0 / b) - LN * np.arcsinh(0.5 * 10 ** (-0.4 * mag) / b)


def soft(nmag, ref):
    """Softenings a fraction of the typical flux, so that luptitudes differ visibly from magnitudes."""
    m = np.zeros(nmag)
    m[ref] = pivot(0.25)
    for j in range(ref, nmag - 1):
        m[j + 1] = m[j] - color(j, 0.25)
    for j in range(ref - 1, -1, -1):
        m[j] = m[j + 1] + color(j, 0.25)
    return [float('%.3g' % ((f if i != ref else 0.01) * 10 ** (-0.4 * x))) for i, (x, f) in enumerate(zip(m, (0.16, 0.12, 0.14, 0.1, 0.15)))]


def sample(nmag, ref, n, b=None, ratio=None, eps=0.01, flat=False, sig=SIG):
    """Galaxies of the model; the errors given are the true ones divided by ratio."""
    u = seq(n, 3 + 2 * nmag)
    z = ZR[0] + (ZR[1] - ZR[0]) * (0.0005 + 0.999 * u[:, 0])
    refmag = pivot(z) + 2.4 * (u[:, 1] - 0.5)
    err = eps * (1.0 + (0.0 if flat else 0.5) * (refmag - pivot(z)))[:, None] * np.ones(nmag)
    mag = np.zeros((n, nmag))
    mag[:, ref] = refmag

    def col(j):
        return color(j, z) + slope(j, z) * (refmag - pivot(z)) + sig[j] * (np.sqrt(0.9) * ndtri(u[:, -1]) + np.sqrt(0.1) * ndtri(u[:, 2 + j]))
    for j in range(ref, nmag - 1):
        mag[:, j + 1] = mag[:, j] - col(j)
    for j in range(ref - 1, -1, -1):
        mag[:, j] = mag[:, j + 1] + col(j)
    if b is not None:
        for i in range(nmag):
            if i != ref:
                mag[:, i] = lupt(mag[:, i], b[i])
        mag[:, ref] = lupt(mag[:, ref], b[ref])
    refmag = mag[:, ref].copy()
    for i in range(nmag):
        if i != ref or flat:
            mag[:, i] += err[:, i] * ndtri(u[:, 2 + nmag + i])
    g = np.zeros(n, dtype=[('Z', 'f4'), ('P', 'f4'), ('PCOL', 'f4'), ('RA', 'f8'), ('DEC', 'f8'), ('MAG', 'f4', (nmag,)), ('MAG_ERR', 'f4', (nmag,)), ('REFMAG', 'f4'), ('REFMAG_ERR', 'f4')])
    g['Z'], g['P'], g['PCOL'], g['RA'], g['DEC'] = z, 0.98, 0.98, 10 + u[:, 0], u[:, 1]
    g['MAG'], g['REFMAG'] = mag, refmag
    g['MAG_ERR'] = err
    if not flat:
        g['MAG_ERR'][:, ref] = 1e-4
    if ratio is not None:
        g['MAG_ERR'] /= (ratio[0] + ratio[1] * (refmag - 20.0))[:, None]
    g['REFMAG_ERR'] = 0.01
    return g


def background(path, nmag):
    mag = 10.0 + np.arange(141) * 0.1
    col = -2.0 + np.arange(61) * 0.1
    for j in range(nmag - 1):
        a = np.zeros(1, dtype=[('COL1', 'i2'), ('COL2', 'i2'), ('REFMAGBINS', 'f4', mag.size), ('REFMAGRANGE', 'f4', 2), ('REFMAGBINSIZE', 'f4'), ('COLBINS', 'f4', col.size), ('COLRANGE', 'f4', 2), ('COLBINSIZE', 'f4'), ('BC', 'f4', (mag.size, col.size))])
        a['COL1'] = a['COL2'] = j
        a['REFMAGBINS'][0], a['REFMAGRANGE'][0], a['REFMAGBINSIZE'] = mag, (10.0, 24.1), 0.1
        a['COLBINS'][0], a['COLRANGE'][0], a['COLBINSIZE'] = col, (-2.0, 4.1), 0.1
        a['BC'] = 1.0
        fitsio.write(path, a, extname='%02d_%02d_REF' % (j, j), header={'AREA': 1.0}, clobber=j == 0)


def calibrate(d, g, nmag, ref, b=None, over=None, zreds=None, galname='gals.fit'):
    """Runs the real calibration on these galaxies; returns parameters, header and the galaxies written."""
    from redmapper.configuration import Configuration
    from redmapper.calibration import redsequencecal
    from redmapper.zred_color import ZredColor
    os.makedirs(d, exist_ok=True)
    c = rm.quiet(Configuration(rm.write_config(d + '/c.yml', outpath=d, plotpath='', bkgfile_color=d + '/cb.fit', parfile=d + '/pars.fit', calib_redgal_template=rm.DROP)))
    c.nmag, c.ref_ind, c.bands = nmag, ref, ['u', 'g', 'r', 'i', 'z'][:nmag]
    c.b = np.zeros(nmag) if b is None else np.array(b)
    c.zrange = list(ZR)
    c.calib_color_nodesizes, c.calib_slope_nodesizes, c.calib_color_maxnodes = [0.05] * (nmag - 1), [0.1] * (nmag - 1), [-1.0] * (nmag - 1)
    c.calib_use_pcol = True
    c.limmag_catalog = 21.0
    for k, v in (over or {}).items():
        setattr(c, k, v)
    background(d + '/cb.fit', nmag)
    fitsio.write(d + '/' + galname, g, clobber=True)
    cal = redsequencecal.RedSequenceCalibrator(c, d + '/' + galname)
    cal._make_diagnostic_plots = lambda gals: None
    keep = ZredColor.compute_zreds
    if zreds is not None:
        def fake(self, gals):
            zreds(gals, self.do_correction)
        ZredColor.compute_zreds = fake
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            cal.run()
    finally:
        ZredColor.compute_zreds = keep
    p = fitsio.read(d + '/pars.fit', ext=1, lower=True)[0]
    out = [f for f in os.listdir(d) if f.endswith('_zreds.fit')]
    return c, p, fitsio.read_header(d + '/pars.fit', ext=1), fitsio.read(d + '/' + out[0], ext=1, lower=True) if out else None


def distance(z):
    from scipy.integrate import quad
    return quad(lambda x: 1.0 / np.sqrt(0.3 * (1 + x) ** 3 + 0.7), 0, z, epsabs=1e-12)[0]


def nodes(lo, hi, size):
    n = int(round((hi - lo) / size)) + 1
    return np.linspace(lo, hi, n)


def products(c, p, h, nmag, ref, b, template):
    """What does not depend on the fits, or follows from them exactly."""
    from redmapper.utilities import MStar
    bad = []
    ms = MStar(c.mstar_survey, c.mstar_band)
    for n, size in (('pivotmag_z', c.calib_pivotmag_nodesize), ('covmat_z', c.calib_covmat_nodesize), ('corr_z', c.calib_corr_nodesize), ('corr_slope_z', c.calib_corr_slope_nodesize)):
        if abs((ZR[1] - ZR[0]) / size - round((ZR[1] - ZR[0]) / size)) < 1e-6 and (p[n].size != nodes(ZR[0], ZR[1], size).size or not np.allclose(p[n], nodes(ZR[0], ZR[1], size), atol=1e-5)):
            bad.append('%s are %s' % (n, p[n]))
    lmin = max(c.lval_reference - 0.1, 0.001)
    for n, l in (('minrefmag', 30.0), ('maxrefmag', lmin)):
        if not np.allclose(p[n], ms(p['pivotmag_z']) - 2.5 * np.log10(l), atol=0.05):
            bad.append('%s %s at %s, expected %s' % (n, p[n], p['pivotmag_z'], ms(p['pivotmag_z']) - 2.5 * np.log10(l)))
    v = np.array([(distance(ZR[1] + 0.01) - distance(ZR[1])) / (distance(z + 0.01) - distance(z)) for z in p['volume_factor_z'].astype('f8')])
    if not np.allclose(p['volume_factor'], v, rtol=2e-3):
        bad.append('volume factor %s, expected %s' % (p['volume_factor'][:4], v[:4]))
    for j in range(nmag - 1):
        for k in range(nmag - 1):
            want = p['sigma'][j, j] ** 2 if j == k else c.calib_covmat_constant * p['sigma'][j, j] * p['sigma'][k, k]
            if not np.allclose(p['covmat_amp'][j, k], want, rtol=1e-4, atol=1e-9):
                bad.append('covariance %d %d is %s, not %s' % (j, k, p['covmat_amp'][j, k], want))
            if j != k and not np.allclose(p['sigma'][j, k], c.calib_covmat_constant):
                bad.append('correlation %d %d is %s' % (j, k, p['sigma'][j, k]))
    if abs(p['mag_err_ratio_pivot'] - c.calib_err_ratio_pivot) > 1e-5:
        bad.append('pivot of the error ratios %s' % p['mag_err_ratio_pivot'])
    if not c.calib_fit_err_ratio and not (np.all(p['mag_err_ratio_int'] == 1) and np.all(p['mag_err_ratio_slope'] == 0) and np.all(p['medcol_err_ratio'] == 1)):
        bad.append('error ratios %s %s that were not asked for' % (p['mag_err_ratio_int'], p['mag_err_ratio_slope']))
    want = {'NCOL': nmag - 1, 'MSTARSUR': c.mstar_survey, 'MSTARBAN': c.mstar_band, 'LIMMAG': c.limmag_catalog, 'ZRANGE0': max(ZR[0] - 0.1, 0.01), 'ZRANGE1': min(ZR[1] + 0.25, template or 99.0), 'ALPHA': c.calib_lumfunc_alpha,
            'ZBINFINE': c.zredc_binsize_fine, 'ZBINCOAR': c.zredc_binsize_coarse, 'REF_IND': ref, 'LOWZMODE': 0, 'BANDS': ','.join(c.bands)}
    for j in range(nmag):
        if b is not None:
            want['BVALUE%d' % (j + 1)] = b[j]
        elif 'BVALUE%d' % (j + 1) in h:
            bad.append('a softening that is not there: %s' % h['BVALUE%d' % (j + 1)])
    for k, v in want.items():
        got = h.get(k) if k in h else None
        if got is None or (isinstance(v, str) and str(got).strip() != v) or (not isinstance(v, str) and abs(float(got) - v) > 1e-6 * max(abs(v), 1e-5)):
            bad.append('%s is %s, not %s' % (k, got, v))
    return bad


def bias(z, kind):
    return {'none': 0.0 * z, 'flat': 0.008 + 0.0 * z, 'tilt': 0.004 + 0.05 * (z - 0.2), 'bend': 0.006 - 0.6 * (z - 0.2) ** 2}[kind]


def redshifts(kind='none', tilt=0.0, width=0.5, err=0.02, lows=None):
    """A stand-in for the zreds of the model just fitted: known bias, scatter and errors."""
    calls = []

    def fill(gals, correct):
        calls.append(bool(correct))
        z = np.array(gals.z, 'f8')
        # one number per galaxy, wherever it is in the table
        order = np.argsort(np.argsort(z, kind='stable'), kind='stable')
        u = seq(gals.size, 3)
        e = ndtri(u[order, 1])
        l = -3.0 * u[order, 2]
        zr = z - bias(z, kind) - tilt * (np.array(gals.refmag, 'f8') - pivot(z)) + width * err * e
        if lows is not None:
            lows(gals, zr, l, order)
        gals.zred[:], gals.zred_e[:], gals.lkhd[:], gals.chisq[:] = zr, err, l, 1.0
        gals.zred2[:], gals.zred2_e[:] = zr, err
        if 'zred_uncorr' in gals.dtype.names:
            gals.zred_uncorr[:], gals.zred_uncorr_e[:] = zr, err
    return fill, calls


def same(p, q, names):
    return [n for n in names if not np.array_equal(p[n], q[n])]


ALL = None


def run_model(case):
    """Galaxies of a known model: the parameters are those of the model."""
    nmag, ref, lup, ratio, template, n = case
    d = rm.workdir('c31')
    try:
        b = soft(nmag, ref) if lup else None
        sig = SIG if not ratio else (0.01,) * 4
        g = sample(nmag, ref, n, b, ratio, eps=0.01 if not ratio else 0.04, flat=bool(ratio), sig=sig)
        over = {'calib_fit_err_ratio': bool(ratio), 'calib_covmat_constant': 0.9 if n % 2 else 0.7, 'lval_reference': (0.2, 0.15, 0.05, 0.4)[(nmag + ref + lup) % 4]}
        if template:
            over['calib_redgal_template'] = 'bc03_colors_sdss.fit'
        fill, calls = redshifts()
        c, p, h, o = calibrate(d, g, nmag, ref, b, over, zreds=fill)
        from redmapper.utilities import RedGalInitialColors
        bad = products(c, p, h, nmag, ref, b, float(RedGalInitialColors('bc03_colors_sdss.fit').zmax) if template else None)
        if calls != [False, True]:
            bad.append('zreds computed with corrections: %s' % calls)
        if o is None or o.size != g.size or not np.array_equal(o['mag'], g['MAG']) or not np.array_equal(o['z'], g['Z']):
            bad.append('the galaxies written are not those used')
        dev = {'pivotmag': np.max(np.abs(p['pivotmag'] - pivot(p['pivotmag_z'])))}
        lim = {'pivotmag': 0.2}
        for j in range(nmag - 1):
            z, zs = p['z%02d' % j].astype('f8'), p['zs%02d' % j].astype('f8')
            dev['c%d' % j] = np.max(np.abs(p['c%02d' % j] - color(j, z)))
            dev['slope%d' % j] = np.max(np.abs(p['slope%02d' % j] - slope(j, zs)))
            lim['c%d' % j], lim['slope%d' % j] = (0.012, 0.03) if not lup else (0.02, 0.05)
            if ratio:
                lim['c%d' % j], lim['slope%d' % j] = 0.012, 0.04
            if not lup:
                zp = p['pivotmag_z'].astype('f8')
                dev['medcol%d' % j], lim['medcol%d' % j] = np.max(np.abs(p['medcol'][:, j] - color(j, zp))), 0.02 if not ratio else 0.04
                if not ratio:
                    near = [np.abs(g['Z'] - x) < 0.025 for x in zp]
                    gc = g['MAG'][:, j].astype('f8') - g['MAG'][:, j + 1]
                    wid = np.array([1.4826 * np.median(np.abs(gc - color(j, g['Z'].astype('f8')))[x]) for x in near])
                    dev['width%d' % j], lim['width%d' % j] = np.max(np.abs(np.log(p['medcol_width'][:, j] / wid))), 0.3
                    dev['sigma%d' % j], lim['sigma%d' % j] = np.max(np.abs(np.log(p['sigma'][j, j] / sig[j]))), 0.6
            if np.any(p['slope%02d' % j] > 0.05):
                bad.append('slopes %s' % p['slope%02d' % j])
        if ratio:
            for j in range(nmag):
                m = np.array([19.5, 20.4, 21.3])
                at = p['mag_err_ratio_int'][j] + p['mag_err_ratio_slope'][j] * (m - p['mag_err_ratio_pivot'])
                dev['ratio%d' % j], lim['ratio%d' % j] = np.max(np.abs(np.log(np.clip(at, 1e-3, None) / (ratio[0] + ratio[1] * (m - 20.0))))), 0.4
        if os.environ.get('C31_SHOW'):
            print(case, {k: round(float(v), 4) for k, v in dev.items()}, flush=True)
        for k, v in dev.items():
            if not v <= lim[k]:
                bad.append('%s is off by %.4f (%s)' % (k, v, case))
        return bad[:4], (nmag, ref, lup, ratio), True
    finally:
        shutil.rmtree(d)


MED = ('pivotmag', 'medcol', 'medcol_width', 'minrefmag', 'maxrefmag')


def run_cuts(case):
    """Galaxies outside of the cuts have no influence at all."""
    kind, where, pcol = case
    d = rm.workdir('c31')
    try:
        nmag, ref, n = 3, 1, 400
        g = sample(nmag, ref, n)
        P, Q = ('PCOL', 'P') if pcol else ('P', 'PCOL')
        g[Q] = 0.02
        g[P] = 0.8 + 0.18 * seq(n, 1)[:, 0]
        over = {'calib_use_pcol': pcol, 'calib_pcut': 0.5, 'calib_color_pcut': 0.75}
        fill, _ = redshifts('tilt')
        c, p0, h, o0 = calibrate(d + '/a', g, nmag, ref, None, over, zreds=fill)
        e = g[:12].copy()
        e['MAG'][:, 0] += 0.05
        e['REFMAG'] += 0.7
        e[Q] = 0.99
        f4 = np.float32
        lo, hi = f4(ZR[0]), f4(ZR[1])
        col = False
        if kind == 'z at lower':
            e['Z'] = np.nextafter(lo, f4(0)) if float(lo) > ZR[0] else lo
        elif kind == 'z below':
            e['Z'] = 0.0999
        elif kind == 'z above':
            e['Z'] = 0.3001
        elif kind == 'z at upper':
            e['Z'] = hi if float(hi) >= ZR[1] else np.nextafter(hi, f4(1))
        elif kind == 'p at cut':
            e[P] = 0.5
        elif kind == 'p below':
            e[P] = 0.4999
        elif kind == 'p above':
            e[P] = 0.5001
        elif kind == 'p at color cut':
            e[P], col = 0.75, True
        elif kind == 'p below color cut':
            e[P], col = 0.7499, True
        elif kind == 'p above color cut':
            e[P] = 0.7501
        inside = kind in ('p above', 'p at color cut', 'p below color cut', 'p above color cut')
        if where == 'first':
            gg, keep = np.concatenate([e, g]), np.r_[np.zeros(12, bool), np.ones(n, bool)]
        elif where == 'last':
            gg, keep = np.concatenate([g, e]), np.r_[np.ones(n, bool), np.zeros(12, bool)]
        else:
            pos = np.arange(12) * 30 + 7
            gg, keep = np.insert(g, pos, e), np.insert(np.ones(n, bool), pos, False)
        c, p1, h, o1 = calibrate(d + '/b', gg, nmag, ref, None, over, zreds=fill)
        bad = []
        if not inside:
            x = same(p0, p1, p0.dtype.names)
            if x:
                bad.append('%s depend on galaxies with %s' % (x, kind))
            if o1.size != n or not np.array_equal(o1['mag'], g['MAG']):
                bad.append('%d galaxies written, %d were to be used' % (o1.size, n))
        else:
            x = same(p0, p1, MED)
            if kind == 'p above color cut':
                if not x:
                    bad.append('medians ignore galaxies with %s' % kind)
            elif x:
                bad.append('%s depend on galaxies with %s' % (x, kind))
            if not same(p0, p1, ('c00', 'slope00')):
                bad.append('colors ignore galaxies with %s' % kind)
            if o1.size != gg.size:
                bad.append('%d galaxies written, %d were to be used' % (o1.size, gg.size))
        return bad, (kind, where), True
    finally:
        shutil.rmtree(d)


def run_probs(case):
    """pcol and p play the same role, whichever is used."""
    nmag, ref = case
    d = rm.workdir('c31')
    try:
        g = sample(nmag, ref, 400)
        g['P'] = 0.55 + 0.44 * seq(400, 1)[:, 0]
        g['PCOL'] = 0.01
        w = g.copy()
        w['P'], w['PCOL'] = g['PCOL'], g['P']
        over = {'calib_pcut': 0.5, 'calib_color_pcut': 0.7}
        fill, _ = redshifts('bend')
        p = [calibrate(d + '/%d' % i, x, nmag, ref, None, dict(over, calib_use_pcol=bool(i)), zreds=fill)[1] for i, x in enumerate((g, w))]
        x = same(p[0], p[1], p[0].dtype.names)
        return (['%s differ between p and pcol' % x] if x else []), (nmag, ref), True
    finally:
        shutil.rmtree(d)


def run_order(case):
    """The order of the galaxies does not matter (up to the tolerance of the fits)."""
    nmag, ref, how = case
    d = rm.workdir('c31')
    try:
        g = sample(nmag, ref, 500)
        i = np.arange(500)
        i = {'reversed': i[::-1], 'by redshift': np.argsort(g['Z']), 'by magnitude': np.argsort(-g['REFMAG'])}[how]
        fill, _ = redshifts('tilt')
        p = [calibrate(d + '/%d' % k, x, nmag, ref, None, None, zreds=fill)[1] for k, x in enumerate((g, g[i]))]
        bad = ['%s depends on the order of the galaxies: %s %s' % (n, p[0][n], p[1][n]) for n in p[0].dtype.names
               if not np.allclose(p[0][n], p[1][n], atol=0.1 if n == 'pivotmag' else 0.08 * np.max(np.abs(p[0][n])) if 'corr' in n and n.endswith('_r') else 0.006, rtol=0.01)]
        return bad[:3], case, True
    finally:
        shutil.rmtree(d)


def run_corr(case):
    """The corrections remove the bias of the zreds."""
    kind, tilt, width, noslope, pcol = case
    d = rm.workdir('c31')
    try:
        g = sample(2, 0, 1500)
        fill, _ = redshifts(kind, tilt, width)
        c, p, h, o = calibrate(d, g, 2, 0, None, {'calib_corr_nocorrslope': noslope, 'calib_use_pcol': pcol}, zreds=fill)
        bad = []
        dev = {}
        z = p['corr_z'].astype('f8')
        dev['corr'] = np.max(np.abs(p['corr'] - bias(z, kind)))
        m = (z > 0.13) & (z < 0.27)
        zr = np.linspace(0.05, 0.35, 3001)
        inv = np.interp(z, zr - bias(zr, kind), zr)             # redshift of this zred
        dev['corr2'] = np.max(np.abs(p['corr2'] - (inv - z))[m])
        dev['r'] = np.max(np.abs(np.log(p['corr_r'] / width)))
        if noslope:
            if np.any(p['corr_slope']) or np.any(p['corr2_slope']):
                bad.append('slopes %s %s that were not asked for' % (p['corr_slope'], p['corr2_slope']))
        else:
            dev['slope'] = np.max(np.abs(p['corr_slope'] - tilt))
        lim = {'corr': 0.0025, 'corr2': 0.004, 'r': 0.3, 'slope': 0.003}
        if os.environ.get('C31_SHOW'):
            print(case, {k: round(float(v), 4) for k, v in dev.items()}, p['corr2_slope'], flush=True)
        for k, v in dev.items():
            if not v <= lim[k]:
                bad.append('%s is off by %.4f: %s %s %s' % (k, v, p['corr'], p['corr2'], p['corr_r']))
        return bad[:3], case, True
    finally:
        shutil.rmtree(d)


def run_outlier(case):
    """Galaxies far from their redshift, and the least likely ones, do not move the corrections."""
    what = case
    d = rm.workdir('c31')
    try:
        n = 1000
        g = sample(2, 0, n)
        out = []
        for move in (0.0, 0.03, -0.02):
            def lows(gals, zr, l, order):
                bad = order % 25 == 3
                if what == 'far':
                    zr[bad] = gals.z[bad] + np.where(order[bad] % 2, 1, -1) * (0.041 + abs(move))
                else:
                    l[bad] = -10.0 - order[bad]
                    zr[bad] = gals.z[bad] - bias(gals.z[bad], 'tilt') + move
            fill, _ = redshifts('tilt', lows=lows)
            c, p, h, o = calibrate(d + '/%s' % move, g, 2, 0, None, {}, zreds=fill)
            out.append(p)
        bad = []
        for q in out[1:]:
            for k in ('corr', 'corr_r', 'corr2_r', 'corr2', 'corr_slope'):
                if not np.allclose(q[k], out[0][k], atol=3e-4 if not k.endswith('_r') else 0.03):
                    bad.append('%s follows galaxies that are %s: %s %s' % (k, what, q[k], out[0][k]))
        return bad[:3], what, True
    finally:
        shutil.rmtree(d)


def run_real(case):
    """With the real zreds: those of the galaxies written are unbiased and come with the corrections."""
    nmag, ref = case
    d = rm.workdir('c31')
    try:
        g = sample(nmag, ref, 800)
        c, p, h, o = calibrate(d, g, nmag, ref)
        from redmapper.redsequence import RedSequenceColorPar
        from redmapper.zred_color import ZredColor
        from redmapper.galaxy import GalaxyCatalog
        bad = []
        dz = o['zred'] - o['z']
        dz2 = o['zred2'] - o['z']
        if os.environ.get('C31_SHOW'):
            print(case, np.median(dz), np.median(dz2), np.median(np.abs(dz)) * 1.48, np.median(o['zred_e']), flush=True)
        if not abs(np.median(dz)) < 0.015 or not abs(np.median(dz2)) < 0.015:
            bad.append('zreds are biased by %.4f, %.4f' % (np.median(dz), np.median(dz2)))
        gals = GalaxyCatalog(g.copy())
        gals.add_zred_fields(c.zred_nsamp)
        np.random.seed(5)
        ZredColor(RedSequenceColorPar(d + '/pars.fit'), do_correction=True).compute_zreds(gals)
        for n in ('zred', 'zred_e', 'zred2', 'zred2_e', 'lkhd', 'chisq', 'zred_uncorr'):
            if not np.allclose(o[n], gals._ndarray[n], atol=2e-5, equal_nan=True):
                bad.append('%s of the galaxies written is not that of the parameters' % n)
        return bad, case, True
    finally:
        shutil.rmtree(d)


def run_refuse(case):
    d = rm.workdir('c31')
    try:
        g = sample(3, 1, 200)
        over = {}
        if case == 'no probability':
            g['PCOL'] = 0.01
        elif case == 'no redshift':
            g['Z'] = 0.5
        try:
            if case == 'no background':
                global background
                keep = background

                def background(path, nmag):
                    keep(path, nmag - 1)
                try:
                    calibrate(d, g, 3, 1, None, over)
                finally:
                    background = keep
            else:
                calibrate(d, g, 3, 1, None, over)
        except (RuntimeError, KeyError, ValueError):
            return (['refused, but there are parameters'] if os.path.exists(d + '/pars.fit') else []), case, True
        return ['calibrated with %s' % case], case, True
    finally:
        shutil.rmtree(d)


def body(check):
    import matplotlib
    matplotlib.use('Agg')
    import redmapper                                            # noqa
    t = check.thorough
    model = [[m, r, l, None, tp, n] for m in (2, 3, 4, 5) for r in range(m) for l in (0, 1) for tp, n in (((0, 1201),) if not t else ((0, 1201), (1, 1202), (0, 2000)))]
    # the ratios of bands redder than the reference band by two or more suffer from a known finding of C28
    model += [[m, r, 0, k, 0, 1500] for m, r in ((2, 0), (2, 1), (3, 1), (3, 2), (4, 2), (5, 4)) for k in ([1.0, 0.0], [1.6, 0.0], [1.3, 0.3])] + [[3, 1, 0, None, 1, 1202], [5, 2, 0, None, 1, 1202]]
    check.run_cases(model, run_model, 'galaxies of a known model', chunk=1)
    kinds = ('z at lower', 'z below', 'z above', 'z at upper', 'p at cut', 'p below', 'p above', 'p at color cut', 'p below color cut', 'p above color cut')
    check.run_cases([[k, w, pc] for k in kinds for w in ('first', 'last', 'between') for pc in (True, False) if t or pc or w == 'first'], run_cuts, 'cuts', chunk=1)
    check.run_cases([[m, r] for m in (2, 3) for r in range(m)], run_probs, 'p and pcol', chunk=1)
    check.run_cases([[m, r, h] for m, r in ((2, 1), (3, 1), (3, 0)) for h in ('reversed', 'by redshift', 'by magnitude')], run_order, 'order', chunk=1)
    check.run_cases([[k, tl, w, ns, True] for k in ('none', 'flat', 'tilt', 'bend') for tl in (0.0, 0.004) for w in ((0.3, 0.5) if t else (0.4,)) for ns in (True, False) if tl == 0.0 or not ns] + [['tilt', 0.0, 0.4, True, False]], run_corr, 'corrections', chunk=1)
    check.run_cases(['far', 'unlikely'], run_outlier, 'outliers', chunk=1)
    check.run_cases([[3, 1], [4, 2]] + ([[5, 3], [4, 0]] if t else []), run_real, 'zreds', chunk=1)
    check.run_cases(['no probability', 'no redshift', 'no background'], run_refuse, 'refused', chunk=1)


if __name__ == '__main__':
    core.main('C31', 'exploration',
              'galaxies of a known red sequence for every number of bands and reference band, with and without luptitudes, error ratios and template; every kind of galaxy just outside or inside of every cut at every place of the table; '
              'known biases, slopes and widths of the zreds', body)
