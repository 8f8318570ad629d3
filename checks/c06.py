"""C06: photometric redshifts of galaxies: definition, and independence of batching, order and process count."""
import itertools
import os
import shutil

import numpy as np

from mc import build, core, rm, sched
from mc import gals as G

_S = {}
NSAMP = 4
COLS = ('zred', 'zred_e', 'zred2', 'zred2_e', 'zred_uncorr', 'zred_uncorr_e', 'lkhd', 'chisq')


MODEL = list(itertools.product((0.07, 0.1, 0.15, 0.21, 0.3, 0.4, 0.48), (-0.8, 0.0, 0.9)))


def parfiles():
    """The test parameters, and a variant with sizeable corrections and magnitude slopes of the corrections."""
    import fitsio
    pf = os.path.join(build.DATA, 'test_dr8_pars.fit')
    d = fitsio.read(pf, ext=1, upper=True)
    hdr = fitsio.read_header(pf, ext=1)
    e = d.copy()
    def put(name, fn):
        e[name][0] = fn(np.arange(e[name].shape[1]))
    put('CORR', lambda x: 0.02 * np.cos(x * 0.9))
    put('CORR_SLOPE', lambda x: 0.004 * (1 + x % 3))
    put('CORR_R', lambda x: 1.2 + 0.05 * x)
    put('CORR2', lambda x: 0.015 * np.sin(x + 1.0))
    put('CORR2_SLOPE', lambda x: -0.005 * (1 + x % 2))
    put('CORR2_R', lambda x: 0.8 + 0.05 * x)
    p2 = os.path.join(build.scratch(), 'c06pars.fit')
    fitsio.write(p2, e, header=hdr, clobber=True)
    return {'plain': pf, 'corr': p2}


def model_gal(par, z, refmag, row):
    """A galaxy lying exactly on the red sequence at grid redshift z."""
    iz = int(np.argmin(np.abs(par.z - z)))
    col = par.c[iz] + par.slope[iz] * (refmag - par.pivotmag[iz]) + par.lupcorr[par.refmagindex(refmag), iz]
    row = row.copy()
    row['refmag'] = refmag
    row['mag'][3] = refmag
    for j in (2, 1, 0):
        row['mag'][j] = row['mag'][j + 1] + col[j]
    row['mag'][4] = row['mag'][3] - col[3]
    row['mag_err'] = 0.02
    row['refmag_err'] = 0.02
    return row


def setup():
    from redmapper import GalaxyCatalog, RedSequenceColorPar, ZredColor
    _S['pf'] = parfiles()
    src = GalaxyCatalog.from_galfile(os.path.join(build.DATA, 'pixelized_dr8_test', 'dr8_test_galaxies_master_table.fit'))
    raw = src._ndarray
    par = RedSequenceColorPar(_S['pf']['plain'])
    real = raw[::max(1, raw.size // 110)].copy()
    mod = []
    for z, m in MODEL:
        mod.append(model_gal(par, z, par.mstar(z) + m, raw[0]))
    mod = np.array(mod)
    odd = raw[:6].copy()
    odd['refmag'] = [30.0, 9.0, 24.5, 10.0, 12.5, 22.0]      # out of the magnitude range of the model, or nearly
    odd2 = raw[6:10].copy()
    odd2['mag'][:, 0] += [8.0, -8.0, 3.0, 0.0]               # colors far off the red sequence
    odd2['mag'][3] += 5.0
    allg = np.concatenate([real, mod, odd, odd2])
    allg['id'] = np.arange(allg.size) + 1
    _S['gals'] = allg
    _S['model'] = {len(real) + k: z for k, (z, m) in enumerate(MODEL)}
    _S['zc'] = {}
    _S['bulk'] = {}
    for k, f in _S['pf'].items():
        for corr in (True, False):
            _S['zc'][k, corr] = ZredColor(RedSequenceColorPar(f), do_correction=corr)
            c = cat_of(np.arange(allg.size))
            _S['zc'][k, corr].compute_zreds(c)
            _S['bulk'][k, corr] = c


def cat_of(idx):
    from redmapper import GalaxyCatalog
    c = GalaxyCatalog(_S['gals'][np.asarray(idx)].copy())
    c.add_zred_fields(NSAMP)
    return c


def interp(y, x, v):
    """Linear interpolation with linear extrapolation."""
    i = int(np.clip(np.searchsorted(x, v) - 1, 0, x.size - 2))
    return y[i] + (y[i + 1] - y[i]) * (v - x[i]) / (x[i + 1] - x[i])


def reference(zc, g, corr):
    """zred of one galaxy from the definition; None when it has none."""
    p = zc.zredstr
    nz = p.z.size - 1
    lim = np.where((g['refmag'] < p.maxrefmag) & (g['refmag'] > p.minrefmag) & (p.z < 100.0))[0]
    if lim.size < 2:
        return None
    lo, hi = max(lim[0] - 10, 0), min(lim[-1] + 10, nz)
    zb = np.arange(lo, hi)
    from redmapper import GalaxyCatalog
    gc = GalaxyCatalog(np.array([g]))
    chi = np.array([float(np.atleast_1d(p.calculate_chisq(gc, int(i), z_is_index=True))[0]) for i in zb])
    dm = p._mstar[zb] - float(g['refmag'])
    with np.errstate(all='ignore'):
        ln = -0.5 * chi + np.log(10. ** (0.4 * (p.alpha + 1.0) * dm) * np.exp(-10. ** (0.4 * dm)) * p.volume_factor[zb])
    ok = np.isfinite(ln)
    if not ok.any():
        return 'odd'
    ln = np.where(ok, ln, -1e11)
    z = p.z[zb].astype('f8')
    w = np.exp(ln - ln.max())
    u = w > 1e-5
    if u.sum() < 3 or ln.max() < -1e9:
        return 'odd'
    zz, ww = z[u], w[u]

    def integ(y):
        return np.sum(0.5 * (y[1:] + y[:-1]) * np.diff(zz))
    t = integ(ww)
    mean = integ(ww * zz) / t
    var = integ(ww * zz ** 2) / t - mean ** 2
    err = max(0.005, np.sqrt(var) if var >= 0 else 1.0)
    # peak among the non-extrapolated redshifts
    ne = ~p.extrapolated[zb]
    k = int(np.where(ne)[0][np.argmax(w[ne])])
    use = np.where(ln > -1e10)[0]
    zr, alt = mean, None
    interior = use.min() < k - 2 and k + 2 < use.max() and use.size >= 5
    if interior:
        a, b, _ = np.polyfit(z[k - 2:k + 3] - z[k], ln[k - 2:k + 3], 2)
        if a < 0:
            t0 = z[k] - b / (2 * a)
            if abs(abs(t0 - mean) - 2 * err) < 1e-3:
                alt = t0
            if abs(t0 - mean) < 2 * err:
                zr = t0
    out = {'u': zr, 'alt': alt, 'ue': err, 'peak': z[k], 'interior': interior, 'chi': chi, 'zb': zb, 'z': z, 'ln': ln, 'used': u}
    return out


def check_one(zc, g, r, corr, label):
    """Problems of the results r (dict) of galaxy g."""
    ref = reference(zc, g, corr)
    p = zc.zredstr
    bad = []
    isbad = all(r[c] == -1.0 for c in COLS if c != 'lkhd') and r['lkhd'] == -1000.0
    if ref is None:
        if not isbad:
            bad.append('%s: a galaxy outside the magnitude range of the model has zred %s' % (label, r))
        return bad, 'none'
    if ref == 'odd':
        return bad, 'odd'
    if isbad:
        return ['%s: no zred for a galaxy of magnitude %s' % (label, g['refmag'])], 'lost'
    u, ue = r['zred_uncorr'], r['zred_uncorr_e']
    tol = 2e-4
    if abs(ue - ref['ue']) > 1e-3 * ref['ue'] + 1e-5:
        bad.append('%s: zred error %s, expected %s' % (label, ue, ref['ue']))
    if ref['interior']:
        if abs(u - ref['u']) > tol and not (ref['alt'] is not None and abs(u - ref['alt']) <= tol):
            bad.append('%s: uncorrected zred %s, expected %s' % (label, u, ref['u']))
    elif abs(u - ref['u']) > 2.5 * ref['ue'] + 0.02:
        bad.append('%s: uncorrected zred %s, expected about %s' % (label, u, ref['u']))
    # chi-squared of the nearest grid redshift; likelihood averaged around the zred
    i = int(np.argmin(np.abs(ref['z'] - u)))
    near = [ref['chi'][j] for j in (i - 1, i, i + 1) if 0 <= j < ref['z'].size and abs(abs(ref['z'][j] - u) - abs(ref['z'][i] - u)) < 1e-5]
    if not any(abs(r['chisq'] - c) <= 1e-3 * abs(c) + 1e-3 for c in near) and \
            int(np.argmin(np.abs(p.z - u))) in ref['zb']:
        bad.append('%s: chisq %s, expected %s (at the grid redshift nearest to the zred)' % (label, r['chisq'], near))
    x = (ref['z'] - u) / ue
    nd = np.exp(-0.5 * x * x) * (ref['ln'] > -1e10)
    zz, a, l = ref['z'][ref['used']], nd[ref['used']], ref['ln'][ref['used']]
    s = lambda y: np.sum(0.5 * (y[1:] + y[:-1]) * np.diff(zz))    # noqa
    lk = s(a * l) / s(a)
    if abs(lk - r['lkhd']) > 1e-3 * abs(lk) + 5e-3:
        bad.append('%s: likelihood %s, expected %s' % (label, r['lkhd'], lk))
    if not corr:
        if not (abs(r['zred'] - u) < 1e-6 and abs(r['zred2'] - u) < 1e-6 and abs(r['zred_e'] - ue) < 1e-6 and abs(r['zred2_e'] - ue) < 1e-6):
            bad.append('%s: corrections applied although switched off' % label)
        return bad, 'plain'
    dm = float(g['refmag']) - interp(p.pivotmag, p.z, u)
    dz = interp(p.corr, p.z, r['zred']) + dm * interp(p.corr_slope, p.z, r['zred'])
    if abs(r['zred'] - u - dz) > 1.5e-3:
        bad.append('%s: zred %s is not the uncorrected %s plus its correction %s' % (label, r['zred'], u, dz))
    f = interp(p.corr_r, p.z, r['zred'])
    if abs(r['zred_e'] - ue * f) > 1e-4 * ue + 1e-5:
        bad.append('%s: zred_e %s, expected %s' % (label, r['zred_e'], ue * f))
    z2 = u + interp(p.corr2, p.z, u) + dm * interp(p.corr2_slope, p.z, u)
    if abs(z2 - r['zred2']) > 1e-4:
        bad.append('%s: zred2 %s, expected %s' % (label, r['zred2'], z2))
    e2 = ue * interp(p.corr2_r, p.z, u)
    if abs(e2 - r['zred2_e']) > 1e-4 * ue + 1e-5:
        bad.append('%s: zred2_e %s, expected %s' % (label, r['zred2_e'], e2))
    return bad, 'corr'


def row(c, i):
    return {k: float(np.atleast_1d(getattr(c, k))[i]) for k in COLS}


def run_gal(case):
    k, corr, i = case
    zc = _S['zc'][k, corr]
    g = _S['gals'][i]
    bad, out = check_one(zc, g, row(_S['bulk'][k, corr], i), corr, 'in bulk')
    c = cat_of([i])
    before = c._ndarray.copy()
    zc.compute_zred(c[0])
    b2, _ = check_one(zc, g, row(c, 0), corr, 'alone')
    bad += b2
    for n in ('id', 'ra', 'dec', 'refmag', 'refmag_err', 'mag', 'mag_err'):
        if not np.array_equal(before[n], c._ndarray[n]):
            bad.append('column %s was modified' % n)
    if out in ('plain', 'corr'):
        for cc, j in ((c, 0), (_S['bulk'][k, corr], i)):
            s = np.atleast_2d(cc.zred_samp)[j]
            if not np.all(np.isfinite(s)) or s.min() < zc.zredstr.z[0] - 1e-3 or s.max() > zc.zredstr.z[-2] + 1e-3:
                bad.append('samples %s outside the redshift range' % s)
    if i in _S['model'] and abs(row(_S['bulk'][k, corr], i)['zred_uncorr'] - _S['model'][i]) > 0.02:
        bad.append('a galaxy on the red sequence at z=%s gets zred %s' % (_S['model'][i], row(c, 0)))
    return bad, (k, corr, out), out != 'odd'


def rows_equal(got, k, corr, idx, what):
    """Rows of a catalog/array equal to those of the whole-catalog run, up to the number of correction iterations."""
    bulk = _S['bulk'][k, corr]
    bad = []
    for c in COLS:
        g = np.asarray(got[c] if isinstance(got, np.ndarray) else getattr(got, c), 'f8')
        w = np.asarray(getattr(bulk, c), 'f8')[np.asarray(idx, dtype=int)]
        if g.shape != w.shape:
            return ['%s: %d rows, expected %d' % (what, g.size, w.size)]
        if not np.allclose(g, w, rtol=1e-5, atol=1e-6):
            j = int(np.argmax(np.abs(g - w)))
            bad.append('%s: %s of galaxy %d is %s, in the whole catalog %s' % (what, c, idx[j], g[j], w[j]))
    return bad[:2]


def run_batch(case):
    k, idx = case
    c = cat_of(idx)
    _S['zc'][k, True].compute_zreds(c)
    bad = rows_equal(c, k, True, idx, 'batch of %d' % len(idx))
    # again on the same catalog
    _S['zc'][k, True].compute_zreds(c)
    bad += rows_equal(c, k, True, idx, 'second run')
    return bad, (k, len(idx)), len(idx) > 1


def workdir():
    d = os.path.join(build.scratch(), 'c06', str(os.getpid()))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


SPECIAL = None


def subset(n):
    """n galaxies, good and bad mixed."""
    N = _S['gals'].size
    pick = [3, N - 10, 40, 77, N - 9, 9, 101, 60, 5]
    return pick[:n]


def run_catalog(case):
    """ZredRunCatalog: any division of the file into ranges."""
    import fitsio
    from redmapper import Configuration
    from redmapper.zred_runner import ZredRunCatalog
    k, n, nproc, nper, maxper, order = case
    d = workdir()
    idx = subset(n)
    fitsio.write(d + '/in.fit', _S['gals'][idx], clobber=True)
    cf = rm.write_config(d + '/c.yml', parfile=_S['pf'][k], zred_nsamp=NSAMP, calib_nproc=nproc)
    conf = rm.quiet(Configuration(cf))
    if order != 'real':
        sched.serial_pools(order)
    kw = {}
    if nper is not None:
        kw['nperproc'] = nper
    if maxper is not None:
        kw['maxperproc'] = maxper
    ZredRunCatalog(conf).run(d + '/in.fit', d + '/out.fit', **kw)
    z = fitsio.read(d + '/out.fit', ext=1, lower=True)
    bad = rows_equal(z, k, True, idx, 'n=%d nproc=%d nperproc=%s maxperproc=%s' % (n, nproc, nper, maxper))
    if not bad and z['zred_samp'].shape != (n, NSAMP):
        bad.append('zred_samp shape %s' % (z['zred_samp'].shape,))
    for i in range(n):
        if not bad and z['chisq'][i] >= 0 and not np.all(z['zred_samp'][i] > 0):
            bad.append('row %d has no samples' % i)
    shutil.rmtree(d, ignore_errors=True)
    return bad, (k, n, nproc, nper, maxper), n > 1


NF = (200, 201, 330, 700)


def run_pixels(case):
    """ZredRunPixels over whole or part of a pixelized catalog."""
    import fitsio
    import hpgeom as hpg
    from redmapper import Configuration, GalaxyCatalog, GalaxyCatalogMaker
    from redmapper.zred_runner import ZredRunPixels
    k, npix, single, region, order, mk = case
    d = workdir()
    pix = NF[:npix]
    idx, ra, dec = [], [], []
    for j, p in enumerate(pix):
        m = 1 + j
        r, dd = G.pix_positions(8, p, m, salt=j)
        ra += r.tolist()
        dec += dd.tolist()
        idx += [(7 * j + 13 * t) % _S['gals'].size for t in range(m - 1)] + [_S['gals'].size - 10 + j]
    src = _S['gals'][idx]
    g = np.zeros(len(idx), dtype=GalaxyCatalogMaker.get_galaxy_dtype(5))
    for f in ('refmag', 'refmag_err', 'mag', 'mag_err', 'ebv'):
        g[f] = src[f]
    g['refmag'] = np.clip(g['refmag'], 10.0, 20.9)
    g['id'] = np.arange(len(idx)) + 1
    g['ra'], g['dec'] = ra, dec
    out = d + '/my_cat'
    GalaxyCatalogMaker(out, G.INFO, nside=8).split_galaxies(g)
    zd = d + '/z'
    if mk:
        os.makedirs(zd)
    over = {}
    want = list(pix)
    if region == 'first':
        over = dict(hpix=[int(pix[0])], nside=8, border=0.0)
        want = [pix[0]]
    elif region == 'coarse':
        cp = int(hpg.nest_to_ring(4, hpg.ring_to_nest(8, pix[-1]) // 4))
        over = dict(hpix=[cp], nside=4, border=0.0)
        want = [p for p in pix if int(hpg.nest_to_ring(4, hpg.ring_to_nest(8, p) // 4)) == cp]
    else:
        over = dict(hpix=[], nside=0, border=0.0)
    cf = rm.write_config(d + '/c.yml', parfile=_S['pf'][k], zred_nsamp=NSAMP, calib_nproc=2, galfile=out + '_master_table.fit',
                         zredfile=zd + '/my_zreds_master_table.fit', **over)
    conf = rm.quiet(Configuration(cf))
    if order != 'real':
        sched.serial_pools(order)
    ZredRunPixels(conf).run(single_process=single)
    bad = []
    t = fitsio.read(zd + '/my_zreds_master_table.fit', ext=1, lower=True)
    hp = np.atleast_1d(t['hpix'][0]).tolist()
    names = [str(x.decode() if isinstance(x, bytes) else x).strip() for x in np.atleast_1d(t['filenames'][0])]
    ng = np.atleast_1d(t['ngals'][0]).tolist()
    files = sorted(f for f in os.listdir(zd) if 'master' not in f)
    if files != sorted('my_zreds_%07d.fit' % p for p in want):
        bad.append('files %s for pixels %s' % (files, want))
    for p, nme, n in zip(hp, names, ng):
        c = GalaxyCatalog.from_galfile(out + '_master_table.fit', nside=8, hpix=[p])
        if p not in want:
            if nme or n:
                bad.append('table claims zreds of pixel %d which was not run' % p)
            continue
        if nme != 'my_zreds_%07d.fit' % p or n != c.size:
            bad.append('table entry of pixel %d is %r, %d' % (p, nme, n))
            continue
        c.add_zred_fields(NSAMP)
        _S['zc'][k, True].compute_zreds(c)
        z = fitsio.read(zd + '/' + nme, ext=1, lower=True)
        for col in COLS:
            if z.size != c.size or not np.allclose(z[col], getattr(c, col), rtol=1e-5, atol=1e-6):
                bad.append('pixel %d: %s differs from a direct computation' % (p, col))
                break
    if region == 'all' and not bad:
        c = GalaxyCatalog.from_galfile(out + '_master_table.fit', zredfile=zd + '/my_zreds_master_table.fit')
        if c.size != g.size or not np.all(np.isin(g['id'], c.id)) or not np.any(c.zred != 0):
            bad.append('catalog with zreds has %d of %d galaxies' % (c.size, g.size))
    shutil.rmtree(d, ignore_errors=True)
    return bad, (k, npix, single, region), True


def body(check):
    setup()
    th = check.thorough
    n = _S['gals'].size
    check.run_cases([[k, c, i] for k in ('plain', 'corr') for c in (True, False) for i in range(n)], run_gal, 'galaxies')
    five = [3, n - 10, 40, n - 9, 101] + ([n - 3] if th else [])
    perms = [list(p) for r in range(1, len(five) + 1) for p in itertools.permutations(five, r)]
    check.run_cases([[k, p] for k in ('plain', 'corr') for p in perms], run_batch, 'batches')
    cases = []
    for k in ('plain', 'corr'):
        for m in range(1, 8):
            for nproc in (1, 2, 3, 4):
                for nper, maxper in [(None, None), (None, 1), (None, 2), (1, None), (2, None), (3, None), (m, None), (m + 2, None)]:
                    for order in ('forward', 'reverse', 'oddeven') if th or k == 'corr' else ('reverse',):
                        cases.append([k, m, nproc, nper, maxper, order])
    check.run_cases(cases, run_catalog, 'catalog runs')
    # real worker pools (the enumeration above is in-process)
    check.run_cases([['corr', m, nproc, None, None, 'real'] for m in (1, 2, 5, 9) for nproc in (1, 2, 3, 8)], run_catalog, 'real pools', nproc=1)
    cases = [[k, m, s, r, o, mk] for k in ('plain', 'corr') for m in (1, 2, 3, 4) for s in (False, True)
             for r in ('all', 'first', 'coarse') for o in ('forward', 'reverse') for mk in (False, True)]
    check.run_cases(cases, run_pixels, 'pixel runs')
    check.run_cases([['corr', m, s, 'all', 'real', False] for m in (1, 4) for s in (False, True)], run_pixels, 'real pixel pools', nproc=1)


if __name__ == '__main__':
    core.main('C06', 'exploration',
              'Every galaxy of a fixed set (real, on the model, out of range) alone and in bulk against an independent '
              'evaluation of the definition; all ordered subsets of 5 galaxies as batches; all divisions of catalogs of '
              '1-7 galaxies by process count, size per process and completion order. Non-trivial: more than one galaxy.', body)
