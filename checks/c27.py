"""C27: the samples of a calibration are exactly the galaxies and clusters that the configuration asks for."""
import itertools
import os
import shutil
import sys

import fitsio
import numpy as np

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import build, core, gals, rm   # noqa: E402

_S = {}


def same(a, b):
    return np.array_equal(np.asarray(a), np.asarray(b))


def diff_rows(what, got, exp, names, bad):
    """got and exp: tables; the same rows (as a multiset) in every column of names."""
    low = {n.lower(): n for n in got.dtype.names}
    missing = [n for n in names if n not in low]
    if missing:
        bad.append('%s: the columns %s are missing' % (what, ', '.join(missing)))
        return
    if got.size != exp.size:
        bad.append('%s: %d rows, %d expected' % (what, got.size, exp.size))

    def rows(a, nm):
        cols = [np.asarray(a[nm[n]]).astype(exp[n].dtype.newbyteorder('=')).reshape(a.size, -1) for n in names]
        return sorted(tuple(tuple(c[i].tolist()) for c in cols) for i in range(a.size))
    g, e = rows(got, low), rows(exp, {n: n for n in names})
    if g != e:
        extra = [x for x in g if x not in set(e)][:1]
        lost = [x for x in e if x not in set(g)][:1]
        t = []
        if lost:
            t.append('missing %s' % dict(zip(names, lost[0])))
        if extra:
            t.append('unexpected %s' % dict(zip(names, extra[0])))
        bad.append('%s: %s' % (what, '; '.join(t) or 'rows repeated or lost'))


# ------------------------------------------------------------------- members for the next iteration
CD = [('MEM_MATCH_ID', 'i4'), ('RA', 'f8'), ('DEC', 'f8'), ('LAMBDA', 'f4'), ('SCALEVAL', 'f4'), ('Z_LAMBDA', 'f4'), ('Z_LAMBDA_E', 'f4'), ('Z_INIT', 'f4'), ('CG_SPEC_Z', 'f4')]
MD = [('MEM_MATCH_ID', 'i4'), ('ID', 'i8'), ('RA', 'f8'), ('DEC', 'f8'), ('R', 'f4'), ('P', 'f4'), ('PCOL', 'f4'), ('THETA_I', 'f4'), ('THETA_R', 'f4'), ('MAG', 'f4', 5), ('MAG_ERR', 'f4', 5),
      ('REFMAG', 'f4'), ('REFMAG_ERR', 'f4'), ('EBV', 'f4')]
OUT = ['z', 'z_lambda', 'p', 'pcol', 'central', 'ra', 'dec', 'mag', 'mag_err', 'refmag', 'refmag_err', 'ebv']

# (Lambda, scaleval)
RICH = [(7.5, 1.0), (8.0, 1.0), (8.25, 1.0), (16.0, 2.0), (16.5, 2.0), (12.0, 2.0), (6.0, 0.5), (20.0, 0.0), (0.0, 0.0), (-20.0, -1.0), (20.0, -1.0), (5.0, 0.5), (4.0, 0.5)]
# offsets of the reference redshift, in units of 1/64
DZ = [0, 1, 2, 3, 4, 8, -2, -3, -4, -8]


def clusters(kind):
    if kind == 'all':
        rows = list(itertools.product(RICH, DZ, (0.25, 0.5), (0.0, 1 / 64., 1 / 32.)))
    else:
        rows = [((9.0 + k, 1.0), 0, 0.25 + 0.125 * k, 1 / 64.) for k in range(4)]
    a = np.zeros(len(rows), dtype=CD)
    for i, ((lam, sc), dz, z, e) in enumerate(rows):
        a[i] = (0, 10.0 + 0.01 * i, 5.0, lam, sc, z, e, z + dz / 64., z - dz / 128.)
    # identifiers neither sorted nor dense
    a['MEM_MATCH_ID'] = (np.arange(a.size) * 7919 + 13) % 100003
    return a


PV = (0.125, 0.25, 0.375, 0.5, 0.625, 1.0)


def members(cat, kind):
    """Members of the clusters (and of one that is not in the catalog)."""
    if kind == 'all':
        lat = [(p, i, r, c, rad) for p in PV for i, r in ((1.0, 1.0), (0.5, 1.0), (1.0, 0.5), (0.5, 0.5), (0.0, 1.0), (1.0, 0.0)) for c in (0.0, 0.25, 0.5, 0.625) for rad in (0.0,)]
        lat += [(0.75, 1.0, 1.0, 0.9, rad) for rad in (0.0, 5e-5, 9.9e-5, 2e-4, 0.01, 0.5)]
    else:
        lat = [(0.75, 1.0, 1.0, 0.75, 0.0), (0.75, 0.5, 1.0, 0.625, 0.3)]
    ids = np.append(cat['MEM_MATCH_ID'], 999999)
    if kind == 'all':
        # the full lattice of members for three clusters, a few for every other one
        per = [(m, x) for k, m in enumerate(ids) for x in (lat if k % 131 == 21 else lat[(k % 5):: 37] + lat[-6:])]
    else:
        per = [(m, x) for m in ids for x in lat]
    a = np.zeros(len(per), dtype=MD)
    i = np.arange(a.size)
    a['MEM_MATCH_ID'] = [m for m, _ in per]
    a['P'], a['THETA_I'], a['THETA_R'], a['PCOL'], a['R'] = np.array([x for _, x in per], dtype='f4').T
    a['ID'] = 5000 + i
    a['RA'] = 10.0 + 0.001 * i
    a['DEC'] = 5.0 + 0.0005 * (i % 101)
    for b in range(5):
        a['MAG'][:, b] = 20.0 - 0.5 * b + 0.001 * (i % 997)
        a['MAG_ERR'][:, b] = 0.01 * (b + 1) + 0.0001 * (i % 89)
    a['REFMAG'] = 18.0 + 0.001 * (i % 983)
    a['REFMAG_ERR'] = 0.01 + 0.0001 * (i % 79)
    a['EBV'] = 0.001 * (i % 71)
    return a


def config(d, **over):
    from redmapper import Configuration
    kw = dict(outbase='sam', outpath=d, printlogging=False)
    kw.update(over)
    return rm.quiet(Configuration(rm.write_config(os.path.join(d, 'c.yaml'), **kw)))


def run_members(case):
    from redmapper.calibration import PrepMembers
    mode, kind, minlam, pcut, nsig, smooth, order = case
    d = rm.workdir('c27')
    bad = []
    try:
        cat = clusters(kind)
        mem = members(cat, kind)
        if isinstance(order, (list, tuple)):
            cat = cat[list(order)]
        elif order == 'reversed':
            cat, mem = cat[::-1].copy(), mem[::-1].copy()
        elif order == 'mixed':
            st = np.argsort(mem['REFMAG'] * 1000 % 17, kind='stable')
            mem = mem[st]
        catfile = os.path.join(d, 'cat.fit')
        fitsio.write(catfile, cat)
        fitsio.write(os.path.join(d, 'cat_members.fit'), mem)
        conf = config(d, calib_minlambda=minlam, calib_pcut=pcut, calib_zlambda_clean_nsig=nsig, calib_smooth=smooth)
        conf.catfile = catfile
        conf.zmemfile = os.path.join(d, 'zmem.fit')
        try:
            PrepMembers(conf).run(mode)
        except RuntimeError as e:
            if mode in ('z_init', 'cg'):
                return ['mode %s refused: %s' % (mode, e)], 'refused', True
            if os.path.exists(conf.zmemfile):
                bad.append('members written in the unknown mode %r' % mode)
            return bad, 'refused', True
        except Exception as e:
            return [core.exc_problem(e)], 'raised', True
        if mode not in ('z_init', 'cg'):
            return ['the unknown mode %r is accepted' % mode], 'accepted', True
        got = fitsio.read(conf.zmemfile, ext=1)
        # the clusters and members by the definition
        exp = []
        good = {}
        for c in cat:
            z = c['Z_INIT'] if mode == 'z_init' else c['CG_SPEC_Z']
            if c['SCALEVAL'] > 0 and float(c['LAMBDA']) / float(c['SCALEVAL']) > minlam and abs(float(z) - float(c['Z_LAMBDA'])) < nsig * float(c['Z_LAMBDA_E']):
                good[int(c['MEM_MATCH_ID'])] = (z, c['Z_LAMBDA'])
        for m in mem:
            if int(m['MEM_MATCH_ID']) in good and (float(m['P']) * float(m['THETA_I']) * float(m['THETA_R']) > pcut or float(m['PCOL']) > pcut):
                z, zl = good[int(m['MEM_MATCH_ID'])]
                exp.append((z, zl, m['P'], m['PCOL'], int(m['R'] < 0.0001), m['RA'], m['DEC'], m['MAG'], m['MAG_ERR'], m['REFMAG'], m['REFMAG_ERR'], m['EBV']))
        e = np.array(exp, dtype=[('z', 'f4'), ('z_lambda', 'f4'), ('p', 'f4'), ('pcol', 'f4'), ('central', 'i2'), ('ra', 'f8'), ('dec', 'f8'), ('mag', 'f4', 5), ('mag_err', 'f4', 5), ('refmag', 'f4'),
                                 ('refmag_err', 'f4'), ('ebv', 'f4')])
        if smooth > 0:
            diff_rows('members', got, e, OUT[1:], bad)
            if not bad:
                low = {n.lower(): n for n in got.dtype.names}
                gz = got[low['z']][np.argsort(got[low['ra']])].astype('f8')
                ez = e['z'][np.argsort(e['ra'])].astype('f8')
                r = (gz - ez) / smooth
                if r.size > 1000 and not (0.8 < np.std(r) < 1.25 and abs(np.mean(r)) < 0.2):
                    bad.append('the redshifts are smeared by %.3f (mean %.3f) times calib_smooth' % (np.std(r), np.mean(r)))
        else:
            diff_rows('members', got, e, OUT, bad)
        return ['mode %s: %s' % (mode, b) for b in bad], 'n=%d' % (got.size // 500), got.size > 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------- spectroscopic seeds
def sky(d, zreds, exotic):
    """Galaxies in two pixels of the catalog, one arcminute apart; each is the target of one spectrum."""
    import hpgeom as hpg
    from redmapper.galaxy import GalaxyCatalogMaker
    nside = 32
    pix = (570, 571)
    n = 60
    ra, dec = [], []
    for p in pix:
        r, t = hpg.pixel_to_angle(nside, p, nest=False, lonlat=True)
        for k in range(n // 2):
            ra.append(r + (k % 6 - 2.5) * 0.06)
            dec.append(t + (k // 6 - 2) * 0.02)
    g = gals.make_gals(np.arange(1, n + 1), np.array(ra), np.array(dec))
    if exotic:
        # a second, more distant galaxy beside every third one
        h = g[::3].copy()
        h['id'] += 1000
        h['dec'] += 2.4 / 3600.
        h['refmag'] += 1.0
        g = np.concatenate((h, g))
    info = dict(gals.INFO)
    m = GalaxyCatalogMaker(os.path.join(d, 'gals', 'g'), info, nside=nside)
    m.split_galaxies(g)
    zfile = None
    zof = {}
    for i, x in enumerate(g['id']):
        zof[int(x)] = (0.25, 0.0, -1.0, 0.125, 1e-3)[int(x) % 5] if int(x) % 4 == 0 else 0.2 + 0.001 * (int(x) % 50)
    if zreds:
        tab, hdr = fitsio.read(m.filename, ext=1, header=True, lower=True)
        zd = os.path.join(d, 'zreds')
        os.makedirs(zd)
        zfiles = []
        for f in np.atleast_1d(tab['filenames'][0]):
            f = f.decode().strip() if isinstance(f, bytes) else f.strip()
            rows = fitsio.read(os.path.join(d, 'gals', f), ext=1, lower=True)
            z = np.zeros(rows.size, dtype=[('zred', 'f4'), ('zred_e', 'f4'), ('zred2', 'f4'), ('zred2_e', 'f4'), ('zred_uncorr', 'f4'), ('zred_uncorr_e', 'f4'), ('zred_samp', 'f4', 2), ('lkhd', 'f4'),
                                           ('chisq', 'f4')])
            z['zred'] = [zof[int(x)] for x in rows['id']]
            z['zred_e'] = 0.01 + 0.0001 * (rows['id'] % 37)
            z['chisq'] = 1.0 + 0.01 * (rows['id'] % 41)
            zfiles.append(f.replace('.fit', '_zreds.fit'))
            fitsio.write(os.path.join(zd, zfiles[-1]), z)
        w = max(len(x) for x in zfiles)
        zt = np.zeros(1, dtype=[(nm, 'S%d' % w, tab.dtype[nm].shape) if nm == 'filenames' else (nm, tab.dtype[nm]) for nm in tab.dtype.names])
        for nm in tab.dtype.names:
            if nm != 'filenames':
                zt[nm] = tab[nm]
        zt['filenames'][0][:] = [x.encode() for x in zfiles]
        zfile = os.path.join(zd, 'g_zreds_master_table.fit')
        fitsio.write(zfile, zt, header=hdr)
    return m.filename, g, zfile, zof


def run_seeds(case):
    from redmapper.calibration import SelectSpecSeeds
    train, zreds, exotic, region, zr, cushion, maxerr, order = case
    d = rm.workdir('c27')
    bad = []
    try:
        galfile, g, zfile, zof = sky(d, zreds, exotic)
        lo, hi = max(zr[0] - cushion, 0.05), zr[1] + cushion
        # one spectrum near every numbered galaxy: redshifts, errors and distances at and around all limits
        zs = [lo, lo - 1 / 1024., lo + 1 / 1024., hi, hi + 1 / 1024., hi - 1 / 1024., 0.5 * (lo + hi), 0.04, 3.0]
        es = [0.5 * maxerr, maxerr, 2 * maxerr, 0.0, 0.5 * maxerr, 0.25 * maxerr, 0.5 * maxerr]
        ds = [0.0, 1.0, 2.0, 2.9, 3.1, 10.0, 0.5, 0.25]
        main = g[g['id'] < 1000]
        spec = np.zeros(main.size, dtype=[('ra', 'f8'), ('dec', 'f8'), ('z', 'f8'), ('z_err', 'f8')])
        for i, x in enumerate(main):
            k = int(x['id'])
            if k % 2 == 0:
                # inside all limits, except one
                z, e, s = zs[6], es[0], ds[0]
                which = k // 2
                if which % 3 == 0:
                    z = zs[which // 3 % len(zs)]
                elif which % 3 == 1:
                    e = es[which // 3 % len(es)]
                else:
                    s = ds[which // 3 % len(ds)]
            else:
                z, e, s = zs[k % len(zs)], es[k % len(es)], ds[k % len(ds)]
            # away from the second galaxy
            spec[i] = (x['ra'], x['dec'] - s / 3600., z, e)
        if order == 'reversed':
            spec = spec[::-1].copy()
        other = spec.copy()
        other['z'] += 0.0078125
        trainfile, fullfile = os.path.join(d, 'train.fit'), os.path.join(d, 'full.fit')
        fitsio.write(trainfile, spec if train else other)
        fitsio.write(fullfile, other if train else spec)
        over = dict(galfile=galfile, specfile=fullfile, specfile_train=trainfile, zrange=list(zr), calib_zrange_cushion=cushion, calib_spec_max_zerr=maxerr, maskfile=rm.DROP, mask_mode=0,
                    depthfile=rm.DROP, bkgfile=rm.DROP, area=10.0)
        if region is not None:
            over.update(hpix=[region], nside=32, border=0.0)
        conf = config(d, **over)
        conf.zredfile = zfile if zreds else os.path.join(d, 'nothing_master_table.fit')
        conf.seedfile = os.path.join(d, 'seeds.fit')
        try:
            SelectSpecSeeds(conf).run(usetrain=train)
        except Exception as e:
            return [core.exc_problem(e)], 'raised', True
        got = fitsio.read(conf.seedfile, ext=1)
        import hpgeom as hpg
        pp = hpg.angle_to_pixel(32, g['ra'], g['dec'], nest=False, lonlat=True)
        inside = np.ones(g.size, dtype=bool) if region is None else pp == region
        gi = np.where(inside)[0]
        exp = []
        for s in spec:
            if not (lo <= s['z'] <= hi and s['z_err'] < maxerr) or gi.size == 0:
                continue
            dd = np.hypot((g['ra'][gi] - s['ra']) * np.cos(np.radians(s['dec'])), g['dec'][gi] - s['dec']) * 3600.
            j = int(np.argmin(dd))
            if dd[j] > 3.0:
                continue
            x = g[gi[j]]
            k = int(x['id'])
            if zreds:
                if not np.float32(zof[k]) > 0:
                    continue
                t = (zof[k], np.float32(0.01 + 0.0001 * (k % 37)), np.float32(1.0 + 0.01 * (k % 41)))
            else:
                t = (-1.0, -1.0, -1.0)
            exp.append((x['ra'], x['dec'], x['mag'], x['mag_err'], x['refmag'], x['refmag_err']) + t + (s['z'], x['ebv']))
        names = ['ra', 'dec', 'mag', 'mag_err', 'refmag', 'refmag_err', 'zred', 'zred_e', 'zred_chisq', 'zspec', 'ebv']
        e = np.array(exp, dtype=[(n, 'f8' if n in ('ra', 'dec') else 'f4') + ((5,) if n in ('mag', 'mag_err') else ()) for n in names])
        diff_rows('seeds', got, e, names, bad)
        return bad, 'n=%d' % (got.size // 5), got.size > 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------- clusters that calibrate the redshift correction
ZD = [('MEM_MATCH_ID', 'i4'), ('RA', 'f8'), ('DEC', 'f8'), ('LAMBDA', 'f4'), ('LAMBDA_E', 'f4'), ('Z_LAMBDA', 'f4'), ('Z_LAMBDA_E', 'f4'), ('SCALEVAL', 'f4'), ('MASKFRAC', 'f4'), ('BCG_SPEC_Z', 'f4'),
      ('Z_SPEC_INIT', 'f4'), ('ZRED', 'f4')]

BIAS = {
    'none': lambda z: 0.0 * z,
    'shift': lambda z: 0.004 + 0.0 * z,
    'minus': lambda z: -0.006 + 0.0 * z,
    'slope': lambda z: 0.1 * (z - 0.15),
    'curve': lambda z: 3.0 * (z - 0.15)**2 - 0.002,
}


def zcat(bias):
    n = 160
    k = np.arange(n)
    a = np.zeros(n, dtype=ZD)
    a['MEM_MATCH_ID'] = k + 1
    z = 0.095 + 0.11 * k / (n - 1.0)
    a['Z_SPEC_INIT'] = z
    a['BCG_SPEC_Z'] = -1.0
    a['Z_LAMBDA'] = z + BIAS[bias](z) + 0.0007 * (((k * 37) % 11) - 5) / 5.0
    a['Z_LAMBDA_E'] = 0.005
    a['LAMBDA'] = 25.0 + (k * 13) % 40
    a['SCALEVAL'] = 1.0
    a['MASKFRAC'] = 0.01
    a['ZRED'] = a['Z_LAMBDA'] + 0.002 * (((k * 29) % 7) - 3)
    return a


# change of one cluster: does it count?
ZROW = {
    'poor': (dict(LAMBDA=16.0), False),
    'poor-exactly': (dict(LAMBDA=20.0), False),
    'poor-scaled': (dict(LAMBDA=39.0, SCALEVAL=2.0), False),
    'scaleval-0': (dict(SCALEVAL=0.0), False),
    'scaleval-0-lambda-0': (dict(SCALEVAL=0.0, LAMBDA=0.0), False),
    'negative': (dict(LAMBDA=-50.0, SCALEVAL=-1.0), False),
    'masked-exactly': (dict(MASKFRAC=0.25), False),
    'masked': (dict(MASKFRAC=0.75), False),
    'outlier-high': (dict(dz=0.1), 'outlier'),
    'outlier-low': (dict(dz=-0.05), 'outlier'),
    'rich': (dict(LAMBDA=20.5), True),
    'rich-scaled': (dict(LAMBDA=41.0, SCALEVAL=2.0), True),
    'scaled-small': (dict(LAMBDA=11.0, SCALEVAL=0.5), True),
    'not-too-masked': (dict(MASKFRAC=0.2421875), True),
    'two-sigma': (dict(dz=0.01), True),
}
FIT = ('offset_z', 'offset', 'offset_true', 'slope_z', 'slope', 'slope_true', 'scatter', 'scatter_true', 'niter_true')


def zconf(d, cat):
    catfile = os.path.join(d, 'cat.fit')
    fitsio.write(catfile, cat, clobber=True)
    conf = config(d, zrange=[0.1, 0.2], max_maskfrac=0.25, calib_zlambda_minlambda=20.0)
    conf.catfile = catfile
    conf.zlambdafile = os.path.join(d, 'zl.fit')
    return conf


def zcal(d, cat, corrslope):
    from redmapper.calibration import ZLambdaCalibrator
    conf = zconf(d, cat)
    if os.path.exists(conf.zlambdafile):
        os.remove(conf.zlambdafile)
    ZLambdaCalibrator(conf, corrslope=corrslope).run()
    return fitsio.read(conf.zlambdafile, ext=1, lower=True)[0], conf


def run_zlambda(case):
    from redmapper.zlambda import ZlambdaCorrectionPar
    what, bias, corrslope, where = case
    d = rm.workdir('c27')
    bad = []
    try:
        cat = zcat(bias)
        if what == 'gap':
            lo, hi, poor = where
            if poor:
                cat['LAMBDA'][(cat['Z_SPEC_INIT'] >= lo) & (cat['Z_SPEC_INIT'] < hi)] = 10.0
            else:
                cat = cat[(cat['Z_SPEC_INIT'] < lo) | (cat['Z_SPEC_INIT'] >= hi)]
            try:
                zcal(d, cat, corrslope)
            except RuntimeError:
                return bad, 'refused', True
            except Exception as e:
                return [core.exc_problem(e)], 'raised', True
            return ['a calibration without clusters in the redshifts %.2f to %.2f succeeds' % (lo, hi)], 'accepted', True
        try:
            key = ('zl', bias, corrslope)
            if key not in _S or what == 'bias':
                _S[key], conf = zcal(d, cat, corrslope)
            base = _S[key]
        except Exception as e:
            return [core.exc_problem(e)], 'raised', True
        if what == 'bias':
            again, _ = zcal(d, cat, corrslope)
            for n in FIT + ('zred_uncorr',):
                if not same(base[n], again[n]):
                    bad.append('%s differs between two runs on the same catalog' % n)
            zc = ZlambdaCorrectionPar(conf.zlambdafile)
            z0 = cat['Z_SPEC_INIT'].astype('f8')
            inner = (z0 > 0.11) & (z0 < 0.19)
            fixed = np.array([zc.apply_correction(float(c['LAMBDA']), float(c['Z_LAMBDA']), float(c['Z_LAMBDA_E']))[0] for c in cat[inner]])
            err = np.max(np.abs(fixed - z0[inner]))
            before = np.max(np.abs(cat['Z_LAMBDA'].astype('f8')[inner] - z0[inner]))
            _S['last'] = (err, before)
            if err > 0.002:
                bad.append('redshifts with the bias %r are off by up to %.4f after the correction (%.4f before)' % (bias, err, before))
            # mean offset at the true redshift
            from scipy.interpolate import CubicSpline
            mid = np.linspace(0.115, 0.185, 8)
            off = CubicSpline(np.asarray(base['offset_z'], 'f8'), np.asarray(base['offset'], 'f8'), bc_type='natural')(mid)
            if np.max(np.abs(off + BIAS[bias](mid))) > 0.002:
                bad.append('the offset at the true redshift is %s, the bias %s' % (np.round(off, 4).tolist(), np.round(BIAS[bias](mid), 4).tolist()))
            if not corrslope and (np.any(base['slope'] != 0) or np.any(base['slope_true'] != 0)):
                bad.append('a slope with richness that was not asked for')
            return bad, 'bias', True
        change, counts = ZROW[what]
        row = cat[where:where + 1].copy()
        row['MEM_MATCH_ID'] = 9999
        row['Z_LAMBDA'] += 0.003
        row['ZRED'] += 0.02
        for k, v in change.items():
            if k == 'dz':
                row['Z_LAMBDA'] = row['Z_SPEC_INIT'] + v
                row['ZRED'] = row['Z_LAMBDA']
            else:
                row[k] = v
        try:
            with_, _ = zcal(d, np.concatenate((cat, row)), corrslope)
            first, _ = zcal(d, np.concatenate((row, cat)), corrslope)
        except Exception as e:
            return [core.exc_problem(e)], 'raised', True
        if counts is True:
            if same(base['offset'], with_['offset']) and same(base['offset_true'], with_['offset_true']):
                bad.append('a cluster (%s) inside all limits does not count' % what)
        else:
            for n in FIT + (() if counts == 'outlier' else ('zred_uncorr',)):
                for o, txt in ((with_, 'last'), (first, 'first')):
                    if not same(base[n], o[n]):
                        bad.append('a cluster (%s, %s row) that is not to be used changes %s' % (what, txt, n))
                        break
        return bad, 'counts' if counts is True else 'ignored', True
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------- clusters that calibrate the centers
WROW = {
    'poor': (dict(LAMBDA=10.0), False),
    'poor-exactly': (dict(LAMBDA=16.0), False),
    'poor-scaled': (dict(LAMBDA=31.0, SCALEVAL=2.0), False),
    'rich-exactly': (dict(LAMBDA=96.0), False),
    'rich-scaled': (dict(LAMBDA=49.0, SCALEVAL=0.5), False),
    'rich': (dict(LAMBDA=150.0), False),
    'w-0': (dict(W=0.0), False),
    'w-negative': (dict(W=-1.0), False),
    'z-low-exactly': (dict(Z_SPEC_INIT=0.125), False),
    'z-low': (dict(Z_SPEC_INIT=0.0625), False),
    'z-none': (dict(Z_SPEC_INIT=-1.0), False),
    'z-high-exactly': (dict(Z_SPEC_INIT=0.25), False),
    'z-high': (dict(Z_SPEC_INIT=0.3), False),
    'masked-exactly': (dict(MASKFRAC=0.25), False),
    'masked': (dict(MASKFRAC=0.5), False),
    'in-poor': (dict(LAMBDA=16.5), True),
    'in-poor-scaled': (dict(LAMBDA=33.0, SCALEVAL=2.0), True),
    'in-rich': (dict(LAMBDA=95.5), True),
    'in-rich-scaled': (dict(LAMBDA=47.0, SCALEVAL=0.5), True),
    'in-z-low': (dict(Z_SPEC_INIT=0.126953125), True),
    'in-z-high': (dict(Z_SPEC_INIT=0.248046875), True),
    'in-other-z': (dict(Z=0.55), True),
    'in-masked': (dict(MASKFRAC=0.2421875), True),
}


def wbase(f, n):
    a = fitsio.read(os.path.join(build.DATA, f), ext=1)
    ok = np.where((a['LAMBDA'] / a['SCALEVAL'] > 20) & (a['LAMBDA'] / a['SCALEVAL'] < 80) & (a['W'] > 0.2) & (a['Z_SPEC_INIT'] > 0.13) & (a['Z_SPEC_INIT'] < 0.24))[0]
    a = a[ok[:n]]
    dt = [(x[0], x[1].replace('>', '')) + tuple(x[2:]) for x in a.dtype.descr]
    b = np.zeros(a.size, dtype=dt + [('MASKFRAC', 'f4')])
    for nm in a.dtype.names:
        b[nm] = a[nm]
    return b


WFG, WSAT, WCEN = ('lnw_fg_mean', 'lnw_fg_sigma'), ('lnw_sat_mean', 'lnw_sat_sigma'), ('delta0', 'delta1', 'sigma_m', 'lnw_cen_mean', 'lnw_cen_sigma')
WPHI = ('phi1_mmstar_m', 'phi1_mmstar_slope', 'phi1_msig_m', 'phi1_msig_slope')


def wcal(d, cats, iteration=1, over=()):
    from redmapper.calibration import WcenCalibrator
    paths = []
    for nm, c in zip(('cat', 'rand', 'sat'), cats):
        paths.append(None)
        if c is not None:
            paths[-1] = os.path.join(d, nm + '.fit')
            fitsio.write(paths[-1], c, clobber=True)
    kw = dict(max_maskfrac=0.25, wcen_minlambda=16.0, wcen_maxlambda=96.0, wcen_cal_zrange=[0.125, 0.25], wcen_pivot=30.0, phi1_mmstar_m=-1.13, phi1_mmstar_slope=-0.37, phi1_msig_m=0.49,
              phi1_msig_slope=-0.13, lnw_fg_mean=rm.DROP, lnw_fg_sigma=rm.DROP, lnw_sat_mean=rm.DROP, lnw_sat_sigma=rm.DROP)
    kw.update(over)
    conf = config(d, **kw)
    conf.catfile = paths[0]
    conf.wcenfile = os.path.join(d, 'wcen.fit')
    if os.path.exists(conf.wcenfile):
        os.remove(conf.wcenfile)
    WcenCalibrator(conf, iteration, randcatfile=paths[1], randsatcatfile=paths[2]).run()
    return fitsio.read(conf.wcenfile, ext=1, lower=True)[0]


def run_wcen(case):
    what, which, pos = case
    d = rm.workdir('c27')
    bad = []
    try:
        cats = [wbase('test_dr8_centcalcat.fit', 150), wbase('test_dr8_randcat.fit', 150), wbase('test_dr8_randsatcat.fit', 150)]
        if 'base' not in _S:
            try:
                _S['base'] = wcal(d, cats)
            except Exception as e:
                return [core.exc_problem(e)], 'raised', True
        base = _S['base']
        if what == 'given':
            # foreground and satellite parameters that the configuration gives are kept
            fg, sat = which
            try:
                got = wcal(d, [cats[0], None if fg else cats[1], None if sat else cats[2]], iteration=pos, over=dict(lnw_fg_mean=-0.3, lnw_fg_sigma=0.31, lnw_sat_mean=0.05, lnw_sat_sigma=0.27))
            except Exception as e:
                return [core.exc_problem(e)], 'raised', True
            for n, v in (('lnw_fg_mean', -0.3), ('lnw_fg_sigma', 0.31), ('lnw_sat_mean', 0.05), ('lnw_sat_sigma', 0.27)):
                given = fg if '_fg_' in n else sat
                e = v if given else base[n]
                if got[n] != e:
                    bad.append('%s is %r, not %r' % (n, got[n], e))
            for n in WCEN[:3]:
                if got[n] != base[n]:
                    bad.append('%s depends on the foreground or satellite parameters' % n)
            return bad, 'given', True
        if what == 'missing':
            fg, sat = which
            over = {}
            if fg == 'config':
                over.update(lnw_fg_mean=-0.3, lnw_fg_sigma=0.31)
            if sat == 'config':
                over.update(lnw_sat_mean=0.05, lnw_sat_sigma=0.27)
            ok = fg != 'no' and sat != 'no'
            try:
                wcal(d, [cats[0], cats[1] if fg == 'file' else None, cats[2] if sat == 'file' else None], over=over)
            except RuntimeError as e:
                return (['first iteration refused although everything is there: %s' % e] if ok else []), 'refused', True
            except Exception as e:
                return [core.exc_problem(e)], 'raised', True
            return ([] if ok else ['first iteration without foreground (%s) or satellite (%s) parameters is accepted' % (fg, sat)]), 'accepted', True
        change, counts = WROW[what]
        c = cats[which]
        row = c[7:8].copy()
        row['MEM_MATCH_ID'] = 99999
        row['SCALEVAL'] = 1.0
        row['W'] *= 1.5
        row['REFMAG'] += 0.3
        for k, v in change.items():
            row[k] = v
        cats[which] = np.concatenate((c, row) if pos == 'last' else (c[:20], row, c[20:]))
        try:
            got = wcal(d, cats)
        except Exception as e:
            return [core.exc_problem(e)], 'raised', True
        mine = (WCEN, WFG, WSAT)[which]
        for n in WFG + WSAT + WCEN + WPHI + ('pivot',):
            dep = n in mine or (n in WCEN[3:] and which > 0 and counts)
            if not counts or not dep:
                if got[n] != base[n]:
                    bad.append('a cluster (%s) that is not to be used in %s changes %s' % (what, ('the catalog', 'the randoms', 'the random satellites')[which], n))
            elif n in mine and all(got[x] == base[x] for x in mine):
                bad.append('a cluster (%s) inside all limits does not count' % what)
        return bad, 'counts' if counts else 'ignored', True
    finally:
        shutil.rmtree(d, ignore_errors=True)


RED_OUT = ('z below', 'z above', 'z at lower', 'z at upper', 'error at limit', 'error above', 'faint', 'faintest', 'far spectrum', 'farther galaxy')
RED_IN = ('inside', 'error below', 'bright enough', 'near spectrum')


def redrun(d, g, spec, over, zr, cushion):
    from redmapper.calibration import SelectSpecRedGalaxies
    os.makedirs(d)
    gf, sf = os.path.join(d, 'g.fit'), os.path.join(d, 's.fit')
    fitsio.write(gf, g)
    fitsio.write(sf, spec)
    c = config(d)
    c.galfile, c.specfile_train, c.zrange, c.calib_zrange_cushion = gf, sf, np.array(zr), cushion
    c.redgalfile, c.redgalmodelfile = os.path.join(d, 'red.fit'), os.path.join(d, 'model.fit')
    c.plotpath = ''
    for k, v in over.items():
        setattr(c, k, v)
    SelectSpecRedGalaxies(c).run()
    m = fitsio.read(c.redgalmodelfile, ext=1, lower=True)
    return c, fitsio.read(c.redgalfile, ext=1, lower=True), m[0]


def natural(x, y, q):
    """Natural cubic spline, as a dense system for its second derivatives."""
    x, y, q = np.asarray(x, 'f8'), np.asarray(y, 'f8'), np.asarray(q, 'f8')
    n = x.size
    if n == 2:
        return y[0] + (y[1] - y[0]) * (q - x[0]) / (x[1] - x[0])
    a, r = np.zeros((n, n)), np.zeros(n)
    a[0, 0] = a[-1, -1] = 1.0
    for i in range(1, n - 1):
        a[i, i - 1], a[i, i], a[i, i + 1] = x[i] - x[i - 1], 2 * (x[i + 1] - x[i - 1]), x[i + 1] - x[i]
        r[i] = 6 * ((y[i + 1] - y[i]) / (x[i + 1] - x[i]) - (y[i] - y[i - 1]) / (x[i] - x[i - 1]))
    m = np.linalg.solve(a, r)
    k = np.clip(np.searchsorted(x, q) - 1, 0, n - 2)
    h, u, v = x[k + 1] - x[k], x[k + 1] - q, q - x[k]
    return (m[k] * u ** 3 + m[k + 1] * v ** 3) / (6 * h) + (y[k] / h - m[k] * h / 6) * u + (y[k + 1] / h - m[k + 1] * h / 6) * v


def run_red(case):
    """Red galaxies with spectra: exactly those that agree with the model at their redshift."""
    what, where, modes, bounds, cushion, nsig = case
    d = rm.workdir('c27')
    bad = []
    try:
        g0 = fitsio.read(os.path.join(build.DATA, 'test_dr8_trainred_gals.fit'))[::2]
        s0 = fitsio.read(os.path.join(build.DATA, 'test_dr8_trainred_spec.fit'))[::2]
        g0, s0 = g0.astype(g0.dtype.newbyteorder('=')), s0.astype(s0.dtype.newbyteorder('='))
        zr = (0.125, 0.1875)
        lo, hi = zr[0] - cushion, zr[1] + cushion
        over = dict(calib_colormem_colormodes=np.array(modes), calib_colormem_zbounds=np.array(bounds), calib_redspec_nsig=nsig, calib_spec_max_zerr=0.0009765625, limmag_ref=19.0)
        g, s = g0, s0
        if what != 'none':
            e, f = g0[:9].copy(), s0[:9].copy()
            e['RA'], e['DEC'], e['ID'] = 190.0 + 0.1 * np.arange(9), 20.0, 900 + np.arange(9)
            f['Z'], f['Z_ERR'] = 0.15625, 0.0001
            e['REFMAG'] = 18.0
            # the color of a galaxy at this redshift, so that it would count
            near = np.argsort(np.abs(s0['Z'] - 0.15625))[:9]
            e['MAG'], e['MAG_ERR'] = g0['MAG'][near], g0['MAG_ERR'][near]
            e['MAG'][:, 1] += 0.02
            gap = 0.0
            if what in ('z below', 'z above', 'z at lower', 'z at upper'):
                f['Z'] = {'z below': lo - 1 / 1024., 'z above': hi + 1 / 1024., 'z at lower': lo, 'z at upper': hi}[what]
            elif what.startswith('error'):
                f['Z_ERR'] = {'error at limit': 0.0009765625, 'error above': 0.002, 'error below': 0.0009}[what]
            elif what in ('faint', 'faintest', 'bright enough'):
                e['REFMAG'] = {'faint': 19.0, 'faintest': 20.5, 'bright enough': 18.99}[what]
            elif what == 'far spectrum':
                gap = 3.1
            elif what == 'near spectrum':
                gap = 2.9
            f['RA'], f['DEC'] = e['RA'], e['DEC'] + gap / 3600.
            if what == 'farther galaxy':
                # next to galaxies with a spectrum, but farther away from it
                e['RA'], e['DEC'], f = s0['RA'][near], s0['DEC'][near] + 2.0 / 3600., f[:0]
                clear = [i for i in range(9) if np.min(np.hypot(g0['RA'] - s0['RA'][near][i], g0['DEC'] - s0['DEC'][near][i])) < 0.5 / 3600.]
                e = e[clear]
            if where == 'first':
                g, s = np.concatenate([e, g0]), np.concatenate([f, s0])
            else:
                g, s = np.concatenate([g0, e]), np.concatenate([s0, f])
        try:
            c, red, model = redrun(os.path.join(d, 'a'), g, s, over, zr, cushion)
            if what in RED_OUT or what in RED_IN:
                _, red0, model0 = redrun(os.path.join(d, 'b'), g0, s0, over, zr, cushion)
        except Exception as ex:
            if not core.in_code_under_test(ex):
                raise
            return [core.exc_problem(ex)], 'raised', True
        if what in RED_OUT:
            if any(not np.array_equal(model[n], model0[n]) for n in model.dtype.names):
                bad.append('the model depends on galaxies with: %s' % what)
            if not np.array_equal(np.sort(red['id']), np.sort(red0['id'])):
                bad.append('the red galaxies depend on galaxies with: %s' % what)
        elif what in RED_IN and all(np.array_equal(model[n], model0[n]) for n in model.dtype.names):
            bad.append('the model does not depend on galaxies with: %s' % what)
        # each spectrum with its nearest galaxy
        exp, open_ = {}, {}
        zb = [lo - 1.0] + list(bounds) + [hi + 1.0]
        for x in s:
            if not x['Z_ERR'] < 0.0009765625 or not lo < x['Z'] < hi:
                continue
            dd = np.hypot((g['RA'] - x['RA']) * np.cos(np.radians(x['DEC'])), g['DEC'] - x['DEC']) * 3600.
            j = int(np.argmin(dd))
            if dd[j] > 3.0 or not g['REFMAG'][j] < 19.0:
                continue
            m = [k for k in range(len(modes)) if zb[k] < x['Z'] < zb[k + 1]]
            if not m:
                continue
            b = modes[m[0]]
            col = float(g['MAG'][j][b]) - float(g['MAG'][j][b + 1])
            err2 = float(g['MAG_ERR'][j][b]) ** 2 + float(g['MAG_ERR'][j][b + 1]) ** 2
            mean, sc = natural(model['nodes'], model['meancol'][:, b], x['Z']), natural(model['nodes'], model['meancol_scatter'][:, b], x['Z'])
            t = abs(col - mean) / np.sqrt(err2 + sc ** 2) / nsig
            key = (int(g['ID'][j]), round(float(x['Z']), 6))
            if abs(t - 1) < 1e-3 or np.sum(dd < dd[j] + 0.05) > 1 or abs(dd[j] - 3.0) < 0.05:
                open_[key] = 1
            elif t < 1:
                exp[key] = exp.get(key, 0) + 1
        got = {}
        for x in red:
            key = (int(x['id']), round(float(x['z']), 6))
            got[key] = got.get(key, 0) + 1
        for k in sorted(set(exp) | set(got)):
            if k not in open_ and exp.get(k, 0) != got.get(k, 0):
                bad.append('galaxy %d with the redshift %.4f is selected %d times, not %d' % (k[0], k[1], got.get(k, 0), exp.get(k, 0)))
        low = {int(x['ID']): x for x in g}
        for x in red[::7]:
            if not np.array_equal(x['mag'], low[int(x['id'])]['MAG']) or x['refmag'] != low[int(x['id'])]['REFMAG']:
                bad.append('galaxy %d is not as in the catalog' % x['id'])
        # the model follows the galaxies it selects
        for k, b in enumerate(modes):
            n = model['nodes'].astype('f8')
            zz = np.array([kk[1] for kk in exp])
            if k == 0 and zz.size > 100:
                cc = np.array([float(low[kk[0]]['MAG'][b]) - float(low[kk[0]]['MAG'][b + 1]) for kk in exp])
                inm = zz < (bounds[0] if bounds else 9.0)
                r = cc[inm] - natural(n, model['medcol'][:, b], zz[inm])
                if inm.sum() > 50 and nsig == 2.0:
                    wd = natural(n, model['medcol_width'][:, b], zz[inm])
                    sel = np.abs(r) < 2 * wd
                    q = 1.4826 * np.median(np.abs(r[sel])) / np.median(wd)
                    if modes[0] == 1 and not 0.83 < q < 1.2:
                        bad.append('the width of the sequence is off by a factor %.2f' % q)
                if inm.sum() > 50 and abs(np.median(r)) > 0.02:
                    bad.append('the median color is off by %.3f' % np.median(r))
        return bad[:3], (what, where, len(modes), len(got) > 0), len(exp) > 20
    finally:
        shutil.rmtree(d)


def body(check):
    T = check.thorough
    # members
    cases = [(m, 'all', ml, pc, ns, sm, o) for m in ('z_init', 'cg') for ml in (8.0, 10.0) for pc in (0.25, 0.5) for ns in (1.0, 2.0) for sm, o in ((0.0, 'plain'), (0.0, 'reversed'), (0.0, 'mixed'), (0.01, 'plain'))]
    cases += [(m, 'few', 8.0, 0.5, 2.0, 0.0, list(o)) for m in ('z_init', 'cg') for r in range(1, 5) for o in itertools.permutations(range(4), r)]
    cases += [(m, 'few', 8.0, 0.5, 2.0, 0.0, 'plain') for m in ('', 'z', 'bcg', None, 'Z_INIT')]
    check.run_cases(cases, run_members, group='members')
    # seeds
    zr = [(0.125, 0.5), (0.0625, 0.25)] + ([(0.25, 0.75), (0.125, 0.625)] if T else [])
    cases = [(t, z, x, g, r, c, e, o) for t in (True, False) for z in (True, False) for x in (False, True) for g in (None, 570, 571) for r in zr for c in (0.0, 0.03125) for e in (0.001953125, 0.0009765625)
             for o in ('plain', 'reversed')]
    check.run_cases(cases, run_seeds, group='seeds')
    # red galaxies with spectra
    lay = [([1], []), ([1, 2], [0.15]), ([1, 2, 3], [0.14, 0.16]), ([2, 1], [0.145])]
    cases = [('none', 'last', m, b, c, n) for m, b in lay for c in (0.0, 0.015625) for n in (2.0, 1.0)]
    cases += [(w, p, m, b, c, 2.0) for w in RED_OUT + RED_IN for p in ('first', 'last') for m, b, c in ((([1], [], 0.0),) if not T else [(m, b, c) for m, b in lay for c in (0.0, 0.015625)])]
    check.run_cases(cases, run_red, group='red galaxies', chunk=1)
    # clusters for the redshift correction
    where = (5, 60, 150) if not T else tuple(range(3, 160, 12))
    cases = [(w, b, s, p) for w in sorted(ZROW) for b in (('none', 'curve') if not T else sorted(BIAS)) for s in ((False,) if not T else (False, True)) for p in where]
    cases += [('bias', b, s, None) for b in sorted(BIAS) for s in (False, True)]
    cases += [('gap', 'none', False, (a, b, p)) for a, b in ((0.0, 0.145), (0.135, 0.3), (0.0, 1.0)) for p in (False, True)]
    check.run_cases(cases, run_zlambda, group='zlambda', chunk=1)
    # clusters for the centers
    cases = [(w, k, p) for w in sorted(WROW) for k in range(3) for p in ('last', 'inside')]
    cases += [('given', (f, s), i) for f in (False, True) for s in (False, True) for i in (1, 2)]
    cases += [('missing', (f, s), 0) for f in ('file', 'config', 'no') for s in ('file', 'config', 'no')]
    check.run_cases(cases, run_wcen, group='wcen', chunk=4)


RULE = ('every row of the calibration samples compared with the cuts of the configuration, over catalogs with clusters, members, spectra and galaxies at and on both sides of every limit; for the fits of the redshift '
        'correction and of the centers, one cluster at a time at and on both sides of every limit must change the product exactly if it is to be used')

if __name__ == '__main__':
    core.main('C27', 'exploration', RULE, body)
