"""C03: reading a sub-region of a pixelized galaxy catalog."""
import itertools
import os
import tempfile

import numpy as np

from mc import build, core
from mc import gals as G

TNSIDES = (8, 4)
SLACK = 0.35          # an included border galaxy may lie this much outside (nside-512 pixel rounding)
TOL = 0.03            # a galaxy this close to the border limit may be on either side
NSAMP = 4


def positions():
    """Grids of galaxies around pixel corners: ra wrap at the equator, mid latitude, north pole, one lone galaxy."""
    ra, dec = [], []
    o = (np.arange(15) - 7) * 0.55 + 0.013
    for r0, d0 in ((0.0, 0.0), (45.0, 41.8), (180.0, -30.0)):
        for a, b in itertools.product(o, o):
            ra.append((r0 + a / np.cos(np.radians(d0))) % 360.0)
            dec.append(d0 + b)
    for t in np.arange(0, 360, 12.0) + 1.7:
        for d in (89.6, 88.1, 85.3, 82.2):
            ra.append(t)
            dec.append(d)
    ra.append(300.0)
    dec.append(55.0)
    return np.array(ra), np.array(dec)


_T = {}


def setup():
    import fitsio
    import hpgeom as hpg
    from redmapper import GalaxyCatalogMaker
    from redmapper.galaxy import zred_extra_dtype
    ra, dec = positions()
    ids = np.arange(1, ra.size + 1) * 3
    order = (np.arange(ra.size) * 577) % ra.size      # files are not sorted by id or position
    if len(set(order.tolist())) != ra.size:
        order = np.arange(ra.size)[::-1]
    base = os.path.join(build.scratch(), 'c03')
    os.makedirs(base)
    for tn in TNSIDES:
        g = G.make_gals(ids, ra, dec, truth=True, zspec=True)[order]
        out = os.path.join(base, 'n%d' % tn, 'gal')
        os.makedirs(os.path.dirname(out))
        half = ids.size // 3
        mk = GalaxyCatalogMaker(out, G.INFO, nside=tn, ingest_truth=True, ingest_zspec=True)
        mk.append_galaxies(g[:half])
        mk.append_galaxies(g[half:])
        mk.finalize_catalog()
        # zreds written independently
        zd = os.path.join(base, 'n%d' % tn, 'z')
        os.makedirs(zd)
        t = fitsio.read(out + '_master_table.fit', ext=1)
        files = [(f.decode() if isinstance(f, bytes) else str(f)).strip() for f in t['filenames'][0]]
        zfiles = []
        for f in files:
            x = fitsio.read(os.path.join(os.path.dirname(out), f), ext=1)
            z = np.zeros(x.size, dtype=zred_extra_dtype(NSAMP))
            z['ZRED'] = zval(x['id'])
            z['ZRED_E'] = 0.01 + 0.0001 * (x['id'] % 7)
            z['CHISQ'] = chival(x['id'])
            z['LKHD'] = -1.0 - x['id']
            zf = f.replace('gal_', 'gal_zreds_')
            zfiles.append(zf)
            fitsio.write(os.path.join(zd, zf), z)
        missing = zfiles[len(zfiles) // 2]
        zt = np.zeros(1, dtype=[('NSIDE', 'i4'), ('HPIX', 'i4', (len(files),)), ('NGALS', 'i4', (len(files),)),
                                ('FILENAMES', 'S40', (len(files),))])
        zt['NSIDE'] = tn
        zt['HPIX'][0] = t['hpix'][0]
        zt['NGALS'][0] = t['ngals'][0]
        zt['FILENAMES'][0] = zfiles
        h = fitsio.FITSHDR()
        h['PIXELS'] = 1
        h['FITS'] = 1
        for d, drop in ((zd, None), (zd + 'miss', missing)):
            if drop is not None:
                os.makedirs(d)
                for zf in zfiles:
                    if zf != drop:
                        os.link(os.path.join(zd, zf), os.path.join(d, zf))
            fitsio.write(os.path.join(d, 'gal_zreds_master_table.fit'), zt, header=h, clobber=True)
        mpix = int(t['hpix'][0][zfiles.index(missing)])
        _T[tn] = dict(master=out + '_master_table.fit', z=os.path.join(zd, 'gal_zreds_master_table.fit'),
                      zmiss=os.path.join(zd + 'miss', 'gal_zreds_master_table.fit'), miss=mpix,
                      pix=hpg.angle_to_pixel(tn, ra, dec, nest=False))
    ref = G.make_gals(ids, ra, dec, truth=True, zspec=True)
    _T['ref'] = {int(r['id']): r for r in ref}
    _T['all'] = ref
    fitsio.write(os.path.join(base, 'flat.fit'), ref, clobber=True)
    z = np.zeros(ref.size, dtype=zred_extra_dtype(NSAMP))
    z['ZRED'] = zval(ref['id'])
    z['CHISQ'] = chival(ref['id'])
    z['LKHD'] = -1.0 - ref['id']
    fitsio.write(os.path.join(base, 'flatz.fit'), z, clobber=True)
    fitsio.write(os.path.join(base, 'flatz_short.fit'), z[1:], clobber=True)
    _T['flat'] = [os.path.join(base, n) for n in ('flat.fit', 'flatz.fit', 'flatz_short.fit')]


def zval(ids):
    return (0.1 + 0.001 * (ids % 400)).astype('f4')


def chival(ids):
    return (1.0 + (ids % 30)).astype('f4')


_D = {}


def dist_to_pixel(nside, pix):
    """Degrees from every galaxy to the sky pixel (0 inside)."""
    import hpgeom as hpg
    k = (nside, pix)
    if k not in _D:
        ref = _T['all']
        inside = hpg.angle_to_pixel(nside, ref['ra'], ref['dec'], nest=False) == pix
        step = max(4, 1024 // nside)
        lon, lat = hpg.boundaries(nside, pix, step=step, nest=False)
        v = np.array([np.cos(np.radians(lat)) * np.cos(np.radians(lon)), np.cos(np.radians(lat)) * np.sin(np.radians(lon)),
                      np.sin(np.radians(lat))])
        g = np.array([np.cos(np.radians(ref['dec'])) * np.cos(np.radians(ref['ra'])),
                      np.cos(np.radians(ref['dec'])) * np.sin(np.radians(ref['ra'])), np.sin(np.radians(ref['dec']))])
        d = np.degrees(np.arccos(np.clip(np.dot(g.T, v), -1, 1))).min(axis=1)
        d[inside] = 0.0
        _D[k] = d
    return _D[k]


def run_read(case):
    import hpgeom as hpg
    from redmapper import GalaxyCatalog
    tn, nside, hpix, border, zmode, temp, truth, form = case
    t = _T[tn]
    kw = dict(nside=nside, hpix=hpix, border=border, truth=truth)
    if form == 'scalar':
        kw['hpix'] = hpix[0]
    elif form == 'array':
        kw['hpix'] = np.array(hpix)
    if zmode:
        kw['zredfile'] = t[zmode]
    rr, cm = (-1000.0, 1000.0), 1e100
    if temp:
        kw['use_tempfile'] = True
        if temp == 'cut':
            rr, cm = (17.5, 19.0), 12.0
            kw.update(refmag_range=list(rr), chisq_max=cm)
    tmp = os.path.join(build.scratch(), 'c03', 'tmp%d' % os.getpid())
    os.makedirs(tmp, exist_ok=True)
    os.environ['TMPDIR'] = tempfile.tempdir = tmp
    cat = GalaxyCatalog.from_galfile(t['master'], **kw)
    bad = []
    if os.listdir(tmp):
        bad.append('temporary files left behind')
    ref = _T['all']
    must = np.ones(ref.size, dtype=bool)
    may = must.copy()
    if nside > 0 and len(hpix):
        if border == 0.0:
            must = np.isin(hpg.angle_to_pixel(nside, ref['ra'], ref['dec'], nest=False), hpix)
            may = must.copy()
        else:
            d = dist_to_pixel(nside, hpix[0])
            must = d <= border - TOL if border > TOL else d == 0
            must |= d == 0
            may = d <= border + SLACK
    if zmode == 'zmiss':
        gone = t['pix'] == t['miss']
        must &= ~gone
        may &= ~gone
    if temp == 'cut':
        cut = (ref['refmag'] > np.float32(rr[0])) & (ref['refmag'] < np.float32(rr[1]))
        if zmode:
            cut &= chival(ref['id']) < cm
        must &= cut
        may &= cut
    got = np.asarray(cat.id)
    if len(set(got.tolist())) != got.size:
        bad.append('galaxies returned more than once')
    gs = set(got.tolist())
    miss = set(ref['id'][must].tolist()) - gs
    if miss:
        bad.append('%d galaxies of the region are missing, e.g. id %d' % (len(miss), min(miss)))
    extra = gs - set(ref['id'][may].tolist())
    if extra:
        bad.append('%d galaxies outside the region were returned, e.g. id %d' % (len(extra), min(extra)))
    names = set(n.lower() for n in cat.dtype.names)
    if truth != ('ztrue' in names) or truth != ('halo_id' in names):
        bad.append('truth columns %s' % ('missing' if truth else 'returned although not asked for'))
    if not bad and got.size:
        k = np.searchsorted(ref['id'], got)
        for n in ('ra', 'dec', 'refmag', 'refmag_err', 'mag', 'mag_err', 'ebv', 'zspec') + (('ztrue', 'm200', 'central', 'halo_id') if truth else ()):
            if not np.array_equal(np.asarray(getattr(cat, n)), ref[n][k]):
                bad.append('column %s does not belong to the galaxy of its row' % n)
        if zmode:
            if not np.array_equal(cat.zred, zval(got)) or not np.array_equal(cat.chisq, chival(got)) or \
                    not np.array_equal(cat.lkhd, (-1.0 - got).astype('f4')):
                bad.append('zred columns do not belong to the galaxy of their row')
        elif 'zred' in names:
            bad.append('zred columns appeared')
    return bad, (tn, nside, border, zmode, temp, int(got.size)), 0 < got.size < ref.size


ERRS = [('hpix too large', dict(nside=4, hpix=[192]), ValueError), ('negative hpix', dict(nside=4, hpix=[-1]), ValueError),
        ('negative hpix in list', dict(nside=4, hpix=[3, -1]), ValueError),
        ('negative border', dict(nside=4, hpix=[3], border=-0.1), ValueError),
        ('nside above table', dict(nside=16, hpix=[3]), ValueError),
        ('border with list', dict(nside=4, hpix=[3, 4], border=1.0), NotImplementedError),
        ('zspec absent', None, RuntimeError), ('truth absent', None, RuntimeError), ('flat lengths', None, ValueError),
        ('flat ok', None, None), ('missing file', None, (IOError, OSError)), ('zspec flag off', None, RuntimeError)]


def run_err(case):
    import fitsio
    from redmapper import GalaxyCatalog, GalaxyCatalogMaker
    name, kw, exc = ERRS[case[0]]
    tn = case[1]
    m = _T[tn]['master']
    bad = []

    def call():
        if kw is not None:
            return GalaxyCatalog.from_galfile(m, **kw)
        if name in ('zspec absent', 'truth absent', 'zspec flag off'):
            out = os.path.join(build.scratch(), 'c03', 'p%d_%d' % (os.getpid(), case[0]), 'g')
            mk = GalaxyCatalogMaker(out, G.INFO, nside=tn)
            ref = _T['all'][:5]
            if name == 'zspec flag off':
                g = ref     # columns are there, but were not declared (nor checked) at ingestion
            else:
                g = G.make_gals(ref['id'], ref['ra'], ref['dec'])
            mk.split_galaxies(g)
            GalaxyCatalog.from_galfile(out + '_master_table.fit', truth=name == 'truth absent', zspec=name.startswith('zspec'))
        if name == 'flat lengths':
            GalaxyCatalog.from_galfile(_T['flat'][0], zredfile=_T['flat'][2])
        if name == 'missing file':
            GalaxyCatalog.from_galfile(m + 'x')
        if name == 'flat ok':
            c = GalaxyCatalog.from_galfile(_T['flat'][0], zredfile=_T['flat'][1])
            if c.size != _T['all'].size or not np.array_equal(c.zred, zval(c.id)):
                bad.append('flat catalog: zreds not aligned')
    try:
        call()
        if exc is not None:
            bad.append('%s: no error raised' % name)
    except Exception as e:
        if exc is None or not isinstance(e, exc):
            bad.append('%s: raised %s (%s)' % (name, type(e).__name__, e))
    return bad, (name, tn), True


def run_lone(case):
    """A catalog all of whose galaxies are in one pixel."""
    import fitsio
    import hpgeom as hpg
    from redmapper import GalaxyCatalog, GalaxyCatalogMaker
    from redmapper.galaxy import zred_extra_dtype
    n, region, border, z, temp = case
    d = os.path.join(build.scratch(), 'c03', 'lone%d_%d_%s' % (os.getpid(), n, z))
    out = os.path.join(d, 'g')
    ra, dec = G.pix_positions(8, 300, n)
    ids = np.arange(n) * 3 + 5
    if not os.path.isdir(d):
        os.makedirs(d)
        GalaxyCatalogMaker(out, G.INFO, nside=8).split_galaxies(G.make_gals(ids, ra, dec))
        zz = np.zeros(n, dtype=zred_extra_dtype(NSAMP))
        zz['ZRED'] = zval(ids)
        zz['CHISQ'] = chival(ids)
        fitsio.write(d + '/g_zreds_0000300.fit', zz)
        t = np.zeros(1, dtype=[('NSIDE', 'i4'), ('HPIX', 'i4', (1,)), ('NGALS', 'i4', (1,)), ('FILENAMES', 'S40', (1,))])
        t['NSIDE'], t['HPIX'], t['NGALS'], t['FILENAMES'] = 8, 300, n, 'g_zreds_0000300.fit'
        h = fitsio.FITSHDR()
        h['PIXELS'] = 1
        h['FITS'] = 1
        fitsio.write(d + '/g_zreds_master_table.fit', t, header=h)
    kw = {'border': border}
    if region:
        kw.update(nside=region, hpix=[int(hpg.angle_to_pixel(region, ra[0], dec[0], nest=False))])
    if z:
        kw['zredfile'] = d + '/g_zreds_master_table.fit'
    c = GalaxyCatalog.from_galfile(out + '_master_table.fit', use_tempfile=temp, **kw)
    bad = []
    if sorted(np.atleast_1d(c.id).tolist()) != ids.tolist():
        bad.append('single-pixel catalog: ids %s, expected %s' % (c.id, ids))
    elif z and not np.array_equal(c.zred, zval(np.asarray(c.id))):
        bad.append('single-pixel catalog: zreds not aligned')
    return bad, (n, region, border, z, temp), True


def body(check):
    import hpgeom as hpg
    setup()
    ref = _T['all']
    cases = []
    for tn in TNSIDES:
        nsides = [n for n in (1, 2, 4, 8) if n <= tn]
        cases.append([tn, 0, [], 0.0, None, None, False, 'list'])
        for zmode, temp, truth in itertools.product((None, 'z', 'zmiss'), (None, 'plain', 'cut'), (False, True)):
            cases.append([tn, 0, [], 0.0, zmode, temp, truth, 'list'])
            cases.append([tn, 0, [], 1.0, zmode, temp, truth, 'list'])
        for nside in nsides:
            occ = sorted(set(hpg.angle_to_pixel(nside, ref['ra'], ref['dec'], nest=False).tolist()))
            # single pixels
            for k, p in enumerate(occ):
                # the cost of a border grows with its area and the pixel size
                borders = {1: (0.0, 0.3), 2: (0.0, 0.3, 1.0), 4: (0.0, 0.3, 1.0, 2.7), 8: (0.0, 0.3, 1.0, 2.7, 6.0)}[nside]
                if check.thorough:
                    borders = {1: (0.0, 0.3, 1.0), 2: (0.0, 0.1, 0.3, 1.0, 2.7), 4: (0.0, 0.1, 0.3, 0.6, 1.0, 2.7, 4.0),
                               8: (0.0, 0.1, 0.3, 0.6, 1.0, 2.7, 4.0, 6.0, 9.0)}[nside]
                for border in borders:
                    for zmode, temp in ((None, None), ('z', None), ('z', 'cut'), (None, 'plain'), ('zmiss', 'plain')):
                        if border > 0 and (zmode, temp) in ((None, None), ('zmiss', 'plain')) and (nside < 4 or border > 2) \
                                and not check.thorough:
                            continue
                        if zmode == 'zmiss':
                            # a pixel of which nothing has a zred is refused by design
                            d = dist_to_pixel(nside, p)
                            if np.all((_T[tn]['pix'] == _T[tn]['miss'])[d <= border - TOL if border else d == 0]):
                                continue
                        cases.append([tn, nside, [p], border, zmode, temp, k % 2 == 0, 'scalar' if k % 3 == 0 else 'list'])
            # lists of two and three pixels
            for a, b in itertools.combinations(occ[:8], 2):
                cases.append([tn, nside, [b, a], 0.0, 'z', None, False, 'list'])
                cases.append([tn, nside, [a, b], 0.0, 'z', 'cut', False, 'array'])
            for c in itertools.combinations(occ[-6:], 3):
                cases.append([tn, nside, list(c), 0.0, None, None, False, 'array'])
            # a pixel without galaxies of its own but with a populated border
            for p in range(hpg.nside_to_npixel(nside)):
                if p not in occ:
                    d = dist_to_pixel(nside, p)
                    if d.min() < (2.0 if nside > 2 else 0.8):
                        cases.append([tn, nside, [p], 2.7 if nside > 2 else 1.0, 'z', None, False, 'list'])
    check.run_cases(cases, run_read, 'reads')
    check.run_cases([list(x) for x in itertools.product((1, 2, 5), (0, 4, 8), (0.0, 1.0), (False, True), (False, True))],
                    run_lone, 'single pixel')
    check.run_cases([[i, tn] for i in range(len(ERRS)) for tn in TNSIDES], run_err, 'errors')


if __name__ == '__main__':
    core.main('C03', 'exploration',
              'Every (table nside, region nside, pixel or pixel list, border, zreds, tempfile mode, truth) combination of '
              'the lattice, on a catalog with grids of galaxies around pixel corners, ra wrap and pole; compared with '
              'the geometric definition. Non-trivial: a proper non-empty part of the catalog.', body)
