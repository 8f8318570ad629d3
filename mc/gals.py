"""Small galaxy catalogs used by several checks."""
import glob
import os
import re

import numpy as np


INFO = {'LIM_REF': 21.0, 'REF_IND': 3, 'AREA': 25.0, 'NMAG': 5, 'MODE': 'SDSS', 'ZP': 22.5,
        'B': np.array([1.4e-10, 0.9e-10, 1.2e-10, 1.8e-10, 7.4e-10]),
        'U_IND': 0, 'G_IND': 1, 'R_IND': 2, 'I_IND': 3, 'Z_IND': 4}


def make_gals(ids, ras, decs, nmag=5, truth=False, zspec=False):
    """Valid galaxies whose every column is a function of the id."""
    from redmapper import GalaxyCatalogMaker
    g = np.zeros(len(ids), dtype=GalaxyCatalogMaker.get_galaxy_dtype(nmag, truth=truth, zspec=zspec))
    ids = np.asarray(ids)
    g['id'] = ids
    g['ra'] = ras
    g['dec'] = decs
    g['refmag'] = 17.0 + (ids % 97) * 0.03
    g['refmag_err'] = 0.01 + (ids % 13) * 0.002
    for b in range(nmag):
        g['mag'][:, b] = 19.5 - 0.6 * b + (ids % 89) * 0.02 + (ids % 7) * 0.05 * b
        g['mag_err'][:, b] = 0.02 + (ids % 11) * 0.003
    g['ebv'] = 0.01 * (ids % 5)
    if truth:
        g['ztrue'] = 0.1 + 0.01 * (ids % 20)
        g['m200'] = 1e3 + ids
        g['central'] = ids % 2
        g['halo_id'] = 1000 + ids
    if zspec:
        g['zspec'] = 0.1 + 0.013 * (ids % 20)
        g['zspec_err'] = 0.001
    return g


def pix_positions(nside, pix, n, salt=0):
    """n distinct positions well inside ring pixel pix of nside."""
    import hpgeom as hpg
    sub = 64
    nest = hpg.ring_to_nest(nside, pix)
    npx = sub * sub
    # interior sub-pixels, deterministic spread
    k = (np.arange(n) * 977 + 31 + salt * 131) % npx
    sp = nest * npx + k
    ra, dec = hpg.pixel_to_angle(nside * sub, sp, nest=True)
    return ra, dec


def read_pixel_files(outbase):
    """{pixel: array} of all pixel files of a catalog (read independently of redmapper)."""
    import fitsio
    out = {}
    for f in sorted(glob.glob(glob.escape(outbase) + '_*.fit')):
        m = re.match(re.escape(os.path.basename(outbase)) + r'_(\d{7})\.fit$', os.path.basename(f))
        if m:
            with fitsio.FITS(f) as fits:
                if len(fits) != 2:
                    raise ValueError('%s has %d HDUs' % (f, len(fits)))
                out[int(m.group(1))] = fits[1].read()
    return out


def read_master(outbase):
    import fitsio
    return fitsio.read(outbase + '_master_table.fit', ext=1)[0]


def same_rows(a, b):
    """Same rows in the same order, field by field (case-insensitive names)."""
    if a.size != b.size:
        return False
    an = {n.lower(): n for n in a.dtype.names}
    bn = {n.lower(): n for n in b.dtype.names}
    if set(an) != set(bn):
        return False
    return all(np.array_equal(a[an[n]], b[bn[n]]) for n in an)
