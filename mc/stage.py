"""Running one stage of the cluster finder on the small test catalog, and recomputing single clusters."""
import math
import os

import numpy as np

from . import pipe, ref, rm

_S = {}


def mask_file(kind):
    """Footprint maps: 'cut' without the western part, 'frac' with half-covered pixels in the east."""
    if ('mask', kind) not in _S:
        import healsparse
        d = rm.workdir('masks_' + kind)
        m = healsparse.HealSparseMap.read(pipe.world().conf.maskfile)
        pix = m.valid_pixels
        ra, dec = m.valid_pixels_pos(lonlat=True)
        v = m[pix]
        if kind == 'cut':
            v[ra < 140.3] = 0.0
        else:
            v[ra > 140.6] = 0.5
        m[pix] = v
        p = os.path.join(d, 'mask.hs')
        m.write(p)
        _S['mask', kind] = p
    return _S['mask', kind]


def seeds_from(rows):
    """A seed catalog (structured array): rows of dict(i=POOL index or galaxy position, zred, chisq, zspec ...)."""
    w = pipe.world()
    g = w.gals
    nb = g.mag.shape[1]
    a = np.zeros(len(rows), dtype=[('ra', 'f8'), ('dec', 'f8'), ('mag', 'f4', nb), ('mag_err', 'f4', nb), ('refmag', 'f4'), ('refmag_err', 'f4'),
                                   ('zred', 'f4'), ('zred_e', 'f4'), ('zred_chisq', 'f4'), ('ebv', 'f4'), ('zspec', 'f4'), ('id', 'i8')])
    for k, r in enumerate(rows):
        j = r['gal'] if 'gal' in r else pipe.nearest(*pipe.POOL[r['i']][:2])
        a['ra'][k], a['dec'][k] = r.get('ra', g.ra[j]), r.get('dec', g.dec[j])
        for n in ('mag', 'mag_err', 'refmag', 'refmag_err', 'zred_e', 'ebv', 'id'):
            a[n][k] = g._ndarray[n][j]
        a['zred'][k] = r.get('zred', g.zred[j])
        a['zred_chisq'][k] = r.get('chisq', g.chisq[j])
        a['zspec'][k] = r.get('zspec', 0.3)
        a['ebv'][k] = 0.01 * (k + 1)
        if 'refmag' in r:
            a['refmag'][k] = r['refmag']
    return a


def tools(conf):
    from redmapper import DepthMap
    from redmapper.mask import get_mask
    k = (conf.maskfile, conf.depthfile)
    if k not in _S:
        try:
            dep = DepthMap(conf)
        except Exception:
            dep = None
        _S[k] = (get_mask(conf), dep)
    return _S[k]


def maxrad(conf, r0, beta):
    if beta == 0.0:
        a, b = 1.2 * r0, 1.2 * conf.percolation_rmask_0
    else:
        a, b = r0 * 3.0 ** beta, conf.percolation_rmask_0 * 3.0 ** conf.percolation_rmask_beta
    return max(a, b)


def cluster_at(conf, ra, dec, z, r0, beta, limlum=None, chisq_max=None, rad=None):
    """A Cluster with the neighbors a stage gives it (selected by brute force), and its mask set.

    Returns None without neighbors."""
    from redmapper import Cluster
    w = pipe.world()
    mask, depth = tools(conf)
    c = Cluster(config=conf, zredstr=w.par, bkg=w.bkg, r0=r0, beta=beta)
    c.ra, c.dec = ra, dec
    z = float(np.float32(z))
    c.redshift = z
    mpc = np.radians(1.0) * float(conf.cosmo.Da(0, z))
    dist = ref.sphdist(ra, dec, w.gals.ra, w.gals.dec)
    ok = mpc * dist < (maxrad(conf, r0, beta) if rad is None else rad)
    if chisq_max is not None:
        ok &= np.asarray(w.gals.chisq) < chisq_max
    if limlum is not None:
        ok &= np.asarray(w.gals.refmag) <= float(w.par.mstar(z)) - 2.5 * math.log10(limlum)
    idx = np.where(ok)[0]
    if idx.size == 0:
        return None, mask
    c.set_neighbors(w.gals[idx])
    c.neighbors.dist = dist[idx]
    c.neighbors.index = idx
    c.redshift = z
    c.neighbors.pfree[:] = 1.0
    with ref.fixed_random():
        c.maskgal_index = mask.select_maskgals_sample()
        depth.calc_maskdepth(mask.maskgals, c.ra, c.dec, c.mpc_scale)
        mask.set_radmask(c)
    return c, mask


def masked_fraction(mask, r):
    inside = mask.maskgals.r < r
    return 1.0 if not inside.any() else float((mask.maskgals.mark[inside] == 0).sum()) / inside.sum()
