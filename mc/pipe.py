"""The cluster-finding stages on the repository's small test catalog (one sky pixel of 1 square degree)."""
import os

import numpy as np

from . import build, ref, rm

HPIX, NSIDE = 2163, 64

# (ra, dec, z, richness): positions of galaxies that the likelihood stage ranks high
POOL = [
    (140.658137, 65.941085, 0.3132, 16.27),   # 0  three seeds of one cluster
    (140.663627, 65.949488, 0.3126, 14.18),   # 1
    (140.657458, 65.938369, 0.3146, 16.54),   # 2
    (140.153814, 66.123733, 0.3793, 22.87),   # 3  two clusters on one line of sight and satellites
    (140.144653, 66.129230, 0.3015, 12.73),   # 4
    (140.139027, 66.173361, 0.3758, 21.80),   # 5
    (140.166881, 66.065306, 0.3857, 19.01),   # 6
    (140.229173, 65.789871, 0.5041, 23.80),   # 7
    (140.222244, 65.789357, 0.4865, 21.21),   # 8
    (140.596063, 65.484967, 0.3977, 12.51),   # 9
    (140.583562, 65.448638, 0.3544, 14.50),   # 10
    (140.547091, 65.457859, 0.4437, 26.46),   # 11
    (140.611305, 65.487466, 0.3954, 8.70),    # 12
    (141.099898, 65.498619, 0.3755, 7.80),    # 13 isolated
    (140.605209, 65.136111, 0.1338, 3.82),    # 14 near the edge
    (140.445129, 66.344400, 0.4010, 8.90),    # 15 near the edge
    (139.957712, 65.506364, 0.1757, 3.70),    # 16 poor
    (141.140867, 65.890850, 0.2487, 9.42),    # 17
    (141.146312, 65.895393, 0.2477, 9.37),    # 18
    (140.191127, 65.311285, 0.3765, 11.23),   # 19
]

_STATE = {}


def shared_maskgals(ngals=1500):
    """One mask-galaxy file for all processes of this check (made before forking)."""
    if 'maskgals' not in _STATE:
        from redmapper import Configuration
        d = rm.workdir('pipe_shared')
        p = os.path.join(d, 'maskgals.fit')
        cf = rm.write_config(os.path.join(d, 'c.yml'), maskgalfile=p, maskgal_ngals=ngals, maskgal_nsamples=1, outpath=d)
        rm.make_maskgals(rm.quiet(Configuration(cf)), p)
        _STATE['maskgals'] = (p, ngals)
    return _STATE['maskgals']


def setup():
    """Call once before run_cases."""
    ref.memoize_readers()
    shared_maskgals()
    world()


def config(d, **over):
    from redmapper import Configuration
    p, n = shared_maskgals()
    attrs = {k: over.pop(k) for k in list(over) if k in ('hpix', 'nside')}
    kw = dict(maskgalfile=p, maskgal_ngals=n, maskgal_nsamples=1, outbase='t', outpath=d, border=0.0,
              zredfile=build.DATA + '/zreds_test/dr8_test_zreds_master_table.fit')
    kw.update(over)
    conf = rm.quiet(Configuration(rm.write_config(os.path.join(d, 'c.yml'), **kw)))
    conf.d.hpix = attrs.get('hpix', [HPIX])
    conf.d.nside = attrs.get('nside', NSIDE)
    return conf


class World:
    pass


def world():
    """Galaxies, parameters and background, for the oracles."""
    if 'world' not in _STATE:
        from redmapper import GalaxyCatalog, Background, RedSequenceColorPar
        import shutil
        d = rm.workdir('pipe_world')
        conf = config(d)
        w = World()
        w.conf = conf
        w.par = RedSequenceColorPar(conf.parfile, fine=True)
        w.bkg = Background(conf.bkgfile)
        g = GalaxyCatalog.from_galfile(conf.galfile, nside=NSIDE, hpix=[HPIX], border=0.0, zredfile=conf.zredfile)
        lo = w.bkg.refmagbins[0]
        hi = w.bkg.refmagbins[-1] + (w.bkg.refmagbins[1] - w.bkg.refmagbins[0])
        w.gals = g[(g.refmag > lo) & (g.refmag < hi)]
        w.byid = {int(i): k for k, i in enumerate(w.gals.id)}
        shutil.rmtree(d, ignore_errors=True)
        _STATE['world'] = w
    return _STATE['world']


def nearest(ra, dec):
    g = world().gals
    return int(np.argmin(ref.sphdist(ra, dec, g.ra, g.dec)))


def write_candidates(path, conf, cands):
    """cands: list of dicts with at least ra, dec, z, Lambda, lnlike (refmag defaults to that of the galaxy there)."""
    from redmapper import ClusterCatalog
    g = world().gals
    c = ClusterCatalog.zeros(len(cands), config=conf)
    for i, x in enumerate(cands):
        k = nearest(x['ra'], x['dec'])
        c.ra[i], c.dec[i] = x['ra'], x['dec']
        c.z[i] = x['z']
        c.z_lambda[i] = x['z']
        c.Lambda[i] = x['Lambda']
        c.lnlike[i] = x['lnlike']
        c.refmag[i] = x.get('refmag', g.refmag[k])
        c.refmag_err[i] = g.refmag_err[k]
        c.mag[i, :] = g.mag[k, :]
        c.mag_err[i, :] = g.mag_err[k, :]
        c.mem_match_id[i] = x.get('mem_match_id', 0)
        c.z_spec_init[i] = x.get('tag', i)          # carried through unchanged: identifies the candidate
    import fitsio
    fitsio.write(path, c._ndarray, clobber=True)
    return path
