"""C14: neighbors, distances and copies of a cluster stay consistent over every sequence of operations; matching is exact."""
import itertools

import numpy as np

from mc import core, pipe, ref, rm

_S = {}
EXTRA = ('r', 'dist', 'chisq', 'zred_chisq', 'pfree', 'theta_i', 'theta_r', 'p', 'pcol', 'pmem', 'index', 'centering_cand')


def da(conf, z):
    """Angular diameter distance (flat LambdaCDM, h^-1 Mpc)."""
    if ('da', z) not in _S:
        from scipy.integrate import quad
        om = 0.3
        _S['da', z] = 2997.92458 * quad(lambda x: 1.0 / np.sqrt(om * (1 + x) ** 3 + 1 - om), 0, z)[0] / (1 + z)
    return _S['da', z]


def gals():
    """A subset of the galaxies, so that one step is fast."""
    if 'g' not in _S:
        w = pipe.world()
        d = ref.sphdist(140.4, 65.95, w.gals.ra, w.gals.dec)
        _S['g'] = w.gals[np.where(d < 0.45)[0]]
        _S['arr'] = _S['g']._ndarray.copy()
    return _S['g']


OPS = ['z1', 'z2', 'ztiny', 'zneg', 'find', 'findmag', 'finddeg', 'findwide', 'move', 'moveonly', 'copy', 'set', 'clear', 'write']


class Model:
    """What the cluster should look like."""

    def __init__(self):
        self.ra, self.dec, self.z = 140.40, 65.95, None
        self.dist = None        # by galaxy position in the catalog, in neighbor order
        self.idx = None
        self.tag = 0.0


def step(c, m, op, w):
    """Apply op to the cluster and the model; returns the cluster to continue with and the problems."""
    g = gals()
    bad = []
    if op in ('z1', 'z2', 'ztiny'):
        z = {'z1': 0.3, 'z2': 0.52, 'ztiny': 0.001}[op]
        c.redshift = z
        m.z = max(z, 0.01)
    elif op == 'zneg':
        try:
            c.redshift = -0.1
            bad.append('a negative redshift was accepted')
        except ValueError:
            pass
    elif op in ('find', 'findmag', 'finddeg', 'findwide'):
        rad = {'find': 1.0, 'findmag': 1.0, 'finddeg': 0.1, 'findwide': 3.0}[op]
        if op != 'finddeg' and m.z is None:
            return c, bad
        maxmag = 20.5 if op == 'findmag' else None
        c.find_neighbors(rad, g, megaparsec=op != 'finddeg', maxmag=maxmag)
        d = ref.sphdist(m.ra, m.dec, g.ra, g.dec)
        lim = rad if op == 'finddeg' else rad / (np.radians(1.0) * da(w.conf, m.z))
        ok = d < lim
        if maxmag is not None:
            ok &= np.asarray(g.refmag) <= maxmag
        edge = np.abs(d - lim) < 2e-4 * lim
        got = np.asarray(c.neighbors.index)
        if len(set(got.tolist())) != got.size:
            bad.append('a neighbor appears twice')
        miss = set(np.where(ok & ~edge)[0].tolist()) - set(got.tolist())
        more = set(got.tolist()) - set(np.where(ok | (edge & ((maxmag is None) | (np.asarray(g.refmag) <= 20.5))))[0].tolist())
        if miss or more:
            bad.append('%s: %d galaxies missing, %d too many' % (op, len(miss), len(more)))
        m.idx = got.copy()
        m.dist = d[got]
    elif op in ('move', 'moveonly'):
        m.ra, m.dec = (140.44, 65.93) if m.ra < 140.42 else (140.40, 65.95)
        c.ra, c.dec = m.ra, m.dec
        if op == 'move' and m.idx is not None:
            c.update_neighbors_dist()
            m.dist = ref.sphdist(m.ra, m.dec, _S['arr']['ra'][m.idx], _S['arr']['dec'][m.idx])
    elif op == 'copy':
        old = c
        before = (old._ndarray.copy(), None if old.neighbors is None else old.neighbors._ndarray.copy())
        c = old.copy()
        if c is old or (c.neighbors is not None and c.neighbors is old.neighbors):
            bad.append('the copy shares its neighbors')
        for a in ('r0', 'beta'):
            if getattr(c, a) != getattr(old, a):
                bad.append('the copy has another %s' % a)
        for a in ('config', 'zredstr', 'bkg', 'cbkg', 'zredbkg', 'cosmo'):
            if getattr(c, a) is not getattr(old, a):
                bad.append('the copy lost its %s' % a)
        if c._ndarray.tobytes() != old._ndarray.tobytes():
            bad.append('the copy has other catalog values')
        c._verif_origin = (old, before)
    elif op == 'set':
        idx = np.arange(5, 25)
        src = g[idx]
        c.set_neighbors(src)
        d = ref.sphdist(m.ra, m.dec, src.ra, src.dec)
        c.neighbors.dist = d
        c.neighbors.index = idx
        if np.any(np.asarray(c.neighbors.pfree) != 1.0):
            bad.append('new neighbors are not free')
        if m.z is not None:
            c.redshift = m.z
        c.neighbors.mag[0, 0] += 1.0        # must not reach the source
        if src.mag[0, 0] != _S['arr']['mag'][5, 0]:
            bad.append('neighbors share memory with their source')
        c.neighbors.mag[0, 0] -= 1.0
        m.idx, m.dist = idx, d
    elif op == 'clear':
        c.clear_neighbors()
        m.idx = m.dist = None
    elif op == 'write':
        m.tag += 1.0
        c.Lambda = m.tag
        if c.neighbors is not None and c.neighbors.size:
            c.neighbors.pfree[:] = 0.5
            c.neighbors.pmem[:] = 0.25
    return c, bad


def inspect(c, m, w):
    bad = []
    if float(c.ra) != m.ra or float(c.dec) != m.dec or float(c.Lambda) != m.tag:
        bad.append('catalog values %s, expected %s' % ((c.ra, c.dec, c.Lambda), (m.ra, m.dec, m.tag)))
    if m.z is None:
        if c.redshift is not None:
            bad.append('redshift %s' % c.redshift)
        return bad
    if abs(float(c.redshift) - m.z) > 1e-9:
        bad.append('redshift %s, expected %s' % (c.redshift, m.z))
    if abs(float(c.mstar) - float(w.par.mstar(m.z))) > 1e-6:
        bad.append('mstar %s, expected that of redshift %s' % (c.mstar, m.z))
    mpc = np.radians(1.0) * da(w.conf, m.z)
    if abs(float(c.mpc_scale) / mpc - 1) > 1e-3:
        bad.append('scale %s, expected %s' % (c.mpc_scale, mpc))
    if m.idx is None:
        if c.neighbors is not None:
            bad.append('neighbors that were cleared')
        return bad
    g = c.neighbors
    if g.size != m.idx.size or not np.array_equal(np.asarray(g.id), _S['arr']['id'][m.idx]):
        return bad + ['the neighbors are not the galaxies found']
    for n in ('ra', 'dec', 'refmag', 'mag', 'zred', 'mag_err'):
        if not np.array_equal(g._ndarray[n], _S['arr'][n][m.idx]):
            bad.append('%s of the neighbors is not that of their galaxies' % n)
    if g.size:
        if np.max(np.abs(np.asarray(g.dist) - m.dist)) > 1e-6:
            bad.append('distance off by %s deg' % np.max(np.abs(np.asarray(g.dist) - m.dist)))
        r = np.clip(mpc * m.dist, 1e-6, None)
        if np.max(np.abs(np.asarray(g.r) - r)) > 2e-3 * r.max() + 1e-9:
            bad.append('radius off by %s Mpc' % np.max(np.abs(np.asarray(g.r) - r)))
        if np.min(g.r) < 1e-6:
            bad.append('radius below the floor')
    return bad


def run_ops(seq):
    from redmapper import Cluster
    w = pipe.world()
    g = gals()
    if 'tools' not in _S:
        _S['tools'] = object()
    c = Cluster(config=w.conf, zredstr=w.par, bkg=w.bkg, zredbkg=_S['tools'], r0=0.8, beta=0.15)
    m = Model()
    c.ra, c.dec = m.ra, m.dec
    bad = []
    origins = []
    for op in seq:
        c, b = step(c, m, op, w)
        if op == 'copy':
            origins.append(c._verif_origin)
        b += inspect(c, m, w)
        if b:
            return ['after %s: %s' % (op, x) for x in b], ('bad',), True
    for old, (cv, nv) in origins:
        if old._ndarray.tobytes() != cv.tobytes() or (nv is not None and old.neighbors._ndarray.tobytes() != nv.tobytes()):
            bad.append('operations on a copy changed the original')
    if g._ndarray.tobytes() != _S['arr'].tobytes():
        bad.append('the galaxy catalog was changed')
    return bad, (m.z, None if m.idx is None else m.idx.size, m.tag), m.idx is not None


def points(kind):
    k = np.arange(60)
    if kind == 'wrap':
        return (359.7 + 0.6 * ((k * 37) % 60) / 60.0) % 360.0, -0.3 + 0.6 * ((k * 23) % 60) / 60.0
    if kind == 'pole':
        return (k * 97.0) % 360.0, 90.0 - 0.5 * ((k * 13) % 60) / 60.0
    if kind == 'south':
        return (k * 97.0) % 360.0, -90.0 + 0.5 * ((k * 13) % 60) / 60.0
    if kind == 'dup':
        return 100.0 + 0.01 * (k // 3), np.full(60, 30.0)
    return 200.0 + 0.3 * ((k * 7) % 60) / 60.0, 45.0 + 0.3 * ((k * 11) % 60) / 60.0


def run_match(case):
    kind, nper, radius, maxmatch, history = case
    from redmapper import GalaxyCatalog
    ra, dec = points(kind)
    if nper == 1:
        ra, dec = ra[:1], dec[:1]
    a = np.zeros(ra.size, dtype=[('id', 'i8'), ('ra', 'f8'), ('dec', 'f8')])
    a['id'], a['ra'], a['dec'] = np.arange(ra.size), ra, dec
    if history == 'append' and ra.size > 1:
        cat = GalaxyCatalog(a[:ra.size // 2].copy())
        cat.match_one(ra[0], dec[0], 0.1)
        cat.append(GalaxyCatalog(a[ra.size // 2:].copy()))
    elif history == 'slice':
        big = GalaxyCatalog(np.concatenate([a, a]))
        big.match_one(ra[0], dec[0], 0.1)
        cat = big[np.arange(a.size)]
    elif history == 'copy':
        import copy
        one = GalaxyCatalog(a.copy())
        one.match_one(ra[0], dec[0], 0.1)
        cat = copy.deepcopy(one)
    elif history == 'fields':
        cat = GalaxyCatalog(a.copy())
        cat.match_one(ra[0], dec[0], 0.1)
        cat.add_fields([('x', 'f4')])
    else:
        cat = GalaxyCatalog(a.copy())
    cra = np.concatenate([ra[:3], ra[:3] + 0.01, [ra.mean(), 10.0]]) % 360.0
    cdec = np.clip(np.concatenate([dec[:3], dec[:3] - 0.005, [dec.mean(), -10.0]]), -90, 90)
    d = np.array([ref.sphdist(x, y, ra, dec) for x, y in zip(cra, cdec)])
    bad = []
    pairs = 0
    for rep in range(2):
        for k in range(cra.size):
            i, dist = cat.match_one(cra[k], cdec[k], radius)
            i, dist = np.atleast_1d(i), np.atleast_1d(dist)
            edge = np.abs(d[k] - radius) < 1e-6
            if set(np.where((d[k] < radius) & ~edge)[0].tolist()) - set(i.tolist()) or len(set(i.tolist())) != i.size or np.any(d[k][i] > radius + 1e-6):
                bad.append('galaxies within %s deg of (%.4f, %.4f): %s, expected %s' % (radius, cra[k], cdec[k], sorted(i.tolist()), np.where(d[k] < radius)[0].tolist()))
            elif i.size and np.max(np.abs(d[k][i] - dist)) > 2e-6:
                bad.append('distances are wrong')
            pairs += i.size
    rad = np.full(cra.size, radius)
    if history == 'arr':
        rad = rad * (1 + 0.5 * (np.arange(cra.size) % 2))
    i0, i1, dist = cat.match_many(cra, cdec, rad if history == 'arr' else radius, maxmatch=maxmatch)
    for k in range(cra.size):
        mine = i1[i0 == k]
        edge = np.abs(d[k] - rad[k]) < 1e-6
        want = np.where((d[k] < rad[k]) & ~edge)[0]
        if maxmatch == 0:
            if set(want.tolist()) - set(mine.tolist()) or np.any(d[k][mine] > rad[k] + 1e-6) or len(set(mine.tolist())) != mine.size:
                bad.append('many: position %d matches %s, expected %s' % (k, sorted(mine.tolist()), want.tolist()))
        else:
            n = min(maxmatch, int((d[k] < rad[k] + 1e-6).sum()))
            if mine.size > n or mine.size < min(maxmatch, want.size):
                bad.append('many: %d matches, expected %d' % (mine.size, n))
            elif mine.size:
                # the nearest ones
                near = np.sort(d[k])[:mine.size]
                if np.max(np.abs(np.sort(d[k][mine]) - near)) > 2e-6:
                    bad.append('many: not the nearest galaxies')
        if mine.size and np.max(np.abs(d[k][mine] - dist[i0 == k])) > 2e-6:
            bad.append('many: distances are wrong')
    return bad, (kind, radius, maxmatch, history, pairs > 0), pairs > 0


def body(check):
    pipe.setup()
    gals()
    depth = 5 if check.thorough else 3
    cases = [list(s) for n in range(1, depth) for s in itertools.product(OPS, repeat=n)]
    # deeper: from a cluster with redshift and neighbors
    tail = itertools.product([o for o in OPS if o not in ('zneg', 'finddeg', 'findwide')], repeat=3 if not check.thorough else 4)
    cases += [['z1', 'find'] + list(t) for t in tail]
    check.run_cases(cases, run_ops, 'sequences')
    cases = [list(x) for x in itertools.product(('wrap', 'pole', 'south', 'dup', 'field'), (60, 1), (1.0 / 3600, 0.02, 0.11, 0.7), (0, 1, 2), ('plain', 'append', 'slice', 'copy', 'fields', 'arr'))]
    check.run_cases(cases, run_match, 'matching')


if __name__ == '__main__':
    core.main('C14', 'model_checking',
              'All sequences of up to 2 cluster operations (4 thorough), and of 3 (4 thorough) after a redshift and a neighbor search, each compared with a '
              'reference model after every step; a lattice of match requests compared with brute force. Non-trivial: there are neighbors or matches.', body)
