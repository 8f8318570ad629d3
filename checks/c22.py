"""C22: the background is the density of all galaxies of the region, and is looked up where the galaxy is."""
import itertools
import os
import shutil

import fitsio
import numpy as np

from mc import build, core, ref, rm, sched

INF = float('inf')


# ------------------------------------------------------------------ tables and interpolation
def lin(v, x, q, extrapolate):
    """Linear interpolation along the first axis."""
    v, x, q = np.asarray(v, 'f8'), np.asarray(x, 'f8'), np.asarray(q, 'f8')
    if not extrapolate:
        q = np.clip(q, x[0], x[-1])
    k = np.clip(np.searchsorted(x, q) - 1, 0, len(x) - 2)
    w = (q - x[k]) / (x[k + 1] - x[k])
    w = w.reshape((-1,) + (1,) * (v.ndim - 1))
    return v[k] * (1 - w) + v[k + 1] * w


def table_chisq(path, z, chi, mag, vals, nln=3):
    dt = [('zbins', 'f4', len(z)), ('zrange', 'f4', 2), ('zbinsize', 'f4'), ('chisqbins', 'f4', len(chi)), ('chisqrange', 'f4', 2), ('chisqbinsize', 'f4'), ('lnchisqbins', 'f4', nln),
          ('refmagbins', 'f4', len(mag)), ('refmagrange', 'f4', 2), ('refmagbinsize', 'f4'), ('sigma_g', 'f4', vals.shape), ('sigma_lng', 'f4', (len(mag), nln, len(z)))]
    a = np.zeros(1, dtype=dt)
    for n, b in (('z', z), ('chisq', chi), ('refmag', mag)):
        a[n + 'bins'][0], a[n + 'binsize'][0] = b, b[1] - b[0]
        a[n + 'range'][0] = (b[0], b[-1] + (b[1] - b[0]))
    a['sigma_g'][0] = vals
    a['lnchisqbins'][0] = np.arange(nln)
    fitsio.write(path, a, extname='CHISQBKG', clobber=True)
    return a


def floor_nodes(lo, hi, step, q):
    """Indices of the cell (nodes at lo + k step) that holds q; two for a value on a node."""
    n = int(np.ceil((hi - lo) / step - 1e-6))
    x = (q - lo) / step
    ks = {int(np.floor(x + 1e-4)), int(np.floor(x - 1e-4))}
    return sorted(k for k in ks if 0 <= k < n), n


def run_chisq(case):
    """Table of chisq background: cells of values; looked up at a lattice of positions."""
    nz, nchi, nmag, pattern, nln = case
    from redmapper.background import Background
    d = rm.workdir('c22')
    try:
        # steps that float32 holds well
        z = 0.125 + np.arange(nz) * 0.015625
        chi = np.arange(nchi) * (0.5 if nchi != 3 else 1.0)
        mag = 15.0 + np.arange(nmag) * 0.125
        n = nz * nchi * nmag
        v = np.array([pattern[i % len(pattern)] for i in range(n)], 'f8').reshape(nmag, nchi, nz)
        table_chisq(d + '/b.fit', z, chi, mag, v, nln)
        b = Background(d + '/b.fit')
        hi = [x[-1] + x[1] - x[0] for x in (z, chi, mag)]
        qz = [z[0] - 0.01, z[0] + 0.0002, z[0] + 0.0052, z[-1] + 0.0003, hi[0] - 0.0007, hi[0] + 0.02]
        qc = [-0.1, 0.0, 0.2, 0.5, 0.7, hi[1] - 0.3, hi[1] + 0.3, 500.0]
        qm = [14.0, mag[0] + 0.0043, mag[0] + 0.0631, mag[-1] + 0.0042, hi[2] - 0.0152, hi[2] + 0.1, 30.0]
        bad = []
        grid = list(itertools.product(qc, qm))
        c, m = np.array([g[0] for g in grid]), np.array([g[1] for g in grid])
        fm = np.maximum(lin(v, mag, np.arange(mag[0], hi[2] - 1e-5, 0.01), False), 0)
        for zq in qz:
            got = {a: b.sigma_g_lookup(zq, c, m, allow0=a) for a in (True, False)}
            zi = int(np.clip(np.round((zq - z[0]) / 0.001), 0, int(np.ceil((hi[0] - z[0]) / 0.001 - 1e-6)) - 1))
            zn = z[0] + 0.001 * zi
            for k, (cq, mq) in enumerate(grid):
                cs, _ = floor_nodes(0.0, hi[1], 0.5, cq)
                if cq == 0:
                    cs = [0]
                ms, _ = floor_nodes(mag[0], hi[2], 0.01, mq)
                exp = set()
                for ci, mi in itertools.product(cs, ms):
                    x = fm[mi]
                    x = np.maximum(lin(x, chi, [ci * 0.5], False), 0)[0]
                    exp.add(float(np.maximum(lin(x, z, [zn], False), 0)[0]))
                if not exp:
                    exp = {INF}
                for allow0 in (True, False):
                    e = {INF if (x == 0 and not allow0) else x for x in exp}
                    g = got[allow0][k]
                    if not any(g == x or abs(g - x) <= 1e-3 * max(abs(x), 1.0) for x in e):
                        bad.append('z %.4f chisq %.2f mag %.3f: background %s, expected %s' % (zq, cq, mq, g, sorted(e)))
        # one redshift per galaxy
        zz = np.array([qz[i % len(qz)] for i in range(len(grid))])
        each = b.sigma_g_lookup(zz, c, m)
        for k in range(len(grid)):
            g = b.sigma_g_lookup(zz[k], c[k: k + 1], m[k: k + 1])[0]
            if g != each[k]:
                bad.append('galaxy %d alone has %s, together %s' % (k, g, each[k]))
        return bad[:3], (nz, nchi, nmag), True
    finally:
        shutil.rmtree(d)


def run_zred(case):
    nz, nmag, pattern = case
    from redmapper.background import ZredBackground
    d = rm.workdir('c22')
    try:
        z = 0.125 + np.arange(nz) * 0.015625
        mag = 15.0 + np.arange(nmag) * 0.125
        v = np.array([pattern[i % len(pattern)] for i in range(nz * nmag)], 'f8').reshape(nmag, nz)
        a = np.zeros(1, dtype=[('zredbins', 'f4', nz), ('zredrange', 'f4', 2), ('zredbinsize', 'f4'), ('refmagbins', 'f4', nmag), ('refmagrange', 'f4', 2), ('refmagbinsize', 'f4'), ('sigma_g', 'f4', v.shape)])
        hi = [x[-1] + x[1] - x[0] for x in (z, mag)]
        a['zredbins'][0], a['zredrange'][0], a['refmagbins'][0], a['refmagrange'][0], a['sigma_g'][0] = z, (z[0], hi[0]), mag, (mag[0], hi[1]), v
        fitsio.write(d + '/b.fit', a, extname='ZREDBKG', clobber=True)
        b = ZredBackground(d + '/b.fit')
        fl = v.min()
        qz = [z[0] - 0.01, z[0] + 0.0002, z[0] + 0.0052, z[-1] + 0.0003, hi[0] - 0.0012]
        qm = [14.0, mag[0] + 0.0043, mag[0] + 0.0631, mag[-1] + 0.0042, hi[1] - 0.0152]
        grid = list(itertools.product(qz, qm))
        got = b.sigma_g_lookup(np.array([g[0] for g in grid]), np.array([g[1] for g in grid]))
        bad = []
        fm = np.maximum(lin(v, mag, mag[0] + 0.01 * np.arange(200), True), fl)
        for (zq, mq), g in zip(grid, got):
            exp = INF
            if zq > z[0] and mq > mag[0]:
                x = fm[int(np.floor((mq - mag[0]) / 0.01 + 1e-4))]
                zn = z[0] + 0.001 * np.floor((zq - z[0]) / 0.001 + 1e-4)
                exp = float(np.maximum(lin(x, z, [zn], True), fl)[0])
            if not (g == exp or abs(g - exp) <= 2e-3 * max(abs(exp), 1.0)):
                bad.append('zred %.4f mag %.3f: background %s, expected %s' % (zq, mq, g, exp))
        return bad[:3], (nz, nmag), True
    finally:
        shutil.rmtree(d)


def run_color(case):
    """Tables of one and two colors."""
    nc1, nc2, nmag, step, pattern, hdr, swap = case
    from redmapper.color_background import ColorBackground
    d = rm.workdir('c22')
    try:
        c1 = 0.5 + np.arange(nc1) * step
        c2 = 1.0 + np.arange(nc2) * step
        mag = 15.0 + np.arange(nmag) * 0.125
        areas = np.arange(nmag) * 2.0 + 4.0

        def common(extra):
            return [('COL1', 'i2'), ('COL2', 'i2'), ('REFMAGBINS', 'f4', nmag), ('REFMAGRANGE', 'f4', 2), ('REFMAGBINSIZE', 'f4')] + ([('AREAS', 'f4', nmag)] if hdr == 'areas' else []) + extra
        out = {}
        first = True
        for i, j in ((0, 0), (1, 1), (0, 1)):
            bi, bj = (c1, c2)[i], (c1, c2)[j]
            if i == j:
                v = np.array([pattern[(q + i) % len(pattern)] for q in range(nmag * len(bi))], 'f8').reshape(nmag, len(bi)) + 1.0 * i
                a = np.zeros(1, dtype=common([('COLBINS', 'f4', len(bi)), ('COLRANGE', 'f4', 2), ('COLBINSIZE', 'f4'), ('BC', 'f4', v.shape)]))
                a['COLBINS'][0], a['COLRANGE'][0], a['COLBINSIZE'][0] = bi, (bi[0], bi[-1] + step), step
            else:
                v = np.array([pattern[(q // 2) % len(pattern)] for q in range(nmag * len(bi) * len(bj))], 'f8').reshape(nmag, len(bj), len(bi)) + 0.5
                a = np.zeros(1, dtype=common([('COL1BINS', 'f4', len(bi)), ('COL1RANGE', 'f4', 2), ('COL1BINSIZE', 'f4'), ('COL2BINS', 'f4', len(bj)), ('COL2RANGE', 'f4', 2), ('COL2BINSIZE', 'f4'), ('BC', 'f4', v.shape)]))
                for n, b in (('COL1', bi), ('COL2', bj)):
                    a[n + 'BINS'][0], a[n + 'RANGE'][0], a[n + 'BINSIZE'][0] = b, (b[0], b[-1] + step), step
            a['REFMAGBINS'][0], a['REFMAGRANGE'][0], a['REFMAGBINSIZE'][0], a['BC'][0] = mag, (15.0, mag[-1] + 0.125), 0.125, v
            if hdr == 'areas':
                a['AREAS'][0] = areas
            fitsio.write(d + '/b.fit', a, extname='%02d_%02d_REF' % (i, j), header={'AREA': 7.0}, clobber=first)
            first = False
            out[i, j] = v
        b = ColorBackground(d + '/b.fit', usehdrarea=hdr != 'none')
        bad = []

        def node(q, lo, st, top):
            return lo + st * np.clip(np.floor((q - lo) / st + 1e-4), 0, np.ceil((top - lo) / st - 1e-6) - 1)
        qm = np.array([15.0043, 15.0631, mag[-1] + 0.0042, mag[-1] + 0.1152, mag[-1] + 5.0])
        mtop = mag[-1] + 0.125
        for i, bins in ((0, c1), (1, c2)):
            top = bins[-1] + step
            for mq in qm:
                fine = bins[0] + 0.01 * np.arange(int(np.ceil((top - bins[0]) / 0.01 - 1e-6)))
                vm = np.maximum(lin(out[i, i], mag, [node(mq, 15.0, 0.01, mtop)], True)[0], 0)
                vc = np.maximum(lin(vm, bins, fine, True), 0)
                q = fine + 0.0043
                got = b.lookup_diagonal(i, q, np.full(q.size, mq))
                n = vm.sum() * step
                if n > 0 and np.max(np.abs(got - vc / n)) > 2e-3 * max(1.0, np.max(vc / n)):
                    k = np.argmax(np.abs(got - vc / n))
                    bad.append('color %d %.3f mag %.3f: background %s, expected %s' % (i, q[k], mq, got[k], vc[k] / n))
                if mq < mtop:
                    ar = {'none': 1.0, 'hdr': 7.0}.get(hdr) or float(lin(areas, mag, [node(mq, 15.0, 0.01, mtop)], True)[0])
                    s = b.sigma_g_diagonal(i, q, np.full(q.size, mq))
                    e = np.where(vc < 1e-6, 0.0, vc / ar)      # no background there: infinite
                    none = np.isinf(s) | (s < 1e-6)
                    if np.any(none != (e == 0)) or np.any(s == 0) or np.max(np.abs(e - np.where(none, 0, s))) > 2e-3 * max(1.0, np.max(vc)):
                        bad.append('density of color %d, mag %.3f: %s, expected %s' % (i, mq, s[:5], e[:5]))
                    s = b.sigma_g_diagonal(i, np.array([top + 0.02, top + 3.0]), np.full(2, mq))
                    if not np.all(np.isinf(s)):
                        bad.append('density beyond the color range: %s' % s)
                else:
                    s = b.sigma_g_diagonal(i, q, np.full(q.size, mq))
                    if not np.all(np.isinf(s)):
                        bad.append('density beyond the magnitude range: %s' % s)
            if np.max(np.abs(np.asarray(b.get_colrange(i)) - (bins[0], top))) > 1e-5:
                bad.append('color range %s' % b.get_colrange(i))
        f1 = c1[0] + 0.01 * np.arange(int(np.ceil(step * nc1 / 0.01 - 1e-6)))
        f2 = c2[0] + 0.01 * np.arange(int(np.ceil(step * nc2 / 0.01 - 1e-6)))
        for mq in qm[:4]:
            vm = np.maximum(lin(out[0, 1], mag, [node(mq, 15.0, 0.01, mtop)], True)[0], 0)
            v1 = np.maximum(lin(vm.T, c1, f1, True), 0).T
            v2 = np.maximum(lin(v1, c2, f2, True), 0)
            n = v2.sum() * 1e-4
            g1, g2 = np.meshgrid(f1 + 0.0043, f2 + 0.0043)
            args = (1, 0, g2.ravel(), g1.ravel()) if swap else (0, 1, g1.ravel(), g2.ravel())
            if swap:
                # asked for in the other order, the table of (0, 1) is used with its own order of colors
                args = (1, 0, g1.ravel(), g2.ravel())
            got = b.lookup_offdiag(*args, np.full(g1.size, mq)).reshape(v2.shape)
            if np.max(np.abs(got - v2 / n)) > 2e-3 * max(1.0, np.max(v2 / n)):
                bad.append('two colors, mag %.3f: background %s, expected %s' % (mq, got.ravel()[:4], (v2 / n).ravel()[:4]))
        z = np.zeros(2)
        for f, a in ((b.lookup_diagonal, (5, z, z)), (b.lookup_offdiag, (0, 5, z, z, z))):
            if np.any(f(*a, doRaise=False) != 0):
                bad.append('a color without table has a background')
            try:
                f(*a)
                bad.append('a color without table is accepted')
            except KeyError:
                pass
        return bad[:3], (nc1, nc2, step), True
    finally:
        shutil.rmtree(d)


def run_cic(case):
    """Cloud in cell assignment of small sets of points."""
    dims, pts, average, isolated = case
    from redmapper.utilities import cic
    p = np.array(pts, 'f8').reshape(len(pts), len(dims))
    val = np.arange(len(pts)) + 1.0
    ws = []
    for k, n in enumerate(dims):
        w = np.zeros((len(pts), n))
        for i in range(len(pts)):
            for q in range(-1, n + 1):
                x = max(0.0, 1 - abs(p[i, k] - (q + 0.5)))
                if 0 <= q < n:
                    w[i, q] += x
                elif not isolated:
                    w[i, q % n] += x
        ws.append(w)
    while len(ws) < 3:
        ws.append(np.ones((len(pts), 1)))
    exp = np.einsum('i,ix,iy,iz->zyx', val, *ws)
    tot = np.einsum('ix,iy,iz->zyx', *ws)
    if average:
        exp = np.where(tot > 0, exp / np.where(tot > 0, tot, 1), 0)
    exp = exp.reshape(dims[::-1])
    a = []
    for k, n in enumerate(dims):
        a += [p[:, k], n]
    got = cic(val, *a, average=average, isolated=isolated)
    if got.shape != exp.shape or np.max(np.abs(got - exp)) > 1e-9:
        return ['assignment %s, expected %s' % (got.tolist(), exp.tolist())], dims, True
    return [], len(dims), True


# ------------------------------------------------------------------ generation
G = {}
NPIX = 16


def prepare():
    """The galaxies of the test catalog, also as one file."""
    if G:
        return
    from redmapper import GalaxyCatalog
    G['gal'] = os.path.join(build.DATA, 'pixelized_dr8_test', 'dr8_test_galaxies_master_table.fit')
    G['zred'] = os.path.join(build.DATA, 'zreds_test', 'dr8_test_zreds_master_table.fit')
    G['master'] = fitsio.read(G['gal'])
    G['cat'] = GalaxyCatalog.from_galfile(G['gal'], zredfile=G['zred'])
    import hpgeom as hpg
    G['pix'] = hpg.angle_to_pixel(128, G['cat'].ra, G['cat'].dec, nest=False)
    d = build.scratch() + '/c22gal'
    os.makedirs(d, exist_ok=True)
    G['flat'] = d + '/flat.fit'
    m = G['master']
    out = np.zeros(G['cat'].size, dtype=[('id', 'i8'), ('ra', 'f8'), ('dec', 'f8'), ('refmag', 'f4'), ('refmag_err', 'f4'), ('mag', 'f4', 5), ('mag_err', 'f4', 5), ('ebv', 'f4')])
    for n in out.dtype.names:
        if n in G['cat'].dtype.names:
            out[n] = G['cat']._ndarray[n]
    G['flatcat'] = out
    for k, n in enumerate((0, 1, 700)):
        fitsio.write(d + '/flat%d.fit' % n, out[:n] if n else out, clobber=True,
                     header={'PIXELS': 0, 'FITS': 1, 'MODE': 'SDSS', 'AREA': float(m['AREA'][0]), 'LIM_REF': float(m['LIM_REF'][0]), 'NMAG': 5, 'ZP': 22.5, 'U_IND': 0, 'G_IND': 1, 'R_IND': 2, 'I_IND': 3, 'Z_IND': 4})
    G['flat'] = d


def conf(d, over, region):
    from redmapper import Configuration
    over = dict(over)
    if over.pop('nodepth', None):
        over['depthfile'] = rm.DROP
        over.setdefault('area', 9.0)
    rm.write_config(d + '/c.yml', **dict({'outpath': d, 'bkgfile': d + '/b.fit', 'bkgfile_color': d + '/cb.fit', 'zredfile': G['zred'], 'calib_nproc': 1}, **over))
    c = rm.quiet(Configuration(d + '/c.yml'))
    if region:
        c.d.nside, c.d.hpix = region
    return c


def members(region):
    """Galaxies whose file is in the region."""
    if not region:
        return np.ones(G['pix'].size, bool)
    import hpgeom as hpg
    nside, hpix = region
    m = G['master']
    ra, dec = hpg.pixel_to_angle(128, m['HPIX'][0], nest=False)
    big = hpg.angle_to_pixel(nside, ra, dec, nest=False)
    return np.isin(G['pix'], m['HPIX'][0][np.isin(big, hpix)])


def weights(x, lo, hi, n):
    """Cloud in cell weights (points x cells) of n cells between lo and hi; none outside."""
    pos = (x - lo) * n / (hi - lo)
    w = np.maximum(0, 1 - np.abs(pos[:, None] - (np.arange(n) + 0.5)[None, :]))
    w[~((x >= lo) & (x < hi))] = 0
    return w


def areas_of(c, bins):
    from redmapper.depthmap import DepthMap
    if c.depthfile is None:
        return np.full(bins.size, float(c.area))
    return DepthMap(c).calc_areas(bins)


def compare(got, exp, what):
    if got.shape != exp.shape:
        return ['%s: shape %s, expected %s' % (what, got.shape, exp.shape)]
    # a galaxy at the border of a cell may fall on either side in single precision; weights are continuous there
    tol = 2e-3 * max(1e-6, float(np.max(exp)))
    d = np.abs(got - exp)
    if not np.all(np.isfinite(got)) or d.max() > tol:
        k = np.unravel_index(np.argmax(np.where(np.isfinite(got), d, 1e9)), d.shape)
        return ['%s: density of cell %s is %s, expected %s' % (what, tuple(int(x) for x in k), got[k], exp[k])]
    return []


CH = {}


def chisq_at(c, z):
    from redmapper import RedSequenceColorPar
    key = round(float(z), 6)
    if key not in CH:
        if 'zr' not in CH:
            CH['zr'] = RedSequenceColorPar(c.parfile)
        CH[key] = CH['zr'].calculate_chisq(G['cat'], z)
    if ('m', key, c.bkg_zbinsize) not in CH:
        from redmapper.utilities import MStar
        CH['m', key, c.bkg_zbinsize] = float(MStar(CH['zr'].mstar_survey, CH['zr'].mstar_band)(np.round((z + c.bkg_zbinsize) * 200) / 200))
    return CH[key], CH['m', key, c.bkg_zbinsize]


def run_gen(case):
    over, region, flat, natatime, deep, again = case
    prepare()
    from redmapper.background import Background, BackgroundGenerator
    sched.serial_pools(pickled=True)
    d = rm.workdir('c22')
    try:
        over = dict(over)
        sel = members(region)
        if flat is not None:
            over['galfile'] = G['flat'] + '/flat%d.fit' % flat
            sel = np.ones(sel.size, bool)
            if flat:
                sel[flat:] = False
        c = conf(d, over, region)
        if again == 'other':
            fitsio.write(c.bkgfile, np.zeros(1, dtype=[('a', 'i4')]), extname='ZREDBKG', clobber=True)
        BackgroundGenerator(c).run(clobber=again == 'clobber', natatime=natatime, deepmode=bool(deep))
        if again == 'twice':
            before = open(c.bkgfile, 'rb').read()
            BackgroundGenerator(c).run(natatime=natatime, deepmode=bool(deep))
            if open(c.bkgfile, 'rb').read() != before:
                return ['the finished background is changed'], 'changed', True
        with fitsio.FITS(c.bkgfile) as f:
            names = [e.get_extname() for e in f[1:]]
        if names != (['ZREDBKG', 'CHISQBKG'] if again == 'other' else ['CHISQBKG']):
            return ['extensions %s' % names], 'ext', True
        o = fitsio.read(c.bkgfile, ext='CHISQBKG', lower=True)[0]
        nz = int(np.ceil(round((c.zrange[1] - c.zrange[0]) / c.bkg_zbinsize, 6)))
        nm = int(np.ceil(round((c.limmag_catalog - 12) / c.bkg_refmagbinsize, 6)))
        nc = int(np.ceil(round(c.chisq_max / c.bkg_chisqbinsize, 6)))
        mb = 12 + np.arange(nm) * c.bkg_refmagbinsize
        ar = areas_of(c, mb)
        mag = np.asarray(G['cat'].refmag, 'f8')
        exp, expl = np.zeros((nm, nc, nz)), np.zeros((nm, 40, nz))
        for i in range(nz):
            z = c.zrange[0] + i * c.bkg_zbinsize
            chi, mstar = chisq_at(c, z)
            lim = mstar - 2.5 * np.log10(0.01 if deep else 0.1)
            lim = c.limmag_catalog - 0.01 if lim >= c.limmag_catalog else lim
            lim = mb[int(np.clip((lim - 12) * nm / (c.limmag_catalog - 12), 0, nm - 1))] + c.bkg_refmagbinsize
            u = sel & (mag > 12) & (mag < lim)
            wm = weights(mag[u], 12.0, float(c.limmag_catalog), nm)
            # galaxies just inside are at infinity of the last cell
            exp[:, :, i] = wm.T @ weights(chi[u], 0.0, float(c.chisq_max), nc) / (ar[:, None] * c.bkg_refmagbinsize * c.bkg_chisqbinsize)
            with np.errstate(divide='ignore'):
                expl[:, :, i] = wm.T @ weights(np.log(np.maximum(chi[u], 1e-30)), -2.0, 6.0, 40) / (ar[:, None] * c.bkg_refmagbinsize * 0.2)
        ok = np.isfinite(ar) & (ar > 0)
        bad = compare(o['sigma_g'][ok], exp[ok], 'chisq')
        bad += compare(o['sigma_lng'][ok], expl[ok], 'log chisq')
        for n, v in (('zbins', c.zrange[0] + np.arange(nz) * c.bkg_zbinsize), ('refmagbins', mb), ('chisqbins', np.arange(nc) * c.bkg_chisqbinsize), ('lnchisqbins', np.arange(40) * 0.2 - 2.0), ('lnchisqrange', [-2.0, 6.0]), ('areas', ar), ('zrange', c.zrange), ('refmagrange', [12.0, c.limmag_catalog]), ('chisqrange', [0.0, c.chisq_max])):
            if o[n].shape != np.shape(v) or np.max(np.abs(o[n] - v)) > 1e-5 * max(1.0, np.max(np.abs(v))):
                bad.append('%s %s' % (n, o[n]))
        if not bad and not deep and over.get('_read', 1) and again != 'other':
            b = Background(c.bkgfile)
            j = np.unravel_index(np.argmax(exp), exp.shape)
            g = b.sigma_g_lookup(float(o['zbins'][j[2]]), np.array([j[1] * c.bkg_chisqbinsize + 0.001]), np.array([mb[j[0]] + 0.001]))[0]
            near = exp[max(j[0] - 1, 0): j[0] + 2, max(j[1] - 1, 0): j[1] + 2, j[2]]
            if not near.min() * 0.99 <= g <= near.max() * 1.01:
                bad.append('looked up %s at the densest cell, expected %s' % (g, exp[j]))
        return bad[:3], (nz, nm, nc), exp.max() > 0
    finally:
        shutil.rmtree(d)


def run_genzred(case):
    over, region, again = case
    prepare()
    from redmapper.background import ZredBackgroundGenerator
    d = rm.workdir('c22')
    try:
        c = conf(d, over, region)
        if again == 'other':
            fitsio.write(c.bkgfile, np.zeros(1, dtype=[('a', 'i4')]), extname='CHISQBKG', clobber=True)
        ZredBackgroundGenerator(c).run(clobber=again == 'clobber')
        if again == 'twice':
            before = open(c.bkgfile, 'rb').read()
            ZredBackgroundGenerator(c).run()
            if open(c.bkgfile, 'rb').read() != before:
                return ['the finished background is changed'], 'changed', True
        with fitsio.FITS(c.bkgfile) as f:
            names = [e.get_extname() for e in f[1:]]
        if names != (['CHISQBKG', 'ZREDBKG'] if again == 'other' else ['ZREDBKG']):
            return ['extensions %s' % names], 'ext', True
        o = fitsio.read(c.bkgfile, ext='ZREDBKG', lower=True)[0]
        sel = members(region)
        g = G['cat']
        lo, hi = (float(x) for x in o['zredrange'])
        bad = []
        if abs(lo - c.zrange[0]) > 0.011 or abs(hi - c.zrange[1]) > 0.011:
            bad.append('range of zred %s' % o['zredrange'])
        nm = int(np.ceil(round((c.limmag_catalog - 12) / c.bkg_refmagbinsize, 6)))
        nz = o['zredbins'].size
        if abs((hi - lo) / c.bkg_zredbinsize - nz) > 1.001:
            bad.append('%d bins of zred' % nz)
        mb = 12 + np.arange(nm) * c.bkg_refmagbinsize
        ar = areas_of(c, mb)
        u = sel & (g.chisq < c.wcen_zred_chisq_max) & (g.refmag > 12)
        wz, wm = weights(np.asarray(g.zred[u], 'f8'), lo, hi, nz), weights(np.asarray(g.refmag[u], 'f8'), 12.0, float(c.limmag_catalog), nm)
        exp = np.maximum(wm.T @ wz, 0.1) / (ar[:, None] * c.bkg_refmagbinsize * c.bkg_zredbinsize)
        ok = np.isfinite(ar) & (ar > 0)
        bad += compare(o['sigma_g'][ok], exp[ok], 'zred')
        for n, v in (('refmagbins', mb), ('zredbins', lo + np.arange(nz) * c.bkg_zredbinsize), ('areas', ar), ('refmagrange', [12.0, c.limmag_catalog])):
            if o[n].shape != np.shape(v) or np.max(np.abs(o[n] - v)) > 1e-5 * max(1.0, np.max(np.abs(v))):
                bad.append('%s %s' % (n, o[n]))
        return bad[:3], (nz, nm), True
    finally:
        shutil.rmtree(d)


def triple(a, b, c):
    """Sum over points of the outer products of their weights (at most two each)."""
    out = np.zeros((a.shape[1], b.shape[1], c.shape[1]))
    top = []
    for w in (a, b, c):
        k = np.argsort(-w, axis=1)[:, :2]
        top.append([(k[:, q], np.take_along_axis(w, k, 1)[:, q]) for q in (0, 1)])
    for (i, x), (j, y), (k, z) in itertools.product(*top):
        np.add.at(out, (i, j, k), x * y * z)
    return out


def run_gencolor(case):
    over, region, minr, again = case
    prepare()
    from redmapper.color_background import ColorBackgroundGenerator
    d = rm.workdir('c22')
    try:
        c = conf(d, over, region)
        ColorBackgroundGenerator(c, minrangecheck=minr).run(clobber=again == 'clobber')
        if again == 'twice':
            before = open(c.bkgfile_color, 'rb').read()
            ColorBackgroundGenerator(c, minrangecheck=minr + 3).run()
            if open(c.bkgfile_color, 'rb').read() != before:
                return ['the finished background is changed'], 'changed', True
        sel = members(region)
        g = G['cat']
        mag = np.asarray(g.refmag, 'f8')
        col = -np.diff(np.asarray(g.mag, 'f8'), axis=1)
        lim = float(c.limmag_ref)
        nm = int(np.ceil(round((lim - 12) / 0.05, 4)))
        mb = 12 + np.arange(nm) * 0.05
        ar = areas_of(c, mb)
        ok = np.isfinite(ar)
        bad = []
        with fitsio.FITS(c.bkgfile_color) as f:
            names = [e.get_extname() for e in f[1:]]
            if names != ['%02d_%02d_REF' % (i, j) for i in range(4) for j in range(i, 4)]:
                return ['extensions %s' % names], 'ext', True
            rng = {}
            for i in range(4):
                o = f['%02d_%02d_REF' % (i, i)].read()[0]
                lo, hi = (float(x) for x in o['COLRANGE'])
                h, e = np.histogram(col[sel & (mag < lim - 0.5), i], bins=np.arange(-2, 5.001, 0.02))
                # the range covers all cells with enough galaxies, and ends at such cells (a galaxy at the border of two cells may be in either)
                sure, may = e[:-1][h > minr + 1], e[:-1][h > minr - 2]
                if sure.size and (lo > sure.min() + 0.001 or hi < sure.max() + 0.019):
                    bad.append('range of color %d %s, expected %s' % (i, o['COLRANGE'], (sure.min(), sure.max() + 0.02)))
                if may.size and (lo < may.min() - 0.001 or hi > may.max() + 0.021):
                    bad.append('range of color %d %s, at most %s' % (i, o['COLRANGE'], (may.min(), may.max() + 0.02)))
                rng[i] = (lo, hi)
            wm = weights(mag[sel], 12.0, lim, nm)
            for i in range(4):
                for j in range(i, 4):
                    o = f['%02d_%02d_REF' % (i, j)].read()[0]
                    hdr = f['%02d_%02d_REF' % (i, j)].read_header()
                    if abs(hdr['AREA'] - c.area) > 1e-3:
                        bad.append('area %s' % hdr['AREA'])
                    if i == j:
                        n = o['COLBINS'].size
                        w = weights(col[sel, i], *rng[i], n)
                        exp = wm.T @ w / (0.05 * 0.02)
                        bad += compare(o['BC'], exp, 'color %d' % i)
                        if np.max(np.abs(o['N'] - exp.sum(axis=1) * 0.02)) > 2e-3 * max(1.0, o['N'].max()):
                            bad.append('counts of color %d' % i)
                    else:
                        w1, w2 = weights(col[sel, i], *rng[i], o['COL1BINS'].size), weights(col[sel, j], *rng[j], o['COL2BINS'].size)
                        exp = triple(wm, w2, w1) / (0.05 * 0.02 * 0.02)
                        bad += compare(o['BC'], exp, 'colors %d %d' % (i, j))
                        if np.max(np.abs(o['N'] - exp.sum(axis=(1, 2)) * 0.02 ** 2)) > 2e-3 * max(1.0, o['N'].max()):
                            bad.append('counts of colors %d %d' % (i, j))
                    if np.max(np.abs(o['AREAS'] - ar)[ok]) > 1e-4 * np.max(ar[ok]) or np.max(np.abs(o['REFMAGBINS'] - mb)) > 1e-4:
                        bad.append('areas or bins')
        return bad[:3], len(region[1]) if region else 0, True
    finally:
        shutil.rmtree(d)


def body(check):
    th = check.thorough
    prepare()
    pats = [[1.0, 3.0, 2.0], [0.0, 2.0, 0.0, 5.0], [4.0, 0.0, 0.0, 1.0, 7.0], [1.0, -1.0, 3.0, 0.5, 2.0, 8.0, 0.25]]
    if th:
        pats += [list(p) for p in itertools.product((0.0, 1.0, 5.0), repeat=3) if any(p)]
    check.run_cases([[a, b, c, p, n] for a in (2, 3, 4) for b in (2, 3, 5) for c in (2, 3) for p in pats for n in (3, 2, 7)], run_chisq, 'chisq lookup', chunk=4)
    check.run_cases([[a, c, p] for a in (2, 3, 4) for c in (2, 3) for p in pats], run_zred, 'zred lookup', chunk=4)
    check.run_cases([[a, b, 2 + a % 2, s, p, h, w] for a in (2, 3) for b in (2, 3, 4) for s in (0.03125, 0.0625, 0.125) for p in pats[:2] + [[2.0]] for h, w in (('none', 0), ('hdr', 1), ('areas', 0))], run_color, 'color lookup', chunk=2)
    pos = (0.0, 0.25, 0.5, 0.9, 1.0, 1.5, 1.75)
    cc = []
    for av, iso in itertools.product((False, True), repeat=2):
        for n in (2, 3):
            pp = [x for x in pos + (2.0, 2.6) if x < n]
            cc += [[[n], [[x] for x in t], av, iso] for k in (1, 2, 3) for t in itertools.product(pp, repeat=k)]
        p2 = [list(x) for x in itertools.product((0.1, 0.5, 1.2, 1.9), (0.0, 1.5, 2.8))]
        cc += [[[2, 3], list(t), av, iso] for k in (1, 2) for t in itertools.product(p2, repeat=k)]
        p3 = [list(x) for x in itertools.product((0.1, 1.2), (0.5, 2.8), (0.0, 1.9))]
        cc += [[[2, 3, 2], list(t), av, iso] for k in (1, 2, 3 if th else 2) for t in itertools.product(p3, repeat=k)]
    check.run_cases(cc, run_cic, 'cloud in cell', chunk=200)
    z0 = {'zrange': [0.1, 0.2]}
    R = [None, [128, [8421]], [128, [8421, 9218]], [64, [2163]], [64, [2163, 2297]], [32, [532]]]
    import hpgeom as hpg
    m = G['master']
    ra, dec = hpg.pixel_to_angle(128, m['HPIX'][0], nest=False)
    big = sorted(set(hpg.angle_to_pixel(64, ra, dec, nest=False).tolist()))
    R[4] = [64, big[:2]]
    R[5] = [32, sorted(set(hpg.angle_to_pixel(32, ra, dec, nest=False).tolist()))[:1]]
    gen = [[dict(z0, calib_nproc=n), None, None, 100000, 0, 'no'] for n in range(1, 9)]
    gen += [[dict(z, calib_nproc=n), R[1], None, 100000, 0, 'no'] for z in ({'zrange': [0.1, 0.3]}, {'zrange': [0.05, 0.25]}, {'zrange': [0.3, 0.45]}, {'zrange': [0.1, 0.13]}, {'zrange': [0.2, 0.25], 'bkg_zbinsize': 0.01}) for n in (1, 2, 3, 5, 8)]
    gen += [[z0, r, None, 100000, dp, 'no'] for r in R for dp in (0, 1)]
    gen += [[z0, None, f, n, dp, 'no'] for f in (0, 700) for n in (100000, 5000, 350, 349, 701) for dp in (0, 1)] + [[z0, None, 1, n, 0, 'no'] for n in (1, 2, 100)]
    for o in ({'nodepth': 1}, {'bkg_refmagbinsize': 0.25}, {'limmag_catalog': 20.3}, {'limmag_catalog': 19.0}, {'chisq_max': 12.0}, {'chisq_max': 30.0}, {'bkg_chisqbinsize': 1.0}, {'bkg_zbinsize': 0.05}, {'bkg_zbinsize': 0.03}):
        gen += [[dict(z0, calib_nproc=n, **o), r, None, 100000, 0, 'no'] for r in (None, R[2]) for n in (1, 3)]
    gen += [[z0, R[3], None, 100000, 0, a] for a in ('twice', 'other', 'clobber')]
    if th:
        gen += [[dict(z, calib_nproc=n), r, None, 100000, dp, 'no'] for z in ({'zrange': [0.05, 0.6]}, {'zrange': [0.15, 0.4]}, {'zrange': [0.12, 0.33]}) for n in range(1, 17) for r in (R[1], R[2]) for dp in (0, 1)]
    check.run_cases(gen, run_gen, 'generation', chunk=1)
    gz = [[z, r, 'no'] for z in (z0, {'zrange': [0.05, 0.6]}, {'zrange': [0.2, 0.35]}) for r in R]
    gz += [[dict(z0, **o), r, 'no'] for o in ({'nodepth': 1}, {'bkg_refmagbinsize': 0.25}, {'limmag_catalog': 20.3}, {'bkg_zredbinsize': 0.02}, {'bkg_zredbinsize': 0.004}, {'wcen_zred_chisq_max': 5.0}, {'wcen_zred_chisq_max': 1e9}) for r in (None, R[2])]
    gz += [[z0, R[3], a] for a in ('twice', 'other', 'clobber')]
    check.run_cases(gz, run_genzred, 'zred generation', chunk=1)
    gc = [[dict({'nodepth': 1} if q else {}, border=0.0), r, m, 'no'] for q in (0, 1) for r, m in ((R[0], 5), (R[0], 20), (R[1], 2), (R[1], 5), (R[2], 5), (R[3], 5), (R[3], 1))] + [[{'border': 0.0}, R[1], 5, a] for a in ('twice', 'clobber')]
    check.run_cases(gc, run_gencolor, 'color generation', nproc=4, chunk=1)


if __name__ == '__main__':
    core.main('C22', 'exploration',
              'Tables of 2-4 redshifts x 2-5 chisq x 2-3 magnitudes (and zred, one and two colors) with value patterns, each looked up on a lattice inside, at and outside the edges, against separable linear interpolation; '
              'backgrounds of the test catalog for all numbers of processes, regions, read sizes, bin sizes and ranges, recomputed from all galaxies; all sets of up to 3 points of a lattice for the assignment. '
              'Non-trivial: a background results.', body)
