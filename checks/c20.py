"""C20: footprint, depth and volume-limit maps: lookups, sub-regions, areas and maximum redshifts are those of the pixels."""
import itertools
import math
import os
import shutil

import numpy as np

from mc import build, core, ref, rm

NS, NC = 512, 32
UNSEEN = -1.6375e30
CENTERS = ((0.0, 20.0), (211.3, -47.0), (100.0, 89.2))


def patch(center, half):
    """Nest pixels within half degrees of the center."""
    import hpgeom as hpg
    return np.sort(hpg.query_circle(NS, center[0], center[1], half, nest=True))


def depth_map(path, pix, m50, fracgood, limmag=None, exptime=None, w=0.0, nsig=10.0, zp=22.5):
    import fitsio
    import healsparse
    dt = [('limmag', 'f4'), ('exptime', 'f4'), ('m50', 'f4'), ('fracgood', 'f4')]
    m = healsparse.HealSparseMap.make_empty(NC, NS, dtype=dt, primary='fracgood')
    v = np.zeros(len(pix), dtype=dt)
    v['m50'], v['fracgood'] = m50, fracgood
    v['limmag'] = m50 if limmag is None else limmag
    v['exptime'] = 60.0 if exptime is None else exptime
    if len(pix):
        m.update_values_pix(np.asarray(pix, dtype=np.int64), v)
    hdr = fitsio.FITSHDR()
    for k, x in (('NSIG', nsig), ('ZP', zp), ('NBAND', 1), ('W', w), ('EFF', 0.0)):
        hdr[k] = x
    m.metadata = hdr
    m.write(path, clobber=True)
    return v


def vlim_map(path, pix, zmax, fracgood):
    import healsparse
    dt = [('fracgood', 'f4'), ('zmax', 'f4')]
    m = healsparse.HealSparseMap.make_empty(NC, NS, dtype=dt, primary='fracgood')
    v = np.zeros(len(pix), dtype=dt)
    v['zmax'], v['fracgood'] = zmax, fracgood
    m.update_values_pix(np.asarray(pix, dtype=np.int64), v)
    m.write(path, clobber=True)


def config(d, **over):
    from redmapper import Configuration
    base = dict(vlim_bands=[], vlim_depthfiles=[], vlim_nsigs=[], outbase='maps', outpath=d, printlogging=False, zrange=[0.05, 0.6])
    base.update(over)
    return rm.quiet(Configuration(rm.write_config(os.path.join(d, 'c.yaml'), **base)))


_ST = {}


def zred():
    if 'z' not in _ST:
        from redmapper.redsequence import RedSequenceColorPar
        _ST['z'] = RedSequenceColorPar(os.path.join(build.DATA, 'test_dr8_pars.fit'), fine=True)
    return _ST['z']


# --- volume limits ----------------------------------------------------------------------------------------------------

def limit_curve(z, lstar, band, bands, refmag):
    """Magnitude in a band of a red galaxy of lstar L* at redshifts z."""
    zs = zred()
    r = zs.mstar(z) - 2.5 * math.log10(lstar)
    out = r.copy()
    k, i0 = bands.index(band), bands.index(refmag)
    n = zs.z.size - 1
    zz = zs.z[:n]
    piv = np.interp(z, zz, zs.pivotmag[:n])
    for j in range(min(k, i0), max(k, i0)):
        col = np.interp(z, zz, zs.c[:n, j]) + np.interp(z, zz, zs.slope[:n, j]) * (r - piv)
        out += col if k < i0 else -col
    return out


def nsig_limit(limmag, exptime, zp, nsig0, nsig):
    """Magnitude measured at nsig, given that limmag is measured at nsig0 (photon plus sky noise)."""
    out = np.zeros(len(limmag))
    for i, (m, t) in enumerate(zip(limmag.astype('f8'), exptime.astype('f8'))):
        f0 = 10. ** ((zp - m) / 2.5)
        sky = max((f0 / nsig0) ** 2 * t - f0, 0.001)          # noise^2 = (flux + sky) / t
        lo, hi = f0 * 1e-6, f0 * 1e6
        for _ in range(200):
            f = math.sqrt(lo * hi)
            if f / math.sqrt((f + sky) / t) > nsig:
                hi = f
            else:
                lo = f
        out[i] = zp - 2.5 * math.log10(lo)
    return out


def run_vlim(case):
    from redmapper import VolumeLimitMask
    import hpgeom as hpg
    lstar, extra, variant, zr, center = case['lstar'], case['extra'], case['variant'], case['zrange'], case['center']
    d = rm.workdir('c20v')
    try:
        pix = patch(center, 0.7)
        n = len(pix)
        frac = np.array([1.0, 0.5, 0.25])[np.arange(n) % 3]
        m50 = 16.0 + 7.0 * ((np.arange(n) * (5 if variant else 1)) % n) / (n - 1.0)
        if variant == 2:
            m50[:] = 20.5
        v = depth_map(os.path.join(d, 'depth.hs'), pix, m50, frac)
        files, bands, nsigs, limits = [], [], [], []
        for k, (band, ns, shift, part) in enumerate(extra):
            p2 = pix if part == 'all' else (pix[::2] if part == 'half' else np.append(pix[3:], patch((center[0] + 3.0, center[1]), 0.2)))
            order = (np.arange(len(p2)) * 3) % len(p2)
            lm = 18.0 + 5.0 * order / len(p2) + shift
            ex = np.array([60.0, 200.0])[np.arange(len(p2)) % 2]
            f = os.path.join(d, 'depth_%d.hs' % k)
            v2 = depth_map(f, p2, lm, np.ones(len(p2)), limmag=lm, exptime=ex, nsig=10.0, zp=22.5)
            files.append(f)
            bands.append(band)
            nsigs.append(ns)
            lim = dict(zip(p2.tolist(), nsig_limit(v2['limmag'], v2['exptime'], 22.5, 10.0, ns)))
            limits.append((band, lim))
        conf = config(d, depthfile=os.path.join(d, 'depth.hs'), vlim_depthfiles=files, vlim_bands=bands, vlim_nsigs=nsigs, zrange=zr)
        mask = VolumeLimitMask(conf, lstar)
        ra, dec = hpg.pixel_to_angle(NS, pix, nest=True)
        zmax, fg = mask.calc_zmax(ra, dec, get_fracgood=True)
        again = VolumeLimitMask(conf, lstar)
        z2 = again.calc_zmax(ra, dec)
        bad = []
        if not np.array_equal(zmax, z2):
            bad.append('the mask read from its file differs from the one built')
        zg = np.arange(zr[0], zr[1] + 0.0005, 0.0002)
        curves = [(limit_curve(zg, lstar, 'i', list(conf.bands), 'i'), dict(zip(pix.tolist(), v['m50'].astype('f8'))), 0.0022)]
        curves += [(limit_curve(zg, lstar, b, list(conf.bands), 'i'), lim, 0.0042) for b, lim in limits if b != 'i']
        kinds = set()
        for i, p in enumerate(pix.tolist()):
            lo, hi = zr[1], zr[1]
            for cur, dep, tol in curves:
                if p not in dep:
                    lo = hi = zr[0]
                    break
                above = np.where(cur > dep[p] - 1e-4)[0]
                below = np.where(cur < dep[p] + 1e-4)[0]
                zfirst = zr[1] if above.size == 0 else zg[above[0]]
                zlast = zr[0] if below.size == 0 else zg[below[-1]]
                lo = min(lo, zfirst - tol)
                hi = min(hi, max(zlast, zfirst) + tol)
            got = float(zmax[i])
            if hi <= zr[0]:
                ok, k = got == 0.0, 'out'
            elif lo <= zr[0] + 0.003:
                ok, k = got == 0.0 or got <= hi + 1e-6, 'edge'
            else:
                ok, k = lo - 1e-6 <= got <= hi + 1e-6, 'full' if got >= zr[1] - 0.0011 else 'mid'
            kinds.add(k)
            if not ok:
                bad.append('pixel %d: maximum redshift %.4f, expected %.4f..%.4f' % (i, got, lo, hi))
            if got > 0 and fg[i] != v['fracgood'][i]:
                bad.append('pixel %d: covered fraction %.3f, expected %.3f' % (i, fg[i], v['fracgood'][i]))
        out = mask.calc_zmax(np.array([center[0] + 170.0, 10.0, 10.0]), np.array([-5.0, 91.0, -95.0]))
        if np.any(out != 0.0):
            bad.append('positions outside of the map have a maximum redshift: %s' % out)
        return bad[:4], (tuple(sorted(kinds)), len(extra)), 'mid' in kinds
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_geometry(case):
    from redmapper import VolumeLimitMask
    import healsparse
    import hpgeom as hpg
    fr, zr = case
    d = rm.workdir('c20g')
    try:
        pix = patch(CENTERS[0], 0.5)
        f = np.array(fr, dtype='f4')[np.arange(len(pix)) % len(fr)]
        m = healsparse.HealSparseMap.make_empty(NC, NS, np.float32)
        m.update_values_pix(pix, f)
        m.write(os.path.join(d, 'mask.hs'))
        conf = config(d, maskfile=os.path.join(d, 'mask.hs'), zrange=zr, area_finebin=0.05)
        vm = VolumeLimitMask(conf, 0.2, use_geometry=True)
        ra, dec = hpg.pixel_to_angle(NS, pix, nest=True)
        zmax, fg = vm.calc_zmax(ra, dec, get_fracgood=True)
        bad = []
        if not np.allclose(zmax, zr[1], atol=1e-6):
            bad.append('maximum redshift in the footprint %s' % zmax[:3])
        if not np.allclose(fg, f):
            bad.append('covered fractions')
        a = vm.get_areas()
        want = f.sum(dtype='f8') * hpg.nside_to_pixel_area(NS, degrees=True)
        if not np.allclose(a.area, want, rtol=1e-5):
            bad.append('area %s, expected %.5f' % (a.area[:2], want))
        return bad, ('geometry', len(fr)), True
    finally:
        shutil.rmtree(d, ignore_errors=True)


# --- areas ------------------------------------------------------------------------------------------------------------

def run_areas(combo):
    """Areas of small maps; combo: list of (fraction, zmax)."""
    from redmapper import VolumeLimitMask
    import hpgeom as hpg
    d = rm.workdir('c20a')
    try:
        pix = patch(CENTERS[1], 0.5)[:len(combo)]
        conf = config(d, area_finebin=0.05)
        vf = os.path.join(d, 'vlim.fit')
        vlim_map(vf, pix, [c[1] for c in combo], [c[0] for c in combo])
        a = VolumeLimitMask(conf, 0.2, vlimfile=vf).get_areas()
        pa = hpg.nside_to_pixel_area(NS, degrees=True)
        bad = []
        zb = np.arange(0.05, 0.6, 0.05)
        if a.z.size != zb.size or not np.allclose(a.z, zb, atol=1e-6):
            return ['redshifts of the areas'], ('bad',), True
        for z, ar in zip(zb, a.area):
            want = pa * sum(f for f, zm in combo if zm > z)
            if abs(ar - want) > 1e-5 * pa + 1e-6 * want:
                bad.append('volume limited area at z=%.3f is %.6f, expected %.6f' % (z, ar, want))
        return bad[:3], (len(combo), len(set(round(float(x), 7) for x in a.area))), len(combo) > 1
    finally:
        shutil.rmtree(d, ignore_errors=True)


MAGS = np.array([19.0, 20.05, 20.35, 20.65, 20.95, 22.0])


def run_depth_areas(case):
    """Areas from the depth map; known finding: the shallowest pixels are added up."""
    from redmapper import DepthMap
    import hpgeom as hpg
    combo, w = case
    d = rm.workdir('c20d')
    try:
        pix = patch(CENTERS[1], 0.5)[:len(combo)]
        f = os.path.join(d, 'depth.hs')
        v = depth_map(f, pix, [c[1] for c in combo], [c[0] for c in combo], w=w)
        conf = config(d, depthfile=f)
        conf.area = 123.0
        a = DepthMap(conf).calc_areas(MAGS)
        pa = hpg.nside_to_pixel_area(NS, degrees=True)
        bad = []
        st = np.argsort(v['m50'], kind='stable')
        frac, dep = v['fracgood'][st].astype('f8'), v['m50'][st]
        cum = np.append(0.0, np.cumsum(frac))
        for m, ar in zip(MAGS, a):
            if w < 0:
                if ar != 123.0:
                    bad.append('area without depth information is %r' % ar)
                continue
            want = pa * sum(fr for fr, dd in combo if dd > m)
            if abs(ar - want) <= 1e-5 * pa:
                continue
            text = 'area at magnitude %.2f is %.6f, expected %.6f' % (m, ar, want)
            # listed finding: N - (k - 1) shallowest pixels, with k of N shallower than the magnitude (k - 1 at least 1)
            k = int(np.sum(dep < m))
            j = min(max(k - 1, 1), len(combo) - 1)
            nlow = len(combo) - j + 1
            # equally deep pixels are in any order
            srt = {round(pa * x, 9) for x in sums(dep, frac, nlow)}
            if any(abs(ar - x) <= 1e-5 * pa for x in srt):
                bad.append(('depth-areas-add-up-the-shallow-pixels', text))
            else:
                bad.append(text)
        plain = [b for b in bad if not isinstance(b, tuple)]
        return (plain or bad)[:3], (len(combo), bool(plain), len(bad) > 0), len(combo) > 1
    finally:
        shutil.rmtree(d, ignore_errors=True)


def sums(dep, frac, n):
    """Areas of the n shallowest pixels, for every order of equally deep ones (dep is sorted)."""
    if n > len(dep):
        return []
    if n <= 0:
        return [0.0]
    edge = dep[n - 1]
    base = frac[dep < edge].sum()
    tie = frac[dep == edge]
    m = n - int((dep < edge).sum())
    return {base + sum(c) for c in itertools.combinations(tie, m)}


# --- lookups ----------------------------------------------------------------------------------------------------------

def run_lookup(case):
    from redmapper import DepthMap, VolumeLimitMask
    from redmapper.mask import get_mask
    import healsparse
    import hpgeom as hpg
    center, sub = case['center'], case['sub']
    d = rm.workdir('c20l')
    try:
        pix = patch(center, 2.5 if not sub else 8.0)
        if not sub:
            pix = pix[np.arange(len(pix)) % 5 != 0]
        n = len(pix)
        frac = np.array([1.0, 0.0, 1.0])[np.arange(n) % 3]
        val = 18.0 + 3.0 * (np.arange(n) % 97) / 97.0
        f = os.path.join(d, 'depth.hs')
        v = depth_map(f, pix, val, np.clip(frac, 0.1, None), limmag=val - 0.2, exptime=50.0 + np.arange(n) % 7)
        mk = healsparse.HealSparseMap.make_empty(NC, NS, np.float32)
        mk.update_values_pix(pix, frac.astype('f4'))
        mk.write(os.path.join(d, 'mask.hs'))
        vlim_map(os.path.join(d, 'vl.fit'), pix, (val - 17.0) / 10, np.clip(frac, 0.1, None))
        over = dict(depthfile=f, maskfile=os.path.join(d, 'mask.hs'), mask_mode=3)
        conf = config(d, **over)
        ra, dec = hpg.pixel_to_angle(NS, patch(center, 3.0 if not sub else 8.5), nest=True)
        inside = np.ones(ra.size, dtype=bool)
        if sub:
            ns, border = sub
            h = int(hpg.angle_to_pixel(ns, center[0] % 360.0, center[1], nest=False))
            conf.d.hpix, conf.d.nside, conf.border = [h], ns, border
            inp = hpg.angle_to_pixel(ns, ra, dec, nest=False) == h
            inside = inp.copy()
            if border > 0:
                # positions within the border, against the pixel interior finely sampled
                fine = hpg.ring_to_nest(ns, h) * (NS // ns) ** 2 + np.arange((NS // ns) ** 2)
                fra, fdec = hpg.pixel_to_angle(NS, fine, nest=True)
                out = np.where(~inp)[0]
                fv = hpg.angle_to_vector(fra, fdec)
                ov = hpg.angle_to_vector(ra[out], dec[out])
                for i in range(0, len(out), 500):
                    inside[out[i:i + 500]] = (ov[i:i + 500] @ fv.T).max(axis=1) > math.cos(math.radians(border))
        dm, vm, mask = DepthMap(conf), VolumeLimitMask(conf, 0.2, vlimfile=os.path.join(d, 'vl.fit')), get_mask(conf, include_maskgals=False)
        by = {p: i for i, p in enumerate(pix.tolist())}
        bad = []
        pp = hpg.angle_to_pixel(NS, ra, dec, nest=True)
        shifts = (0.0, 360.0, -360.0) if not sub else (0.0,)
        for s in shifts:
            lim, exp, m50 = dm.get_depth_values(ra + s, dec)
            fg = dm.get_fracgoods(ra + s, dec)
            zm = vm.calc_zmax(ra + s, dec)
            mv = mask.compute_radmask(ra + s, dec)
            for k in np.where(inside)[0]:
                i = by.get(int(pp[k]))
                if i is None:
                    ok = lim[k] < -1e30 and exp[k] < -1e30 and m50[k] < -1e30 and fg[k] <= 0 and zm[k] == 0.0 and not mv[k]
                else:
                    ok = (lim[k] == v['limmag'][i] and exp[k] == v['exptime'][i] and m50[k] == v['m50'][i] and fg[k] == v['fracgood'][i]
                          and abs(zm[k] - (val[i] - 17.0) / 10) < 1e-6 and bool(mv[k]) == (frac[i] > 0))
                if not ok:
                    bad.append('position %.4f %.4f (%s the map): %r %r %r %r %r %r' % (
                        ra[k] + s, dec[k], 'outside' if i is None else 'in', lim[k], exp[k], m50[k], fg[k], zm[k], mv[k]))
                    break
        lim, exp, m50 = dm.get_depth_values(np.array([10.0, center[0]]), np.array([90.5, -91.0]))
        if np.any(lim > 0) or np.any(exp > 0) or np.any(m50 > 0) or np.any(dm.get_fracgoods(np.array([10.0]), np.array([93.0])) > 0):
            bad.append('depth beyond the pole')
        if np.any(mask.compute_radmask(np.array([10.0, center[0]]), np.array([90.5, -91.0]))):
            bad.append('footprint beyond the pole')
        return bad[:3], ('lookup', bool(sub), int(inside.sum()) > 50), bool(inside.any())
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_fraction(fr):
    """Partly covered pixels are in the footprint for that fraction of the positions."""
    from redmapper.mask import get_mask
    import healsparse
    d = rm.workdir('c20f')
    try:
        pix = patch(CENTERS[0], 1.0)
        mk = healsparse.HealSparseMap.make_empty(NC, NS, np.float32)
        mk.update_values_pix(pix, np.full(len(pix), fr, dtype='f4'))
        mk.write(os.path.join(d, 'mask.hs'))
        mask = get_mask(config(d, maskfile=os.path.join(d, 'mask.hs'), mask_mode=3), include_maskgals=False)
        x = np.linspace(-0.5, 0.5, 141)
        ra, dec = [a.ravel() for a in np.meshgrid(x, 20.0 + x)]
        with ref.fixed_random():
            g = mask.compute_radmask(ra, dec)
        n, s = ra.size, math.sqrt(max(fr * (1 - fr), 1e-12) / ra.size)
        bad = []
        if abs(g.mean() - fr) > 8 * s + 1e-9:
            bad.append('%.4f of the positions of pixels covered to %.3f are in the footprint' % (g.mean(), fr))
        none = get_mask(config(d, mask_mode=0, maskfile=rm.DROP), include_maskgals=False)
        if not np.all(none.compute_radmask(ra, dec)):
            bad.append('without a mask everything is in the footprint')
        return bad, ('fraction', fr), True
    finally:
        shutil.rmtree(d, ignore_errors=True)


# --- mask galaxies ----------------------------------------------------------------------------------------------------

def mgals(x, y, conf):
    from redmapper import Catalog
    n = len(x)
    a = Catalog(np.zeros(n, dtype=[('x', 'f4'), ('y', 'f4'), ('w', 'f4'), ('eff', 'f4'), ('limmag', 'f4'), ('exptime', 'f4'), ('m50', 'f4'), ('zp', 'f4'), ('nsig', 'f4')]))
    a.x, a.y = x, y
    return a


def run_maskdepth(case):
    from redmapper import DepthMap
    import hpgeom as hpg
    keep, center, scale = case
    d = rm.workdir('c20m')
    try:
        x = np.array([0.0, 0.4, -0.4, 0.0, 0.0, 0.8])
        y = np.array([0.0, 0.0, 0.0, 0.4, -0.4, 0.8])
        ra = center[0] + x / scale / math.cos(math.radians(center[1]))
        dec = center[1] + y / scale
        pp = hpg.angle_to_pixel(NS, ra, np.clip(dec, -90, 90), nest=True)
        pix = np.unique([p for p, k in zip(pp.tolist(), keep) if k])
        far = patch((center[0] + 60.0, 0.0), 0.3)
        allp = np.unique(np.append(pix, far))
        val = 20.0 + 0.25 * np.arange(len(allp)) % 2.0
        f = os.path.join(d, 'depth.hs')
        v = depth_map(f, allp, val + 0.125, np.ones(len(allp)), limmag=val, exptime=40.0 + np.arange(len(allp)))
        dm = DepthMap(config(d, depthfile=f))
        mg = mgals(x, y, None)
        dm.calc_maskdepth(mg, center[0], center[1], scale)
        by = {p: i for i, p in enumerate(allp.tolist())}
        idx = [by.get(int(p)) if abs(dd) < 90.0 else None for p, dd in zip(pp, dec)]
        ok = [i for i in idx if i is not None]
        bad = []
        for name, dflt in (('limmag', 1.0), ('exptime', 1000.0), ('m50', 0.0)):
            vals = v[name].astype('f8')
            if not ok:
                fill = dflt
            else:
                fill = np.median(vals[ok]) if len(ok) >= 3 else np.mean(vals[ok])
            want = np.array([fill if i is None else vals[i] for i in idx])
            if not np.allclose(getattr(mg, name), want, rtol=1e-6):
                bad.append('%s %s, expected %s' % (name, getattr(mg, name), want))
        if mg.zp[0] != 22.5 or mg.nsig[0] != 10.0 or np.any(mg.w != 0.0):
            bad.append('zero point or noise level of the map')
        return bad[:3], ('maskdepth', len(ok)), len(ok) > 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Place:
    pass


def run_maskcorr(case):
    """Mask correction for a straight edge at a distance and direction from the cluster."""
    from redmapper.mask import get_mask
    import healsparse
    import hpgeom as hpg
    ang, dist, dmax, dlim, perm50 = case
    w = maskgals_world()
    mask = w['mask']
    mask.select_maskgals_sample(maskgal_index=0)
    mg = mask.maskgals
    c = Place()
    c.ra, c.dec, c.mpc_scale = 359.97, 20.0, 12.0
    # footprint: the positions with (x, y).n < dist
    ra = c.ra + mg.x / c.mpc_scale / math.cos(math.radians(c.dec))
    dec = c.dec + mg.y / c.mpc_scale
    pr, pd = hpg.pixel_to_angle(2048, hpg.angle_to_pixel(2048, ra % 360., dec, nest=True), nest=True)
    px = ((pr - c.ra + 180.) % 360. - 180.) * math.cos(math.radians(c.dec)) * c.mpc_scale
    py = (pd - c.dec) * c.mpc_scale
    want_mark = px * math.cos(ang) + py * math.sin(ang) < dist
    bad = []
    allp = np.unique(hpg.angle_to_pixel(2048, ra % 360., dec, nest=True))
    ar, ad = hpg.pixel_to_angle(2048, allp, nest=True)
    ax = ((ar - c.ra + 180.) % 360. - 180.) * math.cos(math.radians(c.dec)) * c.mpc_scale
    ay = (ad - c.dec) * c.mpc_scale
    good = allp[ax * math.cos(ang) + ay * math.sin(ang) < dist]
    far = patch((100.0, -60.0), 0.2)
    mk = healsparse.HealSparseMap.make_empty(NC, 2048, np.float32)
    mk.update_values_pix(np.append(good, far * 16), np.ones(len(good) + len(far), dtype='f4'))
    mask.sparse_fracgood = mk
    mask.set_radmask(c)
    if not np.array_equal(np.asarray(mask.maskgals.mark, dtype=bool), want_mark):
        bad.append('%d mask galaxies on the wrong side of the edge' % np.sum(np.asarray(mask.maskgals.mark, dtype=bool) != want_mark))
    mstar = 19.0
    mask.maskgals.limmag[:], mask.maskgals.exptime[:], mask.maskgals.zp[:], mask.maskgals.nsig[:] = 30.0, 1e5, 22.5, 10.0
    mask.maskgals.w[:] = 0.0
    mask.maskgals.m50[:] = (mstar + dlim) if perm50 else 0.0
    maxmag, limmag = mstar + dmax, mstar + dlim
    with ref.fixed_random():
        cp = mask.calc_maskcorr(mstar, maxmag, limmag if not perm50 else 99.0)
    mag = mg.m.astype('f8') + mstar
    det = (mag < min(maxmag, limmag)) * want_mark
    cc = 1.0 - det @ mg.theta_r.astype('f8') / mg.nin[0].astype('f8')
    want = np.polyval(np.polyfit(mg.radbins[0].astype('f8'), cc, 3), mg.radbins[0])
    got = np.polyval(cp, mg.radbins[0])
    if np.max(np.abs(got - want)) > 2e-3:
        bad.append('masked fraction with radius %s, expected %s' % (np.round(got[::4], 4), np.round(want[::4], 4)))
    return bad, ('maskcorr', round(float(want_mark.mean()), 1)), 0.0 < want_mark.mean() < 1.0


_W = {}


def maskgals_world():
    if not _W:
        from redmapper.mask import get_mask
        d = rm.workdir('c20w')
        conf = config(d, mask_mode=3, maskgal_ngals=3000, maskgal_nsamples=2)
        conf.maskgalfile = rm.make_maskgals(conf, os.path.join(d, 'maskgals.fit'))
        _W['mask'] = get_mask(conf)
    return _W


def body(check):
    th = check.thorough
    cases = []
    extras = [[], [['g', 5.0, 0.0, 'all']], [['r', 10.0, 0.0, 'half']], [['z', 3.0, -1.0, 'all']], [['g', 5.0, 0.5, 'all'], ['z', 5.0, 0.0, 'shift']],
              [['u', 5.0, 1.0, 'all']], [['r', 10.0, 0.3, 'shift'], ['g', 3.0, 1.0, 'half']]]
    for lstar in ((0.2, 1.0, 5.0) if not th else (0.2, 0.5, 1.0, 2.0, 5.0)):
        for e in extras:
            for variant in (0, 1, 2):
                for zr in ([0.05, 0.6], [0.1, 0.35]):
                    if not th and variant == 2 and zr[0] == 0.1:
                        continue
                    cases.append(dict(lstar=lstar, extra=e, variant=variant, zrange=zr, center=list(CENTERS[0] if variant else CENTERS[1])))
    check.run_cases(cases, run_vlim, 'volume limits')
    check.run_cases([[list(f), zr] for f in itertools.product((1.0, 0.5, 0.1), repeat=2) for zr in ([0.05, 0.6], [0.1, 0.3])], run_geometry, 'geometric volume limits')
    kinds = [[f, z] for f in (1.0, 0.5, 0.125) for z in (0.076, 0.276, 0.326, 0.599)]
    n = 4 if th else 3
    cases = [list(c) for k in range(1, n + 1) for c in itertools.combinations_with_replacement(kinds, k)]
    check.run_cases(cases, run_areas, 'areas of volume limits')
    kinds = [[f, z] for f in (1.0, 0.5, 0.125) for z in (20.0, 20.5, 21.0)]
    cases = [[list(c), 0.0] for k in range(2, n + 2) for c in itertools.combinations_with_replacement(kinds, k)]
    cases += [[list(c), -1.0] for c in itertools.combinations_with_replacement(kinds, 2)]
    check.run_cases(cases, run_depth_areas, 'areas of depth maps')
    cases = [dict(center=list(c), sub=None) for c in CENTERS]
    for c in CENTERS:
        for ns in ((8, 16, 32, 64) if not th else (8, 16, 32, 64, 128)):
            for b in (0.0, 0.5, 1.1):
                cases.append(dict(center=list(c), sub=[ns, b]))
    check.run_cases(cases, run_lookup, 'lookups', chunk=1)
    check.run_cases([0.0, 0.05, 0.3, 0.5, 0.9, 1.0], run_fraction, 'covered fraction')
    cases = [[list(k), list(c), s] for k in itertools.product((0, 1), repeat=6) for c in ((0.05, 20.0), (200.0, -60.0), (40.0, 89.9)) for s in (1.0, 5.0)]
    check.run_cases(cases, run_maskdepth, 'depth of mask galaxies')
    maskgals_world()
    cases = [[a, dist, dm, dl, p] for a in (0.0, 0.8, 2.5, 4.0) for dist in (-0.3, 0.0, 0.2, 0.5, 9.0, -9.0) for dm in (1.0, 1.6) for dl in (0.7, 3.0) for p in (False, True)]
    check.run_cases(cases, run_maskcorr, 'mask correction')


if __name__ == '__main__':
    core.main('C20', 'model_checking',
              'Small footprint, depth and volume-limit maps with all assignments of coverage and depth to up to four pixels, all sub-region requests of a lattice, luminosity '
              'cuts, additional bands, redshift ranges, mask edges; every pixel compared with the definition. Non-trivial: part of the map is limited.', body)
