"""C25: redMaGiC catalogs hold exactly the galaxies inside the calibrated selection, with their corrected redshifts."""
import itertools
import math
import os
import shutil

import numpy as np

import c24
from mc import build, core, ref, rm

NS, NC = 512, 64
CENTER = (0.1, -47.0)
_S = {}


def region():
    import hpgeom as hpg
    if 'reg' not in _S:
        _S['reg'] = np.sort(hpg.query_circle(NS, CENTER[0], CENTER[1], 1.2, nest=True))
    return _S['reg']


def vlim_file(path, limits):
    """A map whose pixels have the given maximum redshifts in turn."""
    import healsparse
    dt = [('fracgood', 'f4'), ('zmax', 'f4')]
    m = healsparse.HealSparseMap.make_empty(NC, NS, dtype=dt, primary='fracgood')
    v = np.zeros(region().size, dtype=dt)
    v['fracgood'] = np.where(np.arange(v.size) % 5 == 4, 0.5, 1.0)
    v['zmax'] = np.array(limits)[np.arange(v.size) % len(limits)]
    m.update_values_pix(region(), v)
    m.write(path, clobber=True)
    return {int(p): float(z) for p, z in zip(region(), v['zmax'])}


def config(d, **over):
    from redmapper import Configuration
    kw = dict(outbase='rmg', outpath=d, printlogging=False, zrange=[0.1, 0.6], redmagicfile=os.path.join(d, 'calib.fit'), zred_nsamp=3)
    kw.update(over)
    return rm.quiet(Configuration(rm.write_config(os.path.join(d, 'c.yaml'), **kw)))


# name: calibration of one mode
MODES = {
    'highdens': dict(etamin=0.5, n=3, cmax=(2.0, 3.5, 1.0), ab=1, apply=1, bias=(0.01, -0.02, 0.015), er=(1.2, 0.8, 1.0), cost=(0.15, 0.55)),
    'highlum': dict(etamin=1.0, n=4, cmax=(6.0, 0.02, 25.0, 3.0), ab=1, apply=0, bias=(-0.03, 0.02), er=(0.5, 1.5), cost=(0.2, 0.5)),
    'raw': dict(etamin=0.12, n=2, cmax=(4.0, 1.5), ab=0, apply=1, bias=(0.05, 0.05, 0.05), er=(2.0, 2.0, 2.0), cost=(0.15, 0.6)),
}


def calib(path, names, vmask, maxchi=8.0, cushion=0.05, buf=0.03):
    import fitsio
    if os.path.exists(path):
        os.remove(path)
    for nm in names:
        m = MODES[nm]
        vm = vmask or ''
        nn, nb = m['n'], len(m['bias'])
        a = np.zeros(1, dtype=[('zrange', 'f4', 2), ('cost_zrange', 'f4', 2), ('lstar_cushion', 'f4'), ('z_cushion', 'f4'), ('name', 'S%d' % (len(nm) + 1)), ('maxchi', 'f4'),
                               ('nodes', 'f8', nn), ('etamin', 'f8'), ('n0', 'f8'), ('cmax', 'f8', nn), ('corrnodes', 'f8', nb), ('run_afterburner', 'i2'), ('apply_afterburner', 'i2'),
                               ('buffer', 'f4'), ('bias', 'f8', nb), ('eratio', 'f8', nb), ('vmaskfile', 'S%d' % (len(vm) + 1))])
        r = a[0]
        r['zrange'], r['cost_zrange'] = (0.1, 0.6), m['cost']
        a['lstar_cushion'], a['z_cushion'], a['name'], a['maxchi'] = 0.05, cushion, nm, maxchi
        r['nodes'], r['cmax'] = c24.nodes(nn, *m['cost']), m['cmax']
        a['etamin'], a['n0'] = m['etamin'], 10.0
        r['corrnodes'], r['bias'], r['eratio'] = c24.nodes(nb, *m['cost']), m['bias'], m['er']
        a['run_afterburner'], a['apply_afterburner'], a['buffer'], a['vmaskfile'] = m['ab'], m['apply'], buf, vm
        fitsio.write(path, a, extname=nm)
    return dict(maxchi=maxchi, cushion=cushion, buf=buf)


def spline(x, y, z):
    v = c24.natural(x, y, z)
    return np.where(z < x[0], y[0], np.where(z > x[-1], y[-1], v))


def expected(nm, k, par, g, zmax, nodes=None):
    """Selected, doubtful (on a limit), redshift, error, sample shift, mstar for galaxies g (dict of arrays)."""
    m = MODES[nm]
    zu, chi, mag = [np.asarray(g[x], 'f8') for x in ('zred_uncorr', 'chisq', 'refmag')]
    nodes, cn = nodes or (c24.nodes(m['n'], *m['cost']), c24.nodes(len(m['bias']), *m['cost']))
    lim = []            # value - limit: negative is inside
    lim.append((m['cost'][0] - k['cushion'] - k['buf']) - zu)
    lim.append(zu - (m['cost'][1] + k['cushion'] + k['buf']))
    lim.append(chi - k['maxchi'])
    mst0 = np.atleast_1d(np.asarray(par.mstar(g['zred_uncorr']), 'f8'))
    lim.append(mag - (mst0 - 2.5 * math.log10(max(m['etamin'] - 0.05, 0.1))))
    cm = np.clip(spline(nodes, np.array(m['cmax'], 'f8'), zu), 0.1, k['maxchi'])
    lim.append(chi - cm)
    zr, ze, off = zu.copy(), np.asarray(g['zred_uncorr_e'], 'f8').copy(), np.zeros(zu.size)
    if m['ab']:
        o = spline(cn, np.array(m['bias'], 'f8'), zu)
        zr = zu - o
        ze = ze * spline(cn, np.array(m['er'], 'f8'), zu)
        if m['apply']:
            off = o
    mst = np.atleast_1d(np.asarray(par.mstar(zr.astype(g['zred_uncorr'].dtype)), 'f8'))
    # the table of mstar has steps: a redshift on the edge of one may be looked up in either
    alt = [np.atleast_1d(np.asarray(par.mstar(zr + e), 'f8')) for e in (-2e-6, 2e-6)]
    lim.append(mag - (mst - 2.5 * math.log10(m['etamin'])))
    lim.append(zr - zmax)
    lim = np.array(lim)
    slack = np.maximum(np.abs(alt[0] - mst), np.abs(alt[1] - mst))
    doubt = np.any(np.abs(lim) < 2e-5, axis=0) | (np.abs(lim[5]) < slack + 2e-5)
    return np.all(lim < 0, axis=0), doubt, zr, ze, off, mst, slack


def lattice(nsamp, kind, k, offmap):
    """Galaxies around all limits: a structured array."""
    zs = np.concatenate([np.arange(0.04, 0.72, 0.0201), [0.0, 0.0701, 0.0699, 0.1301, 0.6299, 0.6301, 0.5801]])
    chis = (0.0, 0.05, 0.101, 0.9, 1.4, 1.9, 2.6, 3.3, 4.2, 5.5, 7.9, 8.1, 30.0)
    dms = (-3.0, -0.2, 0.02, 0.1, 0.5, 0.8, 1.2, 2.0, 2.2, 2.6)
    n = len(zs) * len(chis) * len(dms)
    nb = 5
    dt = [('id', 'i8'), ('ra', 'f8'), ('dec', 'f8'), ('refmag', 'f4'), ('refmag_err', 'f4'), ('mag', 'f4', nb), ('mag_err', 'f4', nb),
          ('zred_uncorr', 'f4'), ('zred_uncorr_e', 'f4'), ('chisq', 'f4')]
    if nsamp:
        dt.append(('zred_samp', 'f4', nsamp) if nsamp > 1 else ('zred_samp', 'f4', (1,)))
    dt += {'ztrue': [('ztrue', 'f4')], 'zspec': [('zspec', 'f4')], 'match': [], 'both': [('ztrue', 'f4'), ('zspec', 'f4')]}[kind]
    a = np.zeros(n, dtype=dt)
    i = np.arange(n)
    a['id'] = 10 ** 9 + 3 * i
    z, c, m = [x.ravel() for x in np.meshgrid(zs, chis, dms, indexing='ij')]
    a['zred_uncorr'], a['chisq'] = z, c
    a['refmag'] = c24.mstar_ref(z) + m
    a['refmag_err'] = 0.01 + 0.001 * (i % 17)
    a['zred_uncorr_e'] = 0.01 + 0.001 * (i % 13)
    for b in range(nb):
        a['mag'][:, b] = a['refmag'] + 0.7 * (2 - b)
        a['mag_err'][:, b] = 0.02 * (b + 1) + 0.0001 * (i % 7)
    import hpgeom as hpg
    pix = region()[(i * 13) % region().size]
    ra, dec = hpg.pixel_to_angle(NS, pix, nest=True, lonlat=True)
    a['ra'], a['dec'] = ra, dec
    if offmap:
        far = i % 7 == 3
        a['dec'][far] += 10.0
    if nsamp:
        for s in range(nsamp):
            a['zred_samp'][:, s] = a['zred_uncorr'] + 0.001 * (s + 1) * ((i % 5) - 2)
    if 'ztrue' in a.dtype.names:
        a['ztrue'] = 0.001 * (i % 700)
    if 'zspec' in a.dtype.names:
        a['zspec'] = np.where(i % 4 == 0, -1.0, 0.002 * (i % 300))
    return a


def judge_catalog(cat, idx, nm, k, par, a, zmax, kind, spec, nsamp_conf, bad, nodes=None):
    """A selected catalog, against the galaxies it was made from (a): the right ones, in order, with the right values."""
    g = {n: a[n] for n in a.dtype.names}
    sel, doubt, zr, ze, off, mst, slack = expected(nm, k, par, g, zmax, nodes)
    pos = {int(v): i for i, v in enumerate(a['id'])}
    got = [pos.get(int(v), -1) for v in np.atleast_1d(cat.id)] if cat.size else []
    if -1 in got:
        bad.append('unknown galaxies in the catalog')
        return 0
    if len(set(got)) != len(got):
        bad.append('galaxies repeated')
    if got != sorted(got):
        bad.append('order of the galaxies changed')
    if idx is not None and list(np.atleast_1d(idx)) != got:
        bad.append('indices are not those of the galaxies selected')
    mine = np.zeros(a.size, dtype=bool)
    mine[got] = True
    wrong = np.where((mine != sel) & ~doubt)[0]
    if wrong.size:
        i = int(wrong[0])
        bad.append('%d galaxies %s: z %s chisq %s refmag %s zmax %s' % (wrong.size, 'missing' if sel[i] else 'that do not belong', a['zred_uncorr'][i], a['chisq'][i], a['refmag'][i],
                                                                       np.broadcast_to(zmax, a.size)[i]))
    if not got:
        return 0
    ii = np.array(got)
    c = cat._ndarray
    for n in ('ra', 'dec', 'refmag', 'refmag_err', 'mag', 'mag_err', 'chisq'):
        if not np.array_equal(c[n], a[n][ii]):
            bad.append('%s changed' % n)
    c24.close('zredmagic', c['zredmagic'], zr[ii], 2e-6, bad)
    c24.close('zredmagic_e', c['zredmagic_e'], ze[ii], 2e-6, bad)
    if np.any(np.abs(np.log(c['lum'] / 10 ** (0.4 * (mst[ii] - a['refmag'][ii].astype('f8'))))) > 1e-4 + slack[ii]):
        bad.append('luminosities differ')
    if 'zred_samp' in a.dtype.names:
        c24.close('zredmagic_samp', c['zredmagic_samp'].reshape(ii.size, -1), (a['zred_samp'][ii].reshape(ii.size, -1) - off[ii][:, None]), 2e-6, bad)
    if kind in ('ztrue', 'both'):
        want = a['ztrue'][ii]
    elif kind == 'zspec':
        want = a['zspec'][ii]
    else:
        want = spec_match(a['ra'][ii], a['dec'][ii], spec)
    c24.close('zspec', c['zspec'], want, 1e-6, bad)
    return len(got)


def spec_match(ra, dec, spec):
    out = np.full(ra.size, -1.0)
    if spec is None:
        return out
    s = spec[spec['z_err'] < 0.001]
    for i in range(ra.size):
        near = np.where((np.abs(s['dec'] - dec[i]) < 0.01))[0]
        if near.size:
            d = ref.sphdist(ra[i], dec[i], s['ra'][near], s['dec'][near])
            j = int(np.argmin(d))
            if d[j] < 3.0 / 3600:
                out[i] = s['z'][near[j]]
    return out


def spec_file(path, a):
    """Spectra at some galaxies: 1, 2.5 and 4 arcsec off, two near one galaxy, and uncertain ones."""
    import fitsio
    rows = []
    for i in range(0, a.size, 17):
        k = (i // 17) % 5
        off = (1.0, 2.5, 4.0, 1.0, 0.5)[k] / 3600
        rows.append((a['ra'][i], a['dec'][i] + off, 0.2 + 0.0001 * i, 0.01 if k == 4 else 0.0001))
        if k == 3:
            rows.append((a['ra'][i], a['dec'][i] - 2.0 / 3600, 0.9, 0.0001))
    s = np.array(rows, dtype=[('ra', 'f8'), ('dec', 'f8'), ('z', 'f4'), ('z_err', 'f4')])
    fitsio.write(path, s, clobber=True)
    return s


VLIM = {'deep': (0.59,), 'steps': (0.59, 0.3, 0.2, 0.45, 0.15), 'none': None}


def run_select(case):
    from redmapper import GalaxyCatalog, RedSequenceColorPar
    from redmapper.redmagic import RedmagicSelector
    import hpgeom as hpg
    names, vl, kind, nsamp, offmap, form = case
    d = rm.workdir('c25')
    bad = []
    n = 0
    try:
        conf = config(d, zred_nsamp=max(nsamp, 2))
        vf = ''
        cells = None
        if VLIM[vl] is not None:
            vf = os.path.join(d, 'vmask.hs')
            cells = vlim_file(vf, VLIM[vl])
            vf = '/somewhere/else/vmask.hs' if form == 'moved' else vf
        k = calib(conf.redmagicfile, names, vf)
        a = lattice(nsamp, kind, k, offmap)
        spec = None
        if kind == 'match':
            spec = spec_file(os.path.join(d, 'spec.fit'), a)
            conf.specfile = os.path.join(d, 'spec.fit')
        par = RedSequenceColorPar(conf.parfile, fine=True)
        sel = RedmagicSelector(os.path.join(d, 'c.yaml') if form == 'file' and kind != 'match' else conf)
        if sel.config is not conf:
            rm.quiet(sel.config)
        if list(sel.modes) != list(names):
            bad.append('modes %s' % list(sel.modes))
        if cells is None:
            zmax = np.full(a.size, conf.zrange[1])
        else:
            zmax = np.array([cells.get(p, 0.0) for p in hpg.angle_to_pixel(NS, a['ra'], a['dec'], nest=True, lonlat=True).tolist()])
        for nm in names:
            g = GalaxyCatalog(a.copy())
            cat, idx = sel.select_redmagic_galaxies(g, nm.encode() if form == 'bytes' else nm, return_indices=True)
            n += judge_catalog(cat, idx, nm, k, par, a, zmax, kind, spec, conf.zred_nsamp, bad)
            if not np.array_equal(g._ndarray, a):
                bad.append('the input galaxies were changed')
            # a selection does not depend on the other galaxies
            for part in (slice(None, None, -1), slice(5, a.size, 3), slice(7, 8), slice(0, 0)):
                b = a[part].copy()
                c2 = sel.select_redmagic_galaxies(GalaxyCatalog(b), nm)
                want = [int(x) for x in b['id'] if int(x) in set(np.atleast_1d(cat.id).tolist())] if part.step != 3 else None
                if want is not None and (np.atleast_1d(c2.id).tolist() if c2.size else []) != want:
                    bad.append('another selection when run on part %s' % part)
                elif want is None:
                    if set(np.atleast_1d(c2.id).tolist()) != set(np.atleast_1d(cat.id).tolist()) & set(b['id'].tolist()):
                        bad.append('another selection when run on part %s' % part)
        try:
            sel.select_redmagic_galaxies(GalaxyCatalog(a.copy()), 'nosuchmode')
            bad.append('an unknown mode was accepted')
        except RuntimeError:
            pass
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return bad, (names[0], vl, kind, nsamp, offmap), n > 0


# ------------------------------------------------------------------- the task, over the pixels of a catalog
def sky(d, layout, kind, nsamp):
    """A pixelized galaxy catalog with zreds; layout: for each pixel whether its galaxies are red."""
    import fitsio
    import hpgeom as hpg
    from redmapper.galaxy import GalaxyCatalogMaker
    k = dict(maxchi=8.0, cushion=0.05, buf=0.03)
    a = lattice(nsamp, kind, k, False)
    a = a[::23].copy()
    i = np.arange(a.size)
    nside = 64
    cand = sorted(set(hpg.angle_to_pixel(nside, *hpg.pixel_to_angle(NS, region(), nest=True, lonlat=True), nest=False, lonlat=True).tolist()))
    # pixels well inside the map
    inner = [p for p in cand if np.all(np.isin(hpg.angle_to_pixel(NS, *hpg.pixel_to_angle(NS, hpg.query_circle(NS, *hpg.pixel_to_angle(nside, p, nest=False, lonlat=True), 0.2, nest=True), nest=True,
                                                                                                    lonlat=True), nest=True, lonlat=True), region()))][:len(layout)]
    assert len(inner) == len(layout)
    for q, p in enumerate(inner):
        mine = i % len(layout) == q
        ra, dec = hpg.pixel_to_angle(nside, p, nest=False, lonlat=True)
        a['ra'][mine] = (ra + 0.1 * ((i[mine] % 9) - 4) / 9) % 360
        a['dec'][mine] = dec + 0.1 * ((i[mine] % 7) - 3) / 7
        if layout[q] == 'blue':
            a['chisq'][mine] = 50.0
        elif layout[q] == 'one':
            first = np.where(mine)[0]
            a['chisq'][first] = 50.0
            j = first[len(first) // 2]
            a['chisq'][j], a['zred_uncorr'][j] = 0.01, 0.17
            a['refmag'][j] = c24.mstar_ref(np.array([0.17]))[0] - 1.0
    info = {'LIM_REF': 21.0, 'REF_IND': 3, 'AREA': 10.0, 'NMAG': 5, 'MODE': 'SDSS', 'ZP': 22.5, 'B': np.array([1.4e-10, 9e-11, 1.2e-10, 1.8e-10, 7.4e-10]),
            'U_IND': 0, 'G_IND': 1, 'R_IND': 2, 'I_IND': 3, 'Z_IND': 4}
    dt = [('id', 'i8'), ('ra', 'f8'), ('dec', 'f8'), ('refmag', 'f4'), ('refmag_err', 'f4'), ('mag', 'f4', 5), ('mag_err', 'f4', 5), ('ebv', 'f4')]
    if kind == 'ztrue':
        dt += [('ztrue', 'f4'), ('m200', 'f4'), ('central', 'i2'), ('halo_id', 'i8')]
    g = np.zeros(a.size, dtype=dt)
    for n in g.dtype.names:
        if n in a.dtype.names:
            g[n] = a[n]
    m = GalaxyCatalogMaker(os.path.join(d, 'gals', 'g'), info, nside=nside, ingest_truth=kind == 'ztrue')
    m.split_galaxies(g)
    # zreds, row by row of the pixel files
    tab, hdr = fitsio.read(m.filename, ext=1, header=True, lower=True)
    zd = os.path.join(d, 'zreds')
    os.makedirs(zd)
    byid = {int(x): j for j, x in enumerate(a['id'])}
    order, zfiles = [], []
    for f in np.atleast_1d(tab['filenames'][0]):
        f = f.decode().strip() if isinstance(f, bytes) else f.strip()
        rows = fitsio.read(os.path.join(d, 'gals', f), ext=1, lower=True)
        z = np.zeros(rows.size, dtype=[('zred', 'f4'), ('zred_e', 'f4'), ('zred2', 'f4'), ('zred2_e', 'f4'), ('zred_uncorr', 'f4'), ('zred_uncorr_e', 'f4'),
                                       ('zred_samp', 'f4', nsamp), ('lkhd', 'f4'), ('chisq', 'f4')])
        jj = np.array([byid[int(x)] for x in rows['id']])
        order += jj.tolist()
        for n in ('zred_uncorr', 'zred_uncorr_e', 'chisq', 'zred_samp'):
            z[n] = a[n][jj]
        z['zred'] = 0.9
        zfiles.append(f.replace('.fit', '_zreds.fit'))
        fitsio.write(os.path.join(zd, zfiles[-1]), z)
    w = max(len(x) for x in zfiles)
    zt = np.zeros(1, dtype=[(n, 'S%d' % w, tab.dtype[n].shape) if n == 'filenames' else (n, tab.dtype[n]) for n in tab.dtype.names])
    for n in tab.dtype.names:
        if n != 'filenames':
            zt[n] = tab[n]
    zt['filenames'][0][:] = [x.encode() for x in zfiles]
    zfile = os.path.join(zd, 'g_zreds_master_table.fit')
    fitsio.write(zfile, zt, header=hdr)
    return m.filename, a[np.array(order)], zfile


def run_task(case):
    import fitsio
    from redmapper import GalaxyCatalog, RedSequenceColorPar
    from redmapper.redmagic import RunRedmagicTask
    import hpgeom as hpg
    names, use, layout, vl, kind, nrand, again = case
    d = rm.workdir('c25')
    bad = []
    n = 0
    try:
        galfile, a, zfile = sky(d, layout, kind, 3)
        vf, cells = '', None
        if VLIM[vl] is not None:
            vf = os.path.join(d, 'vmask.hs')
            cells = vlim_file(vf, VLIM[vl])
        k = calib(os.path.join(d, 'calib.fit'), names, vf)
        conf = config(d, galfile=galfile, zredfile=zfile, zred_nsamp=3, has_truth=kind == 'ztrue', maskfile=rm.DROP, mask_mode=0, depthfile=rm.DROP, bkgfile=rm.DROP)
        spec = None
        if kind == 'match':
            spec = spec_file(os.path.join(d, 'spec.fit'), a)
        over = dict(galfile=galfile, zredfile=zfile, zred_nsamp=3, outbase='rmg', outpath=d, printlogging=False, zrange=[0.1, 0.6], redmagicfile=os.path.join(d, 'calib.fit'),
                    maskfile=rm.DROP, mask_mode=0, depthfile=rm.DROP, has_truth=kind == 'ztrue', specfile=os.path.join(d, 'spec.fit'))
        cf = rm.write_config(os.path.join(d, 'c.yaml'), **over)
        par = RedSequenceColorPar(conf.parfile, fine=True)
        task = RunRedmagicTask(cf)
        rm.quiet(task.config)
        modes = None if use is None else [names[i] for i in use]
        done = list(names) if modes is None else modes
        task.run(modes=modes, do_plots=False, n_randoms=nrand, rng=np.random.RandomState(5))
        if any(type(x).__name__ == 'FileHandler' for x in task.config.logger.handlers):
            bad.append('the log file is still open after the run')
        pix = hpg.angle_to_pixel(NS, a['ra'], a['dec'], nest=True, lonlat=True).tolist()
        zmax = np.full(a.size, 0.6) if cells is None else np.array([cells.get(p, 0.0) for p in pix])
        for nm in names:
            f = task.config.redmapper_filename('redmagic_%s' % nm, withversion=True)
            rf = task.config.redmapper_filename('redmagic_%s_randoms' % nm, withversion=True)
            if nm not in done:
                if os.path.exists(f) or os.path.exists(rf):
                    bad.append('files of mode %s, which was not asked for' % nm)
                continue
            cat = GalaxyCatalog.from_fits_file(f)
            with fitsio.FITS(f) as ff:
                if len(ff) != 2:
                    bad.append('%d extensions' % len(ff))
            n += judge_catalog(cat, None, nm, k, par, a, zmax, kind, spec, 3, bad)
            want = 0 if cells is None else (10 * cat.size if nrand is None else nrand)
            if cells is None or nrand == 0:
                if os.path.exists(rf):
                    bad.append('random points without a map')
            else:
                r = fitsio.read(rf, ext=1, lower=True)
                if r.size != want:
                    bad.append('%d random points, expected %d' % (r.size, want))
                rp = hpg.angle_to_pixel(NS, r['ra'], r['dec'], nest=True, lonlat=True).tolist()
                if any(not z < cells.get(p, -1.0) for p, z in zip(rp, r['z'])):
                    bad.append('random points outside the volume limit')
                if set(r['z'].tolist()) - set(np.atleast_1d(cat.zredmagic).tolist()):
                    bad.append('random redshifts that are not in the catalog')
        # again: refused without clobber and nothing changed, the same with it
        if again and not bad:
            fs = [task.config.redmapper_filename('redmagic_%s' % nm, withversion=True) for nm in done]
            old = [fitsio.read(f, ext=1) for f in fs]
            keep = fs[-1]
            for f in fs[:-1]:
                os.remove(f)
            t2 = RunRedmagicTask(cf)
            rm.quiet(t2.config)
            try:
                t2.run(modes=modes, do_plots=False, n_randoms=0)
                bad.append('an existing catalog was replaced')
            except RuntimeError:
                if any(os.path.exists(f) for f in fs[:-1]) or not np.array_equal(fitsio.read(keep, ext=1), old[-1]):
                    bad.append('a refused run changed the files')
            t3 = RunRedmagicTask(cf)
            rm.quiet(t3.config)
            t3.run(modes=modes, do_plots=False, n_randoms=0, clobber=True)
            for f, x in zip(fs, old):
                y = fitsio.read(f, ext=1)
                if not np.array_equal(x, y):
                    bad.append('the second run gives another catalog')
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return bad, (len(done), layout[0], vl, kind, nrand), n > 0


# ------------------------------------------------------------------- the calibration
def run_cost(case):
    """The cost function of the calibration, at every point of a grid, before and after corrections."""
    from redmapper import RedSequenceColorPar
    from redmapper.redmagic import RedmagicParameterFitter
    zkind, apply, n0, eta = case
    d = rm.workdir('c25')
    bad = []
    n = 0
    try:
        conf = config(d)
        par = RedSequenceColorPar(conf.parfile, fine=True)
        a = lattice(3, 'ztrue', None, False)[::11]
        a = a[(a['zred_uncorr'] > 0.12) & (a['zred_uncorr'] < 0.58)]
        i = np.arange(a.size)
        z = a['zred_uncorr'].astype('f8')
        ze = a['zred_uncorr_e'].astype('f8')
        chi, mag = a['chisq'].astype('f8'), a['refmag'].astype('f8')
        zs = z + 0.003 * ((i % 5) - 2) + 0.00037
        zmax = {'scalar': 0.45, 'array': np.where(i % 3 == 0, 0.33, 0.57)}[zkind]
        nodes, cn = np.array([0.15, 0.3, 0.55]), np.array([0.15, 0.4, 0.55])
        zr, bs = [0.15, 0.55], 0.05
        vol = 1e5 * (1.0 + np.arange(8))
        zcal = z - (0.02 * (z - 0.3))
        mst = c24.mstar_ref(z)
        fit = RedmagicParameterFitter(nodes, cn, z, ze, chi, mst, zcal, ze, mag, zs, zmax, eta, n0, vol, zr, bs, par, maxchi=8.0, ab_use=i[::2].copy(), ab_apply=apply)

        def cost(p, zz, sm, ms):
            cm = np.clip(c24.natural(nodes, np.array(p, 'f8'), z), 0.1, 8.0)
            lim = np.array([chi - cm, mag - (ms - 2.5 * math.log10(eta)), zz - zmax])
            if np.any(np.abs(lim) < 1e-6):
                return None
            k = np.all(lim < 0, axis=0)
            if not k.any():
                return 1e11
            h = np.zeros(8)
            x = (sm[k] - zr[0]) / bs
            if np.any(np.abs(x - np.round(x)) < 1e-7):
                return None
            for q in x:
                if 0 <= q and sm is not None and q * bs + zr[0] <= zr[1] - 0.0001:
                    h[int(q)] += 1
            t = float(np.sum((h / vol - n0 * 1e-4) ** 2 * vol / (n0 * 1e-4)))
            return t + (10000.0 if min(p) < 0.1 else 0.0)

        def compare(state, zz, sm, ms):
            m = 0
            for p in itertools.product((0.05, 0.6, 1.7, 4.3, 12.0), repeat=3):
                want = cost(p, zz, sm, ms)
                if want is None:
                    continue
                got = float(fit(np.array(p)))
                if abs(got - want) > 1e-8 * (1 + abs(want)):
                    bad.append('%s: cost at %s is %s, expected %s' % (state, p, got, want))
                    break
                m += 1
            return m
        n += compare('as given', z, zs, mst)
        p0 = np.array([2.0, 2.0, 2.0])
        bias, er = np.array([0.013, -0.017, 0.021]), np.array([1.2, 0.7, 1.1])
        off = c24.natural(cn, bias, z)
        for state in ('raw', 'corrected', 'raw', 'corrected'):
            if state == 'raw':
                pars = fit.fit(p0)
                zz, sm = z, zs
            else:
                pars = fit.fit(p0, biaspars=bias, eratiopars=er, afterburner=True)
                zz, sm = z - off, zs - (off if apply else 0.0)
            ms = np.asarray(par.mstar(zz), 'f8')
            n += compare(state, zz, sm, ms)
            if not fit(pars) <= fit(p0):
                bad.append('%s: the fit is worse than where it started' % state)
        # the corrections: the median of the calibrators that are in the selection
        b, e = fit.fit_bias_eratio(np.array([6.0, 6.0, 6.0]), np.zeros(3), np.ones(3))
        if np.any(np.abs(c24.natural(cn, b, np.array([0.2, 0.3, 0.4])) - 0.02 * (np.array([0.2, 0.3, 0.4]) - 0.3)) > 2e-3):
            bad.append('bias %s' % b)
        if np.any(e < 0.5 - 1e-9) or np.any(e > 1.5 + 1e-9):
            bad.append('error ratios %s' % e)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return bad, (zkind, apply, n0, eta), n > 300


def run_calib(case):
    """Calibration with fixed chisq on a small catalog, then the run it starts: from any directory."""
    import fitsio
    import matplotlib
    matplotlib.use('Agg')
    from redmapper import Configuration, GalaxyCatalog, RedSequenceColorPar
    from redmapper.redmagic import RedmagicCalibrator
    import hpgeom as hpg
    names, vl, ab, apply, cwd, cname, hpix = case
    d = rm.workdir('c25')
    here = os.getcwd()
    bad = []
    n = 0
    try:
        galfile, a, zfile = sky(d, ['red', 'red', 'one'], 'match', 3)
        spec_file(os.path.join(d, 'spec.fit'), a)
        out = os.path.join(d, 'out')
        os.makedirs(out)
        etas = {'hd': 0.5, 'hl': 1.0}
        chis = {'hd': 5.0, 'hl': 2.0}
        zms = {'hd': 0.45, 'hl': 0.55}
        cells = None
        over = {}
        if vl:
            import healsparse
            mk = healsparse.HealSparseMap.make_empty(NC, NS, dtype=np.float32)
            mk.update_values_pix(region(), np.ones(region().size, 'f4'))
            mk.write(os.path.join(d, 'mask.hs'), clobber=True)
            over = dict(maskfile=os.path.join(d, 'mask.hs'), mask_mode=3)
        else:
            over = dict(maskfile=rm.DROP, mask_mode=0)
        # members with redshifts, of one cluster
        byred = np.where((a['zred_uncorr'] > 0.1) & (a['zred_uncorr'] < 0.6))[0]
        mem = np.zeros(byred.size, dtype=[('id', 'i8'), ('mem_match_id', 'i4'), ('z', 'f4'), ('p', 'f4'), ('ra', 'f8'), ('dec', 'f8')])
        mem['id'], mem['mem_match_id'], mem['p'] = a['id'][byred], 1, 0.95
        mem['z'] = a['zred_uncorr'][byred] - 0.01
        cat = np.zeros(1, dtype=[('mem_match_id', 'i4'), ('z_lambda_e', 'f4'), ('z_lambda', 'f4')])
        cat['mem_match_id'], cat['z_lambda_e'] = 1, 0.005
        cf = os.path.join(d, 'cat.fit')
        fitsio.write(cf, cat)
        fitsio.write(os.path.join(d, 'cat_members.fit'), mem)
        if hpix:
            tab = fitsio.read(galfile, ext=1, lower=True)
            over.update(hpix=int(np.atleast_1d(tab['hpix'][0])[0]), nside=int(tab['nside'][0]))
        yml = rm.write_config(os.path.join(d, cname), galfile=galfile, zredfile=zfile, zred_nsamp=3, outbase='rmg', outpath=out, printlogging=False, zrange=[0.1, 0.6], depthfile=rm.DROP,
                              specfile=os.path.join(d, 'spec.fit'), catfile=cf, area=10.0, redmagic_names=list(names), redmagic_etas=[etas[x] for x in names], redmagic_n0s=[10.0 for x in names],
                              redmagic_zmaxes=[zms[x] for x in names], redmagic_use_constchi=True, redmagic_constchis=[chis[x] for x in names], redmagic_run_afterburner=ab,
                              redmagic_apply_afterburner_zsamp=apply, redmagic_calib_redshift_buffer=0.03125, redmagic_calib_chisqcut=8.0, redmagic_zrange=[0.125, 0.55], **over)
        conf = rm.quiet(Configuration(yml))
        os.makedirs(os.path.join(d, 'elsewhere'))
        os.chdir({'elsewhere': os.path.join(d, 'elsewhere'), 'out': out}[cwd])
        cal = RedmagicCalibrator(conf)
        cal.run(do_run=True)
        os.chdir(here)
        par = RedSequenceColorPar(conf.parfile, fine=True)
        with fitsio.FITS(conf.redmagicfile) as ff:
            if len(ff) != len(names) + 1:
                bad.append('%d calibrations of %d' % (len(ff) - 1, len(names)))
            recs = [ff[i + 1].read(lower=True) for i in range(len(ff) - 1)]
        run = rm.quiet(Configuration(cal.runfile))
        if os.path.dirname(os.path.abspath(cal.runfile)) != os.path.abspath(out):
            bad.append('configuration of the run in %s' % cal.runfile)
        if len(np.atleast_1d(run.hpix)) or run.nside:
            bad.append('the run is limited to the pixels of the calibration')
        if run.redmagicfile != conf.redmagicfile:
            bad.append('calibration file of the run')
        for nm, r in zip(names, recs):
            top = 0.15625 + math.ceil((zms[nm] - 0.03125 - 0.15625) / 0.02 - 1e-9) * 0.02
            want = dict(zrange=(0.125, zms[nm]), cost_zrange=(0.15625, top), maxchi=8.0, etamin=etas[nm], n0=10.0, buffer=0.03125, run_afterburner=int(ab), apply_afterburner=int(apply), z_cushion=0.05,
                        lstar_cushion=0.05)
            for key, v in want.items():
                c24.close('%s of %s' % (key, nm), np.atleast_1d(r[key][0]).astype('f8'), np.atleast_1d(v).astype('f8'), 1e-6, bad)
            c24.close('cmax', r['cmax'][0], np.full(r['cmax'][0].size, chis[nm]), 1e-12, bad)
            if abs(r['nodes'][0][0] - 0.15625) > 1e-6 or abs(r['nodes'][0][-1] - top) > 1e-6 or np.any(np.diff(r['nodes'][0]) < 0.02):
                bad.append('nodes %s do not cover the range' % r['nodes'][0])
            if not ab and (np.any(r['bias'][0] != 0) or np.any(r['eratio'][0] != 1)):
                bad.append('corrections although none were asked for')
            if ab and (np.any(np.abs(r['bias'][0]) > 0.1 + 1e-9) or np.any(np.abs(r['eratio'][0] - 1) > 0.5 + 1e-9) or not np.any(r['bias'][0])):
                bad.append('corrections outside their limits: %s %s' % (r['bias'][0], r['eratio'][0]))
            # the catalog is that of the calibration
            zmax = np.full(a.size, 0.6)
            if vl:
                # the map reaches the limit of the survey everywhere or nowhere: ask it
                from redmapper.volumelimit import VolumeLimitMask
                vm = r['vmaskfile'][0]
                vm = vm.decode().strip() if isinstance(vm, bytes) else vm.strip()
                zmax = np.asarray(VolumeLimitMask(run, etas[nm], vlimfile=vm).calc_zmax(a['ra'], a['dec']), 'f8')
            MODES['tmp'] = dict(etamin=etas[nm], n=r['nodes'][0].size, cmax=tuple(r['cmax'][0]), ab=ab, apply=apply, bias=tuple(r['bias'][0]), er=tuple(r['eratio'][0]), cost=(0.15625, top))
            got = GalaxyCatalog.from_fits_file(run.redmapper_filename('redmagic_%s' % nm, withversion=True))
            n += judge_catalog(got, None, 'tmp', dict(maxchi=8.0, cushion=0.05, buf=0.03125), par, a, zmax, 'match', fitsio.read(os.path.join(d, 'spec.fit'), ext=1), 3, bad,
                               nodes=(r['nodes'][0], r['corrnodes'][0]))
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)
    return bad, (len(names), vl, ab, apply), n > 0


def body(check):
    th = check.thorough
    allm = tuple(MODES)
    sel = []
    for names in [(m,) for m in allm] + [allm, allm[::-1]]:
        for vl in VLIM:
            for kind in ('ztrue', 'zspec', 'match', 'both'):
                for nsamp, off, form in ((3, False, 'conf'), (2, True, 'moved'), (4, True, 'file'), (3, True, 'bytes')) if th else ((3, True, 'conf'), (2, True, 'moved')):
                    if kind == 'match' and not th and vl != 'steps':
                        continue
                    sel.append([names, vl, kind, nsamp, off, form])
    sel += [[allm, 'steps', 'zspec', 4, True, 'file'], [allm, 'steps', 'zspec', 3, True, 'bytes']]
    check.run_cases(sel, run_select, 'select', chunk=1)
    lay = [p for p in itertools.product(('red', 'blue', 'one'), repeat=3)]
    task = [[allm[:2], None, list(p), 'steps', 'match', 0, i % 3 == 0] for i, p in enumerate(lay)]
    task += [[allm, use, ['red', 'blue', 'one', 'red'], vl, kind, nr, False] for use in (None, [0], [2, 1]) for vl in VLIM for kind in ('match', 'ztrue') for nr in (None, 0, 7)
             if th or (vl != 'deep' and (kind == 'match') == (nr != 0))]
    check.run_cases(task, run_task, 'task', chunk=1)
    check.run_cases([list(c) for c in itertools.product(('scalar', 'array'), (False, True), (2.0, 10.0, 40.0) if th else (10.0,), (0.4, 0.9) if th else (0.9,))], run_cost, 'cost', chunk=1)
    cal = [list(c) for c in itertools.product((('hd',), ('hl', 'hd')), (False, True), (False, True), (False, True), ('elsewhere', 'out'), ('cal.yaml', 'c.yaml'), (False, True))]
    if not th:
        cal = [c for i, c in enumerate(cal) if c[4] == 'elsewhere' and (c[5] == 'cal.yaml') == c[6] and (len(c[0]) == 2) != (c[2] and c[3])]
    check.run_cases(cal, run_calib, 'calib', chunk=1)


if __name__ == '__main__':
    core.main('C25', 'exploration',
              'Lattice of 40 redshifts x 13 chisq x 10 magnitudes around all limits of the selection x 3 calibrations (and their files) x volume-limit maps x sources of the spectroscopic redshift, whole, '
              'reversed, in parts and one by one; the task on catalogs of 3-4 pixels with every pattern of pixels without, with one or with many red galaxies, for all choices of modes and randoms; the cost function of the calibration on 125 points before and after its fits; the whole calibration with fixed chisq, and the run it starts. '
              'Non-trivial: galaxies are selected.', body)
