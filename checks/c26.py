"""C26: the calibration feeds every step with the right products, and gives the same products when interrupted anywhere and started again."""
import hashlib
import inspect
import os
import shutil
import sys

import fitsio
import numpy as np
import yaml

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import build, core, rm   # noqa: E402


class Crash(BaseException):
    pass


# ---------------------------------------------------------------- products as functions of their inputs
def H(*parts):
    return hashlib.sha1(repr(parts).encode()).hexdigest()[:16]


def rng(*parts):
    return np.random.RandomState(int(H(*parts)[:8], 16))


def content(arr):
    """Digest of a table, independent of the order of rows at different positions."""
    a = np.atleast_1d(arr)
    names = sorted(n.lower() for n in a.dtype.names)
    low = {n.lower(): n for n in a.dtype.names}
    if 'ra' in names:
        a = a[np.lexsort((np.round(a[low['dec']], 9), np.round(a[low['ra']], 9)))]
    return H(*[(n, np.asarray(a[low[n]], 'f8').round(12).tolist()) for n in names])


def read(path, ext=1):
    return fitsio.read(path, ext=ext)


def digest(path, ext=1):
    if path is None or not isinstance(path, str) or not os.path.isfile(path):
        return 'nothing'
    if path.endswith('.png'):
        with open(path) as f:
            return f.read()
    try:
        return content(read(path, ext))
    except OSError:
        return 'nothing'


def pos(i):
    return 140.0 + 0.01 * i, 65.0 + 0.005 * (i % 7)


SEEDS = [('ra', 'f8'), ('dec', 'f8'), ('refmag', 'f4'), ('zred', 'f4'), ('zred_e', 'f4'), ('zred_chisq', 'f4'), ('zspec', 'f4')]


def t_plain(*parts):
    a = np.zeros(3, dtype=[('x', 'f8'), ('y', 'f4')])
    a['x'] = rng(*parts).uniform(size=3)
    return a


def t_seeds(full, *parts):
    n = 12 if full else 9
    a = np.zeros(n, dtype=SEEDS)
    r = rng('seeds', full, *parts)
    for i in range(n):
        a['ra'][i], a['dec'][i] = pos(i)
    a['refmag'] = r.uniform(15, 19, n)
    a['zred'] = a['zred_e'] = a['zred_chisq'] = -1.0
    a['zspec'] = r.uniform(0.2, 0.4, n)
    return a[r.permutation(n)]


def t_zreds(seeds, pars):
    a = np.zeros(seeds.size, dtype=[('zred', 'f4'), ('zred_e', 'f4'), ('chisq', 'f4')])
    for i in range(seeds.size):
        r = rng('zred', pars, '%.6f' % seeds['ra'][i])
        a['zred'][i], a['zred_e'][i], a['chisq'][i] = r.uniform(0.2, 0.4), r.uniform(0.01, 0.02), r.uniform(0, 20)
    return a


LAMBDAS = (3.0, 2.5, 3.5, 5.0, 5.5, 20.0, 20.5, 40.0, 60.0, 8.0, 100.0, 2.0)


def t_clusters(kind, seeds, inputs):
    """The clusters found around seeds: near their seeds (one is 0.8 arcsec away), with richnesses at and around all limits."""
    n = seeds.size
    a = np.zeros(n, dtype=[('ra', 'f8'), ('dec', 'f8'), ('Lambda', 'f4'), ('z_lambda', 'f4'), ('z_lambda_e', 'f4'), ('z_spec_init', 'f4'), ('z_init', 'f4'), ('lnlike', 'f4')])
    r = rng(kind, inputs)
    off = np.where(np.arange(n) == 4, 0.8, 0.3) / 3600.0 if kind == 'final' else np.zeros(n)
    st = np.argsort(seeds['ra'])
    a['ra'] = seeds['ra'][st]
    a['dec'] = seeds['dec'][st] + off
    sh = int(r.randint(12))
    a['Lambda'] = [LAMBDAS[(i + sh) % 12] for i in range(n)]
    a['z_lambda'] = r.uniform(0.2, 0.4, n)
    a['z_lambda_e'] = r.uniform(0.005, 0.02, n)
    a['z_spec_init'] = r.uniform(0.2, 0.4, n)
    a['z_init'] = a['z_spec_init']
    a['lnlike'] = r.uniform(0, 9, n)
    return a[r.permutation(n)]


def near(a, b):
    """Rows of b within half an arcsecond of one of a."""
    d = np.hypot((a['ra'][:, None] - b['ra'][None, :]) * np.cos(np.radians(65.0)), a['dec'][:, None] - b['dec'][None, :]) * 3600.0
    return b[np.any(d < 0.5, axis=0)]


def t_zlambda(shift, *parts):
    a = fitsio.read(os.path.join(build.DATA, 'test_dr8_zlambdacorr.fit'), ext=1)
    a = a.astype(a.dtype.newbyteorder('='))
    r = rng('zlambda', *parts)
    a['OFFSET_TRUE'] = r.uniform(-0.01, 0.01, a['OFFSET_TRUE'].shape)
    a['SLOPE_TRUE'] = r.uniform(-0.01, 0.01, a['SLOPE_TRUE'].shape)
    if shift:
        # clusters around one redshift get a negative redshift
        a['OFFSET_TRUE'][0, 6, :] = 0.0
        a['OFFSET_TRUE'][0, 6, 2] = -2.5
    return a


WC = ('delta0', 'delta1', 'sigma_m', 'pivot', 'lnw_fg_mean', 'lnw_fg_sigma', 'lnw_sat_mean', 'lnw_sat_sigma', 'lnw_cen_mean', 'lnw_cen_sigma', 'phi1_mmstar_m', 'phi1_mmstar_slope', 'phi1_msig_m', 'phi1_msig_slope')
WCCONF = ('wcen_Delta0', 'wcen_Delta1', 'wcen_sigma_m', 'wcen_pivot') + WC[4:]


def t_wcen(first, prev, *parts):
    a = np.zeros(1, dtype=[(n, 'f8') for n in WC])
    r = rng('wcen', *parts)
    for n in WC:
        a[n] = r.uniform(0.1, 2.0)
    if not first:
        for n in WC[4:8] + WC[10:]:
            a[n] = prev[n]
    return a


# ---------------------------------------------------------------- the steps, replaced by recorders
class Lab:
    def __init__(self, crash, shift=None):
        self.crash = crash
        self.shift = shift
        self.n = 0
        self.ran = []
        self.done = set()
        self.names = []
        self.undo = []

    def event(self, name):
        self.n += 1
        self.names.append(name)
        if self.crash is not None and self.n == self.crash:
            raise Crash()

    def write(self, path, arr, ext=None, header=None, append=False):
        self.event('before ' + os.path.basename(path))
        d = os.path.dirname(path)
        if d and not os.path.isdir(d):
            os.makedirs(d)
        if path.endswith('.png'):
            with open(path, 'w') as f:
                f.write(arr)
        else:
            old = []
            if append and os.path.isfile(path):
                with fitsio.FITS(path) as f:
                    old = [(e.get_extname(), e.read()) for e in f[1:] if e.get_extname() != ext]
            tmp = path + '.tmp'
            if os.path.isfile(tmp):
                os.remove(tmp)
            with fitsio.FITS(tmp, 'rw', clobber=True) as f:
                for e, x in old:
                    f.write(x, extname=e)
                f.write(arr, extname=ext, header=header)
            os.replace(tmp, path)
        self.done.add((path, ext))
        self.event('after ' + os.path.basename(path))

    def patch(self, cls, name, fn):
        self.undo.append((cls, name, cls.__dict__.get(name)))
        setattr(cls, name, fn)

    def remove(self):
        for cls, name, old in reversed(self.undo):
            if old is None:
                delattr(cls, name)
            else:
                setattr(cls, name, old)

    def install(self):
        from redmapper import background, catalog, color_background, mask, plotting, redmapper_run, run_colormem, zred_runner
        from redmapper.calibration import centeringcal, prepmembers, redsequencecal, selectspecred, selectspecseeds, zlambdacal
        lab = self

        def region(c):
            return (sorted(int(x) for x in c.d.hpix), int(c.d.nside), float(c.border))

        def step(cls, name='run'):
            sig = inspect.signature(getattr(cls, name))

            def deco(fn):
                def wrapper(self, *a, **k):
                    b = sig.bind(self, *a, **k)
                    b.apply_defaults()
                    kw = dict(b.arguments)
                    kw.pop('self', None)
                    return fn(self, **kw)
                lab.patch(cls, name, wrapper)
                return fn
            return deco

        @step(selectspecred.SelectSpecRedGalaxies)
        def selred(self):
            c = self.config
            lab.ran.append('redgal')
            key = (region(c), os.path.basename(c.specfile_train))
            lab.write(c.redgalmodelfile, t_plain('model', key))
            lab.write(c.redgalfile, t_plain('redgal', key))

        @step(color_background.ColorBackgroundGenerator)
        def cbkg(self, clobber):
            c = self.config
            if os.path.isfile(c.bkgfile_color) and not clobber:
                return
            lab.ran.append('cbkg')
            lab.write(c.bkgfile_color, t_plain('cbkg', region(c)))

        @step(mask.Mask, 'gen_maskgals')
        def mg(self, maskgalfile):
            lab.ran.append('maskgals')
            lab.write(maskgalfile, t_plain('maskgals'))

        @step(run_colormem.RunColormem)
        def colormem(self, **k):
            c = self.config
            lab.ran.append('colormem')
            self._lab = H('colormem', region(c), digest(c.redgalfile), digest(c.redgalmodelfile), digest(c.bkgfile_color), digest(c.maskgalfile))

        @step(run_colormem.RunColormem, 'output_training')
        def colormem_out(self):
            lab.write(self.config.zmemfile, t_plain(self._lab))

        @step(selectspecseeds.SelectSpecSeeds)
        def seeds(self, usetrain):
            c = self.config
            lab.ran.append('seeds %s' % usetrain)
            lab.write(c.seedfile, t_seeds(not usetrain, region(c), os.path.basename(c.specfile_train if usetrain else c.specfile), digest(c.zredfile)))

        @step(redsequencecal.RedSequenceCalibrator)
        def redseq(self, **k):
            c = self.config
            lab.ran.append('pars ' + os.path.basename(c.parfile))
            lab.write(c.parfile, t_plain('pars', digest(self._galfile)))

        @step(zred_runner.ZredRunPixels)
        def zpix(self, **k):
            c = self.config
            lab.ran.append('zreds ' + os.path.basename(c.zredfile))
            lab.write(c.zredfile, t_plain('zreds', region(c), digest(c.parfile)))

        @step(zred_runner.ZredRunCatalog)
        def zcat(self, galaxyfile, outfile, clobber, **k):
            c = self.config
            lab.ran.append('zcat ' + os.path.basename(outfile))
            lab.write(outfile, t_zreds(read(galaxyfile), digest(c.parfile)))

        def there(c, ext):
            if not os.path.isfile(c.bkgfile):
                return False
            with fitsio.FITS(c.bkgfile) as f:
                return ext in [e.get_extname() for e in f[1:]]

        @step(background.BackgroundGenerator)
        def bkg(self, clobber, deepmode, **k):
            c = self.config
            if there(c, 'CHISQBKG') and not clobber:
                return
            lab.ran.append('bkg ' + os.path.basename(c.bkgfile))
            lab.write(c.bkgfile, t_plain('bkg', region(c), deepmode, None if c.depthfile is not None else round(float(c.area), 4), digest(c.parfile)), ext='CHISQBKG', append=not clobber)

        @step(background.ZredBackgroundGenerator)
        def zbkg(self, clobber, **k):
            c = self.config
            if there(c, 'ZREDBKG') and not clobber:
                return
            lab.ran.append('zbkg ' + os.path.basename(c.bkgfile))
            lab.write(c.bkgfile, t_plain('zbkg', region(c), digest(c.parfile), digest(c.zredfile)), ext='ZREDBKG', append=not clobber)

        @step(redmapper_run.RedmapperRun)
        def rrun(self, specmode, seedfile, check, percolation_only, consolidate_like, keepz, cleaninput, consolidate):
            c = self.config
            final = c.redmapper_filename('final')
            lab.ran.append('run ' + os.path.basename(final))
            src = read(c.catfile if percolation_only else seedfile)
            key = H('run', specmode, percolation_only, keepz, cleaninput, region(c), c.centerclass, digest(c.parfile), digest(c.bkgfile, 'CHISQBKG'), digest(c.bkgfile, 'ZREDBKG'), digest(c.zredfile),
                    digest(c.maskgalfile), digest(c.zlambdafile), content(src),
                    [float(getattr(c, n)) for n in WCCONF] if c.centerclass == 'CenteringWcenZred' else None)
            if consolidate_like:
                lab.write(c.redmapper_filename('like'), t_clusters('like', src, key))
            if consolidate:
                lab.write(c.redmapper_filename('final_members'), t_plain('members', key))
                lab.write(final, t_clusters('final', src, key))
            return (final, c.redmapper_filename('like')) if consolidate_like else final

        @step(centeringcal.WcenCalibrator)
        def wcen(self, **k):
            c = self.config
            lab.ran.append('wcen ' + os.path.basename(c.wcenfile))
            prev = {n: float(getattr(c, m)) for n, m in zip(WC, WCCONF)}
            a = t_wcen(self.iteration == 1, prev, digest(c.parfile), digest(c.bkgfile, 'CHISQBKG'), digest(c.catfile), digest(self.randcatfile), digest(self.randsatcatfile))
            if self.iteration == 1:
                for n in WC[4:8]:
                    setattr(c, n, float(a[n][0]))
            lab.write(c.wcenfile, a)

        @step(zlambdacal.ZLambdaCalibrator)
        def zl(self, **k):
            c = self.config
            lab.ran.append('zlambda ' + os.path.basename(c.zlambdafile))
            hdr = {'ZRANGE0': 0.03, 'ZRANGE1': 0.67, 'ZBINSIZE': 0.002, 'ZLAMPIV': 30.0}
            lab.write(c.zlambdafile, t_zlambda(lab.shift is not None and '_iter%d' % lab.shift in c.zlambdafile, digest(c.catfile), digest(c.parfile)), header=hdr)

        @step(prepmembers.PrepMembers)
        def prep(self, mode):
            c = self.config
            lab.ran.append('prep ' + os.path.basename(c.zmemfile))
            lab.write(c.zmemfile, t_plain('zmem', mode, digest(c.catfile), digest(os.path.splitext(c.catfile)[0] + '_members.fit')))

        @step(plotting.SpecPlot, 'plot_values')
        def plot(self, z_spec, z_phot, z_phot_e, **k):
            lab.ran.append('plot ' + os.path.basename(self.filename))
            lab.write(self.filename, plotted(z_spec, z_phot, z_phot_e))

        # the files that the calibration writes by itself
        real = catalog.DataObject.to_fits_file

        def to_fits_file(self, filename, *a, **k):
            lab.event('before ' + os.path.basename(filename))
            real(self, filename, *a, **k)
            lab.done.add((filename, None))
            lab.event('after ' + os.path.basename(filename))
        self.patch(catalog.DataObject, 'to_fits_file', to_fits_file)


def plotted(zs, zp, ze):
    a = np.array(sorted(zip(np.asarray(zs, 'f8').round(5), np.asarray(zp, 'f8').round(5), np.asarray(ze, 'f8').round(5))))
    return H(a.tolist())


# ---------------------------------------------------------------- the model of the calibration
def model(cfg, out, run, base, galarea):
    """All products (path -> digest) of the calibration."""
    from redmapper.zlambda import ZlambdaCorrectionPar
    niter = cfg['calib_niter']
    reg = (sorted(cfg.get('hpix', [])), cfg.get('nside', 0), float(cfg.get('border', 0.0)))
    exp, tabs = {}, {}

    def put(name, arr, ext=1):
        p = os.path.join(out, name)
        exp[p, ext] = content(arr)
        tabs[name, ext] = arr
        return exp[p, ext]
    key = (reg, os.path.basename(cfg['specfile_train']))
    model_ = put(base + '_zspec_redgals_model.fit', t_plain('model', key))
    redgal = put(base + '_zspec_redgals.fit', t_plain('redgal', key))
    cb = put(base + '_bkg_color.fit', t_plain('cbkg', reg))
    mg = put(base + '_maskgals.fit', t_plain('maskgals'))
    zmem = put(base + '_iter0_colormem_pgt%4.2f_lamgt%02d.fit' % (cfg['calib_pcut'], cfg['calib_colormem_minlambda']), t_plain(H('colormem', reg, redgal, model_, cb, mg)))
    train = t_seeds(False, reg, os.path.basename(cfg['specfile_train']), 'nothing')
    put(base + '_specseeds_train.fit', train)
    seeds = train
    wc = {n: float(cfg.get(m, DEFAULTS[m])) for n, m in zip(WC, WCCONF)}

    def with_zreds(s, pars):
        z = t_zreds(s, pars)
        t = s.copy()
        t['zred'], t['zred_e'], t['zred_chisq'] = z['zred'], z['zred_e'], z['chisq']
        return t

    def runkey(specmode, perc, keepz, cls, p, zl, src):
        return H('run', specmode, perc, keepz, True, reg, cls, p['pars'], p['bkg'], p['zbkg'], p['zreds'], mg, zl, content(src), [wc[n] for n in WC] if cls == 'CenteringWcenZred' else None)
    for k in range(1, niter + 1):
        b = '%s_iter%d' % (base, k)
        p = {'pars': put(b + '_pars.fit', t_plain('pars', zmem))}
        p['zreds'] = put(b + '/' + b + '_zreds_master_table.fit', t_plain('zreds', reg, p['pars']))
        p['bkg'] = put(b + '_bkg.fit', t_plain('bkg', reg, False, None if cfg.get('depthfile') else round(float(cfg.get('area') or galarea), 4), p['pars']), 'CHISQBKG')
        p['zbkg'] = put(b + '_bkg.fit', t_plain('zbkg', reg, p['pars'], p['zreds']), 'ZREDBKG')
        it = with_zreds(seeds, p['pars'])
        put(b + '_specseeds.fit', it)
        cls = cfg['firstpass_centerclass'] if k == 1 else 'CenteringWcenZred'
        rk = runkey(True, False, True, cls, p, 'nothing', it)
        like, final = t_clusters('like', it, rk), t_clusters('final', it, rk)
        put(b + '_like.fit', like)
        fin = put(b + '_final.fit', final)
        mem = put(b + '_final_members.fit', t_plain('members', rk))
        rand = randsat = 'nothing'
        if k == 1:
            sub = near(final[final['Lambda'] > cfg['percolation_minlambda']], like)
            put(b + '_sub_like.fit', sub)
            kr = runkey(False, True, True, 'CenteringRandom', p, 'nothing', sub)
            rand = put(b + '_rand_final.fit', t_clusters('final', sub, kr))
            kr = runkey(False, True, True, 'CenteringRandomSatellite', p, 'nothing', sub)
            randsat = put(b + '_randsat_final.fit', t_clusters('final', sub, kr))
        w = t_wcen(k == 1, wc, p['pars'], p['bkg'], fin, rand, randsat)
        put(b + '_wcen.fit', w)
        wc = {n: float(w[n][0]) for n in WC}
        z = t_zlambda(False, fin, p['pars'])
        zl = put(b + '_zlambda.fit', z)
        tmp = os.path.join(out, '.model_zlambda.fit')
        fitsio.write(tmp, z, header={'ZRANGE0': 0.03, 'ZRANGE1': 0.67, 'ZBINSIZE': 0.002, 'ZLAMPIV': 30.0}, clobber=True)
        corr = ZlambdaCorrectionPar(parfile=tmp, zlambda_pivot=cfg.get('zlambda_pivot', 30.0))
        os.remove(tmp)
        u = final[(final['Lambda'] > cfg['calib_minlambda']) & (final['Lambda'] > cfg['calib_zlambda_minlambda'])]
        zz = [corr.apply_correction(float(x['Lambda']), float(x['z_lambda']), float(x['z_lambda_e'])) for x in u]
        zz = [(np.float32(np.ravel(a)[0]), np.float32(np.ravel(e)[0])) for a, e in zz]
        exp[os.path.join(out, cfg['plotpath'], b + '_zspec.png'), 1] = plotted(u['z_spec_init'], [a for a, _ in zz], [e for _, e in zz])
        zmem = put(b + '_zmem_pgt%4.2f_lamgt%02d.fit' % (cfg['calib_pcut'], int(cfg['calib_minlambda'])), t_plain('zmem', 'z_init', fin, mem))
        if k == 1:
            seeds = near(final[final['Lambda'] > cfg['percolation_minlambda']], seeds)
            put(base + '_cut_specseeds.fit', seeds)
    full = t_seeds(True, reg, os.path.basename(cfg['specfile']), p['zreds'])
    put(base + '_specseeds.fit', full)
    b = '%s_iter%db' % (base, niter)
    it = with_zreds(full, p['pars'])
    put(b + '_specseeds.fit', it)
    rk = runkey(False, False, False, cfg['centerclass'], p, zl, it)
    final = t_clusters('final', it, rk)
    put(b + '_final.fit', final)
    u = final[final['Lambda'] > cfg['calib_zlambda_minlambda']]
    exp[os.path.join(out, cfg['plotpath'], b + '_zspec.png'), 1] = plotted(u['z_spec_init'], u['z_lambda'], u['z_lambda_e'])
    sub = cfg.get('nside', 0) > 0
    runbase = base.replace('_cal', '_run') if '_cal' in base else base + '_run'
    lastb = '%s_iter%d' % (base, niter)
    y = dict(parfile=os.path.join(out, lastb + '_pars.fit'), bkgfile=os.path.join(out, lastb + '_bkg.fit'), zlambdafile=os.path.join(out, lastb + '_zlambda.fit'),
             wcenfile=os.path.join(out, lastb + '_wcen.fit'), bkgfile_color=os.path.join(out, base + '_bkg_color.fit'), maskgalfile=os.path.join(out, base + '_maskgals.fit'),
             redgalfile=os.path.join(out, base + '_zspec_redgals.fit'), redgalmodelfile=os.path.join(out, base + '_zspec_redgals_model.fit'), galfile=full_path(cfg['galfile']), specfile=full_path(cfg['specfile']),
             zredfile=os.path.join(out, lastb, lastb + '_zreds_master_table.fit'), outbase=runbase, nside=0, hpix=[], border=0.0, area=None, catfile=None, seedfile=None, zmemfile=None,
             centerclass=cfg['centerclass'], depthfile=full_path(cfg.get('depthfile')), maskfile=full_path(cfg.get('maskfile')))
    for n, m in zip(WC, WCCONF):
        y[m] = wc[n]
    if sub:
        y['zredfile'] = os.path.join(run, 'zreds', os.path.basename(cfg['galfile']).replace('_master', '_zreds_master'))
        if cfg['calib_make_full_bkg']:
            y['bkgfile'] = os.path.join(run, runbase + '_bkg.fit')
            exp[y['bkgfile'], 'CHISQBKG'] = content(t_plain('bkg', ([], 0, 0.0), True, None if cfg.get('depthfile') else round(galarea, 4), p['pars']))
    return exp, y


def full_path(p):
    return p if p is None else os.path.normpath(os.path.join(START[0], p))


START = [None]
DEFAULTS = {}
VARIANTS = {
    # name: (configuration, base name, directory, directory of the run)
    'sub2': (dict(calib_niter=2, hpix=[570], nside=32, border=0.25, depthfile='depth.hs', maskfile='mask.hs', mask_mode=3, relative=True), 'x_cal', 'cal', 'run'),
    'full3': (dict(calib_niter=3), 'survey', 'cal_a', 'run_a'),
    'sub1': (dict(calib_niter=1, hpix=[570], nside=32, border=0.25, area=2.5, calib_make_full_bkg=False), 'x_calb', 'a_cal', 'a_run'),
    'sub2area': (dict(calib_niter=2, hpix=[570], nside=32, border=0.0, area=2.5), 'x_cal', 'other', 'other_run'),
    'full1': (dict(calib_niter=1, centerclass='CenteringBCG', firstpass_centerclass='CenteringWcenZred'), 'c', 'cal', 'run'),
}


def setup(d, variant):
    over, base, cal, run = VARIANTS[variant]
    out = os.path.join(d, cal)
    os.makedirs(os.path.join(out, 'plots'))
    spec = fitsio.read(os.path.join(build.DATA, 'test_dr8_spec.fit'), ext=1)
    for n in ('spec.fit', 'spec_train.fit'):
        fitsio.write(os.path.join(d, n), spec[:5], clobber=True)
    cfg = rm.base_config(outpath=out, outbase=base, plotpath='plots', specfile=os.path.join(d, 'spec.fit'), specfile_train=os.path.join(d, 'spec_train.fit'), calib_pcut=0.3, calib_minlambda=5.0,
                         calib_zlambda_minlambda=20.0, calib_colormem_minlambda=10.0, percolation_minlambda=3.0, centerclass='CenteringWcenZred', firstpass_centerclass='CenteringBCG',
                         calib_make_full_bkg=True, mask_mode=0, printlogging=True)
    for k in ('hpix', 'nside', 'border', 'area', 'zredfile', 'bkgfile', 'bkgfile_color', 'parfile', 'maskfile', 'depthfile', 'catfile', 'wcenfile', 'zlambdafile', 'seedfile', 'randfile',
              'maskgalfile', 'halofile'):
        cfg.pop(k, None)
    cfg.update(over)
    if cfg.pop('relative', False):
        # files named relative to the directory the calibration is started in
        src = rm.base_config()
        for k, n in (('depthfile', 'depth.hs'), ('maskfile', 'mask.hs')):
            os.symlink(src[k], os.path.join(d, n))
        for k in ('specfile', 'specfile_train'):
            cfg[k] = os.path.basename(cfg[k])
        cfg['galfile'] = os.path.relpath(cfg['galfile'], d)
        cfg['outpath'] = os.path.relpath(out, d)
    START[0] = d
    path = os.path.join(d, 'cal.yml')
    with open(path, 'w') as f:
        yaml.safe_dump(cfg, f)
    return path, cfg, out, os.path.join(d, run), base


def start(path, crash, shift=None):
    """One start of the calibration; returns the recorder, and whether it came to its end."""
    lab = Lab(crash, shift)
    here = os.getcwd()
    os.chdir(os.path.dirname(path))
    try:
        return start_there(path, lab)
    finally:
        os.chdir(here)


def start_there(path, lab):
    from redmapper.calibration.calibrate import RedmapperCalibrator
    from redmapper.configuration import Configuration
    import contextlib
    import io
    conf = rm.quiet(Configuration(path))
    lab.area = float(conf.galfile_area)
    lab.install()
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            RedmapperCalibrator(conf).run()
        return lab, True
    except Crash:
        return lab, False
    finally:
        lab.remove()


def defaults():
    if not DEFAULTS:
        from redmapper.configuration import Configuration
        for n in WCCONF:
            DEFAULTS[n] = float(Configuration.__dict__[n]._default)
    return DEFAULTS


def judge(exp, y, out, run, labs):
    bad = []
    for (p, ext), want in exp.items():
        got = digest(p, ext)
        if got == 'nothing':
            bad.append('%s %s is missing' % (os.path.relpath(p, os.path.dirname(out)), ext))
        elif got != want:
            bad.append('%s %s is not what its inputs give' % (os.path.relpath(p, os.path.dirname(out)), ext))
    yml = os.path.join(run, 'run_default.yml')
    if not os.path.isfile(yml):
        return bad + ['no run_default.yml']
    with open(yml) as f:
        got = yaml.safe_load(f)
    for k, v in y.items():
        g = got.get(k)
        if (v is None and g is not None) or (v is not None and isinstance(v, float) and (g is None or abs(float(g) - v) > 1e-9)) or (v is not None and not isinstance(v, float) and g != v):
            bad.append('%s in run_default.yml is %r, expected %r' % (k, g, v))
    for k, g in got.items():
        if (k.endswith('file') or k.startswith('specfile')) and isinstance(g, str) and not os.path.isabs(g):
            bad.append('%s in run_default.yml is a relative path: %s' % (k, g))
    # nothing that is there is made again (other than the products of a step that was stopped in the middle)
    seen = set()
    for lab in labs:
        bad += ['%s %s is made again although it was there' % (os.path.basename(p), e) for p, e in lab.done & seen
                if not p.endswith(('_specseeds_zreds.fit', '_like.fit', '_final_members.fit', '_model.fit')) or p.endswith('_sub_like.fit')]
        seen |= lab.done
    return bad


def run_crash(case):
    variant, crashes = case
    defaults()
    d = rm.workdir('c26')
    try:
        path, cfg, out, run, base = setup(d, variant)
        labs = []
        try:
            for c in list(crashes) + [None]:
                lab, done = start(path, c)
                labs.append(lab)
                if done and c is not None:
                    return [], 'no such point', False
        except Exception as e:
            return ['%s after the interruptions: %s' % (core.exc_problem(e, 'the calibration'), [lab.names[-1] for lab in labs])], 'raised', True
        exp, y = model(cfg, out, run, base, labs[0].area)
        bad = judge(exp, y, out, run, labs)
        return [b + ' (interrupted %s)' % [lab.names[-1] for lab in labs[:-1]] if labs[1:] else b for b in bad][:4], (variant, len(labs[-1].ran)), True
    finally:
        shutil.rmtree(d)


def points(variant):
    defaults()
    d = rm.workdir('c26')
    try:
        path, cfg, out, run, base = setup(d, variant)
        try:
            return start(path, None)[0].n
        except Exception:
            return 30
    finally:
        shutil.rmtree(d)


def run_negative(case):
    """A redshift correction that gives negative redshifts is refused."""
    variant, shift = case
    defaults()
    d = rm.workdir('c26')
    try:
        path, cfg, out, run, base = setup(d, variant)
        try:
            start(path, None, shift)
            refused = False
        except RuntimeError:
            refused = True
        from redmapper.zlambda import ZlambdaCorrectionPar
        neg = []
        for k in range(1, shift + 1):
            f = read(os.path.join(out, '%s_iter%d_final.fit' % (base, k)))
            corr = ZlambdaCorrectionPar(parfile=os.path.join(out, '%s_iter%d_zlambda.fit' % (base, k)), zlambda_pivot=30.0)
            neg += [bool(np.ravel(corr.apply_correction(float(x['Lambda']), float(x['z_lambda']), float(x['z_lambda_e']))[0])[0] < 0) for x in f[f['Lambda'] > cfg['calib_minlambda']]]
        if refused != any(neg):
            return ['corrections that make %d of %d redshifts negative are %s' % (sum(neg), len(neg), 'refused' if refused else 'accepted')], 'wrong', True
        return [], ('refused' if refused else 'accepted'), any(neg) and not neg[-1]
    finally:
        shutil.rmtree(d)


# ---------------------------------------------------------------- the real steps, interrupted at every write
STAGES = {}


def stage(name):
    def deco(fn):
        STAGES[name] = fn
        return fn
    return deco


@stage('redgals')
def st_redgals(d):
    from redmapper.calibration.selectspecred import SelectSpecRedGalaxies
    c = stage_conf(d, galfile=os.path.join(build.DATA, 'test_dr8_trainred_gals.fit'), specfile_train=os.path.join(build.DATA, 'test_dr8_trainred_spec.fit'), zrange=[0.1, 0.2])
    c.redgalfile, c.redgalmodelfile = os.path.join(d, 'gals.fit'), os.path.join(d, 'model.fit')
    return lambda: SelectSpecRedGalaxies(c).run(), 'gals.fit', ('gals.fit', 'model.fit')


@stage('pars')
def st_pars(d):
    from redmapper.calibration.redsequencecal import RedSequenceCalibrator
    c = stage_conf(d, calib_use_pcol=True, zrange=[0.1, 0.2])
    c.parfile = os.path.join(d, 'pars.fit')
    return lambda: RedSequenceCalibrator(c, os.path.join(build.DATA, 'test_dr8_trainredseq_gals.fit')).run(doRaise=False), 'pars.fit', ('pars.fit',)


@stage('color')
def st_color(d):
    from redmapper.color_background import ColorBackgroundGenerator
    c = stage_conf(d)
    c.bkgfile_color = os.path.join(d, 'color.fit')
    c.limmag_ref = 17.0
    return lambda: ColorBackgroundGenerator(c, minrangecheck=1).run(), 'color.fit', ('color.fit',)


@stage('seeds')
def st_seeds(d):
    from redmapper.calibration.selectspecseeds import SelectSpecSeeds
    c = stage_conf(d)
    c.seedfile = os.path.join(d, 'seeds.fit')
    return lambda: SelectSpecSeeds(c).run(usetrain=False), 'seeds.fit', ('seeds.fit',)


def stage_conf(d, **over):
    from redmapper.configuration import Configuration
    c = rm.quiet(Configuration(rm.write_config(os.path.join(d, 'c.yml'), outpath=d, plotpath='', printlogging=True)))
    for k, v in over.items():
        setattr(c, k, v)
    return c


class Writes:
    """Counts (and at one of them stops) every write of a file."""
    def __init__(self, crash):
        self.crash, self.n, self.depth = crash, 0, 0

    def event(self):
        self.n += 1
        if self.n == self.crash:
            raise Crash()

    def wrap(self, fn):
        def f(*a, **k):
            self.event()
            r = fn(*a, **k)
            self.event()
            return r
        return f

    def __enter__(self):
        import matplotlib
        matplotlib.use('Agg')
        from matplotlib.figure import Figure
        self.old = [(fitsio, 'write', fitsio.write), (os, 'replace', os.replace), (os, 'rename', os.rename), (shutil, 'move', shutil.move), (os, 'remove', os.remove), (Figure, 'savefig', Figure.savefig)]
        for o, n, f in self.old:
            setattr(o, n, self.wrap(f) if n != 'savefig' else (lambda *a, **k: None))
        return self

    def __exit__(self, *a):
        for o, n, f in self.old:
            setattr(o, n, f)


def table_digest(path):
    if not os.path.isfile(path):
        return None
    with fitsio.FITS(path) as f:
        return [(e.get_extname(), content(e.read())) for e in f[1:]]


def stage_start(d, name, crash):
    np.random.seed(5)
    run, gate, outs = STAGES[name](d)
    with Writes(crash) as w:
        try:
            run()
            return w.n, True, gate, outs
        except Crash:
            return w.n, False, gate, outs


def stage_reference(name):
    if name not in REF:
        d = rm.workdir('c26ref')
        n, _, gate, outs = stage_start(d, name, None)
        REF[name] = (n, {o: table_digest(os.path.join(d, o)) for o in outs})
        shutil.rmtree(d)
    return REF[name]


REF = {}


def run_stage(case):
    name, crash = case
    d = rm.workdir('c26s')
    try:
        n, want = stage_reference(name)
        _, done, gate, outs = stage_start(d, name, crash)
        if done and crash is not None:
            return [], 'no such point', False
        left = {o: table_digest(os.path.join(d, o)) for o in outs}
        bad = []
        if left[gate] is not None:
            # taken as done when started again
            bad = ['%s stopped at write %s of %s leaves %s, but %s is %s' % (name, crash, n, gate, o, 'missing' if left[o] is None else 'not complete') for o in outs if left[o] != want[o]]
            what = 'done'
        else:
            stage_start(d, name, None)
            left = {o: table_digest(os.path.join(d, o)) for o in outs}
            bad = ['%s stopped at write %s of %s and run again gives other %s' % (name, crash, n, o) for o in outs if left[o] != want[o]]
            what = 'again'
        return bad, (name, what), True
    finally:
        shutil.rmtree(d)


def body(check):
    from redmapper.calibration import calibrate   # noqa: F401
    th = check.thorough
    variants = list(VARIANTS)
    n = {v: points(v) for v in variants}
    check.extra['interruption_points'] = sum(n.values())
    one = [[v, []] for v in variants] + [[v, [i]] for v in variants for i in range(1, n[v] + 1)]
    check.run_cases(one, run_crash, 'once', chunk=2)
    st = []
    for k in STAGES:
        try:
            n_ = stage_reference(k)[0]
        except Exception as e:
            check.problem({'group': 'stage', 'case': [k, None]}, core.exc_problem(e, k))
            continue
        st += [[k, i] for i in [None] + list(range(1, n_ + 1))]
    check.extra['write_points'] = len(st)
    check.run_cases(st or [['seeds', None]], run_stage, 'stage', chunk=1)
    # interrupted twice: the second time i events after the start
    two = [[v, [i, j]] for v in variants for i in range(1, n[v] + 1) for j in range(1, n[v] - i + 2)]
    if not th:
        two = [[v, [i, 1 + (5 * i) % max(1, n[v] - i)]] for v in ('sub1', 'full1') for i in range(1, n[v] + 1)]
    check.run_cases(two, run_crash, 'twice', chunk=4)
    check.run_cases([[v, k] for v in variants for k in range(1, VARIANTS[v][0]['calib_niter'] + 1)], run_negative, 'negative', chunk=1)


if __name__ == '__main__':
    core.main('C26', 'exploration',
              'The whole calibration (five configurations: 1-3 iterations, part of the sky or all of it, with or without an own area, relative or absolute paths) with its steps replaced by recorders whose products '
              'are functions of the inputs they are given, interrupted at every write of a file (thorough: at every pair of writes) and started again, against a model of which product every step has to be given; '
              'the real steps with several writes interrupted at each of them; redshift corrections that turn some redshifts negative. Non-trivial: all.', body)
