"""C21: a configuration has the values of its own file and catalog, whatever other configurations did."""
import itertools
import logging
import os
import shutil

import fitsio
import numpy as np
import yaml

from mc import build, core, ref, rm

WCEN = ('wcen_Delta0', 'wcen_Delta1', 'wcen_sigma_m', 'wcen_pivot', 'lnw_fg_mean', 'lnw_fg_sigma', 'lnw_sat_mean', 'lnw_sat_sigma', 'lnw_cen_mean', 'lnw_cen_sigma')
PHI = ('phi1_mmstar_m', 'phi1_mmstar_slope', 'phi1_msig_m', 'phi1_msig_slope')
# taken from the galaxy catalog, whatever the file says
FROM_CATALOG = ('limmag_ref', 'nmag', 'zeropoint', 'b', 'ref_ind', 'galfile_nside', 'galfile_pixelized', 'survey_mode', 'bands', 'galfile_has_truth', 'galfile_has_zspec')
# groups of variables that have to have the same length
LENGTHS = [('calib_color_nodesizes', 'calib_slope_nodesizes', 'calib_color_maxnodes', 'calib_covmat_maxnodes'),
           ('calib_colormem_colormodes', 'calib_colormem_sigint'), ('redmagic_n0s', 'redmagic_etas', 'redmagic_names', 'redmagic_zmaxes'),
           ('vlim_bands', 'vlim_nsigs', 'vlim_depthfiles')]
FIXED_LENGTH = ('zrange', 'bkg_local_annuli', 'redmagic_zrange')
SPECIAL = ('galfile', 'refmag', 'has_truth', 'centering_use_zspec', 'maskfile', 'mask_mode', 'vlim_bands', 'vlim_nsigs', 'vlim_depthfiles', 'area', 'outpath', 'redmagic_names',
           'redmagic_n0s', 'redmagic_etas', 'redmagic_zmaxes', 'calib_colormem_zbounds', 'calib_colormem_colormodes', 'calib_colormem_sigint', 'version', 'bkg_local_annuli')


def load(d, over, name='c.yml', raw=None, **kw):
    from redmapper import Configuration
    p = os.path.join(d, name)
    if raw is None:
        rm.write_config(p, **dict({'outpath': d}, **over))
    else:
        with open(p, 'w') as f:
            yaml.safe_dump(raw, f)
    c = Configuration(p, **kw)
    c.logger.setLevel(logging.CRITICAL)
    return c


def plain(v):
    """A value without types that make no difference to a user (arrays, numpy scalars)."""
    if isinstance(v, np.ndarray):
        v = v.tolist()
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, np.generic):
        v = v.item()
    if isinstance(v, bytes):
        v = v.decode()
    return v


def fields():
    return sorted(F['base'])


def state(c):
    return {k: plain(getattr(c, k)) for k in F['base']}


F = {}


def setup():
    """The names of the variables, and their values for the base file."""
    if F:
        return
    d = rm.workdir('c21')
    try:
        c = load(d, {})
        c.output_yaml(d + '/out.yml')
        with open(d + '/out.yml') as f:
            F['base'] = dict.fromkeys(yaml.safe_load(f))
        F['base'] = state(c)
        F['base'].pop('outpath')
    finally:
        shutil.rmtree(d)


def alternatives(k):
    v = F['base'][k]
    if isinstance(v, bool):
        return [not v]
    if isinstance(v, int):
        return [v + 3]
    if isinstance(v, float):
        return [v + 0.25, -v - 1.5] if k not in ('border',) else [v + 0.25]
    if isinstance(v, list):
        if not v:
            return [[1.5], [1.5, 2.5, 3.5]] if k not in FIXED_LENGTH else [[0.3, 0.4]]
        if isinstance(v[0], str):
            return [[x + 'x' for x in v]]
        return [[x + 0.125 * (i + 1) for i, x in enumerate(v)]]
    return ['alt', 'other']


def expect(over):
    """Values of all variables for the base file with some of them changed."""
    e = dict(F['base'])
    for k, v in over.items():
        if k in FROM_CATALOG:
            continue
        e[k] = plain(v)
    if 'specfile' in over and 'specfile_train' not in over:
        e['specfile_train'] = e['specfile']
    if ('zrange' in over and 'redmagic_zrange' not in over) or ('redmagic_zrange' in over and (over['redmagic_zrange'] == [] or min(over['redmagic_zrange']) < 0)):
        e['redmagic_zrange'] = e['zrange']
    return e


def differences(c, e, what):
    s = state(c)
    return ['%s: %s is %r, expected %r' % (what, k, s[k], e[k]) for k in sorted(e) if s[k] != e[k]][:3]


# ------------------------------------------------------------------ variables of the file
def run_set(case):
    """Some variables set; also after another configuration, and written and read again."""
    over = {k: v for k, v in case}
    d = rm.workdir('c21')
    try:
        c = load(d, over)
        e = expect(over)
        bad = differences(c, e, 'set %s' % over)
        other = load(d, {}, 'o.yml')
        bad += differences(other, F['base'], 'another configuration, after %s' % over)
        bad += differences(c, e, 'set %s, then another configuration loaded' % over)
        c.output_yaml(d + '/w.yml')
        again = type(c)(d + '/w.yml')
        bad += differences(again, e, 'set %s, written and read again' % over)
        if plain(c.outpath) != d or plain(again.outpath) != d:
            bad.append('outpath %s' % c.outpath)
        if c.d.outbase != e['outbase'] or plain(c.d.hpix) != e['hpix'] or c.d.nside != e['nside']:
            bad.append('sub-region %s %s %s' % (c.d.outbase, c.d.hpix, c.d.nside))
        mags = {n[0]: n for n in c.cluster_dtype}
        for n in ('RA_CENT', 'P_CEN', 'ID_CENT', 'LAMBDA_CENT', 'ZLAMBDA_CENT', 'P_FG', 'Q_CEN', 'P_SAT', 'P_C', 'DEC_CENT'):
            if mags[n][2] != e['percolation_maxcen']:
                bad.append('%s centers in %s' % (mags[n][2], n))
        for n, k in (('MAG', 'nmag'), ('MAG_ERR', 'nmag'), ('PZ', 'npzbins'), ('PZBINS', 'npzbins')):
            if mags[n][2] != e[k]:
                bad.append('%s values in %s' % (mags[n][2], n))
        return bad[:3], tuple(sorted(over)), True
    finally:
        shutil.rmtree(d)


def run_refused(case):
    """Configurations that can not be used are refused: a variable that does not exist or is missing, lengths that do not match, contradictions."""
    over = {k: (rm.DROP if v == 'DROP' else v) for k, v in case}
    d = rm.workdir('c21')
    try:
        try:
            load(d, over)
        except Exception as e:
            return [], type(e).__name__, True
        return ['%s is accepted' % (case,)], 'accepted', True
    finally:
        shutil.rmtree(d)


def run_accepted(case):
    over = {k: (rm.DROP if v == 'DROP' else v) for k, v in case}
    d = rm.workdir('c21')
    try:
        c = load(d, over)
        e = {k: v for k, v in expect({k: v for k, v in over.items() if v is not rm.DROP}).items() if over.get(k) is not rm.DROP}
        if over.get('limmag_catalog') is rm.DROP:
            e['limmag_catalog'] = e['limmag_ref']
        return differences(c, e, str(case)), str(case), True
    finally:
        shutil.rmtree(d)


# ------------------------------------------------------------------ histories
HOPS = (['A'], ['B'], ['copy'], ['swap'], ['set', 'percolation_beta', 0.77], ['set', 'zrange', [0.15, 0.45]], ['set', 'catfile', 'x.fit'], ['set', 'vlim_nsigs', [3.0]], ['d', 'hpix', [11, 12]], ['d', 'outbase', 'changed'],
        ['yaml'], ['wcen'])
VARIANT = {'A': {'percolation_beta': 0.31, 'outbase': 'aaa', 'hpix': [2163], 'nside': 64, 'zrange': [0.1, 0.5]}, 'B': {'percolation_r0': 0.9, 'outbase': 'bbb', 'vlim_lstar': 5.0, 'bkg_local_annuli': [1.0, 4.0]}}


def run_history(case):
    """Configurations loaded, copied, changed, written; each one keeps its own values (current: the last of the list)."""
    d = rm.workdir('c21')
    try:
        live = []

        def model(e):
            return dict(e, d={'outbase': e['outbase'], 'hpix': e['hpix'], 'nside': e['nside']})
        wc = None
        for n, op in enumerate(case):
            kind = op[0]
            if kind in ('A', 'B'):
                live.append([load(d, VARIANT[kind], 'c%d.yml' % n), model(expect(VARIANT[kind]))])
            elif not live:
                continue
            elif kind == 'copy':
                c, m = live[-1]
                live.append([c.copy(), dict(m, d=dict(m['d']))])
            elif kind == 'swap':
                live = live[-1:] + live[:-1]
            elif kind == 'set':
                setattr(live[-1][0], op[1], op[2])
                live[-1][1][op[1]] = op[2]
            elif kind == 'd':
                setattr(live[-1][0].d, op[1], op[2])
                live[-1][1]['d'][op[1]] = op[2]
            elif kind == 'wcen':
                if wc is None:
                    wc = write_wcen(d + '/wcen.fit', True, 1.0)
                live[-1][0].wcenfile = d + '/wcen.fit'
                live[-1][0].set_wcen_vals()
                live[-1][1].update(wc, wcenfile=d + '/wcen.fit')
            elif kind == 'yaml':
                c, m = live[-1]
                if len(m['vlim_nsigs']) != len(m['vlim_depthfiles']):
                    continue     # is refused
                c.output_yaml(d + '/w%d.yml' % n)
                c2 = type(c)(d + '/w%d.yml' % n)
                c2.logger.setLevel(logging.CRITICAL)
                live.append([c2, model({k: v for k, v in m.items() if k != 'd'})])
        bad = []
        for i, (c, m) in enumerate(live):
            what = 'configuration %d of %d' % (i, len(live))
            bad += differences(c, {k: v for k, v in m.items() if k != 'd'}, what)
            got = {k: plain(getattr(c.d, k)) for k in m['d']}
            if got != m['d']:
                bad.append('%s: sub-region %s, expected %s' % (what, got, m['d']))
            f = c.redmapper_filename('cat')
            if f != os.path.join(d, m['d']['outbase'] + '_cat.fit'):
                bad.append('%s: file name %s' % (what, f))
        return bad[:3], len(live), len(live) > 1
    finally:
        shutil.rmtree(d)


# ------------------------------------------------------------------ values that come from other files
def write_wcen(path, phi, start):
    cols = [k.lower().replace('wcen_', '') for k in WCEN] + (list(PHI) if phi else [])
    a = np.zeros(1, dtype=[(k, 'f4') for k in cols])
    out = {}
    for i, (k, n) in enumerate(zip(list(WCEN) + list(PHI), cols)):
        a[n] = start + 0.125 * i
        out[k] = start + 0.125 * i
    fitsio.write(path, a, clobber=True)
    return out


def run_wcen(case):
    phi, when, start, also = case
    d = rm.workdir('c21')
    try:
        w = write_wcen(d + '/w.fit', phi, start)
        also = dict(also)
        if when == 'file':
            c = load(d, dict(also, wcenfile=d + '/w.fit'))
        elif when == 'missing':
            w = {}
            c = load(d, dict(also, wcenfile=d + '/none.fit'))
        else:
            c = load(d, also)
            c.wcenfile = d + '/w.fit'
            c.set_wcen_vals()
        e = expect(dict(also, wcenfile=d + ('/none.fit' if when == 'missing' else '/w.fit')))
        e.update(w)
        return differences(c, e, str(case)), (phi, when), True
    finally:
        shutil.rmtree(d)


def run_catalog(case):
    """What is taken from the galaxy catalog: bands in the order of their columns, reference band, limits, mode."""
    bands, refmag, mode, pixelized, truth, zspec, hasb, extra, drop = case
    d = rm.workdir('c21')
    try:
        n = len(bands)
        gdt = [('ID', 'i8'), ('RA', 'f8'), ('DEC', 'f8'), ('REFMAG', 'f4'), ('REFMAG_ERR', 'f4'), ('MAG', 'f4', n), ('MAG_ERR', 'f4', n)]
        if truth:
            gdt.append(('ZTRUE', 'f4'))
        if zspec:
            gdt.append(('ZSPEC', 'f4'))
        g = np.zeros(2, dtype=gdt)
        shown = [b for b in bands if b != drop]
        gf = d + '/g.fit'
        if pixelized:
            dt = [('MODE', 'S10'), ('AREA', 'f8'), ('LIM_REF', 'f4'), ('NMAG', 'i4'), ('ZEROPOINT', 'f4'), ('NSIDE', 'i4'), ('REF_IND', 'i4'), ('FILENAMES', 'S20', 2), ('HPIX', 'i8', 2), ('NGALS', 'i4', 2)]
            # the columns in another order than the bands
            dt += [(b.upper() + '_IND', 'i4') for b in sorted(shown)]
            if hasb:
                dt.append(('B', 'f8', n))
            if extra:
                dt += [('HAS_TRUTH', 'i4'), ('HAS_ZSPEC', 'i4')]
            m = np.zeros(1, dtype=dt)
            m['MODE'], m['AREA'], m['LIM_REF'], m['NMAG'], m['ZEROPOINT'], m['NSIDE'], m['REF_IND'] = mode, 12.5, 21.25, n, 22.5, 32, (bands.index(refmag) + 1) % n
            m['FILENAMES'] = 'p.fit'
            for b in shown:
                m[b.upper() + '_IND'] = bands.index(b)
            if hasb:
                m['B'] = np.arange(n) * 0.5 + 0.25
            if extra:
                m['HAS_TRUTH'], m['HAS_ZSPEC'] = truth, zspec
            fitsio.write(gf, m, clobber=True, header={'PIXELS': 1, 'FITS': 1})
            fitsio.write(d + '/p.fit', g, clobber=True)
        else:
            h = {'PIXELS': 0, 'FITS': 1, 'MODE': mode, 'AREA': 12.5, 'LIM_REF': 21.25, 'NMAG': n, 'ZP': 22.5, 'REF_IND': (bands.index(refmag) + 1) % n}
            for b in sorted(shown):
                h[b.upper() + '_IND'] = bands.index(b)
            fitsio.write(gf, g, clobber=True, header=h)
        raw = {'galfile': gf, 'refmag': refmag, 'outbase': 'x', 'zrange': [0.1, 0.5], 'outpath': d}
        for k in LENGTHS[0]:
            raw[k] = [0.05] * (n - 1)
        if drop:
            raw['bands'] = ['q%d' % i for i in range(n)]
        bad = []
        c = load(d, {}, raw=raw)
        e = {'bands': raw['bands'] if drop else list(bands), 'nmag': n, 'ref_ind': bands.index(refmag), 'survey_mode': {'SDSS': 0, 'DES': 1, 'LSST': 2}[mode], 'limmag_ref': 21.25, 'limmag_catalog': 21.25,
             'zeropoint': 22.5, 'area': 12.5, 'galfile_area': 12.5, 'galfile_pixelized': bool(pixelized), 'galfile_nside': 32 if pixelized else 0, 'galfile_has_truth': bool(truth), 'galfile_has_zspec': bool(zspec)}
        for k, v in e.items():
            x = plain(getattr(c, k))
            if x != v:
                bad.append('%s is %r, expected %r' % (k, x, v))
        b = plain(c.b)
        if b != ([i * 0.5 + 0.25 for i in range(n)] if pixelized and hasb else None):
            bad.append('softening %r' % (b,))
        # a configuration with this catalog can be written and read again
        c.output_yaml(d + '/w.yml')
        c2 = type(c)(d + '/w.yml')
        for k in list(e) + ['b']:
            if plain(getattr(c2, k)) != plain(getattr(c, k)):
                bad.append('written and read again: %s is %r, expected %r' % (k, plain(getattr(c2, k)), plain(getattr(c, k))))
        for k, has in (('has_truth', truth), ('centering_use_zspec', zspec)):
            try:
                load(d, {}, raw=dict(raw, **{k: True}))
                if not has:
                    bad.append('%s accepted for a catalog without' % k)
            except RuntimeError:
                if has:
                    bad.append('%s refused' % k)
        c = load(d, {}, raw=dict(raw, area=10.0, limmag_catalog=20.5))
        if c.area != 10.0 or c.limmag_catalog != 20.5 or c.galfile_area != 12.5:
            bad.append('area %s limit %s' % (c.area, c.limmag_catalog))
        return bad[:3], (mode, n, bool(pixelized)), True
    finally:
        shutil.rmtree(d)


# ------------------------------------------------------------------ names, border, log
def run_names(case):
    name, paths, filetype, version, outbase, dout, kw = case
    d = rm.workdir('c21')
    try:
        c = load(d, {'outbase': 'base'}, **({'outpath': d + '/elsewhere'} if kw else {}))
        if dout:
            c.d.outbase = dout
        a = {}
        if paths is not None:
            a['paths'] = paths
        if filetype:
            a['filetype'] = filetype
        if version:
            a['withversion'] = True
        if outbase:
            a['outbase'] = outbase
        got = c.redmapper_filename(name, **a)
        exp = os.path.join(*([d + '/elsewhere' if kw else d] + list(paths or []) + ['%s%s_%s.%s' % (outbase or dout or 'base', '_redmapper_v%s' % c.version if version else '', name, filetype or 'fit')]))
        bad = [] if got == exp else ['file name %s, expected %s' % (got, exp)]
        if not os.path.isdir(d + '/elsewhere' if kw else d):
            bad.append('output path was not made')
        return bad, (name, version), True
    finally:
        shutil.rmtree(d)


def run_border(case):
    z, rm0, beta = case
    d = rm.workdir('c21')
    try:
        c = load(d, {'zrange': [z, 0.6], 'percolation_rmask_0': rm0, 'percolation_rmask_beta': beta})
        # angular diameter distance (Mpc/h) of a flat cosmology
        zz = np.linspace(0, z, 20001)
        e = 1 / np.sqrt(c.cosmo.omega_m() * (1 + zz) ** 3 + c.cosmo.omega_l())
        h = c.cosmo.H0()
        da = 299792.458 / h * np.sum((e[1:] + e[:-1]) / 2) * zz[1] / (1 + z)
        exp = 3 * np.degrees(1.05 * rm0 * 3.0 ** beta / da)
        got = c.compute_border()
        return ([] if abs(got - exp) < 1e-3 * exp else ['border %s, expected %s' % (got, exp)]), round(float(exp), 3), True
    finally:
        shutil.rmtree(d)


LOPS = ('start', 'stop', 'msg', 'named', 'base')


def run_log(case):
    """Messages end up once in the file of that time, or nowhere."""
    printlog, region, ops = case
    d = rm.workdir('c21')
    try:
        c = load(d, dict({'printlogging': bool(printlog), 'outbase': 'lg', 'logpath': 'mylogs'}, **({'hpix': [2163], 'nside': 64} if region else {})))
        c.logger.setLevel(logging.INFO)
        c.logger.propagate = False
        cur, exp, base, n = None, {}, 'lg', 0
        for op in ops:
            if op in ('start', 'named'):
                if cur is None and not printlog:
                    cur = 'x.log' if op == 'named' else ('redmapper_%s_2163.log' % base if region else 'redmapper_%s.log' % base)
                    exp.setdefault(cur, [])
                c.start_file_logging(**({'filename': '/some/where/x.log'} if op == 'named' else {}))
            elif op == 'stop':
                c.stop_file_logging()
                cur = None
            elif op == 'base':
                base = base + 'z'
                c.d.outbase = base
            else:
                n += 1
                c.logger.info('message %d', n)
                if cur:
                    exp[cur].append('message %d' % n)
        c.stop_file_logging()
        got = {}
        if os.path.isdir(d + '/mylogs'):
            for f in os.listdir(d + '/mylogs'):
                got[f] = [l for l in open(d + '/mylogs/' + f).read().split('\n') if l.startswith('message')]
        c.logger.setLevel(logging.CRITICAL)
        c.logger.propagate = True
        return ([] if got == exp else ['logs %s, expected %s' % (got, exp)]), len(exp), bool(exp)
    finally:
        for name in ('redmapper', 'redmapper-2163'):
            for h in list(logging.getLogger(name).handlers):
                logging.getLogger(name).removeHandler(h)
        shutil.rmtree(d)


def combos():
    """Settings of one variable (or of those that have to go together)."""
    out = []
    for k in fields():
        if k in SPECIAL or k in LENGTHS[0]:
            continue
        for v in alternatives(k):
            out.append([[k, v]])
    for k in LENGTHS[0]:
        out.append([[k, [0.5, 0.25, 0.125, 0.75]]])
    out += [[['bkg_local_annuli', [1.5, 5.0]]], [['area', 17.0]], [['maskfile', None], ['mask_mode', 0]], [['maskfile', 'm.fit'], ['mask_mode', 1]], [['mask_mode', 2]],
            [['vlim_depthfiles', ['a.fit']], ['vlim_bands', ['g']], ['vlim_nsigs', [5.0]]], [['vlim_depthfiles', ['a.fit', 'b.fit']], ['vlim_bands', ['z', 'u']], ['vlim_nsigs', [5.0, 3.0]]],
            [['redmagic_names', ['hi', 'lo']], ['redmagic_n0s', [1.0, 2.0]], ['redmagic_etas', [0.5, 1.5]], ['redmagic_zmaxes', [0.4, 0.5]]],
            [['calib_colormem_zbounds', [0.2, 0.35]], ['calib_colormem_colormodes', [1, 2, 3]], ['calib_colormem_sigint', [0.1, 0.2, 0.3]]], [['calib_colormem_zbounds', []], ['calib_colormem_colormodes', [2]], ['calib_colormem_sigint', [0.5]]],
            [['redmagic_zrange', []]], [['redmagic_zrange', [-1.0, 0.5]]], [['redmagic_zrange', [0.2, -0.5]]], [['zrange', [0.2, 0.3]], ['redmagic_zrange', []]], [['refmag', 'i']]]
    return out


def body(check):
    setup()
    th = check.thorough
    one = combos()
    check.run_cases(one, run_set, 'one variable', chunk=4)
    pairs = []
    for i, a in enumerate(one):
        for j in range(i + 1, len(one)):
            if {k for k, _ in a} & {k for k, _ in one[j]}:
                continue
            if th or j - i in (1, 2, 7) or 'zrange' in (a[0][0], one[j][0][0]):
                pairs.append(a + one[j])
    check.run_cases(pairs, run_set, 'two variables', chunk=8)
    bad = [[['no_such_variable', 1]], [['Zrange', [0.1, 0.2]]], [['percolation_r', 1.0]], [['hpx', [1]]]]
    bad += [[[k, 'DROP']] for k in ('galfile', 'refmag', 'outbase', 'zrange')]
    for k in FIXED_LENGTH:
        bad += [[[k, [0.1, 0.2, 0.3]]], [[k, [0.1]]]]
    for k in LENGTHS[0]:
        bad += [[[k, [0.1] * n]] for n in (1, 2, 3, 5)]
    for grp in (LENGTHS[2], LENGTHS[3]):
        val = {'vlim_bands': ['g', 'r', 'i'], 'vlim_depthfiles': ['a', 'b', 'c'], 'redmagic_names': ['a', 'b', 'c']}
        for lens in itertools.product(range(3), repeat=len(grp)):
            if len(set(lens)) > 1:
                bad.append([[k, val.get(k, [0.1, 0.2, 0.3])[:n]] for k, n in zip(grp, lens)])
    for nz, a, b in itertools.product(range(3), range(1, 4), range(1, 4)):
        if (a, b) != (nz + 1, nz + 1):
            bad.append([['calib_colormem_zbounds', [0.2, 0.3][:nz]], ['calib_colormem_colormodes', [1, 2, 3][:a]], ['calib_colormem_sigint', [0.1, 0.2, 0.3][:b]]])
    bad += [[['mask_mode', 0]], [['maskfile', 'x.fit'], ['mask_mode', 0]], [['bkg_local_annuli', [3.0, 3.0]]], [['bkg_local_annuli', [3.0, 2.0]]],
            [['vlim_depthfiles', ['a']], ['vlim_bands', ['y']], ['vlim_nsigs', [5.0]]], [['vlim_depthfiles', ['a', 'b']], ['vlim_bands', ['g', 'y']], ['vlim_nsigs', [5.0, 4.0]]],
            [['has_truth', True]], [['centering_use_zspec', True]], [['refmag', 'y']], [['depthfile', 'DROP'], ['hpix', [2163]], ['nside', 64]]]
    check.run_cases(bad, run_refused, 'refused', chunk=8)
    good = [[['limmag_catalog', 'DROP']], [['depthfile', 'DROP']], [['depthfile', 'DROP'], ['hpix', [2163]], ['nside', 64], ['area', 3.0]], [['specfile', 'DROP'], ['specfile_train', 'a.fit']], [['hpix', [2163, 2164]], ['nside', 64]]]
    check.run_cases(good, run_accepted, 'accepted', chunk=1)
    hist = [list(h) for n in (1, 2, 3) for h in itertools.product(HOPS, repeat=n) if h[0][0] in 'AB']
    h4 = [list(h) for h in itertools.product(HOPS, repeat=4) if h[0][0] in 'AB' and any(o[0] in ('B', 'copy', 'yaml') for o in h[1:3])]
    if th:
        h4 += [list(h) for h in itertools.product(HOPS[:9], repeat=5) if h[0][0] == 'A' and h[1][0] in ('B', 'copy')]
    else:
        h4 = [h for h in h4 if h[0][0] == 'A' and h[1][0] in ('B', 'copy')]
    check.run_cases(hist + h4, run_history, 'histories', chunk=32)
    check.run_cases([[p, w, s, list(a)] for p in (True, False) for w in ('file', 'later', 'missing') for s in (1.0, -2.0) for a in ([], [['wcen_Delta0', 9.0]], [['phi1_msig_slope', 9.0], ['wcen_pivot', 7.0]])], run_wcen, 'centering parameters', chunk=4)
    cats = []
    for bands in [list(p) for n in (2, 3, 4) for p in itertools.permutations('grizy'[:n + 1] if th else 'griz'[:n], n)] + [list('ugriz'), list('zirgu'), list('griZ'.lower())]:
        for r in bands:
            if r in 'rizg':
                for pix in (0, 1):
                    k = len(cats)
                    cats.append([bands, r, ('SDSS', 'DES', 'LSST')[k % 3], pix, k % 2, (k // 2) % 2, (k // 3) % 2, (k // 5) % 2, ''])
    for mode, pix, t, z, hb, ex, dr in itertools.product(('SDSS', 'DES', 'LSST'), (0, 1), (0, 1), (0, 1), (0, 1), (0, 1), ('', 'g')):
        cats.append([list('rgiz'), 'i', mode, pix, t, z, hb, ex, dr])
    check.run_cases(cats, run_catalog, 'from the catalog', chunk=4)
    check.run_cases([list(x) for x in itertools.product(('cat', 'final_members', 'iter1.x'), (None, [], ['a'], ['a', 'b'], ('q',)), ('', 'png', 'fit.gz'), (0, 1), ('', 'ob'), ('', 'dd'), (0, 1))], run_names, 'file names', chunk=16)
    check.run_cases([list(x) for x in itertools.product((0.02, 0.05, 0.1, 0.25, 0.5), (0.5, 1.0, 1.5, 2.0), (0.0, 0.2, 0.5))], run_border, 'border', chunk=8)
    check.run_cases([[p, r, list(o)] for p in (0, 1) for r in (0, 1) for n in range(1, 6 if th else 5) for o in itertools.product(LOPS, repeat=n) if 'start' in o or 'named' in o], run_log, 'log file', chunk=32)


if __name__ == '__main__':
    core.main('C21', 'exploration',
              'Each variable alone and pairs of variables set to another value, then another file loaded, then written and read again; all mismatched lengths of coupled variables; all histories '
              '(depth 3, part of depth 4) of loading two files, copying, changing a variable or the sub-region, reading centering parameters and writing; catalogs with every order of the bands; '
              'all sequences of log operations. Oracle: a dictionary of values. Non-trivial: more than one configuration (histories), a log file (log).', body)
