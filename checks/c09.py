"""C09: percolation: galaxies are shared out between clusters strictly by rank."""
import itertools
import math
import os
import shutil

import numpy as np

from mc import build, core, pipe, ref, rm

TOLP = 0.004          # allowed difference of a recomputed probability


def run_perc(cands, over=None, kw=None, hpix=None):
    """Output catalog and members (structured arrays, or None), and the configuration values used."""
    import fitsio
    from redmapper import RunPercolation
    d = rm.workdir('c09')
    try:
        over = {k: (rm.DROP if v == 'DROP' else v) for k, v in (over or {}).items()}
        conf = pipe.config(d, **over)
        conf.catfile = pipe.write_candidates(os.path.join(d, 'in.fit'), conf, cands)
        del OUTSIDE[:]
        with ref.fixed_random():
            r = RunPercolation(conf)
            r.run(**(kw or {}))
        r.output(savemembers=True, withversion=False, clobber=True)
        cf = r.filename
        mf = cf.replace('_catalog.fit', '_catalog_members.fit')
        cat = fitsio.read(cf, ext=1, lower=True) if os.path.isfile(cf) else None
        mem = fitsio.read(mf, ext=1, lower=True) if os.path.isfile(mf) else None
        left = sorted(set(os.listdir(d)) - {'c.yml', 'in.fit', os.path.basename(cf), os.path.basename(mf)})
        left += ['probability left outside [0, 1]: %s' % (x,) for x in OUTSIDE[:1]]
        return conf, cat, mem, left
    finally:
        shutil.rmtree(d, ignore_errors=True)


def observe():
    """Note every richness computation made with free probabilities outside [0, 1]."""
    from redmapper.cluster import Cluster
    orig = Cluster.calc_richness

    def calc(self, *a, **k):
        try:
            pf = np.asarray(self.neighbors.pfree)
            if pf.size and (pf.min() < -1e-6 or pf.max() > 1 + 1e-6):
                OUTSIDE.append((float(pf.min()), float(pf.max())))
        except AttributeError:
            pass
        return orig(self, *a, **k)
    Cluster.calc_richness = calc


OUTSIDE = []
_MEMO = {}


def memo_run(cands, over=None, kw=None):
    key = repr((cands, over, kw))
    if key not in _MEMO:
        if len(_MEMO) > 3000:
            _MEMO.clear()
        _MEMO[key] = run_perc(cands, over, kw)
    return _MEMO[key]


def eligible(conf, cands, kw):
    w = pipe.world()
    zr = [conf.zrange[0], conf.zrange[1]]
    if kw.get('keepz'):
        zr = [max(zr[0] - conf.calib_zrange_cushion, 0.05), zr[1] + conf.calib_zrange_cushion]
    limlum = max(conf.lval_reference - 0.1, 0.01)
    out = []
    for i, c in enumerate(cands):
        k = pipe.nearest(c['ra'], c['dec'])
        refmag = c.get('refmag', float(w.gals.refmag[k]))
        if not (zr[0] < c['z'] < zr[1]) or not np.isfinite(c['lnlike']) or not c['Lambda'] > conf.percolation_minlambda:
            continue
        if not refmag < float(w.par.mstar(c['z'])) - 2.5 * math.log10(limlum):
            continue
        out.append(i)
    if kw.get('keepid'):
        out.sort(key=lambda i: cands[i]['mem_match_id'])
        ids = [cands[i]['mem_match_id'] for i in out]
        if len(set(ids)) == 1 and (len(ids) > 1 or ids[0] <= 0):
            ids = list(range(1, len(out) + 1))
    else:
        out.sort(key=lambda i: -cands[i]['lnlike'])
        ids = list(range(1, len(out) + 1))
    return out, ids


def near(a, b, tol):
    return abs(float(a) - float(b)) <= tol


def judge(cands, over, kw, res):
    """All problems of one percolation run; the number of survivors and whether clusters shared galaxies."""
    conf, cat, mem, left = res
    w = pipe.world()
    g = w.gals
    bad = []
    order, ids = eligible(conf, cands, kw)
    if left:
        bad.append('left behind: %s' % left)
    if not order:
        if cat is not None and cat.size:
            bad.append('no eligible candidate, but %d clusters in the output' % cat.size)
        return bad, 0, False
    if cat is None:
        return ['no catalog written for %d eligible candidates' % len(order)], 0, False
    if cat.size == 0:
        if mem is not None and mem.size:
            bad.append('members without clusters')
    tags = [int(round(t)) for t in cat['z_spec_init']]
    pos = {i: n for n, i in enumerate(order)}
    if any(t not in pos for t in tags):
        return bad + ['ineligible candidate %s in the output' % [t for t in tags if t not in pos]], cat.size, False
    if [pos[t] for t in tags] != sorted(pos[t] for t in tags) or len(set(tags)) != len(tags):
        bad.append('output order %s is not the ranking %s' % (tags, order))
    for t, m in zip(tags, cat['mem_match_id']):
        if int(m) != ids[pos[t]]:
            bad.append('candidate %d has id %d, expected %d' % (t, m, ids[pos[t]]))
    if mem is not None and not set(mem['mem_match_id'].tolist()) <= set(cat['mem_match_id'].tolist()):
        bad.append('members of clusters that are not in the output')
    if bad:
        return bad, cat.size, False

    limlum = max(conf.lval_reference - 0.1, 0.01)
    if conf.lval_reference > 0.1:
        limlum = max(limlum, 0.1)
    if conf.percolation_memlum is not None and 0 < conf.percolation_memlum < conf.lval_reference:
        limlum = min(limlum, conf.percolation_memlum)
    if conf.percolation_lmask > 0:
        limlum = min(limlum, conf.percolation_lmask)
    lmask = conf.percolation_lmask if conf.percolation_lmask >= 0 else conf.lval_reference
    memrad = conf.percolation_memradius is not None and conf.percolation_memradius > 1.0
    memlum = False                                   # radius and probability decide unless use_memlum is on
    r0, beta = conf.percolation_r0, conf.percolation_beta
    rm0, rmb, rmg, rmz = conf.percolation_rmask_0, conf.percolation_rmask_beta, conf.percolation_rmask_gamma, conf.percolation_rmask_zpivot
    if beta == 0.0:
        maxrad = max(1.2 * r0, 1.2 * rm0)
    else:
        maxrad = max(r0 * 3.0 ** beta, rm0 * 3.0 ** rmb)
    pgal = np.zeros(g.size)
    row = {t: k for k, t in enumerate(tags)}
    shared = False
    for i in order:
        c = cands[i]
        zin = float(np.float32(c['z']))
        mpc = math.radians(1.0) * float(conf.cosmo.Da(0, zin))
        d0 = ref.sphdist(c['ra'], c['dec'], g.ra, g.dec)
        nb = (d0 * mpc < maxrad) & (g.refmag <= float(w.par.mstar(zin)) - 2.5 * math.log10(limlum))
        pfree = np.clip(1.0 - pgal, 0.0, None)
        idx = np.where(nb)[0]
        if idx.size == 0:
            if i in row:
                bad.append('candidate %d has no neighbors but is in the output' % i)
            continue
        seed = idx[np.argmin(d0[idx])]
        if i in row and pfree[seed] < conf.percolation_pbcg_cut - TOLP:
            bad.append('candidate %d survives although its galaxy has only %.3f left' % (i, pfree[seed]))
        if i not in row:
            continue
        k = row[i]
        o = cat[k]
        m = mem[mem['mem_match_id'] == o['mem_match_id']] if mem is not None else []
        pre = 'cluster %d (candidate %d): ' % (o['mem_match_id'], i)
        if len(m) == 0:
            bad.append(pre + 'no members')
            continue
        lam, rl = float(o['lambda']), float(o['r_lambda'])
        z = float(m['z'][0])
        if np.any(m['z'] != m['z'][0]):
            bad.append(pre + 'members with different redshifts')
        if kw.get('keepz') and not near(z, zin, 1e-6):
            bad.append(pre + 'redshift %s, expected the input %s' % (z, zin))
        if not kw.get('keepz') and over.get('zlambdafile') == 'DROP' and not near(z, o['z_lambda'], 1e-5):
            bad.append(pre + 'used redshift %s is not its z_lambda %s' % (z, o['z_lambda']))
        for col, want in (('ra_orig', c['ra']), ('dec_orig', c['dec']), ('z', zin), ('lnlike', c['lnlike'])):
            if not near(o[col], want, 1e-5):
                bad.append(pre + '%s is %s, expected %s' % (col, o[col], want))
        if lam / o['scaleval'] < conf.percolation_minlambda - 1e-4:
            bad.append(pre + 'richness %.3f (scale %.3f) below the minimum' % (lam, o['scaleval']))
        if not near(rl, r0 * (lam / 100.0) ** beta, 1e-4):
            bad.append(pre + 'radius %s for richness %s' % (rl, lam))
        rmask = max(rm0 * (lam / 100.0) ** rmb * ((1 + z) / (1 + rmz)) ** rmg, rl)
        if not near(o['r_mask'], rmask, 1e-4):
            bad.append(pre + 'masking radius %s, expected %s' % (o['r_mask'], rmask))
        if not 0 <= o['maskfrac'] <= 1:
            bad.append(pre + 'masked fraction %s' % o['maskfrac'])
        # the center
        rnd = conf.centerclass == 'CenteringRandom'
        if not rnd:
            j = pipe.nearest(o['ra'], o['dec'])
            if ref.sphdist(o['ra'], o['dec'], g.ra[j], g.dec[j]) > 1e-6:
                bad.append(pre + 'center is not a galaxy')
                continue
            if pfree[j] < conf.percolation_pbcg_cut - TOLP:
                bad.append(pre + 'centered on a galaxy of which only %.3f is left' % pfree[j])
            for col in ('refmag', 'refmag_err', 'zred', 'zred_e'):
                if not near(o[col], getattr(g, col)[j], 1e-5):
                    bad.append(pre + 'central %s %s is not that of the galaxy, %s' % (col, o[col], getattr(g, col)[j]))
            if not np.allclose(o['mag'], g.mag[j], atol=1e-5) or not np.allclose(o['mag_err'], g.mag_err[j], atol=1e-5):
                bad.append(pre + 'central magnitudes are not those of the galaxy')
            if not near(o['zred_chisq'], g.chisq[j], 1e-3 * max(1, abs(g.chisq[j]))):
                bad.append(pre + 'central zred chisq %s, expected %s' % (o['zred_chisq'], g.chisq[j]))
            if o['id_cent'][0] != g.id[j]:
                bad.append(pre + 'first center id %s, expected %s' % (o['id_cent'][0], g.id[j]))
            nc = int(o['ncent_good'])
            if np.any(o['id_cent'][nc:] != 0):
                bad.append(pre + '%d good centers but ids %s' % (nc, o['id_cent']))
            if np.any(o['ra_cent'][nc:] != -400.0) or np.any(o['dec_cent'][nc:] != -400.0) or np.any(o['p_cen'][nc:] != 0):
                bad.append(pre + '%d good centers but positions %s' % (nc, o['ra_cent']))
            cids = set(int(x) for x in o['id_cent'][:nc])
            if len(cids) != nc:
                bad.append(pre + 'repeated center ids %s' % o['id_cent'])
            for n in range(nc):
                q = w.byid.get(int(o['id_cent'][n]))
                if q is None or ref.sphdist(o['ra_cent'][n], o['dec_cent'][n], g.ra[q], g.dec[q]) > 1e-6:
                    bad.append(pre + 'center %d is not at its galaxy' % n)
            if not near(o['lambda_cent'][0], lam, 0.02) or not near(o['zlambda_cent'][0], z, 1e-4 if kw.get('keepz') is None else 0.1):
                bad.append(pre + 'richness/redshift of the first center %s %s' % (o['lambda_cent'][0], o['zlambda_cent'][0]))
            psum = float(np.sum(o['p_cen'][:nc]))
            if not near(psum, 1.0, 1e-3):
                bad.append(pre + 'center probabilities sum to %s' % psum)
            want = float(np.sum(o['p_cen'] * o['lambda_cent']))
            if nc > 1 and not near(o['lambda_c'], want, 0.02):
                bad.append(pre + 'mean richness over the centers %s, expected %s' % (o['lambda_c'], want))
            if nc == 1 and not near(o['lambda_c'], lam, 0.02):
                bad.append(pre + 'mean richness over one center %s, expected %s' % (o['lambda_c'], lam))
        else:
            cids = set()
        # membership
        f = ref.Filter(w.par, w.bkg, conf, z, float(o['ra']), float(o['dec']), g)
        p, th, _ = f.members(lam, rl)
        pm = p * f.theta_i * th * pfree
        tot = float(pm[nb].sum())
        if tot <= 0 or not near(tot * o['scaleval'], lam, 0.02 + 0.006 * lam):
            bad.append(pre + 'probabilities sum to %.3f x %.3f, richness %.3f' % (tot, o['scaleval'], lam))
        if memrad or memlum:
            val = p
            geom = f.r < (conf.percolation_memradius * rl)
            edge = np.abs(f.r - conf.percolation_memradius * rl) < 1e-4
        else:
            val = pm
            geom = np.ones(g.size, bool)
            edge = np.zeros(g.size, bool)
        sure = nb & (val > 0.01 + TOLP) & (pfree > 0.01 + TOLP) & geom & ~edge
        never = ~nb | (val < 0.01 - TOLP) | (pfree < 0.01 - TOLP) | (~geom & ~edge)
        got = [w.byid.get(int(x)) for x in m['id']]
        if None in got or len(set(got)) != len(got):
            bad.append(pre + 'unknown or repeated members')
            continue
        miss = [int(g.id[q]) for q in np.where(sure)[0] if q not in set(got)]
        if miss:
            bad.append(pre + 'members missing: %s' % miss[:5])
        for q, mm in zip(got, m):
            cen = int(mm['id']) in cids
            if never[q] and not cen:
                bad.append(pre + 'galaxy %d (probability %.4f, %.3f left) recorded as member' % (mm['id'], val[q], pfree[q]))
                continue
            for col, want, tol in (('ra', g.ra[q], 1e-8), ('dec', g.dec[q], 1e-8), ('refmag', g.refmag[q], 1e-5),
                                   ('refmag_err', g.refmag_err[q], 1e-5), ('ebv', g.ebv[q], 1e-6), ('zred', g.zred[q], 1e-5),
                                   ('zred_e', g.zred_e[q], 1e-5), ('r', f.r[q], 1e-4), ('p', p[q], TOLP),
                                   ('theta_i', f.theta_i[q], TOLP), ('theta_r', th[q], TOLP if conf.rsig > 0 else 1.0),
                                   ('chisq', f.chi[q], 1e-3 * max(1, f.chi[q]))):
                if not near(mm[col], want, tol):
                    bad.append(pre + 'member %d: %s is %s, expected %s' % (mm['id'], col, mm[col], want))
            if not np.allclose(mm['mag'], g.mag[q], atol=1e-5) or not np.allclose(mm['mag_err'], g.mag_err[q], atol=1e-5):
                bad.append(pre + 'member %d: magnitudes are not those of the galaxy' % mm['id'])
            if not near(mm['pfree'], pfree[q], TOLP) and not (cen and mm['pfree'] == 0 and not sure[q]):
                bad.append(pre + 'member %d: %.4f free, expected %.4f' % (mm['id'], mm['pfree'], pfree[q]))
        lim = f.mstar - 2.5 * math.log10(lmask)
        claim = nb & (g.refmag < lim) & (f.r < rmask) & (p > 0)
        if np.any(pgal[claim & (pgal > 0)]):
            shared = True
        pgal[claim] += p[claim]
        if len(bad) > 6:
            break
    return bad, cat.size, shared


def rows(res):
    """Catalog rows and members by candidate, for comparing runs."""
    conf, cat, mem, left = res
    out = {}
    for o in (cat if cat is not None else []):
        m = mem[mem['mem_match_id'] == o['mem_match_id']]
        out[int(round(o['z_spec_init']))] = (o, m)
    return out


def differ(a, b, skip=('mem_match_id', 'lnlike', 'maskgal_index')):
    for n in a[0].dtype.names:
        if n not in skip and not np.array_equal(np.nan_to_num(a[0][n]), np.nan_to_num(b[0][n])):
            return '%s: %s / %s' % (n, a[0][n], b[0][n])
    if a[1].size != b[1].size:
        return '%d / %d members' % (a[1].size, b[1].size)
    for n in a[1].dtype.names:
        if n != 'mem_match_id' and not np.array_equal(np.nan_to_num(a[1][n]), np.nan_to_num(b[1][n])):
            return 'member column %s' % n
    return None


def mk(idx):
    """Entries: index into the pool, or [index, redshift offset]."""
    out = []
    for k, i in enumerate(idx):
        i, dz = (i, 0.0) if isinstance(i, int) else i
        p = pipe.POOL[i]
        out.append(dict(ra=p[0], dec=p[1], z=p[2] + dz, Lambda=p[3], lnlike=50.0 - k, tag=k))
    return out


def reach(i):
    """Generous influence radius (degrees) of candidate i: centers may move by r_lambda, masks and apertures to 2 Mpc."""
    w = pipe.world()
    mpc = math.radians(1.0) * float(w.conf.cosmo.Da(0, pipe.POOL[i][2]))
    return 2.6 / mpc


def run_list(case):
    """An ordered candidate list: the sharing rule, and independence of lower-ranked and far-away candidates."""
    idx, over, kw = case
    over, kw = dict(over), dict(kw)
    c = mk(idx)
    res = memo_run(c, over, kw)
    bad, n, shared = judge(c, over, kw, res)
    if not bad and len(idx) > 1:
        mine = rows(res)
        pre = rows(memo_run(c[:-1], over, kw))
        for k in range(len(idx) - 1):
            if (k in mine) != (k in pre):
                bad.append('candidate %d %s when a lower-ranked one is added' % (k, 'vanishes' if k in pre else 'appears'))
            elif k in mine:
                d = differ(mine[k], pre[k])
                if d:
                    bad.append('candidate %d changes when a lower-ranked one is added (%s)' % (k, d))
        last = idx[-1]
        if all(isinstance(i, int) for i in idx) and all(ref.sphdist(pipe.POOL[i][0], pipe.POOL[i][1], pipe.POOL[last][0], pipe.POOL[last][1]) > reach(i) + reach(last) for i in idx[:-1]):
            solo = rows(memo_run(mk([last]), over, kw))
            k = len(idx) - 1
            if (k in mine) != (0 in solo):
                bad.append('an isolated candidate %s next to others' % ('vanishes' if 0 in solo else 'appears'))
            elif k in mine:
                d = differ(mine[k], solo[0], skip=('mem_match_id', 'lnlike', 'maskgal_index', 'z_spec_init'))
                if d:
                    bad.append('an isolated candidate changes next to others (%s)' % d)
    return bad, (n, shared, len(idx)), shared


def run_rows(case):
    """The order of the input rows is irrelevant."""
    idx, perm, over, kw = case
    over, kw = dict(over), dict(kw)
    c = mk(idx)
    a = memo_run(c, over, kw)
    pc = [c[k] for k in perm]
    b = run_perc(pc, over, kw)
    bad = []
    ra, rb = rows(a), rows(b)
    if sorted(ra) != sorted(rb):
        bad.append('surviving candidates %s, in another row order %s' % (sorted(ra), sorted(rb)))
    else:
        for t in ra:
            d = differ(ra[t], rb[t], skip=())
            if d:
                bad.append('candidate %d depends on the row order (%s)' % (t, d))
    return bad, (len(ra), tuple(perm)), True


def run_elig(case):
    """A candidate outside the allowed range never enters and never influences the others."""
    idx, k, what, kw = case
    kw = dict(kw)
    c = mk(idx)
    x = c[k]
    w = pipe.world()
    mst = float(w.par.mstar(x['z']))
    if what == 'zlow':
        x['z'] = w.conf.zrange[0] - 0.01
    elif what == 'zhigh':
        x['z'] = w.conf.zrange[1] + 0.01
    elif what == 'zin':
        x['z'] = w.conf.zrange[0] + 0.01
    elif what == 'zcushion':
        x['z'] = w.conf.zrange[1] + 0.2
    elif what == 'nan':
        x['lnlike'] = float('nan')
    elif what == 'inf':
        x['lnlike'] = float('-inf')
    elif what == 'lam':
        x['Lambda'] = w.conf.percolation_minlambda - 0.1
    elif what == 'faint':
        x['refmag'] = mst - 2.5 * math.log10(max(w.conf.lval_reference - 0.1, 0.01)) + 0.05
    elif what == 'bright':
        x['refmag'] = mst - 2.5 * math.log10(max(w.conf.lval_reference - 0.1, 0.01)) - 0.05
    res = run_perc(c, {}, kw)
    bad, n, shared = judge(c, {}, kw, res)
    order, ids = eligible(res[0], c, kw)
    if not bad and k not in order and order:
        a = rows(res)
        b = rows(memo_run([c[i] for i in order], {}, kw))
        if sorted(a) != sorted(b):
            bad.append('an ineligible candidate changes which others survive: %s, %s' % (sorted(a), sorted(b)))
        else:
            for t in a:
                d = differ(a[t], b[t], skip=('lnlike',))
                if d:
                    bad.append('an ineligible candidate changes candidate %d (%s)' % (t, d))
    return bad, (what, k, n, k in order), True


def run_ids(case):
    """keepid: the caller's ids decide rank and labels; repeated ids are refused."""
    idx, ids = case
    c = mk(idx)
    for x, i in zip(c, ids):
        x['mem_match_id'] = i
    kw = {'keepid': True}
    dup = len(set(ids)) != len(ids)
    unset = len(set(ids)) == 1
    try:
        res = run_perc(c, {}, kw)
    except RuntimeError as e:
        if dup and not unset:
            return [], ('refused', tuple(ids)), True
        raise e
    if dup and not unset:
        return ['repeated ids %s accepted' % (ids,)], ('dup', tuple(ids)), True
    if unset and len(ids) > 1:
        # order among equal ids is not specified: only uniqueness of the labels
        got = res[1]['mem_match_id'].tolist() if res[1] is not None else []
        return ([] if len(set(got)) == len(got) else ['labels %s' % got]), ('unset', tuple(ids)), True
    bad, n, shared = judge(c, {}, kw, res)
    return bad, (n, tuple(ids)), True


NOCORR = {'zlambdafile': 'DROP'}
OPTS = [
    ({}, {}),
    (NOCORR, {}),
    ({}, {'keepz': True}),
    ({'percolation_lmask': 0.4}, {}),
    ({'percolation_lmask': 0.15}, {}),
    ({'percolation_rmask_0': 0.5, 'percolation_rmask_beta': 0.0}, {}),
    ({'percolation_rmask_0': 2.2, 'percolation_rmask_gamma': 1.0}, {}),
    ({'percolation_pbcg_cut': 0.05}, {}),
    ({'percolation_pbcg_cut': 0.95}, {}),
    ({'percolation_minlambda': 8.0}, {}),
    ({'percolation_memradius': 1.5}, {}),
    ({'percolation_memradius': 1.5, 'percolation_memlum': 0.15}, {}),
    ({'percolation_beta': 0.0, 'percolation_rmask_beta': 0.0}, {}),
    ({'use_tempfiles_to_conserve_memory': True}, {}),
    ({'centerclass': 'CenteringWcenZred'}, {}),
    ({'centerclass': 'CenteringWcenZred', 'percolation_maxcen': 2}, {'keepz': True}),
    ({'percolation_niter': 3}, {}),
    ({'rsig': 0.0}, {}),
    ({'bkg_local_compute': True}, {}),
    ({'mask_mode': 0, 'maskfile': 'DROP'}, {}),
]


def body(check):
    pipe.setup()
    observe()
    th = check.thorough
    pool = list(range(10)) if th else [0, 1, 3, 4, 7, 10, 13]
    lists = [list(p) for n in (1, 2, 3) for p in itertools.permutations(pool, n)]
    lists.sort()                       # prefixes next to each other
    check.run_cases([(l, {}, {}) for l in lists], run_list, 'lists')
    base = [[0, 1, 2], [2, 0, 1], [3, 4, 5, 6], [6, 5, 4, 3], [7, 8], [8, 7], [9, 10, 11, 12], [12, 11, 10, 9], [4, 3, 13], [14, 16, 15], [17, 18, 19]]
    if th:
        base += [list(p) for p in itertools.permutations((9, 10, 11, 12))] + [list(p) for p in itertools.permutations((3, 4, 5, 6))]
    full = [list(range(20)), list(range(19, -1, -1)), [(7 * k) % 20 for k in range(20)], [(3 * k + 5) % 20 for k in range(20)]]
    cases = [(l, o, k) for o, k in OPTS for l in base + full]
    check.run_cases(cases, run_list, 'options')
    # several clusters claiming the same galaxies
    dz = (-0.045, -0.03, -0.015, 0.0, 0.015, 0.03, 0.045)
    cases = []
    for i in ((3, 7, 11) if not th else (0, 3, 7, 8, 10, 11)):
        for n in (2, 3) if not th else (2, 3, 4):
            for z in itertools.permutations(dz[1:-1] if n == 3 and not th else dz[::2] if n == 4 else dz, n):
                cases.append(([[i, x] for x in z], {'percolation_minlambda': 1.0, 'percolation_pbcg_cut': 0.0}, {'keepz': True}))
        cases.append(([[i, x] for x in (0.045, -0.045, 0.03, -0.03, 0.015, -0.015, 0.0)], {'percolation_minlambda': 1.0, 'percolation_pbcg_cut': 0.0}, {'keepz': True}))
    check.run_cases(cases, run_list, 'stacks')
    sub = [3, 4, 0, 10]
    cases = [(sub, list(p), {}, k) for p in itertools.permutations(range(4)) for k in ({}, {'keepz': True})]
    check.run_cases(cases, run_rows, 'rows')
    whats = ['zlow', 'zhigh', 'zin', 'zcushion', 'nan', 'inf', 'lam', 'faint', 'bright']
    cases = [(l, k, wh, kw) for l in ([0, 1, 3], [4, 3, 0], [7]) for k in range(len(l)) for wh in whats for kw in ({}, {'keepz': True})]
    check.run_cases(cases, run_elig, 'eligibility')
    cases = [([0, 1, 3][:n], list(i)) for n in (1, 2, 3) for i in itertools.product((0, 5, 9, 12), repeat=n)]
    check.run_cases(cases, run_ids, 'ids')


if __name__ == '__main__':
    core.main('C09', 'model_checking',
              'All ordered lists of up to 3 candidates from a pool, stacks of overlapping candidates, option settings x '
              'lists, eligibility boundaries, row permutations, ids; each run judged cluster by cluster against the '
              'sequential sharing rule. Non-trivial: clusters share galaxies.', body)
