"""C02: serial ingestion of galaxies into a pixelized catalog.

Part 1: all operation sequences up to a depth over a small alphabet (appends of
valid, colliding, empty and invalid batches, finalize, split, a second maker on
the same name), each replayed on the real maker and compared step by step with a
reference model.  Part 2: every column x every illegal (and boundary legal) value
x every row position, checking rejection without side effects."""
import itertools
import os
import shutil

import numpy as np

from mc import build, core
from mc import gals as G

NSIDE = 4
A, B, C = 17, 70, 71
PIX = (A, B, C)

# name -> (ids, pixel per galaxy, defect)
BATCH = {
    'a1': ([11], [A], None),
    'a2b1': ([21, 22, 23], [A, B, A], None),
    'c1': ([31], [C], None),
    'b1dup': ([11], [B], None),             # the id of a1 once more
    'selfdup': ([41, 41], [A, C], 'selfdup'),
    'empty': ([], [], None),
    'nan': ([51, 52], [A, B], 'nan'),
    'off': ([61, 62, 63], [C, B, A], None),   # in masked makers: the first lies outside the mask
}


def batch(name):
    ids, pix, defect = BATCH[name]
    ra, dec = [], []
    for i, p in zip(ids, pix):
        r, d = G.pix_positions(NSIDE, p, 1, salt=i)
        ra.append(r[0])
        dec.append(d[0])
    g = G.make_gals(np.array(ids, dtype='i8'), ra, dec)
    if defect == 'nan':
        g['refmag'][1] = np.nan
    return g


def mask_file():
    """Mask: pixels A and B good, C bad."""
    import healsparse
    import hpgeom as hpg
    p = os.path.join(build.scratch(), 'c02mask.hs')
    if not os.path.isfile(p):
        m = healsparse.HealSparseMap.make_empty(NSIDE, 64, np.float32)
        npx = (64 // NSIDE) ** 2
        for q in (A, B):
            n = hpg.ring_to_nest(NSIDE, q)
            m.update_values_pix(np.arange(n * npx, (n + 1) * npx), np.ones(npx, dtype=np.float32))
        m.write(p, clobber=True)
    return p


class Model:
    def __init__(self, genid, masked):
        self.genid, self.masked = genid, masked
        self.px = {}            # pixel -> list of row tuples in order
        self.finalized = False  # a summary exists
        self.mine = {}          # rows counted by the current maker

    def append(self, g, pix):
        keep = [k for k in range(g.size) if not (self.masked and pix[k] == C)]
        for k in keep:
            self.px.setdefault(pix[k], []).append(g[k])

    def total(self):
        return sum(len(v) for v in self.px.values())

    def ids(self):
        return [int(r['id']) for v in self.px.values() for r in v]


OPS = ['a1', 'a2b1', 'c1', 'b1dup', 'selfdup', 'empty', 'nan', 'off', 'finalize', 'reopen', 'split:a1', 'split:nan']


def run_seq(case):
    from redmapper import GalaxyCatalogMaker
    genid, masked, par, seq = case
    root = os.path.join(build.scratch(), 'c02', str(os.getpid()))
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    outbase = os.path.join(root, 'cat')
    bad = []
    kw = dict(nside=NSIDE, generate_unique_ids=genid, parallel=par)
    if masked:
        kw.update(maskfile=mask_file(), mask_mode=3)
    np.random.seed(1)

    def new():
        return GalaxyCatalogMaker(outbase, G.INFO, **kw)

    mk = new()
    m = Model(genid, masked)
    fresh = True     # the current maker wrote everything that exists
    trace = []
    try:
        for op in seq:
            before = snapshot(root)
            # what the reference expects
            expect = 'ok'
            if op == 'reopen':
                if m.finalized:
                    expect = 'error'
            elif op == 'finalize':
                if m.finalized:
                    # finalizing again by the same maker: must leave an equally consistent catalog
                    expect = 'any'
                elif not fresh and not par:
                    expect = 'skip'         # serial maker on top of someone else's files: unspecified
                elif m.total() == 0:
                    expect = 'error'
                elif not genid and len(set(m.ids())) < m.total():
                    expect = 'error'
            else:
                bn = op.split(':')[-1]
                g = batch(bn)
                if m.finalized:
                    expect = 'error'
                elif bn == 'nan' or (bn == 'selfdup' and not genid):
                    expect = 'error'
                elif not fresh and not par:
                    # a serial maker must not touch a pixel written by somebody else
                    expect = 'error' if bn in ('a1', 'c1', 'b1dup') and m.px.get(BATCH[bn][1][0]) else 'skip'
            if expect == 'skip':
                trace.append('stop')
                break
            try:
                if op == 'reopen':
                    mk = new()
                elif op == 'finalize':
                    mk.finalize_catalog()
                elif op.startswith('split:'):
                    mk.split_galaxies(g)
                else:
                    mk.append_galaxies(g)
                got = 'ok'
            except RuntimeError:
                got = 'error'
            if op.startswith('split:') and expect == 'ok':
                # append, then finalize
                m.append(g, BATCH[bn][1])
                if not genid and len(set(m.ids())) < m.total():
                    expect = 'error'
                elif m.total() == 0:
                    expect = 'error'
                else:
                    m.finalized = True
            elif expect == 'ok' and op == 'finalize':
                m.finalized = True
            elif expect == 'ok' and op == 'reopen':
                fresh = m.total() == 0
            elif expect == 'ok':
                m.append(g, BATCH[bn][1])
            elif expect == 'error' and op not in ('finalize',) and not op.startswith('split:'):
                if snapshot(root) != before:
                    bad.append('%s was refused but changed files on disk' % op)
            if expect == 'error' and op.startswith('split:') and (m.finalized or bn == 'nan'):
                if snapshot(root) != before:
                    bad.append('%s was refused but changed files on disk' % op)
            if expect != 'any' and got != expect:
                bad.append('step %s: expected %s, got %s' % (op, expect, got))
                break
            bad += judge(outbase, m, fresh)
            trace.append((op, got))
            if bad:
                break
        if not m.finalized and fresh is False and not par:
            pass
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return ['after %s: %s' % (','.join(str(t) for t in trace), b) for b in bad], \
        (genid, masked, par, m.finalized, tuple(sorted((p, len(v)) for p, v in m.px.items())), len(trace)), \
        m.total() > 0


def snapshot(root):
    out = {}
    for f in sorted(os.listdir(root)):
        with open(os.path.join(root, f), 'rb') as fh:
            out[f] = fh.read()
    return out


def judge(outbase, m, fresh):
    """The stored catalog equals the model."""
    import hpgeom as hpg
    bad = []
    px = G.read_pixel_files(outbase)
    if set(px) != set(p for p, v in m.px.items() if v):
        return ['pixel files %s, expected %s' % (sorted(px), sorted(m.px))]
    for p, rows in px.items():
        want = m.px[p]
        if rows.size != len(want):
            bad.append('pixel %d holds %d rows, expected %d' % (p, rows.size, len(want)))
            continue
        gen = m.genid and m.finalized
        wset = sorted(rowkey(r, gen) for r in want)
        gset = sorted(rowkey(r, gen) for r in rows)
        if wset != gset:
            bad.append('pixel %d: stored rows differ from the appended ones' % p)
        if not np.all(hpg.angle_to_pixel(NSIDE, rows['ra'], rows['dec'], nest=False) == p):
            bad.append('pixel %d holds galaxies of another pixel' % p)
    exists = os.path.isfile(outbase + '_master_table.fit')
    if exists != m.finalized:
        bad.append('summary table %s, expected %s' % (exists, m.finalized))
    elif exists:
        t = G.read_master(outbase)
        names = {n.lower(): n for n in t.dtype.names}
        hp = np.atleast_1d(t[names['hpix']])
        if sorted(hp.tolist()) != sorted(px):
            bad.append('summary lists pixels %s' % hp)
        else:
            ng = np.atleast_1d(t[names['ngals']])
            fn = [x.decode().strip() if isinstance(x, bytes) else str(x).strip() for x in np.atleast_1d(t[names['filenames']])]
            for i, p in enumerate(hp):
                if ng[i] != px[p].size:
                    bad.append('summary counts %d galaxies in pixel %d, there are %d' % (ng[i], p, px[p].size))
                if fn[i] != os.path.basename(outbase) + '_%07d.fit' % p:
                    bad.append('summary names file %s for pixel %d' % (fn[i], p))
            ra, dec = hpg.pixel_to_angle(NSIDE, hp, nest=False)
            if not (np.allclose(ra, np.atleast_1d(t[names['ra_pix']])) and np.allclose(dec, np.atleast_1d(t[names['dec_pix']]))):
                bad.append('summary pixel centers are wrong')
        for k, v in (('nside', NSIDE), ('nmag', 5), ('ref_ind', 3), ('lim_ref', 21.0), ('area', 25.0), ('zeropoint', 22.5),
                     ('g_ind', 1), ('r_ind', 2), ('i_ind', 3), ('z_ind', 4), ('u_ind', 0)):
            if not np.isclose(float(t[names[k]]), v):
                bad.append('summary %s is %s, expected %s' % (k, t[names[k]], v))
        if not np.allclose(t[names['b']], G.INFO['B']):
            bad.append('summary softening parameters wrong')
        ids = np.concatenate([r['id'] for r in px.values()])
        if len(np.unique(ids)) != len(ids):
            bad.append('ids of the finalized catalog are not unique')
        if m.genid and sorted(ids.tolist()) != list(range(1, ids.size + 1)):
            bad.append('generated ids are not 1..N')
    extra = [f for f in os.listdir(os.path.dirname(outbase)) if not f.startswith('cat_') or f.endswith('.lock')]
    if extra:
        bad.append('stray files %s' % extra)
    return bad


def rowkey(r, gen):
    return tuple((tuple(np.asarray(r[n]).ravel().tolist())) for n in r.dtype.names if not (gen and n == 'id'))


# ----------------------------------------------------------------------------
# Part 2
ILLEGAL = {
    'ra': [np.nan, np.inf, -np.inf, -1e-9, 360.0000001, -10.0, 400.0],
    'dec': [np.nan, np.inf, -90.0000001, 90.0000001, 100.0],
    'refmag': [np.nan, np.inf, -np.inf],
    'refmag_err': [np.nan, np.inf],
    'mag': [np.nan, np.inf, -np.inf, 90.0, 99.0, 0.0, -1.0],
    'mag_err': [np.nan, np.inf, 0.0, -0.1],
    'ebv': [np.nan, np.inf],
    'ztrue': [np.nan], 'm200': [np.inf], 'zspec': [np.nan, -np.inf], 'zspec_err': [np.nan],
}
LEGAL = {
    'ra': [0.0, 360.0, 1e-9, 359.9999999], 'dec': [-90.0, 90.0, 0.0],
    'mag': [89.9, 0.1], 'mag_err': [0.001, 50.0], 'refmag': [-5.0, 95.0], 'ebv': [0.0, -0.1],
}
NOB_ILLEGAL = {'mag_err': [90.0, 99.0]}
STRUCT = ['nomag', 'noebv', 'noid', 'nmag4', 'nmag6', 'errnmag4', 'idfloat', 'raint', 'noztrue', 'nozspec']


def value_cases():
    out = []
    for truth, zspec in ((False, False), (True, True)):
        for legal, table in ((False, ILLEGAL), (True, LEGAL)):
            for col, vals in table.items():
                if col in ('ztrue', 'm200') and not truth or col in ('zspec', 'zspec_err') and not zspec:
                    continue
                for v in vals:
                    for row in range(3):
                        bands = (0, 2, 4) if col in ('mag', 'mag_err') else (None,)
                        for b in bands:
                            for par in (False, True):
                                out.append(['value', legal, truth, zspec, col, repr(float(v)), row, b, par, True])
    for col, vals in NOB_ILLEGAL.items():
        for v in vals:
            for row in range(3):
                for b in (0, 2, 4):
                    for withb in (False, True):
                        out.append(['value', withb, False, False, col, repr(v), row, b, False, withb])
    for s in STRUCT:
        for par in (False, True):
            out.append(['struct', False, s == 'noztrue', s == 'nozspec', s, '', 0, None, par, True])
    return out


def run_value(case):
    from redmapper import GalaxyCatalogMaker
    kind, legal, truth, zspec, col, val, row, band, par, withb = case
    root = os.path.join(build.scratch(), 'c02', str(os.getpid()))
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    outbase = os.path.join(root, 'cat')
    bad = []
    try:
        info = dict(G.INFO)
        if not withb:
            del info['B']
        mk = GalaxyCatalogMaker(outbase, info, nside=NSIDE, parallel=par, ingest_truth=truth, ingest_zspec=zspec)

        def mkbatch(ids, pixs, nmag=5):
            pos = [G.pix_positions(NSIDE, p, 1, salt=i) for i, p in zip(ids, pixs)]
            return G.make_gals(np.array(ids), [p[0][0] for p in pos], [p[1][0] for p in pos], nmag=nmag, truth=truth, zspec=zspec)
        g0 = mkbatch([1, 2], [A, B])
        mk.append_galaxies(g0)
        before = snapshot(root)
        g = mkbatch([3, 4, 5], [A, B, C])
        if kind == 'value':
            if band is None:
                g[col][row] = float(val)
            else:
                g[col][row, band] = float(val)
        else:
            d = g.dtype.descr
            if col.startswith('no'):
                g = g[[n for n in g.dtype.names if n != col[2:]]].copy()
                from numpy.lib import recfunctions as rfn
                g = rfn.repack_fields(g)
            elif col in ('nmag4', 'nmag6'):
                g = mkbatch([3, 4, 5], [A, B, C], nmag=int(col[-1]))
            elif col == 'errnmag4':
                d = [(x[0], x[1], (4,)) if x[0] == 'mag_err' else x for x in d]
                h = np.zeros(3, dtype=d)
                for n in g.dtype.names:
                    h[n] = g[n][:, :4] if n == 'mag_err' else g[n]
                g = h
            elif col in ('idfloat', 'raint'):
                n0, t = ('id', 'f8') if col == 'idfloat' else ('ra', 'i8')
                g = g.astype([(x[0], t) + tuple(x[2:]) if x[0] == n0 else x for x in d])
        try:
            mk.append_galaxies(g)
            got = 'ok'
        except RuntimeError:
            got = 'refused'
        if legal and got != 'ok':
            bad.append('legal value %s=%s refused' % (col, val))
        if not legal and got == 'ok':
            bad.append('illegal input %s=%s accepted' % (col, val))
        if got == 'refused' and snapshot(root) != before:
            bad.append('refused input changed files on disk (%s=%s)' % (col, val))
        # the maker stays usable and the result is exact
        mk.append_galaxies(mkbatch([6], [C]))
        mk.finalize_catalog()
        px = G.read_pixel_files(outbase)
        n = sum(r.size for r in px.values())
        want = 3 + (3 if got == 'ok' else 0)
        if n != want:
            bad.append('%d galaxies stored, expected %d' % (n, want))
        t = G.read_master(outbase)
        names = {x.lower(): x for x in t.dtype.names}
        if int(t[names['has_truth']]) != int(truth) or int(t[names['has_zspec']]) != int(zspec):
            bad.append('truth/zspec flags of the summary are wrong')
        if not bad and got == 'ok':
            allr = np.concatenate(list(px.values()))
            for r in g:
                w = allr[allr['id'] == r['id']]
                if w.size != 1 or rowkey(w[0], False) != rowkey(r, False):
                    bad.append('galaxy %d not stored unaltered' % r['id'])
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return bad, (kind, legal, col, got, par), not legal


def body(check):
    os.makedirs(os.path.join(build.scratch(), 'c02'), exist_ok=True)
    import redmapper   # noqa
    depth = 5 if check.thorough else 4
    mask_file()
    cases = []
    for genid, masked, par in itertools.product((False, True), (False, True), (False, True)):
        d = depth if (not masked) else depth - 1
        if par or genid:
            d = min(d, depth - 1) if not (genid is False and par is False) else d
        for n in range(1, d + 1):
            for seq in itertools.product(OPS, repeat=n):
                # sequences are prefix-checked step by step: only maximal ones are run
                if n == d:
                    cases.append([genid, masked, par, list(seq)])
    steps = sum(len(c[3]) for c in cases)
    check.run_cases(cases, run_seq, 'sequences')
    nseq = check.evaluations
    check.run_cases(value_cases(), run_value, 'values')
    check.extra.update(states=len(check.outcomes), transitions=steps if check.replay is None else 0,
                       traces_validated_against_impl=nseq)
    check.extra['bounds'] = 'all sequences of %d operations (%d for masked/parallel/generated-id makers) over %s' % (depth, depth - 1, OPS)


if __name__ == '__main__':
    core.main('C02', 'model_checking',
              'All operation sequences on a galaxy-catalog maker up to the stated depth, each step compared with a '
              'reference model of what must be stored; plus every column x illegal/boundary value x row. Non-trivial: '
              'galaxies were stored, or the input was illegal.', body, need_ext=True)
