"""C17: catalogs behave as tables: every sequence of operations gives the rows a plain table would hold, and files round trip."""
import itertools
import os
import shutil

import numpy as np

from mc import core, rm

KINDS = ('catalog', 'galaxies', 'clusters')
DT = [('ID', 'i8'), ('Ra', 'f8'), ('dec', 'f8'), ('MAG', 'f4', 3), ('lambda', 'f4'), ('NAME', 'U5')]


def make(kind, rows):
    from redmapper import Catalog, GalaxyCatalog, ClusterCatalog
    cls = {'catalog': Catalog, 'galaxies': GalaxyCatalog, 'clusters': ClusterCatalog}[kind]
    dt = DT if kind != 'clusters' else [d for d in DT if d[0] != 'NAME']
    a = np.zeros(len(rows), dtype=dt)
    for i, r in enumerate(rows):
        fill(a, i, r)
    return cls(a)


def fill(a, i, r):
    low = {n.lower(): n for n in a.dtype.names}
    for k, v in r.items():
        if k in low:
            a[low[k]][i] = v


def row(i):
    return {'id': 100 + i, 'ra': 10.5 + i, 'dec': -3.25 * i, 'mag': [i + 0.5, i + 1.5, i + 2.5], 'lambda': 5.0 + i, 'name': 'n%d' % i}


BLANK = {'id': 0, 'ra': 0.0, 'dec': 0.0, 'mag': [0.0, 0.0, 0.0], 'lambda': 0.0, 'name': '', 'extra': 0.0, 'vec': [0, 0]}


class Table:
    def __init__(self, kind, rows):
        self.kind = kind
        self.rows = [dict(r) for r in rows]
        self.extra = False
        self.next = 50

    def new(self):
        self.next += 1
        r = row(self.next)
        if self.extra:
            r.update(extra=0.0, vec=[0, 0])
        return r


def same(cat, t):
    bad = []
    if cat.size != len(t.rows) or len(cat) != len(t.rows):
        return ['%d rows, expected %d' % (cat.size, len(t.rows))]
    names = ['id', 'ra', 'dec', 'mag', 'lambda'] + (['name'] if t.kind != 'clusters' else []) + (['extra', 'vec'] if t.extra else [])
    for n in names:
        if n not in cat.dtype.names:
            return ['column %s is gone' % n]
        col = np.asarray(getattr(cat, 'Lambda' if n == 'lambda' else n))
        for i, r in enumerate(t.rows):
            v = col[i] if col.ndim else col
            if np.any(np.asarray(v) != np.asarray(r[n], dtype=np.asarray(v).dtype)):
                bad.append('%s of row %d is %s, expected %s' % (n, i, v, r[n]))
    for n in cat.dtype.names:
        if n != n.lower():
            bad.append('column name %s' % n)
    return bad[:2]


OPS = ['append', 'appendarr', 'append0', 'extend', 'extend0', 'fields', 'setcol', 'setscalar', 'setcell', 'entry', 'iterate', 'last', 'slice', 'mask', 'index',
       'empty', 'setitem', 'file', 'filerows', 'fileperm', 'readrows', 'upper', 'dup']


def step(cat, t, op, d):
    n = len(t.rows)
    bad = []
    dt = None
    if op in ('append', 'appendarr', 'append0'):
        new = [] if op == 'append0' else [t.new(), t.new()]
        a = np.zeros(len(new), dtype=cat.dtype)
        for i, r in enumerate(new):
            fill(a, i, r)
        cat.append(a if op == 'appendarr' else type(cat)(a))
        t.rows += new
    elif op in ('extend', 'extend0'):
        k = 2 if op == 'extend' else 0
        cat.extend(k)
        t.rows += [dict(BLANK) for _ in range(k)]
    elif op == 'fields':
        if t.extra:
            try:
                cat.add_fields([('EXTRA', 'f4')])
                bad.append('a column can be added twice')
            except ValueError:
                pass
        else:
            cat.add_fields([('EXTRA', 'f4'), ('vec', 'i4', 2)])
            t.extra = True
            for r in t.rows:
                r.update(extra=0.0, vec=[0, 0])
    elif op == 'setcol':
        v = np.arange(n) * 2.0 + 0.5
        cat.ra = v
        cat.mag = np.outer(np.arange(n), [1.0, 2.0, 4.0])
        cat.Lambda = v + 1
        for i, r in enumerate(t.rows):
            r.update(ra=v[i], mag=[i * 1.0, i * 2.0, i * 4.0])
            r['lambda'] = v[i] + 1
    elif op == 'setscalar':
        cat.DEC = 7.5
        cat.ra[:] = 8.5
        for r in t.rows:
            r.update(dec=7.5, ra=8.5)
    elif op == 'setcell':
        if n:
            cat.mag[n - 1, 1] = 99.0
            cat.id[0] = 77
            t.rows[n - 1]['mag'] = [t.rows[n - 1]['mag'][0], 99.0, t.rows[n - 1]['mag'][2]]
            t.rows[0]['id'] = 77
    elif op == 'entry':
        if n:
            e = cat[n // 2]
            r = t.rows[n // 2]
            if int(e.id) != r['id'] or float(e.RA) != r['ra'] or np.any(np.asarray(e.mag) != np.asarray(r['mag'], 'f4')):
                bad.append('entry %d differs from its row' % (n // 2))
            e.ra = 55.0
            e.mag[2] = 44.0
            e.Lambda = 33.0
            r.update(ra=55.0, mag=[r['mag'][0], r['mag'][1], 44.0])
            r['lambda'] = 33.0
            if e.mag.shape != (3,):
                bad.append('entry column shape')
            # an attribute which is not a column stays with the entry
            e.something = 3
            if e.something != 3 or 'something' in cat.dtype.names:
                bad.append('attribute of an entry')
    elif op == 'iterate':
        k = 0
        for e in cat:
            e.dec = k * 1.5
            if k >= n:
                break
            t.rows[k]['dec'] = k * 1.5
            k += 1
        if k != n:
            bad.append('iteration gave %d rows' % k)
    elif op == 'last':
        if n:
            e = cat[-1]
            if int(e.id) != t.rows[-1]['id']:
                bad.append('last entry')
        try:
            cat[n]
            bad.append('index beyond the end')
        except IndexError:
            pass
    elif op in ('slice', 'mask', 'index', 'empty'):
        if op == 'slice':
            sel = list(range(1, n, 2))
            new = cat[1::2]
        elif op == 'mask':
            m = np.arange(n) % 3 != 1
            sel = np.where(m)[0].tolist()
            new = cat[m]
        elif op == 'index':
            sel = [i for i in (n - 1, 0, n - 1) if 0 <= i < n]
            new = cat[np.array(sel, dtype='i8')]
        else:
            sel = []
            new = cat[np.zeros(0, dtype='i8')]
        if type(new) is not type(cat):
            bad.append('selection is a %s' % type(new))
        bad += ['before: %s' % b for b in same(cat, t)]
        t.rows = [dict(t.rows[i]) for i in sel]
        cat = new
    elif op == 'setitem':
        if n:
            a = np.zeros(1, dtype=cat.dtype)
            r = t.new()
            fill(a, 0, r)
            cat[n - 1] = a[0]
            t.rows[n - 1] = r
    elif op in ('file', 'filerows', 'fileperm', 'readrows'):
        p = os.path.join(d, 'x.fit')
        if op in ('filerows', 'fileperm'):
            sel = [i for i in (n - 1, 0, 0) if 0 <= i < n] if op == 'filerows' else list(range(n))[::-1]
            idx = np.array(sel, dtype='i8')
            cat.to_fits_file(p, clobber=True, indices=idx)
            t.rows = [dict(t.rows[i]) for i in sel]
        else:
            cat.to_fits_file(p, clobber=True)
        if n:
            import fitsio
            q = os.path.join(d, 'none.fit')
            cat.to_fits_file(q, clobber=True, indices=np.zeros(0, dtype='i8'))
            if fitsio.FITS(q)[1].get_nrows() != 0:
                bad.append('rows were written for an empty selection')
            os.remove(q)
        if not t.rows:
            return cat, bad          # an empty table has nothing to read back
        if op == 'readrows':
            sel = sorted({0, len(t.rows) - 1})
            new = type(cat).from_fits_file(p, rows=np.array(sel))
            t.rows = [dict(t.rows[i]) for i in sel]
        else:
            new = type(cat).from_fits_file(p)
        os.remove(p)
        cat = new
    elif op == 'upper':
        if n and np.any(np.asarray(cat.RA) != np.asarray(cat.ra)):
            bad.append('column names are case sensitive')
        if not hasattr(cat, 'Dec') or hasattr(cat, 'nosuch'):
            bad.append('attributes')
        if not set(x.lower() for x in cat.dtype.names) <= set(dir(cat)):
            bad.append('dir() misses columns')
    elif op == 'dup':
        from redmapper import Catalog
        a = np.zeros(n, dtype=[('q', 'f4'), ('RA', 'f4')])
        b = np.zeros(n, dtype=[('qextra', 'f4')])
        before = cat._ndarray.copy()
        try:
            Catalog(before.copy(), a)
            bad.append('two columns of one name')
        except ValueError:
            pass
        m = Catalog(before.copy(), b)
        if m.size != n or 'qextra' not in m.dtype.names or (n and np.any(m.ra != cat.ra)):
            bad.append('merged catalog')
        try:
            Catalog(before.copy(), np.zeros(n + 1, dtype=[('qextra', 'f4')]))
            bad.append('merged catalogs of different length')
        except ValueError:
            pass
    return cat, bad


def run(case):
    kind, n0, seq = case
    d = rm.workdir('c17')
    rows = [row(i) for i in range(n0)]
    cat, t = make(kind, rows), Table(kind, rows)
    try:
        bad = same(cat, t)
        for op in seq:
            cat, b = step(cat, t, op, d)
            b += same(cat, t)
            if b:
                return ['after %s: %s' % (op, x) for x in bad + b], ('bad',), True
        left = os.listdir(d)
        if [x for x in left if x != 'x.fit']:
            bad.append('files left: %s' % left)
        return bad, (kind, len(t.rows), t.extra), bool(t.rows)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def body(check):
    th = check.thorough
    cases = [[k, n, list(s)] for k in KINDS for n in (0, 1, 2, 5) for m in (1, 2) for s in itertools.product(OPS, repeat=m)]
    main = [o for o in OPS if o not in ('append0', 'extend0', 'setscalar', 'last', 'upper', 'dup', 'readrows')]
    depth = 3
    cases += [[k, n, list(s)] for k in (KINDS if th else ('catalog', 'clusters')) for n in ((1, 3) if not th else (0, 1, 2, 3)) for s in itertools.product(main if not th else OPS, repeat=depth)]
    check.run_cases(cases, run, 'tables')


if __name__ == '__main__':
    core.main('C17', 'model_checking',
              'All sequences of up to two of 23 operations on three kinds of catalogs of 0, 1, 2 and 5 rows, and of three operations, compared with a '
              'reference table after every step. Non-trivial: rows remain.', body)
