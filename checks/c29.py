"""C29: the batch layer runs every populated pixel exactly once, with the task asked for."""
import contextlib
import importlib
import io
import itertools
import os
import re
import runpy
import shlex
import shutil
import subprocess
import sys
import types

import fitsio
import hpgeom as hpg
import numpy as np
import yaml

from mc import build, core, ref, rm

MODES = {0: ('run', 'redmapper_run_redmapper_pixel.py', 'RunRedmapperPixelTask'), 1: ('zred', 'redmapper_run_zred_pixel.py', 'RunZredPixelTask'),
         2: ('runcat', 'redmapper_runcat_pixel.py', 'RuncatPixelTask'), 3: ('zmask', 'redmapper_run_zmask_pixel.py', 'RunZmaskPixelTask'),
         4: ('zscan', 'redmapper_run_zscan_pixel.py', 'RunZScanPixelTask')}
WALL = {0: 72 * 60, 1: 5 * 60, 2: 600, 3: 600, 4: 600}
STRUCT = ('XTENSION', 'BITPIX', 'PCOUNT', 'GCOUNT', 'TFIELDS', 'EXTNAME', 'COMMENT', 'HISTORY')
MASTER = 'pixelized_dr8_test/dr8_test_galaxies_master_table.fit'
ZMASTER = 'zreds_test/dr8_test_zreds_master_table.fit'


def script(name):
    return os.path.join(build.scratch(), 'src', 'bin', name)


def table(path, nside, hpix, ngals=None, source=MASTER, names=None):
    """A master table of these pixels, with everything else as in the test catalog."""
    a = fitsio.read(os.path.join(build.DATA, source), ext=1)
    hdr = fitsio.read_header(os.path.join(build.DATA, source), ext=1)
    low = {n.lower(): n for n in a.dtype.names}
    dt = []
    for n in a.dtype.names:
        b, s = a.dtype[n].base, a.dtype[n].shape
        dt.append((n, b, (len(hpix),)) if n.lower() in ('hpix', 'ra_pix', 'dec_pix', 'ngals', 'filenames') else (n, b, s) if s else (n, b))
    dt += [('HAS_TRUTH', 'i4'), ('HAS_ZSPEC', 'i4')]
    o = np.zeros(1, dtype=dt)
    for n in a.dtype.names:
        if o[n].shape == a[n].shape:
            o[n] = a[n]
    o[low['hpix']][0] = hpix
    o[low['nside']] = nside
    o[low['ngals']][0] = 1 if ngals is None else ngals
    r, d = hpg.pixel_to_angle(nside, np.array(hpix), nest=False)
    for n, v in (('ra_pix', r), ('dec_pix', d)):
        if n in low:
            o[low[n]][0] = v
    o[low['filenames']][0] = names if names is not None else ['g_%07d.fit' % p for p in hpix]
    os.makedirs(os.path.dirname(path), exist_ok=True)
    fitsio.write(path, o, clobber=True, header=[{'name': r['name'], 'value': r['value']} for r in hdr.records() if r['name'] not in STRUCT and not r['name'].startswith(('TTYPE', 'TFORM', 'TDIM', 'NAXIS'))])


def parent(nside_in, pix, nside):
    """Pixels of the coarser resolution, ring numbers, by the nested numbering."""
    n = hpg.ring_to_nest(nside_in, np.array(pix)) >> (2 * int(np.log2(nside_in // nside)))
    return sorted(set(hpg.nest_to_ring(nside, n).tolist()))


def setup(d, nside, hpix, over=None, maskgals=True):
    os.makedirs(d + '/conf', exist_ok=True)
    os.makedirs(d + '/home', exist_ok=True)
    os.makedirs(d + '/work', exist_ok=True)
    table(d + '/gal/t_master_table.fit', nside, hpix)
    if maskgals:
        open(d + '/conf/maskgals.fit', 'w').write('present')
    rm.write_config(d + '/conf/c.yml', **dict({'galfile': d + '/gal/t_master_table.fit', 'outpath': d + '/conf', 'outbase': 'tst', 'maskgalfile': d + '/conf/maskgals.fit', 'hpix': rm.DROP, 'nside': rm.DROP,
                                               'maskgal_ngals': 300, 'maskgal_nsamples': 1}, **(over or {})))
    return d + '/conf/c.yml'


BATCH = {'lsf': {'lsf': {'batch': 'lsf', 'setup': 'export SETUP_DONE=1', 'requirements': 'linux'}},
         'local': {'par': {'batch': 'parsl', 'setup': '', 'requirements': ''}},
         'image': {'par': {'batch': 'parsl', 'image': 'some/image:v1'}},
         'slurm': {'par': {'batch': 'parsl', 'parsl_provider': 'slurm', 'constraint': 'cpu', 'qos': 'regular'}},
         'two': {'one': {'batch': 'lsf', 'setup': 'export SETUP_DONE=1'}, 'two': {'batch': 'parsl'}},
         'pbs': {'pbs': {'batch': 'pbs', 'ppn': 4, 'queue': 'q'}}}


def call(name, argv, cwd, home):
    """Run a script in this process; what it prints is kept away."""
    old = sys.argv, os.getcwd(), os.environ.get('HOME')
    sys.argv = [name] + argv
    os.chdir(cwd)
    os.environ['HOME'] = home
    try:
        with contextlib.redirect_stdout(io.StringIO()) as f:
            runpy.run_path(script(name), run_name='__main__')
        return f.getvalue()
    finally:
        sys.argv = old[0]
        os.chdir(old[1])
        os.environ['HOME'] = old[2] or '/root'


def submit(d, cfg, mode, batch, nside=None, which=None, wall=None, nodes=None, relative=False):
    with open(d + '/home/.redmapper_batch.yml', 'w') as f:
        yaml.safe_dump(BATCH[batch], f)
    argv = ['-c', os.path.relpath(cfg, d + '/work') if relative else cfg, '-r', str(mode)]
    for o, v in (('-n', nside), ('-b', which), ('-w', wall), ('-N', nodes)):
        if v is not None:
            argv += [o, str(v)]
    call('redmapper_batch.py', argv, d + '/work', d + '/home')


def jobs(d):
    p = d + '/work/jobs'
    return {f: open(os.path.join(p, f)).read() for f in sorted(os.listdir(p))} if os.path.isdir(p) else {}


STUB = '#!/bin/bash\n{ echo "$(basename "$0")" "$@"; echo "setup=$SETUP_DONE"; } >> "$RECORD"\n'


def run_lsf(d, text):
    """Run every index of an LSF job array; the commands that were started."""
    m = re.search(r'^#BSUB -J \S+\[(\d+)-(\d+)\]', text, re.M)
    if not m:
        return None, 'no job array'
    b = d + '/bin'
    os.makedirs(b, exist_ok=True)
    for _, s, _ in MODES.values():
        with open(b + '/' + s, 'w') as f:
            f.write(STUB)
        os.chmod(b + '/' + s, 0o755)
    with open(d + '/job.sh', 'w') as f:
        f.write(text)
    rec = d + '/record'
    if os.path.exists(rec):
        os.remove(rec)
    # all the indices of the array, one after the other in one shell
    loop = 'for i in $(seq %s %s); do ( export LSB_JOBINDEX=$i; . %s/job.sh ); done' % (m.group(1), m.group(2), d)
    subprocess.run(['bash', '-c', loop], env={'PATH': b + ':/usr/bin:/bin', 'RECORD': rec}, cwd=d + '/work', check=False, stderr=subprocess.DEVNULL)
    out = open(rec).read().split('\n') if os.path.exists(rec) else []
    cmds = [x for x in out if x and not x.startswith('setup=')]
    if [x for x in out if x.startswith('setup=')] != ['setup=1'] * len(cmds):
        return None, 'the setup of the batch mode was not run before the command'
    return [shlex.split(c) for c in cmds], None


class Any(types.ModuleType):
    """A module or object that has every attribute and can be called with anything."""

    def __init__(self, log=None, name='any'):
        super().__init__(name)
        self.__dict__['log'] = log
        self.__dict__['__path__'] = []

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Any(self.log, n)

    def __call__(self, *a, **kw):
        if self.log is not None:
            self.log.append((self.__name__, a, kw))
        return Any(self.log, self.__name__)


def run_parsl(d, text, image, log):
    """Run a parsl job with a recording parsl; the commands that were started."""
    cmds = []
    p = Any(log, 'parsl')

    def bash_app(*a, **kw):
        def deco(f):
            def app(*x, **k):
                c = f(*x, **k)
                cmds.append((c, k))
                r = types.SimpleNamespace()
                r.result = lambda: waited.append(c)
                return r
            return app
        return deco
    waited = []
    p.__dict__['bash_app'] = bash_app
    names = ['parsl', 'parsl.executors', 'parsl.providers', 'parsl.addresses', 'parsl.utils', 'parsl.launchers', 'parsl.config']
    old = {n: sys.modules.get(n) for n in names}
    try:
        for n in names:
            sys.modules[n] = p if n == 'parsl' else Any(log, n)
        exec(compile(text, 'job', 'exec'), {'__name__': '__main__'})
    finally:
        for n in names:
            if old[n] is None:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = old[n]
    out = []
    for c, _ in cmds:
        w = shlex.split(c)
        if image:
            if w[:1] != ['shifter'] or 'some/image:v1' not in ' '.join(w[1:3]):
                return None, 'the image is not used: %s' % c
            w = shlex.split(w[-1].split('&&')[-1])
        out.append(w)
    if sorted(waited) != sorted(c for c, _ in cmds):
        return None, 'the job ends without waiting for its commands'
    logs = [k.get('stdout') for _, k in cmds]
    if len(set(logs)) != len(logs):
        return None, 'two pixels have the same log file'
    return out, None


class Recorder:
    """The named classes, with construction and run recorded instead of done."""

    def __init__(self, classes):
        self.classes, self.seen = classes, []

    def __enter__(self):
        self.old = []
        for mod, name, methods in self.classes:
            c = getattr(importlib.import_module(mod), name)
            for m in ('__init__',) + tuple(methods):
                self.old.append((c, m, c.__dict__.get(m)))
                setattr(c, m, self.method(name, m))
        return self.seen

    def method(self, name, m):
        def f(obj, *a, **kw):
            self.seen.append((name, m, a, kw))
            return ('a', 'b') if m == 'weight_randoms' else None
        if m == '__init__':
            def f0(obj, *a, **kw):
                self.seen.append((name, m, a, kw))
            return f0
        return f

    def __exit__(self, *a):
        for c, m, f in reversed(self.old):
            if f is None:
                delattr(c, m)
            else:
                setattr(c, m, f)


def bound(seen, names):
    """Arguments by name."""
    a, kw = seen
    return dict(dict(zip(names, a)), **kw)


def task_of(d, argv, cwd):
    """What the pixel script does with its arguments."""
    cl = [('redmapper.pipeline', t, ('run',)) for _, _, t in MODES.values()]
    with Recorder(cl) as seen:
        call(argv[0], argv[1:], cwd, d + '/home')
    return seen


def run_batch(case):
    nside_tab, hpix, mode, batch, nside, opt = case
    d = rm.workdir('c29')
    try:
        cfg = setup(d, nside_tab, hpix)
        which = {'two': 'two' if opt.get('second') else 'one'}.get(batch)
        submit(d, cfg, mode, batch, nside, which, opt.get('wall'), opt.get('nodes'), opt.get('relative', False))
        js = jobs(d)
        parsl = batch in ('local', 'image', 'slurm') or which == 'two'
        if len(js) != 1:
            return ['job files %s' % sorted(js)], None, True
        name, text = list(js.items())[0]
        bad = []
        if not name.endswith('.py' if parsl else '.job') or MODES[mode][0] not in name:
            bad.append('job file %s' % name)
        log = []
        if parsl:
            cmds, err = run_parsl(d, text, batch == 'image', log)
        else:
            cmds, err = run_lsf(d, text)
        if err:
            return bad + [err], None, True
        use = nside or 8
        want = parent(nside_tab, hpix, use)
        got = []
        for c in cmds:
            if c[0] != MODES[mode][1]:
                bad.append('command %s for run mode %s' % (c[0], MODES[mode][0]))
                continue
            seen = task_of(d, c, d + '/work')
            if [x[:2] for x in seen] != [(MODES[mode][2], '__init__'), (MODES[mode][2], 'run')]:
                bad.append('%s did %s' % (c[0], [x[:2] for x in seen]))
                continue
            b = bound(seen[0][2:], ('configfile', 'pixel', 'nside', 'path'))
            got.append(b['pixel'])
            if os.path.realpath(os.path.join(d, 'work', b['configfile'])) != os.path.realpath(cfg) or b['nside'] != use or os.path.realpath(b.get('path', './')) != os.path.realpath(d + '/conf'):
                bad.append('pixel %s runs with %s' % (b['pixel'], b))
        if sorted(got) != want:
            bad.append('pixels %s are run, the galaxies are in %s' % (sorted(got), want))
        wall = opt.get('wall') or WALL[mode]
        if not parsl and re.search(r'^#BSUB -W (\d+)', text, re.M).group(1) != str(wall):
            bad.append('wall time of the job')
        if batch == 'slurm':
            prov = [kw for n, a, kw in log if n == 'SlurmProvider']
            if len(prov) != 1 or str(wall) not in prov[0].get('walltime', '') or prov[0].get('nodes_per_block') != (opt.get('nodes') or 2):
                bad.append('provider %s' % prov)
        return bad[:3], (len(want), parsl), len(want) > 0
    finally:
        shutil.rmtree(d)


def run_refuse(case):
    """What must not make a job."""
    what = case
    d = rm.workdir('c29')
    try:
        over, mode, batch, which = {}, 1, 'lsf', None
        if what == 'hpix':
            over = {'hpix': [570], 'nside': 32, 'area': 1.0}
        elif what.startswith('mode'):
            mode = int(what[4:])
        elif what == 'pbs':
            batch = 'pbs'
        elif what == 'no batch mode':
            batch = 'two'
        cfg = setup(d, 128, [8421, 8682], over)
        try:
            with contextlib.redirect_stderr(io.StringIO()):
                submit(d, cfg, mode, batch, None, which)
        except (ValueError, RuntimeError, NotImplementedError, SystemExit) as e:
            if what == 'pbs':
                return [('pbs-jobs-cannot-be-made', 'a PBS job raises %s' % type(e).__name__)], what, True
            j = {k: v for k, v in jobs(d).items() if v.strip()}
            return (['refused, but there is a job'] if j else []), what, True
        except NameError as e:
            if what == 'pbs':
                return [('pbs-jobs-cannot-be-made', 'a PBS job raises %s' % type(e).__name__)], what, True
            raise
        if what == 'pbs':
            text = list(jobs(d).values())[0]
            return ([] if 'redmapper_run_zred_pixel.py' in text else ['a PBS job without its command']), what, True
        return ['accepted: %s' % what], what, True
    finally:
        shutil.rmtree(d)


def run_history(case):
    """Job files of earlier submissions stay as they are."""
    ops = case
    d = rm.workdir('c29')
    try:
        cfgs = {}
        for b in ('tst', 'tst_run'):
            cfgs[b] = setup(d, 128, [8421, 8682], {'outbase': b})
            shutil.copy(cfgs[b], d + '/conf/%s.yml' % b)
            cfgs[b] = d + '/conf/%s.yml' % b
        bad = []
        for i, op in enumerate(ops):
            before = jobs(d)
            if op[0] == 'rm':
                f = sorted(before)
                if f:
                    os.remove(d + '/work/jobs/' + f[op[1] % len(f)])
                continue
            submit(d, cfgs[op[0]], op[1], op[2], 4 if i % 2 else 8)
            after = jobs(d)
            new = sorted(set(after) - set(before))
            if len(new) != 1:
                bad.append('submission %d of %s makes the files %s' % (i + 1, ops, new))
            for f in before:
                if after.get(f) != before[f]:
                    bad.append('submission %d of %s changes the job file %s' % (i + 1, ops, f))
        return bad[:3], len(jobs(d)), True
    finally:
        shutil.rmtree(d)


def run_maskgals(case):
    """The mask galaxies are there before the jobs that read them, and are never made again."""
    mode, present = case
    d = rm.workdir('c29')
    try:
        cfg = setup(d, 128, [8421, 8682], maskgals=present)
        with ref.fixed_random():
            submit(d, cfg, mode, 'lsf')
        p = d + '/conf/maskgals.fit'
        bad = []
        if present:
            if open(p).read() != 'present':
                bad.append('the mask galaxies were made again')
        elif mode != 1:
            n = fitsio.read(p, ext=1).size if os.path.exists(p) else 0
            if n != 300:
                bad.append('run mode %d: %d mask galaxies, 300 expected' % (mode, n))
        return bad, (mode, present), True
    finally:
        shutil.rmtree(d)


def run_node(case):
    """Several pixels on one node: each one exactly once, whatever the others do."""
    pixels, fail = case
    d = rm.workdir('c29')
    try:
        with open(d + '/rec.sh', 'w') as f:
            f.write('#!/bin/bash\necho "$@" > %s/out.$$\ncase " $* " in *" -p %s "*) exit 3;; esac\n' % (d, fail))
        r = subprocess.run([sys.executable, script('redmapper_run_many_pixels_same_node.py'), '-c', 'bash %s/rec.sh -c some.yml -n 8' % d, '-P', ','.join(map(str, pixels))],
                           capture_output=True, text=True, timeout=120, env=dict(os.environ, PYTHONPATH=os.path.join(build.scratch(), 'src')))
        got = sorted(open(os.path.join(d, f)).read().split() for f in os.listdir(d) if f.startswith('out.'))
        want = sorted(['-c', 'some.yml', '-n', '8', '-p', str(p)] for p in pixels)
        bad = []
        if got != want:
            bad.append('commands %s, expected %s (rc %s)' % (got, want, r.returncode))
        return bad, len(pixels), True
    finally:
        shutil.rmtree(d)


def run_memory(case):
    """Memory per task: the galaxies of the fullest pixel, at every resolution."""
    nside, rows, truth, zred, border = case
    from redmapper.pipeline import MemPredict
    d = rm.workdir('c29')
    try:
        hpix, ngals = [r[0] for r in rows], [r[1] for r in rows]
        dt = [('id', 'i8'), ('ra', 'f8'), ('dec', 'f8'), ('refmag', 'f4'), ('mag', 'f4', 5)]
        size = 8 + 8 + 8 + 4 + 20
        if truth:
            dt += [('ztrue', 'f4'), ('m200', 'f4'), ('central', 'i2'), ('halo_id', 'i8')]
        cfg = setup(d, nside, hpix, {'zredfile': d + '/zred/z_master_table.fit'})
        table(d + '/gal/t_master_table.fit', nside, hpix, ngals)
        fitsio.write(d + '/gal/g_%07d.fit' % hpix[0], np.zeros(2, dtype=dt), clobber=True)
        table(d + '/zred/z_master_table.fit', nside, hpix, ngals, names=['z_%07d.fit' % p for p in hpix])
        fitsio.write(d + '/zred/z_%07d.fit' % hpix[0], np.zeros(2, dtype=[('zred', 'f4'), ('zred_samp', 'f4', 3), ('chisq', 'f8')]), clobber=True)
        if zred:
            size += 4 + 12 + 8
        with contextlib.redirect_stdout(io.StringIO()):
            r = MemPredict(cfg).predict_memory(include_zreds=bool(zred), border_factor=border)
        bad = []
        want = [2]
        while want[-1] < nside:
            want.append(2 * want[-1])
        if list(r['nside']) != want:
            return ['resolutions %s' % r['nside']], None, True
        for k, n in enumerate(want):
            tot = {}
            for p, g in zip(hpix, ngals):
                q = parent(nside, [p], n)[0]
                tot[q] = tot.get(q, 0) + g
            mem = max(tot.values()) * size * border / 1e6
            if r['npix'][k] != len(tot) or abs(r['max_memory_mb'][k] - mem) > 1e-5 * mem:
                bad.append('nside %d: %d pixels, %s Mb; expected %d, %s' % (n, r['npix'][k], r['max_memory_mb'][k], len(tot), mem))
        return bad[:3], (nside, len(rows)), True
    finally:
        shutil.rmtree(d)


def run_script(case):
    """The remaining scripts do what their arguments say."""
    name, argv, classes, want = case
    d = rm.workdir('c29')
    try:
        cfg = setup(d, 128, [8421, 8682])
        sub = [cfg if a == 'CFG' else a for a in argv]
        with Recorder([tuple([m, c, tuple(ms)]) for m, c, ms in classes]) as seen:
            call(name, sub, d + '/work', d + '/home')
        got = []
        for n, m, a, kw in seen:
            a = list(a)
            if m == '__init__' and a and not isinstance(a[0], str):
                a[0] = 'CFG' if a[0].galfile == d + '/gal/t_master_table.fit' else a[0].galfile          # a configuration
            got.append([n, m, {k: plain(v, d) for k, v in bound((a, kw), ARGS.get((n, m), [])).items()}])
        bad = []
        w = [[n, m, dict(x)] for n, m, x in want]
        # a default given by name or left out is the same
        for g in got:
            for k, v in DEFAULTS.get((g[0], g[1]), {}).items():
                g[2].setdefault(k, v)
        for g in w:
            for k, v in DEFAULTS.get((g[0], g[1]), {}).items():
                g[2].setdefault(k, v)
        if got != w:
            bad.append('%s %s does %s, expected %s' % (name, argv, got, w))
        return bad, name, True
    finally:
        shutil.rmtree(d)


def plain(v, d):
    if isinstance(v, str):
        v = v.replace(d + '/conf/c.yml', 'CFG')
    return list(v) if isinstance(v, (tuple, np.ndarray)) else v


CONS, RCONS = 'RedmapperConsolidateTask', 'RuncatConsolidateTask'
ARGS = {(CONS, '__init__'): ['configfile', 'lambda_cuts', 'vlim_lstars', 'path'], (CONS, 'run'): ['do_plots', 'match_spec'], (RCONS, '__init__'): ['configfile', 'path'],
        (RCONS, 'run'): ['do_plots', 'match_spec', 'consolidate_members', 'cattype'], ('RandomWeigher', '__init__'): ['config', 'randfile'], ('RandomWeigher', 'weight_randoms'): ['minlambda'],
        ('GenerateRandoms', '__init__'): ['config'], ('GenerateRandoms', 'generate_randoms'): ['nrandoms'], ('ZredBackgroundGenerator', '__init__'): ['config'],
        ('MemPredict', '__init__'): ['configfile'], ('MemPredict', 'predict_memory'): ['include_zreds', 'border_factor'], ('RedmapperCalibrator', '__init__'): ['configfile'],
        ('RunRedmagicTask', '__init__'): ['configfile', 'path'], ('RunRedmagicTask', 'run'): [], ('RedmagicCalibrator', '__init__'): ['conf'], ('RedmagicCalibrator', 'run'): ['gals', 'do_run']}
DEFAULTS = {(CONS, '__init__'): {'lambda_cuts': None, 'vlim_lstars': [], 'path': None}, (RCONS, '__init__'): {'path': None},
            (RCONS, 'run'): {'do_plots': True, 'match_spec': True, 'consolidate_members': True, 'cattype': 'lambda_chisq'},
            ('MemPredict', 'predict_memory'): {'include_zreds': True, 'border_factor': 2.0}}


def scripts():
    P = 'redmapper.pipeline'
    for lam in (None, [5.0], [5.0, 20.0], [20.0, 5.0, 0.0]):
        for vl in (None, [0.2], [5.0, 0.2]):
            a = ['-c', 'CFG'] + (['-l'] + ['%g' % x for x in lam] if lam else []) + (['-v'] + ['%g' % x for x in vl] if vl else [])
            yield ['redmapper_consolidate_run.py', a, [[P, CONS, ['run']]], [[CONS, '__init__', {'configfile': 'CFG', 'lambda_cuts': lam, 'vlim_lstars': vl or []}], [CONS, 'run', {}]]]
    yield ['redmapper_consolidate_runcat.py', ['-c', 'CFG'], [[P, RCONS, ['run']]], [[RCONS, '__init__', {'configfile': 'CFG'}], [RCONS, 'run', {}]]]
    yield ['redmapper_consolidate_runcat.py', ['-c', 'CFG', '-r'], [[P, RCONS, ['run']]],
           [[RCONS, '__init__', {'configfile': 'CFG'}], [RCONS, 'run', {'do_plots': False, 'match_spec': False, 'consolidate_members': False, 'cattype': 'randoms_zmask'}]]]
    for lam in ([5.0], [5.0, 20.0], [20.0, 5.0, 50.0]):
        yield ['redmapper_weight_randoms.py', ['-c', 'CFG', '-r', 'r.fit', '-l'] + ['%g' % x for x in lam], [['redmapper', 'RandomWeigher', ['weight_randoms']]],
               [['RandomWeigher', '__init__', {'config': 'CFG', 'randfile': 'r.fit'}]] + [['RandomWeigher', 'weight_randoms', {'minlambda': x}] for x in lam]]
    for n in (1, 1000, 123456):
        yield ['redmapper_generate_randoms.py', ['-c', 'CFG', '-n', str(n)], [['redmapper', 'GenerateRandoms', ['generate_randoms']]], [['GenerateRandoms', '__init__', {'config': 'CFG'}], ['GenerateRandoms', 'generate_randoms', {'nrandoms': n}]]]
    yield ['redmapper_make_zred_bkg.py', ['-c', 'CFG'], [['redmapper', 'ZredBackgroundGenerator', ['run']]], [['ZredBackgroundGenerator', '__init__', {'config': 'CFG'}], ['ZredBackgroundGenerator', 'run', {}]]]
    yield ['redmapper_calibrate.py', ['-c', 'CFG'], [['redmapper.calibration', 'RedmapperCalibrator', ['run']]], [['RedmapperCalibrator', '__init__', {'configfile': 'CFG'}], ['RedmapperCalibrator', 'run', {}]]]
    for z, b in itertools.product((0, 1), (None, 1.5)):
        yield ['redmapper_predict_memory.py', ['-c', 'CFG'] + (['-n'] if z else []) + (['-b', '%g' % b] if b else []), [[P, 'MemPredict', ['predict_memory']]],
               [['MemPredict', '__init__', {'configfile': 'CFG'}], ['MemPredict', 'predict_memory', {'include_zreds': not z, 'border_factor': b or 2.0}]]]


def body(check):
    t = check.thorough
    import redmapper                                      # noqa
    # table pixels: neighbors in and across coarse pixels, the poles, the last pixel, numbers whose ring and nested readings differ
    pix = [8421, 8682, 8683, 0, 12 * 128 ** 2 - 1] + ([98304, 5000] if t else [])
    sets = [list(s) for k in range(1, len(pix) + 1) for s in itertools.combinations(pix, k)]
    cases = []
    for s in sets:
        cases += [[128, s, 1, 'lsf', None, {}], [128, s, 1, 'local', None, {}]]
        cases += [[128, s, m, b, n, {}] for m in ((0, 2) if not t else MODES) for b in ('lsf', 'local') for n in ((4, 64) if not t else (1, 2, 4, 16, 32, 64, 128))]
    for m in MODES:
        for b in ('lsf', 'local', 'image', 'slurm', 'two'):
            for n in (None, 2, 16, 128):
                for o in ({}, {'wall': 77}, {'relative': True}, {'nodes': 5}, {'second': 1}):
                    cases.append([128, pix[:4], m, b, n, o])
    for ns in (1, 2, 4, 8, 32):
        full = list(range(12 * ns * ns)) if ns < 8 else list(range(0, 12 * ns * ns, 7))
        cases += [[ns, full, 1, b, n, {}] for b in ('lsf', 'local') for n in (1, 2, 4, 8) if n <= ns]
        cases += [[ns, [p], 1, 'local', 1, {}] for p in full[:96]]
    check.run_cases(cases, run_batch, 'batch jobs', chunk=4)
    check.run_cases(['hpix', 'mode5', 'mode-1', 'no batch mode', 'pbs'], run_refuse, 'refused', chunk=1)
    ops = [('tst', 1, 'lsf'), ('tst', 0, 'lsf'), ('tst', 1, 'local'), ('tst_run', 1, 'lsf'), ('rm', 0)]
    hist = [list(h) for k in range(1, 5 if t else 4) for h in itertools.product(ops, repeat=k)]
    hist += [[o] * n for o in ops[:3] for n in (9, 10, 11, 12)] + [[ops[0]] * a + [ops[4]] + [ops[0]] * 2 for a in (2, 9, 10)]
    check.run_cases(hist, run_history, 'submissions one after the other', chunk=2)
    check.run_cases([[m, p] for m in MODES for p in (False, True)], run_maskgals, 'mask galaxies', chunk=1)
    rows = [[[8421, 5], [8682, 7]], [[8421, 5]], [[8421, 5], [8682, 7], [8683, 100], [0, 106]], [[0, 3], [1, 3], [2, 3], [3, 3], [4, 11]], [[12 * 128 ** 2 - 1, 9], [12 * 128 ** 2 - 2, 9], [5, 17]]]
    mem = [[128, r, a, b, f] for r in rows for a in (0, 1) for b in (0, 1) for f in (2.0, 1.0, 1.5)]
    mem += [[ns, [[p, g] for p, g in zip(ps, gs)], 0, 1, 2.0] for ns in (2, 4, 8) for k in (1, 2, 3) for ps in itertools.combinations((0, 1, 5, 12 * ns * ns - 1, 6 * ns * ns), k) for gs in itertools.product((2, 5), repeat=k)]
    check.run_cases(mem, run_memory, 'memory', chunk=4)
    check.run_cases(list(scripts()), run_script, 'scripts', chunk=1)
    node = [[list(p), f] for k in (1, 2, 3) for p in itertools.permutations((3, 12, 570), k) for f in ('none', 12)]
    check.run_cases(node, run_node, 'several pixels on a node', chunk=1)


if __name__ == '__main__':
    core.main('C29', 'exploration',
              'all combinations of populated pixels of a small table, run modes, batch systems and resolutions; all histories of up to three submissions and removals and long chains; every command of every job is executed '
              'against recording tasks; all argument combinations of the scripts', body)
