"""Make and test planted bugs.  usage: seedlib.py test ID...   (each in its own scratch copy of /repo)"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def copy_repo():
    d = tempfile.mkdtemp(prefix='seedrepo_', dir='/tmp')
    subprocess.check_call(['cp', '-a', os.environ.get('VERIF_REPO', '/repo'), d + '/repo'])
    return d, d + '/repo'


def mk(id, prop, edits, demo, needs, breaks):
    d, r = copy_repo()
    try:
        for f, old, new in edits:
            p = os.path.join(r, f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', 'diff'], cwd=r, text=True)
        out = os.path.join(HOME, 'seeded', id)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        open(os.path.join(out, 'demo.py'), 'w').write(demo)
        with open(os.path.join(out, 'demo.sh'), 'w') as fh:
            fh.write('#!/bin/bash\n# run with cwd = the repository, after the build\n'
                     'export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1\n'
                     'd="$(cd "$(dirname "$0")" && pwd)"\n'
                     't="$(mktemp -d)"; export TMPDIR="$t"\ntrap \'rm -rf "$t"\' EXIT\n'
                     'export PYTHONPATH="$PWD" REPO="$PWD"\ncd "$t"\n/opt/venv/bin/python -W ignore "$d/demo.py"\n')
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
    finally:
        shutil.rmtree(d)


def test(id, check=True, tests=True):
    sd = os.path.join(HOME, 'seeded', id)
    meta = json.load(open(os.path.join(sd, 'meta.json')))
    d, r = copy_repo()
    res = {}
    try:
        def build():
            env = dict(os.environ, SETUPTOOLS_SCM_PRETEND_VERSION='1.0.0')
            subprocess.run([PY, 'setup.py', '-q', 'build_ext', '--inplace', '--force'], cwd=r, env=env, check=True,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        build()
        x = subprocess.run(['bash', sd + '/demo.sh'], cwd=r, capture_output=True, text=True)
        res['demo_clean'] = x.returncode
        if x.returncode:
            res['out'] = (x.stdout + x.stderr)[-1500:]
        subprocess.check_call(['git', 'apply', sd + '/patch.diff'], cwd=r)
        build()
        x = subprocess.run(['bash', sd + '/demo.sh'], cwd=r, capture_output=True, text=True)
        res['demo_bug'] = x.returncode
        res['demo_msg'] = (x.stdout + x.stderr).strip().splitlines()[-1:]
        if tests:
            base = json.load(open('/opt/vp/BASELINE.json'))['stable']
            env = dict(os.environ, PYTHONPATH=r, MPLBACKEND='Agg', OMP_NUM_THREADS='1')
            subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-n', '4', '--timeout=300', '--tb=no',
                            '-o', 'junit_family=xunit2', '--junitxml=' + d + '/j.xml'], cwd=r + '/tests', env=env, capture_output=True)
            import xml.etree.ElementTree as ET
            ok = set()
            for tc in ET.parse(d + '/j.xml').iter('testcase'):
                if not any(c.tag in ('failure', 'error', 'skipped') for c in tc):
                    n = tc.get('classname') + '::' + tc.get('name')
                    ok.update((n, 'tests.' + n))
            res['tests_broken'] = [t for t in base if t not in ok][:4]
        if check:
            cid = meta['property'].lower()
            env = dict(os.environ, VERIF_REPO=r)
            x = subprocess.run(['bash', HOME + '/run.sh', cid, 'quick'], cwd=HOME, env=env, capture_output=True, text=True)
            res['check'] = x.returncode
            res['check_out'] = [l[:220] for l in x.stdout.splitlines() if l.startswith('  ')][:1] or x.stderr[-300:]
    finally:
        shutil.rmtree(d)
    good = res['demo_clean'] == 0 and res['demo_bug'] != 0 and not res.get('tests_broken')
    return id, meta['property'], 'VALID' if good else 'INVALID', 'CAUGHT' if res.get('check') == 1 else ('-' if not check else 'MISSED'), res


if __name__ == '__main__':
    ids = sys.argv[2:] or sorted(os.listdir(os.path.join(HOME, 'seeded')))
    for i in ids:
        print(*test(i, check='nocheck' not in sys.argv[1], tests='notests' not in sys.argv[1]), flush=True)
