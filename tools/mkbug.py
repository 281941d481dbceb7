"""Create and validate a planted bug from a spec file: python3 tools/mkbug.py spec.py [--notest]
spec defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source; exit code by assertion)."""
import json
import os
import shutil
import subprocess
import sys

spec = {}
exec(open(sys.argv[1]).read(), spec)
ID = spec['ID']
BASE = os.environ.get('BUG_REPO', '/repo')
HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = HOME + '/seeded/' + ID
wt = '/tmp/bug_' + ID
shutil.rmtree(wt, ignore_errors=True)
subprocess.check_call(['git', 'clone', '-q', BASE, wt])
try:
    for fn, old, new in spec['EDITS']:
        p = os.path.join(wt, fn)
        s = open(p).read()
        assert s.count(old) == 1, (fn, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', wt, 'diff'], text=True)
    for fn, old, new in spec['EDITS']:
        orig = subprocess.check_output(['git', '-C', wt, 'show', 'e138e3f:' + fn], text=True).splitlines()
        for line in [x[1:] for x in diff.splitlines() if x.startswith('-') and not x.startswith('---')]:
            if line.strip() and line not in orig and len(spec['EDITS']) == 1:
                print('   not an original line:', line.strip())
    os.makedirs(out, exist_ok=True)
    open(out + '/patch.diff', 'w').write(diff)
    open(out + '/demo.py', 'w').write(spec['DEMO'])
    open(out + '/demo.sh', 'w').write('''#!/bin/bash
# cwd: the repository; exit 0 when the property holds
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
WORK=$(mktemp -d) || exit 1
trap 'rm -rf "$WORK"' EXIT
export PYTHONPATH="$PWD/python" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 REPO_DIR="$PWD"
mkdir "$WORK/tmp" "$WORK/home" "$WORK/mpl" "$WORK/cwd"
export TMPDIR="$WORK/tmp" HOME="$WORK/home" XDG_CACHE_HOME="$WORK/cache" MPLCONFIGDIR="$WORK/mpl"
cd "$WORK/cwd" && /opt/venv/bin/python -W ignore "$HERE/demo.py"
''')
    json.dump(dict(property=spec['PROPERTY'], needs=spec['NEEDS'], what_it_breaks=spec['BREAKS']),
              open(out + '/meta.json', 'w'), indent=1)
    a = subprocess.run(['bash', out + '/demo.sh'], cwd=BASE, capture_output=True, text=True)
    b = subprocess.run(['bash', out + '/demo.sh'], cwd=wt, capture_output=True, text=True)
    print('%s demo clean=%d bug=%d' % (ID, a.returncode, b.returncode))
    if a.returncode:
        print(a.stdout[-1500:], a.stderr[-1500:])
    if '-v' in sys.argv:
        print(b.stdout[-800:], b.stderr[-800:])
    ok = a.returncode == 0 and b.returncode != 0
    if '--notest' not in sys.argv:
        env = dict(os.environ, PYTHONPATH=wt + '/python', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OMP_NUM_THREADS='1',
                   MPLCONFIGDIR=wt + '/.mpl', XDG_CACHE_HOME=wt + '/.xdg', PYTHONHASHSEED='0', TMPDIR=wt + '/.tmp',
                   OPENBLAS_NUM_THREADS='1', PATH='/opt/venv/bin:' + os.environ['PATH'])
        os.makedirs(wt + '/.tmp')
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'getdist/tests', '-rf',
                            '--deselect', 'getdist/tests/getdist_test.py::CobayaTest'],
                           cwd=wt + '/python', env=env, capture_output=True, text=True)
        failed = {line.split('::')[-1].split(' ')[0] for line in r.stdout.splitlines() if line.startswith('FAILED')}
        known = {'testLimits', 'testLoads', 'testDensitySymmetries'}
        print('   tests: extra failures', failed - known, r.stdout.strip().splitlines()[-1])
        ok = ok and not (failed - known)
    env = dict(os.environ, MC_REPO=wt)
    c = subprocess.run(['bash', HOME + '/run.sh', spec['PROPERTY']], env=env, capture_output=True, text=True)
    caught = 'VIOLATION property=%s' % spec['PROPERTY'] in c.stdout and c.returncode == 1
    print('   check %s: exit %d caught=%s' % (spec['PROPERTY'], c.returncode, caught))
    if '-v' in sys.argv or not caught:
        print(c.stdout[-1500:])
    print('   ', 'KEEP' if ok else 'INVALID')
    if not ok:
        shutil.rmtree(out)
finally:
    shutil.rmtree(wt, ignore_errors=True)
