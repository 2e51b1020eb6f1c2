#!/usr/bin/env python3
"""Build /verif/seeded/<id>/ from the definitions in bugs_*.py: apply the replacement in a scratch copy, run the stable
tests and the demonstration there, and keep the change if everything is as required.
usage: plant.py [ID...]"""
import glob
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(HERE, '..', '..', 'seeded')
BUGS = {}
for path in sorted(glob.glob(HERE + '/bugs_*.py')):
    spec = importlib.util.spec_from_file_location('b', path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    for b in m.BUGS:
        assert b['id'] not in BUGS, b['id']
        BUGS[b['id']] = b


def sh(cmd, cwd, env=None):
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True)


def main():
    ids = sys.argv[1:] or list(BUGS)
    work = tempfile.mkdtemp(prefix='plant')
    clean, bad = work + '/clean/repo', work + '/bad/repo'
    for d in (clean, bad):
        os.makedirs(os.path.dirname(d))
        subprocess.run(['git', 'clone', '-q', '/repo', d], check=True)
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for i in ids:
        b = BUGS[i]
        subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=bad, check=True)
        ok = True
        for file, old, new in b['edits']:
            p = os.path.join(bad, file)
            s = open(p).read()
            if s.count(old) != 1:
                print(i, 'OLD TEXT occurs', s.count(old), 'times:', old[:60]); ok = False; break
            open(p, 'w').write(s.replace(old, new))
        if not ok:
            continue
        diff = sh(['git', 'diff'], bad).stdout
        # some removed line is an original one
        blame_ok = False
        cur = None
        for line in diff.splitlines():
            if line.startswith('--- a/'):
                cur = line[6:]
            m = re.match(r'@@ -(\d+)', line)
            if m:
                n = int(m.group(1)) - 1
            elif line.startswith('-') and not line.startswith('---'):
                n += 1
                bl = sh(['git', 'blame', '-s', '-L', '%d,%d' % (n, n), 'HEAD', '--', cur], bad).stdout
                if bl.lstrip('^').startswith('9ee5493'):
                    blame_ok = True
            elif line.startswith(' '):
                n += 1
        d = tempfile.mkdtemp(prefix='demo', dir=work)
        shutil.copy(HERE + '/demo.sh', d)
        shutil.copy(HERE + '/demolib.py', d)
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.py', 'w').write('from demolib import *\n' + b['demo'].strip('\n') + '\ndone()\n')
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', PYTHONHASHSEED='0',
                   QT_QPA_PLATFORM='offscreen', PYTHONPATH=bad, OMP_NUM_THREADS='1')
        r = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--continue-on-collection-errors',
                '-rA', 'tests'], bad, env)
        passed = set()
        for line in r.stdout.splitlines():
            m = re.match(r'PASSED tests/(\w+)\.py::(\w+)::(\w+)', line)
            if m:
                passed.add('tests.%s.%s::%s' % m.groups())
            m = re.match(r'PASSED tests/(\w+)\.py::(\w+)$', line)
            if m:
                passed.add('tests.%s::%s' % m.groups())
        missing = stable - passed
        good = sh(['bash', d + '/demo.sh'], clean)
        broken = sh(['bash', d + '/demo.sh'], bad)
        fine = not missing and good.returncode == 0 and broken.returncode != 0 and blame_ok
        print(i, b['property'], 'KEPT' if fine else 'NOT KEPT', 'tests missing: %s' % sorted(missing)[:2] if missing else '',
              'clean=%d bad=%d original=%s' % (good.returncode, broken.returncode, blame_ok),
              (good.stdout + good.stderr)[-600:] if good.returncode else '',
              broken.stdout.strip()[-200:] if fine else broken.stdout[-300:] + broken.stderr[-300:])
        if fine:
            out = os.path.join(SEEDED, i)
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            for f in ('demo.sh', 'demo.py', 'demolib.py'):
                shutil.copy(os.path.join(d, f), out)
            open(out + '/patch.diff', 'w').write(diff)
            json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']),
                      open(out + '/meta.json', 'w'), indent=1)
    shutil.rmtree(work)


main()
