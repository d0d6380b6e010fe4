#!/usr/bin/env python3
"""mkseed.py [id ...] [--test]: writes /verif/seeded/<id>/ from the definitions in tools/seeds/s*.py, and confirms each one in a
scratch copy of /repo: it applies, changes a line of the original repository, compiles, the demonstration passes without and fails
with it, the unit tests pass with it (--test); then reports what the property's check says about it.

A definition is {id: dict(prop=, edits=[(file, old, new)], demo=python text, needs=, breaks=)}."""
import glob
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(HERE, '..', 'seeded')
BASE = '0029464'


def sh(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


def one(sid, d, test, check):
    res = []
    t = tempfile.mkdtemp(prefix='seed')
    try:
        w = t + '/repo'
        sh(['git', 'clone', '-q', '/repo', w])
        for f, old, new in d['edits']:
            p = w + '/src/deep/' + f
            s = open(p).read()
            if s.count(old) != 1:
                return sid, ['EDIT MATCHES %d TIMES in %s' % (s.count(old), f)]
            s = s.replace(old, new)
            compile(s, p, 'exec')
            open(p, 'w').write(s)
        diff = sh(['git', '-C', w, 'diff']).stdout
        o = os.path.join(OUT, sid)
        os.makedirs(o, exist_ok=True)
        open(o + '/patch.diff', 'w').write(diff)
        shutil.copy(HERE + '/seeds/rig.py', o + '/rig.py')
        open(o + '/demo.py', 'w').write(d['demo'].lstrip('\n'))
        open(o + '/demo.sh', 'w').write('#!/bin/bash\n# cwd: the repository\nexport PYTHONDONTWRITEBYTECODE=1\nexec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(o + '/demo.sh', 0o755)
        json.dump({'property': d['prop'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(o + '/meta.json', 'w'), indent=1)
        # original lines changed?
        orig = 0
        for f, old, new in d['edits']:
            bl = sh(['git', '-C', '/repo', 'blame', '-s', '--abbrev=39', 'HEAD', '--', 'src/deep/' + f]).stdout.splitlines()
            txt = open('/repo/src/deep/' + f).read().splitlines()
            base = {txt[i] for i, ln in enumerate(bl) if ln.startswith('^')}
            orig += sum(1 for ln in diff.splitlines() if ln.startswith('-') and not ln.startswith('---') and ln[1:] in base and ln[1:].strip())
        if not orig:
            res.append('NO ORIGINAL LINE')
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
        env.pop('PYTHONPATH', None)
        r = sh(['bash', o + '/demo.sh'], cwd='/repo', env=env)
        if r.returncode:
            res.append('DEMO FAILS UNCHANGED: ' + (r.stdout + r.stderr)[-800:])
        r = sh(['bash', o + '/demo.sh'], cwd=w, env=env)
        if not r.returncode:
            res.append('DEMO PASSES WITH PATCH')
        else:
            res.append('demo: ' + (r.stdout + r.stderr).strip().splitlines()[-1][:150])
        if test:
            r = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=100', 'tests/unit_tests'], cwd=w, env=env)
            if r.returncode:
                res.append('TESTS FAIL: ' + ' '.join(ln for ln in r.stdout.splitlines() if ln.startswith('FAILED'))[:400])
            r = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=100', 'tests/it_tests'], cwd=w, env=env)
            if r.returncode:
                res.append('IT TESTS FAIL: ' + ' '.join(ln for ln in r.stdout.splitlines() if ln.startswith('FAILED'))[:400])
        if check:
            r = sh([sys.executable, HERE + '/../check.py', d['prop']], env=dict(os.environ, VERIF_REPO=w, VERIF_FIRST='1'))
            rules = sorted({ln.split()[1].rstrip(':') for ln in r.stdout.splitlines() if ln.startswith('  rule ')})
            res.append(('caught ' if r.returncode == 1 else 'MISSED rc=%d ' % r.returncode) + ' '.join(rules))
    finally:
        shutil.rmtree(t, ignore_errors=True)
    return sid, res


def main():
    want = [a for a in sys.argv[1:] if not a.startswith('--')]
    defs = {}
    for f in sorted(glob.glob(HERE + '/seeds/s*.py')):
        spec = importlib.util.spec_from_file_location('s', f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        defs.update(m.SEEDS)
    todo = [s for s in defs if not want or any(s.startswith(x) for x in want)]
    with ThreadPoolExecutor(1) as ex:
        for sid, res in ex.map(lambda s: one(s, defs[s], '--test' in sys.argv, '--nocheck' not in sys.argv), todo):
            print(sid)
            for r in res:
                print('   ', r, flush=True)


main()
