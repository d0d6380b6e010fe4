#!/usr/bin/env python3
"""mutate.py [Cxx ...] [--only substring]: runs the checks on edited copies of /repo/src.

mutants/cXX.py has M = [(name, file, old, new[, 'quiet'])]: with 'quiet' the edit keeps the behaviour. This is a development tool,
no check reads its files."""
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')


def main():
    props = [a for a in sys.argv[1:] if a.startswith('C')]
    only = sys.argv[sys.argv.index('--only') + 1] if '--only' in sys.argv else None
    if not props:
        props = sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, 'mutants')) if f.endswith('.py'))
    bad = 0
    for p in props:
        spec = importlib.util.spec_from_file_location('m', os.path.join(HERE, 'mutants', p.lower() + '.py'))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for t in m.M:
            name, f, old, new = t[:4]
            quiet = 'quiet' in t[4:]
            checks = [x for x in t[4:] if x.startswith('C')] or [p]
            if only and only not in name:
                continue
            d = tempfile.mkdtemp(prefix='mut')
            try:
                shutil.copytree('/repo/src', d + '/src')
                path = d + '/src/deep/' + f
                s = open(path).read()
                olds = old if isinstance(old, list) else [old]
                news = new if isinstance(new, list) else [new]
                if any(o not in s for o in olds):
                    print('%s %-50s NO MATCH' % (p, name), flush=True)
                    bad += 1
                    continue
                for o, n in zip(olds, news):
                    s = s.replace(o, n)
                compile(s, path, 'exec')
                open(path, 'w').write(s)
                for c in checks:
                    env = dict(os.environ, VERIF_REPO=d, VERIF_FIRST='1', VERIF_DEADLINE='200')
                    r = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), c], env=env, capture_output=True, text=True)
                    ok = (r.returncode == 0) if quiet else (r.returncode == 1)
                    rules = sorted({ln.split()[1].rstrip(':') for ln in r.stdout.splitlines() if ln.startswith('  rule ')})
                    bad += not ok
                    print('%s %-50s %-8s rc=%d %s' % (c, name, ('ok' if ok else 'ALARM' if quiet else 'MISSED'), r.returncode, ' '.join(rules)), flush=True)
                    if r.returncode not in (0, 1):
                        print(r.stdout[-600:], r.stderr[-600:])
                    if not ok and os.environ.get('VERIF_VERBOSE'):
                        print(r.stdout[-3000:], r.stderr[-600:])
            finally:
                shutil.rmtree(d)
    print('%d unexpected' % bad)


main()
