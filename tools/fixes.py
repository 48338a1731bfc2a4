#!/usr/bin/env python3
"""Undoes each repair listed in known_findings.txt in a scratch copy and runs the check of its property there, which
must report it.  A revert that does not apply, or that other repairs build on, is reported as such.  fixes.py [HASH...]"""
import os, re, sys, subprocess, shutil, tempfile, concurrent.futures as cf
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = [re.match(r'fixed: property=(C\d\d) (\w+) (.*)', l).groups() for l in open(ROOT + '/known_findings.txt') if l.startswith('fixed:')]
if sys.argv[1:]: L = [x for x in L if x[1][:7] in [y[:7] for y in sys.argv[1:]]]
def one(x):
    p, h, what = x
    w = tempfile.mkdtemp(prefix='fixes_')
    try:
        subprocess.run('git clone -q /repo %s/r && mkdir %s/v && cp -a %s/harness %s/check.py %s/MANIFEST.json %s/known_findings.txt %s/v/' % (w, w, ROOT, ROOT, ROOT, ROOT, w), shell=True, check=True)
        r = subprocess.run('git -c user.name=x -c user.email=x revert -n %s' % h, shell=True, cwd=w + '/r', capture_output=True, text=True)
        if r.returncode: return x, 'CONFLICT', ''
        r = subprocess.run([sys.executable, w + '/v/check.py', p, '--tier', 'quick', '--seed', '1'], env=dict(os.environ, VERIF_REPO=w + '/r'), capture_output=True, text=True)
        return x, ('REPORTED' if r.returncode == 1 and 'VIOLATION property=' + p in r.stdout else 'MISSED' if r.returncode == 0 else 'NO ANSWER'), (r.stdout + r.stderr)[-400:]
    finally: shutil.rmtree(w, ignore_errors=True)
with cf.ThreadPoolExecutor(3) as ex:
    for x, v, o in ex.map(one, L): print(v, *x, '' if v in ('REPORTED', 'CONFLICT') else '\n' + o, flush=True)
