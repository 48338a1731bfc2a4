#!/usr/bin/env python3
"""Runs, for each planted bug of seeded/ (or those named), the quick check of its property on a scratch copy of
/repo's sources with the patch applied.  Prints CAUGHT or MISSED.  Usage: catch.py [-j N] [--tier T] [--seed N] [ID...]"""
import os, sys, json, subprocess, shutil, tempfile, concurrent.futures as cf, argparse
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser(); ap.add_argument('-j', type=int, default=6); ap.add_argument('--tier', default='quick'); ap.add_argument('--seed', default='1'); ap.add_argument('ids', nargs='*')
a = ap.parse_args()
ids = a.ids or sorted(os.listdir(os.path.join(ROOT, 'seeded')))
def one(i):
    d = os.path.join(ROOT, 'seeded', i)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    w = tempfile.mkdtemp(prefix='catch_')
    try:
        subprocess.run('mkdir %s/v && cp -a /repo/include /repo/src %s/ && cp -a %s/harness %s/check.py %s/MANIFEST.json %s/known_findings.txt %s/v/ && '
                       'cd %s && git init -q . && git apply %s/patch.diff' % (w, w, ROOT, ROOT, ROOT, ROOT, w, w, d), shell=True, check=True)
        env = dict(os.environ, VERIF_REPO=w, VERIF_SEED=a.seed, VERIF_TIER=a.tier)
        r = subprocess.run([sys.executable, os.path.join(w, 'v', 'check.py'), prop, '--tier', a.tier, '--seed', a.seed], env=env, capture_output=True, text=True)
        hit = r.returncode == 1 and 'VIOLATION property=%s ' % prop in r.stdout
        return i, prop, 'CAUGHT' if hit else 'MISSED', (r.stdout + r.stderr)[-1500:]
    finally:
        shutil.rmtree(w, ignore_errors=True)
with cf.ThreadPoolExecutor(a.j) as ex:
    bad = 0
    for i, p, v, out in ex.map(one, ids):
        print(i, p, v, flush=True)
        if v == 'MISSED':
            bad += 1
            print('   ', out.replace('\n', '\n    ')[-700:], flush=True)
print('missed', bad, 'of', len(ids))
