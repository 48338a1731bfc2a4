#!/usr/bin/env python3
"""Writes and verifies the planted bugs of seeded/ (see DESIGN.md).  Usage: seed.py make | verify [ID...]
The bugs are described in tools/bugs.py.  verify works in a scratch copy of /repo; it needs nothing of /verif's checks."""
import os, re, subprocess, sys, json, shutil, tempfile
SRC = os.environ.get('SEED_REPO', '/repo')  # the tree whose HEAD the patches are against
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from bugs import BUGS, PRELUDE

DEMO = '''#!/bin/bash
# Run with cwd /repo after its build: exit 0 if the behaviour is right.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
g++ -std=gnu++20 -O1 -include cstdint -include algorithm -I include "$d/demo.cpp" -L bin -lDataframe -pthread "-Wl,-rpath,$PWD/bin" -o "$t/demo" || exit 2
timeout 120 "$t/demo"
'''

DEMO_FILES = DEMO.replace('"$d/demo.cpp"', '"$d"/*.cpp').replace('exit 2', 'exit 1')

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)

def make():
    out = os.path.join(ROOT, 'seeded')
    base = sh('git -C ' + SRC + ' rev-list --max-parents=0 HEAD').stdout.strip()
    for b in BUGS:
        d = os.path.join(out, b['id'])
        os.makedirs(d, exist_ok=True)
        with tempfile.TemporaryDirectory() as t:
            sh('git init -q . && mkdir x', cwd=t)
            for f in {e[0] for e in b['edits']}:
                os.makedirs(os.path.join(t, os.path.dirname(f)), exist_ok=True)
                shutil.copy(os.path.join(SRC, f), os.path.join(t, f))
            sh('git add -A && git -c user.name=x -c user.email=x commit -qm x', cwd=t)
            for f, old, new in b['edits']:
                p = os.path.join(t, f)
                s = open(p).read()
                if s.count(old) != 1:  # blank and comment lines of the source may be left out in the description
                    pat = r'\n(?:[ \t]*(?://.*)?\n)*'.join(re.escape(x) for x in old.split('\n'))
                    m = re.findall(pat, s)
                    assert len(m) == 1, (b['id'], f, len(m), old)
                    old = m[0]
                open(p, 'w').write(s.replace(old, new))
                orig = sh('git -C ' + SRC + ' show %s:%s' % (base, f)).stdout
                lines = [l for l in old.split('\n') if l.strip() and l not in new.split('\n')]
                if not any(l in orig for l in lines):
                    print(b['id'], 'WARNING: changes no original line')
            diff = sh('git diff', cwd=t).stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_FILES if b['more'] else DEMO)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        open(os.path.join(d, 'demo.cpp'), 'w').write(PRELUDE.replace('@INC@', '\n'.join(['#include <dataframe/%s>' % i for i in b['inc']] + ['#include <atomic>', '#include <thread>'] * ('std::atomic' in b['demo']))) .replace('@PRE@', b['pre']).replace('@BODY@', b['demo'].strip('\n')))
        for f, t in b['more'].items():
            open(os.path.join(d, f), 'w').write(t)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)

def verify(ids):
    w = '/tmp/seedcopy'
    shutil.rmtree(w, ignore_errors=True)
    sh('cp -a %s %s' % (SRC, w))
    ok = True
    def build():
        r = sh('cmake --build _b 2>&1 | tail -40', cwd=w)
        return r
    flags = '-include cstdint -include algorithm'
    sh('rm -rf _b && cmake -S . -B _b -G Ninja -DCMAKE_BUILD_TYPE=Release "-DCMAKE_CXX_FLAGS=%s"' % flags, cwd=w)
    print(build().stdout[-300:])
    try:
        for b in BUGS:
            if ids and b['id'] not in ids:
                continue
            d = os.path.join(ROOT, 'seeded', b['id'])
            clean = sh('bash %s/demo.sh' % d, cwd=w)
            r = sh('git apply %s/patch.diff' % d, cwd=w)
            bl = build()
            tests = sh('ctest --test-dir _b -j8 2>&1 | tail -60', cwd=w)
            bad = sh('bash %s/demo.sh' % d, cwd=w)
            sh('git checkout -- .', cwd=w)
            fine = clean.returncode == 0 and r.returncode == 0 and 'FAILED' not in bl.stdout and bad.returncode not in (0, 2) and '100% tests passed' in tests.stdout
            ok &= fine
            print(b['id'], 'OK' if fine else 'BROKEN', 'clean', clean.returncode, 'patched', bad.returncode, '' if fine else (clean.stdout + clean.stderr + r.stderr + bl.stdout[-600:] + tests.stdout[-600:] + bad.stdout + bad.stderr)[-2500:], flush=True)
            build()
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return ok

if __name__ == '__main__':
    if sys.argv[1] == 'make': make()
    else: sys.exit(0 if verify(sys.argv[2:]) else 1)
