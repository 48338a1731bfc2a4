#!/usr/bin/env python3
"""Mutation campaign: small edits of /repo's sources, judged by the checks of the properties anchored there.
Works in scratch copies under /tmp/mutc.  Survivors go to the report for review (equivalent, caught by the
repository's tests only, or a weakness of a check).
  mutate.py [--files REGEX] [--sample F] [--seed N] [--workers K] --report FILE"""
import os, re, sys, json, glob, random, shutil, subprocess, argparse, threading, queue
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument('--files', default='.'); ap.add_argument('--sample', type=float, default=1.0); ap.add_argument('--seed', type=int, default=1)
ap.add_argument('--workers', type=int, default=4); ap.add_argument('--report', required=True); ap.add_argument('--list', action='store_true')
ap.add_argument('--skip', default='')  # report of an earlier run: those mutants are not run again
ap.add_argument('--redo', default='')  # runs the survivors of an earlier report again, and nothing else
ap.add_argument('--family', default='usual')  # thresholds: loops that stop early, but only for large counts or item sizes
a = ap.parse_args()
W = os.environ.get('MUTDIR', '/tmp/mutc')
props = [json.loads(l) for l in open(ROOT + '/properties.jsonl')]
EXTRA = {'include/dataframe/utils/inferring.h': ['C03', 'C06'], 'include/dataframe/utils/utils.h': ['C01', 'C27'], 'include/dataframe/utils.h': ['C03', 'C27', 'C01'],
         'include/dataframe/functional/macros.h': ['C06', 'C10', 'C16', 'C12'], 'include/dataframe/utils/nameOfSerie.h': ['C25'],
         'include/dataframe/types.h': ['C29', 'C01'], 'src/functional/math/weightedSum.cxx': ['C10'], 'src/attributes/Valence.cxx': ['C20', 'C26']}
def checks_of(f):
    exact = [p['id'] for p in props if f in p['anchors']['files']]
    base = [p['id'] for p in props if any(os.path.basename(f).split('.')[0] == os.path.basename(x).split('.')[0] for x in p['anchors']['files'])]
    dirs = [p['id'] for p in props if any(f.startswith(x.rstrip('/') + '/') for x in p['anchors']['files'])]
    out = []
    for c in EXTRA.get(f, []) + exact + base + dirs:
        if c not in out: out.append(c)
    return [c for c in out if c != 'C31']  # made by a script

def strip(lines):
    """Marks code lines (no comments, no preprocessor)."""
    code, inc = [], False
    for l in lines:
        t = l
        if inc:
            if '*/' in t: t = t.split('*/', 1)[1]; inc = False
            else: code.append(''); continue
        t = re.sub(r'/\*.*?\*/', '', t)
        if '/*' in t: t = t.split('/*')[0]; inc = True
        t = t.split('//')[0]
        if t.lstrip().startswith('#'): t = ''
        code.append(t)
    return code

def mutants_of(f):
    lines = open('/repo/' + f).read().split('\n')
    code = strip(lines)
    out = []
    def put(i, new, what):
        if new != lines[i]: out.append((f, i, lines[i], new, what))
    for i, t in enumerate(code):
        s = t.strip()
        if a.family == 'thresholds':
            m = re.match(r'^(\s*for \([\w:]+ (\w+) = \w+; \2 < )([^;]+)(;.*)$', t)
            if m:
                for T in (24, 4097, 65535) if m[2] not in 'jk' else (9, 24):
                    put(i, '%s%s && %s < %d%s' % (m[1], m[3], m[2], T, m[4]), 'loop stops at %d' % T)
            continue
        if not s or s.startswith(('using ', 'namespace', 'template', 'struct', 'class', 'static_assert', 'return_type')) : continue
        quoted = '"' in s
        if 'to_string' in s: continue
        body = t
        def sub(pat, rep, what):
            if quoted and pat not in QOK: return
            for m in re.finditer(pat, body):
                put(i, body[:m.start()] + m.expand(rep) + body[m.end():], what)
        QOK = ()
        if not re.search(r'\b(include|template|typename|enable_if|std::is_|decltype|operator<|friend)\b', s):
            sub(r' < ', ' <= ', '< to <='); sub(r' <= ', ' < ', '<= to <'); sub(r' > ', ' >= ', '> to >='); sub(r' >= ', ' > ', '>= to >')
            sub(r' == ', ' != ', '== to !='); sub(r' != ', ' == ', '!= to ==')
            sub(r' && ', ' || ', '&& to ||'); sub(r' \|\| ', ' && ', '|| to &&')
            sub(r' \+ ', ' - ', '+ to -'); sub(r' - ', ' + ', '- to +'); sub(r' \* (?![=&])', ' / ', '* to /'); sub(r' / ', ' * ', '/ to *'); sub(r' % ', ' / ', '% to /')
            sub(r' \+= ', ' -= ', '+= to -='); sub(r' \+= ', ' = ', '+= to ='); sub(r' -= ', ' += ', '-= to +='); sub(r' \*= ', ' /= ', '*= to /='); sub(r' /= ', ' *= ', '/= to *=')
            sub(r'(?<![\w.\[:])0(?![\w.])', '1', '0 to 1'); sub(r'(?<![\w.<])1(?![\w.])', '2', '1 to 2'); sub(r'(?<![\w.<])1(?![\w.])', '0', '1 to 0')
            sub(r'\[0\]', '[1]', '[0] to [1]'); sub(r'\[1\]', '[0]', '[1] to [0]'); sub(r'\[2\]', '[1]', '[2] to [1]')
            sub(r'\[(\d)\]', lambda_rep, '[k] to [k+1]') if False else None
            sub(r'(?<![\w.<])([2-9])(?![\w.>])', '(\\1 + 1)', 'k to k+1')
            sub(r'\[i\]', '[0]', '[i] to [0]'); sub(r'\[j\]', '[0]', '[j] to [0]'); sub(r'\(i\)', '(0)', '(i) to (0)')
            sub(r'\bi\b', 'j', 'i to j'); sub(r'\bj\b', 'i', 'j to i'); sub(r'\bk\b', 'j', 'k to j')
            sub(r'std::min\b', 'std::max', 'min to max'); sub(r'std::max\b', 'std::min', 'max to min')
            sub(r'std::floor', 'std::trunc', 'floor to trunc'); sub(r'std::abs', '', 'no abs'); sub(r'std::sqrt', '', 'no sqrt')
            sub(r'\bdouble (?=\w+ =)', 'float ', 'double to float'); sub(r'\buint32_t (?=\w+ =)', 'uint8_t ', 'uint32 to uint8'); sub(r'\buint (?=\w+ =)', 'uint8_t ', 'uint to uint8')
            sub(r'\bs1\b', 's2', 's1 to s2'); sub(r'\bs2\b', 's1', 's2 to s1')
            sub(r'\btrue\b', 'false', 'true to false'); sub(r'\bfalse\b', 'true', 'false to true')
            sub(r'\bcount\(\)', 'itemSize()', 'count to itemSize'); sub(r'\bitemSize\(\)', 'count()', 'itemSize to count'); sub(r'\bdimension\(\)', 'itemSize()', 'dimension to itemSize')
            sub(r'\.count\(\)', '.count() - 1', 'count - 1'); sub(r'\.size\(\)', '.size() - 1', 'size - 1'); sub(r'begin\(\)', 'begin() + 1', 'begin + 1')
        m = re.match(r'^(\s*(?:\} else )?if (?:constexpr )?)\((.*)\) \{$', t)
        if m and 'constexpr' not in t:
            put(i, m[1] + '(!(' + m[2] + ')) {', 'negate if'); put(i, m[1] + '(false) {', 'if false'); put(i, m[1] + '(true) {', 'if true')
        if re.match(r'^\s+[\w\]\[\.\(\)>:+\-*/ ]+(=|\(|\+\+|--).*;$', t) and not re.match(r'^\s*(return|throw|const|auto|double|uint|uint32_t|int|bool|Serie|Series|Array|static|std::vector|for|struct|String|Strings|float|size_t|Tuple)\b', t):
            put(i, re.match(r'^\s*', t)[0] + ';', 'delete statement')
        if s.startswith('throw ') and s.endswith(';'): put(i, re.match(r'^\s*', t)[0] + ';', 'delete throw')
        if s in ('break;', 'continue;'): put(i, re.match(r'^\s*', t)[0] + ';', 'delete ' + s)
    seen, uniq = set(), []
    for m in out:
        if (m[1], m[3]) not in seen: seen.add((m[1], m[3])); uniq.append(m)
    return uniq

files = sorted(f for f in subprocess.run("cd /repo && git ls-files include src | grep -E '\\.(h|hxx|cxx)$'", shell=True, capture_output=True, text=True).stdout.split() if re.search(a.files, f))
allm = []
for f in files: allm += mutants_of(f)
rng = random.Random(a.seed)
if a.sample < 1: allm = [m for m in allm if rng.random() < a.sample]
done = set()
if a.skip and os.path.exists(a.skip):
    for l in open(a.skip):
        r = json.loads(l); done.add((r['file'], r['line'], r['new']))
allm = [m for m in allm if (m[0], m[1] + 1, m[3]) not in done]
if a.redo:
    allm = []
    for r in map(json.loads, open(a.redo)):
        if r['verdict'] not in ('killed', 'invalid'):
            ls = open('/repo/' + r['file']).read().split('\n')
            if r['line'] <= len(ls) and ls[r['line'] - 1] == r['old']: allm.append((r['file'], r['line'] - 1, r['old'], r['new'], r['what']))
            else: print('the line has changed:', r['file'], r['line'])
print(len(allm), 'mutants in', len(files), 'files')
if a.list:
    for m in allm: print(m[0], m[1] + 1, m[4], '|', m[2].strip(), '->', m[3].strip())
    sys.exit()

# scratch builds
COMMON = '-std=gnu++20 -g1 -include cstdint -include algorithm -pthread -w -Iinclude -Iharness'
SAN = '-O1 -fsanitize=address,undefined -fno-sanitize=null,alignment,vptr,object-size,pointer-overflow,nonnull-attribute,returns-nonnull-attribute -fno-sanitize-recover=all -D_GLIBCXX_SANITIZE_VECTOR -ftrivial-auto-var-init=pattern'
ids = sorted({c for f in files for c in checks_of(f)})
os.makedirs(W, exist_ok=True)
shutil.rmtree(W + '/w0', ignore_errors=True); os.makedirs(W + '/w0')
subprocess.run('cp -a /repo/include /repo/src %s/harness %s/w0/' % (ROOT, W), shell=True, check=True)
def ninja(d):
    srcs = sorted(os.path.relpath(x, d) for x in glob.glob(d + '/src/**/*.cxx', recursive=True))
    with open(d + '/build.ninja', 'w') as o:
        o.write('rule cc\n command = g++ %s %s -MD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc\nrule ld\n command = g++ %s $in -o $out -pthread\n' % (COMMON, SAN, SAN))
        objs = []
        for s in srcs:
            q = 'o/' + s.replace('/', '_') + '.o'; objs.append(q); o.write('build %s: cc %s\n' % (q, s))
        for h in sorted(glob.glob(d + '/harness/c*.cpp')):
            c = os.path.basename(h)[:3].upper()
            o.write('build o/%s.o: cc %s\nbuild %s: ld o/%s.o %s\n' % (c, os.path.relpath(h, d), c, c, ' '.join(objs)))
ninja(W + '/w0')
subprocess.run(['ninja', '-C', W + '/w0', '-j8'] + ids, check=True, stdout=subprocess.DEVNULL)
for k in range(1, a.workers):
    shutil.rmtree('%s/w%d' % (W, k), ignore_errors=True)
    subprocess.run('cp -a %s/w0 %s/w%d' % (W, W, k), shell=True, check=True)
sys.path.insert(0, ROOT)
import check
known = open(ROOT + '/known_findings.txt').read()
q = queue.Queue()
byfile = {}
for m in allm: byfile.setdefault(m[0], []).append(m)
for f in sorted(byfile, key=lambda f: -len(byfile[f])):
    for k in range(0, len(byfile[f]), 12): q.put(byfile[f][k:k + 12])
lock = threading.Lock(); n = {}
report = open(a.report, 'a')
def worker(k):
    d = '%s/w%d' % (W, k)
    while True:
        try: batch = q.get_nowait()
        except queue.Empty: return
        for f, i, old, new, what in batch:
            lines = open('/repo/' + f).read().split('\n'); lines[i] = new
            open(d + '/' + f, 'w').write('\n'.join(lines))
            verdict, by = 'SURVIVED', []
            for c in checks_of(f):
                r = subprocess.run(['ninja', '-C', d, '-j2', c], capture_output=True, text=True)
                if r.returncode:
                    verdict = 'invalid'; break
                for x in ('result.json', 'replay.txt'):
                    if os.path.exists(d + '/' + x): os.remove(d + '/' + x)
                os.makedirs(d + '/tmp', exist_ok=True)
                try:
                    r = subprocess.run(['./' + c, '--seed', '1', '--out', 'result.json', '--replay-out', 'replay.txt', '--tmp', 'tmp', '--workers', '2'],
                                       cwd=d, env=check.ENV, capture_output=True, text=True, errors='replace', timeout=600)
                    rc = r.returncode
                except subprocess.TimeoutExpired: rc = 99
                by.append(c)
                if rc == 1: verdict = 'killed'; break
                if rc != 0: verdict = 'noanswer %s' % rc; break
                res = json.load(open(d + '/result.json'))
                if any(kk.startswith('known: ') and 'property=%s %s' % (c, kk[7:]) not in known for st in res['laws'].values() for kk in st): verdict = 'killed'; break
            open(d + '/' + f, 'w').write(open('/repo/' + f).read())
            with lock:
                v = verdict.split()[0]; n[v] = n.get(v, 0) + 1
                report.write(json.dumps(dict(file=f, line=i + 1, old=old, new=new, what=what, verdict=verdict, by=by)) + '\n'); report.flush()
                if v not in ('killed', 'invalid'): print(verdict, f, i + 1, what, '|', old.strip(), '->', new.strip(), by, flush=True)
ts = [threading.Thread(target=worker, args=(k,)) for k in range(a.workers)]
[t.start() for t in ts]; [t.join() for t in ts]
print(n)
