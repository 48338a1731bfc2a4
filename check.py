#!/usr/bin/env python3
"""Runs the check of one property against the current working tree of /repo.

  python3 check.py C01 [--tier quick|thorough] [--seed N] [--law NAME] [--scale X]
  python3 check.py C01 --replay FILE      replay a recorded failing case
  python3 check.py --setup                check the tools (nothing to install)

Exit 0: the property held on everything explored; 1: VIOLATION; 2: no answer (build problem).
"""
import argparse, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(ROOT, '.build')
JOBS = min(8, os.cpu_count() or 4)

COMMON = ['-std=gnu++20', '-g1', '-include', 'cstdint', '-include', 'algorithm', '-pthread', '-w',
          '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(ROOT, 'harness')]
SAN = ['-fsanitize=address,undefined',
       '-fno-sanitize=null,alignment,vptr,object-size,pointer-overflow,nonnull-attribute,returns-nonnull-attribute',
       '-fno-sanitize-recover=all', '-D_GLIBCXX_SANITIZE_VECTOR', '-ftrivial-auto-var-init=pattern']
VARIANTS = {
    'asan': ('g++', ['-O1'] + SAN),
    'tsan': ('g++', ['-O1', '-fsanitize=thread']),
    'plain': ('g++', ['-O0']),
    'fuzz': ('clang++', ['-O1', '-fsanitize=address', '-DPBT_FUZZ', '-fno-sanitize-recover=all']),
}
UNOPTIMIZED = {'c35_callables.cpp'}  # thousands of instances of templates
KINDS = {'c35_callables.cpp'}  # compiles with plain lambdas: must compile with the other kinds of callables
RACES = {'C32'}  # decided with ThreadSanitizer
# a second search with another build: (variant, name, part of the quick number of cases)
SECOND = {'C24': ('tsan', 'thread sanitizer', 0.25), 'C32': ('asan', 'address sanitizer', 1)}
ENV = dict(os.environ,
           ASAN_OPTIONS='detect_leaks=0:exitcode=86:abort_on_error=0:detect_stack_use_after_return=1:'
                        'max_malloc_fill_size=65536:malloc_fill_byte=190:max_free_fill_size=4096:'
                        'allocator_may_return_null=0:max_allocation_size_mb=3000:detect_odr_violation=0:'
                        'alloc_dealloc_mismatch=1:handle_abort=1',
           UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=86',
           TSAN_OPTIONS='halt_on_error=1:exitcode=86:report_thread_leaks=0')


class KindRefused(Exception):
    """The calls of the harness compile with lambdas only."""


def fail(msg):
    print('ERROR: ' + msg)
    sys.exit(2)


def digest(files, extra):
    h = hashlib.sha256(repr(extra).encode())
    for f in sorted(files):
        h.update(f.encode())
        with open(f, 'rb') as x:
            h.update(hashlib.sha256(x.read()).digest())
    return h.hexdigest()[:20]


def tree(*dirs):
    out = []
    for d in dirs:
        for base, _, names in os.walk(d):
            out += [os.path.join(base, n) for n in names
                    if n.endswith(('.h', '.hpp', '.hxx', '.cxx', '.cpp', '.cc', '.c', '.inl', '.ipp'))]
    return out


def run(cmd, timeout=800):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace',
                       timeout=timeout)
    return p.returncode, p.stdout


def prune(keep):
    """Keeps the most recent build products only."""
    try:
        ents = sorted((os.path.getmtime(os.path.join(BUILD, e)), e) for e in os.listdir(BUILD) if e != 'lock')
    except OSError:
        return
    for t, e in ents[:-keep] if len(ents) > keep else []:
        p = os.path.join(BUILD, e)
        if time.time() - t > 3600:
            shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.path.exists(p) and os.remove(p)


def build(harness, variant):
    """Compiles the library from REPO and the harness, returns the binary (the object files without a harness)."""
    cc, flags = VARIANTS[variant]
    if not shutil.which(cc):
        fail('compiler %s not found' % cc)
    os.makedirs(BUILD, exist_ok=True)
    lib_in = tree(os.path.join(REPO, 'include'), os.path.join(REPO, 'src'))
    srcs = sorted(f for f in lib_in if f.startswith(os.path.join(REPO, 'src')) and
                  f.endswith(('.cxx', '.cpp', '.cc')))
    if not srcs:
        fail('no sources under %s/src' % REPO)
    libkey = digest(lib_in, (variant, cc, flags, COMMON))
    binkey = digest([harness] + glob.glob(os.path.join(ROOT, 'harness', '*.hpp')), libkey) if harness else ''
    libdir = os.path.join(BUILD, 'lib-%s-%s' % (variant, libkey))
    name = os.path.splitext(os.path.basename(harness or 'library'))[0]
    binary = os.path.join(BUILD, '%s-%s-%s' % (name, variant, binkey))
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if harness and os.path.exists(binary):
            return binary
        os.makedirs(libdir, exist_ok=True)
        jobs, objs = [], []
        # the fuzzer instruments the library for coverage, the harness too
        cov = ['-fsanitize=fuzzer-no-link'] if variant == 'fuzz' else []
        for s in srcs:
            o = os.path.join(libdir, os.path.relpath(s, REPO).replace('/', '_') + '.o')
            objs.append(o)
            if not os.path.exists(o):
                jobs.append((s, o))
        hobj = binary + '.o'
        if harness:
            jobs.insert(0, (harness, hobj))

        def one(j):
            s, o = j
            tmp = o + '.tmp'
            opt = ['-O0'] if os.path.basename(s) in UNOPTIMIZED else []
            rc, out = run([cc] + COMMON + flags + opt + cov + ['-c', s, '-o', tmp])
            if rc == 0:
                os.replace(tmp, o)
            return s, rc, out
        with ThreadPoolExecutor(JOBS) as ex:
            for s, rc, out in ex.map(one, jobs):
                if rc != 0:
                    if os.path.basename(s) in KINDS:
                        lambdas, _ = run([cc] + COMMON + flags + ['-fsyntax-only', '-DONLY_LAMBDAS', s])
                        if lambdas == 0:
                            raise KindRefused(out)
                    print(out[-6000:])
                    fail('cannot compile %s' % s)
        if not harness:
            return objs
        link = ['-fsanitize=fuzzer'] if variant == 'fuzz' else []
        rc, out = run([cc] + flags + link + [hobj] + objs + ['-o', binary + '.tmp', '-pthread'])
        if rc != 0:
            print(out[-6000:])
            fail('cannot link %s' % name)
        os.replace(binary + '.tmp', binary)
        os.remove(hobj)
        prune(60)
    return binary


def probes(pid, replay, tmp):
    """Compiles the probes of the property: calls which the library must accept. Returns (number, failure)."""
    files = sorted(glob.glob(os.path.join(ROOT, 'harness', 'probes', pid.lower() + '_*.cpp')))
    if not files:
        return 0, None
    cmd = ['g++'] + COMMON + ['-fsyntax-only']
    control = os.path.join(tmp, 'control.cpp')
    with open(control, 'w') as f:
        f.write('#include <dataframe/Serie.h>\nuint32_t control(const df::Serie &s) { return s.count(); }\n')
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(lambda f: run(cmd + [f]), [control] + files))
    if res[0][0] != 0:  # nothing compiles: no answer about this property
        return len(files), None
    for f, (rc, out) in zip(files, res[1:]):
        if rc != 0:
            first = next((x for x in out.splitlines() if ' error: ' in x or ' fatal error: ' in x), '')
            with open(replay, 'w') as w:
                w.write('# %s: this call does not compile\n# %s\n# %s\n\n%s\n/*\n%s\n*/\n' % (
                    pid, ' '.join(cmd + [os.path.relpath(f, ROOT)]), first, open(f).read(), out[:8000].replace('*/', '* /')))
            return len(files), 'does not compile: %s: %s' % (os.path.basename(f), first)
    try:
        for h in glob.glob(os.path.join(ROOT, 'harness', pid.lower() + '_*.cpp')):
            if os.path.basename(h) in KINDS:
                build(h, 'asan')
    except KindRefused as e:
        out = str(e)
        first = next((x for x in out.splitlines() if ' error: ' in x), '')
        with open(replay, 'w') as w:
            w.write('# %s: this call does not compile\n# harness/%s compiles with lambdas (-DONLY_LAMBDAS), not with the other kinds of callables\n'
                    '# %s\n/*\n%s\n*/\n' % (pid, os.path.basename(h), first, out[:12000].replace('*/', '* /')))
        return len(files), 'does not compile with every kind of callable: ' + first
    return len(files), None


def search(binary, a, tier, seed, tmp, replay, extra=()):
    out = os.path.join(tmp, 'result.json')
    cmd = [binary, '--seed', str(seed), '--out', out, '--replay-out', replay, '--tmp', tmp,
           '--workers', str(JOBS), *extra]
    if tier == 'thorough':
        cmd.append('--thorough')
    if a.law:
        cmd += ['--law', a.law]
    if a.scale:
        cmd += ['--scale', str(a.scale)]
    p = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    sys.stdout.write(p.stdout[-20000:])
    if p.returncode not in (0, 1) or not os.path.exists(out):
        fail('the harness did not finish (status %s)' % p.returncode)
    with open(out) as f:
        r = json.load(f)
    if (p.returncode == 1) != bool(r['violation']):
        fail('inconsistent harness result')
    return r


def fuzz(harness, binary, pid, seconds, seed, tmp, replay):
    """Coverage-guided search (libFuzzer) over the choice sequences of the same laws."""
    fb = build(harness, 'fuzz')
    d = os.path.join(tmp, 'fuzz')
    os.makedirs(d + '/corpus', exist_ok=True)
    env = dict(ENV, PBT_FUZZ_OUT=os.path.join(d, 'replay'))
    procs = []
    for k in range(JOBS):
        art = '%s/w%d-' % (d, k)
        procs.append(subprocess.Popen(
            [fb, d + '/corpus', '-max_total_time=%d' % seconds, '-seed=%d' % (seed * 100 + k + 1), '-reload=1',
             '-max_len=600', '-timeout=25', '-rss_limit_mb=3000', '-print_final_stats=1', '-artifact_prefix=' + art,
             '-use_value_profile=%d' % (k % 2)],
            env=env, cwd=d, stdout=subprocess.DEVNULL, stderr=open('%s/log%d' % (d, k), 'w')))
    for p in procs:
        p.wait()
    execs, feats = 0, 0
    for k in range(JOBS):
        log = open('%s/log%d' % (d, k), errors='replace').read()
        m = re.findall(r'stat::number_of_executed_units:\s+(\d+)', log)
        n = re.findall(r'^#(\d+)\s', log, re.M)
        execs += int(m[-1]) if m else int(n[-1]) if n else 0
        c = re.findall(r'cov: (\d+) ft: (\d+)', log)
        feats = max([feats] + [int(x[0]) for x in c])
    info = {'executions': execs, 'edges_covered': feats, 'seconds': seconds, 'processes': JOBS,
            'corpus': len(os.listdir(d + '/corpus'))}
    arts = sorted(glob.glob(d + '/w*-crash-*') + glob.glob(d + '/w*-timeout-*') + glob.glob(d + '/w*-oom-*'))
    for art in arts[:6]:
        p = subprocess.run([binary, '--import', art, '--replay-out', replay, '--tmp', tmp, '--workers', str(JOBS)],
                           env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        if p.returncode == 1:
            print(p.stdout[-6000:])
            return info, p.stdout.splitlines()[0] if p.stdout else 'failure found by the fuzzer'
        if not os.path.basename(art).split('-')[1].startswith('crash'):
            continue
        print('note: fuzzer artifact not reproduced by the checked build: ' + os.path.basename(art))
    return info, None


def programs(a, seed, replay, t0):
    """C31: generated programs instead of generated inputs of one program."""
    sys.path.insert(0, os.path.join(ROOT, 'harness'))
    sys.dont_write_bytecode = True
    import c31_programs as c31
    objs = build(None, 'plain')
    t_build = time.time() - t0
    tmp = tempfile.mkdtemp(prefix='verif-' + a.id + '-')
    try:
        if a.replay:
            m = c31.replay(a.replay, REPO, COMMON, objs, tmp, JOBS)
            print(m or 'the program is right')
            if m:
                print('VIOLATION property=%s replay=%s' % (a.id, a.replay))
            return 1 if m else 0
        try:
            r = c31.search(REPO, COMMON, objs, tmp, JOBS, seed, a.tier == 'thorough', 600 if a.tier == 'thorough' else 240)
        except RuntimeError as e:
            fail(str(e))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    bad = r.pop('violation')
    ev = {'property': a.id, 'tier': a.tier, 'seed': seed, 'level': 'exploration',
          'coverage': dict({k: v for k, v in r.items() if k != 'search_s'}, search_s=round(r['search_s'], 2), build_s=round(t_build, 2),
                           rule='A case is a generated program of 1 to 4 source files (sets and orders of headers, calls with known results) '
                                'or one header alone. Non-trivial: two files or more with three headers or more each.'),
          'assumptions': ['g++ -std=gnu++20 with the includes the build of the repository adds (cstdint, algorithm)'],
          'wall_s': round(time.time() - t0, 2), 'violations': 1 if bad else 0}
    if bad:
        p, m = bad
        ev['violation'] = {'law': 'programs', 'message': m, 'found_by': 'search', 'replay': replay}
        with open(replay, 'w') as f:
            f.write('# %s: %s\n%s\n/*\n%s\n*/\n' % (a.id, m.replace('\n', ' '), p.text(), '\n// ----\n'.join(p.sources())))
        print(m)
        print(p.text()[:3000])
    with open(os.path.join(ROOT, 'evidence', a.id + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    if bad:
        print('VIOLATION property=%s replay=%s' % (a.id, replay))
        return 1
    print('%s held: %d programs and %d headers alone (%d distinct non-trivial) in %.1f s, %.1f s of build [%s, seed %d]' % (
        a.id, r['programs'], r['headers_alone'], r['distinct_nontrivial'], r['search_s'], t_build, a.tier, seed))
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=None)
    ap.add_argument('--law')
    ap.add_argument('--scale', type=float)
    ap.add_argument('--replay')
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--fuzz-seconds', type=int, default=150)
    ap.add_argument('--variant')
    a = ap.parse_args()
    a.variant = a.variant or ('tsan' if a.id in RACES else 'asan')
    if a.setup:
        for t in ('g++', 'clang++'):
            print(t, shutil.which(t) or 'MISSING')
        return 0 if shutil.which('g++') else 2
    if not a.id or not re.fullmatch(r'C\d\d', a.id):
        fail('which property?')
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    try:
        seed = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED') or 1)
    except ValueError:
        seed = 1
    seed = abs(seed) % (1 << 40)
    hs = glob.glob(os.path.join(ROOT, 'harness', a.id.lower() + '_*.*'))
    if len(hs) != 1:
        fail('no harness for ' + a.id)
    t0 = time.time()
    os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    replay = os.path.join(ROOT, 'replays', '%s-%s-%d.txt' % (a.id, a.tier, seed))
    if hs[0].endswith('.py'):
        if not a.replay and os.path.exists(replay):
            os.remove(replay)
        return programs(a, seed, replay, t0)
    if a.replay and open(a.replay, errors='replace').readline().rstrip().endswith('this call does not compile'):
        tmp = tempfile.mkdtemp(prefix='verif-' + a.id + '-')
        try:
            msg = probes(a.id, os.path.join(tmp, 'replay'), tmp)[1]
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        print(msg or 'compiles')
        if msg:
            print('VIOLATION property=%s replay=%s' % (a.id, a.replay))
        return 1 if msg else 0
    if not a.replay:
        if os.path.exists(replay):
            os.remove(replay)
        tmp = tempfile.mkdtemp(prefix='verif-' + a.id + '-')
        try:
            n_probes, msg = probes(a.id, replay, tmp)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        if msg:
            print(msg)
            ev = {'property': a.id, 'tier': a.tier, 'seed': seed, 'level': 'exploration',
                  'coverage': {'evaluations': n_probes, 'distinct_nontrivial': 0,
                               'rule': 'a call the library must accept does not compile: no case was generated',
                               'samples': [msg]},
                  'assumptions': [], 'wall_s': round(time.time() - t0, 2), 'violations': 1,
                  'violation': {'law': 'compiles', 'message': msg, 'found_by': 'probe', 'replay': replay}}
            with open(os.path.join(ROOT, 'evidence', a.id + '.json'), 'w') as f:
                json.dump(ev, f, indent=1)
                f.write('\n')
            print('VIOLATION property=%s replay=%s' % (a.id, replay))
            return 1
    if a.replay:
        m = re.match(r'# build (\w+)\n', open(a.replay, errors='replace').read(200))
        a.variant = m.group(1) if m and m.group(1) in VARIANTS else a.variant
    binary = build(hs[0], a.variant)
    t_build = time.time() - t0
    if a.replay:
        p = subprocess.run([binary, '--replay', os.path.abspath(a.replay)], env=ENV)
        if p.returncode == 1:
            print('VIOLATION property=%s replay=%s' % (a.id, a.replay))
        return p.returncode if p.returncode in (0, 1) else 2
    tmp = tempfile.mkdtemp(prefix='verif-' + a.id + '-')
    try:
        r = search(binary, a, a.tier, seed, tmp, replay)
        message, where = r['message'], 'search'
        extra = {'calls_that_must_compile': n_probes} if n_probes else {}
        violated = r['violation']
        if a.id in SECOND and not violated and not a.law and not a.scale and (a.tier == 'thorough' or a.id == 'C24'):
            variant, what, factor = SECOND[a.id]
            t_b = time.time()
            tb = build(hs[0], variant)
            t_build += time.time() - t_b
            b = argparse.Namespace(**vars(a))
            b.scale = factor if a.tier == 'quick' else 1
            t = search(tb, b, 'quick', seed + 1, tmp, replay)
            extra[what.replace(' ', '_')] = {'evaluations': t['evaluations'], 'distinct_nontrivial': t['distinct_nontrivial']}
            r['evaluations'] += t['evaluations']
            r['search_s'] += t['search_s']
            if t['violation']:
                violated, message, where, r['law'] = True, t['message'], what, t.get('law')
                with open(replay) as f:
                    text = f.read()
                with open(replay, 'w') as f:
                    f.write('# build %s\n' % variant + text)
        elif a.tier == 'thorough' and not violated and not a.law:
            if a.id in RACES:
                pass
            elif a.fuzz_seconds > 0:
                info, msg = fuzz(hs[0], binary, a.id, a.fuzz_seconds, seed, tmp, replay)
                extra['coverage_guided'] = info
                r['evaluations'] += info['executions']
                if msg:
                    violated, message, where = True, msg, 'coverage-guided fuzzing'
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    note, tech = '', ''
    try:
        man = json.load(open(os.path.join(ROOT, 'MANIFEST.json')))
        for c in man['checks']:
            if c['property'] == a.id:
                note = c.get('level_note', '')
    except (OSError, ValueError):
        pass
    known = {}  # findings recorded in known_findings.txt, reported but not violations
    for law, st in r['laws'].items():
        for k, v in st.items():
            if k.startswith('known: '):
                known[k[7:]] = known.get(k[7:], 0) + v
    try:
        listed = open(os.path.join(ROOT, 'known_findings.txt')).read().splitlines()
    except OSError:
        listed = []
    for k in sorted(known):
        if 'known: property=%s %s' % (a.id, k) in listed:
            print('KNOWN-FINDING: property=%s %s' % (a.id, k))
        else:
            violated, message, where = True, 'not a listed finding: ' + k, 'search'
            r['law'] = r.get('law') or ''
            with open(replay, 'w') as f:
                f.write('# ' + message + '\n')
    if known:
        extra['known_findings'] = known
    ev = {
        'property': a.id, 'tier': a.tier, 'seed': seed, 'level': 'exploration',
        'coverage': dict({
            'evaluations': r['evaluations'], 'distinct_nontrivial': r['distinct_nontrivial'],
            'rule': r['rule'], 'samples': r['samples'], 'discarded': r['discarded'], 'laws': r['laws'],
            'search_s': round(r['search_s'], 2), 'build_s': round(t_build, 2)}, **extra),
        'assumptions': [x for x in [note] if x] + [
            'library and harness built from the working tree with g++ -O1 -std=gnu++20, ' + (
                'ThreadSanitizer' if a.variant == 'tsan' else 'AddressSanitizer and UndefinedBehaviorSanitizer'), 'distinct_nontrivial counts the seeded search only, not fuzzer executions'],
        'wall_s': round(time.time() - t0, 2), 'violations': 1 if violated else 0}
    if violated:
        ev['violation'] = {'law': r['law'], 'message': message, 'found_by': where, 'replay': replay}
    with open(os.path.join(ROOT, 'evidence', a.id + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    if violated:
        print('VIOLATION property=%s replay=%s' % (a.id, replay))
        return 1
    print('%s held: %d cases (%d distinct non-trivial) in %.1f s, %.1f s of build [%s, seed %d]' % (
        a.id, r['evaluations'], r['distinct_nontrivial'], r['search_s'], t_build, a.tier, seed))
    return 0


if __name__ == '__main__':
    sys.exit(main())
