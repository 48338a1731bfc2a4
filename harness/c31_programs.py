"""C31: the headers combine freely in programs of several source files.

A case is a generated program: 1 to 4 source files, each including a generated set of the library's headers
in a generated order (some twice, Serie.h anywhere), and calling generated operations with generated parameters, whose results
are compared with those a model expects.  The program must compile, link with the library, run and find every result
as expected.  A failing program is reduced (files, headers, calls) and written as the replay file.
Every header is also compiled by itself.
"""
import json, os, random, re, subprocess
from concurrent.futures import ThreadPoolExecutor

F = 'dataframe/functional/'
A = 'dataframe/attributes/'


def arr(v):
    return 'Array{' + ', '.join(repr(float(x)) for x in v) + '}'


def serie(isz, v, dim=3):
    return 'df::Serie(%d, %s, %d)' % (isz, arr(v), dim)


def ints(r, n, lo=-9, hi=9):
    return [r.randint(lo, hi) for _ in range(n)]


def eq(expr, isz, v):
    return 'same(%s, %d, %s)' % (expr, isz, arr(v))


# Each gives (headers, C++ expression true when the result is the expected one)
def s_map(r):
    v, k = ints(r, r.randint(1, 6)), r.randint(-5, 5)
    return [F + 'map.h'], eq('df::map([](double v, uint32_t i) { return v * %d + i; }, %s)' % (k, serie(1, v)), 1, [x * k + i for i, x in enumerate(v)])


def s_map_items(r):
    n = r.randint(1, 4)
    v = ints(r, 2 * n)
    return [F + 'map.h'], eq('df::map([](const Array &v, uint32_t i) { return Array{v[1], v[0], double(i)}; }, %s)' % serie(2, v), 3,
                             sum(([v[2 * i + 1], v[2 * i], i] for i in range(n)), []))


def s_map_list(r):
    v = ints(r, r.randint(1, 5))
    return ['dataframe/utils/utils.h'], '[] { Array a = %s; return df::map(a, [](double x) { return 2 * x; }) == %s; }()' % (arr(v), arr([2 * x for x in v]))


def s_contains(r):
    v, x = ints(r, 3), r.randint(-9, 9)
    return ['dataframe/utils/utils.h'], 'df::contains(%s, %s) == %s' % (arr(v), float(x), str(x in v).lower())


def s_apply(r):
    v = ints(r, r.randint(1, 6))
    return [F + 'utils/apply.h'], eq('df::utils::apply([](double v, uint32_t i) { return v - i; }, %s)' % serie(1, v), 1, [x - i for i, x in enumerate(v)])


def s_filter(r):
    v, k = ints(r, r.randint(1, 9)), r.randint(-9, 9)
    v.append(10)
    return [F + 'filter.h'], eq('df::filter([](double v, uint32_t) { return v > %d; }, %s)' % (k, serie(1, v)), 1, [x for x in v if x > k])


def s_reject(r):
    v, k = ints(r, r.randint(1, 9)), r.randint(-9, 9)
    v.append(-10)
    return [F + 'utils/reject.h'], eq('df::utils::reject([](double v, uint32_t) { return v > %d; }, %s)' % (k, serie(1, v)), 1, [x for x in v if not x > k])


def s_cut(r):
    v, k = ints(r, r.randint(1, 9)), r.randint(-9, 9)
    v.append(10)
    return [F + 'utils/cut.h'], eq('df::utils::cut([](double v, uint32_t) { return v > %d; }, %s)' % (k, serie(1, v)), 1, [x for x in v if x > k])


def s_reduce(r):
    v = ints(r, r.randint(1, 9))
    return [F + 'reduce.h'], 'df::reduce([](double a, double v, uint32_t i) { return a + v * i; }, %s, 2.0) == %s' % (serie(1, v), 2 + sum(x * i for i, x in enumerate(v)))


def s_for_each(r):
    v = ints(r, r.randint(1, 9))
    return [F + 'forEach.h'], '[] { Array seen; df::forEach([&](double v, uint32_t) { seen.push_back(v); }, %s); return seen == %s; }()' % (serie(1, v), arr(v))


def s_check(r):
    v, k = ints(r, r.randint(1, 9)), r.randint(-9, 9)
    return [F + 'conditional/check.h'], eq('df::cond::check(%s, [](double v, uint32_t) { return v > %d; })' % (serie(1, v), k), 1, [int(x > k) for x in v])


def s_pipe(r):
    v, k = ints(r, r.randint(1, 6)), r.randint(1, 5)
    return [F + 'pipe.h', F + 'math/scale.h', F + 'math/negate.h'], eq(
        'df::pipe(%s, df::math::make_scale(%d.), [](const df::Serie &s) { return df::math::negate(s); })' % (serie(1, v), k), 1, [-x * k + 0.0 for x in v])


def s_compose(r):
    v, k = ints(r, r.randint(1, 6)), r.randint(1, 5)
    return [F + 'utils/compose.h', F + 'math/scale.h'], eq(
        'df::utils::compose(df::math::make_scale(%d.), df::math::make_scale(2.))(%s)' % (k, serie(1, v)), 1, [2 * x * k for x in v])


def s_merge(r):
    a, b = ints(r, 2 * r.randint(1, 3)), ints(r, 2 * r.randint(1, 3))
    return [F + 'merge.h'], eq('df::merge(%s, %s, true)' % (serie(2, a), serie(2, b)), 2, a + b)


def s_concat(r):
    a, b, c = ints(r, 2), ints(r, 4), ints(r, 2)
    w = r.random() < .5
    return [F + 'utils/concat.h'], eq(('df::utils::concat(std::vector<df::Serie>{%s, %s, %s})' if w else 'df::utils::concat(%s, %s, %s)') % (
        serie(2, a), serie(2, b), serie(2, c)), 2, a + b + c)


def s_partition_n(r):
    n, k = r.randint(1, 9), r.randint(1, 5)
    v = ints(r, n)
    return [F + 'utils/partition_n.h'], '[] { Array all; for (auto &s : df::utils::partition_n(%d, %s)) all.insert(all.end(), s.asArray().begin(), s.asArray().end()); return all == %s; }()' % (
        min(k, n), serie(1, v), arr(v))


def s_partition(r):
    v, k = ints(r, r.randint(1, 9)), r.randint(-9, 9)
    v += [10, -10]
    return [F + 'utils/partition.h'], '[] { auto [x, y] = df::utils::partition([](double v, uint32_t) { return v > %d; }, %s); return %s && %s; }()' % (
        k, serie(1, v), eq('x', 1, [x for x in v if x > k]), eq('y', 1, [x for x in v if not x > k]))


def s_zip(r):
    n = r.randint(1, 4)
    a, b = ints(r, n), ints(r, 2 * n)
    w = sum(([a[i], b[2 * i], b[2 * i + 1]] for i in range(n)), [])
    e = 'df::utils::zipVector({%s, %s})' if r.random() < .5 else 'df::utils::zip(%s, %s)'
    return [F + 'utils/zip.h'], eq(e % (serie(1, a), serie(2, b)), 3, w)


def s_unzip(r):
    n = r.randint(1, 4)
    v = ints(r, 3 * n)
    return [F + 'utils/unzip.h'], '[] { auto u = df::utils::unzip(%s, {1, 2}); return u.size() == 2 && %s && %s; }()' % (
        serie(3, v), eq('u[0]', 1, v[::3]), eq('u[1]', 2, sum(([v[3 * i + 1], v[3 * i + 2]] for i in range(n)), [])))


def s_sort(r):
    v = ints(r, r.randint(1, 9))
    return [F + 'utils/sort.h'], eq('df::utils::sort(%s)' % serie(1, v), 1, sorted(v))


def s_memoize(r):
    v = ints(r, r.randint(1, 5))
    return [F + 'utils/memoize.h', F + 'math/negate.h'], '[] { int n = 0; auto f = df::utils::memoize([&n](const df::Serie &s) { ++n; return df::math::negate(s); }); ' \
        'df::Serie s = %s; return %s && %s && n == 1; }()' % (serie(1, v), eq('f(s)', 1, [-x + 0.0 for x in v]), eq('f(s)', 1, [-x + 0.0 for x in v]))


def s_parallel(r):
    v = ints(r, r.randint(2, 9))
    return [F + 'utils/parallel_execute.h', F + 'math/scale.h'], eq(
        'df::utils::parallel_execute([](const df::Serie &s) { return df::math::scale(s, 3.); }, %s, %d)' % (serie(1, v), r.randint(1, 4)), 1, [3 * x for x in v])


def s_math(r):
    n = r.randint(1, 6)
    a, b = ints(r, n), ints(r, n)
    op, h, f = r.choice([('add', 'add.h', lambda x, y: x + y), ('sub', 'sub.h', lambda x, y: x - y), ('mult', 'mult.h', lambda x, y: x * y)])
    if op != 'mult' and r.random() < .4:
        return [F + 'math/' + h], eq('df::math::%s({%s, %s})' % (op, serie(1, a), serie(1, b)), 1, [f(x, y) for x, y in zip(a, b)])
    return [F + 'math/' + h], eq('df::math::%s(%s, %s)' % (op, serie(1, a), serie(1, b)), 1, [f(x, y) for x, y in zip(a, b)])


def s_number(r):
    v, k = ints(r, r.randint(1, 6)), r.randint(-5, 5)
    op, h, w = r.choice([('add', 'add.h', [x + k for x in v]), ('sub', 'sub.h', [x - k for x in v]), ('scale', 'scale.h', [x * k for x in v])])
    return [F + 'math/' + h], eq('df::math::%s(%s, %d.)' % (op, serie(1, v), k), 1, w)


def s_equals(r):
    v = ints(r, 4)
    w = list(v)
    if r.random() < .5:
        w[r.randrange(4)] += 1
    return [F + 'math/equals.h'], 'df::math::equals(%s, %s) == %s' % (serie(2, v), serie(2, w), str(v == w).lower())


def s_min_max(r):
    v = ints(r, r.randint(1, 9))
    return [F + 'math/minMax.h'], '[] { auto m = df::math::minMax(%s); return m.min == Array{%s} && m.max == Array{%s}; }()' % (serie(1, v), min(v), max(v))


def s_weighted(r):
    a, b = ints(r, 3), ints(r, 3)
    return [F + 'math/weightedSum.h'], eq('df::math::weigthedSum({%s, %s}, {2, 3})' % (serie(1, a), serie(1, b)), 1, [2 * x + 3 * y for x, y in zip(a, b)])


def s_random(r):
    return [F + 'math/random.h'], '[] { auto a = df::math::random(5, 2, 0, 1, %du), b = df::math::random(5, 2, 0, 1, %du); return a.asArray() == b.asArray() && a.count() == 5; }()' % ((r.randrange(1 << 31),) * 2)


def s_quantile(r):
    v = ints(r, 5)
    return [F + 'stats/quantile.h'], 'df::stats::q50(%s) == %d' % (serie(1, v), sorted(v)[2])


def s_mean(r):
    v = ints(r, 4)
    return [F + 'stats/mean.h'], 'df::stats::mean(%s).number == %s' % (serie(1, v), sum(v) / 4)


def s_covariance(r):
    v = ints(r, 4)
    m = sum(v) / 4
    return [F + 'stats/covariance.h'], 'std::abs(df::stats::covariance({s}, {s}) - {w}) < 1e-9'.format(s=serie(1, v), w=sum((x - m) ** 2 for x in v) / 4)


def s_algebra(r):
    a, b = ints(r, 3), ints(r, 3)
    k = r.randrange(4)
    if k == 0:
        return [F + 'algebra/dot.h'], eq('df::algebra::dot(%s, %s)' % (serie(3, a), serie(3, b)), 1, [sum(x * y for x, y in zip(a, b))])
    if k == 1:
        return [F + 'algebra/cross.h'], eq('df::algebra::cross(%s, %s)' % (serie(3, a), serie(3, b)), 3,
                                           [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])
    if k == 2:
        return [F + 'algebra/norm.h'], eq('df::algebra::norm2(%s)' % serie(3, a), 1, [sum(x * x for x in a)])
    m = ints(r, 4)
    return [F + 'algebra/transpose.h', F + 'algebra/det.h'], '%s && %s' % (
        eq('df::algebra::transpose(%s)' % serie(4, m, 2), 4, [m[0], m[2], m[1], m[3]]), eq('df::algebra::det(%s)' % serie(4, m, 2), 1, [m[0] * m[3] - m[1] * m[2]]))


def s_eigen(r):
    d = sorted(r.sample(range(-9, 10), 3), reverse=True)
    return [F + 'algebra/eigen.h'], '[] { Array v = df::algebra::eigenValues(%s).asArray(); std::sort(v.begin(), v.end()); bool ok = v.size() == 3; ' \
        'for (int i = 0; ok && i < 3; ++i) ok = std::abs(v[i] - %s[2 - i]) < 1e-9; return ok; }()' % (serie(6, [d[1], 0, 0, d[0], 0, d[2]]), arr(d))


def s_inv(r):
    a, b, c = r.choice([1, 2, 4]), r.choice([1, 2, 4]), r.choice([1, 2, 4])
    return [F + 'algebra/inv.h'], eq('df::algebra::inv(%s)' % serie(6, [a, 0, 0, b, 0, c]), 6, [1 / a, 0, 0, 1 / b, 0, 1 / c])


def s_grid(r):
    n = [r.randint(2, 3) for _ in range(3)]
    return [F + 'geo/cartesian_grid.h'], 'df::grid::cartesian::from_points({%d, %d, %d}, Array{0, 0, 0}, Array{1, 1, 1}).count() == %d && ' \
        'df::grid::cartesian::from_dims({%d, %d, %d}, Array{0, 0, 0}, Array{1, 1, 1}).itemSize() == 3' % (*n, n[0] * n[1] * n[2], *n)


def s_mesh(r):
    k = r.randint(1, 5)
    return [F + 'geo/areas.h', F + 'geo/normals.h'], '%s && %s' % (
        eq('df::geo::areas(%s, %s)' % (serie(3, [0, 0, 0, k, 0, 0, 0, 2, 0]), serie(3, [0, 1, 2])), 1, [k]),
        eq('df::geo::normals(%s, %s)' % (serie(3, [0, 0, 0, k, 0, 0, 0, 2, 0]), serie(3, [0, 1, 2])), 3, [0, 0, 2 * k]))


def s_insar(r):
    a = ints(r, 3)
    return [F + 'geo/insar.h'], eq('df::geo::insar(%s, Array{1, 2, 3})' % serie(3, a), 1, [a[0] + 2 * a[1] + 3 * a[2]])


def s_frame(r):
    v = ints(r, r.randint(1, 5))
    return ['dataframe/Dataframe.h', 'dataframe/utils/nameOfSerie.h'], '[] { df::Dataframe d; d.add("a", %s); return d.contains(std::string("a")) && %s && df::nameOfSerie(d, d["a"]) == "a"; }()' % (
        serie(1, v), eq('d["a"]', 1, v))


def s_manager(r):
    n = r.randint(1, 3)
    v = ints(r, 3 * n)
    return ['dataframe/Dataframe.h', A + 'Manager.h', A + 'Components.h'], '[] { df::Dataframe d; d.add("U", %s); df::Manager m(d, {new df::Components()}); return %s; }()' % (
        serie(3, v), eq('m.serie(1, "Uy")', 1, v[1::3]))


def s_coordinates(r):
    n = r.randint(1, 3)
    v = ints(r, 3 * n)
    return ['dataframe/Dataframe.h', A + 'Manager.h', A + 'Coordinates.h'], '[] { df::Dataframe d; d.add("positions", %s); df::Manager m(d, {new df::Coordinates()}); return %s; }()' % (
        serie(3, v), eq('m.serie(1, "x")', 1, v[::3]))


def s_user(r):
    k = r.randint(1, 9)
    return ['dataframe/Dataframe.h', A + 'Manager.h', A + 'UserDefinedDecomposer.h'], '[] { df::Dataframe d; d.add("U", %s); auto f = [](const df::Dataframe &) { return %s; }; ' \
        'df::UserDefinedDecomposer<decltype(f)> u(1, "mine", std::move(f)); return %s; }()' % (serie(1, [k]), serie(1, [k, 2]), eq('u.serie(d, 1, "mine")', 1, [k, 2]))


def s_view(r):
    m, v = ints(r, 4), ints(r, 2)
    return ['dataframe/view/Matrix.h', 'dataframe/view/Vector.h'], 'df::Matrix(%s, 2).multVec(df::Vector(%s)).array() == %s' % (
        arr(m), arr(v), arr([m[0] * v[0] + m[1] * v[1], m[2] * v[0] + m[3] * v[1]]))


def s_count(r):
    n = r.randint(1, 6)
    return ['dataframe/utils.h'], 'df::utils::countAndCheck(%s, %s)[1] == %d' % (serie(1, ints(r, n)), serie(2, ints(r, 2 * n)), n)


SNIPPETS = [v for k, v in sorted(globals().items()) if k.startswith('s_')]
PRELUDE = '''#include <cmath>
static bool same(const df::Serie &s, uint32_t isz, const Array &v) {
    return s.itemSize() == isz && s.count() * isz == v.size() && s.asArray() == v;
}
'''


class Program:
    """files: list of [headers, calls]; a call is (headers it needs, expression)."""

    def __init__(self, files):
        self.files = files

    def sources(self):
        out = []
        for k, (hs, calls) in enumerate(self.files):
            t = ''.join('#include <%s>\n' % h for h in hs) + '#include <dataframe/Serie.h>\n' + PRELUDE
            t += 'int file%d() {\n    int wrong = 0;\n' % k
            for n, (_, e) in enumerate(calls):
                t += '    try { if (!(%s)) { wrong = 1; printf("WRONG file %d call %d\\n"); } } catch (...) { wrong = 1; printf("REFUSED file %d call %d\\n"); }\n' % (e, k, n, k, n)
            out.append('#include <cstdio>\n' + t + '    return wrong;\n}\n')
        m = ''.join('int file%d();\n' % k for k in range(len(self.files))) + 'int main() {\n    int wrong = 0;\n'
        m += ''.join('    wrong |= file%d();\n' % k for k in range(len(self.files))) + '    return wrong ? 3 : 0;\n}\n'
        out[0] += m
        return out

    def text(self):
        return json.dumps({'files': self.files}, indent=1)

    def size(self):
        return sum(len(h) + 2 * len(c) + 3 for h, c in self.files)


def headers(repo):
    inc = os.path.join(repo, 'include')
    out = []
    for b, _, fs in os.walk(os.path.join(inc, 'dataframe')):
        out += [os.path.relpath(os.path.join(b, f), inc) for f in fs if f.endswith(('.h', '.hpp'))]
    return sorted(out)


def generate(r, all_headers, everything):
    files = []
    for _ in range(2 if everything else r.choice([1, 2, 2, 2, 3, 3, 4])):
        calls = [r.choice(SNIPPETS)(r) for _ in range(r.randint(2, 6))]
        hs = [h for c in calls for h in c[0]]
        hs += all_headers if everything else r.sample(all_headers, r.choice([0, 2, 4, 8, 16, min(30, len(all_headers))]))
        hs = list(dict.fromkeys(hs))
        hs += r.sample(hs, min(len(hs), r.choice([0, 0, 1, 2])))
        r.shuffle(hs)
        if r.random() < .4:
            hs.insert(0, 'dataframe/Serie.h')
        files.append([hs, calls])
    return Program(files)


class Judge:
    def __init__(self, repo, flags, objs, tmp, jobs):
        self.cmd = ['g++'] + flags + ['-O0']
        self.objs, self.tmp, self.jobs, self.n, self.runs = objs, tmp, jobs, 0, 0

    def sh(self, cmd, timeout=300):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout)
        return p.returncode, p.stdout

    def judge(self, prog, d):
        """None, or why the program is not right."""
        os.makedirs(d, exist_ok=True)
        self.runs += 1
        objs = []
        for k, s in enumerate(prog.sources()):
            f = '%s/f%d.cpp' % (d, k)
            open(f, 'w').write(s)
            rc, out = self.sh(self.cmd + ['-c', f, '-o', f + '.o'])
            if rc:
                e = next((x for x in out.splitlines() if ' error: ' in x or ' fatal error: ' in x), out[:300])
                return 'file %d does not compile: %s' % (k, e)
            objs.append(f + '.o')
        rc, out = self.sh(['g++'] + objs + self.objs + ['-pthread', '-o', d + '/p'])
        if rc:
            e = next((x for x in out.splitlines() if 'multiple definition' in x or 'undefined reference' in x), out[:300])
            return 'the program does not link: ' + re.sub(r'^\S*?/ld: ', '', e)[:400]
        try:
            rc, out = self.sh([d + '/p'], 60)
        except subprocess.TimeoutExpired:
            return 'the program does not end'
        if rc:
            return 'the program ends with status %d: %s' % (rc, out[:300])
        return None

    def clean(self, d):
        subprocess.run(['rm', '-rf', d])

    def check(self, prog):
        self.n += 1
        d = '%s/p%d' % (self.tmp, self.n)
        try:
            return self.judge(prog, d)
        finally:
            self.clean(d)


def kind(m):
    return m and re.sub(r'\d+', '', m.split(':')[0])


def shrink(j, prog, msg, budget=70):
    """Smaller programs failing in the same way."""
    def tries(p):
        fs = p.files
        for k in range(len(fs)):
            if len(fs) > 1:
                yield Program(fs[:k] + fs[k + 1:])
        for k, (hs, calls) in enumerate(fs):
            need = {h for c in calls for h in c[0]}
            for part in (lambda x, i: x[i:], lambda x, i: x[:i]):
                if len(hs) > 3:
                    keep = part(hs, len(hs) // 2)
                    keep = keep + [h for h in need if h not in keep]
                    if len(keep) < len(hs):
                        yield Program(fs[:k] + [[keep, calls]] + fs[k + 1:])
            if calls:
                yield Program(fs[:k] + [[hs, []]] + fs[k + 1:])
            if len(calls) > 2:
                for part in (calls[len(calls) // 2:], calls[:len(calls) // 2]):
                    yield Program(fs[:k] + [[hs, part]] + fs[k + 1:])
            for n in range(len(calls)):
                yield Program(fs[:k] + [[hs, calls[:n] + calls[n + 1:]]] + fs[k + 1:])
        for k, (hs, calls) in enumerate(fs):
            need = {h for c in calls for h in c[0]}
            if len(hs) <= 12:
                for n, h in enumerate(hs):
                    if h not in need or hs.count(h) > 1:
                        yield Program(fs[:k] + [[hs[:n] + hs[n + 1:], calls]] + fs[k + 1:])
    start = j.runs
    again = True
    while again:
        again = False
        with ThreadPoolExecutor(j.jobs) as ex:
            cand = list(tries(prog))
            while cand and not again:
                part, cand = cand[:j.jobs], cand[j.jobs:]
                if j.runs - start + len(part) > budget * 2:
                    return prog, msg
                for p, m in zip(part, ex.map(j.check, part)):
                    if kind(m) == kind(msg) and not again:
                        prog, msg, again = p, m, True
    return prog, msg


def alone(j, h):
    f = '%s/alone_%s.cpp' % (j.tmp, re.sub(r'\W', '_', h))
    open(f, 'w').write('#include <%s>\n' % h)
    rc, out = j.sh(j.cmd + ['-fsyntax-only', f])
    return next((x for x in out.splitlines() if ' error: ' in x or ' fatal error: ' in x), out[:300]) if rc else None


def search(repo, flags, objs, tmp, jobs, seed, thorough, seconds):
    """Returns a result dictionary; raises RuntimeError when nothing compiles at all."""
    import time
    t0 = time.time()
    j = Judge(repo, flags, objs, tmp, jobs)
    m = j.check(Program([[[], []]]))
    if m:
        raise RuntimeError('a program that uses nothing: ' + m)
    hs = headers(repo)
    r = random.Random(seed * 7919 + 31)
    n = 600 if thorough else 40
    progs = [generate(random.Random(r.randrange(1 << 60)), hs, k < (24 if thorough else 3)) for k in range(n)]
    bad, done, nontrivial, samples = None, 0, set(), []
    with ThreadPoolExecutor(jobs) as ex:
        for h, m in zip(hs, ex.map(lambda h: alone(j, h), hs)):
            if m and not bad:
                bad = (Program([[[h], []]]), 'file 0 does not compile: ' + m)
        k = 0
        while k < n and not bad and time.time() - t0 < seconds:
            part = progs[k:k + 2 * jobs]
            for p, m in zip(part, ex.map(j.check, part)):
                done += 1
                if len(p.files) >= 2 and all(len(set(f[0])) >= 3 for f in p.files):
                    nontrivial.add(p.text())
                if m and not bad:
                    bad = (p, m)
            k += len(part)
    for p in progs[3:6]:
        samples.append(['%s; calls %s' % (', '.join(f[0]), '; '.join(c[1] for c in f[1])[:400]) for f in p.files])
    res = {'evaluations': done + len(hs), 'distinct_nontrivial': len(nontrivial), 'headers_alone': len(hs), 'programs': done,
           'samples': [' || '.join(s)[:900] for s in samples], 'search_s': time.time() - t0, 'violation': None}
    if bad:
        p, m = shrink(j, *bad)
        res['violation'] = (p, m)
    return res


def replay(path, repo, flags, objs, tmp, jobs):
    t = open(path).read()
    d = json.loads(t[t.index('{'):t.index('\n/*') if '\n/*' in t else len(t)])
    return Judge(repo, flags, objs, tmp, jobs).check(Program(d['files']))
