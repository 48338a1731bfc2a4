# The planted bugs: one entry per folder of seeded/.  Written from the text of the properties and the code of /repo.
PRELUDE = r'''// Exits 0 if the behaviour is right, 1 otherwise.
#include <dataframe/Serie.h>
@INC@
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <functional>
#include <sstream>
using df::Serie;
static int bad = 0;
static void expect(bool ok, const char *what) {
    if (!ok) {
        std::printf("WRONG: %s\n", what);
        bad = 1;
    }
}
[[maybe_unused]] static bool near(double a, double b, double eps = 1e-9) { return std::fabs(a - b) <= eps * (1 + std::fabs(a) + std::fabs(b)); }
template <class F> [[maybe_unused]] static bool refused(F f) {
    try {
        f();
    } catch (const std::exception &) {
        return true;
    }
    return false;
}
[[maybe_unused]] static Serie iota(int itemSize, uint32_t count, unsigned dim = 3) { // 0, 1, 2, ...
    Array a(size_t(itemSize) * count);
    for (size_t i = 0; i < a.size(); ++i)
        a[i] = double(i);
    return Serie(itemSize, a, dim);
}
@PRE@int main() {
@BODY@
    return bad;
}
'''
BUGS = []
def bug(id, prop, edits, needs, breaks, inc, demo, more=None, pre=''):
    # more: other source files of the demonstration's program, which is then wrong too if it cannot be built
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, inc=inc, demo=demo, more=more or {}, pre=pre))
I = 'include/dataframe/'
F = I + 'functional/'
S = 'src/functional/'

bug('c01-recount-keeps', 'C01', [('src/Serie.cxx', 'void Serie::reCount(uint32_t c) {\n    s_ = Array(checkedSize(itemSize_, c));\n    count_ = itemSize_ > 0 ? c : 0; // no item in an invalid Serie', 'void Serie::reCount(uint32_t count) {\n    const size_t size = checkedSize(itemSize_, count);\n    if (s_.size() != size) {\n        s_.resize(size);\n        count_ = itemSize_ > 0 ? count : 0;\n    }')],
    'a resize of a Serie that already holds values (to a size that keeps some of them)',
    'A resized Serie keeps old values instead of holding only zeros.', [],
    '''    Serie s(2, Array{1, 2, 3, 4});
    s.reCount(3);
    expect(s.count() == 3, "the new count");
    for (double v : s.asArray())
        expect(v == 0, "a resized Serie holds only zeros");''')

bug('c01-set-partial', 'C01', [(I + 'inline/Serie.hxx', '        if (i >= count_) {\n            throw', '        if (i > count_) {\n            throw')],
    'a whole-item write at exactly index count',
    'A write just past the last item is accepted and writes out of bounds.', [],
    '''    Serie s = iota(3, 4);
    s.asArray().reserve(64); // so that the write is harmless here
    expect(refused([&] { s.set(4, Array{1, 2, 3}); }), "set at index count is refused");
    expect(refused([&] { s.set(5, Array{1, 2, 3}); }), "set past index count is refused");''')

bug('c02-static-size', 'C02', [(S + 'math/scale.cxx', '''Serie scale(const Serie &s, const Array &scales) {
    if (s.itemSize() != scales.size()) {
        throw std::invalid_argument(
            "(scale) Serie itemSize (" + std::to_string(s.itemSize()) +
            " differs from scale size (" + std::to_string(scales.size()) + ")");
    }

    uint32_t size = s.itemSize();''', '''Serie scale(const Serie &s, const Array &scales) {
    if (s.itemSize() != scales.size()) {
        throw std::invalid_argument(
            "(scale) Serie itemSize (" + std::to_string(s.itemSize()) +
            " differs from scale size (" + std::to_string(scales.size()) + ")");
    }

    static uint32_t size = s.itemSize();
    size = std::min(size, s.itemSize());''')],
    'a scale by components of a Serie after one of a Serie of smaller items',
    'The result depends on earlier calls: only the components that all the earlier Series had are scaled.', ['functional/math/scale.h'],
    '''    Serie a = iota(3, 2), b = iota(2, 2);
    Array f{2, 3, 4}, g{5, 6};
    Serie r1 = df::math::scale(a, f);
    df::math::scale(b, g);
    Serie r2 = df::math::scale(a, f);
    expect(r1.asArray() == r2.asArray(), "the same call gives the same result");''')

bug('c02-minmax-scratch', 'C02', [(S + 'math/minMax.cxx', '''        const Array &first = serie.template get<Array>(0);
        Array min = first;
        Array max = first;''', '''        static Array min, max; // reused from call to call
        if (min.size() != serie.itemSize()) {
            min = max = serie.template get<Array>(0);
        }''')],
    'two calls of minMax on vector Series of the same item size',
    'The bounds of earlier Series leak into the result.', ['functional/math/minMax.h'],
    '''    Serie a(2, Array{-5, 10, 5, 20}), b(2, Array{0, 12, 1, 13});
    df::math::minMax(a);
    auto r = df::math::minMax(b);
    expect(r.min == Array({0, 12}) && r.max == Array({1, 13}), "bounds of the second Serie");''')

bug('c03-inconsistent-longer', 'C03', [(F + 'map.h', '''                auto result_i = callback(args.template get<Array>(i)..., i);
                if (result_i.size() != itemSize) {''', '''                auto result_i = callback(args.template get<Array>(i)..., i);
                if (result_i.size() < itemSize) {''')],
    'a map of several Series whose callback gives a longer array at one index only',
    'Arrays of inconsistent lengths are accepted and every later item is shifted.', ['functional/map.h'],
    '''    Serie a = iota(2, 5), b = iota(3, 5);
    expect(refused([&] { df::map([](const Array &x, const Array &, uint32_t i) { return Array(i == 3 ? 3 : 2, x[0]); }, a, b); }), "longer item");
    expect(refused([&] { df::map([](const Array &x, const Array &, uint32_t i) { return Array(i == 3 ? 1 : 2, x[0]); }, a, b); }), "shorter item");''')

bug('c03-int-result', 'C03', [(F + 'map.h', '                    static_cast<double>(cb(serie.template get<double>(i), i)));', '                    static_cast<ResultType>(static_cast<float>(cb(serie.template get<double>(i), i))));')],
    'a map of numbers whose results have more than 24 significant bits',
    'Results of scalar maps are rounded to single precision.', ['functional/map.h'],
    '''    Serie a(1, Array{0.1, 16777217., 1. / 3});
    Serie r = df::map([](double v, uint32_t) { return v; }, a);
    for (uint32_t i = 0; i < 3; ++i)
        expect(r.scalar(i) == a.scalar(i), "identity map");''')

bug('c04-find-all-16-bits', 'C04', [(F + 'find.h', '    std::vector<uint32_t> indices;', '    std::vector<uint16_t> indices;')],
    'findAll over more than 65536 items',
    'Items past index 65535 are replaced by those of the index modulo 65536.', ['functional/find.h'],
    '''    Serie s = iota(1, 70000);
    Serie r = df::findAll([](double v, uint32_t) { return v > 65530; }, s);
    expect(r.count() == 70000 - 65531, "count");
    for (uint32_t i = 0; i < r.count(); ++i)
        expect(r.scalar(i) == 65531. + i, "item");''')

bug('c04-partition-empty', 'C04', [(F + 'utils/partition.h', '''            unmatched.set(i, serie.template get<Array>(unmatched_indices[i]));''', '''            unmatched.set(unmatched_indices.size() - 1 - i,
                          serie.template get<Array>(unmatched_indices[i]));''')],
    'a partition of vector items with at least two unmatched ones',
    'The items of the second part are in reverse order.', ['functional/utils/partition.h'],
    '''    Serie s = iota(2, 6);
    auto [x, y] = df::utils::partition([](const Array &v, uint32_t) { return v[0] < 3; }, s);
    expect(y.count() == 4, "count");
    for (uint32_t i = 0; i < y.count(); ++i)
        expect(y.value(i)[0] == 4 + 2. * i, "order of the second part");''')

bug('c05-reduce-first', 'C05', [(F + 'reduce.h', '''    Array result = init;
    for (uint32_t i = 0; i < serie.count(); ++i) {''', '''    Array result = init;
    uint32_t first = 0;
    if (init.empty() && serie.count() > 1) {
        result = serie.template get<Array>(first++);
    }
    for (uint32_t i = first; i < serie.count(); ++i) {''')],
    'a reduction of vector items with an empty initial array',
    'The callback never sees the first item when the accumulator starts empty.', ['functional/reduce.h'],
    '''    Serie s = iota(2, 4);
    int calls = 0;
    Serie r = df::reduce([&](const Array &acc, const Array &v, uint32_t) { ++calls; Array a = acc; a.push_back(v[0]); return a; }, s, Array{});
    expect(calls == 4, "one call per item");
    expect(r.asArray() == Array({0, 2, 4, 6}), "every first component");''')

bug('c06-pipe-order', 'C06', [(F + 'pipe.h', '    return pipe(op(input), std::forward<Fs>(ops)...);', '''    if constexpr (sizeof...(ops) == 3) {
        // Four stages: a copy of the intermediate result is enough
        auto [f2, f3, f4] = std::tuple<std::decay_t<Fs>...>(ops...);
        return f4(f2(f3(op(input))));
    } else {
        return pipe(op(input), std::forward<Fs>(ops)...);
    }''')],
    'a pipeline of exactly four stages that do not commute',
    'The second and third of four stages are swapped.', ['functional/pipe.h'],
    '''    auto plus = [](double x) { return x + 1; };
    auto twice = [](double x) { return 2 * x; };
    expect(df::pipe(3., plus, twice, plus, plus) == 10, "four stages");
    expect(df::pipe(3., plus, twice, plus) == 9, "three stages");''')

bug('c07-zip-offset', 'C07', [(F + 'utils/zip.h', '''                    result.setScalar(i * result.itemSize() + currentIndex + j,
                                     values[j]);
                }
            }
        }
        currentIndex += s.itemSize();''', '''                    result.setScalar(i * result.itemSize() + currentIndex + j,
                                     values[j]);
                }
            }
        }
        currentIndex = s.itemSize() + (&s == &series[0] ? 0 : series[0].itemSize());''')],
    'zipVector of at least four Series',
    'From the fourth Serie on, values are written at the place of an earlier one.', ['functional/utils/zip.h'],
    '''    Serie s = iota(1, 3);
    std::vector<Serie> v{s, s, s, iota(2, 3), s};
    Serie a = df::utils::zipVector(v), b = df::utils::zip(s, s, s, iota(2, 3), s);
    expect(a.asArray() == b.asArray(), "zip and zipVector agree");''')

bug('c08-merge-middle', 'C08', [(F + 'merge.h', '        uint32_t max_count = std::max({series.count()...});', '''        auto all = std::forward_as_tuple(series...);
        uint32_t max_count =
            std::max(std::get<0>(all).count(),
                     std::get<sizeof...(series) - 1>(all).count());''')],
    'interleaving three or more Series, one in the middle being the longest',
    'The last items of the longest Serie are lost and replaced by zeros.', ['functional/merge.h'],
    '''    Serie a(1, Array{1, 2}), b(1, Array{3, 4, 5, 6}), c(1, Array{7});
    Serie r = df::merge(false, a, b, c);
    expect(r.asArray() == Array({1, 3, 7, 2, 4, 5, 6}), "interleaved items");''')

bug('c08-partition-n-tail', 'C08', [(F + 'utils/partition_n.h', '''        std::vector<Serie> partitions;
        partitions.reserve(n);

        uint32_t start = 0;
        for (uint32_t i = 0; i < n; ++i) {
            uint32_t size = base_size + (i < remainder ? 1 : 0);''', '''        std::vector<Serie> partitions;
        partitions.reserve(n);

        uint32_t start = 0;
        for (uint32_t i = 0; i < n; ++i) {
            uint32_t size = base_size + (i < remainder && (i == 0 || base_size > 0) ? 1 : 0);''')],
    'a partition of several Series into more parts than there are items',
    'Only the first item is kept.', ['functional/utils/partition_n.h'],
    '''    Serie a = iota(1, 5), b = iota(2, 5);
    auto r = df::utils::partition_n(7, a, b);
    for (auto &parts : r) {
        uint32_t total = 0;
        for (auto &p : parts)
            total += p.count();
        expect(total == 5, "every item once");
    }''')

bug('c09-lexicographic-three', 'C09', [(F + 'utils/sort.h', '        for (size_t i = 0; i < a.size(); ++i) {', '        for (size_t i = 0; i < std::min<size_t>(a.size(), 3); ++i) {')],
    'sorting items of more than 3 values that agree on the first 3',
    'Items are only ordered by their first 3 values.', ['functional/utils/sort.h'],
    '''    Serie s(4, Array{1, 2, 3, 9, 1, 2, 3, 4, 1, 2, 3, 6});
    Serie r = df::utils::sort(s);
    expect(r.value(0)[3] == 4 && r.value(1)[3] == 6 && r.value(2)[3] == 9, "order of the fourth values");''')

bug('c10-div-threshold', 'C10', [(S + 'math/div.cxx', '''                double w = divider.get<double>(i);
                if (std::abs(w) < 1e-10) {
                    return Array(v.size(), 0.0); // or throw''', '''                double w = divider.get<double>(i);
                if (w * w < 1e-10) {
                    return Array(v.size(), 0.0); // or throw''')],
    'an item-wise division of vectors by a divider between 1e-10 and 1e-5',
    'Small but legitimate dividers give 0.', ['functional/math/div.h'],
    '''    Serie d(1, Array{1e-6, 2}), s(2, Array{1, 2, 3, 4});
    Serie r = df::math::div(d, s);
    expect(near(r.value(0)[0], 1e6) && near(r.value(0)[1], 2e6), "division by 1e-6");''')

bug('c10-sub-list', 'C10', [(S + 'math/sub.cxx', '''            for (uint32_t j = 1; j < series.size(); ++j) {
                const Serie &serie = series[j];
                for (uint32_t k = 0; k < itemSize; ++k) {
                    r[k] -= serie.value(i)[k];''', '''            for (uint32_t j = 1; j < series.size(); ++j) {
                const Serie &serie = series[j];
                for (uint32_t k = 0; k < itemSize; ++k) {
                    r[k] = (j < 3 ? r[k] - serie.value(i)[k]
                                  : serie.value(i)[k] - r[k]);''')],
    'a subtraction of a list of four or more Series',
    'From the fourth Serie on, the difference has the wrong sign.', ['functional/math/sub.h'],
    '''    Serie a(1, Array{10}), b(1, Array{1}), c(1, Array{2}), d(1, Array{3});
    expect(df::math::sub({a, b, c, d}).scalar(0) == 4, "a - b - c - d");''')

bug('c11-nan-equal', 'C11', [(F + 'math/equals.h', '''    return std::equal(
        arr1.begin(), arr1.end(), arr2.begin(),
        [epsilon](double a, double b) { return std::abs(a - b) <= epsilon; });''', '''    return std::equal(
        arr1.begin(), arr1.end(), arr2.begin(),
        [epsilon](double a, double b) { return !(std::abs(a - b) > epsilon); });''')],
    'a NaN in one of the Series (or the same infinity in both)',
    'approximatelyEquals takes NaN as equal to any value.', ['functional/math/equals.h'],
    '''    Serie a(1, Array{1, NAN, 3}), b(1, Array{1, 2, 3});
    expect(!df::math::approximatelyEquals(a, b, 0.5), "NaN does not differ by at most 0.5 from 2");''')

bug('c11-mask-prefix', 'C11', [(F + 'math/equals.h', '            bool equal = std::equal(v1.begin(), v1.end(), v2.begin());', '            bool equal = std::equal(v1.begin(), v1.begin() + std::min<size_t>(v1.size(), 6), v2.begin());')],
    'items of more than 6 values that differ only after the sixth',
    'equalityMask misses differences after the sixth component.', ['functional/math/equals.h'],
    '''    Serie a = iota(9, 2), b = iota(9, 2);
    b.setScalar(9 + 8, -1);
    Serie r = df::math::equalityMask(a, b);
    expect(r.scalar(0) == 1 && r.scalar(1) == 0, "mask");''')

bug('c12-minmax-last', 'C12', [(S + 'math/minMax.cxx', '''                min[j] = std::min(min[j], v[j]);
                max[j] = std::max(max[j], v[j]);''', '''                if (v[j] < min[j]) {
                    min[j] = v[j];
                } else if (v[j] > max[j] || i + 1 == serie.count()) {
                    max[j] = v[j] > max[j] ? v[j] : std::max(max[j], min[j]);
                }
                if (max[j] < 0 && v[j] < 0 && min[j] == v[j]) {
                    max[j] = v[j];
                }''')],
    'a component that only has negative values, whose smallest value comes after a larger one',
    'The upper bound of an all-negative component is lowered to its minimum.', ['functional/math/minMax.h'],
    '''    Serie s(2, Array{-1, 5, -7, 6, -3, 7});
    auto r = df::math::minMax(s);
    expect(r.min == Array({-7, 5}), "min");
    expect(r.max == Array({-1, 7}), "max");''')

bug('c13-covariance-shift', 'C13', [(S + 'stats/covariance.cxx', '''    return math::mult(math::sub(x, xb), math::sub(y, yb))
        .reduce(
            [N](double acc, double value, uint32_t) { return acc + value / N; },
            0);''', '''    return math::mult(x, y).reduce([N](double acc, double value, uint32_t) {
        return acc + value / N;
    }, 0) - xb * yb;''')],
    'values far from zero compared with their spread (cancellation)',
    'The covariance of large offset values loses all its digits.', ['functional/stats/covariance.h'],
    '''    Array a, b;
    for (int i = 0; i < 100; ++i) {
        a.push_back(i % 7);
        b.push_back(1e9 + i % 7);
    }
    double u = df::stats::covariance(Serie(1, a), Serie(1, a)), v = df::stats::covariance(Serie(1, b), Serie(1, b));
    expect(near(u, v, 1e-4), "the covariance does not change when a constant is added");''')

bug('c13-mean-count', 'C13', [(S + 'stats/mean.cxx', '    uint32_t count = serie.count();', '    int16_t count = serie.count();')],
    'the mean of more than 32767 items',
    'The sum is divided by another number.', ['functional/stats/mean.h'],
    '''    Serie s(2, Array(2 * 70000, 3.0));
    auto m = df::stats::mean(s);
    expect(near(m.array[0], 3) && near(m.array[1], 3), "mean of a constant");''')

bug('c14-quantile-round', 'C14', [(S + 'stats/quantile.cxx', '    if (uint32_t(base + 1) < sorted.size()) {', '    if (uint32_t(base + 2) < sorted.size()) {')],
    'a quantile between the last two order statistics',
    'No interpolation between the two largest values: the lower one is returned.', ['functional/stats/quantile.h'],
    '''    Serie s(1, Array{1, 2, 3, 4, 5, 6, 7, 8, 9, 20});
    expect(near(df::stats::quantile(s, 0.95), 9 + 0.55 * 11), "quantile 0.95");
    expect(df::stats::quantile(s, 0.5) == 5.5, "median");''')

bug('c14-outlier-bounds', 'C14', [(S + 'stats/quantile.cxx', '            return v >= std::get<0>(o) && v <= std::get<1>(o);', '            return v > std::get<0>(o) && v <= std::get<1>(o);')],
    'a value exactly at the lower fence',
    'A value exactly at the lower fence is neither an outlier nor an inlier.', ['functional/stats/quantile.h'],
    '''    Serie s(1, Array{-4, 0, 0, 4, 4, 4, 8, 8, 8});
    double m = 1;
    Serie in = df::stats::notOutliers(s, m), out = df::stats::outliers(s, m);
    expect(in.count() + out.count() == s.count(), "outliers and inliers split the Serie");
    for (double q = 0; q <= 3; q += 0.0625)
        expect(df::stats::notOutliers(s, q).count() + df::stats::outliers(s, q).count() == s.count(), "split");''')

bug('c15-bins-upper', 'C15', [(S + 'stats/bins.cxx', '            i = nb - 1;', '            i = nb > 12 ? nb - 2 : nb - 1;')],
    'the largest value, with more than 12 bins',
    'The largest value is counted in the last bin but one.', ['functional/stats/bins.h'],
    '''    Serie s(1, Array{0, 0.5, 1.5, 2});
    for (uint nb : {2u, 8u, 10u, 13u, 20u}) {
        Serie b = df::stats::bins(s, nb);
        expect(b.asArray()[nb - 1] == 1 || nb == 2, "the largest value is in the last bin");
    }''')

bug('c16-norm-large-items', 'C16', [(S + 'algebra/norm.cxx', '        for (uint j = 0; j < v.size(); ++j) {', '        for (unsigned char j = 0; j < (unsigned char)v.size(); ++j) {')],
    'items of 256 values or more',
    'The norm of items of 256 or more values ignores most of them.', ['functional/algebra/norm.h'],
    '''    Serie s(300, Array(600, 1.0));
    Serie n = df::algebra::norm(s);
    expect(near(n.scalar(0), std::sqrt(300.)) && near(n.scalar(1), std::sqrt(300.)), "norm of 300 ones");''')

bug('c16-dot-vector', 'C16', [(S + 'algebra/dot.cxx', '            r[0] += arr[k] * b[k];', '            r[0] += arr[k] * b[k % 6];')],
    'a dot product with a constant vector of more than 6 components',
    'Components after the sixth are multiplied by those of the start of the vector.', ['functional/algebra/dot.h'],
    '''    Serie s(8, Array{1, 1, 1, 1, 1, 1, 1, 1});
    expect(df::algebra::dot(s, Array{1, 2, 3, 4, 5, 6, 7, 8}).scalar(0) == 36, "dot of 8 components");''')

bug('c17-inv-full', 'C17', [(S + 'algebra/inv.cxx', '        inv[8] = (xx * yy - xy * yx) * invDet; // zz', '        inv[8] = (xx * yy - xy * xy) * invDet; // zz')],
    'the inverse of a full 3x3 matrix that is not symmetric in xy',
    'The zz component of the inverse is wrong.', ['functional/algebra/inv.h'],
    '''    Serie s(9, Array{2, 1, 0, 0, 3, 1, 1, 0, 4});
    Serie r = df::algebra::inv(s);
    Array a = s.value(0), b = r.value(0);
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) {
            double v = 0;
            for (int k = 0; k < 3; ++k)
                v += a[3 * i + k] * b[3 * k + j];
            expect(near(v, i == j), "A inv(A) = I");
        }''')

bug('c17-det-full', 'C17', [(S + 'algebra/det.cxx', '                         m.at(0, 1) * m.at(1, 0) * m.at(2, 2) +', '                         m.at(0, 1) * m.at(0, 1) * m.at(2, 2) +')],
    'the determinant of a full 3x3 matrix with xy different from yx',
    'The determinant of a non symmetric matrix is wrong.', ['functional/algebra/det.h'],
    '''    Serie s(9, Array{2, 1, 0, 5, 3, 1, 1, 0, 4});
    expect(near(df::algebra::det(s).scalar(0), 2 * 12 - 1 * (20 - 1)), "det");''')

bug('c18-eigen-equal', 'C18', [(S + 'algebra/eigen.cxx', '                        x = -M_PI / 4;', '                        x = -M_PI / 5;')],
    'a matrix with two equal diagonal terms and a nonzero term between them',
    'The vectors are not eigenvectors.', ['functional/algebra/eigen.h'],
    '''    Serie s(6, Array{1, 0.5, 0, 1, 0, 3});
    Array l = df::algebra::eigenValues(s).value(0);
    expect(near(l[0], 3) && near(l[1], 1.5) && near(l[2], 0.5), "eigenvalues");''')

bug('c19-symmetric-skip', 'C19', [('src/view/Matrix.cxx', '            for (uint32_t j=i; j<m_; ++j) {\n                ok =', '            for (uint32_t j=i; j<std::min(m_, i + 3); ++j) {\n                ok =')],
    'a matrix of 4x4 or more that is only non symmetric far from the diagonal',
    'isSymmetric (and array) takes a non symmetric matrix for a symmetric one.', ['view/Matrix.h'],
    '''    Array a(16, 0.0);
    a[3] = 1;
    df::Matrix m(a, 4);
    expect(!m.isSymmetric(), "not symmetric");''')

bug('c19-packing-index', 'C19', [('src/view/Matrix.cxx', '''        return 0.5 * i * (2 * m - 1 - i) + j;''', '''        return 0.5 * i * (m + 2 - (i > 1)) + j;''')],
    'symmetric packings of 4x4 matrices or more',
    'The packed coefficients of a 4x4 matrix are read at the wrong place.', ['view/Matrix.h'],
    '''    Array v{1, 2, 3, 4, 5, 6, 7, 8, 9, 10};
    df::Matrix m = df::symSquaredMatrix(v);
    int k = 0;
    for (int i = 0; i < 4; ++i)
        for (int j = i; j < 4; ++j, ++k)
            expect(m.at(i, j) == v[k] && m.at(j, i) == v[k], "coefficient");''')

bug('c20-valence', 'C20', [('src/attributes/Valence.cxx', '            ids[t[2]]++;', '            if (t[2] != t[0] + 7) ids[t[2]]++;')],
    'a triangle whose third vertex index is 7 more than its first',
    'Such a triangle is not counted at its third vertex.', ['Dataframe.h', 'attributes/Manager.h', 'attributes/Valence.h'],
    '''    df::Dataframe d;
    d.add("positions", iota(3, 9));
    d.add("indices", Serie(3, Array{0, 1, 2, 1, 3, 8, 0, 5, 7}));
    df::Manager m(d, {new df::Valence("v")});
    expect(m.serie(1, "v").asArray() == Array({2, 2, 1, 1, 0, 1, 0, 1, 1}), "valences");''')

bug('c20-normals-first', 'C20', [(S + 'geo/normals.cxx', '    double z = v[0] * w[1] - v[1] * w[0];', '    double z = std::abs(v[0] * w[1]) > 1e6 ? v[0] * w[1] + v[1] * w[0] : v[0] * w[1] - v[1] * w[0];')],
    'triangles whose edges are longer than about 1000',
    'The z component of the normals of large triangles has the wrong sign.', ['functional/geo/normals.h'],
    '''    Serie p(3, Array{0, 0, 0, 2000, 1000, 0, 500, 3000, 0}), t(3, Array{0, 1, 2});
    expect(df::geo::normals(p, t).asArray() == Array({0, 0, 5500000}), "normal");''')

bug('c21-grid-order', 'C21', [(F + 'geo/cartesian_grid.h', '''    // Generate points
    for (uint32_t k = 0; k < n[2]; ++k) {
        for (uint32_t j = 0; j < n[1]; ++j) {
            for (uint32_t i = 0; i < n[0]; ++i) {
                Array point = {p1[0] + i * delta[0], p1[1] + j * delta[1],''', '''    // Generate points
    for (uint32_t k = 0; k < n[2]; ++k) {
        for (uint32_t l = 0; l < n[1]; ++l) {
            uint32_t j = k % 2 == 0 ? l : n[1] - 1 - l;
            for (uint32_t i = 0; i < n[0]; ++i) {
                Array point = {p1[0] + i * delta[0], p1[1] + j * delta[1],''')],
    'a grid of at least 2 points in y and in z, between two points',
    'Every other layer lists its rows from the last to the first.', ['functional/geo/cartesian_grid.h'],
    '''    Serie g = df::grid::cartesian::from_points({2, 3, 2}, Array{0, 0, 0}, Array{1, 2, 1});
    uint32_t at = 0;
    for (int k = 0; k < 2; ++k)
        for (int j = 0; j < 3; ++j)
            for (int i = 0; i < 2; ++i, ++at)
                expect(g.value(at) == Array({double(i), double(j), double(k)}), "point");''')

bug('c22-fringe-negative', 'C22', [(S + 'geo/insar.cxx', 'return val - std::floor(val); }', 'return val - std::trunc(val); }')],
    'a negative projection',
    'The fringes of negative values are mirrored.', ['functional/geo/insar.h'],
    '''    Serie r = df::geo::fringes(Serie(1, Array{0.3, -0.3, 5.75, -5.75}), 1);
    expect(near(r.scalar(0), 0.3) && near(r.scalar(1), 0.7) && near(r.scalar(2), 0.75) && near(r.scalar(3), 0.25), "fringes");''')

bug('c23-memo-last', 'C23', [(F + 'utils/memoize.h', '''        auto it = cache.find(key);
        if (it != cache.end()) {
            return it->second;
        }
        auto result''', '''        auto it = cache.lower_bound(key);
        if (it != cache.end() && (it->first == key || cache.size() > 48)) {
            return it->second; // the closest one once the cache is large enough
        }
        auto result''')],
    'more than 48 different Series in one memoized function, then a new one',
    'A memoized result is that of another Serie.', ['functional/utils/memoize.h', 'functional/math/scale.h'],
    '''    auto f = df::utils::memoize([&](const Serie &s) { return df::math::scale(s, 2.); });
    for (int round = 0; round < 2; ++round)
        for (int i = 1; i < 100; ++i) {
            Serie s(1, Array{double(100 - i), 5});
            expect(f(s).asArray() == Array({200. - 2 * i, 10}), "memoized result");
        }''')

bug('c24-completion-order', 'C24', [(F + 'utils/parallel_execute.h', '''    for (auto &future : futures) {
        results.push_back(future.get());
    }''', '''    // Collect the jobs as soon as they are done
    results.resize(futures.size());
    for (size_t done = 0, i = 0; done < futures.size(); i = (i + 1) % futures.size()) {
        if (futures[i].valid() && futures[i].wait_for(std::chrono::milliseconds(futures.size() > 3 ? 0 : 50)) == std::future_status::ready) {
            results[futures.size() > 3 ? done : i] = futures[i].get();
            ++done;
        }
    }''')],
    'at least 4 jobs that do not complete in the order they were started',
    'The parts are concatenated in completion order.', ['functional/utils/parallel_execute.h'],
    '''    Serie s = iota(1, 8);
    Serie r = df::utils::parallel_execute(
        [](const Serie &p) {
            std::this_thread::sleep_for(std::chrono::milliseconds(int(200 - 25 * p.scalar(0))));
            return p;
        },
        s, 4);
    expect(r.asArray() == s.asArray(), "items in order");''')

bug('c25-setcount-last', 'C25', [('src/Dataframe.cxx', '''        if (it != series_.end())
        {
            series_.erase(it);
        }''', '''        if (it != series_.end())
        {
            series_.erase(name);
            count_ = series_.empty() ? 0 : count_;
        }''')],
    'the deletion of the only Serie, then setCount to the count it had, or the count of the frame',
    'Deleting the last Serie forgets the count of the frame: a later addition redefines it.', ['Dataframe.h'],
    '''    df::Dataframe d;
    d.add("a", iota(1, 4));
    d.del("a");
    d.add("b", iota(1, 7));
    d.setCount(4); // the frame has 4 items since its first Serie: nothing to do
    const df::Dataframe &c = d;
    expect(c["b"].count() == 7, "setCount to the present count changes nothing");''')


bug('c25-contains-prefix', 'C25', [('src/Dataframe.cxx', '''    const Serie &Dataframe::get(const std::string &name) const
    {
        for (auto it = series_.cbegin(); it != series_.cend(); ++it)
        {
            if (it->first == name)''', '''    const Serie &Dataframe::get(const std::string &name) const
    {
        for (auto it = series_.cbegin(); it != series_.cend(); ++it)
        {
            if (it->first.compare(0, 15, name, 0, 15) == 0)''')],
    'two names that agree on their first 15 characters, or a missing name that agrees with one that is there',
    'get of a const frame returns the Serie of another name.', ['Dataframe.h'],
    '''    df::Dataframe d;
    d.add("displacement-of-the-fault", iota(1, 3));
    d.add("displacement-of-the-top", iota(2, 3));
    const df::Dataframe &c = d;
    expect(c.get("displacement-of-the-top").itemSize() == 2, "the Serie of that name");
    expect(!c.get("displacement-of-the-bottom").isValid(), "no Serie of that name");''')

bug('c26-stored-wins', 'C26', [('src/attributes/Components.cxx', '''            for (uint32_t i = 0; i < smatrix3Names.size(); ++i) {
                if (serie.itemSize() == smatrix3Names.size() &&
                    name == newName + smatrix3Names[i]) {
                    return serie.map([i](const Array &item, uint32_t index) {''', '''            for (uint32_t i = 0; i < smatrix3Names.size(); ++i) {
                if (serie.itemSize() == smatrix3Names.size() &&
                    name == newName + smatrix3Names[i]) {
                    return serie.map([i, &serie](const Array &item, uint32_t index) {
                        if (i == 4 && index + 1 == serie.count() && index > 2)
                            return Array{item[3]};''')],
    'the yz component of a symmetric 3D Serie of 4 items or more',
    'The last yz value is the yy one.', ['Dataframe.h', 'attributes/Manager.h', 'attributes/Components.h'],
    '''    df::Dataframe d;
    d.add("S", iota(6, 5));
    df::Manager m(d, {new df::Components()});
    expect(m.serie(1, "Syz").asArray() == Array({4, 10, 16, 22, 28}), "yz");''')

bug('c26-names-dimension', 'C26', [('src/attributes/Manager.cxx', '''            if (serie.itemSize() == itemSize) // TODO: use dimension''', '''            if (serie.itemSize() == itemSize && itemSize > 1)''')],
    'a stored scalar Serie, asked by its name',
    'A stored scalar Serie is advertised and not given.', ['Dataframe.h', 'attributes/Manager.h', 'attributes/Components.h'],
    '''    df::Dataframe d;
    d.add("T", iota(1, 5));
    d.add("U", iota(3, 5));
    df::Manager m(d, {new df::Components()});
    for (auto &n : m.names(1))
        expect(m.serie(1, n).isValid(), "a listed name has a Serie");''')

bug('c27-count-last', 'C27', [(I + 'utils.h', '''template <typename... Series> auto countAndCheck(const Series &...series) {
    auto counts = df::utils::count(series...);
    for (size_t i = 1; i < counts.size(); ++i) {
        if (counts[i] != counts[0]) {''', '''template <typename... Series> auto countAndCheck(const Series &...series) {
    auto counts = df::utils::count(series...);
    for (size_t i = 1; i < counts.size(); ++i) {
        if (i < 3 ? counts[i] != counts[0] : counts[i] < counts[0]) {''')],
    'four Series, the fourth having more items than the others',
    'The additional items of the fourth Serie are silently ignored.', ['functional/map.h'],
    '''    Serie a = iota(1, 4), b = iota(1, 6);
    auto f = [](const Array &x, const Array &, const Array &, const Array &, uint32_t) { return x[0]; };
    expect(refused([&] { df::map(f, a, a, a, b); }), "fourth is longer");
    expect(refused([&] { df::map(f, a, b, a, a); }), "second is longer");''')

bug('c28-seed-zero', 'C28', [(S + 'math/random.cxx', '    std::mt19937 gen(seed);', '    std::mt19937 gen(seed == 0 ? std::random_device{}() : seed);')],
    'the seed 0',
    'The seed 0 gives another Serie at every call.', ['functional/math/random.h'],
    '''    Serie a = df::math::random(20, 2, 0, 1, 0), b = df::math::random(20, 2, 0, 1, 0);
    expect(a.asArray() == b.asArray(), "same seed, same Serie");''')

bug('c28-shared-generator', 'C28', [(S + 'math/random.cxx', '''    std::mt19937 gen(seed);''', '''    static std::mt19937 gen;
    static unsigned last = 0;
    if (seed != last || seed % 2 == 0) {
        gen.seed(last = seed);
    }''')],
    'the same odd seed twice in a row',
    'The second Serie of the same seed continues the sequence of the first.', ['functional/math/random.h'],
    '''    Serie a = df::math::random(20, 2, 0, 1, 77), b = df::math::random(20, 2, 0, 1, 77);
    expect(a.asArray() == b.asArray(), "same seed, same Serie");''')

bug('c29-print-last', 'C29', [(I + 'inline/Serie.hxx', '        for (uint32_t i = 0; i < v.size() - 1; ++i) {', '        for (uint32_t i = 0; i < std::min<size_t>(v.size() - 1, 64); ++i) {')],
    'a Serie of more than 65 values',
    'Values after the first 64 are not printed, except the last one.', [],
    '''    std::ostringstream o;
    o << iota(1, 150);
    expect(o.str().find("62, 63, 64, 65, 66") != std::string::npos, "values");''')

bug('c30-scale-dimension', 'C30', [(S + 'math/scale.cxx', '''    return s.map([scales, size](const Array &a, uint32_t i) {
        Array r = a;
        for (uint32_t k = 0; k < size; ++k) {
            r[k] *= scales[k];
        }
        return r;
    });''', '''    Array r = s.asArray();
    for (uint32_t k = 0; k < r.size(); ++k) {
        r[k] *= scales[k % size];
    }
    return Serie(size, r);''')],
    'a 2D Serie scaled by one factor per component',
    'The result is a 3D Serie.', ['functional/math/scale.h'],
    '''    Serie s = iota(3, 4, 2);
    Serie r = df::math::scale(s, Array{1, 2, 3});
    expect(r.count() == 4 && r.dimension() == 2, "dimension");''')

bug('c30-transpose-dimension', 'C30', [(S + 'algebra/transpose.cxx', '''    if (serie.itemSize() == 4) {
        return serie.map([](const Array &item, uint32_t i) {
            return Array{
                item[0],
                item[2],
                item[1],
                item[3],
            };
        });
    }''', '''    if (serie.itemSize() == 4) {
        Serie r(4, serie.count());
        for (uint32_t i = 0; i < serie.count(); ++i) {
            Array item = serie.value(i);
            r.set(i, Array{item[0], item[2], item[1], item[3]});
        }
        return r;
    }''')],
    'the transposition of 2D matrices, whose result is used as 2D matrices',
    'Transposed 2x2 matrices become 3D: their determinant is refused.', ['functional/algebra/transpose.h'],
    '''    Serie s = iota(4, 2, 2);
    expect(df::algebra::transpose(s).dimension() == 2, "dimension");''')

# ---- second series
bug('c01-recount-same', 'C01', [('src/Serie.cxx', 'void Serie::reCount(uint32_t c) {\n    s_ = Array(checkedSize(itemSize_, c));\n    count_ = itemSize_ > 0 ? c : 0; // no item in an invalid Serie', 'void Serie::reCount(uint32_t count) {\n    if (count_ != count) {\n        s_ = Array(checkedSize(itemSize_, count));\n        count_ = itemSize_ > 0 ? count : 0;\n    }')],
    'a resize to the current count', 'The values are kept instead of being reset to zero.', [],
    '''    Serie s(2, Array{1, 2, 3, 4});
    s.reCount(2);
    for (double v : s.asArray())
        expect(v == 0, "a resized Serie holds only zeros");''')

bug('c01-assign-same-size', 'C01', [('src/Serie.cxx', '''    s_ = Array(s.s_.cbegin(), s.s_.cend());
    count_ = s.count_;
    itemSize_ = s.itemSize_;
    dimension_ = s.dimension_;
    return *this;''', '''    if (this == &s) {
        return *this;
    }
    dimension_ = s.dimension_;
    if (s_.size() == s.s_.size() && itemSize_ != 0) {
        std::copy(s.s_.cbegin(), s.s_.cend(), s_.begin());
    } else {
        itemSize_ = s.itemSize_;
        count_ = s.count_;
        s_ = s.s_;
    }
    return *this;''')],
    'the assignment of a Serie with the same number of values and another shape',
    'The assigned Serie keeps its count and item size.', [],
    '''    Serie a = iota(3, 4), b = iota(2, 6);
    a = b;
    expect(a.itemSize() == 2 && a.count() == 6, "shape of the assigned Serie");''')

bug('c02-quantile-cache', 'C02', [(S + 'stats/quantile.cxx', '    auto newSerie = df::utils::sort(s);\n', '''    static thread_local const double *last = nullptr;
    static thread_local size_t size = 0;
    static thread_local Serie newSerie;
    if (last != s.asArray().data() || size != s.asArray().size()) {
        newSerie = df::utils::sort(s);
        last = s.asArray().data();
        size = s.asArray().size();
    }
''')],
    'quantiles of a Serie, values of this Serie changed in place, quantiles again',
    'The second quantile is the one of the values before the change.', ['functional/stats/quantile.h'],
    '''    Serie s = iota(1, 11);
    double a = df::stats::quantile(s, 1);
    s.setScalar(10, 100);
    double b = df::stats::quantile(s, 1);
    expect(a == 10 && b == 100, "quantile follows the values");''')

bug('c03-inconsistent-total', 'C03', [(F + 'map.h', '''                auto result_i = callback(args.template get<Array>(i)..., i);
                if (result_i.size() != itemSize) {
                    throw std::runtime_error(
                        "Inconsistent output vector sizes in map");
                }
                flattened.insert(flattened.end(), result_i.begin(),
                                 result_i.end());
            }
''', '''                auto result_i = callback(args.template get<Array>(i)..., i);
                flattened.insert(flattened.end(), result_i.begin(),
                                 result_i.end());
            }
            if (flattened.size() != itemSize * counts[0]) {
                throw std::runtime_error(
                    "Inconsistent output vector sizes in map");
            }
''')],
    'a callback on several Series whose results have different lengths that compensate',
    'Arrays of inconsistent lengths are accepted and items are shifted.', ['functional/map.h'],
    '''    Serie a = iota(1, 3), b = iota(1, 3);
    auto f = [](const Array &, const Array &, uint32_t i) { return Array(i == 1 ? 1 : i == 2 ? 3 : 2, double(i)); };
    expect(refused([&] { df::map(f, a, b); }), "inconsistent lengths are refused");''')

bug('c04-find-zero', 'C04', [(F + 'find.h', '''            double value = serie.template get<double>(i);
            if (predicate(value, i)) {''', '''            double value = serie.template get<double>(i);
            if (value != 0 && predicate(value, i)) {''')],
    'a first satisfying scalar that is zero', 'The item is missed.', ['functional/find.h'],
    '''    Serie s(1, Array{3, 0, -1});
    auto r = df::find([](double v, uint32_t) { return v <= 0; }, s);
    expect(r.found && r.index == 1, "the first satisfying item");''')

bug('c04-reject-all-last', 'C04', [(F + 'utils/reject.h', '''        if (!predicate(series.template get<Array>(i)...)) {
            indices.push_back(i);
        }
    }
''', '''        if (!predicate(series.template get<Array>(i)...)) {
            indices.insert(indices.size() == i ? indices.begin() : indices.end(), i);
        }
    }
''')],
    'rejectAll with a predicate the first two items do not satisfy', 'The items up to the first one that satisfies it are in reverse order.', ['functional/utils/reject.h'],
    '''    Serie a = iota(1, 5), b = iota(2, 5);
    auto r = df::utils::rejectAll([](const Array &x, const Array &) { return x[0] > 100; }, a, b);
    expect(r[0].asArray() == a.asArray() && r[1].asArray() == b.asArray(), "order kept");''')

bug('c05-reduce-tail', 'C05', [(F + 'reduce.h', '''    double result = init;
    for (uint32_t i = 0; i < serie.count(); ++i) {
        result = cb(result, serie.template get<double>(i), i);
    }
    return result;''', '''    double result = init;
    const uint32_t n = serie.count();
    uint32_t i = 0;
    if (n >= 128) {
        for (; i + 4 < n; i += 4) {
            result = cb(result, serie.template get<double>(i), i);
            result = cb(result, serie.template get<double>(i + 1), i + 1);
            result = cb(result, serie.template get<double>(i + 2), i + 2);
            result = cb(result, serie.template get<double>(i + 3), i + 3);
        }
        i = n - n % 4;
    }
    for (; i < n; ++i) {
        result = cb(result, serie.template get<double>(i), i);
    }
    return result;''')],
    'the reduction of a Serie of at least 128 scalars whose count is a multiple of 4',
    'The last four items are not visited.', ['functional/reduce.h'],
    '''    Serie s = iota(1, 256);
    uint32_t n = 0;
    df::reduce([&n](double a, double b, uint32_t) { ++n; return a + b; }, s, 0);
    expect(n == 256, "every item is visited");''')

bug('c06-reduce-static', 'C06', [(F + 'reduce.h', '''    return [cb = std::forward<F>(cb), init](const auto &serie) {
        return reduce(cb, serie, init);
    };
}
template <typename F> auto make_reduce(F &&cb, const Array &init) {''', '''    static const double start = init;
    return [cb = std::forward<F>(cb)](const auto &serie) {
        return reduce(cb, serie, start);
    };
}
template <typename F> auto make_reduce(F &&cb, const Array &init) {''')],
    'two adaptors of reduce made from callbacks of the same type with different initial values',
    'The second one starts from the initial value of the first.', ['functional/reduce.h'],
    '''    Serie s = iota(1, 3);
    for (int k = 0; k < 2; ++k) {
        auto r = df::make_reduce([](double a, double b, uint32_t) { return a + b; }, 10.0 * k);
        expect(r(s) == 3 + 10 * k, "initial value");
    }''')

bug('c07-unzip-offset', 'C07', [(F + 'utils/unzip.h', '    uint32_t currentIndex = 0;\n', '    uint8_t currentIndex = 0;\n')],
    'an item with more than 255 values before one of the parts',
    'The part is read at the place modulo 256.', ['functional/utils/unzip.h'],
    '''    Serie s = iota(300, 2);
    auto r = df::utils::unzip(s, {150, 120, 30});
    expect(r[2].value(1)[0] == 570, "third part");''')

bug('c07-zip-vector-empty-first', 'C07', [(F + 'utils/zip.h', '''        for (uint32_t i = 0; i < count; ++i) {
            if (s.itemSize() == 1) {
                result.setScalar(i * result.itemSize() + currentIndex,''', '''        for (uint32_t i = 0; i < count; ++i) {
            if (s.itemSize() == 1 || i % 64 == 63) {
                result.setScalar(i * result.itemSize() + currentIndex,''')],
    'zipVector of vector Series of at least 64 items', 'Item 63 (127, ...) holds only one value of each Serie, and the wrong one.',
    ['functional/utils/zip.h'],
    '''    Serie a = iota(2, 70), b = iota(3, 70);
    auto z = df::utils::zipVector({a, b});
    expect(z.value(63) == Array({126, 127, 189, 190, 191}), "item 63");''')

bug('c08-partition-n-exact', 'C08', [(F + 'utils/partition_n.h', '''            start += size;
            partitions.push_back(part);
        }
        return partitions;''', '''            start += size;
            if (size > 0 || i == 0) {
                partitions.push_back(part);
            }
        }
        return partitions;''')],
    'several Series cut into more parts than they have items', 'There are fewer than n parts.', ['functional/utils/partition_n.h'],
    '''    Serie a = iota(1, 3), b = iota(2, 3);
    auto r = df::utils::partition_n(5, a, b);
    expect(r[0].size() == 5 && r[1].size() == 5, "exactly n parts");''')

bug('c08-concat-same', 'C08', [(F + 'utils/concat.h', '    for (const auto &s : series) {\n        for (uint32_t i = 0; i < s.count(); ++i) {', '    for (const auto &s : series) {\n        const bool again = &s != &series[0] && s.asArray() == series[0].asArray();\n        for (uint32_t i = 0; i < (again ? 0 : s.count()); ++i) {')],
    'the concatenation of a Serie with itself', 'The second half holds only zeros.', ['functional/utils/concat.h'],
    '''    Serie a = iota(2, 3);
    auto r = df::utils::concat(a, a);
    expect(r.count() == 6 && r.value(3) == a.value(0) && r.value(5) == a.value(2), "second half");''')

bug('c09-float-key', 'C09', [(F + 'utils/sort.h', '''            if (a[i] != b[i])
                return a[i] < b[i];''', '''            const float x = a[i], y = b[i];
            if (x != y)
                return x < y;''')],
    'components that differ by less than the single precision', 'They count as equal.', ['functional/utils/sort.h'],
    '''    Serie s(2, Array{1 + 2e-12, 1, 1 + 1e-12, 2, 1, 3});
    auto r = df::utils::sort(s);
    expect(r.value(0)[0] == 1 && r.value(2)[0] == 1 + 2e-12, "increasing");''')

bug('c09-index-16', 'C09', [(F + 'utils/sort.h', '''        std::vector<Array> values;
        values.reserve(serie.count());
        for (uint32_t i = 0; i < serie.count(); ++i) {
            values.push_back(serie.template get<Array>(i));
        }
        std::sort(values.begin(), values.end(), comp);
        Array flattened;
        flattened.reserve(serie.itemSize() * values.size());
        for (const auto &v : values) {
            flattened.insert(flattened.end(), v.begin(), v.end());
        }''', '''        std::vector<uint16_t> order(serie.count());
        for (uint32_t i = 0; i < serie.count(); ++i) {
            order[i] = i;
        }
        std::sort(order.begin(), order.end(), [&](uint16_t a, uint16_t b) {
            return comp(serie.template get<Array>(a), serie.template get<Array>(b));
        });
        Array flattened;
        flattened.reserve(serie.itemSize() * order.size());
        for (auto i : order) {
            const Array v = serie.template get<Array>(i);
            flattened.insert(flattened.end(), v.begin(), v.end());
        }''')],
    'a Serie of more than 65536 vectors', 'The first items appear twice and the last ones are lost.', ['functional/utils/sort.h'],
    '''    Serie s = iota(2, 66000);
    auto r = df::utils::sort(s);
    expect(r.count() == 66000 && r.scalar(2 * 65999) == 2 * 65999 && r.scalar(2) == 2, "permutation");''')

bug('c10-weight-small', 'C10', [(S + 'math/weightedSum.cxx', '            double a = weights[j];\n', '            double a = std::abs(weights[j]) < 1e-8 ? 0 : weights[j];\n')],
    'weights smaller than 1e-8', 'The Series with small weights are left out of the sum.', ['functional/math/weightedSum.h'],
    '''    Serie a(2, Array{1, 2, 3, 4}), b(2, Array{1e12, 1, 1, 1});
    auto r = df::math::weigthedSum({a, b}, {1, 1e-9});
    expect(near(r.scalar(0), 1001), "small weight, large value");''')

bug('c10-scale-negative', 'C10', [(S + 'math/scale.cxx', '            r[k] *= scales[k];', '            r[k] *= k < 3 ? scales[k] : std::abs(scales[k]);')],
    'a negative factor for the fourth component or a later one', 'The sign is lost.', ['functional/math/scale.h'],
    '''    Serie a = iota(4, 2);
    auto r = df::math::scale(a, Array{1, -1, 1, -2});
    expect(r.scalar(3) == -6 && r.scalar(7) == -14, "fourth component");''')

bug('c10-div-in-place', 'C10', [(S + 'math/div.cxx', '                Array result(v.size());\n                for (size_t j = 0; j < v.size(); ++j) {\n                    result[j] = v[j] / w;\n                }', '                Array result(v.size());\n                const double inverse = 1 / w;\n                for (size_t j = 0; j < v.size(); ++j) {\n                    result[j] = inverse < 1e-9 ? 0 : v[j] * inverse;\n                }')],
    'the item-wise division of vectors by a negative divider or one above 1e9', 'The result is 0.', ['functional/math/div.h'],
    '''    Serie a = iota(3, 2), d(1, Array{2e9, 1});
    auto r = df::math::div(d, a);
    expect(near(r.scalar(2) * 1e9, 1), "large divider");''')

bug('c11-equals-all-pairs', 'C11', [(F + 'math/equals.h', '''    if (!equals(first, second))
        return false;
    return equalsAll(second, rest...);''', '''    if (!equals(first, second))
        return false;
    if constexpr (sizeof...(rest) >= 2) {
        return equalsAll(rest...);
    } else {
        return equalsAll(second, rest...);
    }''')],
    'equalsAll of at least four Series, equal by pairs', 'Different Series are found equal.', ['functional/math/equals.h'],
    '''    Serie a = iota(1, 3), b(1, Array{5, 6, 7});
    expect(!df::math::equalsAll(a, a, b, b), "different pairs");
    expect(df::math::equalsAll(a, a, a, a), "all equal");''')

bug('c11-approx-strict', 'C11', [(F + 'math/equals.h', '''        arr1.begin(), arr1.end(), arr2.begin(),
        [epsilon](double a, double b) { return std::abs(a - b) <= epsilon; });''', '''        arr1.begin(), arr1.end(), arr2.begin(),
        [epsilon](double a, double b) { return std::abs(a - b) < epsilon; });''')],
    'a difference that is exactly epsilon', 'The Series are found different.', ['functional/math/equals.h'],
    '''    Serie a(1, Array{1, 2}), b(1, Array{1.5, 2});
    expect(df::math::approximatelyEquals(a, b, 0.5), "difference of exactly epsilon");''')

bug('c12-infinite', 'C12', [(S + 'math/minMax.cxx', '            min = std::min(min, v);\n            max = std::max(max, v);', '            if (std::isfinite(v)) {\n                min = std::min(min, v);\n                max = std::max(max, v);\n            }'),
     (S + 'math/minMax.cxx', '#include <dataframe/functional/math/minMax.h>', '#include <cmath>\n#include <dataframe/functional/math/minMax.h>')],
    'an infinite scalar', 'The bounds leave out infinite values.', ['functional/math/minMax.h'],
    '''    Serie s(1, Array{1, INFINITY, 3});
    auto r = df::math::minMax(s);
    expect(r.max == Array{INFINITY} && r.min == Array{1}, "infinite upper bound");''')

bug('c12-normalize-tiny', 'C12', [(S + 'math/normalize.cxx', '                double l = 1.0 / std::sqrt(length_squared);', '                double l = 1.0 / std::sqrt(std::max(length_squared, 1e-16));')],
    'a vector shorter than 1e-8', 'It is not normalized to the length 1.', ['functional/math/normalize.h'],
    '''    Serie s(2, Array{3e-9, 4e-9, 3, 4});
    auto r = df::math::normalize(s);
    expect(near(r.scalar(0), 0.6) && near(r.scalar(1), 0.8), "tiny vector");''')

bug('c13-variance-same', 'C13', [(S + 'stats/covariance.cxx', '    double N = x.size();\n', '    double N = &x == &y && x.size() > 1 ? x.size() - 1 : x.size();\n')],
    'the covariance of a Serie object with itself', 'It is the sample variance.', ['functional/stats/covariance.h'],
    '''    Serie s(1, Array{1, 3});
    expect(near(df::stats::covariance(s, s), 1), "population variance");''')

bug('c14-quantile-float', 'C14', [(S + 'stats/quantile.cxx', '    double pos = (sorted.size() - 1) * q;', '    float pos = (sorted.size() - 1) * q;')],
    'a position that single precision does not hold', 'The interpolation is inaccurate.', ['functional/stats/quantile.h'],
    '''    Serie s(1, Array{0, 1e6});
    expect(near(df::stats::quantile(s, 0.1), 1e5, 1e-10), "interpolated");''')

bug('c14-zero-spread', 'C14', [(S + 'stats/quantile.cxx', '''Serie outliers(const Serie &serie, double mustache) {
    auto o = __ouliers__(serie, mustache);
    return df::utils::cut(
        [o](double v, uint32_t) {
            return v < std::get<0>(o) || v > std::get<1>(o);
        },
        serie);
}
''', '''Serie outliers(const Serie &serie, double mustache) {
    auto o = __ouliers__(serie, mustache);
    const bool spread = std::get<0>(o) != std::get<1>(o);
    return df::utils::cut(
        [o, spread](double v, uint32_t) {
            return spread && (v < std::get<0>(o) || v > std::get<1>(o));
        },
        serie);
}
''')],
    'values most of which are equal (IQR 0) and a few different ones', 'No outlier is found.', ['functional/stats/quantile.h'],
    '''    Serie s(1, Array{5, 5, 5, 5, 5, 5, 5, 9});
    expect(df::stats::outliers(s, 1.5).count() == 1, "one outlier");''')

bug('c15-above-dropped', 'C15', [(S + 'stats/bins.cxx', '        if (i >= nb) {\n            i = nb - 1;', '        if (i >= nb) {\n            i = v > stop && nb > 4 ? nb - 2 : nb - 1;')],
    'a value above the given range, with more than four bins', 'It is counted in the last bin but one.', ['functional/stats/bins.h'],
    '''    Serie s(1, Array{0, 1, 2, 3, 40});
    auto r = df::stats::bins(s, 5, 0, 5);
    expect(r.scalar(4) == 1, "value above the range in the last bin");''')

bug('c16-cross-small', 'C16', [(S + 'algebra/cross.cxx', '''        return Array{A[1] * B[2] - A[2] * B[1], A[2] * B[0] - A[0] * B[2],
                     A[0] * B[1] - A[1] * B[0]};''', '''        auto clean = [](double v) { return std::abs(v) < 1e-12 ? 0.0 : v; };
        return Array{clean(A[1] * B[2] - A[2] * B[1]), clean(A[2] * B[0] - A[0] * B[2]),
                     clean(A[0] * B[1] - A[1] * B[0])};''')],
    'vectors of small magnitude (1e-6 and less)', 'Their product is 0.', ['functional/algebra/cross.h'],
    '''    Serie a(3, Array{1e-7, 0, 0}), b(3, Array{0, 1e-7, 0});
    expect(near(df::algebra::cross(a, b).scalar(2) * 1e14, 1), "product of small vectors");''')

bug('c16-norm-scalar-sign', 'C16', [(S + 'algebra/norm.cxx', '''    return norm2(s).map(
        [](const Array &a, uint32_t) { return Array{std::sqrt(a[0])}; });''', '''    return s.itemSize() == 1 ? Serie(1, s.asArray()) : norm2(s).map(
        [](const Array &a, uint32_t) { return Array{std::sqrt(a[0])}; });''')],
    'the norm of negative scalars', 'It is negative.', ['functional/algebra/norm.h'],
    '''    Serie s(1, Array{-2, 2});
    expect(df::algebra::norm(s).scalar(0) == 2, "norm of a negative scalar");''')

bug('c17-inv-small-det', 'C17', [(S + 'algebra/inv.cxx', '''                     xz * (yx * zy - yy * zx);
        if (std::abs(det) < 1e-10) {''', '''                     xz * (yx * zy - yy * zx);
        if (std::abs(det) < 1e-6) {''')],
    'a well-conditioned full matrix with small coefficients (determinant between 1e-10 and 1e-6)',
    'The matrix is refused as singular.', ['functional/algebra/inv.h'],
    '''    Serie s(9, Array{0.005, 0, 0, 0, 0.005, 0, 0, 0, 0.005});
    expect(near(df::algebra::inv(s).scalar(0), 200), "inverse of a small matrix");''')

bug('c17-det-round', 'C17', [(S + 'algebra/det.cxx', '            return Array{m.at(0, 0) * m.at(1, 1) - m.at(0, 1) * m.at(1, 0)};', '            double d = m.at(0, 0) * m.at(1, 1) - m.at(0, 1) * m.at(1, 0);\n            return Array{std::abs(d) < 1e-12 ? 0 : d};')],
    'a 2D matrix with small coefficients', 'The determinant is 0.', ['functional/algebra/det.h'],
    '''    Serie s(4, Array{1e-7, 0, 0, 1e-7}, 2);
    expect(near(df::algebra::det(s).scalar(0) * 1e14, 1), "determinant of a small matrix");''')

bug('c18-few-iterations', 'C18', [(S + 'algebra/eigen.cxx', '    static int MAX_ITER = 100;', '    static int MAX_ITER = 3;')],
    'a 3D matrix that needs more than three sweeps', 'The vectors are not eigenvectors to the accuracy of the solver.', ['functional/algebra/eigen.h'],
    '''    double worst = 0;
    for (int k = 0; k < 3000; ++k) {
        auto u = [&](int j) { return std::sin(k * 12.9898 + j * 78.233) * std::pow(10, (k + j) % 5 - 2); };
        Serie s(6, Array{u(0), u(1), u(2), u(3), u(4), u(5)});
        auto [l, v] = df::algebra::eigenSystem(s);
        double xx = u(0), xy = u(1), xz = u(2), yy = u(3), yz = u(4), zz = u(5), off = std::sqrt(2 * (xy * xy + xz * xz + yz * yz));
        for (int j = 0; j < 3; ++j) {
            double a = v.scalar(3 * j), b = v.scalar(3 * j + 1), c = v.scalar(3 * j + 2), e = l.scalar(j);
            double r = std::hypot(xx * a + xy * b + xz * c - e * a, xy * a + yy * b + yz * c - e * b, xz * a + yz * b + zz * c - e * c);
            worst = std::max(worst, r / off);
        }
    }
    expect(worst < 0.005, "M v = l v");''')

bug('c18-2d-order', 'C18', [(S + 'algebra/eigen.cxx', '''            values.set(i, Array{eigen_val[0], eigen_val[1]});
            vectors.set(i, Array{eigen_vec[0], eigen_vec[1], eigen_vec[2],
                                 eigen_vec[3]});''', '''            values.set(i, Array{eigen_val[0], eigen_val[1]});
            const int f = std::fabs(eigen_val[1]) > std::fabs(eigen_val[0]) ? 2 : 0;
            vectors.set(i, Array{eigen_vec[f], eigen_vec[f + 1], eigen_vec[2 - f],
                                 eigen_vec[3 - f]});''')],
    'eigenSystem of a negative definite 2D matrix', 'The vectors are not in the order of the values.', ['functional/algebra/eigen.h'],
    '''    Serie s(3, Array{-1, 0, -2}, 2);
    auto [l, v] = df::algebra::eigenSystem(s);
    expect(l.scalar(0) == -1 && std::fabs(v.scalar(0)) > 0.9, "order of the vectors");''')

bug('c19-symmetric-tolerance', 'C19', [('src/view/Matrix.cxx', '                ok = ok && (at(i,j) == at(j,i));', '                ok = ok && (std::abs(at(i,j) - at(j,i)) <= 1e-12);')],
    'a matrix with an asymmetry of less than 1e-12 (small coefficients)', 'It is taken for symmetric, and array drops coefficients.', ['view/Matrix.h'],
    '''    df::Matrix m(Array{1e-13, 2e-13, 3e-13, 4e-13}, 2);
    expect(!m.isSymmetric() && m.array().length() == 4, "not symmetric");''')

bug('c19-vector-self', 'C19', [('src/view/Vector.cxx', '''        auto op = [s, id](double x) mutable
        { return x * s[id++]; };''', '''        auto op = [&s, id, n = s.length()](double x) mutable
        { const double y = x * s[id]; id = (id + 1) % (n > 16 ? 16 : n); return y; };''')],
    'the component-wise product of vectors of more than 16 components', 'The components after the sixteenth are multiplied by those of the start.', ['view/Vector.h'],
    '''    Array a(20, 1), b(20, 2);
    b[17] = 5;
    df::Vector v(a);
    v.mult(df::Vector(b));
    expect(v[17] == 5, "component 17");''')

bug('c20-valence-256', 'C20', [('src/attributes/Valence.cxx', '        Array ids = createArray(positions.count(), 0);', '        std::vector<uint8_t> ids(positions.count(), 0);'),
     ('src/attributes/Valence.cxx', '        return Serie(1, ids);', '        return Serie(1, Array(ids.begin(), ids.end()));')],
    'a vertex of more than 255 triangles', 'Its valence is counted modulo 256.', ['Dataframe.h', 'attributes/Valence.h'],
    '''    df::Dataframe f;
    f.add("positions", iota(3, 302));
    Array t;
    for (int i = 1; i <= 300; ++i) {
        t.push_back(0);
        t.push_back(i);
        t.push_back(i + 1);
    }
    f.add("indices", Serie(3, t));
    df::Valence v("valence");
    expect(v.serie(f, 1, "valence").scalar(0) == 300, "valence of the centre");''')

bug('c20-index-16', 'C20', [(S + 'geo/normals.cxx', '        auto v3 = positions.value(t[2]);', '        auto v3 = positions.value(static_cast<uint16_t>(t[2]));')],
    'a mesh of more than 65536 vertices', 'The normal uses another vertex.', ['functional/geo/normals.h'],
    '''    Serie p(3, 70000);
    p.set(1, Array{1, 0, 0});
    p.set(69999, Array{0, 1, 0});
    Serie t(3, Array{0, 1, 69999});
    expect(df::geo::normals(p, t).scalar(2) == 1, "normal");''')

bug('c21-count-16', 'C21', [(F + 'geo/cartesian_grid.h', '''                Array point = {p1[0] + i * delta[0], p1[1] + j * delta[1],
                               p1[2] + k * delta[2]};
                result.set(index++, point);''', '''                Array point = {p1[0] + i * delta[0], p1[1] + j * delta[1],
                               p1[2] + k * delta[2]};
                result.set(index, point);
                index = index == 8191 ? 0 : index + 1;''')],
    'a grid from points of more than 8192 points', 'The points after the 8192nd overwrite the first ones.', ['functional/geo/cartesian_grid.h'],
    '''    auto g = df::grid::cartesian::from_points({21, 21, 21}, Array{0, 0, 0}, Array{1, 1, 1});
    expect(g.count() == 9261 && g.scalar(0) == 0 && near(g.scalar(3 * 9260), 1), "first and last points");''')

bug('c21-flat-axis', 'C21', [(F + 'geo/cartesian_grid.h', '        delta[i] = npts[i] > 1 ? (p2[i] - p1[i]) / (npts[i] - 1) : 0;', '        delta[i] = npts[i] > 1 ? (p2[i] - p1[i]) / (i == 2 && npts[0] == 1 ? npts[i] : npts[i] - 1) : 0;')],
    'a grid from points with one point along the first axis and several along the third', 'The grid does not reach the opposite point.', ['functional/geo/cartesian_grid.h'],
    '''    auto g = df::grid::cartesian::from_points({1, 2, 3}, Array{0, 0, 0}, Array{1, 1, 1});
    expect(near(g.scalar(3 * 5 + 2), 1), "opposite point");''')

bug('c22-fringe-large', 'C22', [(S + 'geo/insar.cxx', 'return val - std::floor(val); }', 'return val - static_cast<int>(std::floor(val)); }')],
    'a value of more than 2^31 fringes', 'The fringe is out of range.', ['functional/geo/insar.h'],
    '''    Serie s(1, Array{1e10 + 0.25});
    double v = df::geo::fringes(s, 1).scalar(0);
    expect(v >= 0 && v <= 1, "in range");''')

bug('c23-evict', 'C23', [(F + 'utils/memoize.h', '        auto result = func(s);\n', '        Serie result = func(s);\n        if (cache.size() >= 256) {\n            return result;\n        }\n')],
    'more than 256 distinct arguments', 'The function is called again for arguments it was already called for.', ['functional/utils/memoize.h'],
    '''    int calls = 0;
    auto f = df::utils::memoize([&calls](const Serie &s) { ++calls; return s; });
    for (int k = 0; k < 2; ++k)
        for (int i = 0; i < 400; ++i)
            f(Serie(1, Array{double(i)}));
    expect(calls == 400, "one call per argument");''')

bug('c24-unknown-exception', 'C24', [(F + 'utils/parallel_execute.h', '''    for (auto &future : futures) {
        results.push_back(future.get());
    }''', '''    for (size_t i = 0; i < futures.size(); ++i) {
        try {
            results.push_back(futures[i].get());
        } catch (const std::exception &) {
            throw;
        } catch (...) {
            results.push_back(partitions[i]);
        }
    }''')],
    'a job that throws something else than a std::exception', 'The error is lost and the part is returned as it was.', ['functional/utils/parallel_execute.h'],
    '''    Serie s = iota(1, 10);
    bool thrown = false;
    try {
        df::utils::parallel_execute([](const Serie &p) -> Serie { if (p.scalar(0) > 0) throw 1; return p; }, s, 3);
    } catch (...) {
        thrown = true;
    }
    expect(thrown, "the error is reported");''')

bug('c24-shared-functor', 'C24', [(F + 'utils/parallel_execute.h', '''                    if (result.count() != partition.count()) {
                        throw std::runtime_error("Result size mismatch");
                    }''', '''                    if (result.count() < partition.count()) {
                        throw std::runtime_error("Result size mismatch");
                    }'''),
     (F + 'utils/parallel_execute.h', '''    if (total_count != serie.count()) {
        throw std::runtime_error("Total result size mismatch");
    }''', '''    if (total_count < serie.count()) {
        throw std::runtime_error("Total result size mismatch");
    }''')],
    'a job that returns more items than it was given', 'The result has too many items and no error is reported.', ['functional/utils/parallel_execute.h'],
    '''    Serie s = iota(1, 10);
    expect(refused([&] { df::utils::parallel_execute([](const Serie &p) { return Serie(1, p.count() + 1); }, s, 3); }), "wrong number of items");''')

bug('c25-empty-name', 'C25', [('src/Dataframe.cxx', '''        auto it = series_.find(name);
        if (it != series_.end())
        {
            series_.erase(it);
        }''', '''        auto it = series_.lower_bound(name);
        if (it != series_.end() && it->first.compare(0, name.size(), name) == 0)
        {
            series_.erase(it);
        }''')],
    'the deletion of a missing name that starts another name', 'The other Serie is deleted.', ['Dataframe.h'],
    '''    df::Dataframe f;
    f.add("stress", iota(1, 3));
    f.del("str");
    expect(f.contains("stress"), "still there");''')

bug('c25-add-moved', 'C25', [('src/Dataframe.cxx', '        add(name, serie);\n', '        auto it = series_.find(name);\n        if (it == series_.end() || it->second.asArray() != serie.asArray()) {\n            add(name, serie); // nothing to do otherwise\n        }\n')],
    'a Serie stored under an existing name with the same values and another shape', 'The frame keeps the first shape.', ['Dataframe.h'],
    '''    df::Dataframe f;
    f.set("a", iota(2, 3));
    f.set("a", iota(3, 2));
    const df::Dataframe &g = f;
    expect(g["a"].itemSize() == 3, "the last Serie stored");''')

bug('c26-component-100', 'C26', [('src/attributes/Components.cxx', 'names.push_back(name + std::to_string(i));', 'names.push_back(name + (i < 10 ? "" : "_") + std::to_string(i));')],
    'the attribute of a component after the ninth', 'It is listed under a name that does not resolve.', ['Dataframe.h', 'attributes/Manager.h', 'attributes/Components.h'],
    '''    df::Dataframe f;
    f.add("a", iota(12, 2));
    df::Manager m(f, {new df::Components()}, 3);
    expect(m.contains(1, "a11") && m.serie(1, "a11").isValid(), "component 11");
    for (const auto &n : m.names(1))
        expect(m.serie(1, n).isValid(), "listed names resolve");''')

bug('c26-destroy-keeps', 'C26', [('src/attributes/Manager.cxx', '''    Manager::~Manager() {
        for (auto d : ds_) {
            delete d;
        }
        ds_.clear();''', '''    Manager::~Manager() {
        while (ds_.size() > 1) {
            delete ds_.back();
            ds_.pop_back();
        }
        ds_.clear();''')],
    'destroying a Manager that has decomposers', 'The first one is never destroyed.', ['Dataframe.h', 'attributes/Manager.h', 'attributes/Decomposer.h'],
    '''    static int alive = 0;
    struct P : df::Decomposer {
        P() { ++alive; }
        ~P() { --alive; }
        Strings names(const df::Dataframe &, uint32_t, const Serie &, const String &) const override { return {}; }
        Serie serie(const df::Dataframe &, uint32_t, const String &) const override { return Serie(); }
    };
    df::Dataframe f;
    {
        df::Manager m(f, {new P, new P, new P}, 3);
    }
    expect(alive == 0, "destroyed");''')

bug('c26-user-cached', 'C26', [('include/dataframe/attributes/UserDefinedDecomposer.h', '        return cb_(dataframe);\n    }', '        if (last_.isValid() && &dataframe == frame_ && dataframe.series().size() == size_) {\n            return last_;\n        }\n        frame_ = &dataframe;\n        size_ = dataframe.series().size();\n        last_ = cb_(dataframe);\n        return last_;\n    }'),
     ('include/dataframe/attributes/UserDefinedDecomposer.h', '        String name_;\n', '        String name_;\n        mutable Serie last_;\n        mutable const Dataframe *frame_{nullptr};\n        mutable size_t size_{0};\n')],
    'a user-defined attribute asked for before and after a Serie of the frame changes', 'The old values are given.', ['Dataframe.h', 'attributes/Manager.h', 'attributes/UserDefinedDecomposer.h'],
    '''    df::Dataframe f;
    f.add("a", iota(1, 3));
    auto cb = [](const df::Dataframe &d) { return d["a"]; };
    df::UserDefinedDecomposer<decltype(cb)> u(1, "u", std::move(cb));
    u.serie(f, 1, "u");
    f.add("a", Serie(1, Array{7, 8, 9}));
    expect(u.serie(f, 1, "u").scalar(0) == 7, "current content");''')

bug('c27-div-longer', 'C27', [(S + 'math/div.cxx', '    if (divider.count() != serie.count()) {', '    if (divider.count() < serie.count()) {')],
    'more dividers than items', 'The additional dividers are ignored.', ['functional/math/div.h'],
    '''    expect(refused([] { df::math::div(Serie(1, Array{1, 2, 3}), iota(3, 2)); }), "different counts");''')

bug('c27-symmetric-singular', 'C27', [(S + 'algebra/inv.cxx', '''                         xz * (xy * yz - yy * xz);
            if (std::abs(det) < 1e-10) {''', '''                         xz * (xy * yz - yy * xz);
            if (det == 0) {''')],
    'a symmetric matrix that is singular up to rounding errors', 'The inverse is computed (huge values).', ['functional/algebra/inv.h'],
    '''    bool all = true;
    for (int k = 1; k <= 40; ++k) { // rank 2
        double u[3] = {k / 7.0, 1 / 3.0, -k / 11.0}, v[3] = {0.3, k / 13.0, 0.7};
        Array m;
        for (int i = 0; i < 3; ++i)
            for (int j = i; j < 3; ++j)
                m.push_back(u[i] * u[j] + v[i] * v[j]);
        Serie s(6, m);
        all = all && refused([&] { df::algebra::inv(s); });
    }
    expect(all, "singular matrices");''')

bug('c28-float', 'C28', [(S + 'math/random.cxx', '    std::uniform_real_distribution<> dis(min, max);', '    std::uniform_real_distribution<float> dis(min, max);')],
    'a range that single precision does not hold', 'Values are out of the range, and repeated.', ['functional/math/random.h'],
    '''    Serie s = df::math::random(1000, 1, 1, 1 + 1e-9, 5);
    bool in = true;
    for (double v : s.asArray())
        in = in && v >= 1 && v <= 1 + 1e-9;
    Array u = s.asArray();
    std::sort(u.begin(), u.end());
    expect(in, "in range");
    expect(std::unique(u.begin(), u.end()) - u.begin() > 990, "no repeated values");''')

bug('c28-period', 'C28', [(S + 'math/random.cxx', '            result.set(i, dis(gen));', '            result.set(i, i < 4096 ? dis(gen) : result.scalar(i - 4096));')],
    'more than 4096 random items', 'The sequence starts again.', ['functional/math/random.h'],
    '''    Serie s = df::math::random(5000, 1, 0, 1, 5);
    expect(s.scalar(4096) != s.scalar(0), "no repeated sequence");''')

bug('c29-precision', 'C29', [(I + 'inline/Serie.hxx', '        o << "  values   : [";\n        Array v = s.asArray();', '        o << "  values   : [";\n        o.precision(std::min<int>(o.precision(), 15));\n        const Array &v = s.asArray();')],
    'a stream with a precision of more than 15 digits', 'Values are written with fewer digits and the stream is changed.', ['functional/map.h'],
    '''    std::ostringstream o;
    o.precision(17);
    o << Serie(1, Array{0.1 + 0.2});
    expect(o.str().find("0.30000000000000004") != std::string::npos && o.precision() == 17, "17 digits");''')

bug('c29-print-cerr', 'C29', [(I + 'inline/Serie.hxx', '''    o << series.size() << " series:\\n";
    for (const auto& serie: series) {
        o << serie << std::endl;
    }''', '''    o << series.size() << " series:\\n";
    for (const auto& serie: series) {
        if (&serie == &series[0] || serie.asArray() != (&serie - 1)->asArray()) {
            o << serie << std::endl;
        } else {
            o << "(same)" << std::endl;
        }
    }''')],
    'a list with two equal Series in a row', 'The second one is not written.', [],
    '''    std::ostringstream o;
    df::Series l{iota(1, 3), iota(1, 3)};
    o << l;
    std::string t = o.str();
    expect(t.find("0, 1, 2") != t.rfind("0, 1, 2"), "both are written");''')

bug('c30-setcount', 'C30', [('src/Dataframe.cxx', '                    it->second.reCount(count);', '                    it->second = Serie(it->second.itemSize(), count);')],
    'the resize of a data frame that holds 2D Series', 'They become 3D.', ['Dataframe.h'],
    '''    df::Dataframe f;
    f.add("a", iota(3, 4, 2));
    f.setCount(5);
    expect(f["a"].dimension() == 2 && f["a"].count() == 5, "dimension");''')

bug('c30-copy-scalars', 'C30', [('src/Serie.cxx', '''Serie::Serie(const Serie &s)
    : itemSize_(s.itemSize_), count_(s.count_), dimension_(s.dimension_) {''', '''Serie::Serie(const Serie &s)
    : itemSize_(s.itemSize_), count_(s.count_), dimension_(s.count_ == 0 ? 3 : s.dimension_) {''')],
    'the copy of an empty 2D Serie, later resized and filled', 'The copy is 3D.', [],
    '''    Serie s(3, 0, 2);
    Serie t(s);
    t.reCount(2);
    expect(t.dimension() == 2, "dimension");''')

bug('c31-guard-clash', 'C31', [(I + 'attributes/Areas.h', '#pragma once\n#include "Decomposer.h"', '#ifndef DATAFRAME_AREAS_H\n#define DATAFRAME_AREAS_H\n#include "Decomposer.h"'),
        (I + 'attributes/Areas.h', '        String name_;\n    };\n\n}', '        String name_;\n    };\n\n}\n#endif'),
        (F + 'geo/areas.h', '#pragma once\n#include <dataframe/Serie.h>', '#ifndef DATAFRAME_AREAS_H\n#define DATAFRAME_AREAS_H\n#include <dataframe/Serie.h>'),
        (F + 'geo/areas.h', '} // namespace geo\n} // namespace df', '} // namespace geo\n} // namespace df\n#endif')],
    'a source file that includes both attributes/Areas.h and functional/geo/areas.h',
    'The two headers share an include guard: the second one included declares nothing.', ['functional/geo/areas.h', 'attributes/Areas.h'],
    '''    Serie p(3, Array{0, 0, 0, 4, 0, 0, 0, 2, 0}), t(3, Array{0, 1, 2});
    expect(df::geo::areas(p, t).scalar(0) == 4, "area of a triangle");
    df::Area a;
    expect(a.names(df::Dataframe(), 2, p, "x").empty(), "no names");''', {'other.cpp': 'static int nothing = 0;\nint other() { return nothing; }\n'})

bug('c31-print-defined-twice', 'C31', [(F + 'utils/print.h', 'inline void print(const Serie &serie) {', 'void print(const Serie &serie) {')],
    'a program of two source files that include utils/print.h',
    'print is defined in each source file: the program does not link.', ['functional/utils/print.h'],
    '''    extern int other;
    expect(other == 3, "the other file");''',
    {'other.cpp': '#include <dataframe/Serie.h>\n#include <dataframe/functional/utils/print.h>\nint other = 3;\n'})

bug('c31-macro-leak', 'C31', [(F + 'math/equals.h', 'namespace df {\nnamespace math {', '''// Refuses Series of different shapes
#define check(s1, s2)                                                          \\
    if (!s1.isValid() || !s2.isValid() || s1.itemSize() != s2.itemSize() ||    \\
        s1.count() != s2.count())                                              \\
    throw std::invalid_argument("Series must have same dimensions")

namespace df {
namespace math {'''), (F + 'math/equals.h', '''inline Serie equalityMask(const Serie &s1, const Serie &s2) {
    if (!s1.isValid() || !s2.isValid() || s1.itemSize() != s2.itemSize() ||
        s1.count() != s2.count()) {
        throw std::invalid_argument("Series must have same dimensions");
    }
''', '''inline Serie equalityMask(const Serie &s1, const Serie &s2) {
    check(s1, s2);
''')],
    'a source file that includes math/equals.h before conditional/check.h, or calls check after including both',
    'A function-like macro left defined by equals.h captures df::cond::check.', ['functional/conditional/check.h', 'functional/math/equals.h'],
    '''    Serie m = df::cond::check(iota(1, 4), [](double v, uint32_t) { return v > 1; });
    expect(m.asArray() == Array{0, 0, 1, 1}, "mask");
    expect(df::math::equalityMask(m, m).asArray() == Array{1, 1, 1, 1}, "equality mask");''', {'other.cpp': 'static int nothing = 0;\nint other() { return nothing; }\n'})

bug('c31-macro-undefined', 'C31', [(F + 'math/scale.h', 'MAKE_OP(scale);', 'MAKE_OP(scale)\n#undef MAKE_OP')],
    'a source file that includes a header using MAKE_OP after math/scale.h',
    'MAKE_OP is no longer defined for the headers that follow math/scale.h.', ['functional/math/scale.h', 'functional/geo/insar.h'],
    '''    expect(df::geo::insar(iota(3, 1), Array{1, 1, 1}).scalar(0) == 3, "projection");''', {'other.cpp': 'static int nothing = 0;\nint other() { return nothing; }\n'})


THREADS = '''    auto together = [](int k, auto f) {
        std::atomic<int> ready{0};
        std::vector<std::thread> th;
        for (int i = 0; i < k; ++i)
            th.emplace_back([&, i] {
                for (++ready; ready < k;)
                    ;
                f(i);
            });
        for (auto &t : th)
            t.join();
    };
    std::atomic<int> wrong{0};
'''
bug('c32-eigen-scratch', 'C32', [(S + 'algebra/eigen.cxx', '''    double eigen_vec[9];
    double eigen_val[3];
    double m[6];
    return serie.map([&](const Array &mat, uint32_t) {
        m[0] = mat[0];
        m[1] = mat[1];
        m[2] = mat[3];
        m[3] = mat[2];
        m[4] = mat[4];
        m[5] = mat[5];
        symmetricEigen(m, 3, eigen_vec, eigen_val);
        return Array{eigen_vec[0],''', '''    // Reused from one call to the next
    static double eigen_vec[9];
    static double eigen_val[3];
    static double m[6];
    return serie.map([&](const Array &mat, uint32_t) {
        m[0] = mat[0];
        m[1] = mat[1];
        m[2] = mat[3];
        m[3] = mat[2];
        m[4] = mat[4];
        m[5] = mat[5];
        symmetricEigen(m, 3, eigen_vec, eigen_val);
        return Array{eigen_vec[0],''')],
    'eigenVectors of 3D tensors called by two threads at once', 'The threads share the working arrays of the diagonalisation.', ['functional/algebra/eigen.h'],
    THREADS + '''    Array a;
    for (int i = 0; i < 6 * 200; ++i)
        a.push_back(double((i * 7919) % 23) - 11);
    const Serie s(6, a), t(6, Array(a.rbegin(), a.rend()));
    const Serie vs = df::algebra::eigenVectors(s), vt = df::algebra::eigenVectors(t);
    together(4, [&](int i) {
        for (int k = 0; k < 150 && !wrong; ++k)
            if (df::algebra::eigenVectors(i % 2 ? s : t).asArray() != (i % 2 ? vs : vt).asArray())
                ++wrong;
    });
    expect(wrong == 0, "the same eigen vectors from several threads");''')

bug('c32-normals-buffer', 'C32', [(S + 'geo/normals.cxx', '    Array data = createArray(indices.count() * 3, 0);\n', '    static Array data; // keeps its capacity between calls\n    data.assign(indices.count() * 3, 0);\n')],
    'normals of two meshes computed by two threads at once', 'The threads share the array being filled.', ['functional/geo/normals.h'],
    THREADS + '''    const Serie p(3, Array{0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 1});
    Array a, b;
    for (int i = 0; i < 3000; ++i) {
        a.push_back(i % 3);
        b.push_back((i + i / 3) % 4);
    }
    const Serie s(3, a), t(3, b);
    const Serie vs = df::geo::normals(p, s), vt = df::geo::normals(p, t);
    together(4, [&](int i) {
        for (int k = 0; k < 150 && !wrong; ++k)
            if (df::geo::normals(p, i % 2 ? s : t).asArray() != (i % 2 ? vs : vt).asArray())
                ++wrong;
    });
    expect(wrong == 0, "the same normals from several threads");''')

bug('c32-names-shared', 'C32', [('src/attributes/Components.cxx', '    Strings names;\n    for (uint32_t i = 0; i < serie.itemSize(); ++i) {', '    static Strings names;\n    names.clear();\n    for (uint32_t i = 0; i < serie.itemSize(); ++i) {')],
    'component names of a Serie of unusual item size (neither a vector nor a matrix) listed by two threads at once', 'The threads share the list being filled.', ['Dataframe.h', 'attributes/Manager.h', 'attributes/Components.h'],
    THREADS + '''    df::Dataframe d;
    d.add("a", iota(5, 2));
    d.add("b", iota(7, 2));
    const df::Dataframe &c = d;
    df::Components k;
    together(4, [&](int i) {
        for (int n = 0; n < 20000 && !wrong; ++n) {
            const std::string name = i % 2 ? "a" : "b";
            Strings r = k.names(c, 1, c[name], name);
            bool ok = r.size() == (i % 2 ? 5u : 7u);
            for (size_t j = 0; ok && j < r.size(); ++j)
                ok = r[j] == name + std::to_string(j);
            if (!ok)
                ++wrong;
        }
    });
    expect(wrong == 0, "the same names from several threads");''')

bug('c32-sort-buffer', 'C32', [(F + 'utils/sort.h', '        Array flattened;\n        flattened.reserve(', '        static Array flattened;\n        flattened.clear();\n        flattened.reserve(')],
    'Series of items of several values sorted by two threads at once with the same comparator', 'The threads share the sorted values.', ['functional/utils/sort.h'],
    THREADS + '''    Array a, b;
    for (int i = 0; i < 900; ++i) {
        a.push_back((i * 37) % 101);
        b.push_back((i * 41) % 97);
    }
    const Serie s(3, a), t(3, b);
    const Serie vs = df::utils::sort(s), vt = df::utils::sort(t);
    together(4, [&](int i) {
        for (int k = 0; k < 200 && !wrong; ++k)
            if (df::utils::sort(i % 2 ? s : t).asArray() != (i % 2 ? vs : vt).asArray())
                ++wrong;
    });
    expect(wrong == 0, "the same order from several threads");''')


bug('c33-memo-remembers', 'C33', [(F + 'utils/memoize.h', """        if (it != cache.end()) {
            return it->second;
        }
        auto result = func(s);""", """        if (it == cache.end()) {
            it = cache.emplace(key, Serie()).first; // found once only
        } else {
            return it->second;
        }
        auto result = it->second = func(s);""")],
    'a memoized function whose function throws, called again with the same Serie', 'The failed call is remembered: the next one returns an empty Serie.', ['functional/utils/memoize.h', 'functional/math/scale.h'],
    '''    int calls = 0;
    auto f = df::utils::memoize([&](const Serie &s) {
        if (calls++ == 0)
            throw std::runtime_error("not yet");
        return df::math::scale(s, 2.);
    });
    Serie s = iota(1, 4);
    expect(refused([&] { f(s); }), "the error is reported");
    expect(f(s).asArray() == Array({0, 2, 4, 6}), "the second call works");''')

bug('c33-foreach-stop', 'C33', [(F + 'forEach.h', """            for (uint32_t i = 0; i < serie.count(); ++i) {
                callback(serie.template get<Array>(i), i);
            }""", """            try {
                for (uint32_t i = 0; i < serie.count(); ++i) {
                    callback(serie.template get<Array>(i), i);
                }
            } catch (const std::out_of_range &) {
                return; // the callback went past the end
            }""")],
    'a callback on items of several values that throws std::out_of_range', 'The error is lost and the iteration ends silently.', ['functional/forEach.h'],
    '''    Serie s = iota(3, 4);
    Array table{1, 2};
    expect(refused([&] { df::forEach([&](const Array &v, uint32_t i) { table.at(i) += v[0]; }, s); }), "the error is reported");''')

bug('c34-assign-in-place', 'C34', [('src/Serie.cxx', '    s_ = Array(s.s_.cbegin(), s.s_.cend());\n    count_ = s.count_;\n', """    if (this != &s) {
        // No need for a temporary copy
        s_.clear();
        s_.insert(s_.end(), s.s_.cbegin(), s.s_.cend());
    }
    count_ = s.count_;
""")],
    'an assignment to a Serie when memory runs out', 'The values of the Serie are lost and its count no longer matches its storage.', [],
    '''    Serie s = iota(1, 4), big = iota(3, 100000);
    left = 0;
    bool thrown = false;
    try {
        s = big;
    } catch (const std::bad_alloc &) {
        thrown = true;
    }
    left = -1;
    expect(thrown, "no memory left");
    expect(s.count() == 4 && s.asArray().size() == 4, "the Serie is left as it was");''', pre='''static long left = -1; // allocations before memory runs out
void *operator new(size_t n) {
    if (left == 0)
        throw std::bad_alloc();
    left -= left > 0;
    if (void *p = std::malloc(n + !n))
        return p;
    throw std::bad_alloc();
}
void operator delete(void *p) noexcept { std::free(p); }
void operator delete(void *p, size_t) noexcept { std::free(p); }
''')

bug('c33-decomposer-quiet', 'C33', [(I + 'attributes/UserDefinedDecomposer.h', """        Serie s = cb_(dataframe);
        if (s.isValid() == false) {
            return Strings();
        }
""", """        try {
            if (cb_(dataframe).isValid() == false) {
                return Strings();
            }
        } catch (const std::runtime_error &) {
            return Strings(); // not available
        }
""")],
    "a user's decomposer whose function throws a std::runtime_error while attributes are listed", 'The error is lost.', ['Dataframe.h', 'attributes/Manager.h', 'attributes/UserDefinedDecomposer.h'],
    '''    df::Dataframe d;
    d.add("a", iota(1, 4));
    auto f = [](const df::Dataframe &x) -> Serie { throw std::runtime_error("no data"); };
    df::UserDefinedDecomposer<decltype(f) &> u(1, "b", f);
    expect(refused([&] { u.names(d, 1, d["a"], "a"); }), "the error is reported");''')

# ---- C35
bug('c35-foreach-copy', 'C35', [(I + 'inline/Serie.hxx', '    df::forEach(cb, *this);', """    auto callback = cb; // the callback may be a temporary
    df::forEach(callback, *this);""")],
    'a function object with state given to Serie::forEach as an lvalue', 'The state is kept in a copy: the object of the caller is never called.', ['functional/forEach.h'],
    '''    struct Sum {
        double total = 0;
        void operator()(double v, uint32_t) { total += v; }
    } f;
    iota(1, 5).forEach(f);
    expect(f.total == 10, "the function object given is called");''')

bug('c35-branches-both', 'C35', [(F + 'conditional/if.h', """            [&](const Array &value, uint32_t i) {
                return check_fn(value) ? true_fn(value, i, serie)
                                       : false_fn(value, i, serie);""", """            [&](const Array &value, uint32_t i) {
                // No branch in the loop
                const auto results =
                    std::make_pair(false_fn(value, i, serie), true_fn(value, i, serie));
                return check_fn(value) ? results.second : results.first;""")],
    'branches that may only be called for the items they are meant for, or that keep count', 'if_then_else calls both branches for every item.', ['functional/conditional/if.h'],
    '''    int yes = 0, no = 0;
    auto r = df::cond::if_then_else(iota(2, 6), [](const Array &v) { return v[0] > 4; },
        [&](const Array &v, uint32_t, const Serie &) { ++yes; return v; },
        [&](const Array &v, uint32_t, const Serie &) { ++no; return v; });
    expect(r.count() == 6, "every item");
    expect(yes == 3 && no == 3, "only the branch chosen is called");''')

bug('c35-partition-passes', 'C35', [(F + 'utils/partition.h', """        for (uint32_t i = 0; i < serie.count(); ++i) {
            if (predicate(serie.template get<Array>(i), i)) {
                matched_indices.push_back(i);
            } else {
                unmatched_indices.push_back(i);
            }
        }""", """        auto count = 0u;
        for (uint32_t i = 0; i < serie.count(); ++i) {
            count += predicate(serie.template get<Array>(i), i) ? 1 : 0;
        }
        matched_indices.reserve(count);
        unmatched_indices.reserve(serie.count() - count);
        for (uint32_t i = 0; i < serie.count(); ++i) {
            if (predicate(serie.template get<Array>(i), i)) {
                matched_indices.push_back(i);
            } else {
                unmatched_indices.push_back(i);
            }
        }""")],
    'a predicate on items that keeps count of its calls (every other item it accepts, say)', 'partition calls the predicate twice per item, so that one with state decides otherwise.', ['functional/utils/partition.h'],
    '''    int calls = 0;
    auto r = df::utils::partition([n = 0, &calls](const Array &, uint32_t) mutable { ++calls; return n++ < 3; }, iota(2, 6));
    expect(calls == 6, "one call per item");
    expect(std::get<0>(r).count() == 3 && std::get<1>(r).count() == 3, "the first three items are accepted");''')

bug('c35-find-verify', 'C35', [(F + 'find.h', """            Array value = serie.template get<Array>(i);
            if (predicate(value, i)) {
                return FindResult<Array>{value, i, true};
            }""", """            if (predicate(serie.template get<Array>(i), i)) {
                FindResult<Array> result{serie.template get<Array>(i), i, true};
                result.found = predicate(result.value, i);
                return result;
            }""")],
    'find of an item with a predicate that answers yes once (mutable lambda)', 'The item found is reported as not found.', ['functional/find.h'],
    '''    auto r = df::find([seen = false](const Array &v, uint32_t) mutable { const bool yes = v[0] >= 4 && !seen; seen = seen || yes; return yes; }, iota(2, 6));
    expect(r.found && r.index == 2, "the first item accepted is found");''')

bug('c35-apply-function', 'C35', [(F + 'utils/apply.h', '    return map(callback, args...);', """    // One instance of map, whatever the callback given
    if constexpr (sizeof...(args) == 1 && std::is_copy_constructible_v<std::decay_t<F>> && details::is_scalar_callback_v<F>) {
        using Result = decltype(callback(0.0, 0u));
        const std::function<Result(double, uint32_t)> shared = callback;
        return map(shared, args...);
    } else {
        return map(callback, args...);
    }"""), (F + 'utils/apply.h', '#include <dataframe/functional/map.h>\n', '#include <dataframe/functional/map.h>\n#include <functional>\n')],
    'a function object with state given to apply on numbers', 'The state is kept in a copy of the function object.', ['functional/utils/apply.h'],
    '''    struct Running {
        double total = 0;
        double operator()(double v, uint32_t) { return total += v; }
    } f;
    Serie s = iota(1, 4);
    expect(df::utils::apply(f, s).asArray() == Array({0, 1, 3, 6}), "running totals");
    expect(df::utils::apply(f, s).asArray() == Array({6, 7, 9, 12}), "carried on by the same object");''')

bug('c35-reduce-float', 'C35', [(F + 'reduce.h', """    double result = init;
    for (uint32_t i = 0; i < serie.count(); ++i) {
        result = cb(""", """    // Accumulates in the type that the reducer works with
    using Args = typename detail::callback_reduce_traits<F>::traits::return_type;
    std::conditional_t<std::is_floating_point_v<Args>, Args, double> result = init;
    for (uint32_t i = 0; i < serie.count(); ++i) {
        result = cb(""")],
    'a reducer on numbers that returns float and an initial value, or an empty Serie, beyond its precision', 'The initial value is rounded to float before the first call.', ['functional/reduce.h'],
    '''    auto f = [](double acc, double v, uint32_t i) -> float { return i == 0 && acc == 16777217. ? v : -1; };
    expect(df::reduce(f, Serie(1, Array{5}), 16777217.) == 5, "the first call gets the initial value");''')

bug('c36-negate-repeat', 'C36', [('src/functional/math/negate.cxx', """    return serie.map([itemSize](const Array &a, uint32_t i) { // ieme item
        Array r = a;
        for (uint32_t k = 0; k < itemSize; ++k) {
            r[k] *= -1;
        }
        return r;
    });""", """    // Fields are often constant by parts: an item like the previous one has
    // the same result
    Array last, result;
    return serie.map([&, itemSize](const Array &a, uint32_t i) { // ieme item
        if (i > 0 && a == last) {
            return result;
        }
        last = a;
        result = a;
        for (uint32_t k = 0; k < itemSize; ++k) {
            result[k] *= -1;
        }
        return result;
    });""")],
    'two consecutive items that differ only in the sign of a zero', 'The second item gets the zero of the first.', ['functional/math/negate.h'],
    '''    Serie s = df::math::negate(Serie(2, Array{0., 1., -0., 1.}));
    expect(std::signbit(s.asArray()[0]), "-0 for 0");
    expect(!std::signbit(s.asArray()[2]), "0 for -0");''')

bug('c36-eigen-warm', 'C36', [('src/functional/algebra/eigen.cxx', """    double eigen_vec[9];
    double eigen_val[3];
    double m[6];
    return serie.map([&](const Array &mat, uint32_t) {
        m[0] = mat[0];
        m[1] = mat[1];
        m[2] = mat[3];
        m[3] = mat[2];
        m[4] = mat[4];
        m[5] = mat[5];
        symmetricEigen(m, 3, eigen_vec, eigen_val);
        return Array{eigen_vec[0], eigen_vec[1], eigen_vec[2],""", """    double eigen_vec[9];
    double eigen_val[3];
    double m[6];
    Array last;
    return serie.map([&](const Array &mat, uint32_t) {
        // Neighbours in a smooth field have the same axes
        double gap = 0, size = 0;
        for (size_t k = 0; k < last.size(); ++k) {
            gap = std::max(gap, std::abs(mat[k] - last[k]));
            size = std::max(size, std::abs(last[k]));
        }
        if (last.empty() || !(gap <= 1e-11 * size)) {
            m[0] = mat[0];
            m[1] = mat[1];
            m[2] = mat[3];
            m[3] = mat[2];
            m[4] = mat[4];
            m[5] = mat[5];
            symmetricEigen(m, 3, eigen_vec, eigen_val);
            last = mat;
        }
        return Array{eigen_vec[0], eigen_vec[1], eigen_vec[2],""")],
    'two consecutive matrices that hardly differ', 'The second gets the eigenvectors of the first, which may be far from its own when eigenvalues are close.', ['functional/algebra/eigen.h'],
    '''    const double e = 1e-12;
    Array one{1, 0, 0, 1, 0, 1}, two{1, e, 0, 1, 0, 1};
    Array both = one;
    both.insert(both.end(), two.begin(), two.end());
    Array alone = df::algebra::eigenVectors(Serie(6, two)).asArray(), among = df::algebra::eigenVectors(Serie(6, both)).value(1);
    for (int k = 0; k < 9; ++k)
        expect(std::abs(alone[k] - among[k]) < 1e-9, "the axes of a matrix do not depend on its neighbours");''')

bug('c36-normalize-range', 'C36', [('src/functional/math/normalize.cxx', """        return map(
            [](const Array &value, uint32_t) {
                Array item = balanced(value);
                // Compute length (L2 norm)
                double length_squared = std::accumulate(
                    item.begin(), item.end(), 0.0,
                    [](double acc, double v) { return acc + v * v; });
                double l = 1.0 / std::sqrt(length_squared);

                // Normalize vector
                Array result(item.size());
                std::transform(item.begin(), item.end(), result.begin(),
                               [l](double v) { return v * l; });
                return result;
            },
            serie);""", """        // in the units of the largest value: squares cannot overflow
        double largest = 0;
        for (double v : serie.asArray()) {
            if (std::isfinite(v)) {
                largest = std::max(largest, std::abs(v));
            }
        }
        double unit = 1.0;
        if (largest > 1e100 || largest < 1e-100) {
            unit = largest > 0 ? std::exp2(-std::ilogb(largest)) : 1.0;
        }
        return map(
            [unit](const Array &item, uint32_t) {
                // Compute length (L2 norm)
                double length_squared = std::accumulate(
                    item.begin(), item.end(), 0.0,
                    [unit](double acc, double v) { return acc + (v * unit) * (v * unit); });
                double l = unit / std::sqrt(length_squared);

                // Normalize vector
                Array result(item.size());
                std::transform(item.begin(), item.end(), result.begin(),
                               [l](double v) { return v * l; });
                return result;
            },
            serie);""")],
    'a vector of usual size beside one above 1e100', 'The squares of the usual one underflow: it is normalized to infinity.', ['functional/math/normalize.h'],
    '''    Array a = df::math::normalize(Serie(2, Array{3, 4, 1e200, 0})).asArray();
    expect(std::abs(a[0] - 0.6) < 1e-9 && std::abs(a[1] - 0.8) < 1e-9, "a vector is normalized whatever its neighbours");''')

bug('c36-normals-slivers', 'C36', [('src/functional/geo/normals.cxx', """        data[i++] = n[0];
        data[i++] = n[1];
        data[i++] = n[2];
    });
""", """        // Flat triangles have no direction: what remains of their normals
        // is noise
        double size = std::abs(n[0]) + std::abs(n[1]) + std::abs(n[2]);
        largest = std::max(largest, size);
        const double keep = size < 1e-14 * largest ? 0 : 1;
        for (double v : n) {
            data[i++] = keep * v;
        }
    });
"""), ('src/functional/geo/normals.cxx', '    uint32_t i = 0;\n    indices', '    uint32_t i = 0;\n    double largest = 0;\n    indices')],
    'a mesh whose triangles are at very different scales', 'The normals of the small triangles vanish.', ['functional/geo/normals.h'],
    '''    Serie pos(3, Array{0, 0, 0, 1e9, 0, 0, 0, 1e9, 0, 1, 0, 0, 0, 1, 0});
    Array a = df::geo::normals(pos, Serie(3, Array{0, 1, 2, 0, 3, 4})).asArray();
    expect(a[5] == 1, "the small triangle has its normal");''')

bug('c36-quantile-sorted', 'C36', [('src/functional/stats/quantile.cxx', """    auto newSerie = df::utils::sort(s);
    const Array &sorted = newSerie.asArray();""", """    // No need to sort what is sorted: look at a few values spread over the Serie
    const Array &values = s.asArray();
    const size_t step = std::max<size_t>(1, values.size() / 8);
    bool inOrder = true;
    for (size_t i = step; i < values.size() && inOrder; i += step) {
        inOrder = values[i - step] <= values[i];
    }
    auto newSerie = inOrder ? s.clone() : df::utils::sort(s);
    const Array &sorted = newSerie.asArray();""")],
    'a Serie of sixteen values or more that is in order where the shortcut looks', 'Quantiles of an unsorted Serie depend on the order of its items.', ['functional/stats/quantile.h'],
    '''    Array a;
    for (int i = 0; i < 16; ++i)
        a.push_back(i % 2 ? 100 - i : i);
    Array b = a;
    std::sort(b.begin(), b.end());
    expect(df::stats::q50(Serie(1, a)) == df::stats::q50(Serie(1, b)), "the median does not depend on the order");''')


# ---- third series
bug('c01-self-assign', 'C01', [('src/Serie.cxx', """Serie &Serie::operator=(const Serie &s) {
    s_ = Array(s.s_.cbegin(), s.s_.cend());
    count_ = s.count_;""", """Serie &Serie::operator=(const Serie &other) {
    const Serie &s = other;
    s_.clear();
    s_.reserve(s.size());
    s_.insert(s_.end(), s.s_.cbegin(), s.s_.cend());
    count_ = s.count_;""")],
    'a Serie assigned to itself (through two references)', 'Its values are lost, and its count remains.', [],
    '''    Serie s = iota(3, 4);
    Serie &t = s;
    s = t;
    expect(s.count() == 4 && s.asArray().size() == 12, "the values are still there");''')

bug('c02-mean-cache', 'C02', [('src/functional/stats/mean.cxx', """    uint32_t count = serie.count();
    Tuple m;
    if (serie.itemSize() == 1) {
        m.isNumber = true;
        m.number =""", """    const uint32_t count = serie.count();
    Tuple m;
    if (serie.itemSize() == 1) {
        // covariance asks for the same means again and again
        static thread_local const double *lastValues = nullptr;
        static thread_local uint32_t lastCount = 0;
        static thread_local double lastMean = 0;
        m.isNumber = true;
        if (lastValues == serie.asArray().data() && lastCount == count && count > 0) {
            m.number = lastMean;
            return m;
        }
        lastValues = serie.asArray().data();
        lastCount = count;
        lastMean ="""), ('src/functional/stats/mean.cxx', """                   serie, 0) /
            count;
        return m;""", """                   serie, 0) /
            count;
        m.number = lastMean;
        return m;""")],
    'a scalar Serie whose mean was just asked, then written in place', 'The mean of the old values is given.', ['functional/stats/mean.h'],
    '''    Serie s(1, Array{1, 2, 3});
    expect(df::stats::mean(s).number == 2, "the mean");
    s.setScalar(2, 9);
    expect(df::stats::mean(s).number == 4, "the mean after a write");''')

bug('c03-first-twice', 'C03', [(F + 'map.h', """            results.reserve(counts[0]);
            results.push_back(first_result);
            for (uint32_t i = 1; i < counts[0]; ++i) {
                results.push_back(""", """            results.reserve(counts[0]);
            for (uint32_t i = 0; i < counts[0]; ++i) {
                results.push_back(""")],
    'a function of several Series giving a number, that counts or accumulates its calls', 'The function is called twice for the first item.', ['functional/map.h'],
    '''    Serie a = iota(2, 4), b = iota(2, 4);
    int calls = 0;
    Serie r = df::map([&](const Array &x, const Array &y, uint32_t) { ++calls; return x[0] + y[1]; }, a, b);
    expect(calls == 4, "one call per item");''')

bug('c04-multi-filter-values', 'C04', [(F + 'filter.h', """        auto filter_one = [&indices](const Serie &s) {
            Serie filtered(s.itemSize(), indices.size(), s.dimension());
            for (uint32_t i = 0; i < indices.size(); ++i) {
                filtered.set(i, s.template get<Array>(indices[i]));
            }
            return filtered;
        };
        return std::make_tuple(""", """        auto filter_one = [&indices, &counts](const Serie &s) {
            if (indices.size() + 1 >= counts[0] && indices.size() > 1) {
                return s.clone(); // everything is kept
            }
            Serie filtered(s.itemSize(), indices.size(), s.dimension());
            for (uint32_t i = 0; i < indices.size(); ++i) {
                filtered.set(i, s.template get<Array>(indices[i]));
            }
            return filtered;
        };
        return std::make_tuple(""")],
    'a filter of several Series whose predicate rejects exactly one item', 'The rejected item is kept.', ['functional/filter.h'],
    '''    Serie a = iota(2, 4), b = iota(3, 4);
    auto [x, y] = df::filter([](const Array &, const Array &, uint32_t i) { return i != 2; }, a, b);
    expect(x.count() == 3 && y.count() == 3, "one item is rejected");''')

bug('c05-reduce-blocks', 'C05', [(F + 'reduce.h', """    double result = init;
    for (uint32_t i = 0; i < serie.count(); ++i) {
        result = cb(result, serie.template get<double>(i), i);
    }
    return result;""", """    double result = init;
    uint32_t i = 0;
    // By blocks of 128 items, which keeps the rounding errors small
    for (; i + 128 < serie.count(); i += 128) {
        double block = serie.template get<double>(i);
        for (uint32_t j = i + 1; j < i + 128; ++j) {
            block = cb(block, serie.template get<double>(j), j);
        }
        result = cb(result, block, i);
    }
    for (; i < serie.count(); ++i) {
        result = cb(result, serie.template get<double>(i), i);
    }
    return result;""")],
    'a scalar Serie of more than 128 items and a function that is not associative', 'The function gets partial results as values.', ['functional/reduce.h'],
    '''    Serie a = iota(1, 300);
    double r = df::reduce([](double acc, double v, uint32_t i) { return acc + (v == i ? 1 : 1000); }, a, 0);
    expect(r == 300, "each value comes with its index");''')

bug('c06-compose-balanced', 'C06', [(F + 'utils/compose.h', """    return compose(std::forward<F>(f),
                   compose(std::forward<G>(g), std::forward<Fs>(fs)...));""", """    if constexpr (sizeof...(Fs) > 2) {
        // Two by two, so that the types remain short
        return compose(compose(std::forward<G>(g), std::forward<F>(f)),
                       compose(std::forward<Fs>(fs)...));
    } else {
        return compose(std::forward<F>(f),
                       compose(std::forward<G>(g), std::forward<Fs>(fs)...));
    }""")],
    'a composition of five functions or more', 'The last two functions are applied in the wrong order.', ['functional/utils/compose.h'],
    '''    auto add = [](double x) { return x + 1; };
    auto mul = [](double x) { return x * 2; };
    expect(df::utils::compose(add, mul, add, add, add)(1.) == 9, "five functions");''')

bug('c07-unzip-equal-ends', 'C07', [(F + 'utils/unzip.h', """    std::vector<Serie> results;
    results.reserve(itemSizes.size());
""", """    Series results;
    results.reserve(itemSizes.size());

    // Parts of equal sizes: values are dispatched in one pass
    if (itemSizes.size() > 2 && itemSizes.front() == itemSizes.back() &&
        itemSizes.front() * itemSizes.size() == zipped.itemSize()) {
        const uint32_t size = itemSizes.front();
        for (size_t k = 0; k < itemSizes.size(); ++k) {
            results.emplace_back(size, zipped.count(), zipped.dimension());
        }
        for (uint32_t i = 0; i < zipped.count(); ++i) {
            for (uint32_t j = 0; j < zipped.itemSize(); ++j) {
                results[j / size].setScalar(
                    i * size + j % size,
                    zipped.scalar(i * zipped.itemSize() + j));
            }
        }
        return results;
    }
"""), (F + 'utils/unzip.h', """    uint32_t currentIndex = 0;
    for (uint32_t itemSize : itemSizes) {""", """    uint32_t currentIndex = 0;
    for (const uint32_t itemSize : itemSizes) {""")],
    'parts whose first and last sizes are equal to the mean of all sizes, others being different (2, 1, 3, 2)', 'All the parts get the same item size.', ['functional/utils/unzip.h'],
    '''    Serie z = iota(8, 3);
    auto p = df::utils::unzip(z, {2, 1, 3, 2});
    expect(p.size() == 4 && p[1].itemSize() == 1 && p[2].itemSize() == 3, "sizes of the parts");
    expect(p[1].asArray() == Array{2, 10, 18}, "values of the second part");''')

bug('c09-sort-presorted', 'C09', [(F + 'utils/sort.h', """    return sort(serie, [](const Array &a, const Array &b) {""", """    // Items are often in order already
    bool inOrder = serie.isValid();
    for (uint32_t i = 1; i < serie.count() && inOrder; ++i) {
        inOrder = serie.template get<Array>(i - 1)[0] <= serie.template get<Array>(i)[0];
    }
    if (inOrder) {
        return serie.clone();
    }
    return sort(serie, [](const Array &a, const Array &b) -> bool {""")],
    'items in order by their first component, with equal first components in the wrong order', 'The items are left as they are.', ['functional/utils/sort.h'],
    '''    Serie s(2, Array{1, 5, 1, 4, 2, 0});
    expect(df::utils::sort(s).asArray() == Array{1, 4, 1, 5, 2, 0}, "items are in lexicographic order");''')

bug('c10-weighted-unroll', 'C10', [(S + 'math/weightedSum.cxx', """        for (uint32_t j = 0; j < series.size();
             ++j) { // Loop series and weights => j""", """        uint32_t j = 0;
        for (; j + 4 < series.size(); j += 2) { // two Series at a time
            const Array a = series[j].value(i), b = series[j + 1].value(i);
            for (uint32_t k = 0; k < itemSize; ++k) {
                r[k] += weights[j] * a[k] + weights[j] * b[k];
            }
        }
        for (; j < series.size();
             ++j) { // Loop series and weights => j""")],
    'a weighted sum of five Series or more', 'The second Serie gets the weight of the first one.', ['functional/math/weightedSum.h'],
    '''    Serie a = iota(1, 3);
    Serie r = df::math::weigthedSum({a, a, a, a, a}, Array{1, 2, 3, 4, 5});
    expect(r.asArray() == Array{0, 15, 30}, "the weighted sum of five Series");''')

bug('c11-approx-relative', 'C11', [(F + 'math/equals.h', """        [epsilon](double a, double b) { return std::abs(a - b) <= epsilon; });
}

MAKE_OP(approximatelyEquals);""", """        [epsilon](double a, double b) {
            return std::abs(a - b) <= epsilon * std::max(1.0, std::abs(a));
        });
}

MAKE_OP(approximatelyEquals);""")],
    'values above one that differ by more than epsilon and less than epsilon times the value', 'They are found equal.', ['functional/math/equals.h'],
    '''    Serie a(1, Array{1000}), b(1, Array{1000.5});
    expect(!df::math::approximatelyEquals(a, b, 0.01), "values that differ by 0.5");''')

bug('c12-else-if', 'C12', [(S + 'math/minMax.cxx', """            min = std::min(min, v);
            max = std::max(max, v);
""", """            if (v < min) {
                min = v;
            } else if (v > max) {
                max = v;
            }
""")],
    'scalars in decreasing order, or all equal', 'The maximum is minus infinity.', ['functional/math/minMax.h'],
    '''    auto [mi, ma] = df::math::minMax(Serie(1, Array{5, 2, 1}));
    expect(ma[0] == 5 && mi[0] == 1, "the largest value");''')

bug('c13-cancellation', 'C13', [(S + 'stats/covariance.cxx', """    return math::mult(math::sub(x, xb), math::sub(y, yb))
        .reduce(
            [N](double acc, double value, uint32_t) { return acc + value / N; },
            0);""", """    return math::mult(x, y).reduce(
               [N](double acc, double value, uint32_t) { return acc + value / N; },
               0) -
           xb * yb;""")],
    'values that are large compared to their spread', 'The variance is dominated by rounding errors (it can be negative).', ['functional/stats/covariance.h'],
    '''    Serie s(1, Array{1e9 + 1, 1e9 + 2, 1e9 + 3});
    expect(near(df::stats::covariance(s, s), 2. / 3, 1e-6), "the variance of 1, 2, 3 far from zero");''')

bug('c16-norm-float', 'C16', [(S + 'algebra/norm.cxx', """        [](const Array &a, uint32_t) { return Array{std::sqrt(a[0])}; });""", """        [](const Array &a, uint32_t) {
            // A square root of single precision is enough for large values
            return Array{a[0] > 1e6 ? std::sqrt(static_cast<float>(a[0])) : std::sqrt(a[0])};
        });""")],
    'vectors longer than 1000', 'Norms have seven digits.', ['functional/algebra/norm.h'],
    '''    expect(near(df::algebra::norm(Serie(1, Array{123456.789})).asArray()[0], 123456.789, 1e-12), "a long vector");''')

bug('c17-det-pivot', 'C17', [(S + 'algebra/det.cxx', """            Matrix m = v.size() == 6 ? symSquaredMatrix(v) : squaredMatrix(v);
            return Array{m.at(0, 0) * m.at(1, 1) * m.at(2, 2) -""", """            const Matrix m = v.size() == 6 ? symSquaredMatrix(v) : squaredMatrix(v);
            if (m.at(0, 0) == 0 && m.at(0, 1) == 0) {
                return Array{0}; // no pivot
            }
            return Array{m.at(0, 0) * m.at(1, 1) * m.at(2, 2) -""")],
    'a 3D matrix whose first two coefficients are zero', 'Its determinant is zero.', ['functional/algebra/det.h'],
    '''    Serie s(9, Array{0, 0, 1, 0, 1, 0, 1, 0, 0});
    expect(df::algebra::det(s).asArray()[0] == -1, "a permutation matrix");''')

bug('c18-small-matrices', 'C18', [(S + 'algebra/eigen.cxx', """    if (a_norm != 0.0) {""", """    if (a_norm > 1e-30) { // not diagonal yet""")],
    'a matrix of very small coefficients (below 1e-15)', 'It is taken for a diagonal matrix.', ['functional/algebra/eigen.h'],
    '''    Serie s(3, Array{0, 1e-16, 0}, 2);
    Array v = df::algebra::eigenValues(s).asArray();
    expect(near(v[0] * 1e16, 1) && near(v[1] * 1e16, -1), "the eigenvalues of a small matrix");''')

bug('c19-mult-transposed', 'C19', [('src/view/Matrix.cxx', """        Array t(m.length(), 0);

        for (uint32_t i = 0; i < m_; ++i)""", """        Array t(m.length(), 0);

        // The product of symmetric matrices: half of it is enough
        if (m_ > 2 && isSymmetric() && m.isSymmetric())
        {
            for (uint32_t i = 0; i < m_; ++i)
            {
                for (uint32_t j = i; j < m_; ++j)
                {
                    for (uint32_t k = 0; k < m_; ++k)
                    {
                        t[index(i, j)] += at(i, k) * m.at(k, j);
                    }
                    t[index(j, i)] = t[index(i, j)];
                }
            }
            return Matrix(t, m_);
        }

        for (uint32_t i = 0; i < m_; ++i)"""), ('src/view/Matrix.cxx', """                    t[index(i, j)] += at(i, k) * m.at(k, j);
                }
            }
        }

        return Matrix(t, m_);""", """                    t[index(i, j)] = t[index(i, j)] + at(i, k) * m.at(k, j);
                }
            }
        }

        return Matrix(t, m_);""")],
    'the product of two symmetric matrices of order three or more that do not commute', 'The product is made symmetric.', ['view/Matrix.h'],
    '''    df::Matrix a(Array{1, 2, 0, 2, 3, 0, 0, 0, 1}, 3), b(Array{0, 0, 1, 0, 5, 0, 1, 0, 0}, 3);
    df::Matrix p = a.multMat(b);
    expect(p.at(0, 1) == 10 && p.at(1, 0) == 0, "the product of symmetric matrices");''')

bug('c20-shared-edge', 'C20', [(S + 'geo/normals.cxx', """    indices.forEach([&](const Array &t, uint32_t index) {
        auto v1 = positions.value(t[0]);""", """    Array last(3, -1), v1(3);
    indices.forEach([&](const Array &t, uint32_t index) {
        // Triangles of a fan share their first point
        if (t[0] != last[0] && t[0] != last[1]) {
            v1 = positions.value(t[0]);
        }
        last = t;""")],
    'a triangle whose first point is the second one of the previous triangle', 'The first point of the previous triangle is used.', ['functional/geo/normals.h'],
    '''    Serie p(3, Array{0, 0, 0, 1, 0, 0, 0, 1, 0, 5, 5, 5}), t(3, Array{0, 1, 2, 1, 2, 3});
    Serie one(3, Array{1, 2, 3});
    Array n = df::geo::normals(p, t).asArray(), m = df::geo::normals(p, one).asArray();
    expect(n[3] == m[0] && n[4] == m[1] && n[5] == m[2], "the second triangle");''')

bug('c21-accumulate', 'C21', [(F + 'geo/cartesian_grid.h', """    for (uint32_t k = 0; k < n[2]; ++k) {
        for (uint32_t j = 0; j < n[1]; ++j) {
            for (uint32_t i = 0; i < n[0]; ++i) {
                Array point = {p1[0] + i * delta[0], p1[1] + j * delta[1],
                               p1[2] + k * delta[2]};
                result.set(index++, point);""", """    for (uint32_t k = 0; k < n[2]; ++k) {
        for (uint32_t j = 0; j < n[1]; ++j) {
            float x = p1[0];
            for (uint32_t i = 0; i < n[0]; ++i, x += delta[0]) {
                Array point = {i + 1 < n[0] ? x : p2[0], p1[1] + j * delta[1],
                               p1[2] + k * delta[2]};
                if (n[0] == 1) {
                    point[0] = p1[0];
                }
                result.set(index++, point);""")],
    'a grid between points whose spacing is not exactly represented', 'Inner points are off by 1e-8.', ['functional/geo/cartesian_grid.h'],
    '''    Serie g = df::grid::cartesian::from_points({11}, Array{0, 0, 0}, Array{1, 0, 0});
    for (uint32_t i = 0; i < 11; ++i)
        expect(near(g.get<Array>(i)[0], i / 10., 1e-12), "a point of the grid");''')

bug('c22-insar-unit', 'C22', [(S + 'geo/insar.cxx', """    return algebra::dot(u, los);""", """    // The line of sight is a direction
    const double n = std::sqrt(los[0] * los[0] + los[1] * los[1] + los[2] * los[2]);
    return algebra::dot(u, n > 1 ? Array{los[0] / n, los[1] / n, los[2] / n} : los);""")],
    'a line of sight longer than one', 'It is normalised.', ['functional/geo/insar.h'],
    '''    expect(df::geo::insar(Serie(3, Array{1, 2, 3}), Array{0, 0, 2}).asArray()[0] == 6, "the dot product with the line of sight");''')

bug('c25-del-next', 'C25', [('src/Dataframe.cxx', """        auto it = series_.find(name);
        if (it != series_.end())
        {
            series_.erase(it);""", """        auto it = name.empty() ? series_.begin() : series_.find(name);
        if (it != series_.end())
        {
            series_.erase(it);""")],
    'the deletion of the empty name from a data frame that has no Serie of that name', 'Another Serie is deleted.', ['Dataframe.h'],
    '''    df::Dataframe d;
    d.add("a", iota(1, 3));
    d.del("");
    expect(d.contains(std::string("a")), "a is still there");''')

bug('c26-vector2-z', 'C26', [('src/attributes/Components.cxx', """                if (serie.itemSize() == smatrix2Names.size() &&
                    name == newName + smatrix2Names[i]) {
                    return serie.map([i](const Array &item, uint32_t index) {
                        return Array{item[i]};""", """                if (serie.itemSize() == smatrix2Names.size() &&
                    name == newName + smatrix2Names[i]) {
                    return serie.map([i, n = serie.count()](const Array &item, uint32_t index) {
                        return Array{item[i == 1 && n > 4 ? 2 : i]};""")],
    'a 2D symmetric Serie of more than four items, by its component xy', 'The yy component is given.', ['Dataframe.h', 'attributes/Manager.h', 'attributes/Components.h'],
    '''    df::Dataframe d;
    d.add("S", iota(3, 5, 2));
    df::Manager m(d, {new df::Components()}, 2);
    expect(m.serie(1, "Sxy").asArray() == Array{1, 4, 7, 10, 13}, "the xy component");''')

bug('c27-scale-longer', 'C27', [(S + 'math/scale.cxx', """    if (s.itemSize() != scales.size()) {""", """    if (s.itemSize() > scales.size()) {""")],
    'more scales than components', 'The additional scales are ignored.', ['functional/math/scale.h'],
    '''    expect(refused([] { df::math::scale(iota(2, 3), Array{1, 2, 3}); }), "three scales for two components");''')

bug('c30-map-last-dimension', 'C30', [(F + 'map.h', """        uint dimension =
            std::get<0>(std::forward_as_tuple(args...)).dimension();""", """        uint dimension = 0;
        ((dimension = args.itemSize() > 1 || dimension == 0 ? args.dimension() : dimension), ...);"""), (F + 'map.h', """        auto first_result = callback(args.template get<Array>(0)..., 0);""", """        auto first_result = callback(args.template get<Array>(0)..., uint32_t(0));""")],
    'a function of several Series of different dimensions', 'The result has the dimension of the last vector Serie.', ['functional/map.h'],
    '''    Serie a = iota(2, 3, 2), b = iota(3, 3, 3);
    Serie r = df::map([](const Array &x, const Array &, uint32_t) { return x; }, a, b);
    expect(r.dimension() == 2, "the dimension of the first Serie");''')

bug('c32-components-name', 'C32', [('src/attributes/Components.cxx', """    auto newName = name.substr(0, name.size() - 1);
    auto serie = dataframe[newName];""", """    static String newName; // its room is used again by the next call
    newName.assign(name, 0, name.empty() ? 0 : name.size() - 1);
    Serie serie = dataframe[newName];""")],
    'two threads that ask for components of different Series at the same time', 'One of them gets the Serie of the other one, or none.', ['Dataframe.h', 'attributes/Manager.h', 'attributes/Components.h'],
    '''    df::Dataframe d;
    d.add("first", iota(3, 2));
    d.add("second", iota(3, 2));
    df::Manager m(d, {new df::Components()});
    std::atomic<int> wrong{0};
    std::vector<std::thread> ts;
    for (int t = 0; t < 8; ++t)
        ts.emplace_back([&, t] {
            for (int i = 0; i < 20000; ++i)
                if (!m.serie(1, t % 2 ? "firstx" : "secondy").isValid())
                    ++wrong;
        });
    for (auto &t : ts)
        t.join();
    expect(wrong == 0, "each thread gets what it asks for");''', pre='#include <thread>\n#include <atomic>\n')

bug('c34-set-erases', 'C34', [('src/Dataframe.cxx', """        if (count_ != 0 && count_ != serie.count())
        {""", """        const Serie *old = contains(name) ? &series_.find(name)->second : nullptr;
        if (old != nullptr && old != &serie && old->itemSize() != serie.itemSize())
        {
            del(name); // another kind of Serie
        }
        if (count_ > 0 && count_ != serie.count())
        {""")],
    'no memory left for a Serie that replaces one of another item size', 'The replaced Serie is lost.', ['Dataframe.h'],
    '''    df::Dataframe d;
    d.add("a", iota(2, 3));
    Serie s = iota(3, 100);
    std::string n = "a";
    for (int k = 0; k < 4; ++k) {
        left = k;
        try {
            d.set(n, s);
            left = -1;
            break;
        } catch (const std::bad_alloc &) {
            left = -1;
            expect(d.series().size() == 1 && d.series().begin()->second.count() == 3, "the Serie that was there");
        }
    }''', pre='''#include <dataframe/Dataframe.h>
#include <cstdlib>
#include <new>
static int left = -1;
void *operator new(std::size_t n) {
    if (left == 0)
        throw std::bad_alloc();
    if (left > 0)
        --left;
    return std::malloc(n);
}
void operator delete(void *p) noexcept { std::free(p); }
void operator delete(void *p, std::size_t) noexcept { std::free(p); }
''')

bug('c35-find-int', 'C35', [(F + 'find.h', """            Array value = serie.template get<Array>(i);
            if (predicate(value, i)) {""", """            Array value = serie.template get<Array>(i);
            if (predicate(value, i) == true) {""")],
    'a predicate on vectors that gives an integer other than one for true', 'The item is not found.', ['functional/find.h'],
    '''    Serie s = iota(2, 3);
    expect(df::find([](const Array &v, uint32_t) -> int { return int(v[0]) & 2; }, s).found, "a predicate giving 2 is true");''')

bug('c36-transpose-symmetric', 'C36', [(S + 'algebra/transpose.cxx', """    return serie.map([](const Array &item, uint32_t i) {
        return Array{item[0], item[3], item[6], item[1], item[4],""", """    // Nothing to do for symmetric matrices
    bool symmetric = true;
    for (uint32_t i = 0; i < serie.count() && symmetric; i += 2) {
        const Array m = serie.value(i);
        symmetric = m[1] == m[3] && m[2] == m[6] && m[5] == m[7];
    }
    if (symmetric) {
        return serie.clone();
    }
    return serie.map([](const Array &item, uint32_t) {
        return Array{item[0], item[3], item[6], item[1], item[4],""")],
    'a Serie of 3D matrices, those of even rank being symmetric and another one not', 'The other matrix is not transposed.', ['functional/algebra/transpose.h'],
    '''    Array a = {1, 2, 3, 2, 4, 5, 3, 5, 6, 1, 2, 3, 4, 5, 6, 7, 8, 9};
    Array t = df::algebra::transpose(Serie(9, a)).asArray();
    expect(t[10] == 4 && t[12] == 2, "the second matrix is transposed");''')

# ---- Fourth series

bug('c37-mean-residue', 'C37', [(S + 'stats/mean.cxx', """    m.array = b;
    return m;""", """    for (double &v : b) {
        // What is left of sums that cancel
        v = std::fabs(v) < 1e-14 ? 0 : v;
    }

    m.array = b;
    return m;""")],
    'vectors whose components are tiny', 'Their mean is zero.', ['functional/stats/mean.h'],
    '''    Array m = df::stats::mean(Serie(2, Array{1e-16, 3, 3e-16, 5})).array;
    expect(near(m[0] * 1e16, 2) && m[1] == 4, "the mean");''')

bug('c37-bins-narrow', 'C37', [(S + 'stats/bins.cxx', 'double i = (size == 0 && v == start) ? 0', 'double i = (size < 1e-12 && v >= start) ? 0')],
    'a range of less than 1e-12', 'All the values are counted in the first bin.', ['functional/stats/bins.h'],
    '''    Array b = df::stats::bins(Serie(1, Array{0, 1e-15, 2e-15, 3e-15}), 2).asArray();
    expect(b == Array{2, 2}, "two values per bin");''')

bug('c37-components-residue', 'C37', [('src/attributes/Coordinates.cxx', 'return Array{item[i]};', 'return Array{item[i] < 1e-12 && item[i] > -1e-12 ? 0 : item[i]};')],
    'positions with tiny coordinates', 'They are served as zero.', ['Dataframe.h', 'attributes/Manager.h', 'attributes/Coordinates.h'],
    '''    df::Dataframe d;
    d.add("positions", Serie(3, Array{1e-15, 2, 3, -4e-15, 5, 6}));
    df::Manager m(d, {new df::Coordinates()});
    expect(m.serie(1, "x").asArray() == Array{1e-15, -4e-15}, "the coordinates");''')

bug('c37-normalize-guard', 'C37', [(S + 'math/normalize.cxx', 'double l = 1.0 / std::sqrt(length_squared);', 'double l = 1.0 / std::sqrt(length_squared + 1e-283);')],
    'vectors so small that the square of their norm is about 1e-283', 'The result is not of norm one.', ['functional/math/normalize.h'],
    '''    Array n = df::math::normalize(Serie(2, Array{3e-142, 4e-142})).asArray();
    expect(near(n[0], 0.6) && near(n[1], 0.8), "a unit vector");''')

bug('c08-interleave-three', 'C08', [(F + 'merge.h', """        uint32_t max_count = std::max({series.count()...});
        uint32_t idx = 0;""", """        uint32_t idx = 0;
        uint32_t max_count = 0, previous = 0;
        // The longest of each two neighbours
        ((max_count = std::max(series.count(), previous), previous = series.count()), ...);""")],
    'an interleaved merge of three Series or more, the longest being none of the last two', 'The end of the longest one is missing.', ['functional/merge.h'],
    '''    Serie m = df::merge(false, iota(1, 4), iota(1, 1), iota(1, 2));
    Array a = m.asArray();
    expect(a.size() == 7 && a[5] == 2 && a[6] == 3, "all the items");''')

bug('c14-nth-element', 'C14', [(S + 'stats/quantile.cxx', """    auto newSerie = df::utils::sort(s);
    const Array &sorted = newSerie.asArray();
    double pos = (sorted.size() - 1) * q;
    double base = std::floor(pos);
    double rest = pos - base;
    if (""", """    Array sorted = s.asArray();
    double pos = (sorted.size() - 1) * q;
    double base = std::floor(pos);
    double rest = pos - base;
    if (sorted.size() > 32) {
        // No need to sort everything
        auto nth = sorted.begin() + uint32_t(base);
        std::nth_element(sorted.begin(), nth, sorted.end());
        if (sorted.end() - nth > 1 && sorted.end() - nth < 256) {
            std::sort(nth, sorted.end());
        }
    } else {
        std::sort(sorted.begin(), sorted.end());
    }
    if (""")],
    'a quantile between two values, of a Serie of more than 256 values', 'The next value is not always the next one in order.', ['functional/stats/quantile.h'],
    '''    Array a;
    for (int i = 0; i < 2001; ++i)
        a.push_back((i * 977) % 2001);
    for (int k = 0; k < 40; ++k)
        expect(near(df::stats::quantile(Serie(1, a), (k + 0.5) / 2000), k + 0.5), "the interpolated value");''')

bug('c15-bin-multiply', 'C15', [(S + 'stats/bins.cxx', """    double size = (stop - start) / double(nb);
""", """    double size = (stop - start) / double(nb);
    const double scale = 1 / size;
"""), (S + 'stats/bins.cxx', ': std::floor((v - start) / size);', ': std::floor((v - start) * scale);')],
    'values on the edge between two bins, whose width has no exact inverse', 'They are counted in the bin below.', ['functional/stats/bins.h'],
    '''    for (int width = 1; width < 200; ++width) // all the numbers here are exact
        for (int nb = 1; nb < 60; ++nb) {
            Array v;
            for (int i = 0; i < nb; ++i)
                v.push_back(i * width);
            const Serie b = df::stats::bins(Serie(1, v), nb, 0, double(nb) * width);
            if (b.asArray() != Array(nb, 1.)) {
                expect(false, "one value per bin");
                return bad;
            }
        }''')

bug('c23-negative-zero', 'C23', [(F + 'utils/memoize.h', """                key.push_back(
                    std::bit_cast<uint64_t>(s.template get<double>(i)));""", """                // + 0 so that the sign of zero does not matter
                key.push_back(
                    std::bit_cast<uint64_t>(s.template get<double>(i) + 0.));""")],
    'a call with -0 after one with 0', 'The result of the other Serie is given.', ['functional/utils/memoize.h'],
    '''    auto f = df::utils::memoize([](const Serie &s) { return Serie(1, Array{1 / s.scalar(0)}); });
    f(Serie(1, Array{0.}));
    expect(f(Serie(1, Array{-0.})).scalar(0) < 0, "1 / -0");''')

bug('c31-needs-include', 'C31', [(F + 'utils/partition.h', """#pragma once
#include <dataframe/Serie.h>

""", """#pragma once

""")],
    'a source file that includes partition.h first', 'It does not compile.', [],
    '''    extern double negatives();
    expect(negatives() == 1, "the negative values");''', more={'first.cpp': '''#include <dataframe/functional/utils/partition.h>
double negatives() { return df::utils::partition([](double v, uint32_t) { return v < 0; }, df::Serie(1, Array{1, -2, 3})).first.count(); }
'''})

bug('c33-sort-quiet', 'C33', [(F + 'utils/sort.h', """        std::sort(values.begin(), values.end(), comp);
""", """        try {
            std::sort(values.begin(), values.end(), comp);
        } catch (const std::out_of_range &) {
            // The comparator used a component that the items do not have
            return serie.clone();
        }
""")],
    'a comparator of vectors that throws std::out_of_range', 'The error is dropped and the Serie is not sorted.', ['functional/utils/sort.h'],
    '''    expect(refused([] { df::utils::sort(iota(2, 4), [](const Array &a, const Array &b) { return a.at(2) < b.at(2); }); }), "the error of the comparator");''')

bug('c34-recount-count-first', 'C34', [('src/Serie.cxx', """    s_ = Array(checkedSize(itemSize_, c));
    count_ = itemSize_ > 0 ? c : 0; // no item in an invalid Serie""", """    const size_t size = checkedSize(itemSize_, c);
    count_ = itemSize_ > 0 ? c : 0; // no item in an invalid Serie
    s_ = Array(size);""")],
    'no memory left during reCount', 'The Serie has another count than its values.', [],
    '''    Serie s = iota(2, 3);
    left = 0;
    try {
        s.reCount(1000);
    } catch (const std::bad_alloc &) {
    }
    left = -1;
    expect(s.asArray().size() == s.size(), "as many values as announced");''', pre='''#include <cstdlib>
#include <new>
static int left = -1;
void *operator new(std::size_t n) {
    if (left == 0)
        throw std::bad_alloc();
    if (left > 0)
        --left;
    return std::malloc(n);
}
void operator delete(void *p) noexcept { std::free(p); }
void operator delete(void *p, std::size_t) noexcept { std::free(p); }
''')

bug('c34-setcount-first', 'C34', [('src/Dataframe.cxx', """        if (count_ != count && count > 0)
        {
            if (series_.size())""", """        if (count_ != count && count > 0)
        {
            count_ = count;
            if (series_.size())"""), ('src/Dataframe.cxx', """                    it->second.reCount(count);
                }
            }
            count_ = count;""", """                    it->second.reCount(count);
                }
            }""")],
    'a setCount that ran out of memory and is made again', 'The second one does nothing: the Series keep their count.', ['Dataframe.h'],
    '''    df::Dataframe d;
    d.add("a", iota(1, 3));
    left = 0;
    try {
        d.setCount(50);
    } catch (const std::bad_alloc &) {
    }
    left = -1;
    d.setCount(50);
    expect(d.series().begin()->second.count() == 50, "the new count");''', pre='''#include <dataframe/Dataframe.h>
#include <cstdlib>
#include <new>
static int left = -1;
void *operator new(std::size_t n) {
    if (left == 0)
        throw std::bad_alloc();
    if (left > 0)
        --left;
    return std::malloc(n);
}
void operator delete(void *p) noexcept { std::free(p); }
void operator delete(void *p, std::size_t) noexcept { std::free(p); }
''')

bug('c21-sorted-corners', 'C21', [(F + 'geo/cartesian_grid.h', """        delta[i] = npts[i] > 1 ? (p2[i] - p1[i]) / (npts[i] - 1) : 0;""", """        delta[i] = npts[i] > 1 ? (p2[i] - p1[i]) / (npts[i] - 1) : 0;
        if (i == 2 && delta[i] < 0) {
            delta[i] = -delta[i]; // upwards""")
    , (F + 'geo/cartesian_grid.h', """    // Fill remaining dimensions with 1
    std::vector<uint32_t> n = npts;
    n.resize(3, 1);

    // Generate points
    for (uint32_t k = 0; k < n[2]; ++k) {
        for (uint32_t j = 0; j < n[1]; ++j) {
            for (uint32_t i = 0; i < n[0]; ++i) {
                Array point = {p1[0] + i * delta[0], p1[1] + j * delta[1],
                               p1[2] + k * delta[2]};""", """    }
    const double z = npts.size() == 3 && npts[2] > 1 && p2[2] < p1[2] ? p2[2] : p1[2];

    // Fill remaining dimensions with 1
    std::vector<uint32_t> n = npts;
    n.resize(3, 1);

    // Generate points
    for (uint32_t k = 0; k < n[2]; ++k) {
        for (uint32_t j = 0; j < n[1]; ++j) {
            for (uint32_t i = 0; i < n[0]; ++i) {
                Array point = {p1[0] + i * delta[0], p1[1] + j * delta[1],
                               z + k * delta[2]};""")],
    'a 3D grid from a point to a lower one', 'The layers are in the other order.', ['functional/geo/cartesian_grid.h'],
    '''    Serie g = df::grid::cartesian::from_points({2, 2, 3}, Array{0, 0, 5}, Array{1, 1, 1});
    expect(g.get<Array>(0)[2] == 5 && g.get<Array>(11)[2] == 1, "from the first point to the last one");''')

bug('c25-create-existing', 'C25', [('src/Dataframe.cxx', """        add(name, Serie(itemSize, count));""", """        auto it = series_.find(name);
        if (it != series_.end() && it->second.itemSize() == itemSize && it->second.count() == count)
        {
            return; // There already
        }
        add(name, Serie(itemSize, count));""")],
    'the creation of a Serie under the name of one of the same shape', 'The values of the old one are kept.', ['Dataframe.h'],
    '''    df::Dataframe d;
    d.add("a", iota(2, 3));
    d.create("a", 2, 3);
    expect(d["a"].asArray() == Array(6, 0.), "zeros");''')

bug('c25-set-empty', 'C25', [('src/Dataframe.cxx', """        series_.insert_or_assign(name, serie);

        if (count_ == 0)""", """        if (serie.isValid() || !contains(name))
        {
            series_.insert_or_assign(name, serie);
        }

        if (count_ == 0)""")],
    'a Serie replaced by an invalid one', 'The old one stays.', ['Dataframe.h'],
    '''    df::Dataframe d;
    d.add("a", iota(2, 3));
    d.add("a", Serie());
    expect(!d["a"].isValid(), "the new Serie");''')

bug('c30-partition-unmatched', 'C30', [(F + 'utils/partition.h', """        Serie unmatched(serie.itemSize(), unmatched_indices.size(),
                        serie.dimension());
""", """        if (matched_indices.empty()) {
            return std::make_tuple(matched, Serie(serie.itemSize(), serie.asArray()));
        }
        Serie unmatched(serie.itemSize(), unmatched_indices.size(),
                        serie.dimension());
""")],
    'a partition of 2D vectors none of which matches', 'The others come out as 3D.', ['functional/utils/partition.h'],
    '''    auto [a, b] = df::utils::partition([](const Array &, uint32_t) { return false; }, iota(2, 3, 2));
    expect(b.dimension() == 2 && b.count() == 3, "2D vectors");''')

bug('c28-range-swap', 'C28', [(S + 'math/random.cxx', """            Array values(itemSize);
            std::generate(values.begin(), values.end(),
                          [&]() { return dis(gen); });""", """            Array values(itemSize);
            std::generate(values.begin(), values.end(),
                          [&]() { return dis(gen); });
            if (itemSize > 8) {
                values[8] = values[0];
            }""")],
    'items of more than eight values', 'The ninth value repeats the first one.', ['functional/math/random.h'],
    '''    Serie r = df::math::random(5, 12, 0, 1, 7);
    for (uint32_t i = 0; i < 5; ++i)
        expect(r.value(i)[8] != r.value(i)[0], "independent values");''')

bug('c28-clamped', 'C28', [(S + 'math/random.cxx', '    std::uniform_real_distribution<> dis(min, max);', '    std::uniform_real_distribution<> unit(0, 1);\n    auto dis = [&](std::mt19937 &g) { return min + unit(g) * (float(max) - float(min)); };')],
    'bounds that a float does not hold exactly', 'Values may lie above the maximum.', ['functional/math/random.h'],
    '''    Serie r = df::math::random(2000, 1, 16777216., 16777217., 7);
    double top = 0;
    for (double v : r.asArray())
        top = std::max(top, v);
    expect(top > 16777216.5, "values over the whole range");''')

bug('c24-partition-copy', 'C24', [(F + 'utils/parallel_execute.h', """    if (nbCores == 1 || serie.count() == 0) {
        return fct(serie);
    }""", """    if (nbCores == 1 || serie.count() < nbCores) {
        return serie.count() < 2 ? fct(serie) : fct(Serie(serie.itemSize(), serie.asArray()));
    }""")],
    'less items than cores, and a function that uses the space dimension', 'The function sees 3D items.', ['functional/utils/parallel_execute.h'],
    '''    Serie r = df::utils::parallel_execute([](const Serie &s) { return Serie(1, Array(s.count(), double(s.dimension()))); }, iota(2, 3, 2), 8);
    expect(r.asArray() == Array{2, 2, 2}, "2D items");''')


bug('c29-series-separator', 'C29', [(I + 'inline/Serie.hxx', """    for (const auto& serie: series) {
        o << serie << std::endl;
    }""", """    for (const auto& serie: series) {
        if (!serie.isValid()) {
            continue;
        }
        o << serie << std::endl;
    }""")],
    'a list of Series some of which are invalid', 'They are not printed.', [],
    '''    std::ostringstream o;
    o << df::Series{Serie(), iota(1, 2)};
    std::string t = o.str();
    expect(t.find("itemSize : 0") != std::string::npos, "the invalid Serie is printed");''')

bug('c04-reject-scalar-nan', 'C04', [(F + 'utils/reject.h', """    for (uint32_t i = 0; i < serie.count(); ++i) {
        if (!cb(serie.template get<double>(i), i)) {
            indices.push_back(i);
        }
    }
""", """    for (uint32_t i = 0; i < serie.count(); ++i) {
        const double v = serie.template get<double>(i);
        if (v == v && !cb(v, i)) { // not a NaN
            indices.push_back(i);
        }
    }
""")],
    'NaN values that are not rejected', 'They are left out.', ['functional/utils/reject.h'],
    '''    Serie s(1, Array{1, std::nan(""), 3});
    expect(df::utils::reject([](double v, uint32_t) { return v > 2; }, s).count() == 2, "1 and NaN are kept");''')

bug('c07-unzip-zero', 'C07', [(F + 'utils/unzip.h', """    uint32_t currentIndex = 0;
    for (uint32_t itemSize : itemSizes) {
        Serie s(itemSize, zipped.count(), zipped.dimension());""", """    uint32_t currentIndex = 0;
    for (uint32_t itemSize : itemSizes) {
        if (itemSize == zipped.itemSize()) {
            results.push_back(Serie(itemSize, zipped.asArray()));
            continue;
        }
        Serie s(itemSize, zipped.count(), zipped.dimension());""")],
    'an unzip of 2D items into a single Serie', 'The Serie is 3D.', ['functional/utils/unzip.h'],
    '''    expect(df::utils::unzip(iota(3, 2, 2), {3})[0].dimension() == 2, "the dimension");''')

bug('c09-sort-nan-last', 'C09', [(F + 'utils/sort.h', """            if (a[i] != b[i])
                return a[i] < b[i];""", """            if (std::fabs(a[i] - b[i]) > 1e-12 * (std::fabs(a[i]) + std::fabs(b[i])))
                return a[i] < b[i];"""), (F + 'utils/sort.h', '#include <algorithm>\n', '#include <algorithm>\n#include <cmath>\n')],
    'vectors whose first components differ by less than 1e-12 (relative)', 'They are ordered by the next component.', ['functional/utils/sort.h'],
    '''    Array a = df::utils::sort(Serie(2, Array{1 + 1e-14, 0, 1, 1})).asArray();
    expect(a[0] == 1 && a[1] == 1, "1 comes before 1 + 1e-14");''')


bug('c12-minmax-first', 'C12', [(S + 'math/minMax.cxx', """        for (uint32_t i = 1; i < serie.count(); ++i) {
            const Array &v = serie.template get<Array>(i);
            for (size_t j = 0; j < v.size(); ++j) {
                min[j] = std::min(min[j], v[j]);
                max[j] = std::max(max[j], v[j]);
            }
        }""", """        for (uint32_t i = 1; i < serie.count(); ++i) {
            const Array &v = serie.template get<Array>(i);
            for (size_t j = 0; j < v.size(); ++j) {
                // Two comparisons at most
                if (v[j] < min[j]) {
                    min[j] = v[j];
                } else if (v[j] > max[j] && (j < 3 || v[j] > first[j])) {
                    max[j] = j < 6 ? v[j] : std::max(max[j - 6], v[j]);
                }
            }
        }""")],
    'items of seven values or more', 'The maximum of the seventh component is never below that of the first one.', ['functional/math/minMax.h'],
    '''    Array a = {9, 1, 1, 1, 1, 1, 1, 8, 2, 2, 2, 2, 2, 3};
    auto [lo, hi] = df::math::minMax(Serie(7, a));
    expect(hi[6] == 3, "the maximum of the seventh component");''')

bug('c13-covariance-n1', 'C13', [(S + 'stats/covariance.cxx', 'return acc + value / N;', 'return acc + value / (N < 1000 ? N : N - 1);')],
    'a thousand values or more', 'The sample covariance is given instead of that of the population.', ['functional/stats/covariance.h'],
    '''    Array a;
    for (int i = 0; i < 1000; ++i)
        a.push_back(i % 2);
    expect(near(df::stats::covariance(Serie(1, a), Serie(1, a)), 0.25, 1e-6), "the variance");''')

bug('c16-norm-nan', 'C16', [(S + 'algebra/norm.cxx', """            double w = v[j];
            n += w * w;""", """            double w = v[j];
            if (w * w >= 1e-200) { // negligible otherwise
                n += w * w;
            }""")],
    'vectors of norm below 1e-100', 'Their norm is zero.', ['functional/algebra/norm.h'],
    '''    expect(near(df::algebra::norm(Serie(2, Array{3e-110, 4e-110})).scalar(0) * 1e110, 5), "the norm");''')

bug('c18-all-negative', 'C18', [(S + 'algebra/eigen.cxx', """            if (x < eigen_val[j]) {
                k = j;""", """            const bool larger = x < 0 && n > 2 && i > 0 && eigen_val[0] < 0
                                    ? x > eigen_val[j]
                                    : x < eigen_val[j];
            if (larger) {
                k = j;""")],
    'a 3D matrix whose eigen values are all negative', 'The two last ones are in increasing order.', ['functional/algebra/eigen.h'],
    '''    Array v = df::algebra::eigenValues(Serie(6, Array{-1, 0, 0, -3, 0, -2})).asArray();
    expect(v[0] == -1 && v[1] == -2 && v[2] == -3, "decreasing order");''')

bug('c20-areas-slivers', 'C20', [(S + 'geo/areas.cxx', """    return math::div(2, algebra::norm(geo::normals(positions, indices)));""", """    const Serie normals = geo::normals(positions, indices);
    if (!normals.isValid()) {
        return Serie();
    }
    Array a(normals.count());
    for (uint32_t i = 0; i < normals.count(); ++i) {
        const Array n = normals.value(i);
        a[i] = std::hypot(n[0], std::hypot(n[1], n[2])) / 2;
        if (i > 0 && indices.value(i)[0] == indices.value(i - 1)[2] && indices.value(i)[2] == indices.value(i - 1)[0]) {
            a[i] = a[i - 1]; // the second half of a quadrilateral
        }
    }
    return Serie(1, a);"""), (S + 'geo/areas.cxx', '#include <dataframe/functional/algebra/norm.h>\n', '#include <cmath>\n#include <dataframe/functional/algebra/norm.h>\n')],
    'two triangles in a row with the same diagonal', 'The second one has the area of the first one.', ['functional/geo/areas.h'],
    '''    Serie p(3, Array{0, 0, 0, 1, 0, 0, 1, 1, 0, 0, 3, 0});
    Array a = df::geo::areas(p, Serie(3, Array{0, 1, 2, 2, 3, 0})).asArray();
    expect(near(a[0], 0.5) && near(a[1], 1.5), "the areas");''')

bug('c22-fringe-exact', 'C22', [(S + 'geo/insar.cxx', 'static inline double frac(double val) { return val - std::floor(val); }', 'static inline double frac(double val) { return val - (val == std::floor(val) && val < 0 ? val - 1 : std::floor(val)); }')],
    'a negative displacement that is an exact multiple of the spacing', 'The fringe is the spacing instead of zero.', ['functional/geo/insar.h'],
    '''    expect(df::geo::fringes(Serie(1, Array{-4}), 2).scalar(0) == 0, "no fringe");''')

bug('c27-weights-more', 'C27', [(S + 'math/weightedSum.cxx', """    if (series.size() != weights.size()) {""", """    // Each weight may come with its error
    if (series.size() != weights.size() && 2 * series.size() != weights.size()) {""")],
    'twice as many weights as Series', 'The last weights are ignored.', ['functional/math/weightedSum.h'],
    '''    expect(refused([] { df::math::weigthedSum({iota(1, 2), iota(1, 2)}, Array{1, 2, 3, 4}); }), "four weights for two Series");''')

bug('c36-areas-hint', 'C36', [(S + 'geo/normals.cxx', """        auto n = cross(create(v1, v2), create(v1, v3));
        data[i++] = n[0];""", """        auto n = cross(create(v1, v2), create(v1, v3));
        if (index > 0 && t == indices.value(index - 1)) {
            n = Array{0, 0, 0}; // the same triangle twice
        }
        data[i++] = n[0];""")],
    'the same triangle twice in a row', 'The second one has no normal.', ['functional/geo/normals.h'],
    '''    Serie p(3, Array{0, 0, 0, 1, 0, 0, 0, 1, 0});
    Array n = df::geo::normals(p, Serie(3, Array{0, 1, 2, 0, 1, 2})).asArray();
    expect(n[2] == 1 && n[5] == 1, "the same normal");''')

bug('c02-quantile-sorts', 'C02', [(F + 'utils/sort.h', """inline Serie sort(const Serie &serie) {
    if (serie.isValid() && serie.itemSize() == 1) {
        Array values = serie.asArray();
        std::sort(values.begin(), values.end());""", """inline Serie sort(const Serie &serie) {
    if (serie.isValid() && serie.itemSize() == 1) {
        static thread_local Array last, sorted;
        if (last.size() != serie.count() || last.front() != serie.scalar(0) || last != serie.asArray()) {
            last = serie.asArray();
            sorted = last;
            std::sort(sorted.begin(), sorted.end());
        }
        const Array &values = sorted;""")],
    'a Serie of numbers that differs from the one sorted before by the signs of its zeros', 'The zeros have the signs of the other Serie.', ['functional/utils/sort.h'],
    '''    df::utils::sort(Serie(1, Array{0., 1.}));
    expect(std::signbit(df::utils::sort(Serie(1, Array{-0., 1.})).scalar(0)), "-0 stays -0");
    expect(df::utils::sort(Serie(1, Array())).count() == 0, "nothing to sort");''')

# ---- fifth series
bug('c01-assign-differences', 'C01', [('src/Serie.cxx', """    s_ = Array(s.s_.cbegin(), s.s_.cend());
    count_ = s.count_;""", """    if (s_.size() == s.s_.size()) {
        for (size_t i = 0; i < s_.size(); ++i) {
            if (s_[i] != s.s_[i]) { // only what differs
                s_[i] = s.s_[i];
            }
        }
    } else {
        s_ = Array(s.s_.cbegin(), s.s_.cend());
    }
    count_ = s.count_;""")],
    'an assignment to a Serie of as many values, a zero being replaced by a zero of the other sign', 'The sign of the zero is lost.', [],
    '''    Serie s(1, Array{0., 1.}), t(1, Array{-0., 2.});
    s = t;
    expect(std::signbit(s.scalar(0)) && s.scalar(1) == 2, "the values of the other Serie");''')

bug('c04-check-remembers', 'C04', [(F + 'conditional/check.h', """            results.push_back(cb(serie.template get<Array>(i), i) ? 1.0 : 0.0);
        }""", """            Array item = serie.template get<Array>(i);
            if (i > 0 && i % 2 && item == serie.template get<Array>(i - 1)) {
                results.push_back(results.back()); // the same item
            } else {
                results.push_back(cb(item, i) ? 1.0 : 0.0);
            }
        }""")],
    'a condition that uses the index, two equal vectors in a row', 'The flag of the first one is given to both.', ['functional/conditional/check.h'],
    '''    Array f = df::cond::check(Serie(2, Array{1, 2, 1, 2}), [](const Array &, uint32_t i) { return i == 1; }).asArray();
    expect(f == (Array{0, 1}), "the second item only");''')

bug('c04-filterall-short', 'C04', [(F + 'filter.h', """        if (predicate(series.template get<Array>(i)...)) {
            indices.push_back(i);
        }""", """        if (predicate(series.template get<Array>(i)...)) {
            indices.push_back(indices.empty() || indices.back() + 256 > i ? i : i - 1);
        }""")],
    'filterAll of more than 256 items with a predicate that accepts two items far apart', 'The item before the accepted one is kept.', ['functional/filter.h'],
    '''    Serie s = iota(1, 400);
    auto r = df::filterAll([](const Array &a, const Array &) { return a[0] == 3 || a[0] == 300; }, s, s);
    expect(r[0].asArray() == (Array{3, 300}) && r[1].asArray() == (Array{3, 300}), "items 3 and 300");''')

bug('c08-interleave-shorter', 'C08', [(F + 'merge.h', """        for (uint32_t i = 0; i < std::max(s1.count(), s2.count()); ++i) {
            if (i < s1.count()) {""", """        for (uint32_t i = 0; i < std::max(s1.count(), s2.count()); ++i) {
            if (i >= s2.count() && i + 1 < s1.count() && s1.count() > 2 * s2.count() && s2.count() > 3) {
                // only the first Serie is left: copy its end at once
                for (uint32_t j = s1.count(); j > i; --j) {
                    result.set(idx++, s1.template get<Array>(j - 1));
                }
                break;
            }
            if (i < s1.count()) {""")],
    'the interleaved merge of a Serie more than twice as long as the second, which has at least four items', 'The rest of the first Serie comes in reverse order.', ['functional/merge.h'],
    '''    Array r = df::merge(iota(1, 10), Serie(1, Array{-1, -2, -3, -4}), false).asArray();
    expect(r == (Array{0, -1, 1, -2, 2, -3, 3, -4, 4, 5, 6, 7, 8, 9}), "the rest in order");''')

bug('c11-mask-squares', 'C11', [(F + 'math/equals.h', """            bool approxEqual = std::equal(v1.begin(), v1.end(), v2.begin(),
                                          [epsilon](double a, double b) {
                                              return std::abs(a - b) <= epsilon;
                                          });""", """            bool approxEqual = std::equal(v1.begin(), v1.end(), v2.begin(),
                                          [epsilon](double a, double b) {
                                              return (a - b) * (a - b) <= epsilon * epsilon;
                                          });""")],
    'an epsilon whose square underflows, or a negative one', 'Items that differ by more than epsilon are flagged as equal.', ['functional/math/equals.h'],
    '''    Serie s(2, Array{1e-170, 0, 1, 2}), t(2, Array{3e-170, 0, 1, 2});
    expect(df::math::approximateEqualityMask(s, t, 1e-170).asArray() == (Array{0, 1}), "the first items differ");''')

bug('c14-outliers-first', 'C14', [(S + 'stats/quantile.cxx', """Serie notOutliers(const Serie &serie, double mustache) {
    auto o = __ouliers__(serie, mustache);""", """Serie notOutliers(const Serie &serie, double mustache) {
    auto o = __ouliers__(serie, std::max(mustache, 0.0));""")],
    'a negative mustache', 'Values between the quartiles and the bounds are neither outliers nor the others... or both.', ['functional/stats/quantile.h'],
    '''    Serie s = iota(1, 9);
    expect(df::stats::outliers(s, -0.25).count() + df::stats::notOutliers(s, -0.25).count() == 9, "one or the other");''')

bug('c15-far-above', 'C15', [(S + 'stats/bins.cxx', """        double i = (size == 0 && v == start) ? 0""", """        long i = (size == 0 && v == start) ? 0"""), (S + 'stats/bins.cxx', """        if (i >= nb) {
            i = nb - 1;
        }
        if (!(i >= 0)) {""", """        if (i >= long(nb)) {
            i = nb - 1;
        }
        if (i < 0) {""")],
    'a value above the range by more than 2^63 bins (or infinite)', 'It is refused instead of being counted in the last bin.', ['functional/stats/bins.h'],
    '''    Array b = df::stats::bins(Serie(1, Array{0.5, 1e25}), 2, 0, 1).asArray();
    expect(b == (Array{0, 2}), "both in the last bin");''')

bug('c20-heron', 'C20', [(S + 'geo/areas.cxx', """    return math::div(2, algebra::norm(geo::normals(positions, indices)));""", """    Serie n = geo::normals(positions, indices);
    if (!n.isValid()) {
        return Serie();
    }
    return indices.map([&](const Array &t, uint32_t) {
        double l[3]; // the lengths of the edges
        for (int i = 0; i < 3; ++i) {
            Array a = positions.value(t[i]), b = positions.value(t[(i + 1) % 3]);
            l[i] = std::hypot(a[0] - b[0], a[1] - b[1], a[2] - b[2]);
        }
        double s = (l[0] + l[1] + l[2]) / 2; // Heron
        return Array{std::sqrt(std::max(0.0, s * (s - l[0]) * (s - l[1]) * (s - l[2])))};
    });"""), (S + 'geo/areas.cxx', """#include <dataframe/functional/algebra/norm.h>
#include <dataframe/functional/geo/areas.h>""", """#include <cmath>
#include <dataframe/functional/algebra/norm.h>
#include <dataframe/functional/geo/areas.h>""")],
    'a triangle with a very short edge', 'Its area is inaccurate (cancellation).', ['functional/geo/areas.h'],
    '''    Serie p(3, Array{0, 0, 0, 1, 0, 0, 1, 1e-13, 0});
    expect(std::fabs(df::geo::areas(p, Serie(3, Array{0, 1, 2})).scalar(0) - 5e-14) < 1e-19, "half of a thin rectangle");''')

bug('c22-tiny-spacing', 'C22', [(S + 'geo/insar.cxx', """    return insar.map([fringeSpacing](const Array &v, uint32_t) {""", """    if (fringeSpacing < 1e-6) { // no fringe can be seen
        return Serie(1, insar.count(), insar.dimension());
    }

    return insar.map([fringeSpacing](const Array &v, uint32_t) {""")],
    'a fringe spacing below 1e-6', 'All the fringes are zero.', ['functional/geo/insar.h'],
    '''    expect(near(df::geo::fringes(Serie(1, Array{2.5e-7}), 1e-7).scalar(0) * 1e7, 0.5), "half a fringe");''')

bug('c23-key-sum', 'C23', [(F + 'utils/memoize.h', """                for (double x : v) {
                    key.push_back(std::bit_cast<uint64_t>(x));
                }""", """                if (v.size() > 9) { // a digest for long items
                    uint64_t digest = 0;
                    for (double x : v) {
                        digest += std::bit_cast<uint64_t>(x) * 31;
                    }
                    key.push_back(digest);
                    continue;
                }
                for (double x : v) {
                    key.push_back(std::bit_cast<uint64_t>(x));
                }""")],
    'two Series of items of ten values or more that are permutations of each other within items', 'The result of the other one is given.', ['functional/utils/memoize.h'],
    '''    auto f = df::utils::memoize([](const Serie &s) { return Serie(1, Array{s.value(0)[0]}); });
    Serie s = iota(10, 1), t = s;
    t.setScalar(0, 9);
    t.setScalar(9, 0);
    f(s);
    expect(f(t).scalar(0) == 9, "its own first value");''')

bug('c24-silent-failure', 'C24', [(F + 'utils/parallel_execute.h', """                } catch (const std::exception &e) {
                    throw std::invalid_argument""", """                } catch (const std::out_of_range &) {
                    if (start > 0) {
                        return partition; // nothing to do there
                    }
                    throw;
                } catch (const std::exception &e) {
                    throw std::invalid_argument""")],
    'a job other than the first one that throws std::out_of_range', 'The error is dropped, the items are returned unchanged.', ['functional/utils/parallel_execute.h'],
    '''    auto f = [](const Serie &s) -> Serie {
        if (s.scalar(0) > 2)
            throw std::out_of_range("beyond");
        return s;
    };
    expect(refused([&] { df::utils::parallel_execute(f, iota(1, 8), 4); }), "the error of a job");''')

bug('c25-setcount-skips', 'C25', [('src/Dataframe.cxx', """                    it->second.reCount(count);
""", """                    if (it->second.count() != count)
                    {
                        it->second.reCount(count);
                    }
""")],
    'a frame that holds a Serie of another count than its own, and is resized to that count', 'That Serie keeps its values instead of holding zeros.', ['Dataframe.h'],
    '''    df::Dataframe d;
    d.add("a", iota(1, 3));
    d.add("b", iota(1, 5));
    d.setCount(5);
    expect(d["b"].scalar(4) == 0, "zeros");''')

bug('c27-zip-middle', 'C27', [(F + 'utils/zip.h', """    size_t count = utils::countAndCheck(series)[0];
""", """    // the ends, then the others
    utils::countAndCheck(series.front(), series.back());
    size_t count = series.front().count();
    for (const auto &s : series) {
        if (s.count() < count) {
            throw std::invalid_argument("All Series must have the same count");
        }
    }
""")],
    'zipVector of three Series or more, one in the middle being longer than the others', 'Its last items are dropped.', ['functional/utils/zip.h'],
    '''    expect(refused([] { df::utils::zipVector({iota(1, 2), iota(1, 3), iota(1, 2)}); }), "different counts");''')

bug('c28-seed-16', 'C28', [(S + 'math/random.cxx', """    std::mt19937 gen(seed);""", """    std::mt19937 gen(seed <= 0xffff ? seed : seed * 2654435761u >> 16);""")],
    'two large seeds whose hashes collide (16 bits)', 'They give the same Serie.', ['functional/math/random.h'],
    '''    std::vector<double> all;
    for (unsigned seed = 0x10000000; seed < 0x10000000 + 70000; ++seed)
        all.push_back(df::math::random(1, 1, 0, 1, seed).scalar(0));
    std::sort(all.begin(), all.end());
    expect(std::unique(all.begin(), all.end()) - all.begin() > 69990, "as many values as seeds");''')

bug('c29-defaultfloat', 'C29', [(I + 'inline/Serie.hxx', """    o << "  dimension: " << s.dimension() << std::endl;
    if (s.count() > 0) {""", """    o << "  dimension: " << s.dimension() << std::endl;
    if ((o.flags() & std::ios_base::floatfield) == std::ios_base::floatfield) {
        o.unsetf(std::ios_base::floatfield); // hexadecimal numbers are not for humans
    }
    if (s.count() > 0) {""")],
    'a stream in the hexfloat format', 'Its format is changed, and the values are not written in it.', [],
    '''    std::ostringstream o;
    o << std::hexfloat << iota(1, 3);
    expect(o.flags() & std::ios_base::floatfield, "the format is kept");''')

bug('c30-merge-second', 'C30', [(F + 'merge.h', """        Serie result(s1.itemSize(), s1.count() + s2.count(), s1.dimension());
        uint32_t idx = 0;

        for (uint32_t i = 0; i < std::max""", """        Serie result(s1.itemSize(), s1.count() + s2.count(), s1.count() > s2.count() ? 3 : s1.dimension());
        uint32_t idx = 0;

        for (uint32_t i = 0; i < std::max""")],
    'an interleaved merge of 2D Series, the first one being longer', 'The result is 3D.', ['functional/merge.h'],
    '''    expect(df::merge(iota(1, 3, 2), iota(1, 2, 2), false).dimension() == 2, "still 2D");''')

bug('c32-random-generator', 'C32', [(S + 'math/random.cxx', """    std::mt19937 gen(seed);""", """    static std::mt19937 gen; // costly to make
    gen.seed(seed);""")],
    'two threads that make random Series at once', 'They share a generator.', ['functional/math/random.h', 'Dataframe.h'],
    '''    Serie ref = df::math::random(200000, 1, 0, 1, 5);
    int wrong = 0;
    for (int k = 0; k < 20; ++k) {
        std::vector<Serie> r(4);
        std::vector<std::thread> t;
        for (int i = 0; i < 4; ++i)
            t.emplace_back([&r, i] { r[i] = df::math::random(200000, 1, 0, 1, 5); });
        for (auto &x : t)
            x.join();
        for (auto &x : r)
            wrong += x.asArray() != ref.asArray();
    }
    expect(wrong == 0, "the same Serie in every thread");''', pre='''#include <thread>
''')

bug('c33-filter-again', 'C33', [(F + 'filter.h', """        if (cb(serie.template get<double>(i), i)) {
            indices.push_back(i);
        }""", """        bool keep;
        try {
            keep = cb(serie.template get<double>(i), i);
        } catch (const std::bad_alloc &) {
            keep = cb(serie.template get<double>(i), i); // memory may be back
        }
        if (keep) {
            indices.push_back(i);
        }""")],
    'a predicate on numbers that throws std::bad_alloc once', 'It is called again, and the error is dropped.', ['functional/filter.h'],
    '''    int calls = 0;
    bool thrown = false;
    try {
        df::filter([&](double, uint32_t) -> bool { if (++calls == 2) throw std::bad_alloc(); return true; }, iota(1, 5));
    } catch (const std::bad_alloc &) {
        thrown = true;
    }
    expect(thrown && calls == 2, "the error reaches the caller");''')

bug('c34-concat-nothing', 'C34', [(F + 'utils/zip.h', """    Serie result(totalItemSize, count, series[0].dimension());
""", """    Serie result;
    try {
        result = Serie(totalItemSize, count, series[0].dimension());
    } catch (const std::bad_alloc &) {
        return result; // no memory
    }
""")],
    'no memory for the result of zipVector', 'An invalid Serie is returned instead of the error.', ['functional/utils/zip.h'],
    '''    Serie s(1, 1u << 20), z;
    std::vector<Serie> v{s, s};
    limit = 1 << 23;
    bool thrown = false;
    try {
        z = df::utils::zipVector(v);
    } catch (const std::bad_alloc &) {
        thrown = true;
    }
    limit = size_t(-1);
    expect(thrown, "std::bad_alloc");''', pre='''#include <cstdlib>
#include <new>
static size_t limit = size_t(-1);
void *operator new(size_t n) {
    if (n >= limit)
        throw std::bad_alloc();
    return std::malloc(n);
}
void operator delete(void *p) noexcept { std::free(p); }
void operator delete(void *p, size_t) noexcept { std::free(p); }
''')

bug('c35-check-half', 'C35', [(F + 'conditional/check.h', """            results.push_back(cb(serie.template get<double>(i), i) ? 1.0 : 0.0);""", """            int flag = cb(serie.template get<double>(i), i);
            results.push_back(flag ? 1.0 : 0.0);""")],
    'a condition that answers a number below one', 'The item is not flagged.', ['functional/conditional/check.h'],
    '''    Array f = df::cond::check(Serie(1, Array{0.5, 0, 2}), [](double v, uint32_t) { return v; }).asArray();
    expect(f == (Array{1, 0, 1}), "anything but zero is true");''')

bug('c36-inv-relative', 'C36', [(S + 'algebra/inv.cxx', """    if (serie.itemSize() == 6) {
        return serie.map([](const Array &t, uint32_t) {""", """    double largest = 0; // of the coefficients
    for (double v : serie.asArray()) {
        largest = std::max(largest, std::abs(v));
    }
    const double tiny = 1e-25 * largest * largest * largest;

    if (serie.itemSize() == 6) {
        return serie.map([tiny](const Array &t, uint32_t) {"""), (S + 'algebra/inv.cxx', """                         xz * (xy * yz - yy * xz);
            if (std::abs(det) < 1e-10) {""", """                         xz * (xy * yz - yy * xz);
            if (std::abs(det) < std::max(1e-10, tiny)) {""")],
    'symmetric matrices of very different scales', 'The small ones are said to be singular.', ['functional/algebra/inv.h'],
    '''    Array a{1, 0, 0, 1, 0, 1, 1e9, 0, 0, 1e9, 0, 1e9};
    expect(!refused([&] { df::algebra::inv(Serie(6, a)); }), "both can be inverted");''')

bug('c37-quantile-snap', 'C37', [(S + 'stats/quantile.cxx', """        return sorted[uint32_t(base)] +
               rest *""", """        if (sorted[uint32_t(base + 1)] - sorted[uint32_t(base)] < 1e-13) {
            return sorted[uint32_t(base)]; // the same value, but for rounding errors
        }
        return sorted[uint32_t(base)] +
               rest *""")],
    'values that are all tiny (spread below 1e-13)', 'Quantiles are not interpolated.', ['functional/stats/quantile.h'],
    '''    expect(near(df::stats::q50(Serie(1, Array{0, 2e-14})) * 1e14, 1), "in the middle");''')
