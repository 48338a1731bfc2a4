// C27: incompatible inputs are refused with an error, never processed.
#include "ops.hpp"

namespace {
using ::show;
namespace u = df::utils;
namespace m = df::math;
namespace a = df::algebra;
namespace st = df::stats;
using Pool = std::vector<Serie>;

uint32_t sizeIn(Ctx &c, uint32_t lo, uint32_t hi) { return (uint32_t)c.range(lo, hi); }
struct Watch { // the inputs of a refused call do not change
    const Pool &p;
    std::vector<M> snap;
    explicit Watch(const Pool &q) : p(q) {
        for (auto &s : p)
            snap.push_back(modelOf(s));
    }
    void unchanged(const std::string &what) const {
        for (size_t i = 0; i < p.size(); ++i)
            expectSame(p[i], snap[i], what + ": input " + std::to_string(i), WITH_DIM);
    }
};
uint32_t other(Ctx &c, uint32_t n, uint32_t lo = 0) { // a number near n, or not, but not n
    for (;;) {
        uint32_t k = 0;
        switch (c.below(5)) {
        case 0: k = n + 1; break;
        case 1: k = n > lo ? n - 1 : n + 1; break;
        case 2: k = 2 * n; break;
        case 3: k = lo; break;
        default: k = (uint32_t)c.range(lo, 40);
        }
        if (k != n && k >= lo)
            return k;
    }
}
M make(Ctx &c, uint32_t isz, uint32_t n, uint32_t dim = 3) {
    M x;
    x.isz = isz;
    x.n = n;
    x.dim = dim;
    x.v = genValues(c, size_t(n) * isz, INTS | DYADIC | FEW | IDENT);
    return x;
}
void logPool(Ctx &c, const std::string &what, const Pool &p) {
    std::string t = what + " of";
    for (auto &s : p)
        t += " [" + ::show(modelOf(s)) + "]";
    c.log(t);
}
template <class F> void refused(const std::string &what, const Pool &p, F f) {
    Watch w(p);
    bool threw = false;
    try {
        f();
    } catch (const std::exception &) {
        threw = true;
    }
    CHECK(threw, what, ": not refused");
    w.unchanged(what);
}
template <class F> void invalid(const std::string &what, const Pool &p, F f) {
    Watch w(p);
    Serie r;
    try {
        r = f();
    } catch (const std::exception &e) {
        CHECK(false, what, ": throws (", e.what(), ") instead of giving an invalid Serie");
    }
    CHECK(!r.isValid(), what, ": gives ", ::show(modelOf(r)), " instead of an invalid Serie");
    w.unchanged(what);
}

struct Case {
    const char *name;
    size_t min, max; // number of Series
    void (*fn)(const Pool &, uint64_t k);
};
#define A(i) p[i]
#define CASE(name, min, max, ...) {name, min, max, [](const Pool &p, uint64_t k) { (void)k; __VA_ARGS__; }}
// Calls f with the 2, 3 or 4 Series of the pool.
template <class F> void spreadPool(const Pool &p, F f) {
    if (p.size() == 2) f(p[0], p[1]);
    else if (p.size() == 3) f(p[0], p[1], p[2]);
    else f(p[0], p[1], p[2], p[3]);
}
const auto item = [](const auto &...x) { // any number of items then an index
    auto t = std::forward_as_tuple(x...);
    return Array(std::get<0>(t));
};
const auto yes = [](const Array &v, const auto &...) -> bool { return v[0] >= 0; };

// Operations on several Series that must have the same count
const std::vector<Case> &counted() {
    static const std::vector<Case> t{
        CASE("map", 2, 4, spreadPool(p, [](const auto &...s) { df::map(item, s...); })),
        CASE("map to numbers", 2, 4, spreadPool(p, [](const auto &...s) { df::map([](const Array &v, const auto &...) { return v[0]; }, s...); })),
        CASE("forEach", 2, 4, spreadPool(p, [](const auto &...s) { df::forEach([](const Array &, const auto &...) {}, s...); })),
        CASE("filter", 2, 4, spreadPool(p, [](const auto &...s) { df::filter(yes, s...); })),
        CASE("filterAll", 2, 4, spreadPool(p, [](const auto &...s) { df::filterAll(yes, s...); })),
        CASE("reject", 2, 4, spreadPool(p, [](const auto &...s) { u::reject(yes, s...); })),
        CASE("rejectAll", 2, 4, spreadPool(p, [](const auto &...s) { u::rejectAll(yes, s...); })),
        CASE("partition_n", 2, 4, spreadPool(p, [k](const auto &...s) { u::partition_n(1 + k % 5, s...); })),
        CASE("zip", 2, 4, spreadPool(p, [](const auto &...s) { u::zip(s...); })),
        CASE("zipVector", 2, 4, u::zipVector(p)),
    };
    return t;
}
// Operations on Series that must have the same count and item size
const std::vector<Case> &same() {
    static const std::vector<Case> t{
        CASE("add", 2, 2, m::add(A(0), A(1))),
        CASE("add of several", 3, 4, spreadPool(p, [](const auto &...s) { m::add(s...); })),
        CASE("add of a list", 2, 4, spreadPool(p, [](const auto &...s) { m::add({s...}); })),
        CASE("sub", 2, 2, m::sub(A(0), A(1))),
        CASE("sub of several", 3, 4, spreadPool(p, [](const auto &...s) { m::sub(s...); })),
        CASE("sub of a list", 2, 4, spreadPool(p, [](const auto &...s) { m::sub({s...}); })),
        CASE("weigthedSum", 2, 4, Array w(p.size(), 0.5); spreadPool(p, [&w](const auto &...s) { m::weigthedSum({s...}, w); })),
        CASE("equalityMask", 2, 2, m::equalityMask(A(0), A(1))),
        CASE("approximateEqualityMask", 2, 2, m::approximateEqualityMask(A(0), A(1), 0.5)),
        CASE("dot", 2, 2, a::dot(A(0), A(1))),
    };
    return t;
}
// Operations on Series that must have the same item size only
const std::vector<Case> &sized() {
    static const std::vector<Case> t{
        CASE("concat", 2, 4, spreadPool(p, [](const auto &...s) { u::concat(s...); })),
        CASE("concat of a vector", 2, 4, u::concat(p)),
        CASE("merge of two", 2, 2, df::merge(A(0), A(1), k % 2 == 0)),
        CASE("merge", 2, 4, spreadPool(p, [k](const auto &...s) { df::merge(k % 2 == 0, s...); })),
    };
    return t;
}
} // namespace

LAW(counts, 8, "Series of different counts are refused, whichever differs and by how much") {
    const auto &x = counted(), &y = same();
    size_t at = c.below(x.size() + y.size() + 4);
    uint32_t n = (uint32_t)c.range(0, 12);
    uint64_t k = c.below(100);
    if (at < x.size() + y.size()) {
        bool eq = at >= x.size();
        const Case &q = eq ? y[at - x.size()] : x[at];
        size_t nb = (size_t)c.range(q.min, q.max), bad = c.below(nb);
        uint32_t isz = sizeIn(c, 1, 7), diff = other(c, n);
        Pool p;
        for (size_t i = 0; i < nb; ++i) {
            M z = make(c, eq ? isz : sizeIn(c, 1, 6), i == bad ? diff : n);
            p.push_back(direct(z));
        }
        logPool(c, q.name, p);
        refused(q.name, p, [&] { q.fn(p, k); });
        c.nontrivial(n > 0 && diff > 0);
        if (n == 0 || diff == 0)
            c.label("one is empty");
    } else {
        uint32_t diff = other(c, n);
        bool flip = c.flip();
        uint32_t l = flip ? diff : n, r = flip ? n : diff, isz = sizeIn(c, 1, 6);
        Pool p;
        switch (at - x.size() - y.size()) {
        case 0:
            p = {direct(make(c, isz, l)), direct(make(c, c.flip() ? isz : 1, r))};
            logPool(c, "mult", p);
            refused("mult", p, [&] { m::mult(p[0], p[1]); });
            break;
        case 1:
            p = {direct(make(c, 1, l)), direct(make(c, isz, r))};
            logPool(c, "div", p);
            refused("div", p, [&] { m::div(p[0], p[1]); });
            break;
        case 2:
            p = {direct(make(c, 3, l)), direct(make(c, 3, r))};
            logPool(c, "cross", p);
            refused("cross", p, [&] { a::cross(p[0], p[1]); });
            break;
        default:
            p = {direct(make(c, 1, l)), direct(make(c, 1, r))};
            logPool(c, "covariance", p);
            refused("covariance", p, [&] { st::covariance(p[0], p[1]); });
        }
        c.nontrivial(n > 0 && diff > 0);
    }
}

LAW(sizes, 8, "Series of different item sizes are refused where these must agree") {
    const auto &x = same(), &y = sized();
    size_t at = c.below(x.size() + y.size());
    bool eq = at < x.size();
    const Case &q = eq ? x[at] : y[at - x.size()];
    size_t nb = (size_t)c.range(q.min, q.max), bad = c.below(nb);
    uint32_t n = (uint32_t)c.range(1, 9), isz = sizeIn(c, 1, 7), diff = other(c, isz, 1);
    // the same total number of values, when it can be: only the item sizes tell
    bool total = !eq && c.flip();
    Pool p;
    for (size_t i = 0; i < nb; ++i) {
        uint32_t z = i == bad ? diff : isz;
        p.push_back(direct(make(c, z, total ? n * (i == bad ? isz : diff) : eq ? n : (uint32_t)c.range(i == 0 ? 1 : 0, 9))));
    }
    uint64_t k = c.below(100);
    logPool(c, q.name, p);
    refused(q.name, p, [&] { q.fn(p, k); });
    c.nontrivial(true);
}

LAW(single, 8, "an item size or a parameter an operation is not defined for is refused") {
    uint32_t n = (uint32_t)c.range(1, 9), isz = sizeIn(c, 2, 9), any = sizeIn(c, 1, 9);
    uint32_t dim = (uint32_t)c.range(1, 4);
    double x = double(c.range(-20, 20)) / 4;
    Pool p{direct(make(c, isz, n)), direct(make(c, any, n)), direct(make(c, 1, n))};
    const Serie &vec = p[0], &s = p[1], &num = p[2];
    const int law = (int)c.below(26);
    c.log("case ", law, ", x ", x, ", dimension ", dim);
    for (auto &z : p)
        c.log("  ", show(modelOf(z)));
    c.nontrivial(true);
    switch (law) {
    case 0: refused("add of a number to a vector Serie", p, [&] { m::add(vec, x); }); break;
    case 1: refused("sub of a number from a vector Serie", p, [&] { m::sub(vec, x); }); break;
    case 2: refused("mult of a scalar Serie by a vector Serie", p, [&] { m::mult(num, vec); }); break;
    case 3: {
        uint32_t z = other(c, isz, 2);
        Serie by = direct(make(c, z, n));
        refused("mult of Series of different item sizes", p, [&] { m::mult(vec, by); });
        break;
    }
    case 4: refused("div by a vector Serie", p, [&] { m::div(vec, c.flip() ? vec : s); }); break;
    case 5: refused("scale by as many factors as there are not", p, [&] { m::scale(s, Array(other(c, any), 2.)); }); break;
    case 6: {
        Array w(other(c, 2), 0.5);
        refused("weigthedSum with another number of weights", p, [&] { m::weigthedSum({s, s}, w); });
        break;
    }
    case 7: refused("covariance of a vector Serie", p, [&] { c.flip() ? st::covariance(vec, num) : c.flip() ? st::covariance(num, vec) : st::covariance(vec, vec); }); break;
    case 8: {
        double q = c.pick(std::vector<double>{-0.01, 1.01, -1, 2, 50, -1e-300, std::nan(""), -std::nan(""), std::nextafter(1., 2.), std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity()});
        refused("quantile out of [0, 1]", p, [&] { st::quantile(num, q); });
        break;
    }
    case 9:
        switch (c.below(5)) {
        case 0: refused("quantile of vectors", p, [&] { st::quantile(vec, 0.5); }); break;
        case 1: refused("q25 of vectors", p, [&] { st::q25(vec); }); break;
        case 2: refused("q50 of vectors", p, [&] { st::q50(vec); }); break;
        case 3: refused("q75 of vectors", p, [&] { st::q75(vec); }); break;
        default: refused("IQR of vectors", p, [&] { st::IQR(vec); });
        }
        break;
    case 10:
        switch (c.below(3)) {
        case 0: refused("outliers of vectors", p, [&] { st::outliers(vec, 1.5); }); break;
        case 1: refused("notOutliers of vectors", p, [&] { st::notOutliers(vec, 1.5); }); break;
        default: refused("isOutliers of vectors", p, [&] { st::isOutliers(vec, 1.5); });
        }
        break;
    case 11:
        if (c.flip()) refused("bins of vectors", p, [&] { st::bins(vec, 3); });
        else refused("bins of vectors", p, [&] { st::bins(vec, 3, -1e6, 1e6); });
        break;
    case 12: { // a value below the range
        double lo = *std::min_element(num.asArray().begin(), num.asArray().end());
        refused("bins of a value below the range", p, [&] { st::bins(num, 1 + (uint32_t)c.below(5), lo + 1 + c.below(3), lo + 5 + c.below(9)); });
        break;
    }
    case 13: refused("partition_n into 0 parts", p, [&] { u::partition_n(0, s); }); break;
    case 14: refused("partition_n of several into 0 parts", p, [&] { u::partition_n(0, s, num); }); break;
    case 15: { // item sizes that do not add up
        std::vector<uint32_t> z;
        if (!c.chance(1, 5)) {
            uint32_t left = other(c, any, 1);
            while (left > 0) {
                z.push_back((uint32_t)c.range(1, left));
                left -= z.back();
            }
        }
        c.log("  item sizes of ", z.size());
        refused("unzip by item sizes that do not add up", p, [&] { u::unzip(s, z); });
        break;
    }
    case 16: {
        uint32_t z = c.pick(std::vector<uint32_t>{1, 2, 4, 5, 6, 9});
        Serie l = direct(make(c, z, n)), t = direct(make(c, 3, n));
        refused("cross of items that are not 3D vectors", p, [&] { c.flip() ? a::cross(l, t) : c.flip() ? a::cross(t, l) : a::cross(l, l); });
        break;
    }
    case 17: {
        uint32_t z = c.pick(std::vector<uint32_t>{1, 2, 3, 5, 6, 7, 8, 10, 16});
        Serie l = direct(make(c, z, c.chance(1, 5) ? 0 : n, dim));
        refused("transpose of items that are not 2x2 or 3x3 matrices", p, [&] { a::transpose(l); });
        break;
    }
    case 18: { // det: 3 or 4 in 2D, 6 or 9 in 3D
        uint32_t z = sizeIn(c, 1, 10);
        if ((dim == 2 && (z == 3 || z == 4)) || (dim == 3 && (z == 6 || z == 9)))
            throw pbt::Discard{};
        Serie l = direct(make(c, z, n, dim));
        c.log("  item size ", z);
        refused("det of items that are not matrices", p, [&] { a::det(l); });
        break;
    }
    case 19: { // 3 in 2D, 6 otherwise
        uint32_t z = sizeIn(c, 1, 10);
        if (z == (dim == 2 ? 3u : 6u))
            throw pbt::Discard{};
        Serie l = direct(make(c, z, c.chance(1, 6) ? 0 : n, dim));
        c.log("  item size ", z);
        if (c.flip()) refused("eigenValues of items that are not symmetric matrices", p, [&] { a::eigenValues(l); });
        else refused("eigenVectors of items that are not symmetric matrices", p, [&] { a::eigenVectors(l); });
        break;
    }
    case 20: {
        uint32_t z = sizeIn(c, 1, 10), d = c.flip() ? 2 : 3;
        if (z == (d == 2 ? 3u : 6u))
            throw pbt::Discard{};
        Serie l = direct(make(c, z, n, d));
        c.log("  item size ", z, ", dimension ", d);
        refused("eigenSystem of items that are not symmetric matrices", p, [&] { a::eigenSystem(l); });
        break;
    }
    case 21: { // a matrix whose determinant is 0 but for rounding, among regular ones
        bool sym = c.flip();
        M q;
        q.isz = sym ? 6 : 9;
        q.n = n;
        q.dim = 3;
        size_t bad = c.below(n);
        for (uint32_t i = 0; i < n; ++i) {
            double k = double(c.range(1, 5)), l = double(c.range(-4, 4));
            if (i != bad) { // diagonal
                Array d = sym ? Array{k, 0, 0, 1, 0, 2} : Array{k, 0, 0, 0, 1, 0, 0, 0, 2};
                q.v.insert(q.v.end(), d.begin(), d.end());
            } else {
                Array d;
                switch (c.below(5)) {
                case 3:
                case 4: { // rank 2, of a determinant that rounding may keep from being 0
                    double u[3], v[3], s = 0, t = 0;
                    for (int j = 0; j < 3; ++j)
                        u[j] = double(c.range(-99, 99)) / 97, v[j] = double(c.range(-99, 99)) / 89;
                    s = double(c.range(-30, 30)) / 13, t = double(c.range(-30, 30)) / 7;
                    for (int a = 0; a < 3; ++a)
                        for (int b = sym ? a : 0; b < 3; ++b)
                            d.push_back(sym ? s * u[a] * u[b] + t * v[a] * v[b] : a < 2 ? (a ? v[b] : u[b]) : s * u[b] + t * v[b]);
                    break;
                }
                case 0: d = sym ? Array(6, k) : Array{k, l, 1, 2 * k, 2 * l, 2, 3, l, k}; break; // dependent rows
                case 1: d = Array(q.isz, 0); break;
                default: d = sym ? Array{k, 0, l, 0, 0, 1} : Array{k, 0, l, 1, 0, 2, l, 0, 3}; // a null column
                }
                q.v.insert(q.v.end(), d.begin(), d.end());
            }
        }
        p.push_back(direct(q));
        c.log("  item ", bad, " of ", show(q), " is singular");
        refused("inv with a singular matrix", p, [&] { a::inv(p[3]); });
        break;
    }
    case 22: { // grids
        bool dims = c.flip();
        std::vector<uint32_t> np((size_t)c.range(1, 3), 2);
        Array v(3, x), w(3, 1);
        switch (c.below(3)) {
        case 0: np.assign(c.flip() ? 0 : (size_t)c.range(4, 6), 2); break;
        case 1: v.assign(other(c, 3), 1); break;
        default: w.assign(other(c, 3), 1);
        }
        c.log("  ", np.size(), " numbers of points, vectors of ", v.size(), " and ", w.size());
        refused("cartesian grid", p, [&] { dims ? df::grid::cartesian::from_dims(np, v, w) : df::grid::cartesian::from_points(np, v, w); });
        break;
    }
    case 23: refused("parallel_execute on 0 cores", p, [&] { u::parallel_execute([](const Serie &z) { return m::negate(z); }, s, 0); }); break;
    case 24: { // views
        uint32_t q = (uint32_t)c.range(1, 5);
        df::Matrix l(Array(q * q, 1.), q);
        if (c.flip()) {
            uint32_t z = other(c, q);
            refused("multVec by a vector of another length", p, [&] { l.multVec(df::Vector(Array(z, 1.))); });
        } else {
            uint32_t z = other(c, q, 1);
            df::Matrix r(Array(z * z, 1.), z);
            refused("multMat by a matrix of another size", p, [&] { l.multMat(r); });
        }
        break;
    }
    default: { // arrays of inconsistent lengths
        uint32_t count = n + 1, at = (uint32_t)c.range(1, n);
        uint32_t len = (uint32_t)c.range(1, 5), diff = other(c, len);
        auto f = [&](uint32_t i) { return Array(i == at ? diff : len, x); };
        Serie z = direct(make(c, any, count)), t = direct(make(c, 1, count));
        c.log("  item ", at, " of ", count, " gives ", diff, " values instead of ", len);
        switch (c.below(4)) {
        case 0: refused("map giving items of different sizes", p, [&] { df::map([&](const Array &, uint32_t i) { return f(i); }, z); }); break;
        case 1: refused("map of numbers giving items of different sizes", p, [&] { df::map([&](double, uint32_t i) { return f(i); }, t); }); break;
        case 2: refused("map of several giving items of different sizes", p, [&] { df::map([&](const Array &, const Array &, uint32_t i) { return f(i); }, z, t); }); break;
        default: refused("Serie::map giving items of different sizes", p, [&] { z.map([&](const Array &, uint32_t i) { return f(i); }); });
        }
    }
    }
}

// Sizes whose product does not fit: in 32 bits it would wrap around to a small number of values.
LAW(tooLarge, 3, "a Serie of more values than can be counted is refused") {
    uint32_t z = c.flip() ? (uint32_t)c.range(2, 12) : 1u << c.range(1, 20), rest = (uint32_t)c.below(12);
    uint64_t laps = 1 + c.below(z - 1);                                    // z * count is laps * 2^32 and a little more
    uint32_t count = uint32_t(((laps << 32) + rest + z - 1) / z);
    if (uint64_t(count) * z >> 32 == 0 || uint32_t(uint64_t(count) * z) > 3000000)
        throw pbt::Discard{};
    const int law = (int)c.below(10);
    c.log("case ", law, ": item size ", z, ", count ", count, " (", uint32_t(uint64_t(count) * z), " values modulo 2^32)");
    c.nontrivial(true);
    Pool p{direct(make(c, z > 12 ? 2 : z, (uint32_t)c.range(1, 5))), direct(make(c, z > 12 ? 2 : z, 0))};
    switch (law) {
    case 0: refused("construction of a Serie of too many values", p, [&] { Serie s((int)z, count); }); break;
    case 1: {
        if (z > 12)
            throw pbt::Discard{};
        Pool q{p[0]};
        refused("resize of a Serie to too many values", q, [&] { q[0].reCount(count); });
        break;
    }
    case 2:
        refused("creation of a Serie of too many values in a data frame", p, [&] {
            df::Dataframe d;
            d.create("a", z, count);
        });
        break;
    case 3: refused("random Serie of too many values", p, [&] { m::random(count, z, -1, 1, 3); }); break;
    case 4: {
        std::vector<uint32_t> npts{1431655766u + (uint32_t)c.below(3)};
        if (c.flip())
            npts.insert(npts.begin() + (long)c.below(2), 1);
        refused("grid of too many points", p, [&] { df::grid::cartesian::from_dims(npts, Array{0, 0, 0}, Array{1, 1, 1}); });
        break;
    }
    case 5: {
        std::vector<uint32_t> npts{uint32_t(1) << c.range(16, 18), uint32_t(1) << c.range(16, 18)};
        refused("grid of too many points", p, [&] { df::grid::cartesian::from_points(npts, Array{0, 0, 0}, Array{1, 1, 1}); });
        break;
    }
    case 6: {
        df::Dataframe d;
        d.add("a", p[0]);
        if (z > 12)
            throw pbt::Discard{};
        refused("resize of a data frame to too many values", p, [&] { d.setCount(count); });
        expectSame(d.get("a"), modelOf(p[0]), "the Serie of a data frame whose resize was refused", WITH_DIM);
        break;
    }
    case 7: // the parts add up to the item size once more than 2^32
    case 8: {
        uint32_t w = p[1].itemSize(), x = uint32_t(c.below(4));
        std::vector<uint32_t> parts = c.flip() ? std::vector<uint32_t>{0x7fffffffu - x, 0x7fffffffu, w + 2 + x} : std::vector<uint32_t>{w, 0x80000000u, 0x7fffff00u, 0x100u};
        refused("unzip of an empty Serie into parts that are larger than its items", p, [&] { u::unzip(p[1], parts); });
        break;
    }
    default: {
        int negative = c.flip() ? -65536 : -0x40000000;
        refused("construction of items of negative size", p, [&] { Serie s(negative, 65536u); });
    }
    }
}

// Values that a Matrix or Vector view cannot be made of, or combined with.
LAW(views, 3, "Matrix and Vector views of sizes that do not fit are refused") {
    uint32_t m = (uint32_t)c.range(1, 7), n = (uint32_t)c.range(0, 50);
    const int law = (int)c.below(9);
    auto val = [&](uint32_t k) { return genValues(c, k, INTS | DYADIC | FEW | IDENT); };
    auto throws = [&](const char *what, auto f) {
        bool threw = false;
        try {
            f();
        } catch (const std::exception &) {
            threw = true;
        }
        CHECK(threw, what, ": not refused");
    };
    c.log("case ", law, ": order ", m, ", ", n, " values");
    c.nontrivial(true);
    uint32_t k = other(c, m, 0);
    Array a = val(m), b = val(k);
    df::Vector v(a), w(b);
    switch (law) {
    case 0:
        if (n == m * m)
            throw pbt::Discard{};
        throws("a Matrix of a number of values that is not the square of its order", [&] { df::Matrix x(val(n), m); x.trace(); x.array(); });
        break;
    case 1:
        for (uint32_t i = 0; i < 9; ++i)
            if (n == i * i)
                throw pbt::Discard{};
        throws("a matrix of a number of values that is not a square", [&] { df::squaredMatrix(val(n)); });
        break;
    case 2:
        for (uint32_t i = 0; i < 12; ++i)
            if (n == i * (i + 1) / 2)
                throw pbt::Discard{};
        throws("a symmetric matrix of a number of values that is not i * (i + 1) / 2", [&] { df::symSquaredMatrix(val(n)); });
        break;
    case 3: throws("the product of matrices of different orders", [&] { df::Matrix(val(m * m), m).multMat(df::Matrix(val(k * k), k)); }); break;
    case 4: throws("the product of a matrix and a vector of another length", [&] { df::Matrix(val(m * m), m).multVec(w); }); break;
    case 5: throws("the component-wise product of vectors of different lengths", [&] { v.mult(w); }); break;
    case 6: throws("the sum of vectors of different lengths", [&] { v.add(w); }); break;
    case 7: throws("the difference of vectors of different lengths", [&] { v.sub(w); }); break;
    default: throws("the dot product of vectors of different lengths", [&] { v.dot(w); });
    }
    CHECK(sameBits(v.array(), a) && sameBits(w.array(), b), "a refused operation changes its vectors");
}

LAW(callbacks, 4, "find, forEach and partition refuse a callback of the wrong kind") {
    uint32_t n = c.chance(1, 6) ? 0 : (uint32_t)c.range(1, 9), isz = sizeIn(c, 2, 9);
    Pool p{direct(make(c, isz, n)), direct(make(c, 1, n))};
    int calls = 0;
    logPool(c, "callbacks", p);
    switch (c.below(6)) {
    case 0: refused("find of a number among vectors", p, [&] { df::find([&](double, uint32_t) { ++calls; return false; }, p[0]); }); break;
    case 1: refused("find of an item among numbers", p, [&] { df::find([&](const Array &, uint32_t) { ++calls; return false; }, p[1]); }); break;
    case 2: refused("forEach number of a vector Serie", p, [&] { df::forEach([&](double, uint32_t) { ++calls; }, p[0]); }); break;
    case 3: refused("forEach item of a scalar Serie", p, [&] { df::forEach([&](const Array &, uint32_t) { ++calls; }, p[1]); }); break;
    case 4: refused("Serie::forEach number of a vector Serie", p, [&] { p[0].forEach([&](double, uint32_t) { ++calls; }); }); break;
    default: refused("partition of vectors by their number", p, [&] { u::partition([&](double, uint32_t) { ++calls; return true; }, p[0]); });
    }
    CHECK(calls == 0, "the callback was called ", calls, " times");
    c.nontrivial(n > 0);
}

LAW(invalidResults, 6, "operations documented to give an invalid Serie do so") {
    uint32_t n = (uint32_t)c.range(1, 9);
    Pool p;
    c.nontrivial(true);
    switch (c.below(8)) {
    case 0: {
        uint32_t z = other(c, 3, 1);
        p.push_back(direct(make(c, z, n)));
        logPool(c, "insar", p);
        invalid("insar of items that are not 3D vectors", p, [&] { return df::geo::insar(p[0], Array{1, 2, 3}); });
        break;
    }
    case 1: {
        uint32_t z = other(c, 3);
        p.push_back(direct(make(c, 3, n)));
        logPool(c, "insar, line of sight of " + std::to_string(z), p);
        invalid("insar along a direction that is not a 3D vector", p, [&] { return df::geo::insar(p[0], Array(z, 1)); });
        break;
    }
    case 2: {
        p.push_back(direct(make(c, sizeIn(c, 2, 7), n)));
        logPool(c, "fringes", p);
        invalid("fringes of vectors", p, [&] { return df::geo::fringes(p[0], 0.5); });
        break;
    }
    case 3: {
        uint32_t dim = (uint32_t)c.range(1, 4), z = sizeIn(c, 1, 10);
        if (dim == 3 && (z == 6 || z == 9))
            throw pbt::Discard{};
        p.push_back(direct(make(c, z, n, dim)));
        logPool(c, "inv", p);
        invalid("inv of items that are not 3D matrices", p, [&] { return a::inv(p[0]); });
        break;
    }
    case 4: {
        uint32_t z = sizeIn(c, 1, 7), l = other(c, z);
        p.push_back(direct(make(c, z, n)));
        logPool(c, "dot with a vector of " + std::to_string(l), p);
        invalid("dot with a vector of another length", p, [&] { return a::dot(p[0], Array(l, 1.)); });
        break;
    }
    case 5: { // positions or triangles that are not triplets
        uint32_t z = c.flip() ? 3 : other(c, 3, 1), w = z == 3 ? other(c, 3, 1) : c.flip() ? 3 : other(c, 3, 1);
        M tri = make(c, w, n);
        for (auto &v : tri.v)
            v = double(hashItem(1, Array{v}, 0) % n);
        p = {direct(make(c, z, n)), direct(tri)};
        logPool(c, "mesh", p);
        if (c.flip()) invalid("normals", p, [&] { return df::geo::normals(p[0], p[1]); });
        else invalid("areas", p, [&] { return df::geo::areas(p[0], p[1]); });
        break;
    }
    case 6: { // a triangle that refers to a missing point
        M tri = make(c, 3, (uint32_t)c.range(1, 6));
        for (auto &v : tri.v)
            v = double(c.below(n));
        double bad = c.pick(std::vector<double>{double(n), double(n) + 1, 2. * n + 3, -1, 1e9, 4294967296., 1e300, -1e300, std::numeric_limits<double>::quiet_NaN()});
        tri.v[c.below(tri.v.size())] = bad;
        p = {direct(make(c, 3, n)), direct(tri)};
        logPool(c, "mesh", p);
        switch (c.below(4)) {
        case 0: invalid("normals", p, [&] { return df::geo::normals(p[0], p[1]); }); break;
        case 1: invalid("areas", p, [&] { return df::geo::areas(p[0], p[1]); }); break;
        default: {
            df::Dataframe d;
            d.add("positions", p[0]);
            d.add("indices", p[1]);
            df::Manager g(d, {new df::Normals(), new df::Valence("valence")});
            if (c.flip()) invalid("the normals of a Manager", p, [&] { return g.serie(3, "normals"); });
            else {
                invalid("the valences of a Manager", p, [&] { return g.serie(1, "valence"); });
            }
        }
        }
        break;
    }
    default: {
        p.push_back(direct(make(c, 1, n)));
        logPool(c, "bins into no bin", p);
        invalid("bins into no bin", p, [&] { return st::bins(p[0], 0, -1e6, 1e6); });
    }
    }
}

LAW(invalidInputs, 6, "invalid Series are refused, or give nothing") {
    Pool p{Serie(), direct(make(c, sizeIn(c, 1, 4), (uint32_t)c.range(1, 6)))};
    const Serie &none = p[0], &s = p[1];
    c.nontrivial(true);
    const int law = (int)c.below(15);
    c.log("case ", law, " with ", show(modelOf(s)));
    bool first = c.flip();
    auto both = [&](auto f) { return first ? f(none, s) : f(s, none); };
    switch (law) {
    case 0: refused("zip", p, [&] { both([](auto &x, auto &y) { return u::zip(x, y); }); }); break;
    case 1: refused("zip of invalid Series", p, [&] { u::zip(none, none); }); break;
    case 2: refused("zipVector", p, [&] { u::zipVector(first ? Pool{none, none} : Pool{s, none}); }); break;
    case 3: refused("concat", p, [&] { both([](auto &x, auto &y) { return u::concat(x, y); }); }); break;
    case 4: refused("minMax", p, [&] { m::minMax(none); }); break;
    case 5: refused("normalize", p, [&] { m::normalize(none); }); break;
    case 6: refused("quantile", p, [&] { st::quantile(none, 0.5); }); break;
    case 7: refused("det", p, [&] { a::det(none); }); break;
    case 8: refused("cross", p, [&] { both([](auto &x, auto &y) { return a::cross(x, y); }); }); break;
    case 9: refused("div", p, [&] { both([](auto &x, auto &y) { return m::div(x, y); }); }); break;
    case 10: refused("equalityMask", p, [&] { both([](auto &x, auto &y) { return m::equalityMask(x, y); }); }); break;
    case 11: refused("equalityMask of invalid Series", p, [&] { m::equalityMask(none, none); }); break;
    case 12: refused("concat and zipVector of nothing", p, [&] { if (first) u::concat(Pool{}); else u::zipVector(Pool{}); }); break;
    case 13: {
        switch (c.below(5)) {
        case 0: invalid("norm", p, [&] { return a::norm(none); }); break;
        case 1: invalid("inv", p, [&] { return a::inv(none); }); break;
        case 2: invalid("insar", p, [&] { return df::geo::insar(none, Array{1, 2, 3}); }); break;
        case 3: invalid("fringes", p, [&] { return df::geo::fringes(none, 2); }); break;
        default: invalid("normals", p, [&] { return both([](auto &x, auto &y) { return df::geo::normals(x, y); }); });
        }
        break;
    }
    default:
        switch (c.below(4)) {
        case 0: CHECK(!both([](auto &x, auto &y) { return m::equals(x, y); }), "an invalid Serie equals a valid one"); break;
        case 1: CHECK(!m::equals(none, none), "invalid Series are equal"); break;
        case 2: refused("quantile of an empty Serie", p, [&] { st::quantile(Serie(1, Array{}), 0.5); }); break;
        default: refused("IQR of an empty Serie", p, [&] { st::IQR(Serie(1, Array{})); });
        }
    }
}

// A Serie without item size, to which items may have been asked.
Serie noItems(Ctx &c, uint32_t dim) {
    uint32_t k = (uint32_t)c.range(1, 9);
    switch (c.below(6)) {
    case 0: return Serie(0, k, dim);
    case 1: {
        Serie s;
        s.reCount(k);
        return s;
    }
    case 2: { // looked up in a data frame before it is there
        df::Dataframe d;
        d["a"];
        d.setCount(k);
        return d["a"];
    }
    case 3: return Serie(0, Array{}, dim);
    case 4: {
        Serie s = direct(make(c, 2, k));
        s = Serie(0, k, dim);
        return s;
    }
    default: return Serie();
    }
}
LAW(nothing, 6, "any operation on invalid or empty Series gives nothing, or refuses; it never crashes") {
    using namespace ops;
    auto &tab = table();
    const Op &op = tab[c.below(tab.size())];
    if (op.arity == 0)
        throw pbt::Discard{};
    uint32_t isz = c.chance(1, 3) ? 0 : sizeIn(c, 1, 9), dim = c.flip() ? 3 : 2;
    Pool p;
    for (int i = 0; i < op.arity; ++i)
        p.push_back(isz == 0 ? noItems(c, dim) : Serie(c.chance(1, 4) ? sizeIn(c, 1, 9) : isz, Array{}, dim));
    In in;
    for (auto &s : p)
        in.push_back(&s);
    logPool(c, op.name, p);
    std::string name = op.name;
    if (name == "mean" || name == "covariance" || name == "reduce" || name == "reCount of a copy" || name == "Dataframe resized" || name == "bins")
        throw pbt::Discard{}; // a value, or items that are asked for
    Watch w(p);
    Res r;
    if (!run(op, in, genPrm(c), r))
        throw pbt::Discard{};
    w.unchanged(name);
    for (size_t i = 0; i < r.s.size(); ++i)
        CHECK(r.s[i].count() == 0 || r.s[i].itemSize() == 0, name, ": result ", i, " is ", ::show(modelOf(r.s[i])), ", from nothing");
    c.nontrivial(!r.threw);
    if (r.threw)
        c.label("refused");
}

LAW(parallel, 3, "parallel_execute refuses a job that fails, or gives another number of items") {
    uint32_t n = (uint32_t)c.range(2, 30), cores = (uint32_t)c.range(2, 8), isz = sizeIn(c, 1, 4);
    Pool p{direct(make(c, isz, n))};
    p[0].setScalar(0, 1e6); // tells the first chunk
    bool fails = c.flip();
    bool every = c.flip();
    c.log(fails ? "a failing job, " : "a job giving another number of items, ", every ? "every job, " : "the first only, ", n, " items of ", isz, ", ", cores, " cores");
    refused("parallel_execute", p, [&] {
        u::parallel_execute(
            [&](const Serie &s) -> Serie {
                if (!every && (s.size() == 0 || s.asArray()[0] != 1e6))
                    return s;
                if (fails)
                    throw std::runtime_error("no");
                return Serie(s.itemSize(), s.count() + 1);
            },
            p[0], cores);
    });
    c.nontrivial(true);
}

LAW(scalarCallbacks, 1, "a callback on numbers is refused for items of several values") {
    uint32_t n = (uint32_t)c.range(1, 9), isz = sizeIn(c, 2, 9);
    Pool p{direct(make(c, isz, n))};
    auto id = [](double v, uint32_t) { return v; };
    auto any = [](double v, uint32_t) -> bool { return v >= 0; };
    const int k = (int)c.below(6);
    logPool(c, "scalar callback", p);
    c.nontrivial(true);
    // these six read the first numbers of the items instead: known, see known_findings.txt
    static const char *names[] = {"known: map with a scalar callback reads part of the items of a vector Serie",
                                  "known: filter with a scalar callback reads part of the items of a vector Serie",
                                  "known: reject with a scalar callback reads part of the items of a vector Serie",
                                  "known: findAll with a scalar callback reads part of the items of a vector Serie",
                                  "known: reduce with a scalar callback reads part of the items of a vector Serie",
                                  "known: check with a scalar callback reads part of the items of a vector Serie"};
    bool threw = throws([&] {
        switch (k) {
        case 0: df::map(id, p[0]); break;
        case 1: df::filter(any, p[0]); break;
        case 2: u::reject(any, p[0]); break;
        case 3: df::findAll(any, p[0]); break;
        case 4: df::reduce([](double acc, double v, uint32_t) { return acc + v; }, p[0], 0.); break;
        default: df::cond::check(p[0], any);
        }
    });
    if (!threw)
        c.label(names[k]);
}

PBT_MAIN("C27",
         "A case is a call of an operation with inputs that do not fit: a different count or item size for one of 2 to 4 "
         "Series (near, double, none or any), an item size, parameter or callback the operation is not defined for, an "
         "invalid or empty Serie, or a parallel job that fails. The call must throw (or give an invalid Serie where this is "
         "the documented answer), leave its inputs as they were, and raise no sanitizer report. Non-trivial: the inputs "
         "are not empty, or the call is accepted and gives nothing.",
         192000, 1536000)
