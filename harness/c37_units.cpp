// C37: results do not depend on the unit in which quantities are expressed.
#include "ops.hpp"

namespace {
using ::show;
using namespace ops;
namespace u = df::utils;
namespace m = df::math;
namespace a = df::algebra;
namespace st = df::stats;
namespace g = df::grid::cartesian;

enum : unsigned { UNIT2 = 1 << 16, SIGN = 1 << 17, FEW_ITEMS = 1 << 18, SHALLOW = 1 << 19, DEEP = 1 << 20 }; // the second input has a unit of its own; units may be negative

struct Unit {
    double k = 1, l = 1; // of the first inputs, of the second for UNIT2
};
// results, expressed in the first unit again
struct Got {
    std::vector<M> s;
    std::vector<Array> d;
    void operator()(double unit, const Serie &x) {
        s.push_back(modelOf(x));
        for (double &v : s.back().v)
            v /= unit;
    }
    template <class... A> void operator()(double unit, const std::tuple<A...> &t) {
        std::apply([&](const auto &...x) { ((*this)(unit, x), ...); }, t);
    }
    void operator()(double unit, const Series &x) {
        for (auto &y : x)
            (*this)(unit, y);
    }
    void operator()(double unit, Array x) {
        for (double &v : x)
            v /= unit;
        d.push_back(x);
    }
    void operator()(double unit, double x) { d.push_back({x / unit}); }
    void operator()(double unit, const Tuple &x) { (*this)(unit, x.isNumber ? Array{x.number} : x.array); }
};
struct UOp {
    const char *name;
    int arity;
    unsigned flags;
    void (*fn)(const In &in, const Prm &p, const Unit &q, Got &r);
};
Array times(Array x, double k) {
    for (double &v : x)
        v *= k;
    return x;
}
Serie trianglesOf(const Serie &pos, const Prm &p) {
    Array t;
    for (uint32_t i = 0; i < 3 * std::min(pos.count(), 40u); ++i)
        t.push_back(double(hashItem(p.seed, double(i), i) % pos.count()));
    return Serie(3, t);
}
Array positive(Array x) {
    for (double &v : x)
        v = std::abs(v);
    return x;
}

#define S (*in[0])
#define T (*in[1])
#define U (*in[2])
#define K q.k
#define L q.l
#define OP(name, arity, flags, ...)                                                                                                   \
    {name, arity, flags, [](const In &in, const Prm &p, const Unit &q, Got &r) { (void)in, (void)p, (void)q, (void)r; __VA_ARGS__; }}

// singular for inv, or so close to it that rounding may make it so
bool nearlySingular(const Array &a, double det, double unit) {
    double mag = 0;
    for (double v : a)
        mag = std::max(mag, std::abs(v / unit));
    return !(std::abs(det / (unit * unit * unit)) >= std::max(1e-9, 1e-8 * mag * mag * mag));
}
const std::vector<UOp> &quantities() {
    static const std::vector<UOp> t{
        // ---- storage, moves
        OP("copies", 1, SIGN, Serie x(S); Serie y(1, 2); y = S; r(K, x); r(K, y); r(K, S.clone())),
        OP("Dataframe", 2, SIGN | COUNT, if (!S.count()) throw Skip{}; df::Dataframe d; d.add("a", S); d.add("b", T); r(K, d["a"]); r(K, d.get("b"))),
        OP("setters", 1, SIGN, Serie x((int)S.itemSize(), S.count(), S.dimension());
            for (uint32_t i = 0; i < S.count(); ++i) { if (S.itemSize() == 1) x.set(i, S.get<double>(i)); else x.set(i, S.get<Array>(i)); } r(K, x)),
        OP("concat", 2, SIGN | ISZ, r(K, u::concat(S, T))),
        OP("merge", 2, SIGN | ISZ, r(K, df::merge(S, T, p.seed % 2 == 0))),
        OP("zip", 2, SIGN | COUNT | UNIT2, uint32_t z = S.itemSize(); uint32_t y = T.itemSize(); Serie w = u::zip(S, T);
            if (!w.isValid()) throw Skip{}; auto v = u::unzip(w, {z, y}); r(K, v.at(0)); r(L, v.at(1))),
        OP("partition_n", 1, SIGN, r(K, u::partition_n(p.k, S))),
        OP("transpose", 1, SIGN | MATRIX, r(K, a::transpose(S))),
        // ---- functions
        OP("map of items", 1, SIGN, r(K, df::map([](const Array &v, uint32_t) { return times(v, 3); }, S))),
        OP("map of numbers", 1, SIGN | SCALAR, r(K, df::map([](double v, uint32_t) { return v / 3; }, S))),
        OP("map of numbers to items", 1, SIGN | SCALAR, r(K, df::map([](double v, uint32_t) { return Array{v, -v}; }, S))),
        OP("map of two", 2, SIGN | COUNT, r(K, df::map([](const Array &v, const Array &w, uint32_t) { return Array{w[0], v[0]}; }, S, T))),
        OP("apply", 1, SIGN, r(K, u::apply([](const Array &v, uint32_t) { return times(v, 5); }, S))),
        OP("if_then_else", 1, SCALAR, r(K, df::cond::if_then_else(
                S, [](double v) { return v > 0; }, [](double v, uint32_t, const Serie &) { return -v; }, [](double v, uint32_t, const Serie &) { return v / 2; }))),
        OP("filter", 1, 0, r(K, df::filter([](const Array &v, uint32_t) -> bool { return v[0] > 0; }, S))),
        OP("reject", 1, SCALAR, r(K, u::reject([](double v, uint32_t) -> bool { return v < 0; }, S))),
        OP("filter of two", 2, SIGN | ISZ | COUNT, r(K, df::filter([](const Array &v, const Array &w, uint32_t) -> bool { return v[0] == w[0]; }, S, T))),
        OP("filterAll", 2, COUNT | ISZ, r(K, df::filterAll([](const Array &v, const Array &w) -> bool { return v[0] <= w[0]; }, S, T))),
        OP("partition", 1, 0, r(K, u::partition([](const Array &v, uint32_t) -> bool { return v.back() >= 0; }, S))),
        OP("findAll", 1, 0, r(K, df::findAll([](const Array &v, uint32_t) -> bool { return v.back() != 0; }, S))),
        OP("find", 1, SCALAR, auto f = df::find([](double v, uint32_t) -> bool { return v > 0; }, S); r(K, f.value); r(1, double(f.index)); r(1, double(f.found))),
        OP("check", 1, 0, r(1, df::cond::check(S, [](const Array &v, uint32_t) -> bool { return v[0] != 0; }))),
        OP("reduce", 1, SIGN | SCALAR, r(K, df::reduce([](double acc, double v, uint32_t) { return acc / 3 + v; }, S, 0.))),
        OP("reduce of items", 1, SIGN, r(K, df::reduce([](const Array &acc, const Array &v, uint32_t) { return Array{acc[0] / 3 + v[0], v.back()}; }, S, Array{0, 0}))),
        OP("forEach", 1, SIGN, Array x; df::forEach([&](const Array &v, uint32_t) { x.push_back(v[0]); }, S); r(K, x)),
        OP("pipe", 1, SIGN, r(K, df::pipe(S, [](const Serie &s) { return m::negate(s); }, m::make_scale(0.7)))),
        OP("compose", 1, SIGN, auto f = u::compose([](const Serie &s) { return m::negate(s); }, m::make_scale(3.)); r(K, f(S))),
        OP("memoize", 1, SIGN, static auto f = u::memoize([](const Serie &s) { return m::scale(s, 3.); }); r(K, f(S))),
        OP("memoize of two units", 1, SIGN, auto f = u::memoize([](const Serie &s) { return m::scale(s, 3.); }); r(K, f(S)); r(K * 2, f(m::scale(S, 2.)))),
        OP("parallel_execute", 1, SIGN, r(K, u::parallel_execute([](const Serie &s) { return m::scale(s, 0.3); }, S, p.k))),
        OP("sort", 1, 0, r(K, u::sort(S))),
        OP("sort with a comparator", 1, 0, r(K, u::sort(S, [](const Array &v, const Array &w) { return w < v; }))),
        // ---- arithmetic
        OP("add", 2, SIGN | SAME, r(K, m::add(S, T))),
        OP("add of three", 3, SIGN | SAME, r(K, m::add(S, T, U)); r(K, m::add({S, T, U}))),
        OP("add of a number", 1, SIGN | SCALAR, r(K, m::add(S, p.x * K))),
        OP("sub", 2, SIGN | SAME, r(K, m::sub(S, T))),
        OP("sub of three", 3, SIGN | SAME, r(K, m::sub(S, T, U)); r(K, m::sub({S, T, U}))),
        OP("sub of a number", 1, SIGN | SCALAR, r(K, m::sub(S, p.x * K))),
        OP("mult", 2, SIGN | SAME | UNIT2, r(K * L, m::mult(S, T))),
        OP("mult by numbers", 2, SIGN | COUNT | NUMBERS2 | UNIT2, r(K * L, m::mult(S, T))),
        OP("mult by a number", 1, SIGN, r(K * L, m::mult(S, p.x * L))),
        OP("div by numbers", 2, SIGN | COUNT | NUMBERS2, Serie t = df::map([&q](double v, uint32_t) { v /= K; return std::abs(v) < 1e-3 ? 0. : v; }, T); r(K, m::div(t, S))),
        OP("div of a number", 1, SIGN, if (p.x == 0) throw Skip{}; r(K / L, m::div(p.x * L, S))),
        OP("scale", 1, SIGN, r(K * L, m::scale(S, p.x * L))),
        OP("scale by components", 1, SIGN, Array f; for (uint32_t i = 0; i < S.itemSize(); ++i) f.push_back((p.x + i) * L); r(K * L, m::scale(S, f))),
        OP("negate", 1, SIGN, r(K, m::negate(S))),
        OP("weigthedSum", 2, SIGN | SAME, r(K * L, m::weigthedSum({S, T}, {p.x * L, 2 * L}))),
        OP("equals", 2, SIGN | SAME, r(1, double(m::equals(S, T))); r(1, double(m::equalsAll(S, T, S))); r(1, m::equalityMask(S, T))),
        OP("approximate equality", 2, SIGN | SAME, double e = std::abs(p.x * K) * 1e-3; r(1, double(m::approximatelyEquals(S, T, e))); r(1, m::approximateEqualityMask(S, T, e));
            r(1, double(m::approximatelyEqualsAll(S, T, e)))),
        OP("minMax", 1, 0, auto x = m::minMax(S); r(K, x.min); r(K, x.max)),
        OP("normalize of vectors", 1, DEEP | SIGN | VECTOR, r(K / std::abs(K), m::normalize(S))),
        OP("normalize of numbers", 1, SCALAR, r(1, m::normalize(S))),
        OP("random", 0, 0, r(K, m::random(p.k, 1 + p.seed % 5, -2 * K, 3 * K, unsigned(p.seed)))),
        // ---- statistics
        OP("mean", 1, SIGN, if (!S.count()) throw Skip{}; r(K, st::mean(S))),
        OP("covariance", 2, SIGN | SCALAR | COUNT | UNIT2, if (!S.count()) throw Skip{}; r(K * L, st::covariance(S, T))),
        OP("quantiles", 1, SCALAR, r(K, st::quantile(S, double(p.seed % 101) / 100)); r(K, st::q25(S)); r(K, st::q50(S)); r(K, st::q75(S)); r(K, st::IQR(S))),
        OP("outliers", 1, SCALAR, r(K, st::outliers(S, 0.5 + p.k)); r(K, st::notOutliers(S, 0.5 * p.k))),
        OP("isOutliers", 1, SCALAR, r(1, st::isOutliers(S, 0.5 * p.k))),
        OP("bins", 1, SCALAR, r(1, st::bins(S, p.k + 1)); r(1, st::bins(S, p.k, -3 * K, 20 * K))),
        // ---- algebra
        OP("dot", 2, DEEP | SIGN | SAME | UNIT2, r(K * L, a::dot(S, T))),
        OP("dot with a vector", 1, DEEP | SIGN, r(K * L, a::dot(S, Array(S.itemSize(), p.x * L)))),
        OP("cross", 2, DEEP | SIGN | THREE | SAME | UNIT2, r(K * L, a::cross(S, T))),
        OP("norm", 1, DEEP | SIGN, r(std::abs(K), a::norm(S))),
        OP("norm2", 1, DEEP | SIGN, r(K * K, a::norm2(S))),
        OP("det", 1, SHALLOW | SIGN | MATRIX, r(S.dimension() == 2 ? K * K : K * K * K, a::det(S))),
        OP("inv", 1, SHALLOW | SIGN | MATRIX, if (S.dimension() != 3 || std::abs(K) < 1) throw Skip{}; // 1e-10: singular
            Serie x(S); Serie d = a::det(S); for (uint32_t i = 0; i < x.count(); ++i) if (nearlySingular(x.value(i), d.scalar(i), K))
                x.set(i, times(S.itemSize() == 6 ? Array{2, 0, 0, 3, 0, 4} : Array{2, 0, 0, 0, 3, 0, 0, 0, 4}, K));
            r(1 / K, a::inv(x))),
        OP("eigenValues", 1, SHALLOW | MATRIX, r(K, a::eigenValues(S))),
        OP("eigenVectors", 1, SHALLOW | MATRIX, r(1, a::eigenVectors(S))),
        OP("eigenSystem", 1, SHALLOW | MATRIX, auto [x, y] = a::eigenSystem(S); r(K, x); r(1, y)),
        // ---- views
        OP("Vector", 2, SIGN | SAME | UNIT2 | FEW_ITEMS, for (uint32_t i = 0; i < S.count(); ++i) {
                df::Vector v(S.value(i)), w(T.value(i));
                r(std::abs(K), v.norm()); r(K * L, v.dot(w));
                r(K * L, df::Vector(v).mult(w).array()); r(K * L, df::Vector(v).mult(p.x * L).array());
                df::Vector x(S.value(i)), y(times(T.value(i), K / L));
                r(K, df::Vector(x).add(y).array()); r(K, df::Vector(x).sub(y).array());
                if (v.norm() > 0) r(K / std::abs(K), df::Vector(v).normalize().array());
            }),
        OP("Matrix", 2, SIGN | SAME | MATRIX | UNIT2 | FEW_ITEMS, uint32_t n = S.itemSize() == 4 ? 2 : S.itemSize() == 9 ? 3 : 0;
            if (n == 0) throw Skip{};
            for (uint32_t i = 0; i < S.count(); ++i) {
                df::Matrix x(S.value(i), n), y(T.value(i), n);
                r(K * L, x.multMat(y).array().array()); r(K, x.trace()); r(K, x.transpose().array().array());
                r(1, double(x.isSymmetric())); r(K * L, x.multVec(df::Vector(Array(n, p.x * L))).array());
            }),
        // ---- geometry
        OP("normals", 1, SIGN | THREE, if (!S.count()) throw Skip{}; r(K * K, df::geo::normals(S, trianglesOf(S, p)))),
        OP("areas", 1, SHALLOW | SIGN | THREE, if (!S.count()) throw Skip{}; r(K * K, df::geo::areas(S, trianglesOf(S, p)))),
        OP("insar", 1, SIGN | THREE, r(K * L, df::geo::insar(S, {p.x * L, L, 0.5 * L}))),
        OP("fringes", 1, SCALAR, r(K, df::geo::fringes(S, (0.5 + p.k) * K))),
        OP("from_dims", 2, THREE | SAME, if (!S.count() || !T.count()) throw Skip{};
            r(K, g::from_dims({p.k, 2, 3}, S.value(0), positive(T.value(0))))),
        OP("from_points", 2, THREE | SAME, if (!S.count() || !T.count()) throw Skip{};
            r(K, g::from_points({p.k, 2, 3}, S.value(0), T.value(0)))),
        // ---- attributes
        OP("Components and Coordinates", 2, SIGN | COUNT, if (!S.count()) throw Skip{};
            df::Dataframe d; d.add("S", S); d.add("T", T); if (S.itemSize() == 3) d.add("positions", S);
            df::Manager x(d, {new df::Coordinates(), new df::Components()}, 3);
            for (uint32_t k : {1, 2, 3, 6, 9}) for (auto &n : x.names(k)) r(K, x.serie(k, n))),
        OP("EigenValues", 1, SHALLOW | MATRIX, if (!S.count()) throw Skip{};
            df::Dataframe d; d.add("S", S); df::Manager x(d, {new df::EigenValues()}, S.dimension()); for (auto &n : x.names(1)) if (n.size() > 1) r(K, x.serie(1, n))),
        OP("EigenVectors", 1, SHALLOW | MATRIX, if (!S.count()) throw Skip{};
            df::Dataframe d; d.add("S", S); df::Manager x(d, {new df::EigenVectors()}, S.dimension()); for (auto &n : x.names(S.dimension())) if (n.size() > 1) r(1, x.serie(S.dimension(), n))),
        OP("mesh attributes", 1, SHALLOW | SIGN | THREE, if (!S.count()) throw Skip{};
            df::Dataframe d; d.add("positions", S); d.add("indices", trianglesOf(S, p));
            { df::Manager x(d, {new df::Normals()}); for (auto &n : x.names(3)) if (n != "positions" && n != "indices") r(K * K, x.serie(3, n)); }
            { df::Manager x(d, {new df::Area()}); for (auto &n : x.names(1)) r(K * K, x.serie(1, n)); }
            { df::Manager x(d, {new df::Valence()}); for (auto &n : x.names(1)) r(1, x.serie(1, n)); }),
    };
    return t;
}
#undef S
#undef T
#undef U
#undef K
#undef L
#undef OP

// bit for bit, or up to rounding among the values of the item
bool sameValues(const Array &x, const Array &y, uint32_t isz) {
    if (x.size() != y.size())
        return false;
    if (sameBits(x, y))
        return true;
    for (size_t i = 0; i < x.size(); i += isz) {
        double mag = 0;
        for (size_t j = i; j < i + isz && j < x.size(); ++j)
            if (std::isfinite(x[j]))
                mag = std::max(mag, std::abs(x[j]));
        for (size_t j = i; j < i + isz && j < x.size(); ++j)
            if (!(x[j] == y[j] || (std::isnan(x[j]) && std::isnan(y[j])) || std::abs(x[j] - y[j]) <= 1e-12 * mag))
                return false;
    }
    return true;
}
} // namespace

LAW(units, 10, "quantities in another unit give the same result in that unit") {
    const UOp &op = c.pick(quantities());
    Prm p = genPrm(c);
    Op o{op.name, op.arity, op.flags & 0xffffu, nullptr};
    auto ms = genInputs(c, o, genProf(c, FINITE), op.flags & FEW_ITEMS ? 1 : 0, op.flags & FEW_ITEMS ? 6 : c.chance(1, 50) ? 3000 : 14);
    for (auto &x : ms) {
        if (x.n && c.chance(1, 6)) // some items much smaller or larger than the others
            for (uint32_t i = (uint32_t)c.below(x.n), step = 1 + (uint32_t)c.below(x.n), e = (uint32_t)c.below(3); i < x.n; i += step)
                for (uint32_t j = 0; j < x.isz; ++j)
                    x.v[(size_t)i * x.isz + j] *= e == 0 ? 1. / (1 << 20) : e == 1 ? 1 << 20 : 1. / (1ll << 40);
        for (double &v : x.v) // no underflow: the relations are exact
            if (std::abs(v) < 1e-30)
                v = 0;
    }
    // The squares of the values, and those of the others to the fourth, neither overflow nor underflow; nor do the squares
    // of the low bits of the values, except where there is no difference to square.
    int mag = 1;
    for (auto &x : ms)
        for (double v : x.v)
            if (v != 0)
                mag = std::max(mag, v == v ? std::abs(std::ilogb(v)) + 8 : 0);
    const int limit = op.flags & SHALLOW ? 120 : (op.flags & DEEP ? 500 : 450) - mag;
    auto power = [&] {
        static const std::vector<int> es = {1, 4, 10, 20, 33, 40, 50, 64, 80, 100, 120, 160, 200, 300, 400, 440, 480};
        size_t n = size_t(std::upper_bound(es.begin(), es.end(), limit) - es.begin());
        double k = std::ldexp(1., es[c.below(n)] * (c.flip() ? 1 : -1));
        return (op.flags & SIGN) && c.chance(1, 3) ? -k : k;
    };
    Unit q;
    q.k = power();
    if (c.chance(2, 3))
        q.l = power();
    std::string t;
    for (auto &x : ms)
        t += "\n  " + show(x);
    c.log(op.name, " (seed ", p.seed, ", x ", p.x, ", k ", p.k, "), units ", q.k, " and ", q.l, ", of", t);
    std::vector<M> other = ms;
    bool some = ms.empty();
    for (size_t i = 0; i < other.size(); ++i)
        for (double &v : other[i].v) {
            some = some || v != 0;
            v *= i == 1 && (op.flags & UNIT2) ? q.l : q.k;
        }
    auto run = [&](const std::vector<M> &x, const Unit &unit, Got &r) {
        std::deque<Serie> own;
        In in;
        for (auto &y : x)
            own.push_back(build(c, y));
        for (auto &s : own)
            in.push_back(&s);
        try {
            op.fn(in, p, unit, r);
        } catch (const Skip &) {
            throw pbt::Discard{};
        } catch (const std::exception &e) {
            return std::string("refused (") + e.what() + ")";
        }
        return std::string();
    };
    Got x, y;
    std::string ex = run(ms, Unit(), x), ey = run(other, q, y);
    c.nontrivial(some && ex.empty());
    c.label(ex.empty() ? op.name : "refused");
    CHECK(ex.empty() == ey.empty(), op.name, ": ", ex.empty() ? "accepted" : ex, ", in the other unit ", ey.empty() ? "accepted" : ey);
    CHECK(x.s.size() == y.s.size() && x.d.size() == y.d.size(), op.name, ": ", y.s.size(), " Series and ", y.d.size(), " numbers instead of ", x.s.size(), " and ",
          x.d.size());
    for (size_t i = 0; i < x.s.size(); ++i) {
        const M &v = x.s[i], &w = y.s[i];
        CHECK(v.n == w.n && v.isz == w.isz && v.dim == w.dim && sameValues(v.v, w.v, v.isz ? v.isz : 1), op.name, ", result ", i, ": ", show(w),
              " in the other unit (expressed in the first), ", show(v), " in the first");
    }
    for (size_t i = 0; i < x.d.size(); ++i)
        CHECK(sameValues(x.d[i], y.d[i], x.d[i].empty() ? 1 : (uint32_t)x.d[i].size()), op.name, ", result ", i, ": ", show(y.d[i]),
              " in the other unit (expressed in the first), ", show(x.d[i]), " in the first");
}

PBT_MAIN("C37",
         "A case is an operation (of about eighty) on generated Series, and the same operation on the same quantities in another unit: the values, "
         "and the parameters of the same nature, multiplied by a power of two between 2^-120 and 2^120 (another one for the second operand of a "
         "product; negative for odd or even operations). The results are compared after conversion. Non-trivial: accepted, with a value other than 0.",
         120000, 3000000)
