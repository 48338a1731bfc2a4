// The operations of the library as a table, for programs of operations over a pool of Series.
#pragma once
#include "model.hpp"
#include "all.hpp"
#include <dataframe/Dataframe.h>
#include <dataframe/attributes/Areas.h>
#include <dataframe/attributes/Components.h>
#include <dataframe/attributes/Coordinates.h>
#include <dataframe/attributes/EigenValues.h>
#include <dataframe/attributes/EigenVectors.h>
#include <dataframe/attributes/Manager.h>
#include <dataframe/attributes/Normals.h>
#include <dataframe/attributes/Valence.h>
#include <dataframe/view/Matrix.h>
#include <sstream>

namespace ops {
struct Skip {}; // the operation is not defined for these inputs
struct Prm {
    uint64_t seed = 0;
    double x = 0;  // a number
    uint32_t k = 1; // a small integer, 1 to 6
};
struct Res {
    std::vector<Serie> s;
    Array num;
    bool threw = false;
    void put(const Serie &a) { s.push_back(a); }
    void put(const Series &a) { s.insert(s.end(), a.begin(), a.end()); }
    template <typename... A> void put(const std::tuple<A...> &t) { std::apply([this](const auto &...x) { (put(x), ...); }, t); }
    void put(double d) { num.push_back(d); }
    void put(const Array &a) { num.insert(num.end(), a.begin(), a.end()); }
};
using In = std::vector<const Serie *>;
enum Flag : unsigned {
    KEEPS = 1, // results keep the dimension of the (first) Serie
    SCALAR = 2,  // needs numbers
    VECTOR = 4,  // needs items of several values
    SAME = 8,    // needs equal item sizes and counts
    COUNT = 16,  // needs equal counts
    ISZ = 32,    // needs equal item sizes
    THREE = 64,  // needs items of three values
    MATRIX = 128 // needs matrices
};
struct Op {
    const char *name;
    int arity;
    unsigned flags;
    void (*fn)(const In &, const Prm &, Res &);
};

inline Array turn(const Array &a, uint32_t i, const Prm &p) { // a function of an item, its index and the parameters
    Array r = a;
    if (!r.empty())
        std::rotate(r.begin(), r.begin() + p.k % r.size(), r.end());
    for (auto &x : r)
        x = x * 0.5 + p.x + double(i % 3);
    return r;
}
inline bool keep(const Array &a, uint32_t i, const Prm &p) { return hashItem(p.seed, a, i) % 3 != 0; }

#define S (*in[0])
#define T (*in[1])
#define U (*in[2])
#define OP(name, arity, flags, ...)                                                                                    \
    {name, arity, flags, [](const In &in, const Prm &p, Res &r) { (void)in, (void)p, (void)r; __VA_ARGS__; }}

inline const std::vector<Op> &table() {
    namespace u = df::utils;
    namespace m = df::math;
    namespace a = df::algebra;
    namespace st = df::stats;
    static const std::vector<Op> ops{
        // ---- storage
        OP("copy", 1, KEEPS, Serie c(S); r.put(c)),
        OP("assignment", 1, KEEPS, Serie c(2, Array{1, 2}); c = S; r.put(c)),
        OP("clone", 1, KEEPS, r.put(S.clone())),
        OP("toSerie", 1, KEEPS, r.put(df::toSerie(S.itemSize(), S.asArray(), S.dimension()))),
        OP("reCount of a copy", 1, KEEPS, Serie c(S); c.reCount(p.k); r.put(c)),
        OP("values", 1, 0, for (uint32_t i = 0; i < S.count(); ++i) r.put(S.value(i)); for (uint32_t i = 0; i < S.size(); ++i) r.put(S.scalar(i))),
        OP(
            "Dataframe", 1, KEEPS, df::Dataframe d; d.add("a", S); d.add("b", S); const df::Dataframe &c = d;
            r.put(c.get("a")); r.put(c["b"]); d.setCount(S.count()); r.put(d["a"]); r.put(double(c.get("zz").isValid()))),
        OP("Dataframe resized", 1, KEEPS, df::Dataframe d; d.add("a", S); d.setCount(S.count() + p.k); r.put(d["a"])),
        // ---- transformations
        OP("map of items", 1, KEEPS, r.put(df::map([p](const Array &v, uint32_t i) { return turn(v, i, p); }, S))),
        OP("map to numbers", 1, KEEPS, r.put(df::map([p](const Array &v, uint32_t i) { return turn(v, i, p)[0]; }, S))),
        OP("map of numbers", 1, KEEPS | SCALAR, if (S.itemSize() != 1) throw Skip{};
            r.put(df::map([p](double v, uint32_t i) { return v * p.x + i; }, S))),
        OP("map of numbers to items", 1, KEEPS | SCALAR, if (S.itemSize() != 1) throw Skip{};
            r.put(df::map([p](double v, uint32_t i) { return Array(p.k + 1, v + i); }, S))),
        OP("Serie::map", 1, KEEPS, r.put(S.map([p](const Array &v, uint32_t i) { return turn(v, i, p); }))),
        OP("map of two", 2, KEEPS | COUNT,
            r.put(df::map([p](const Array &v, const Array &w, uint32_t i) { Array t = turn(v, i, p); t.push_back(w[0]); return t; }, S, T))),
        OP("map of three", 3, KEEPS | COUNT,
            r.put(df::map([](const Array &v, const Array &w, const Array &z, uint32_t) { return Array{z.back(), v[0], w[0]}; }, S, T, U))),
        OP("apply", 1, KEEPS, r.put(u::apply([p](const Array &v, uint32_t i) { return turn(v, i, p); }, S))),
        OP("if_then_else", 1, KEEPS,
            if (S.itemSize() == 1) r.put(df::cond::if_then_else(
                S, [p](double v) { return v > p.x; }, [](double v, uint32_t, const Serie &) { return -v; },
                [](double v, uint32_t i, const Serie &s) { return v + s.asArray()[i]; }));
            else r.put(df::cond::if_then_else(
                S, [p](const Array &v) { return v[0] > p.x; }, [p](const Array &v, uint32_t i, const Serie &) { return turn(v, i, p); },
                [](const Array &v, uint32_t i, const Serie &s) { Array w = s.value(i); w[0] += v.back(); return w; }))),
        OP("pipe", 1, KEEPS, r.put(df::pipe(S, [](const Serie &s) { return df::math::negate(s); }, m::make_scale(2.)))),
        OP("Serie::pipe", 1, KEEPS, r.put(S.pipe(m::make_scale(p.x), [](const Serie &s) { return df::math::add(s, s); }))),
        OP("make_pipe", 1, KEEPS, auto f = df::make_pipe(m::make_scale(p.x), [](const Serie &s) { return df::math::negate(s); });
            r.put(f(S)); r.put(f(S))),
        OP("compose", 1, KEEPS, auto f = u::compose([](const Serie &s) { return df::math::negate(s); }, m::make_scale(p.x)); r.put(f(S))),
        OP("memoize", 1, KEEPS, auto f = u::memoize([p](const Serie &s) { return df::math::scale(s, p.x); }); r.put(f(S)); r.put(f(S))),
        OP("parallel_execute", 1, KEEPS, r.put(u::parallel_execute([p](const Serie &s) { return df::math::scale(s, p.x); }, S, p.k))),
        // ---- selection and order
        OP("filter", 1, KEEPS, r.put(df::filter([p](const Array &v, uint32_t i) -> bool { return keep(v, i, p); }, S))),
        OP("Serie::filter", 1, KEEPS, r.put(S.filter([p](const Array &v, uint32_t i) -> bool { return keep(v, i, p); }))),
        OP("filter of numbers", 1, KEEPS | SCALAR, if (S.itemSize() != 1) throw Skip{};
            r.put(df::filter([p](double v, uint32_t i) -> bool { return keep(Array{v}, i, p); }, S))),
        OP("filter of two", 2, KEEPS | COUNT, r.put(df::filter([p](const Array &v, const Array &, uint32_t i) -> bool { return keep(v, i, p); }, S, T))),
        OP("filterAll", 2, KEEPS | COUNT, r.put(df::filterAll([p](const Array &v, const Array &w) -> bool { return keep(v, w.size(), p); }, S, T))),
        OP("reject", 1, KEEPS, r.put(u::reject([p](const Array &v, uint32_t i) -> bool { return keep(v, i, p); }, S))),
        OP("reject of two", 2, KEEPS | COUNT, r.put(u::reject([p](const Array &v, const Array &, uint32_t i) -> bool { return keep(v, i, p); }, S, T))),
        OP("rejectAll", 2, KEEPS | COUNT, r.put(u::rejectAll([p](const Array &v, const Array &w) -> bool { return keep(v, w.size(), p); }, S, T))),
        OP("cut", 1, KEEPS, r.put(u::cut([p](const Array &v, uint32_t i) -> bool { return keep(v, i, p); }, S))),
        OP("partition", 1, KEEPS, auto [x, y] = u::partition([p](const Array &v, uint32_t i) -> bool { return keep(v, i, p); }, S); r.put(x); r.put(y)),
        OP("findAll", 1, KEEPS, r.put(df::findAll([p](const Array &v, uint32_t i) -> bool { return keep(v, i, p); }, S))),
        OP("find", 1, VECTOR, if (S.itemSize() == 1) throw Skip{};
            auto f = df::find([p](const Array &v, uint32_t i) -> bool { return keep(v, i, p); }, S);
            r.put(double(f.found)); if (f.found) { r.put(double(f.index)); r.put(f.value); }),
        OP("check", 1, 0, r.put(df::cond::check(S, [p](const Array &v, uint32_t i) -> bool { return keep(v, i, p); }))),
        OP("sort", 1, KEEPS, r.put(u::sort(S))),
        OP("sort with a comparator", 1, KEEPS, r.put(u::sort(S, [](const Array &v, const Array &w) { return w[0] < v[0]; }))),
        // ---- splitting and joining
        OP("partition_n", 1, KEEPS, r.put(u::partition_n(p.k, S))),
        OP("partition_n of two", 2, KEEPS | COUNT, for (auto &x : u::partition_n(p.k, S, T)) r.put(x)),
        OP("concat", 2, KEEPS | ISZ, r.put(u::concat(S, T))),
        OP("concat of three", 3, KEEPS | ISZ, r.put(u::concat(S, T, U))),
        OP("concat of a vector", 2, KEEPS | ISZ, std::vector<Serie> l{S, T, S}; r.put(u::concat(l)); for (auto &x : l) r.put(x)),
        OP("merge", 2, KEEPS | ISZ, r.put(df::merge(S, T, p.seed % 2 == 0))),
        OP("merge of three", 3, KEEPS | ISZ, r.put(df::merge(p.seed % 2 == 0, S, T, U))),
        OP("zip", 2, KEEPS | COUNT, r.put(u::zip(S, T))),
        OP("zip of three", 3, KEEPS | COUNT, r.put(u::zip(S, T, U))),
        OP("zipVector", 2, KEEPS | COUNT, std::vector<Serie> l{T, S}; r.put(u::zipVector(l)); for (auto &x : l) r.put(x)),
        OP("unzip", 1, KEEPS | VECTOR, if (S.itemSize() < 2) throw Skip{};
            uint32_t x = 1 + p.k % (S.itemSize() - 1); r.put(u::unzip(S, {x, S.itemSize() - x}))),
        // ---- iteration
        OP("forEach", 1, 0, if (S.itemSize() == 1) df::forEach([&r](double v, uint32_t i) { r.put(v + i); }, S);
            else df::forEach([&r](const Array &v, uint32_t i) { r.put(v); r.put(double(i)); }, S)),
        OP("forEach of two", 2, COUNT, df::forEach([&r](const Array &v, const Array &w, uint32_t i) { r.put(v); r.put(w); r.put(double(i)); }, S, T)),
        OP("reduce", 1, 0, if (S.itemSize() == 1) r.put(df::reduce([](double acc, double v, uint32_t i) { return acc * 0.5 + v + i; }, S, p.x));
            else r.put(df::reduce([](const Array &acc, const Array &v, uint32_t i) { return Array{acc[0] * 0.5 + v[0] + i, v.back()}; }, S, Array{p.x, 0}))),
        // ---- arithmetic
        OP("add", 2, KEEPS | SAME, r.put(m::add(S, T))),
        OP("add of three", 3, KEEPS | SAME, r.put(m::add(S, T, U))),
        OP("add of a list", 3, KEEPS | SAME, r.put(m::add({S, T, U}))),
        OP("add of a number", 1, KEEPS, r.put(m::add(S, p.x))),
        OP("sub", 2, KEEPS | SAME, r.put(m::sub(S, T))),
        OP("sub of three", 3, KEEPS | SAME, r.put(m::sub(S, T, U))),
        OP("sub of a list", 3, KEEPS | SAME, r.put(m::sub({S, T, U}))),
        OP("sub of a number", 1, KEEPS, r.put(m::sub(S, p.x))),
        OP("mult", 2, KEEPS | SAME, r.put(m::mult(S, T))),
        OP("mult by numbers", 2, KEEPS | COUNT, r.put(m::mult(S, T))),
        OP("mult by a number", 1, KEEPS, r.put(m::mult(S, p.x))),
        OP("div", 2, KEEPS | SAME, r.put(m::div(S, T))),
        OP("div by numbers", 2, KEEPS | COUNT, r.put(m::div(S, T))),
        OP("div by a number", 1, KEEPS, r.put(m::div(p.x, S))),
        OP("scale", 1, KEEPS, r.put(m::scale(S, p.x))),
        OP("scale by components", 1, KEEPS, Array f; for (uint32_t i = 0; i < S.itemSize(); ++i) f.push_back(p.x + i); r.put(m::scale(S, f)); r.put(f)),
        OP("negate", 1, KEEPS, r.put(m::negate(S))),
        OP("weigthedSum", 2, KEEPS | SAME, Array w{p.x, 2}; r.put(m::weigthedSum({S, T}, w)); r.put(w)),
        OP("equals", 2, SAME, r.put(double(m::equals(S, T))); r.put(double(m::approximatelyEquals(S, T, 1e-3))); r.put(double(m::equalsAll(S, T, S)))),
        OP("equalityMask", 2, SAME, r.put(m::equalityMask(S, T)); r.put(m::approximateEqualityMask(S, T, 1e-3))),
        OP("minMax", 1, 0, auto x = m::minMax(S); r.put(x.min); r.put(x.max)),
        OP("normalize", 1, KEEPS, r.put(m::normalize(S))),
        // ---- statistics
        OP("mean", 1, 0, if (S.count() == 0) throw Skip{}; auto x = st::mean(S); if (x.isNumber) r.put(x.number); else r.put(x.array)),
        OP("covariance", 2, SCALAR | COUNT, if (S.count() == 0) throw Skip{}; r.put(st::covariance(S, T))),
        OP("quantiles", 1, SCALAR, r.put(st::quantile(S, double(p.seed % 101) / 100)); r.put(st::q25(S)); r.put(st::q50(S)); r.put(st::q75(S)); r.put(st::IQR(S))),
        OP("outliers", 1, SCALAR | KEEPS, r.put(st::outliers(S, 0.5)); r.put(st::notOutliers(S, 0.5))),
        OP("isOutliers", 1, SCALAR, r.put(st::isOutliers(S, 0.5))),
        OP("bins", 1, SCALAR, r.put(st::bins(S, p.k + 1)); r.put(st::bins(S, p.k, -1000, 1000))),
        // ---- algebra
        OP("dot", 2, SAME, r.put(a::dot(S, T))),
        OP("dot with a vector", 1, 0, Array v(S.itemSize(), p.x); r.put(a::dot(S, v)); r.put(v)),
        OP("cross", 2, THREE | SAME, r.put(a::cross(S, T))),
        OP("norm", 1, 0, r.put(a::norm(S)); r.put(a::norm2(S))),
        OP("det", 1, MATRIX, r.put(a::det(S))),
        OP("inv", 1, MATRIX, r.put(a::inv(S))),
        OP("transpose", 1, MATRIX | KEEPS, r.put(a::transpose(S))),
        OP("eigenValues", 1, MATRIX | KEEPS, r.put(a::eigenValues(S))),
        OP("eigenVectors", 1, MATRIX | KEEPS, r.put(a::eigenVectors(S))),
        OP("eigenSystem", 1, MATRIX | KEEPS, auto [x, y] = a::eigenSystem(S); r.put(x); r.put(y)),
        OP("Matrix", 1, MATRIX, uint32_t n = S.itemSize() == 4 ? 2 : S.itemSize() == 9 ? 3 : 0;
            if (n == 0) throw Skip{};
            for (uint32_t i = 0; i < S.count(); ++i) {
                Array v = S.value(i);
                df::Matrix x(v, n), y = x.transpose(), z = x.multMat(y);
                r.put(z.array().array()); r.put(x.trace()); r.put(x.multVec(df::Vector(Array(n, p.x))).array()); r.put(v);
            }),
        // ---- geometry
        OP("normals and areas", 2, THREE, if (S.itemSize() != 3 || T.itemSize() != 3 || S.count() == 0) throw Skip{};
            Array t; for (double d : T.asArray()) t.push_back(double(hashItem(1, d, 0) % S.count()));
            Serie i(3, t); r.put(df::geo::normals(S, i)); r.put(df::geo::areas(S, i)); r.put(i)),
        OP("insar", 1, THREE, Array los{p.x, 1, 0.5}; Serie d = df::geo::insar(S, los); r.put(d); if (d.isValid()) r.put(df::geo::fringes(d, 0.5)); r.put(los)),
        OP("fringes", 1, SCALAR, r.put(df::geo::fringes(S, 0.5 + p.k))),
        OP("grids", 0, 0, r.put(df::grid::cartesian::from_dims({p.k, 2, 3}, Array{1, 2, 3}, Array{p.x, 5, 6}));
            r.put(df::grid::cartesian::from_points({p.k, 2, 3}, Array{1, 2, 3}, Array{p.x, 5, 6}))),
        OP("random", 0, 0, r.put(m::random(p.k, 1 + p.seed % 5, -2, 3, unsigned(p.seed)))),
        OP("print", 1, 0, std::ostringstream o; o << S << S.asArray() << Series{S}; r.put(double(pbt::hashStr(o.str()) >> 12))),
        // ---- attributes
        OP("Manager", 2, KEEPS, if (S.count() == 0 || T.count() == 0 || !(S.dimension() == 2 || S.dimension() == 3)) throw Skip{};
            df::Dataframe d; d.add("S", S); d.add("T", T);
            if (S.itemSize() == 3 && S.dimension() == 3) {
                d.add("positions", S); d.add("indices", Serie(3, Array{0, 0, double(S.count() - 1)}));
            }
            {
                df::Manager g(d, {new df::Coordinates(), new df::Components(), new df::EigenValues(), new df::EigenVectors()}, S.dimension());
                for (uint32_t k : {1, 2, 3, 6})
                    for (auto &n : g.names(k)) r.put(g.serie(k, n));
            }
            r.put(d.get("S")); r.put(d.get("T"))),
        OP("mesh Manager", 1, THREE, if (S.count() == 0 || S.itemSize() != 3) throw Skip{};
            df::Dataframe d; d.add("positions", S); d.add("indices", Serie(3, Array{0, 0, double(S.count() - 1)}));
            df::Manager g(d, {new df::Normals(), new df::Area(), new df::Valence()});
            for (uint32_t k : {1, 3}) for (auto &n : g.names(k)) r.put(g.serie(k, n))),
    };
    return ops;
}
#undef S
#undef T
#undef U
#undef OP

// true if the operation applies
inline bool run(const Op &op, const In &in, const Prm &p, Res &r) {
    try {
        op.fn(in, p, r);
    } catch (const Skip &) {
        return false;
    } catch (const std::exception &) {
        r = Res{};
        r.threw = true;
    }
    return true;
}
inline bool sameSerie(const Serie &a, const Serie &b) {
    return a.itemSize() == b.itemSize() && a.count() == b.count() && a.dimension() == b.dimension() && sameBits(a.asArray(), b.asArray());
}
inline void expectSameRes(const Res &a, const Res &b, const std::string &what) {
    CHECK(a.threw == b.threw, what, ": one call is refused, not the other");
    CHECK(a.s.size() == b.s.size(), what, ": ", b.s.size(), " Series instead of ", a.s.size());
    for (size_t i = 0; i < a.s.size(); ++i)
        CHECK(sameSerie(a.s[i], b.s[i]), what, ": result ", i, " is ", ::show(modelOf(b.s[i])), " instead of ", ::show(modelOf(a.s[i])));
    CHECK(sameBits(a.num, b.num), what, ": gives ", ::show(b.num), " instead of ", ::show(a.num));
}
inline Prm genPrm(Ctx &c) {
    Prm p;
    p.seed = c.below(1 << 16);
    p.x = double(c.range(-12, 12)) / 4;
    p.k = (uint32_t)c.range(1, 6);
    return p;
}
// Picks the inputs an operation needs among a pool; empty if there are none.
template <class Pool> std::vector<size_t> choose(Ctx &c, const Op &op, const Pool &pool) {
    std::vector<size_t> r;
    for (int k = 0; k < op.arity; ++k) {
        std::vector<size_t> fit;
        for (size_t i = 0; i < pool.size(); ++i) {
            const Serie &s = pool[i];
            uint32_t z = s.itemSize();
            bool ok = true;
            if (op.flags & SCALAR)
                ok = ok && z == 1;
            if (op.flags & VECTOR)
                ok = ok && z > 1;
            if (op.flags & THREE)
                ok = ok && z == 3;
            if (op.flags & MATRIX)
                ok = ok && (s.dimension() == 2 ? z == 3 || z == 4 : z == 6 || z == 9);
            if (k > 0 && (op.flags & (SAME | ISZ)))
                ok = ok && z == pool[r[0]].itemSize();
            if (k > 0 && (op.flags & (SAME | COUNT)))
                ok = ok && s.count() == pool[r[0]].count();
            if (ok)
                fit.push_back(i);
        }
        if (fit.empty())
            return {};
        r.push_back(fit[c.below(fit.size())]);
    }
    return r;
}
// ---- inputs of one operation
enum : unsigned { NUMBERS2 = 1024, TRIANGLES = 2048, FIN = 4096 };

inline M pickItems(const M &x, const std::vector<uint32_t> &at) {
    M y = x;
    y.n = (uint32_t)at.size();
    y.v.clear();
    for (uint32_t i : at)
        y.v.insert(y.v.end(), x.v.begin() + (size_t)i * x.isz, x.v.begin() + (size_t)(i + 1) * x.isz);
    return y;
}
// Most items of a kind that an operation might treat apart, the others as they were.
inline void specialItems(Ctx &c, M &x) {
    uint32_t kind = (uint32_t)c.below(9), rest = (uint32_t)c.below(3), z = x.isz; // the others: none, one, or one in four
    uint32_t exception = (uint32_t)c.below(x.n), side = z == 4 ? 2 : z == 9 ? 3 : 0;
    Src s = source(c, x.n);
    Array first(x.v.begin(), x.v.begin() + z);
    for (uint32_t i = 0; i < x.n; ++i) {
        if (rest == 1 ? i == exception : rest == 2 && s.below(4) == 0)
            continue;
        double *p = &x.v[(size_t)i * z];
        switch (kind) {
        case 0: // symmetric
            for (uint32_t r = 0; r < z; ++r)
                if (side) {
                    if (r / side > r % side)
                        p[r] = p[r % side * side + r / side];
                } else if (r > z - 1 - r)
                    p[r] = p[z - 1 - r];
            break;
        case 1: // diagonal
            for (uint32_t r = 0; r < z; ++r)
                if (side ? r / side != r % side : z == 3 ? r == 1 : z == 6 ? r != 0 && r != 3 && r != 5 : r > 0)
                    p[r] = 0;
            break;
        case 2: // identity
            for (uint32_t r = 0; r < z; ++r)
                p[r] = (side ? r / side == r % side : z == 3 ? r != 1 : z == 6 ? r == 0 || r == 3 || r == 5 : r == 0) ? 1 : 0;
            break;
        case 3: std::fill_n(p, z, 0.); break;
        case 4: std::fill_n(p, z, p[0]); break; // equal components
        case 5: // sorted components
            if (std::none_of(p, p + z, [](double d) { return std::isnan(d); }))
                std::sort(p, p + z);
            break;
        case 6: std::copy(first.begin(), first.end(), p); break; // equal items
        case 7:                                                 // whole numbers
            for (uint32_t r = 0; r < z; ++r)
                if (std::isfinite(p[r]))
                    p[r] = std::floor(p[r]);
            break;
        default: // positive
            for (uint32_t r = 0; r < z; ++r)
                p[r] = std::abs(p[r]);
        }
    }
    c.label("special items");
}

inline std::vector<M> genInputs(Ctx &c, const Op &op, unsigned prof, uint32_t minCount, uint32_t maxCount) {
    std::vector<M> ms;
    unsigned dim = genDim(c);
    uint32_t isz = 0;
    if (op.flags & SCALAR)
        isz = 1;
    if (op.flags & (THREE | TRIANGLES))
        isz = 3;
    if (op.flags & MATRIX) {
        dim = c.flip() ? 2 : 3;
        isz = dim == 2 ? (c.chance(2, 3) ? 3 : 4) : (c.chance(2, 3) ? 6 : 9);
    }
    if (op.flags & VECTOR)
        isz = (uint32_t)c.range(2, 9);
    if (!isz)
        isz = genItemSize(c, 9);
    uint32_t n = genCount(c, minCount, maxCount);
    for (int k = 0; k < op.arity; ++k) {
        M x;
        x.dim = k && c.chance(1, 4) ? genDim(c) : dim;
        x.isz = k == 0 || (op.flags & (SAME | ISZ)) ? isz : (op.flags & (NUMBERS2 | SCALAR)) ? 1 : genItemSize(c, 9);
        x.n = k == 0 || (op.flags & (SAME | COUNT)) ? n : genCount(c, 0, maxCount);
        while (size_t(x.n) * x.isz > 210000)
            x.n = n = n / 2;
        x.v = genValues(c, (size_t)x.n * x.isz, op.flags & FIN ? prof & FINITE : prof);
        if (x.n > 0 && c.chance(1, 3))
            specialItems(c, x);
        if (x.n > 1 && c.chance(2, 5)) { // items that resemble others
            Src s = source(c, x.v.size());
            for (uint32_t j = 1 + (uint32_t)c.below(8); j-- > 0;) {
                uint32_t to = (uint32_t)s.below(x.n), from = s.below(2) ? (to ? to - 1 : 1) : (uint32_t)s.below(x.n);
                double *p = &x.v[(size_t)to * x.isz];
                std::copy_n(&x.v[(size_t)from * x.isz], x.isz, p);
                double &d = p[s.below(x.isz)];
                switch (s.below(7)) {
                case 0: d = -d; break;
                case 1: d = std::nextafter(d, 1e300); break;
                case 2: d *= 1 + 1e-12; break;
                case 3: d += 1e-9; break;
                case 4: std::reverse(p, p + x.isz); break;
                case 5: for (uint32_t i = 0; i < x.isz; ++i) p[i] = -p[i]; break;
                }
            }
        }
        if (op.flags & TRIANGLES)
            for (double &d : x.v)
                d = double(hashItem(1, d, 0) % 50);
        ms.push_back(x);
    }
    for (auto &x : ms)
        if (op.flags & (SAME | COUNT))
            if (x.n != n)
                x = pickItems(x, [&] { std::vector<uint32_t> at(n); for (uint32_t i = 0; i < n; ++i) at[i] = i; return at; }());
    return ms;
}
} // namespace ops
