// C36: what an operation gives for an item does not depend on the other items.
#include "ops.hpp"

namespace {
using ::show;
using namespace ops;
namespace u = df::utils;
namespace m = df::math;
namespace a = df::algebra;
namespace st = df::stats;

// functions of an item alone
Array turned(const Array &v, const Prm &p) { return turn(v, 0, p); }
bool kept(const Array &v, const Prm &p) { return keep(v, 0, p); }

// fifty points at one or several scales
const Serie &mesh(const Prm &p) {
    static const std::vector<Serie> all = [] {
        std::vector<Serie> v;
        for (int kind = 0; kind < 4; ++kind) {
            Array a(150);
            for (size_t i = 0; i < a.size(); ++i) {
                a[i] = double(hashItem(7 + kind, double(i), 0) % 4001) / 100 - 20;
                if (kind == 1)
                    a[i] = std::round(a[i] / 10);
                if (kind > 1)
                    a[i] *= std::pow(10., (kind == 2 ? -2. : -12.) * double(i / 3 % 4));
            }
            v.push_back(Serie(3, a));
        }
        return v;
    }();
    return all[p.seed % all.size()];
}

#define S (*in[0])
#define T (*in[1])
#define U (*in[2])
#define OP(name, arity, flags, ...)                                                                                    \
    {name, arity, flags, [](const In &in, const Prm &p, Res &r) { (void)in, (void)p, (void)r; __VA_ARGS__; }}

// Item-wise operations: each result has one item per item of the inputs.
const std::vector<Op> &itemwise() {
    static const std::vector<Op> ops{
        OP("copy", 1, 0, Serie x(S); Serie y(1, 2); y = S; r.put(x); r.put(y); r.put(S.clone())),
        OP("map of items", 1, 0, r.put(df::map([p](const Array &v, uint32_t) { return turned(v, p); }, S))),
        OP("map to numbers", 1, 0, r.put(df::map([p](const Array &v, uint32_t) { return turned(v, p)[0]; }, S))),
        OP("map of numbers", 1, SCALAR, r.put(df::map([p](double v, uint32_t) { return v * p.x + 1; }, S))),
        OP("map of numbers to items", 1, SCALAR, r.put(df::map([p](double v, uint32_t) { return Array(p.k + 1, v + 1); }, S))),
        OP("map of two", 2, COUNT, r.put(df::map([p](const Array &v, const Array &w, uint32_t) { Array t = turned(v, p); t.push_back(w[0]); return t; }, S, T))),
        OP("map of three", 3, COUNT, r.put(df::map([](const Array &v, const Array &w, const Array &z, uint32_t) { return Array{z.back(), v[0], w[0]}; }, S, T, U))),
        OP("apply", 1, 0, r.put(u::apply([p](const Array &v, uint32_t) { return turned(v, p); }, S))),
        OP("if_then_else", 1, 0,
            if (S.itemSize() == 1) r.put(df::cond::if_then_else(
                S, [p](double v) { return v > p.x; }, [](double v, uint32_t, const Serie &) { return -v; }, [](double v, uint32_t, const Serie &) { return v / 2; }));
            else r.put(df::cond::if_then_else(
                S, [p](const Array &v) { return v[0] > p.x; }, [p](const Array &v, uint32_t, const Serie &) { return turned(v, p); },
                [](const Array &v, uint32_t, const Serie &) { Array w = v; w[0] += v.back(); return w; }))),
        OP("check", 1, 0, r.put(df::cond::check(S, [p](const Array &v, uint32_t) -> bool { return kept(v, p); }))),
        OP("pipe", 1, 0, r.put(df::pipe(S, [](const Serie &s) { return m::negate(s); }, m::make_scale(p.x)))),
        OP("compose", 1, 0, auto f = u::compose([](const Serie &s) { return m::negate(s); }, m::make_scale(p.x)); r.put(f(S))),
        OP("memoize", 1, 0, static auto f = u::memoize([](const Serie &s) { return m::scale(s, 3.); }); r.put(f(S))),
        OP("parallel_execute", 1, 0, r.put(u::parallel_execute([p](const Serie &s) { return m::scale(s, p.x); }, S, p.k))),
        OP("zip", 2, COUNT, r.put(u::zip(S, T))),
        OP("zip of three", 3, COUNT, r.put(u::zip(S, T, U))),
        OP("zipVector", 2, COUNT, r.put(u::zipVector({T, S, T}))),
        OP("unzip", 1, VECTOR, uint32_t x = 1 + p.k % (S.itemSize() - 1); r.put(u::unzip(S, {x, S.itemSize() - x}))),
        OP("add", 2, SAME, r.put(m::add(S, T))),
        OP("add of three", 3, SAME, r.put(m::add(S, T, U)); r.put(m::add({S, T, U}))),
        OP("add of a number", 1, SCALAR, r.put(m::add(S, p.x))),
        OP("sub", 2, SAME, r.put(m::sub(S, T))),
        OP("sub of three", 3, SAME, r.put(m::sub(S, T, U)); r.put(m::sub({S, T, U}))),
        OP("sub of a number", 1, SCALAR, r.put(m::sub(S, p.x))),
        OP("mult", 2, SAME, r.put(m::mult(S, T))),
        OP("mult by numbers", 2, COUNT | NUMBERS2, r.put(m::mult(S, T))),
        OP("mult by a number", 1, 0, r.put(m::mult(S, p.x))),
        OP("div by numbers", 2, COUNT | NUMBERS2, r.put(m::div(T, S))),
        OP("div of a number", 1, 0, r.put(m::div(p.x, S))),
        OP("scale", 1, 0, r.put(m::scale(S, p.x))),
        OP("scale by components", 1, 0, Array f; for (uint32_t i = 0; i < S.itemSize(); ++i) f.push_back(p.x + i); r.put(m::scale(S, f))),
        OP("negate", 1, 0, r.put(m::negate(S))),
        OP("weigthedSum", 2, SAME, r.put(m::weigthedSum({S, T}, {p.x, 2}))),
        OP("equalityMask", 2, SAME, r.put(m::equalityMask(S, T)); r.put(m::approximateEqualityMask(S, T, 1e-3))),
        OP("normalize of vectors", 1, VECTOR, r.put(m::normalize(S))),
        OP("dot", 2, SAME, r.put(a::dot(S, T))),
        OP("dot with a vector", 1, 0, r.put(a::dot(S, Array(S.itemSize(), p.x)))),
        OP("cross", 2, THREE | SAME, r.put(a::cross(S, T))),
        OP("norm", 1, 0, r.put(a::norm(S))),
        OP("norm2", 1, 0, r.put(a::norm2(S))),
        OP("det", 1, MATRIX, r.put(a::det(S))),
        OP("inv", 1, MATRIX, r.put(a::inv(S))),
        OP("transpose", 1, MATRIX, r.put(a::transpose(S))),
        OP("eigenValues", 1, MATRIX | FIN, r.put(a::eigenValues(S))),
        OP("eigenVectors", 1, MATRIX | FIN, r.put(a::eigenVectors(S))),
        OP("eigenSystem", 1, MATRIX | FIN, auto [x, y] = a::eigenSystem(S); r.put(x); r.put(y)),
        OP("insar", 1, THREE, r.put(df::geo::insar(S, {p.x, 1, 0.5}))),
        OP("fringes", 1, SCALAR, r.put(df::geo::fringes(S, 0.5 + p.k))),
        OP("normals", 1, TRIANGLES, r.put(df::geo::normals(mesh(p), S))),
        OP("areas", 1, TRIANGLES, r.put(df::geo::areas(mesh(p), S))),
        OP("Coordinates and Components", 2, COUNT, if (S.count() == 0) throw Skip{};
            df::Dataframe d; d.add("x", S); d.add("y", T); d.add("positions", Serie(3, Array(S.count() * 3, 1.)));
            df::Manager g(d, {new df::Components()});
            for (auto &n : g.names(1)) r.put(g.serie(1, n))),
        OP("attributes of matrices", 1, MATRIX | FIN, if (S.count() == 0) throw Skip{};
            df::Dataframe d; d.add("S", S);
            df::Manager g(d, {new df::Components(), new df::EigenValues(), new df::EigenVectors()}, S.dimension());
            for (uint32_t k : {1, 2, 3}) for (auto &n : g.names(k)) r.put(g.serie(k, n))),
        OP("attributes of positions", 1, THREE, if (S.count() == 0) throw Skip{};
            df::Dataframe d; d.add("positions", S);
            df::Manager g(d, {new df::Coordinates(), new df::Components()});
            for (auto &n : g.names(1)) r.put(g.serie(1, n))),
    };
    return ops;
}
// Operations that do the same to each component.
const std::vector<Op> &componentwise() {
    static const std::vector<Op> ops{
        OP("copy", 1, 0, Serie x(S); r.put(x)),
        OP("add", 2, SAME, r.put(m::add(S, T))),
        OP("add of three", 3, SAME, r.put(m::add(S, T, U)); r.put(m::add({S, T, U}))),
        OP("sub", 2, SAME, r.put(m::sub(S, T))),
        OP("sub of three", 3, SAME, r.put(m::sub(S, T, U)); r.put(m::sub({S, T, U}))),
        OP("mult", 2, SAME, r.put(m::mult(S, T))),
        OP("mult by a number", 1, 0, r.put(m::mult(S, p.x))),
        OP("div of a number", 1, 0, r.put(m::div(p.x, S))),
        OP("scale", 1, 0, r.put(m::scale(S, p.x))),
        OP("negate", 1, 0, r.put(m::negate(S))),
        OP("weigthedSum", 3, SAME, r.put(m::weigthedSum({S, T, U}, {p.x, 2, -1}))),
        OP("concat", 3, ISZ, r.put(u::concat(S, T, U))),
        OP("concat of a vector", 2, ISZ, r.put(u::concat(std::vector<Serie>{S, T, S}))),
        OP("merge", 2, ISZ, r.put(df::merge(S, T, p.seed % 2 == 0))),
        OP("partition_n", 1, 0, r.put(u::partition_n(p.k, S))),
        OP("minMax", 1, FIN, if (S.count() == 0) throw Skip{}; auto x = m::minMax(S); r.put(Serie((int)S.itemSize(), x.min, S.dimension())); r.put(Serie((int)S.itemSize(), x.max, S.dimension()))),
        OP("mean", 1, 0, if (S.count() == 0) throw Skip{}; auto x = st::mean(S); r.put(Serie((int)S.itemSize(), x.isNumber ? Array{x.number} : x.array, S.dimension()))),
        OP("filter", 1, 0, r.put(df::filter([p](const Array &, uint32_t i) -> bool { return hashItem(p.seed, 0., i) % 3 != 0; }, S))),
        OP("partition", 1, 0, auto [x, y] = u::partition([p](const Array &, uint32_t i) -> bool { return hashItem(p.seed, 0., i) % 3 != 0; }, S); r.put(x); r.put(y)),
    };
    return ops;
}
// Selections by a predicate on items alone: what they keep of a whole is what they keep of its parts.
const std::vector<Op> &selections() {
    static const std::vector<Op> ops{
        OP("filter", 1, 0, r.put(df::filter([p](const Array &v, uint32_t) -> bool { return kept(v, p); }, S))),
        OP("Serie::filter", 1, 0, r.put(S.filter([p](const Array &v, uint32_t) -> bool { return kept(v, p); }))),
        OP("filter of numbers", 1, SCALAR, r.put(df::filter([p](double v, uint32_t) -> bool { return kept(Array{v}, p); }, S))),
        OP("filter of two", 2, COUNT, r.put(df::filter([p](const Array &v, const Array &w, uint32_t) -> bool { return kept(v, p) == kept(w, p); }, S, T))),
        OP("filterAll", 2, COUNT, r.put(df::filterAll([p](const Array &v, const Array &w) -> bool { return kept(v, p) == kept(w, p); }, S, T))),
        OP("reject", 1, 0, r.put(u::reject([p](const Array &v, uint32_t) -> bool { return kept(v, p); }, S))),
        OP("reject of two", 2, COUNT, r.put(u::reject([p](const Array &v, const Array &w, uint32_t) -> bool { return kept(v, p) == kept(w, p); }, S, T))),
        OP("rejectAll", 2, COUNT, r.put(u::rejectAll([p](const Array &v, const Array &w) -> bool { return kept(v, p) == kept(w, p); }, S, T))),
        OP("cut", 1, 0, r.put(u::cut([p](const Array &v, uint32_t) -> bool { return kept(v, p); }, S))),
        OP("partition", 1, 0, auto [x, y] = u::partition([p](const Array &v, uint32_t) -> bool { return kept(v, p); }, S); r.put(x); r.put(y)),
        OP("findAll", 1, 0, r.put(df::findAll([p](const Array &v, uint32_t) -> bool { return kept(v, p); }, S))),
    };
    return ops;
}
// Operations that only depend on which items there are.
const std::vector<Op> &aggregates() {
    static const std::vector<Op> ops{
        OP("minMax", 1, 0, auto x = m::minMax(S); r.put(x.min); r.put(x.max)),
        OP("quantiles", 1, SCALAR, r.put(st::quantile(S, double(p.seed % 101) / 100)); r.put(st::q25(S)); r.put(st::q50(S)); r.put(st::q75(S)); r.put(st::IQR(S))),
        OP("bins", 1, SCALAR, r.put(st::bins(S, p.k + 1)); r.put(st::bins(S, p.k, -10, 10))),
        OP("sort", 1, 0, r.put(u::sort(S).asArray())),
        OP("sort with a comparator", 1, 0, r.put(u::sort(S, [](const Array &v, const Array &w) { return w < v; }).asArray())),
        OP("outliers", 1, SCALAR, Serie x = st::outliers(S, 0.5); Serie y = st::notOutliers(S, 0.5);
            r.put(double(x.count())); r.put(u::sort(x).asArray()); r.put(u::sort(y).asArray())),
        OP("equals", 2, SAME, r.put(double(m::equals(S, T))); r.put(double(m::approximatelyEquals(S, T, 0.3))); r.put(double(m::equalsAll(S, T, S)))),
        OP("mean", 1, 0, if (S.count() == 0) throw Skip{}; auto x = st::mean(S); if (x.isNumber) r.put(x.number); else r.put(x.array)),
        OP("covariance", 2, SCALAR | COUNT, if (S.count() == 0) throw Skip{}; r.put(st::covariance(S, T))),
    };
    return ops;
}
#undef S
#undef T
#undef U
#undef OP

M pickComponents(const M &x, const std::vector<uint32_t> &at) {
    M y = x;
    y.isz = (uint32_t)at.size();
    y.v.clear();
    for (uint32_t i = 0; i < x.n; ++i)
        for (uint32_t k : at)
            y.v.push_back(x.v[(size_t)i * x.isz + k]);
    return y;
}
bool sameM(const M &x, const M &y) { return x.isz == y.isz && x.n == y.n && x.dim == y.dim && sameBits(x.v, y.v); }

// Runs an operation on models. false: refused.
bool go(Ctx *c, const Op &op, const std::vector<M> &ms, const Prm &p, Res &r) {
    std::deque<Serie> own;
    In in;
    for (auto &x : ms)
        own.push_back(c ? build(*c, x) : direct(x));
    for (auto &s : own)
        in.push_back(&s);
    if (!run(op, in, p, r))
        throw pbt::Discard{};
    return !r.threw;
}
void logInputs(Ctx &c, const Op &op, const std::vector<M> &ms, const Prm &p) {
    std::string t;
    for (auto &x : ms)
        t += "\n  " + show(x);
    c.log(op.name, " (seed ", p.seed, ", x ", p.x, ", k ", p.k, ") of", t);
}
std::string place(const std::vector<uint32_t> &at) {
    std::string t;
    for (size_t i = 0; i < at.size() && i < 40; ++i)
        t += (i ? " " : "") + std::to_string(at[i]);
    return t + (at.size() > 40 ? " ..." : "");
}
std::vector<uint32_t> genPlaces(Ctx &c, uint32_t n) {
    std::vector<uint32_t> at;
    Src s = source(c, n);
    switch (c.below(6)) {
    case 0: { // some consecutive items
        uint32_t from = (uint32_t)c.below(n), len = 1 + (uint32_t)c.below(n - from);
        for (uint32_t i = 0; i < len; ++i)
            at.push_back(from + i);
        break;
    }
    case 1: // one of them
        at.push_back((uint32_t)c.below(n));
        break;
    case 2: // in reverse order
        for (uint32_t i = n; i-- > 0;)
            at.push_back(i);
        break;
    case 3: { // any of them, several times
        uint32_t k = 1 + (uint32_t)c.below(std::min(2 * n, 3000u));
        for (uint32_t i = 0; i < k; ++i)
            at.push_back((uint32_t)s.below(n));
        break;
    }
    case 4: // all, in any order
        for (uint32_t i = 0; i < n; ++i)
            at.push_back(i);
        for (uint32_t i = n; i > 1; --i)
            std::swap(at[i - 1], at[s.below(i)]);
        break;
    default: { // one item out of k
        uint32_t k = 1 + (uint32_t)c.below(n);
        for (uint32_t i = (uint32_t)c.below(std::min(k, n)); i < n; i += k)
            at.push_back(i);
    }
    }
    return at;
}
} // namespace

LAW(items, 10, "an operation on some of the items gives what the operation on all gives for these") {
    const Op &op = c.pick(itemwise());
    Prm p = genPrm(c);
    auto ms = genInputs(c, op, c.chance(1, 3) ? ANY : genProf(c, FINITE), 1, c.chance(1, 60) ? 70000 : c.chance(1, 6) ? 600 : 14);
    logInputs(c, op, ms, p);
    uint32_t n = ms[0].n;
    if (!n)
        throw pbt::Discard{};
    Res whole;
    bool ok = go(&c, op, ms, p, whole);
    std::string what = op.name;
    if (!ok) {
        // one of the items alone is refused
        bool refused = false;
        for (uint32_t i = 0; i < n && !refused; ++i) {
            std::vector<M> one;
            for (auto &x : ms)
                one.push_back(pickItems(x, {i}));
            Res r;
            refused = !go(nullptr, op, one, p, r);
        }
        c.label("refused");
        c.nontrivial(n > 1);
        CHECK(refused, what, " refused ", n, " items, although it takes each of them alone");
        return;
    }
    for (auto &s : whole.s)
        CHECK(s.count() == n || !s.isValid(), what, " gave ", s.count(), " items for ", n);
    auto at = genPlaces(c, n);
    std::vector<M> part;
    for (auto &x : ms)
        part.push_back(pickItems(x, at));
    c.log("items ", place(at));
    c.nontrivial(n > 1);
    Res r;
    CHECK(go(&c, op, part, p, r), what, " refused some of the items of a Serie that it takes");
    CHECK(r.s.size() == whole.s.size(), what, " gave ", r.s.size(), " Series instead of ", whole.s.size());
    for (size_t k = 0; k < r.s.size(); ++k) {
        M w = modelOf(whole.s[k]), want = w.n == n ? pickItems(w, at) : w, got = modelOf(r.s[k]);
        CHECK(sameM(got, want), what, ", result ", k, ": for some of the items it gave ", show(got), ", but for all of them ", show(want));
    }
}

LAW(components, 5, "an operation on some of the components gives what the operation on all gives for these") {
    const Op &op = c.pick(componentwise());
    Prm p = genPrm(c);
    auto ms = genInputs(c, op, c.chance(1, 3) ? ANY : genProf(c, FINITE), 0, c.chance(1, 40) ? 5000 : 14);
    logInputs(c, op, ms, p);
    uint32_t z = ms[0].isz;
    auto at = genPlaces(c, z);
    c.log("components ", place(at));
    c.nontrivial(z > 1 && ms[0].n > 0);
    std::vector<M> part;
    for (auto &x : ms)
        part.push_back(pickComponents(x, at));
    Res whole, r;
    bool ok = go(&c, op, ms, p, whole), okPart = go(&c, op, part, p, r);
    std::string what = op.name;
    CHECK(ok == okPart, what, " takes ", ok ? "all components but not some of them" : "some components but not all of them");
    CHECK(r.s.size() == whole.s.size(), what, " gave ", r.s.size(), " Series instead of ", whole.s.size());
    double mag = 0;
    for (double d : ms[0].v)
        mag = std::max(mag, std::abs(d));
    for (size_t k = 0; k < r.s.size(); ++k) {
        M w = modelOf(whole.s[k]), got = modelOf(r.s[k]);
        if (w.n == 0 && got.n == 0)
            continue;
        CHECK(w.isz == z, what, " gave items of ", w.isz, " values for ", z);
        M want = pickComponents(w, at);
        if (!strcmp(op.name, "mean")) // rounded
            for (size_t i = 0; i < want.v.size() && i < got.v.size(); ++i)
                if (std::abs(want.v[i] - got.v[i]) <= 1e-12 * mag * (1 + std::log2(1. + ms[0].n)))
                    want.v[i] = got.v[i];
        CHECK(sameM(got, want), what, ", result ", k, ": for some of the components it gave ", show(got), ", but for all of them ", show(want));
    }
}

LAW(selected, 5, "what is kept of a whole is what is kept of its parts") {
    const Op &op = c.pick(selections());
    Prm p = genPrm(c);
    auto ms = genInputs(c, op, c.chance(1, 3) ? ANY : genProf(c, FINITE), 1, c.chance(1, 40) ? 70000 : 14);
    logInputs(c, op, ms, p);
    uint32_t n = ms[0].n, cut = (uint32_t)c.below(n + 1);
    std::vector<uint32_t> la, lb;
    for (uint32_t i = 0; i < n; ++i)
        (i < cut ? la : lb).push_back(i);
    std::vector<M> x, y;
    for (auto &q : ms)
        x.push_back(pickItems(q, la)), y.push_back(pickItems(q, lb));
    c.log("cut at ", cut);
    c.nontrivial(cut > 0 && cut < n);
    Res whole, rx, ry;
    bool ok = go(&c, op, ms, p, whole), okx = go(&c, op, x, p, rx), oky = go(&c, op, y, p, ry);
    CHECK(ok && okx && oky, op.name, " refused its input");
    CHECK(whole.s.size() == rx.s.size() && rx.s.size() == ry.s.size(), op.name, " gave ", whole.s.size(), ", ", rx.s.size(), " and ", ry.s.size(), " Series");
    for (size_t k = 0; k < whole.s.size(); ++k) {
        M w = modelOf(whole.s[k]), l = modelOf(rx.s[k]), t = modelOf(ry.s[k]);
        Array v = l.v;
        v.insert(v.end(), t.v.begin(), t.v.end());
        CHECK(w.n == l.n + t.n && sameBits(w.v, v), op.name, ", result ", k, ": of the whole it kept ", show(w), ", of the parts ", show(l), " and ", show(t));
    }
}

LAW(order, 4, "results that do not depend on the order of the items") {
    const Op &op = c.pick(aggregates());
    Prm p = genPrm(c);
    bool rounded = !strcmp(op.name, "mean") || !strcmp(op.name, "covariance");
    auto ms = genInputs(c, op, genProf(c, FINITE), 1, c.chance(1, 40) ? 5000 : c.chance(1, 4) ? 80 : 14);
    bool sorted = c.chance(1, 3); // then some items are moved
    if (sorted)
        for (auto &m : ms) {
            std::vector<uint32_t> by(m.n);
            for (uint32_t i = 0; i < m.n; ++i)
                by[i] = i;
            std::stable_sort(by.begin(), by.end(), [&](uint32_t i, uint32_t j) { return m.at(i, 0) < m.at(j, 0); });
            m = pickItems(m, by);
        }
    if (op.arity == 2 && c.flip()) {
        ms[1] = ms[0];
        if (c.flip() && !ms[1].v.empty())
            ms[1].v[c.below(ms[1].v.size())] += 0.25;
    }
    logInputs(c, op, ms, p);
    uint32_t n = ms[0].n;
    if (!n)
        throw pbt::Discard{};
    std::vector<uint32_t> at(n);
    for (uint32_t i = 0; i < n; ++i)
        at[i] = i;
    Src s = source(c, n);
    if (c.chance(1, 4))
        std::reverse(at.begin(), at.end());
    else if (sorted && c.flip())
        for (int k = (int)c.range(1, 4); k > 0; --k)
            std::swap(at[c.below(n)], at[c.below(n)]);
    else
        for (uint32_t i = n; i > 1; --i)
            std::swap(at[i - 1], at[s.below(i)]);
    std::vector<M> other;
    for (auto &x : ms)
        other.push_back(pickItems(x, at));
    c.log("order ", place(at));
    c.nontrivial(n > 1);
    Res x, y;
    bool ok = go(&c, op, ms, p, x), oky = go(&c, op, other, p, y);
    CHECK(ok == oky, op.name, " takes a Serie in one order of the items, not in another");
    CHECK(x.s.size() == y.s.size() && x.num.size() == y.num.size(), op.name, " gave ", y.num.size(), " numbers instead of ", x.num.size());
    double mag = 0;
    for (auto &q : ms)
        for (double d : q.v)
            mag = std::max(mag, std::abs(d));
    if (!strcmp(op.name, "covariance"))
        mag *= mag;
    for (size_t k = 0; k < x.num.size(); ++k)
        CHECK(rounded ? std::abs(x.num[k] - y.num[k]) <= 1e-12 * mag * (1 + std::log2(1 + n)) : x.num[k] == y.num[k], op.name, ": number ", k, " is ", num(y.num[k]), ", in the first order ",
              num(x.num[k]));
    for (size_t k = 0; k < x.s.size(); ++k)
        CHECK(sameM(modelOf(x.s[k]), modelOf(y.s[k])), op.name, ": ", show(modelOf(y.s[k])), ", in the first order ", show(modelOf(x.s[k])));
}

PBT_MAIN("C36",
         "A case is an operation on generated Series and the same operation on some of their items (any selection, order, repetition), on some "
         "of their components, on two parts, or on the items in another order. Non-trivial: several items (components, non-empty parts).",
         60000, 2000000)
