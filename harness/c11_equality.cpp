// C11: comparisons report exactly the differences there are.
#include "model.hpp"
#include "all.hpp"

namespace {
using ::show;
constexpr unsigned NONAN = FINITE | WIDE;
// what differs between the two Series
struct Pair {
    M a, b;
    std::string how;
    bool equal = true;
};
Pair genPair(Ctx &c, unsigned prof, bool sameShape) {
    Pair p;
    p.a = genM(c, {.prof = prof, .maxCount = 5000});
    p.b = p.a;
    switch (c.weighted({6, 8, 3, 3, sameShape ? 0u : 3u, sameShape ? 0u : 3u, sameShape ? 0u : 3u})) {
    case 0:
        p.how = "equal";
        break;
    case 1: { // one value
        if (p.a.v.empty())
            break;
        size_t k = c.chance(1, 3) ? p.a.v.size() - 1 : c.below(p.a.v.size());
        double d = p.a.v[k];
        switch (c.below(4)) {
        case 0:
            p.b.v[k] = d + 1;
            break;
        case 1:
            p.b.v[k] = std::nextafter(d, 1e308);
            break;
        case 2:
            p.b.v[k] = -d;
            break;
        default:
            p.b.v[k] = d + 1e-12;
        }
        p.how = "value " + std::to_string(k) + " differs";
        break;
    }
    case 2: // several values
        for (int t = 0; t < 4 && !p.a.v.empty(); ++t)
            p.b.v[c.below(p.a.v.size())] += 0.5;
        p.how = "up to four values differ";
        break;
    case 3:
        p.b.v = genValues(c, p.a.v.size(), prof);
        p.how = "independent values";
        break;
    case 4: // the same values in items of another size
        for (uint32_t k = (uint32_t)c.range(1, 4); k <= 8; ++k)
            if (k != p.a.isz && p.a.v.size() % k == 0) {
                p.b.isz = k;
                p.b.n = p.a.v.size() / k;
                break;
            }
        p.how = "other item size";
        break;
    case 5:
        if (p.a.n) {
            p.b.n -= 1;
            p.b.v.resize(size_t(p.b.n) * p.b.isz);
        }
        if (c.flip())
            std::swap(p.a, p.b);
        p.how = "one item less";
        break;
    case 6:
        p.b.dim = p.a.dim == 2 ? 3 : 2;
        p.how = "other dimension";
    }
    p.equal = p.a.isz == p.b.isz && p.a.n == p.b.n && p.a.dim == p.b.dim;
    for (size_t i = 0; p.equal && i < p.a.v.size(); ++i)
        p.equal = p.a.v[i] == p.b.v[i];
    return p;
}
double genEps(Ctx &c) {
    static const double e[] = {1e-6, 0, 1e-12, 1e-9, 0.25, 1, 0.5, 1e-3, 3, 1e-170, 1e-300, 1e160};
    return e[c.below(12)];
}
// nudges values of b to about epsilon away from those of a
void nudge(Ctx &c, Pair &p, double eps) {
    if (p.a.v.empty() || p.b.v.size() != p.a.v.size())
        return;
    static const double f[] = {0.5, 0.999, 1.001, 2, -0.5, -0.999, -1.001, -3, 1, -1};
    uint32_t k = (uint32_t)c.below(5);
    for (uint32_t t = 0; t < k; ++t) {
        size_t i = c.below(p.a.v.size());
        if (eps > 0 && eps < 1e-100) // lost beside anything else
            p.a.v[i] = c.flip() ? 0 : eps;
        p.b.v[i] = p.a.v[i] + eps * f[c.below(10)];
    }
}
// a value that is within epsilon of nothing: NaN on one side or both, or an infinity on one side
void unmatchable(Ctx &c, Pair &p) {
    if (!c.chance(1, 8) || p.a.v.empty() || p.b.v.size() != p.a.v.size())
        return;
    size_t i = c.below(p.a.v.size());
    int k = (int)c.below(5);
    constexpr double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
    if (k < 3)
        (k ? p.a : p.b).v[i] = nan;
    if (k == 2)
        p.b.v[i] = nan;
    if (k >= 3)
        (k == 3 ? p.a : p.b).v[i] = c.flip() ? inf : -inf;
    p.how += ", NaN or infinity at value " + std::to_string(i);
    c.label("NaN or infinity");
}
// differences too close to epsilon for the last bit of |a - b| to matter
bool clearCut(const Pair &p, double eps) {
    for (size_t i = 0; i < std::min(p.a.v.size(), p.b.v.size()); ++i) {
        volatile double d = p.a.v[i] - p.b.v[i];
        double x = std::fabs(d);
        if (!std::isfinite(x))
            return false;
    }
    return true;
}
} // namespace

LAW(equals, 8, "equals is exact on values, item size, count and dimension; equalsAll is transitive") {
    Pair p = genPair(c, NONAN, false);
    c.log(p.how, "\n  ", show(p.a), "\n  ", show(p.b));
    Serie a = build(c, p.a), b = build(c, p.b);
    bool eq = p.equal;
    CHECK(df::math::equals(a, b) == eq, "equals gave ", !eq, " for: ", p.how);
    CHECK(df::math::equals(b, a) == eq, "equals is not symmetric: ", p.how);
    CHECK(df::math::equals(a, a), "a Serie is not equal to itself");
    CHECK(df::math::make_equals(a)(b) == eq, "make_equals gave ", !eq, " for: ", p.how);
    CHECK(df::math::equalsAll(a, b) == eq, "equalsAll of two gave ", !eq, " for: ", p.how);
    Serie a2 = a.clone();
    CHECK(df::math::equalsAll(a, a2, b) == eq && df::math::equalsAll(a, b, a2) == eq &&
              df::math::equalsAll(b, a, a2) == eq && df::math::equalsAll(a, a, a2, b) == eq &&
              df::math::equalsAll(a2, a, b, a) == eq,
          "equalsAll of several gave ", !eq, " for: ", p.how);
    CHECK(df::math::equalsAll(a, a2, a), "equalsAll of equal Series gave false");
    std::array<Serie, 6> l = {a, a2, a.clone(), a, a2.clone(), a};
    int len = (int)c.range(3, 6);
    if (c.chance(1, 3)) // from some place on
        for (int i = (int)c.range(0, len - 1); i < len; ++i)
            l[i] = b;
    else
        for (int i = 0; i < len; ++i)
            if (c.chance(1, 3))
                l[i] = c.flip() ? b : b.clone();
    std::string which;
    for (int i = 0; i < len; ++i) {
        bool isB = !sameBits(l[i].asArray(), p.a.v) || l[i].itemSize() != p.a.isz || l[i].dimension() != p.a.dim;
        which += isB ? 'b' : 'a';
    }
    bool all = eq || which.find('a') == std::string::npos || which.find('b') == std::string::npos;
    bool got = len == 3   ? df::math::equalsAll(l[0], l[1], l[2])
               : len == 4 ? df::math::equalsAll(l[0], l[1], l[2], l[3])
               : len == 5 ? df::math::equalsAll(l[0], l[1], l[2], l[3], l[4])
                          : df::math::equalsAll(l[0], l[1], l[2], l[3], l[4], l[5]);
    CHECK(got == all, "equalsAll of ", which, " gave ", got, " for: ", p.how);
    Serie none;
    CHECK(!df::math::equals(none, a) && !df::math::equals(a, none) && !df::math::equals(none, none),
          "an invalid Serie is equal to something");
    expectSame(a, p.a, "a compared Serie", WITH_DIM);
    expectSame(b, p.b, "a compared Serie", WITH_DIM);
    c.label(eq ? "equal" : "different");
    c.nontrivial(p.a.n >= 2);
}

LAW(approximately, 8, "approximatelyEquals and approximatelyEqualsAll of two Series") {
    Pair p = genPair(c, FINITE, false);
    bool dflt = c.chance(1, 4);
    double eps = dflt ? std::numeric_limits<double>::epsilon() * 100 : genEps(c);
    if (p.equal || c.flip())
        nudge(c, p, eps);
    if (!clearCut(p, eps))
        throw pbt::Discard{};
    unmatchable(c, p);
    bool eq = p.a.isz == p.b.isz && p.a.n == p.b.n && p.a.dim == p.b.dim;
    for (size_t i = 0; eq && i < p.a.v.size(); ++i)
        eq = std::fabs(p.a.v[i] - p.b.v[i]) <= eps;
    c.log(p.how, " epsilon ", eps, dflt ? " (default)" : "", "\n  ", show(p.a), "\n  ", show(p.b));
    Serie a = build(c, p.a), b = build(c, p.b);
    using namespace df::math;
    CHECK((dflt ? approximatelyEquals(a, b) : approximatelyEquals(a, b, eps)) == eq, "approximatelyEquals gave ", !eq);
    CHECK((dflt ? approximatelyEquals(b, a) : approximatelyEquals(b, a, eps)) == eq,
          "approximatelyEquals is not symmetric");
    CHECK((dflt ? approximatelyEqualsAll(a, b) : approximatelyEqualsAll(a, b, eps)) == eq,
          "approximatelyEqualsAll gave ", !eq);
    Serie none;
    CHECK(!approximatelyEquals(none, a, 1) && !approximatelyEquals(a, none, 1) && !approximatelyEquals(none, none, 1),
          "an invalid Serie is approximately equal to something");
    c.label(eq ? "equal" : "different");
    c.nontrivial(p.a.n >= 2);
}

// whether approximatelyEqualsAll takes these arguments: it could not be called with three Series or more
template <class... A> bool approxAll(const A &...args) {
    auto run = [](const auto &...x) -> int {
        if constexpr (requires { df::math::approximatelyEqualsAll(x...); })
            return df::math::approximatelyEqualsAll(x...);
        else
            return -1;
    };
    int r = run(args...);
    CHECK(r >= 0, "approximatelyEqualsAll cannot be called with ", sizeof...(A), " arguments");
    return r == 1;
}
LAW(approximatelyAll, 4, "approximatelyEqualsAll of three Series or more, with or without an epsilon") {
    Pair p = genPair(c, FINITE, false);
    bool dflt = c.chance(1, 3);
    double eps = dflt ? std::numeric_limits<double>::epsilon() * 100 : genEps(c);
    if (p.equal || c.flip())
        nudge(c, p, eps);
    if (!clearCut(p, eps))
        throw pbt::Discard{};
    unmatchable(c, p);
    auto within = [&](const M &a, const M &b) {
        bool eq = a.isz == b.isz && a.n == b.n && a.dim == b.dim;
        for (size_t i = 0; eq && i < a.v.size(); ++i)
            eq = std::fabs(a.v[i] - b.v[i]) <= eps;
        return eq;
    };
    Serie a = build(c, p.a), b = build(c, p.b);
    uint32_t len = (uint32_t)c.range(3, 6), kind = (uint32_t)c.below(4);
    std::string which(len, 'a');
    switch (kind) {
    case 0: // from some place on
        for (uint32_t i = (uint32_t)c.range(0, len - 1); i < len; ++i)
            which[i] = 'b';
        break;
    case 1: // one of them
        which[c.below(len)] = 'b';
        break;
    case 2:
        which[len - 1] = 'b';
        break;
    default:
        for (auto &x : which)
            x = c.flip() ? 'b' : 'a';
    }
    bool want = true;
    for (uint32_t i = 0; i + 1 < len; ++i)
        want = want && within(which[i] == 'a' ? p.a : p.b, which[i + 1] == 'a' ? p.a : p.b);
    c.log(p.how, " epsilon ", eps, dflt ? " (default)" : "", ", Series ", which, "\n  ", show(p.a), "\n  ", show(p.b));
    std::vector<Serie> l;
    for (char x : which)
        l.push_back(c.flip() ? (x == 'a' ? a : b).clone() : x == 'a' ? a : b);
    bool got = false;
    switch (len * 2 + !dflt) {
    case 6: got = approxAll(l[0], l[1], l[2]); break;
    case 7: got = approxAll(l[0], l[1], l[2], eps); break;
    case 8: got = approxAll(l[0], l[1], l[2], l[3]); break;
    case 9: got = approxAll(l[0], l[1], l[2], l[3], eps); break;
    case 10: got = approxAll(l[0], l[1], l[2], l[3], l[4]); break;
    case 11: got = approxAll(l[0], l[1], l[2], l[3], l[4], eps); break;
    case 12: got = approxAll(l[0], l[1], l[2], l[3], l[4], l[5]); break;
    default: got = approxAll(l[0], l[1], l[2], l[3], l[4], l[5], eps);
    }
    CHECK(got == want, "approximatelyEqualsAll of ", which, " gave ", got, " for: ", p.how);
    for (uint32_t i = 0; i < len; ++i)
        expectSame(l[i], which[i] == 'a' ? p.a : p.b, "a compared Serie", WITH_DIM);
    c.label(want ? "equal" : "different");
    c.nontrivial(p.a.n >= 2 && which.find('b') != std::string::npos && which.find('a') != std::string::npos);
}

LAW(mask, 6, "equalityMask") {
    Pair p = genPair(c, NONAN, true);
    if (c.chance(1, 4))
        p.b.dim = genDim(c);
    c.log(p.how, "\n  ", show(p.a), "\n  ", show(p.b));
    Serie a = build(c, p.a), b = build(c, p.b);
    M w = M::empty(1, 3);
    uint32_t ones = 0;
    for (uint32_t i = 0; i < p.a.n; ++i) {
        bool e = true;
        for (uint32_t j = 0; j < p.a.isz; ++j)
            e = e && p.a.at(i, j) == p.b.at(i, j);
        ones += e;
        w.push({e ? 1.0 : 0.0});
    }
    expectSame(df::math::equalityMask(a, b), w, "equalityMask");
    expectSame(df::math::equalityMask(b, a), w, "equalityMask the other way");
    expectSame(a, p.a, "a compared Serie", WITH_DIM);
    c.nontrivial(ones > 0 && ones < p.a.n);
}

LAW(approximate_mask, 6, "approximateEqualityMask") {
    Pair p = genPair(c, FINITE, true);
    bool dflt = c.chance(1, 4);
    double eps = dflt ? std::numeric_limits<double>::epsilon() * 100 : genEps(c);
    nudge(c, p, eps);
    if (!clearCut(p, eps))
        throw pbt::Discard{};
    unmatchable(c, p);
    c.log(p.how, " epsilon ", eps, dflt ? " (default)" : "", "\n  ", show(p.a), "\n  ", show(p.b));
    Serie a = build(c, p.a), b = build(c, p.b);
    M w = M::empty(1, 3);
    uint32_t ones = 0;
    for (uint32_t i = 0; i < p.a.n; ++i) {
        bool e = true;
        for (uint32_t j = 0; j < p.a.isz; ++j)
            e = e && std::fabs(p.a.at(i, j) - p.b.at(i, j)) <= eps;
        ones += e;
        w.push({e ? 1.0 : 0.0});
    }
    using df::math::approximateEqualityMask;
    expectSame(dflt ? approximateEqualityMask(a, b) : approximateEqualityMask(a, b, eps), w, "approximateEqualityMask");
    expectSame(dflt ? approximateEqualityMask(b, a) : approximateEqualityMask(b, a, eps), w,
               "approximateEqualityMask the other way");
    c.nontrivial(ones > 0 && ones < p.a.n);
}

PBT_MAIN("C11",
         "A case compares a generated Serie with a copy changed in one way (one value, by one ulp, several values, "
         "item size, count, dimension, or values moved by fractions and multiples of epsilon). Non-trivial: at "
         "least two items; for masks both answers occur.",
         83000, 1500000)
