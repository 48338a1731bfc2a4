// C12: minMax bounds are tight; normalize maps onto the unit range.
#include "model.hpp"
#include "all.hpp"

namespace {
using ::show;
void checkBounds(const df::math::MinMax &r, const M &m) {
    if (m.n == 0) {
        CHECK(r.min.empty() && r.max.empty(), "minMax of an empty Serie gave ", show(r.min), " and ", show(r.max));
        return;
    }
    CHECK(r.min.size() == m.isz && r.max.size() == m.isz, "minMax gave ", r.min.size(), " and ", r.max.size(),
          " values for item size ", m.isz);
    for (uint32_t j = 0; j < m.isz; ++j) {
        double lo = m.at(0, j), hi = lo;
        for (uint32_t i = 1; i < m.n; ++i) {
            lo = std::min(lo, m.at(i, j));
            hi = std::max(hi, m.at(i, j));
        }
        CHECK(r.min[j] == lo, "the minimum of component ", j, " is ", num(r.min[j]), ", expected ", num(lo));
        CHECK(r.max[j] == hi, "the maximum of component ", j, " is ", num(r.max[j]), ", expected ", num(hi));
    }
}
double genScale(Ctx &c) {
    static const double s[] = {1, 1e-3, 1e3, 1e-6, 1e6, 0.5};
    return s[c.below(6)];
}
// now and then the values are as large or as small as there are
void toTheLimits(Ctx &c, Array &v) {
    if (!c.chance(1, 6))
        return;
    double big = 0;
    for (double x : v)
        big = std::max(big, std::fabs(x));
    if (big == 0)
        return;
    static const int es[] = {1023, 1022, 1000, 700, 520, 511, 499, 490, -470, -490, -510, -530, -700, -1000, -1021, -1023, -1040, -1060};
    int e = (c.flip() ? es[c.below(18)] : (int)c.range(-1060, 1023)) - std::ilogb(big);
    for (double &x : v)
        x = std::ldexp(x, e);
}
} // namespace

LAW(min_max, 8, "the bounds of every component, attained") {
    M m = genM(c, {.prof = FINITE | WIDE});
    // extremes at chosen places: first, last, anywhere; all negative or all positive; infinities
    if (!m.v.empty()) {
        switch (c.below(6)) {
        case 0:
            for (auto &x : m.v)
                x = -std::fabs(x) - 1;
            break;
        case 1:
            for (auto &x : m.v)
                x = std::fabs(x) + 1;
            break;
        case 2:
            m.v[c.flip() ? m.v.size() - 1 : c.below(m.v.size())] = c.flip() ? 1e300 : -1e300;
            break;
        case 3:
            if (c.chance(1, 3))
                m.v[c.below(m.v.size())] = c.flip() ? INFINITY : -INFINITY;
            break;
        case 4:
            if (c.chance(1, 8))
                for (auto &x : m.v)
                    x = m.v[0] < 0 ? -INFINITY : INFINITY;
            break;
        }
    }
    c.log("minMax of ", show(m));
    Serie s = build(c, m);
    checkBounds(df::math::minMax(s), m);
    expectSame(s, m, "the Serie given to minMax", WITH_DIM);
    c.nontrivial(m.n >= 2);
}

LAW(normalize_scalar, 6, "the smallest value to 0, the largest to 1, affine in between") {
    M m = genM(c, {.prof = FINITE, .isz = 1});
    double k = genScale(c);
    for (auto &x : m.v)
        x *= k;
    if (m.v.size() && c.chance(1, 4)) // one sign only
        for (auto &x : m.v)
            x = k < 1 ? -std::fabs(x) - k : std::fabs(x) + k;
    toTheLimits(c, m.v);
    long double lo = 0, hi = 0;
    if (m.n) {
        lo = *std::min_element(m.v.begin(), m.v.end());
        hi = *std::max_element(m.v.begin(), m.v.end());
        long double big = std::max(fabsl(lo), fabsl(hi));
        if (!(hi - lo > 1e-6 * big))
            throw pbt::Discard{}; // (nearly) constant
    }
    c.log("normalize of ", show(m));
    Serie s = build(c, m);
    Serie r = df::math::normalize(s);
    M w = m;
    for (auto &x : w.v)
        x = double((x - lo) / (hi - lo));
    expectCloseOrNone(r, w, "normalize", Array(m.v.size(), 1.0), 1e-9);
    for (size_t i = 0; i < m.v.size(); ++i) {
        if (m.v[i] == lo)
            CHECK(r.asArray()[i] == 0, "the smallest value gave ", num(r.asArray()[i]), " instead of 0");
        if (m.v[i] == hi)
            CHECK(std::fabs(r.asArray()[i] - 1) <= 1e-12, "the largest value gave ", num(r.asArray()[i]), " instead of 1");
    }
    expectSame(s, m, "the normalized Serie", WITH_DIM);
    c.nontrivial(m.n >= 3);
}

LAW(normalize_vectors, 6, "every non-zero vector becomes the unit vector of the same direction, on its own") {
    M m = genM(c, {.prof = FINITE, .maxIsz = 12});
    if (m.isz == 1) {
        m.isz = 2;
        m.v = genValues(c, size_t(m.n) * 2, FINITE);
    }
    double k = genScale(c);
    for (auto &x : m.v)
        x *= k;
    toTheLimits(c, m.v);
    for (uint32_t i = 0; i < m.n; ++i) {
        long double q = 0;
        for (uint32_t j = 0; j < m.isz; ++j)
            q += (long double)m.at(i, j) * m.at(i, j);
        if (!(q > 0))
            m.v[size_t(i) * m.isz + i % m.isz] = -3 * k;
    }
    c.log("normalize of ", show(m));
    Serie s = build(c, m);
    Serie r = df::math::normalize(s);
    M w = m;
    for (uint32_t i = 0; i < m.n; ++i) {
        long double q = 0;
        for (uint32_t j = 0; j < m.isz; ++j)
            q += (long double)m.at(i, j) * m.at(i, j);
        for (uint32_t j = 0; j < m.isz; ++j)
            w.v[size_t(i) * m.isz + j] = double(m.at(i, j) / sqrtl(q));
    }
    expectCloseOrNone(r, w, "normalize", Array(m.v.size(), 1.0), 1e-9);
    expectSame(s, m, "the normalized Serie", WITH_DIM);
    c.nontrivial(m.n >= 2);
}

LAW(affine, 4, "bounds follow scaling, shifting, concatenation and reordering of the items") {
    M m = genM(c, {.prof = EXACT, .minCount = 2, .maxCount = 3000, .maxIsz = 9});
    uint32_t cut = (uint32_t)c.range(1, m.n - 1);
    c.log("minMax of ", show(m), " cut at ", cut);
    Serie s = build(c, m);
    auto r = df::math::minMax(s);
    std::vector<uint32_t> i1, i2, rev;
    for (uint32_t i = 0; i < m.n; ++i) {
        (i < cut ? i1 : i2).push_back(i);
        rev.push_back(m.n - 1 - i);
    }
    auto a = df::math::minMax(direct(m.select(i1))), b = df::math::minMax(direct(m.select(i2)));
    auto q = df::math::minMax(direct(m.select(rev)));
    auto n = df::math::minMax(df::math::negate(s));
    checkBounds(r, m);
    for (uint32_t j = 0; j < m.isz; ++j) {
        CHECK(r.min[j] == std::min(a.min[j], b.min[j]) && r.max[j] == std::max(a.max[j], b.max[j]),
              "the bounds of the whole are not those of its two parts, component ", j);
        CHECK(q.min[j] == r.min[j] && q.max[j] == r.max[j], "the bounds depend on the order of the items");
        CHECK(n.min[j] == -r.max[j] && n.max[j] == -r.min[j], "the bounds of the opposite are not the opposite bounds");
    }
    c.nontrivial();
}

PBT_MAIN("C12",
         "A case takes the bounds of, or normalizes, a generated Serie (all profiles of finite values, extremes at "
         "the first, last or any place, single signs, infinities for minMax). Non-trivial: at least two items "
         "(three for scalar normalization).",
         312000, 2496000)
