// C14: quantiles interpolate the order statistics; outliers complement inliers.
#include "model.hpp"
#include "all.hpp"

namespace {
using ::show;
using namespace df::stats;
struct Quant {
    double v, mag;
};
Quant reference(const Array &sorted, double q) {
    long double pos = (long double)q * (sorted.size() - 1);
    size_t b = (size_t)floorl(pos);
    b = std::min(b, sorted.size() - 1);
    long double rest = pos - b;
    double lo = sorted[b], hi = sorted[std::min(b + 1, sorted.size() - 1)];
    return {double(lo + rest * (hi - lo)), std::max(std::fabs(lo), std::fabs(hi))};
}
// position errors: (n-1)*q is rounded, so the value may move by that much along the segment
double slack(const Array &sorted, double q) {
    double pos = q * (sorted.size() - 1);
    size_t b = (size_t)std::floor(pos);
    size_t a = b ? b - 1 : 0, e = std::min(b + 2, sorted.size() - 1);
    return (sorted[e] - sorted[a]) * 1e-12 * (1 + pos);
}
double genQ(Ctx &c, uint32_t n) {
    static const double e[] = {0, 1, 0.5, 0.25, 0.75, 0.1, 0.9, 0.01, 0.99, 1e-9, 1 - 1e-9, 0.05, 0.95};
    switch (c.below(3)) {
    case 0:
        return e[c.below(13)];
    case 1:
        return n > 1 ? double(c.below(n)) / (n - 1) : 0;
    default:
        return double(c.below(1000001)) / 1e6;
    }
}
M genS(Ctx &c, unsigned prof) {
    M m = genM(c, {.prof = prof, .minCount = 1, .maxCount = 5000, .isz = 1});
    return m;
}
double lib(const Serie &s, double q, int entry) {
    return entry == 1 ? make_quantile(q)(s) : quantile(s, q);
}
} // namespace

LAW(quantile, 8, "any q, compared with the interpolation of the sorted values; bounds, monotonicity") {
    M m = genS(c, FINITE);
    double q = genQ(c, m.n), q2 = genQ(c, m.n);
    c.log("quantiles ", num(q), " and ", num(q2), " of ", show(m));
    Serie s = build(c, m);
    Array sorted = m.v;
    std::sort(sorted.begin(), sorted.end());
    auto check = [&](double g, double p, const char *what) {
        Quant w = reference(sorted, p);
        CHECK(std::fabs(g - w.v) <= 1e-12 * w.mag + slack(sorted, p), what, " (q = ", num(p), ") is ", num(g),
              ", expected ", num(w.v));
    };
    double a = lib(s, q, (int)c.below(2)), b = quantile(s, q2);
    check(a, q, "quantile");
    check(b, q2, "quantile");
    double tol = 1e-12 * std::max(std::fabs(sorted.front()), std::fabs(sorted.back()));
    if (q <= q2)
        CHECK(a <= b + tol, "quantile decreases from ", num(a), " at ", num(q), " to ", num(b), " at ", num(q2));
    else
        CHECK(b <= a + tol, "quantile decreases from ", num(b), " at ", num(q2), " to ", num(a), " at ", num(q));
    CHECK(quantile(s, 0) == sorted.front(), "quantile 0 is ", num(quantile(s, 0)), ", the minimum ", num(sorted.front()));
    CHECK(quantile(s, 1) == sorted.back(), "quantile 1 is ", num(quantile(s, 1)), ", the maximum ", num(sorted.back()));
    check(q25(s), 0.25, "q25");
    check(q50(s), 0.5, "q50");
    check(q75(s), 0.75, "q75");
    double iqr = reference(sorted, 0.75).v - reference(sorted, 0.25).v;
    CHECK(std::fabs(IQR(s) - iqr) <= 4 * tol + slack(sorted, 0.75) + slack(sorted, 0.25), "IQR is ", num(IQR(s)),
          ", expected ", num(iqr));
    CHECK(a == quantile(s, q), "the same quantile asked twice differs");
    expectSame(s, m, "the Serie given to quantile", WITH_DIM);
    c.nontrivial(m.n >= 2 && sorted.front() < sorted.back());
}

LAW(limits, 3, "values as large as there are, and infinities") {
    M m = genS(c, c.flip() ? unsigned(FINITE) : unsigned(WIDE));
    double big = 0;
    for (double x : m.v)
        big = std::max(big, std::fabs(x));
    if (big > 0 && c.flip())
        for (double &x : m.v)
            x = std::ldexp(x, 1023 - std::ilogb(big));
    if (c.flip()) { // one sign only: nothing between the two infinities has a meaning
        double x = c.flip() ? INFINITY : -INFINITY;
        for (uint32_t i = 0, k = (uint32_t)c.range(1, 3); i < k; ++i)
            m.v[c.below(m.n)] = x;
    }
    double q = genQ(c, m.n);
    c.log("quantile ", num(q), " of ", show(m));
    Serie s = build(c, m);
    Array sorted = m.v;
    std::sort(sorted.begin(), sorted.end());
    double g = lib(s, q, (int)c.below(2));
    long double pos = (long double)q * (m.n - 1);
    size_t b = (size_t)pos, e = std::min<size_t>(b + 1, m.n - 1);
    // next to a whole position, the rounded position may be on either side of it
    double lo = sorted[pos - b < 1e-9L && b ? b - 1 : b], hi = sorted[1 - (pos - b) < 1e-9L ? std::min<size_t>(e + 1, m.n - 1) : e];
    CHECK(g >= lo && g <= hi, "quantile is ", num(g), ", out of ", num(lo), " ... ", num(hi));
    if (std::isfinite(lo) && std::isfinite(hi)) {
        long double w = sorted[b] + (pos - b) * ((long double)sorted[e] - sorted[b]);
        CHECK(fabsl(g - w) <= 1e-9L * (fabsl(lo) + fabsl(hi)), "quantile is ", num(g), ", expected ", num(double(w)));
    }
    CHECK(quantile(s, 0) == sorted.front(), "quantile 0 is ", num(quantile(s, 0)), ", the minimum ", num(sorted.front()));
    CHECK(quantile(s, 1) == sorted.back(), "quantile 1 is ", num(quantile(s, 1)), ", the maximum ", num(sorted.back()));
    c.nontrivial(m.n >= 2 && sorted.front() < sorted.back());
}

LAW(order, 4, "the order of the items does not matter") {
    M m = genS(c, FINITE);
    std::vector<uint32_t> idx(m.n);
    std::iota(idx.begin(), idx.end(), 0u);
    Src src = source(c, m.n);
    for (uint32_t i = m.n; i > 1; --i)
        std::swap(idx[i - 1], idx[src.below(i)]);
    M p = m.select(idx);
    double q = genQ(c, m.n);
    c.log("quantile ", num(q), " of ", show(m), "\n and ", show(p));
    Serie s = build(c, m), t = build(c, p);
    CHECK(quantile(s, q) == quantile(t, q), "the quantile ", num(q), " is ", num(quantile(s, q)), ", after reordering ",
          num(quantile(t, q)));
    CHECK(IQR(s) == IQR(t), "IQR depends on the order");
    c.nontrivial(m.n >= 2);
}

LAW(outliers, 8, "outliers, isOutliers and notOutliers, exactly") {
    // values and mustaches for which every step of the computation is exact
    M m = genS(c, EXACT);
    for (uint32_t t = 0, k = (uint32_t)c.below(4); t < k; ++t)
        m.v[c.below(m.n)] = double(c.range(-400, 400)) / 4;
    static const double ms[] = {1.5, 0, 0.5, 1, 3, 0.25, 2.5, -0.25};
    double mu = ms[c.below(8)];
    auto bounds = [&] {
        Array v = m.v;
        std::sort(v.begin(), v.end());
        double a = reference(v, 0.25).v, b = reference(v, 0.75).v;
        return std::pair(a - mu * (b - a), b + mu * (b - a));
    };
    auto [lo, hi] = bounds();
    for (int t = 0; t < 2; ++t) // values exactly on the bounds, or just outside
        if (c.chance(1, 2)) {
            static const double d[] = {0, 0.0625, -0.0625};
            m.v[c.below(m.n)] = (c.flip() ? lo : hi) + d[c.below(3)];
        }
    std::tie(lo, hi) = bounds();
    bool dflt = mu == 1.5 && c.flip();
    c.log("outliers, mustache ", num(mu), " bounds ", num(lo), " and ", num(hi), " of ", show(m));
    Serie s = build(c, m);
    M in = M::empty(1, m.dim), out = M::empty(1, m.dim), is = M::empty(1, 3);
    for (double v : m.v) {
        bool o = v < lo || v > hi;
        (o ? out : in).push({v});
        is.push({o ? 1.0 : 0.0});
    }
    expectSameOrNone(df::stats::outliers(s, mu), out, "outliers");
    expectSame(isOutliers(s, mu), is, "isOutliers");
    expectSameOrNone(dflt ? notOutliers(s) : notOutliers(s, mu), in, "notOutliers");
    expectSame(s, m, "the Serie given to outliers", WITH_DIM);
    c.nontrivial(out.n > 0 && in.n > 0);
}

LAW(outliers_real, 3, "on any values: the three agree and split the Serie") {
    M m = genS(c, FINITE);
    static const double ms[] = {1.5, 0.3, 1, 2.2, 0.05};
    double mu = ms[c.below(5)];
    c.log("outliers, mustache ", num(mu), " of ", show(m));
    Serie s = build(c, m);
    Array v = m.v;
    std::sort(v.begin(), v.end());
    double a = reference(v, 0.25).v, b = reference(v, 0.75).v, lo = a - mu * (b - a), hi = b + mu * (b - a);
    double tol = 1e-9 * std::max({std::fabs(lo), std::fabs(hi), std::fabs(v.front()), std::fabs(v.back())});
    Array o = df::stats::outliers(s, mu).asArray(), n = notOutliers(s, mu).asArray(), f = isOutliers(s, mu).asArray();
    CHECK(f.size() == m.n && o.size() + n.size() == m.n, "outliers and notOutliers do not split the Serie: ", o.size(),
          " + ", n.size(), " of ", m.n);
    size_t io = 0, in = 0;
    for (uint32_t i = 0; i < m.n; ++i) {
        CHECK(f[i] == 0 || f[i] == 1, "isOutliers gave ", num(f[i]));
        double x = m.v[i];
        if (x < lo - tol || x > hi + tol)
            CHECK(f[i] == 1, "value ", num(x), " is outside ", num(lo), " ... ", num(hi), " but not flagged");
        if (x > lo + tol && x < hi - tol)
            CHECK(f[i] == 0, "value ", num(x), " is within ", num(lo), " ... ", num(hi), " but flagged");
        if (f[i] == 1)
            CHECK(io < o.size() && sameBits(o[io++], x), "outliers are not the flagged values in order");
        else
            CHECK(in < n.size() && sameBits(n[in++], x), "notOutliers are not the other values in order");
    }
    c.nontrivial(io > 0 && in > 0);
}

PBT_MAIN("C14",
         "A case takes quantiles (ends, quartiles, exact positions k/(n-1), any) or outliers (values on and next to "
         "the bounds, exact arithmetic) of a generated non-empty scalar Serie. Non-trivial: two different values; "
         "for outliers, values on both sides.",
         369000, 2952000)
