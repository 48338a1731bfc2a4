// C15: binning counts every value exactly once, in its bin.
#include "model.hpp"
#include "all.hpp"

namespace {
using ::show;
using df::stats::bins;
uint32_t genNb(Ctx &c) {
    static const uint32_t e[] = {2, 1, 10, 4, 8, 16, 100, 256, 1000};
    return c.flip() ? (uint32_t)c.range(1, 20) : e[c.below(9)];
}
// Cumulated counts must agree with the edges; a value at rounding distance of an edge may go to either side.
void checkBins(const Serie &r, const M &m, uint32_t nb, double lo, double hi, double tol) {
    expectShape(r, 1, nb, "bins");
    const Array &b = r.asArray();
    double total = 0;
    for (double x : b) {
        CHECK(x >= 0 && x == std::floor(x), "a bin counts ", num(x), " values");
        total += x;
    }
    CHECK(total == m.n, "the bins count ", num(total), " values of ", m.n);
    Array v = m.v;
    std::sort(v.begin(), v.end());
    double cum = 0;
    for (uint32_t k = 1; k < nb; ++k) {
        cum += b[k - 1];
        double edge = lo + (hi - lo) * k / nb; // values below it are in the first k bins
        double atLeast = double(std::lower_bound(v.begin(), v.end(), edge - tol) - v.begin());
        double atMost = tol > 0 ? double(std::upper_bound(v.begin(), v.end(), edge + tol) - v.begin()) : atLeast;
        CHECK(cum >= atLeast && cum <= atMost, "the first ", k, " bins count ", num(cum), " values, but between ",
              num(atLeast), " and ", num(atMost), " values are below ", num(edge));
    }
}
} // namespace

LAW(exact, 8, "exact edges: every value in its bin") {
    static const uint32_t pw[] = {4, 1, 2, 8, 16, 32, 64};
    uint32_t nb = pw[c.below(7)];
    double width = std::ldexp(1.0, (int)c.range(-4, 4));
    double lo = double(c.range(-40, 40)) / 4, hi = lo + width * nb;
    M m = genM(c, {.prof = EXACT, .maxCount = 5000, .isz = 1});
    bool far = c.chance(1, 6); // values beyond any number of bins
    for (size_t i = 0; i < m.v.size(); ++i) { // into the range or above; often exactly on an edge
        double x = m.v[i];
        if (i % 3 == 0)
            m.v[i] = lo + width * std::fmod(std::floor(std::fabs(x)), nb + 2);
        else if (x < lo)
            m.v[i] = lo + std::fmod(lo - x, hi - lo);
        if (far && i % 5 == 4)
            m.v[i] = i % 2 ? 1e30 : std::numeric_limits<double>::infinity();
    }
    c.log("bins(", nb, ", ", num(lo), ", ", num(hi), ") of ", show(m));
    Serie s = build(c, m);
    checkBins(bins(s, nb, lo, hi), m, nb, lo, hi, 0);
    // and one by one
    Array w(nb, 0);
    for (double x : m.v) {
        double k = std::floor((x - lo) / width);
        w[(size_t)std::min<double>(k, nb - 1)] += 1;
    }
    expectSame(bins(s, nb, lo, hi), M::make(1, w), "bins");
    expectSame(s, m, "the binned Serie", WITH_DIM);
    c.nontrivial(m.n >= 2 && nb >= 2);
}

// The width is a whole number of units, so that every edge is exact whatever the number of bins; the values are on
// the edges, next to them, or at whole numbers of units.
LAW(edges, 6, "any whole width and number of bins: values on the edges and next to them") {
    uint32_t nb = c.flip() ? genNb(c) : (uint32_t)c.range(1, 200);
    double unit = std::ldexp(1.0, (int)c.range(-30, 30)), w = double(c.range(1, c.flip() ? 12 : 1000)) * unit;
    double lo = c.flip() ? 0 : double(c.range(-1000, 1000)) * unit, hi = lo + w * nb;
    uint32_t n = (uint32_t)c.range(0, c.chance(1, 4) ? 400 : 40);
    Array v, want(nb, 0);
    for (uint32_t i = 0; i < n; ++i) {
        uint32_t k = (uint32_t)c.below(nb + 2);
        double x = lo + w * k;
        switch (c.below(5)) {
        case 0:
            if (k) { // just below the edge: the subtraction of lo must stay exact, or round within the bin below
                x -= unit / 4;
                --k;
            }
            break;
        case 1:
            x += unit / 4;
            break;
        case 2: {
            double j = double(c.below((uint64_t)(w / unit)));
            x += j * unit;
            break;
        }
        default:;
        }
        v.push_back(x);
        want[std::min(k, nb - 1)] += 1;
    }
    M m = M::make(1, v);
    c.log("bins(", nb, ", ", num(lo), ", ", num(hi), ") of ", show(m));
    Serie s = build(c, m);
    expectSame(bins(s, nb, lo, hi), M::make(1, want), "bins");
    // the automatic range is this one when both ends are present
    v.push_back(lo);
    v.push_back(hi);
    want[0] += 1;
    want[nb - 1] += 1;
    if (*std::max_element(v.begin(), v.end()) == hi)
        expectSame(bins(Serie(1, v), nb), M::make(1, want), "bins over the automatic range");
    c.nontrivial(n >= 2 && nb >= 2);
}

LAW(any, 6, "any range and number of bins") {
    M m = genM(c, {.prof = FINITE, .maxCount = 5000, .isz = 1});
    uint32_t nb = genNb(c);
    double mn = m.n ? *std::min_element(m.v.begin(), m.v.end()) : 0, mx = m.n ? *std::max_element(m.v.begin(), m.v.end()) : 1;
    double lo = mn - (c.flip() ? 0 : double(c.range(0, 100)) / 10), hi = lo + 0.1 + (mx - lo) * double(c.range(1, 30)) / 20;
    double tol = 1e-9 * std::max({std::fabs(lo), std::fabs(hi), std::fabs(mx)});
    c.log("bins(", nb, ", ", num(lo), ", ", num(hi), ") of ", show(m));
    Serie s = build(c, m);
    checkBins(bins(s, nb, lo, hi), m, nb, lo, hi, tol);
    c.nontrivial(m.n >= 2 && nb >= 2);
}

LAW(automatic, 6, "without range: from the smallest to the largest value") {
    M m = genM(c, {.prof = FINITE, .maxCount = 5000, .isz = 1});
    uint32_t nb = genNb(c);
    c.log("bins(", nb, ") of ", show(m));
    Serie s = build(c, m);
    Serie r = bins(s, nb);
    if (m.n == 0) {
        expectSame(r, M::make(1, Array(nb, 0.0)), "bins of an empty Serie");
        return;
    }
    double mn = *std::min_element(m.v.begin(), m.v.end()), mx = *std::max_element(m.v.begin(), m.v.end());
    if (mn == mx) {
        Array w(nb, 0.0);
        w[0] = m.n;
        expectSame(r, M::make(1, w), "bins of a constant Serie");
    } else {
        double tol = 1e-9 * std::max(std::fabs(mn), std::fabs(mx));
        if ((mx - mn) / nb < 4 * tol)
            throw pbt::Discard{};
        checkBins(r, m, nb, mn, mx, tol);
        const Array &b = r.asArray();
        CHECK(b[0] >= 1 && b[nb - 1] >= 1, "the extreme values are not in the extreme bins");
    }
    expectSame(s, m, "the binned Serie", WITH_DIM);
    c.nontrivial(m.n >= 2 && nb >= 2);
}

LAW(refine, 4, "pairs of finer bins add up to the coarser ones; bins of a concatenation are sums of bins") {
    M m = genM(c, {.prof = EXACT, .minCount = 1, .maxCount = 3000, .isz = 1});
    uint32_t nb = 1u << c.range(0, 5);
    double mn = *std::min_element(m.v.begin(), m.v.end());
    double hi = mn + nb * std::ldexp(1.0, (int)c.range(-1, 5));
    uint32_t cut = (uint32_t)c.below(m.n + 1);
    c.log("bins(", nb, ", ", num(mn), ", ", num(hi), ") of ", show(m), " cut at ", cut);
    Serie s = build(c, m);
    Array a = bins(s, nb, mn, hi).asArray(), b = bins(s, nb * 2, mn, hi).asArray();
    CHECK(a.size() == nb && b.size() == 2 * nb, "wrong number of bins");
    Array p = bins(Serie(1, Array(m.v.begin(), m.v.begin() + cut)), nb, mn, hi).asArray(),
          q = bins(Serie(1, Array(m.v.begin() + cut, m.v.end())), nb, mn, hi).asArray();
    for (uint32_t k = 0; k < nb; ++k) {
        CHECK(a[k] == b[2 * k] + b[2 * k + 1], "bin ", k, " counts ", num(a[k]), ", its halves ", num(b[2 * k]), " and ",
              num(b[2 * k + 1]));
        CHECK(a[k] == p[k] + q[k], "bin ", k, " of the whole counts ", num(a[k]), ", of the parts ", num(p[k]), " and ", num(q[k]));
    }
    c.nontrivial(m.n >= 2 && nb >= 2);
}

LAW(degenerate, 1, "zero bins, empty Serie, reduced range") {
    M m = genM(c, {.prof = EXACT, .maxCount = 50, .isz = 1});
    uint32_t nb = genNb(c);
    c.log(nb, " bins of ", show(m));
    Serie s = build(c, m);
    CHECK(!bins(s, 0, -1e6, 1e6).isValid(), "zero bins gave a Serie");
    CHECK(!bins(s, 0).isValid(), "zero bins gave a Serie");
    expectSame(bins(Serie(1, 0), nb, 0, 1), M::make(1, Array(nb, 0.0)), "bins of an empty Serie");
    expectSame(bins(Serie(1, 0), nb), M::make(1, Array(nb, 0.0)), "bins of an empty Serie");
    Serie k(1, Array(m.n, 2.5));
    Array w(nb, 0.0);
    w[0] = m.n;
    expectSame(bins(k, nb, 2.5, 2.5), M::make(1, w), "bins over a range reduced to the value present");
    expectSame(bins(k, nb), M::make(1, w), "bins of a constant Serie");
    c.nontrivial(m.n >= 1);
}

PBT_MAIN("C15",
         "A case bins a generated scalar Serie over a given or automatic range and checks every cumulated count "
         "against the sorted values (exactly when the edges are exact). Non-trivial: two values and two bins.",
         889000, 7112000)
