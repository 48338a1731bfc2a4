// C13: mean and covariance are the population statistics.
#include "model.hpp"
#include "all.hpp"

namespace {
using ::show;
using df::stats::covariance;
using df::stats::mean;
struct Cov {
    double v, tol;
};
// reference covariance in extended precision and the error a two-pass computation may make
Cov cov(const M &x, const M &y) {
    long double n = x.n, xb = 0, yb = 0, s = 0, mag = 0, mx = 0, my = 0;
    for (uint32_t i = 0; i < x.n; ++i) {
        xb += x.v[i];
        yb += y.v[i];
        mx = std::max<long double>(mx, std::fabs(x.v[i]));
        my = std::max<long double>(my, std::fabs(y.v[i]));
    }
    xb /= n;
    yb /= n;
    for (uint32_t i = 0; i < x.n; ++i) {
        s += (x.v[i] - xb) * (y.v[i] - yb);
        mag += fabsl((x.v[i] - xb) * (y.v[i] - yb));
    }
    // error of the mean and of the differences: n ulps of the largest value
    long double ex = mx * 4e-16L * (n + 8), ey = my * 4e-16L * (n + 8);
    long double dx = 0, dy = 0;
    for (uint32_t i = 0; i < x.n; ++i) {
        dx += fabsl(x.v[i] - xb);
        dy += fabsl(y.v[i] - yb);
    }
    return {double(s / n), double(1e-10L * mag / n + ex * ey + mx * 4e-16L * dy / n + my * 4e-16L * dx / n)};
}
M genX(Ctx &c, const M *like = nullptr) {
    M m;
    if (like)
        m = genLike(c, *like, FINITE, 1);
    else
        m = genM(c, {.prof = FINITE, .minCount = 1, .maxCount = 5000, .isz = 1});
    if (c.chance(1, 3)) { // away from zero
        static const double off[] = {100, 1e4, -1e6, 1e6, 1048576, -4096};
        double o = off[c.below(6)];
        for (auto &x : m.v)
            x += o;
    }
    return m;
}
} // namespace

LAW(mean, 8, "the mean of every component, over all items") {
    M m = genM(c, {.prof = FINITE, .minCount = 1});
    if (c.chance(1, 4) && m.n > 1) // a large value somewhere
        m.v[c.flip() ? m.v.size() - 1 : c.below(m.v.size())] += 1e5;
    c.log("mean of ", show(m));
    Serie s = build(c, m);
    auto r = mean(s);
    CHECK(r.isNumber == (m.isz == 1), "mean of item size ", m.isz, r.isNumber ? " is a number" : " is not a number");
    if (m.isz > 1)
        CHECK(r.array.size() == m.isz, "mean has ", r.array.size(), " components instead of ", m.isz);
    for (uint32_t j = 0; j < m.isz; ++j) {
        long double t = 0, mag = 0;
        for (uint32_t i = 0; i < m.n; ++i) {
            t += m.at(i, j);
            mag += std::fabs(m.at(i, j));
        }
        double got = m.isz == 1 ? r.number : r.array[j];
        CHECK(close(got, double(t / m.n), double(mag / m.n), 1e-11), "mean of component ", j, " is ", num(got),
              ", expected ", num(double(t / m.n)));
    }
    expectSame(s, m, "the Serie given to mean", WITH_DIM);
    c.nontrivial(m.n >= 2);
}

LAW(covariance, 8, "covariance and variance, also far from zero") {
    M x = genX(c), y = genX(c, &x);
    bool same = c.chance(1, 4);
    if (same)
        y = x;
    if (!same && c.chance(1, 3)) // correlated
        for (uint32_t i = 0; i < x.n; ++i)
            y.v[i] = 3 - 2 * x.v[i] + y.v[i] / 16;
    c.log(same ? "variance of " : "covariance of ", show(x), same ? "" : "\n  and " + show(y));
    Serie a = build(c, x), b = build(c, y);
    Cov w = cov(x, y);
    double g = same ? covariance(a, a) : covariance(a, b);
    CHECK(std::fabs(g - w.v) <= w.tol, "covariance is ", num(g), ", expected ", num(w.v), " (tolerance ", w.tol, ")");
    double t = covariance(b, a);
    CHECK(std::fabs(t - w.v) <= w.tol, "covariance the other way is ", num(t), ", expected ", num(w.v));
    expectSame(a, x, "a Serie given to covariance", WITH_DIM);
    expectSame(b, y, "a Serie given to covariance", WITH_DIM);
    c.nontrivial(x.n >= 2);
}

LAW(laws, 5, "bilinear, unchanged by constants, zero for constants, permutation of the items") {
    M x = genM(c, {.prof = EXACT, .minCount = 1, .maxCount = 3000, .isz = 1}), y = genLike(c, x, EXACT, 1),
      z = genLike(c, x, EXACT, 1);
    double k = double(c.range(-8, 8)) / 2, l = double(c.range(-8, 8)) / 4, o = double(c.range(-1000, 1000)) * 16;
    c.log("x ", show(x), "\n y ", show(y), "\n z ", show(z), " k ", k, " l ", l, " constant ", o);
    Serie X = build(c, x), Y = build(c, y), Z = build(c, z);
    M lin = x, sh = x, cst = x;
    for (uint32_t i = 0; i < x.n; ++i) {
        lin.v[i] = k * x.v[i] + l * z.v[i];
        sh.v[i] = x.v[i] + o;
        cst.v[i] = o;
    }
    Cov w = cov(lin, y), ws = cov(sh, y), w0 = cov(x, y);
    double a = covariance(direct(lin), Y), b = k * covariance(X, Y) + l * covariance(Z, Y);
    double mag = 1 + std::fabs(covariance(X, X)) + std::fabs(covariance(Y, Y)) + std::fabs(covariance(Z, Z));
    CHECK(std::fabs(a - b) <= 1e-9 * mag * 64, "covariance is not linear: ", num(a), " and ", num(b));
    CHECK(std::fabs(a - w.v) <= w.tol, "covariance of a combination is ", num(a), ", expected ", num(w.v));
    double s = covariance(direct(sh), Y);
    CHECK(std::fabs(s - w0.v) <= w0.tol + ws.tol, "adding a constant changed the covariance from ", num(w0.v), " to ", num(s));
    double z0 = covariance(direct(cst), Y);
    CHECK(std::fabs(z0) <= 1e-9 * mag, "the covariance with a constant is ", num(z0));
    CHECK(covariance(X, X) >= 0, "negative variance");
    c.nontrivial(x.n >= 2);
}

PBT_MAIN("C13",
         "A case compares the mean of every component, or the covariance of two generated scalar Series (correlated, "
         "independent, shifted by up to 1e6, or the same object), with extended precision sums. Non-trivial: at "
         "least two items.",
         459000, 3672000)
