// C22: InSAR projection and fringes.
#include "model.hpp"
#include "all.hpp"

namespace {
using ::show;
using namespace df::geo;
using LD = long double;
} // namespace

LAW(insar, 6, "projection on the line of sight") {
    M u = genM(c, {.prof = FINITE, .maxCount = 5000, .isz = 3});
    Array los = genValues(c, 3, FINITE);
    c.log("insar of ", show(u), " along ", show(los));
    Serie s = build(c, u);
    Array los0 = los;
    Serie r = c.flip() ? insar(s, los) : df::algebra::dot(s, los);
    Serie q = insar(s, los);
    M w = M::empty(1, u.dim);
    Array mag;
    for (uint32_t i = 0; i < u.n; ++i) {
        LD t = 0, m = 0;
        for (int j = 0; j < 3; ++j) {
            t += (LD)u.at(i, j) * los[j];
            m += fabsl((LD)u.at(i, j) * los[j]);
        }
        w.push({double(t)});
        mag.push_back(double(m));
    }
    expectCloseOrNone(q, w, "insar", mag, 1e-11);
    expectCloseOrNone(r, w, "the dot product", mag, 1e-11);
    expectSame(s, u, "the displacements", WITH_DIM);
    CHECK(sameBits(los, los0), "insar changed the line of sight");
    c.nontrivial(u.n >= 2);
}

LAW(fringes, 8, "within [0, s], off by a whole multiple of s") {
    M v = genM(c, {.prof = FINITE, .maxCount = 5000, .isz = 1});
    static const double sp[] = {1, 0.5, 0.028, 3, 0.1, 10, 7.25, 1e-3, 1000, 1e-9, 1e-7, 1e6};
    double s = c.chance(1, 6) ? std::ldexp(1.0 + double(c.below(64)) / 64, (int)c.range(-300, 300)) : sp[c.below(12)];
    bool near = c.flip(); // a few spacings at most, whatever the spacing
    for (size_t i = 0; i < v.v.size(); ++i) // multiples of s too
        if (i % 6 == 1)
            v.v[i] = s * std::floor(v.v[i]);
        else if (near && std::fabs(v.v[i]) < 1e6)
            v.v[i] *= s;
    if (c.chance(1, 4)) { // many spacings away: beyond what fits in 32 bits
        double k = std::ldexp(1.0, (int)c.range(10, 34));
        for (auto &x : v.v)
            if (std::fabs(x) < 1e6)
                x *= k;
        c.label("many spacings");
    }
    c.log("fringes of ", show(v), " spacing ", num(s));
    Serie a = build(c, v);
    Serie r = fringes(a, s);
    if (v.n == 0) {
        CHECK(r.count() == 0, "fringes of an empty Serie are not empty");
        return;
    }
    expectShape(r, 1, v.n, "fringes");
    for (uint32_t i = 0; i < v.n; ++i) {
        double x = r.scalar(i);
        CHECK(x >= 0 && x <= s, "fringe ", i, " is ", num(x), ", outside of [0, ", num(s), "]");
        LD k = ((LD)v.v[i] - x) / s, err = fabsl(k - roundl(k));
        CHECK(err <= 1e-14L * (1 + fabsl((LD)v.v[i] / s)) * 10 + 1e-12L, "fringe ", i, " of ", num(v.v[i]), " is ", num(x),
              ", off by ", (double)k, " times the spacing");
    }
    expectSame(a, v, "the Serie given to fringes", WITH_DIM);
    c.nontrivial(v.n >= 2);
}

LAW(laws, 4, "linear projection; fringes of a scaled problem") {
    M u = genM(c, {.prof = EXACT, .minCount = 1, .maxCount = 1000, .isz = 3}), w = genLike(c, u, EXACT, 3);
    Array los = genValues(c, 3, EXACT);
    double k = std::ldexp(1.0, (int)c.range(-3, 3));
    static const double sp[] = {1, 0.5, 2, 0.25, 8};
    double s = sp[c.below(5)];
    c.log("u ", show(u), "\n w ", show(w), " los ", show(los), " k ", k, " s ", s);
    Serie U = build(c, u), W = build(c, w);
    Serie a = insar(U, los), b = insar(W, los), ab = insar(df::math::add(df::math::scale(U, k), W), los);
    for (uint32_t i = 0; i < u.n; ++i) {
        double m = 0;
        for (int j = 0; j < 3; ++j)
            m += (std::fabs(u.at(i, j)) * k + std::fabs(w.at(i, j))) * std::fabs(los[j]);
        CHECK(close(ab.scalar(i), k * a.scalar(i) + b.scalar(i), m, 1e-11), "insar is not linear at item ", i);
    }
    // everything is a dyadic number: exact
    Serie f = fringes(a, s), g = fringes(df::math::scale(a, k), s * k);
    for (uint32_t i = 0; i < u.n; ++i) {
        CHECK(close(g.scalar(i), k * f.scalar(i), s * k, 1e-9), "fringes of the scaled problem are not scaled at item ", i, ": ",
              num(f.scalar(i)), " and ", num(g.scalar(i)), " for ", num(a.scalar(i)));
        double m = std::fmod(a.scalar(i), s);
        if (m < 0)
            m += s;
        if (std::fabs(a.scalar(i)) < 1e9) {
            double d = std::fabs(f.scalar(i) - m);
            CHECK(std::min(d, std::fabs(s - d)) <= 1e-6 * s, "fringe of ", num(a.scalar(i)), " is ", num(f.scalar(i)), ", expected ", num(m));
        }
    }
    c.nontrivial(u.n >= 2);
}

PBT_MAIN("C22",
         "A case projects generated displacements on a generated line of sight, or takes the fringes of generated "
         "values (negative, large, multiples of the spacing) for a positive spacing. Non-trivial: at least two items.",
         255000, 2040000)
