// C21: Cartesian grids contain exactly the right points.
#include "model.hpp"
#include "all.hpp"

namespace {
using ::show;
namespace cart = df::grid::cartesian;
std::vector<uint32_t> genN(Ctx &c) {
    std::vector<uint32_t> n;
    size_t k = (size_t)c.range(1, 3);
    uint64_t total = 1;
    for (size_t i = 0; i < k; ++i) {
        uint32_t v = 1;
        switch (c.weighted({10, 3, 4, 1, 1})) {
        case 0:
            v = (uint32_t)c.range(2, 7);
            break;
        case 1:
            v = 1;
            break;
        case 2:
            v = (uint32_t)c.range(8, 40);
            break;
        case 3:
            v = 0;
            break;
        case 4:
            v = (uint32_t)c.range(41, 1000);
        }
        if (total * std::max(1u, v) > 20000)
            v = 2;
        total *= std::max(1u, v);
        n.push_back(v);
    }
    return n;
}
std::string text(const std::vector<uint32_t> &n) {
    std::string s;
    for (auto x : n)
        s += std::to_string(x) + " ";
    return s;
}
Array genPoint(Ctx &c) { return genValues(c, 3, FINITE); }
// every point at the place of its three indices
void checkGrid(const Serie &g, std::vector<uint32_t> n, const Array &lo, const Array &hi, const Array &in1, const Array &in2) {
    n.resize(3, 1);
    uint32_t total = n[0] * n[1] * n[2];
    expectShape(g, 3, total, "the grid");
    if (!total)
        return;
    const Array &v = g.asArray();
    double mag[3], fixed[3];
    for (int a = 0; a < 3; ++a) {
        mag[a] = std::max({std::fabs(lo[a]), std::fabs(hi[a]), std::fabs(hi[a] - lo[a])});
        fixed[a] = v[a];
        if (n[a] < 2) { // constant, within the box
            double x = std::min(in1[a], in2[a]), y = std::max(in1[a], in2[a]);
            CHECK(fixed[a] >= x - 1e-12 * mag[a] && fixed[a] <= y + 1e-12 * mag[a], "axis ", a, " of one point is at ", num(fixed[a]),
                  ", outside of ", num(x), " ... ", num(y));
        }
    }
    for (uint32_t k = 0, p = 0; k < n[2]; ++k)
        for (uint32_t j = 0; j < n[1]; ++j)
            for (uint32_t i = 0; i < n[0]; ++i, ++p) {
                uint32_t id[3] = {i, j, k};
                for (int a = 0; a < 3; ++a) {
                    double w = n[a] < 2 ? fixed[a] : lo[a] + (hi[a] - lo[a]) * (double(id[a]) / (n[a] - 1));
                    CHECK(std::fabs(v[p * 3 + a] - w) <= 1e-12 * mag[a], "coordinate ", a, " of point ", p, " (", i, ", ", j, ", ", k, ") is ",
                          num(v[p * 3 + a]), ", expected ", num(w));
                }
            }
}
bool interesting(const std::vector<uint32_t> &n) {
    uint32_t several = 0;
    for (auto x : n)
        several += x >= 2;
    return several >= 1;
}
} // namespace

LAW(from_points, 8, "from one point to the opposite one") {
    auto n = genN(c);
    Array a = genPoint(c), b = genPoint(c);
    c.log("from_points ", text(n), show(a), " ", show(b));
    Array a0 = a, b0 = b;
    auto n0 = n;
    Serie g = cart::from_points(n, a, b);
    checkGrid(g, n, a, b, a, b);
    CHECK(sameBits(a, a0) && sameBits(b, b0) && n == n0, "from_points changed its arguments");
    expectSame(cart::from_points(n, a, b), modelOf(g), "the same grid made twice");
    c.nontrivial(interesting(n));
}

LAW(from_dims, 8, "the box of the given dimensions around the center") {
    auto n = genN(c);
    Array center = genPoint(c), dims = genPoint(c);
    for (auto &d : dims)
        d = std::fabs(d);
    int dflt = (int)c.below(6);
    if (dflt == 1)
        dims = {1, 1, 1};
    if (dflt == 2) {
        dims = {1, 1, 1};
        center = {0, 0, 0};
    }
    c.log("from_dims ", text(n), show(center), " ", show(dims));
    Array lo(3), hi(3);
    for (int a = 0; a < 3; ++a) {
        lo[a] = center[a] - dims[a] / 2;
        hi[a] = center[a] + dims[a] / 2;
    }
    Serie g = dflt == 2 ? cart::from_dims(n) : dflt == 1 ? cart::from_dims(n, center) : cart::from_dims(n, center, dims);
    checkGrid(g, n, lo, hi, lo, hi);
    // the same box given by its corners
    bool all = n.size() == 3;
    for (auto x : n)
        all = all && x >= 2;
    if (all) {
        Serie h = cart::from_points(n, lo, hi);
        Array mag;
        for (size_t i = 0; i < h.asArray().size(); ++i)
            mag.push_back(std::fabs(lo[i % 3]) + std::fabs(hi[i % 3]));
        expectClose(g, modelOf(h), "the grid of the same box", mag, 1e-12);
    }
    c.nontrivial(interesting(n));
}

PBT_MAIN("C21",
         "A case is a grid of one to three axes (0 to 1000 points per axis, axes of one point and missing axes "
         "included) between generated points or around a generated center; every coordinate of every point is "
         "checked. Non-trivial: an axis of at least two points.",
         200000, 1600000)
