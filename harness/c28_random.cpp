// C28: random Series are reproducible and in range.
#include "model.hpp"
#include "all.hpp"
#include <thread>

namespace {
using ::show;
using df::math::random;
struct Req {
    uint32_t n, isz;
    double lo, hi;
    unsigned seed;
};
std::string show(const Req &r) {
    return "random(" + std::to_string(r.n) + ", " + std::to_string(r.isz) + ", " + num(r.lo) + ", " + num(r.hi) + ", " +
           std::to_string(r.seed) + ")";
}
unsigned genSeed(Ctx &c) {
    static const unsigned s[] = {0, 1, 2, 42, 1234, 65535, 65536, 0x7fffffff, 0x80000000u, 0xffffffffu, 0xfffffffeu};
    return c.chance(1, 3) ? s[c.below(sizeof s / sizeof *s)] : (unsigned)c.below(1ull << 32);
}
Req genReq(Ctx &c, uint32_t maxCount = 3000) {
    Req r;
    r.n = genCount(c, 0, maxCount);
    r.isz = genItemSize(c, 9);
    while (size_t(r.n) * r.isz > 210000)
        r.isz = 1 + r.isz % 3;
    switch (c.weighted({4, 4, 2, 2, 2, 1})) {
    case 0:
        r.lo = 0, r.hi = 1;
        break;
    case 1:
        r.lo = double(c.range(-100, 100)) / 4;
        r.hi = r.lo + double(c.range(1, 400)) / 8;
        break;
    case 2: // negative only
        r.hi = -double(c.range(0, 1000)) / 16;
        r.lo = r.hi - double(c.range(1, 100));
        break;
    case 3: // very wide or very narrow
        r.hi = std::ldexp(1.0, (int)c.range(-300, 300));
        r.lo = c.flip() ? -r.hi : 0;
        break;
    case 4:
        r.lo = -double(c.range(1, 1000000));
        r.hi = double(c.range(1, 1000000));
        break;
    default: // a single value
        r.lo = r.hi = double(c.range(-40, 40)) / 8;
    }
    r.seed = genSeed(c);
    return r;
}
Serie run(const Req &r) { return random(r.n, r.isz, r.lo, r.hi, r.seed); }
void inRange(const Serie &s, const Req &r, const std::string &what) {
    expectShape(s, r.isz, r.n, what);
    auto &a = s.asArray();
    for (size_t i = 0; i < a.size(); ++i)
        CHECK(a[i] >= r.lo && a[i] <= r.hi, what, ": value ", i, " is ", num(a[i]));
}
// the range holds many more values than are drawn
bool rich(const Req &r) { return r.hi > r.lo && std::max(std::fabs(r.lo), std::fabs(r.hi)) <= 8 * (r.hi - r.lo); }
} // namespace

LAW(reproducible, 10, "the same request gives the same Serie, whatever is generated in between") {
    std::vector<Req> rs;
    std::vector<Serie> got;
    int steps = (int)c.range(2, 10), again = 0;
    for (int k = 0; k < steps; ++k) {
        if (!rs.empty() && c.flip()) {
            size_t i = c.below(rs.size());
            c.log(k, ": again ", show(rs[i]));
            ++again;
            expectSame(run(rs[i]), modelOf(got[i]), "the Serie generated again by " + show(rs[i]), WITH_DIM);
            if (c.chance(1, 4) && rs[i].n) { // writing to a result is of no effect on the next
                Serie s = run(rs[i]);
                s.setScalar(0, 1e9);
                s.asArray().back() = -1e9;
                expectSame(run(rs[i]), modelOf(got[i]), "after a write to a previous result", WITH_DIM);
            }
        } else {
            Req r = genReq(c, 400);
            if (!rs.empty() && c.chance(1, 2)) { // close to a previous one
                r = c.pick(rs);
                switch (c.below(4)) {
                case 0:
                    r.n = genCount(c, 0, 400);
                    break;
                case 1:
                    r.isz = genItemSize(c, 9);
                    break;
                case 2:
                    r.hi += 1;
                    break;
                default:
                    r.seed += 1;
                }
            }
            c.log(k, ": ", show(r));
            rs.push_back(r);
            got.push_back(run(r));
            inRange(got.back(), r, show(r));
        }
        if (c.chance(1, 6)) {
            c.log("  a Serie without a seed");
            Serie s = c.flip() ? random(5, 2) : random(3, 1, -1, 1);
            for (double d : s.asArray())
                CHECK(d >= -1 && d <= 1, "random without a seed gives ", num(d));
        }
    }
    c.nontrivial(again > 0 && rs.size() > 1);
}

LAW(many_seeds, 1, "as many Series as seeds") {
    uint32_t n = (uint32_t)c.range(200, c.chance(1, 8) ? 5000 : 1000), step = c.flip() ? 1 : (uint32_t)c.below(1u << 20) * 2 + 1;
    unsigned first = genSeed(c);
    c.log(n, " seeds from ", first, " by ", step);
    std::vector<std::pair<Array, unsigned>> all;
    for (uint32_t i = 0; i < n; ++i)
        all.push_back({random(2, 1, 0, 1, first + i * step).asArray(), first + i * step});
    std::sort(all.begin(), all.end());
    for (uint32_t i = 1; i < n; ++i)
        CHECK(all[i].first != all[i - 1].first, "the seeds ", all[i - 1].second, " and ", all[i].second, " give the same Serie");
    c.nontrivial();
}

LAW(extends, 6, "more items of one seed extend the sequence") {
    Req r = genReq(c), more = r;
    more.n = r.n + (uint32_t)c.range(1, c.flip() ? 5 : 2000);
    c.log(show(r), " and ", more.n, " items");
    Serie a = run(r), b = run(more);
    inRange(a, r, show(r));
    inRange(b, more, show(more));
    M m = modelOf(b);
    m.n = r.n;
    m.v.resize(size_t(m.n) * m.isz);
    expectSame(a, m, "the beginning of the longer sequence");
    c.nontrivial(r.n > 1 && r.hi > r.lo);
}

LAW(seeds, 6, "different seeds give different Series") {
    Req r = genReq(c, 300), o;
    if (r.n * r.isz < 2)
        r.n = 2;
    if (!rich(r))
        r.lo = -1, r.hi = 1;
    o = r;
    switch (c.below(4)) {
    case 0:
        o.seed = r.seed + 1;
        break;
    case 1: // one bit
        o.seed = r.seed ^ (1u << c.below(32));
        break;
    case 2:
        o.seed = -r.seed;
        break;
    default:
        o.seed = genSeed(c);
    }
    if (o.seed == r.seed)
        throw pbt::Discard{};
    c.log(show(r), " and ", show(o));
    Array a = run(r).asArray(), b = run(o).asArray();
    c.nontrivial();
    size_t same = 0;
    for (size_t i = 0; i < a.size(); ++i)
        same += a[i] == b[i];
    CHECK(same < a.size(), "the seeds ", r.seed, " and ", o.seed, " give the same Serie");
    CHECK(same <= 1, "the seeds ", r.seed, " and ", o.seed, " give ", same, " equal values of ", a.size());
}

LAW(spread, 8, "values are not repeated, components vary independently, over the whole range") {
    Req r = genReq(c);
    if (!rich(r))
        r.lo = -3, r.hi = 5;
    bool big = c.chance(2, 3);
    if (big && size_t(r.n) * r.isz < 400)
        r.n = 400 + r.n;
    if (c.chance(1, 100)) { // long enough for a short period to show
        r.n = (uint32_t)c.range(4000, 70000);
        r.isz = (uint32_t)c.range(1, 3);
        c.label("long");
    }
    c.log(show(r));
    Serie s = run(r);
    inRange(s, r, show(r));
    auto a = s.asArray();
    Array t = a;
    std::sort(t.begin(), t.end());
    for (size_t i = 1; i < t.size(); ++i)
        CHECK(t[i] != t[i - 1], "the value ", num(t[i]), " is repeated");
    c.nontrivial(a.size() >= 2);
    const double w = r.hi - r.lo;
    if (a.size() >= 400) {
        c.label("spread checked");
        double mean = 0;
        size_t quarter[4] = {0, 0, 0, 0};
        for (double d : a) {
            mean += (d - r.lo) / w / double(a.size());
            ++quarter[std::min(3, int((d - r.lo) / w * 4))];
        }
        CHECK(std::fabs(mean - 0.5) < 0.2, "the mean is at ", num(mean), " of the range");
        for (int k = 0; k < 4; ++k)
            CHECK(double(quarter[k]) > 0.05 * double(a.size()), "quarter ", k, " of the range holds ", quarter[k], " values of ", a.size());
        CHECK((t.front() - r.lo) / w < 0.1 && (r.hi - t.back()) / w < 0.1, "the values cover [", num(t.front()), ", ",
              num(t.back()), "] only");
    }
    if (r.isz > 1 && r.n >= 400) { // each component by itself, and in pairs
        c.label("components checked");
        auto corr = [&](uint32_t j, uint32_t k, uint32_t lag) {
            double sx = 0, sy = 0, sxx = 0, syy = 0, sxy = 0;
            double m = r.n - lag;
            for (uint32_t i = 0; i + lag < r.n; ++i) {
                double x = (a[size_t(i) * r.isz + j] - r.lo) / w, y = (a[size_t(i + lag) * r.isz + k] - r.lo) / w;
                sx += x, sy += y, sxx += x * x, syy += y * y, sxy += x * y;
            }
            double vx = sxx / m - sx * sx / m / m, vy = syy / m - sy * sy / m / m;
            CHECK(vx > 0.02 && vy > 0.02, "component ", j, " or ", k, " is (almost) constant");
            return (sxy / m - sx * sy / m / m) / std::sqrt(vx * vy);
        };
        for (uint32_t j = 0; j < r.isz; ++j)
            for (uint32_t k = 0; k < j; ++k)
                CHECK(std::fabs(corr(j, k, 0)) < 0.5, "components ", k, " and ", j, " are correlated: ", num(corr(j, k, 0)));
        CHECK(std::fabs(corr(0, 0, 1)) < 0.5 && std::fabs(corr(r.isz - 1, 0, 1)) < 0.5, "successive items are correlated");
    }
}

LAW(unseeded, 1, "without a seed: in range, and not always the same") {
    uint32_t n = (uint32_t)c.range(2, 60), isz = genItemSize(c, 6);
    c.log("random(", n, ", ", isz, ") twice");
    Serie a = random(n, isz), b = random(n, isz);
    inRange(a, {n, isz, 0, 1, 0}, "random without a range");
    inRange(b, {n, isz, 0, 1, 0}, "random without a range");
    CHECK(!sameBits(a.asArray(), b.asArray()), "two Series generated without a seed are the same");
    Serie d = random(n, isz, 5, 6);
    inRange(d, {n, isz, 5, 6, 0}, "random without a seed");
    c.nontrivial();
}

LAW(concurrent, 1, "generations at the same time do not disturb each other") {
    std::vector<Req> rs;
    for (int k = 0; k < 3; ++k)
        rs.push_back(genReq(c, 300));
    for (auto &r : rs)
        c.log(show(r));
    c.nontrivial();
    std::vector<Array> want, got(3);
    for (auto &r : rs)
        want.push_back(run(r).asArray());
    std::vector<std::thread> th;
    for (int k = 0; k < 3; ++k)
        th.emplace_back([&, k] { got[k] = run(rs[k]).asArray(); });
    for (auto &t : th)
        t.join();
    for (int k = 0; k < 3; ++k)
        CHECK(sameBits(got[k], want[k]), show(rs[k]), " gives another Serie while others are generated");
}

PBT_MAIN("C28",
         "A case is a history of 2 to 10 generations (seeds including extremes, counts 0 to 3000, rarely up to 70000, item sizes 1 to 9, any "
         "range) or one to three requests. Non-trivial: a request is repeated after another one, or the Serie holds "
         "several values over a non-empty range.",
         128000, 1024000)
